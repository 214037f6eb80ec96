/* SOCKS5 proxy: exact parsing of requests, only valid users are accepted. */
//@ prop: X02
//@ engine: symx
//@ nosrc: bsock msock iol
//@ lib: cstr
//@ config: OP=0 NM=3
//@ config: OP=0 NM=200
//@ config: OP=1
//@ config: OP=2
//@ config: OP=3
//@ config: OP=4
//@ bound: SOCKS5 proxy: up to 3 (or 200 or 255) offered methods, user names and passwords of 0, 1, 3, 127, 128 and 255 arbitrary bytes, host names of 0, 1, 2, 127, 128 and 255 arbitrary bytes, every version, reserved, command and address type byte, every port and address; stream ending or failing at any call
#ifndef NM
#define NM 0
#endif
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "socks5.c"
#include "s5.h"
/* OP 0: method selection, 1: user and password, 2: command with address, 3: command by name, 4: reply */
static char rname[300];
static int resolved, rport, rmode;
int dill_ipaddr_remote(struct dill_ipaddr *a, const char *nm, int port, int mode, int64_t dl) {
    CHECK(dl == DL, "resolves until the deadline");
    CHECK(port >= 0 && port <= 65535, "port");
    resolved++;
    rport = port;
    rmode = mode;
    strcpy(rname, nm);
    memset(a, 0, sizeof(*a));
    struct in_addr i4;
    if(nm[0] == ':') {
        struct sockaddr_in6 *x = (struct sockaddr_in6*)a;
        if(mode == DILL_IPADDR_IPV4) {errno = EADDRNOTAVAIL; return -1;}
        x->sin6_family = AF_INET6;
        x->sin6_addr.s6_addr[15] = 1;
        x->sin6_port = htons(port);
    } else {
        struct sockaddr_in *x = (struct sockaddr_in*)a;
        if(mode == DILL_IPADDR_IPV6) {errno = EADDRNOTAVAIL; return -1;}
        if(nm[0] == 'b') {errno = ENOENT; return -1;}
        x->sin_family = AF_INET;
        x->sin_addr.s_addr = 0x55555555;
        x->sin_port = htons(port);
    }
    return 0;
}
static const int lens[] = {0, 1, 3, 127, 128, 255};
static uint8_t user[256], pass[256];
static int ulen, plen, authcalls, verdict;
static int auth(const char *u, const char *p) {
    int i;
    authcalls++;
    for(i = 0; i != ulen; ++i) CHECK((uint8_t)u[i] == user[i] && u[i], "user name exactly as sent");
    for(i = 0; i != plen; ++i) CHECK((uint8_t)p[i] == pass[i] && p[i], "password exactly as sent");
    CHECK(u[ulen] == 0 && p[plen] == 0, "terminated");
    return verdict;
}
static void bytes(uint8_t *b, int n) {
    int i;
    for(i = 0; i != n; ++i) {
        b[i] = i < 2 || i == n - 1 ? nd_u8() : 'a' + i % 26;
        in[inlen++] = b[i];
    }
}
static int haszero(const uint8_t *b, int n) {
    int i, z = 0;
    for(i = 0; i != n; ++i) z |= b[i] == 0;
    return z;
}
int main(void) {
    int i, rc, err;
    if(OP <= 1) {
        int useauth = OP == 1 || nd_bool();
        int ver = OP == 0 ? nd_u8() : 5;
        int nm = OP == 0 ? (NM > 3 ? (nd_bool() ? NM : 255) : pick(NM + 1)) : 1;
        int na = 0, up = 0;
        in[inlen++] = ver;
        in[inlen++] = nm;
        for(i = 0; i != nm; ++i) {
            in[inlen] = OP == 1 ? 2 : i < 2 || i == nm - 1 ? nd_u8() : 7;
            na |= in[inlen] == 0;
            up |= in[inlen] == 2;
            inlen++;
        }
        int aver = OP == 1 ? nd_u8() : 1;
        in[inlen++] = aver;
        ulen = OP == 1 ? lens[pick(6)] : 1;
        in[inlen++] = ulen;
        bytes(user, ulen);
        plen = OP == 1 ? lens[pick(6)] : 1;
        in[inlen++] = plen;
        bytes(pass, plen);
        int zero = haszero(user, ulen) || haszero(pass, plen);
        in[inlen++] = 0x55;
        verdict = nd_bool() * 5;
        failat = pick(10);
        notb = failat == 0 && nd_bool();
        rc = dill_socks5_proxy_auth(SOCK, useauth ? auth : NULL, DL);
        err = errno;
        CHECK(rc == 0 || (rc == -1 && err != 0), "result");
        if(notb) {CHECK(rc == -1 && err == ENOTSUP && outlen == 0, "not a bytestream"); WITNESS("not a bytestream"); return 0;}
        w(5);
        if(failed) {
            CHECK(rc == -1 && err == failed && authcalls <= 1, "failure is reported");
            if(outlen >= 2) CHECK(useauth && up && out[0] == 5 && out[1] == 2 && outlen == 2, "method was selected");
            WITNESS("transport failed");
            return 0;
        }
        if(ver != 5) {CHECK(rc == -1 && err == EPROTO && outlen == 0 && !authcalls, "bad version"); WITNESS("bad version"); return 0;}
        if(!useauth && na) {
            CHECK(rc == 0 && inpos == 2 + nm, "no authentication needed");
            w(0);
            sent_exactly(2);
            WITNESS("no authentication");
        } else if(useauth && up) {
            w(2);
            if(aver != 1) {CHECK(rc == -1 && err == EPROTO && !authcalls, "malformed"); sent_exactly(2); WITNESS("malformed"); return 0;}
            if(zero) {
                /* Cannot be passed to the function as strings. */
                CHECK(rc == -1 && !authcalls, "user is refused");
                WITNESS("malformed name");
                return 0;
            }
            CHECK(inpos == inlen - 1, "reads exactly the handshake");
            CHECK(authcalls == 1, "user is verified");
            w(1);
            if(verdict) {
                CHECK(rc == 0, "user is accepted");
                w(0);
                sent_exactly(4);
                WITNESS("accepted");
            } else {
                CHECK(rc == -1 && err == EACCES, "user is refused");
                CHECK(outlen == 4 && out[3] != 0, "refusal is sent");
                sent_exactly(3 + (want[wantlen++] = out[3], 1));
                WITNESS("refused");
            }
        } else {
            CHECK(rc == -1 && err == EACCES && inpos == 2 + nm && !authcalls, "no common method");
            w(0xff);
            sent_exactly(2);
            WITNESS("no common method");
        }
        return 0;
    }
    if(OP <= 3) {
        int ver = nd_u8(), cmd = nd_u8(), rsv = nd_u8(), atyp = nd_u8();
        uint8_t addr[256];
        int n = 0;
        in[inlen++] = ver;
        in[inlen++] = cmd;
        in[inlen++] = rsv;
        in[inlen++] = atyp;
        if(atyp == 1) n = 4;
        else if(atyp == 4) n = 16;
        else {
            static const int hl[] = {0, 1, 2, 127, 128, 255};
            n = hl[pick(6)];
            in[inlen++] = n;
        }
        if(atyp == 3) bytes(addr, n);
        else for(i = 0; i != n; ++i) addr[i] = in[inlen++] = OP == 2 ? nd_u8() : i < 6 ? 0 : 16 * i + 1;
        int port = nd_u64() & 0xffff;
        in[inlen++] = port >> 8;
        in[inlen++] = port & 0xff;
        in[inlen++] = 0x55;
        failat = pick(5);
        struct dill_ipaddr a;
        int p = -1;
        char *h = malloc(256);
        memset(h, 0xee, 256);
        memset(&a, 0xee, sizeof(a));
        errno = 0;
        if(OP == 2) rc = dill_socks5_proxy_recvcommand(SOCK, &a, DL);
        else rc = dill_socks5_proxy_recvcommandbyname(SOCK, h, &p, DL);
        err = errno;
        CHECK(rc > 0 || (rc == -1 && err != 0), "result");
        CHECK(outlen == 0, "sends nothing");
        if(failed) {CHECK(rc == -1 && err == failed, "failure is reported"); WITNESS("transport failed"); return 0;}
        if(ver != 5 || rsv != 0 || (atyp != 1 && atyp != 3 && atyp != 4) || cmd < 1 || cmd > 3) {
            CHECK(rc == -1 && err == EPROTO, "malformed request is refused");
            CHECK(inpos <= inlen - 1, "reads no more than the request");
            WITNESS("malformed");
            return 0;
        }
        CHECK(inpos == inlen - 1, "reads exactly the request");
        if(atyp == 3 && haszero(addr, n)) {
            CHECK(rc == -1, "name is not a string");
            WITNESS("malformed name");
            return 0;
        }
        if(OP == 2) {
            if(rc == -1) {
                CHECK(atyp == 3 && resolved == 1 && err == ENOENT, "only resolution may fail");
                WITNESS("not resolved");
                return 0;
            }
            CHECK(rc == cmd, "command");
            CHECK(dill_ipaddr_port(&a) == port, "port");
            if(atyp == 1) {
                CHECK(dill_ipaddr_family(&a) == AF_INET, "family");
                for(i = 0; i != 4; ++i) CHECK(((uint8_t*)&((struct sockaddr_in*)&a)->sin_addr)[i] == addr[i], "address");
                WITNESS("IPv4");
            } else if(atyp == 4) {
                CHECK(dill_ipaddr_family(&a) == AF_INET6, "family");
                for(i = 0; i != 16; ++i) CHECK(((uint8_t*)&((struct sockaddr_in6*)&a)->sin6_addr)[i] == addr[i], "address");
                WITNESS("IPv6");
            } else {
                CHECK(resolved == 1 && rport == port, "resolved once");
                for(i = 0; i != n; ++i) CHECK((uint8_t)rname[i] == addr[i], "name");
                CHECK(rname[n] == 0, "whole name");
                WITNESS("name");
            }
        } else {
            CHECK(rc == cmd && resolved == 0, "command");
            CHECK(p == port, "port");
            uint8_t b[16];
            if(atyp == 1) {CHECK(inet_pton(AF_INET, h, b) == 1 && !memcmp(b, addr, 4), "address"); WITNESS("IPv4");}
            else if(atyp == 4) {CHECK(inet_pton(AF_INET6, h, b) == 1 && !memcmp(b, addr, 16), "address"); WITNESS("IPv6");}
            else {
                for(i = 0; i != n; ++i) CHECK((uint8_t)h[i] == addr[i], "name");
                CHECK(h[n] == 0, "terminated");
                WITNESS("name");
            }
        }
        return 0;
    }
    /* Reply. */
    struct dill_ipaddr a;
    memset(&a, 0, sizeof(a));
    uint8_t bin[16];
    int n = 0;
    for(i = 0; i != 16; ++i) bin[i] = nd_u8();
    int port = nd_u64() & 0xffff, fam = pick(3);
    if(fam == 0) {
        struct sockaddr_in *x = (struct sockaddr_in*)&a;
        x->sin_family = AF_INET; x->sin_port = htons(port); memcpy(&x->sin_addr, bin, n = 4);
    } else if(fam == 1) {
        struct sockaddr_in6 *x = (struct sockaddr_in6*)&a;
        x->sin6_family = AF_INET6; x->sin6_port = htons(port); memcpy(&x->sin6_addr, bin, n = 16);
    }
    int reply = nd_int();
    failat = pick(2);
    rc = dill_socks5_proxy_sendreply(SOCK, reply, &a, DL);
    err = errno;
    if(failed) {CHECK(rc == -1 && err == failed, "failure is reported"); WITNESS("transport failed"); return 0;}
    if(reply < 0 || reply > 8 || fam == 2) {
        CHECK(rc == -1 && err == EINVAL && outlen == 0, "invalid argument");
        WITNESS("invalid");
        return 0;
    }
    CHECK(rc == 0, "sent");
    w(5); w(reply); w(0); w(fam == 0 ? 1 : 4);
    wn(bin, n);
    w(port >> 8); w(port & 0xff);
    sent_exactly(wantlen);
    WITNESS("reply");
    return 0;
}
