/* SOCKS5 client: exact requests, success only on a well-formed success reply. */
//@ prop: X01
//@ engine: symx
//@ nosrc: bsock msock iol
//@ lib: cstr
//@ config: MODE=0
//@ config: MODE=1
//@ config: MODE=2
//@ config: MODE=3
//@ bound: SOCKS5 client: user names and passwords that are missing or of 0, 1, 3, 255 or 256 characters; every method choice, authentication reply, connect reply code and address type; bound names of 0, 1, 128 and 255 bytes; host names of 1, 3, 254, 255 and 256 bytes, literals of both families, all ports; stream ending or failing at any call
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "socks5.c"
#include "s5.h"
/* MODE 0: authentication, 1: replies to the connect request, 2: requests, 3: failures */
int dill_ipaddr_remote(struct dill_ipaddr *addr, const char *nm, int port, int mode, int64_t dl) {CHECK(0, "no name resolution"); return -1;}
static const int lens[] = {0, 1, 3, 255, 256};
int main(void) {
    int byname = nd_bool(), i;
    int ulen = MODE == 0 ? pick(6) - 1 : -1, plen = MODE == 0 ? pick(6) - 1 : -1;
    char *u = NULL, *p = NULL;
    if(MODE == 3 && nd_bool()) ulen = plen = 2;
    if(ulen >= 0) {ulen = lens[ulen]; u = malloc(ulen + 1); name(u, ulen);}
    if(plen >= 0) {plen = lens[plen]; p = malloc(plen + 1); name(p, plen);}
    int creds = u && p;
    int badcreds = ulen > 255 || plen > 255;
    /* Address to connect to. */
    struct dill_ipaddr addr;
    memset(&addr, 0, sizeof(addr));
    int port = MODE == 2 ? (int)nd_range(-1, 65536) : 0x1234;
    int atyp = 3, badaddr = 0;
    uint8_t bin[16];
    char *h = NULL;
    if(MODE != 2) for(i = 0; i != 16; ++i) bin[i] = i + 1;
    else for(i = 0; i != 16; ++i) bin[i] = nd_u8();
    if(!byname) {
        switch(MODE == 2 ? pick(3) : nd_bool()) {
        case 0: {
            struct sockaddr_in *a = (struct sockaddr_in*)&addr;
            atyp = 1;
            a->sin_family = AF_INET; a->sin_port = htons(port); memcpy(&a->sin_addr, bin, 4);
            break;}
        case 1: {
            struct sockaddr_in6 *a = (struct sockaddr_in6*)&addr;
            atyp = 4;
            a->sin6_family = AF_INET6; a->sin6_port = htons(port); memcpy(&a->sin6_addr, bin, 16);
            break;}
        case 2: badaddr = 1; break;
        }
        ASSUME(port >= 0 && port <= 65535);
    } else {
        int hlen = 3;
        if(port <= 0 || port > 65535) badaddr = 1;
        if(MODE == 2) switch(pick(8)) {
        case 0: hlen = 1; break;
        case 1: hlen = 3; break;
        case 2: hlen = 254; break;
        case 3: hlen = 255; break;
        case 4: hlen = 256; badaddr = 1; break;
        case 5: hlen = -1; h = "1.2.30.255"; atyp = 1; memcpy(bin, "\1\2\36\377", 4); break;
        case 6: hlen = -1; h = "1:2::a0"; atyp = 4; memcpy(bin, "\0\1\0\2\0\0\0\0\0\0\0\0\0\0\0\240", 16); break;
        case 7: hlen = -1; badaddr = 1; break;
        }
        if(hlen >= 0) {
            h = malloc(hlen + 1);
            name(h, hlen);
            if(hlen < 254) h[hlen - 1] = 'z';    /* never a literal */
        }
    }
    /* What the proxy sends. */
    int meth = 0, authst = 0, stage = 0;     /* stage where it is refused */
    int authver = 1, ver1 = 5;
    if(MODE == 0) {ver1 = nd_u8(); meth = nd_u8();}
    else if(MODE == 3 && creds) meth = nd_bool() * 2;
    in[inlen++] = ver1;
    in[inlen++] = meth;
    int upsent = 0;
    if(ver1 != 5) stage = 1;
    else if(meth == 2) {
        if(!creds) stage = 1;
        else {
            if(MODE == 0) {authver = nd_u8(); authst = nd_u8();}
            in[inlen++] = authver;
            in[inlen++] = authst;
            upsent = 1;
            if(authver != 1 || authst != 0) stage = 2;
        }
    } else if(meth != 0) stage = 1;
    size_t hs = inlen;
    int rep = 0, rsv = 0, rver = 5, ratyp = 1;
    if(MODE == 1) {rver = nd_u8(); rep = nd_u8(); rsv = nd_u8(); ratyp = nd_u8();}
    else if(MODE == 3) ratyp = 3;
    in[inlen++] = rver;
    in[inlen++] = rep;
    in[inlen++] = rsv;
    in[inlen++] = ratyp;
    int n = 0;
    if(ratyp == 1) n = 6;
    else if(ratyp == 4) n = 18;
    else if(ratyp == 3) {
        int l = 2;
        if(MODE == 1) switch(pick(4)) {case 0: l = 0; break; case 1: l = 1; break; case 2: l = 128; break; default: l = 255; break;}
        in[inlen++] = l;
        n = l + 2;
    } else stage = stage ? stage : 4;
    for(i = 0; i != n; ++i) in[inlen++] = i < 20 && MODE == 1 ? nd_u8() : i;
    if(rver != 5 || rsv != 0) stage = stage ? stage : 4;
    size_t end = inlen;
    if(rep != 0 && !stage) stage = 5;
    in[inlen++] = 0x55;                      /* not part of the handshake */
    if(MODE == 3) failat = 1 + pick(8);
    if(MODE == 2 && port == 0x1234) {notb = nd_bool();}
    errno = 0;
    int rc = byname ? dill_socks5_client_connectbyname(SOCK, u, p, h, port, DL) :
        dill_socks5_client_connect(SOCK, u, p, &addr, DL);
    int err = errno;
    CHECK(rc == 0 || (rc == -1 && err != 0), "result");
    /* What should have been sent. */
    size_t w1, w2, w3;
    w(5); w(creds ? 2 : 1); w(0); if(creds) w(2);
    w1 = wantlen;
    if(upsent) {w(1); w(ulen); wn(u, ulen); w(plen); wn(p, plen);}
    w2 = wantlen;
    if(!stage || stage > 2) {
        w(5); w(1); w(0); w(atyp);
        if(atyp == 1) wn(bin, 4);
        else if(atyp == 4) wn(bin, 16);
        else if(!badaddr) {w(strlen(h)); wn(h, strlen(h));}
        w(port >> 8); w(port & 0xff);
    }
    w3 = wantlen;
    if(notb) {CHECK(rc == -1 && err == ENOTSUP && outlen == 0 && inpos == 0, "not a bytestream"); WITNESS("not a bytestream"); return 0;}
    if(badcreds) {CHECK(rc == -1 && err == EINVAL && outlen == 0 && inpos == 0, "credentials too long"); WITNESS("credentials too long"); return 0;}
    if(failed) {
        CHECK(rc == -1 && err == failed, "failure is reported");
        CHECK(outlen == 0 || outlen == w1 || outlen == w2 || outlen == w3, "whole messages");
        sent_exactly(outlen);
        WITNESS("transport failed");
        return 0;
    }
    if(stage == 1) {
        CHECK(rc == -1 && inpos == 2, "method refused");
        CHECK(err == EPROTO || err == EACCES, "reason");
        if(ver1 == 5 && meth == 0xff) CHECK(err == EACCES, "no acceptable method");
        sent_exactly(w1);
        WITNESS("method refused");
    } else if(stage == 2) {
        CHECK(rc == -1 && inpos == 4, "authentication refused");
        CHECK(err == (authver == 1 ? EACCES : EPROTO), "reason");
        sent_exactly(w2);
        WITNESS("authentication refused");
    } else if(badaddr) {
        CHECK(rc == -1 && err == EINVAL && inpos == hs, "invalid address");
        sent_exactly(w2);
        WITNESS("invalid address");
    } else if(stage == 4) {
        CHECK(rc == -1 && err == EPROTO, "malformed reply");
        CHECK(inpos <= end, "reads no more than the handshake");
        sent_exactly(w3);
        WITNESS("malformed reply");
    } else if(stage == 5) {
        static const int errs[] = {0, EIO, EACCES, ENETUNREACH, EHOSTUNREACH, ECONNREFUSED, ETIMEDOUT, EOPNOTSUPP, EAFNOSUPPORT};
        CHECK(rc == -1, "connection refused");
        CHECK(inpos == end, "reads exactly the handshake");
        for(i = 1; i != 9; ++i) if(rep == i) CHECK(err == errs[i], "reason");
        if(rep > 8) CHECK(err == EPROTO, "unknown reason");
        sent_exactly(w3);
        WITNESS("connection refused");
    } else {
        CHECK(rc == 0, "connected");
        CHECK(inpos == end, "reads exactly the handshake");
        sent_exactly(w3);
        WITNESS("connected");
    }
    return 0;
}
