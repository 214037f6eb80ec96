/* WebSocket over HTTP: the handshake is performed and checked as the protocol
   says; whatever fails, the connection is closed exactly once. */
//@ prop: W04 O01
//@ engine: symx
//@ src: iol
//@ nosrc: bsock utils
//@ lib: m_handle cstr
//@ config: SERVER=0 FAULT=0
//@ config: SERVER=1 FAULT=0
//@ config: SERVER=0 FAULT=1
//@ config: SERVER=1 FAULT=1
//@ bound: WebSocket handshake: the correct HTTP header or one with a field missing, repeated, moved, renamed, in other case, with any one byte of its value changed, unknown fields, any status, methods of the right length, host buffers of all critical sizes; failure at any call below, of any allocation and handle; storage on the heap or supplied
#define __NO_CTYPE
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "m_handle.h"
#define dill_random real_random
#include "utils.c"
#undef dill_random
int dill_random(uint8_t *buf, size_t len);
#include "ws.c"
static int rndfail;
int dill_random(uint8_t *buf, size_t len) {
    if(rndfail) {errno = EIO; return -1;}
    size_t i;
    for(i = 0; i != len; ++i) buf[i] = 17 * i + 3;
    return 0;
}
dill_unique_id(dill_bsock_type);
int dill_brecv(int s, void *buf, size_t len, int64_t dl) {CHECK(0, "only HTTP is spoken"); return -1;}
int dill_brecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {CHECK(0, "only HTTP is spoken"); return -1;}
int dill_bsend(int s, const void *buf, size_t len, int64_t dl) {CHECK(0, "only HTTP is spoken"); return -1;}
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {CHECK(0, "only HTTP is spoken"); return -1;}

/* The connection and the HTTP socket on top of it. */
static int u_closed, hs_closed, hs_u = -1, isb = 1;
static void *u_query(struct dill_hvfs *v, const void *type) {
    if(isb && type == dill_bsock_type) return v;
    errno = ENOTSUP;
    return NULL;
}
static void u_close(struct dill_hvfs *v) {u_closed++;}
static struct dill_hvfs u_vfs = {u_query, u_close};
static void *hs_query(struct dill_hvfs *v, const void *type) {errno = ENOTSUP; return NULL;}
static void hs_close(struct dill_hvfs *v) {
    hs_closed++;
    if(hs_u >= 0) CHECK(dill_hclose(hs_u) == 0, "closed once");
    hs_u = -1;
}
static struct dill_hvfs hs_vfs = {hs_query, hs_close};
static int hs = -1, failed, failat, calls, phase, done;
static int fails(void) {
    if(++calls == failat) {failed = nd_errno(); if(failed == EPIPE) failed = ECONNRESET; errno = failed; return 1;}
    return 0;
}
int dill_http_attach_mem(int s, struct dill_http_storage *mem) {
    CHECK(hs < 0 && dill_hquery(s, dill_bsock_type) == &u_vfs, "on top of the connection");
    memset(mem, 0x77, sizeof(*mem));
    if(fails()) {dill_hclose(s); errno = failed; return -1;}
    hs_u = dill_hown(s);
    if(hs_u < 0) {failed = errno; return -1;}
    hs = dill_hmake(&hs_vfs);
    if(hs < 0) {failed = errno; dill_hclose(hs_u); hs_u = -1; errno = failed; return -1;}
    return hs;
}
int dill_http_detach(int s, int64_t dl) {
    CHECK(s == hs && dl == 77, "detaches HTTP");
    CHECK(phase == 9 || (SERVER && phase == 3), "header was read completely");
    int u = hs_u;
    if(fails()) {dill_hclose(s); errno = failed; return -1;}
    done = 1;
    hs_u = -1;
    dill_hclose(s);
    return u;
}
int dill_http_done(int s, int64_t dl) {
    CHECK(s == hs && dl == 77 && !done, "ends its header");
    if(fails()) return -1;
    done = 1;
    return 0;
}
/* What was sent. */
static int nreq, nstat, ns_host, ns_up, ns_conn, ns_key, ns_ver, ns_other;
static char key[WS_KEY_SIZE + 30];
static const char *host = "a.b";
static int status = 101;
int dill_http_sendrequest(int s, const char *c, const char *r, int64_t dl) {
    CHECK(!SERVER && s == hs && dl == 77 && phase == 0 && !done, "request comes first");
    CHECK(strcmp(c, "GET") == 0 && strcmp(r, "/re") == 0, "request");
    if(fails()) return -1;
    phase = 1;
    return 0;
}
int dill_http_sendstatus(int s, int st, const char *r, int64_t dl) {
    CHECK(SERVER && s == hs && dl == 77 && phase == 2 && !done, "status after the request");
    CHECK(st == 101 && r, "status");
    if(fails()) return -1;
    phase = 3;
    return 0;
}
int dill_http_sendfield(int s, const char *n, const char *v, int64_t dl) {
    CHECK(s == hs && dl == 77 && phase == (SERVER ? 3 : 1) && !done, "field within the header");
    if(fails()) return -1;
    if(!strcasecmp(n, "Host")) {ns_host++; CHECK(strcmp(v, host) == 0, "host");}
    else if(!strcasecmp(n, "Upgrade")) {ns_up++; CHECK(strcasecmp(v, "websocket") == 0, "upgrade");}
    else if(!strcasecmp(n, "Connection")) {ns_conn++; CHECK(strcasecmp(v, "Upgrade") == 0, "connection");}
    else if(!strcasecmp(n, SERVER ? "Sec-WebSocket-Accept" : "Sec-WebSocket-Key")) {
        ns_key++;
        if(SERVER) {
            char resp[WS_KEY_SIZE];
            CHECK(dill_ws_response_key("AxQlNkdYaXqLnK2+z+DxAg==", resp) == 0 && strcmp(v, resp) == 0, "key sent back");
        } else {
            CHECK(strlen(v) == 24 && strcmp(v, "AxQlNkdYaXqLnK2+z+DxAg==") == 0, "key is the nonce");
        }
    }
    else if(!strcasecmp(n, "Sec-WebSocket-Version")) {ns_ver++; CHECK(strcmp(v, "13") == 0, "version");}
    else ns_other++;
    return 0;
}
/* What is received. */
#define MAXF 8
static struct {char name[24]; char value[40]; int bad;} f[MAXF];
static int nf, pos, badmethod;
int dill_http_recvrequest(int s, char *c, size_t cl, char *r, size_t rl, int64_t dl) {
    CHECK(SERVER && s == hs && dl == 77 && phase == 0, "request comes first");
    if(fails()) return -1;
    CHECK(cl >= 4, "buffer for the method");
    memset(c, 0xaa, cl);
    memcpy(c, "GET", 4);
    if(badmethod) c[badmethod - 1] = nd_bool() ? 'X' : 'H';
    if(rl < 4) {failed = EMSGSIZE; errno = EMSGSIZE; return -1;}
    memcpy(r, "/re", 4);
    phase = 1;
    return 0;
}
int dill_http_recvstatus(int s, char *r, size_t rl, int64_t dl) {
    CHECK(!SERVER && s == hs && dl == 77 && phase == 1 && done, "status after the request");
    if(fails()) return -1;
    CHECK(rl > 0, "buffer");
    memset(r, 0xaa, rl);
    memcpy(r, "x", 2);
    phase = 2;
    return status;
}
int dill_http_recvfield(int s, char *n, size_t nl, char *v, size_t vl, int64_t dl) {
    CHECK(s == hs && dl == 77 && phase == (SERVER ? 1 : 2), "field within the header");
    if(fails()) return -1;
    if(pos == nf) {phase = SERVER ? 2 : 9; errno = EPIPE; return -1;}
    CHECK(nl >= sizeof(f[0].name) && vl >= sizeof(f[0].value), "buffers for fields");
    memset(n, 0xaa, nl);
    memset(v, 0xaa, vl);
    strcpy(n, f[pos].name);
    memcpy(v, f[pos].value, sizeof(f[0].value));
    pos++;
    return 0;
}
static void add(const char *n, const char *v) {strcpy(f[nf].name, n); strcpy(f[nf].value, v); nf++;}
static int pick(int n) {
    int v = nd_range(0, n - 1), i;
    for(i = 0; i != n; ++i) if(v == i) return i;
    return 0;
}
static int same(int i, const char *v) {return strcasecmp(f[i].value, v) == 0;}
int main(void) {
    struct dill_ws_storage mem;
    int heap = nd_bool(), i, j, gone = 0;
    size_t hostlen = 4;
    char *hb;
    char res[4];
    memset(&mem, 0xff, sizeof(mem));
    memset(res, 0xff, sizeof(res));
    int wrong = 0, mut = 0, nkey = 0;
    char resp[WS_KEY_SIZE];
    CHECK(dill_ws_response_key("AxQlNkdYaXqLnK2+z+DxAg==", resp) == 0, "response key");
    if(SERVER) add("hoST", host);
    add("upgRade", "Websocket");
    add("connecTion", "upGrade");
    nkey = nf;
    if(SERVER) {add("sec-websocket-key", "AxQlNkdYaXqLnK2+z+DxAg=="); add("sec-webSocket-version", "13");}
    else add("Sec-websocket-accept", resp);
    if(!FAULT) {
        mut = pick(9);
        i = pick(nf);
        switch(mut) {
        case 0: break;
        case 1: /* field is missing */
            f[i] = f[nf - 1]; nf--; wrong = 1; break;
        case 2: /* field is repeated */
            f[nf] = f[i]; nf++; wrong = 1; break;
        case 3: /* moved to the end after an unknown one */
            f[nf + 1] = f[i]; strcpy(f[i].name, "x"); strcpy(f[nf].name, "Sec"); nf += 2; break;
        case 4: /* renamed */
            f[i].name[pick(3)] = '_'; wrong = 1; break;
        case 5: { /* byte of the value is different */
            if(SERVER && (i == 0 || i == nkey)) break;
            const char *good = i == nkey ? resp : i == nkey - 1 ? "upgrade" : i == nkey - 2 ? "websocket" : "13";
            j = pick(strlen(good) + 1);
            f[i].value[j] = nd_u8();
            if(f[i].value[j] == 0) memset(f[i].value + j, 0, sizeof(f[i].value) - j);
            wrong = i == nkey ? strcmp(f[i].value, good) != 0 : !same(i, good);
            break;}
        case 6: if(SERVER) {badmethod = 1 + pick(3); wrong = 1;}
            else {status = 100 + nd_range(0, 499); wrong = status != 101;}
            break;
        case 7: /* key is not one of 16 bytes */
            if(!SERVER) break;
            switch(pick(3)) {
            case 0: strcpy(f[nkey].value, "AxQlNkdYaXqLnK2+z+Dx"); break;
            case 1: strcpy(f[nkey].value, "AxQlNkdYaXqLnK2+z+DxAgIC"); break;
            default: f[nkey].value[pick(22)] = '!'; break;
            }
            wrong = 1;
            break;
        case 8: rndfail = !SERVER; break;
        }
        if(SERVER) {
            hostlen = nd_bool() ? 4 + nd_bool() : pick(4);
            if(hostlen < 4) {
                wrong = 1;
                ASSUME(mut != 4 || i != 0);
            }
        }
        if(rndfail) wrong = 1;
        isb = !(mut == 0 && nd_bool());
        if(!isb) wrong = 1;
        gone = mut == 0 && isb && nd_bool();
        if(gone) wrong = 1;
    } else {
        switch(pick(3)) {
        case 0: failat = 1 + pick(14); break;
        case 1: mh_fail_at = 2 + pick(5); break;
        case 2: vt_fail_at = 2; break;
        }
    }
    hb = malloc(hostlen ? hostlen : 1);
    memset(hb, 0xee, hostlen ? hostlen : 1);
    int live = vt_live;
    int u = dill_hmake(&u_vfs), h;
    CHECK(u >= 0, "connection");
    if(gone) CHECK(dill_hclose(u) == 0, "connection is gone");
    if(!SERVER) {
        if(heap) h = dill_ws_attach_client(u, 0, "/re", host, 77);
        else h = dill_ws_attach_client_mem(u, 0, "/re", host, &mem, 77);
    } else {
        if(heap) h = dill_ws_attach_server(u, 0, res, 4, hb, hostlen, 77);
        else h = dill_ws_attach_server_mem(u, 0, res, 4, hb, hostlen, &mem, 77);
    }
    int err = errno;
    if(h >= 0) {
        CHECK(!wrong && !failed, "handshake was correct");
        CHECK(u_closed == 0 && hs_closed == 1 && mh_open == 2 && mh_isopen(h) && !mh_isopen(u), "took the connection over");
        CHECK(vt_live == live + heap, "memory");
        CHECK(done && pos == nf, "header completed");
        CHECK(ns_host == !SERVER && ns_up == 1 && ns_conn == 1 && ns_key == 1 && ns_ver == !SERVER, "required fields are sent once");
        struct dill_ws_sock *self = dill_hquery(h, dill_ws_type);
        CHECK(self && dill_hquery(h, dill_msock_type), "is a WebSocket");
        if(SERVER) {
            CHECK(strcmp(res, "/re") == 0, "resource");
            CHECK(strcmp(hb, "a.b") == 0, "host");
        }
        mh_fail_at = 0;
        CHECK(dill_hclose(h) == 0, "closes");
        CHECK(u_closed == 1 && mh_open == 0 && vt_live == live, "closed once");
        WITNESS("attached");
    } else {
        CHECK(h == -1 && err != 0, "error");
        CHECK(u_closed == 1 && mh_open == 0 && vt_live == live, "everything is closed once");
        CHECK(wrong || FAULT, "correct handshake is accepted");
        if(failed) CHECK(err == failed, "reason of the failure");
        if(FAULT) WITNESS("failed");
        else {
            if(gone) CHECK(err == EBADF, "no such connection");
            else if(!isb) CHECK(err == ENOTSUP, "not a bytestream");
            else if(rndfail) CHECK(err == EIO, "random numbers");
            else CHECK(err == EPROTO || err == EMSGSIZE || (mut == 7 && SERVER), "protocol error");
            WITNESS("refused");
        }
    }
    return 0;
}
