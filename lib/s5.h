/* Environment of socks5.c: a scripted bytestream and address functions. */
#include <arpa/inet.h>
#include <netinet/in.h>
#define SOCK 3
#define DL 77
dill_unique_id(dill_bsock_type);
static uint8_t in[800], out[1400], want[1400];
static size_t inlen, inpos, outlen, wantlen;
static int calls, failat, failed, notb;
void *dill_hquery(int s, const void *type) {
    CHECK(s == SOCK && type == dill_bsock_type, "asks for a bytestream");
    if(notb) {errno = ENOTSUP; return NULL;}
    return &inlen;
}
int dill_brecv(int s, void *buf, size_t len, int64_t dl) {
    CHECK(s == SOCK && dl == DL, "receives until the deadline");
    CHECK(!failed, "nothing after a failure");
    if(notb) {errno = ENOTSUP; return -1;}
    if(++calls == failat) {failed = nd_errno(); errno = failed; return -1;}
    if(inpos + len > inlen) {failed = ETIMEDOUT; errno = failed; return -1;}
    memcpy(buf, in + inpos, len);
    inpos += len;
    return 0;
}
int dill_bsend(int s, const void *buf, size_t len, int64_t dl) {
    CHECK(s == SOCK && dl == DL, "sends until the deadline");
    CHECK(!failed, "nothing after a failure");
    if(notb) {errno = ENOTSUP; return -1;}
    if(++calls == failat) {failed = nd_errno(); errno = failed; return -1;}
    CHECK(outlen + len <= sizeof(out), "output is bounded");
    memcpy(out + outlen, buf, len);
    outlen += len;
    return 0;
}
int dill_brecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    for(;; f = f->iol_next) {
        if(dill_brecv(s, f->iol_base, f->iol_len, dl) < 0) return -1;
        if(f == l) return 0;
    }
}
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    for(;; f = f->iol_next) {
        if(dill_bsend(s, f->iol_base, f->iol_len, dl) < 0) return -1;
        if(f == l) return 0;
    }
}
int dill_ipaddr_family(const struct dill_ipaddr *a) {return ((struct sockaddr*)a)->sa_family;}
int dill_ipaddr_port(const struct dill_ipaddr *a) {
    return ntohs(dill_ipaddr_family(a) == AF_INET ? ((struct sockaddr_in*)a)->sin_port : ((struct sockaddr_in6*)a)->sin6_port);
}
void dill_ipaddr_setport(struct dill_ipaddr *a, int port) {
    if(dill_ipaddr_family(a) == AF_INET) ((struct sockaddr_in*)a)->sin_port = htons(port);
    else ((struct sockaddr_in6*)a)->sin6_port = htons(port);
}
static int pick(int n) {
    int v = nd_range(0, n - 1), i;
    for(i = 0; i != n; ++i) if(v == i) return i;
    return 0;
}
static void w(int b) {want[wantlen++] = b;}
static void wn(const void *p, size_t n) {memcpy(want + wantlen, p, n); wantlen += n;}
static void sent_exactly(size_t n) {
    size_t i;
    CHECK(outlen == n, "number of bytes sent");
    for(i = 0; i != n; ++i) CHECK(out[i] == want[i], "bytes sent");
}
/* Name of n characters. */
static void name(char *b, int n) {
    int i;
    for(i = 0; i != n; ++i) {
        if(i < 2 || i == n - 1) {b[i] = nd_u8(); ASSUME(b[i] != 0);}
        else b[i] = 'a' + i % 26;
    }
    b[n] = 0;
}
