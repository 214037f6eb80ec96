/* TERM: done and detach in any order with sends, arbitrary inbound messages. */
//@ prop: M03 O01
//@ src: term
//@ lib: m_handle fakem
//@ unwind: 6
//@ config: TLEN=0 FM_N=2 FM_SZ=2 STEPS=1 OPS=2
//@ config: TLEN=2 FM_N=2 FM_SZ=3 STEPS=1 OPS=2
//@ config: TLEN=2 FM_N=2 FM_SZ=2 STEPS=2 OPS=0,1 NOFAIL=1
//@ config: TLEN=1 FM_N=2 FM_SZ=2 STEPS=3 OPS=1,0,2 NOFAIL=1
//@ config: TLEN=1 FM_N=2 FM_SZ=2 STEPS=3 OPS=1,1,0 NOFAIL=1
//@ bound: TERM shutdown: terminal message 0..2 bytes, <=2 inbound and outbound messages, 6 orders of <=3 operations
#include "vt.h"
#include "fakem.h"
static struct fakem fm;
static uint8_t t[TLEN + 1];
static const int ops[] = {OPS};

static int ist(const uint8_t *p, size_t n) {
    size_t i;
    int e = n == TLEN;
    for(i = 0; i != TLEN; ++i) e = e && p[i] == t[i];
    return e;
}

int main(void) {
    size_t i;
    int k;
    for(i = 0; i != TLEN; ++i) t[i] = nd_u8();
    for(k = 0; k != FM_N; ++k) {
        for(i = 0; i != FM_SZ; ++i) FMRX(fm, k)[i] = nd_u8();
        fm.rxlen[k] = nd_range(0, FM_SZ);
    }
#ifndef NOFAIL
    fm.rxmayfail = nd_bool();
    fm.txmayfail = nd_bool();
#endif
    int u = fakem_open(&fm);
    int s = dill_term_attach(u, TLEN ? t : NULL, TLEN);
    CHECK(s >= 0, "attach");
    CHECK(!mh_isopen(u), "underlying handle number is taken over");
    int done = 0, sent = 0, detached = 0;
    for(k = 0; k != STEPS && !detached; ++k) {
        int op = ops[k];
        int n = fm.ntx, hadfail = fm.txfailed;
        errno = 0;
        if(op == 0) {
            uint8_t b[2] = {nd_u8(), nd_u8()};
            size_t len = nd_range(0, 2);
            ASSUME(!ist(b, len));
            ASSUME(fm.ntx < FM_N);
            int rc = dill_msend(s, b, len, 5);
            if(done) {
                CHECK(rc == -1 && errno == EPIPE && fm.ntx == n, "no sending after done");
                WITNESS("send after done");
            }
            else if(rc == 0) {
                CHECK(fm.ntx == n + 1 && fm.txlen[n] == len &&
                    (len < 1 || FMTX(fm, n)[0] == b[0]) && (len < 2 || FMTX(fm, n)[1] == b[1]),
                    "message passed through");
                sent++;
            } else CHECK(fm.txfailed, "no spurious failure");
        }
        if(op == 1) {
            ASSUME(fm.ntx < FM_N);
            int rc = dill_term_done(s, 5);
            if(done) CHECK(rc == -1 && errno == EPIPE && fm.ntx == n, "done only once");
            else if(rc == 0) {
                CHECK(fm.ntx == n + 1 && ist(FMTX(fm, n), fm.txlen[n]), "terminal message sent");
                done = 1;
            } else CHECK(fm.txfailed, "no spurious failure");
        }
        if(op == 2) {
            ASSUME(fm.ntx < FM_N);
            int r = dill_term_detach(s, 5);
            int e = errno;
            detached = 1;
            CHECK(!mh_isopen(s), "protocol handle is gone");
            CHECK(vt_live == 0, "protocol memory released");
            if(r >= 0) {
                CHECK(mh_isopen(r) && !fm.closed && mh_open == 1, "underlying socket returned open");
                CHECK(dill_hquery(r, dill_msock_type) == &fm.mvfs, "it is the original socket");
                CHECK(fm.ntx == n + !done && (done || ist(FMTX(fm, n), fm.txlen[n])),
                    "terminal message sent exactly once");
                CHECK(fm.rxpos > 0 && ist(FMRX(fm, fm.rxpos - 1), fm.rxlen[fm.rxpos - 1]),
                    "positioned right after the peer's terminal message");
                int j;
                for(j = 0; j != FM_N; ++j)
                    if(j < fm.rxpos - 1)
                        CHECK(!ist(FMRX(fm, j), fm.rxlen[j]), "first terminal message");
                CHECK(dill_hclose(r) == 0, "close underlying");
                WITNESS("detached");
            } else {
                CHECK(fm.txfailed || fm.rxfailed, "no spurious failure");
                CHECK(e == fm.txfailed || e == fm.rxfailed || (hadfail && e == ECONNRESET), "errno reported");
                WITNESS("detach failed");
            }
            CHECK(mh_open == 0 && fm.closed == 1, "all released");
        }
    }
    if(done && !detached) WITNESS("done");
    if(!detached) {
        dill_hclose(s);
        CHECK(fm.closed == 1 && mh_open == 0 && vt_live == 0, "stack closed once");
    }
    return 0;
}
