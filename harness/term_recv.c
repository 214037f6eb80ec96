/* TERM receive: two arbitrary inbound messages, arbitrary terminal message. */
//@ prop: M03
//@ src: term
//@ lib: m_handle fakem
//@ unwind: 6
//@ config: TLEN=0 NEL=1 NULLMASK=0
//@ config: TLEN=2 NEL=0 NULLMASK=0
//@ config: TLEN=2 NEL=1 NULLMASK=0 ELSZ=4
//@ config: TLEN=2 NEL=2 NULLMASK=0 ELSZ=2
//@ config: TLEN=1 NEL=2 NULLMASK=2 ELSZ=3
//@ config: TLEN=3 NEL=1 NULLMASK=1 ELSZ=4
//@ config: TLEN=2 NEL=3 NULLMASK=0 ELSZ=2 FM_LIST=5
//@ bound: TERM receive: terminal message 0..3 bytes, two messages of <=4 bytes, list of <=3 items
#include "vt.h"
#include "fakem.h"
#include "lists.h"
static struct fakem fm;

int main(void) {
    size_t i;
    int k;
    uint8_t t[TLEN + 1];
    for(i = 0; i != TLEN; ++i) t[i] = nd_u8();
    for(k = 0; k != FM_N; ++k) {
        for(i = 0; i != FM_SZ; ++i) FMRX(fm, k)[i] = nd_u8();
        fm.rxlen[k] = nd_range(0, FM_SZ);
    }
    fm.rxmayfail = nd_bool();
    int s = dill_term_attach(fakem_open(&fm), TLEN ? t : NULL, TLEN);
    CHECK(s >= 0, "attach");
    int isterm = fm.rxlen[0] == TLEN;
    for(i = 0; i != TLEN; ++i) isterm = isterm && FMRX(fm, 0)[i] == t[i];
    list_make(1);
    errno = 0;
    ssize_t rc = dill_mrecvl(s, LFIRST, LLAST, 77);
    int err = errno;
    CHECK(!fm.badlist, "underlying socket got a well-formed list");
    CHECK(fm.deadline == 77 && fm.nrecv == 1, "one message received with the deadline");
    list_unchanged();
    if(rc >= 0) {
        CHECK(!isterm, "terminal message is not delivered");
        CHECK((size_t)rc == fm.rxlen[0], "true message size returned");
        CHECK(NEL == 0 || fm.rxlen[0] <= lcap, "message fits");
        list_holds(FMRX(fm, 0), fm.rxlen[0]);
        WITNESS("message");
    } else {
        CHECK(err != 0, "errno set");
        list_bounds();
        if(fm.rxfailed && !fm.rxbig) CHECK(err == fm.rxfailed, "transport error reported");
        else if(isterm) {
            CHECK(TLEN == 0 || lcap >= TLEN || NEL == 0 || err == EPIPE, "terminal message is EPIPE whatever the buffer");
            CHECK(err == EPIPE, "terminal message is EPIPE");
            for(i = 0; i != 2; ++i) {
                uint8_t c[1];
                errno = 0;
                CHECK(dill_mrecv(s, c, 1, 0) == -1 && errno == EPIPE, "EPIPE from now on");
            }
            CHECK(fm.nrecv == 1, "nothing read past the terminal message");
            uint8_t x = 1;
            CHECK(dill_msend(s, &x, 1, -1) == 0 && fm.ntx == 1 && fm.txlen[0] == 1 &&
                FMTX(fm, 0)[0] == 1, "output still works");
            WITNESS("terminal");
        } else {
            CHECK(err == EMSGSIZE && NEL && fm.rxlen[0] > lcap, "no spurious failure");
            if(NEL) WITNESS("too long");
        }
    }
    dill_hclose(s);
    CHECK(fm.closed == 1 && mh_open == 0 && vt_live == 0, "stack closed once");
    return 0;
}
