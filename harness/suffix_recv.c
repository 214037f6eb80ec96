/* SUFFIX receive: arbitrary stream and terminator, compared with a direct
   search for the first terminator. */
//@ prop: M02
//@ src: suffix
//@ lib: m_handle fakeb
//@ config: SLEN=1 NEL=0 NULLMASK=0 FB_RX=5 UW=7
//@ config: SLEN=1 NEL=1 NULLMASK=0 FB_RX=6 UW=8
//@ config: SLEN=2 NEL=1 NULLMASK=0 FB_RX=7 UW=8
//@ config: SLEN=2 NEL=1 NULLMASK=1 FB_RX=7 UW=8
//@ config: SLEN=3 NEL=2 NULLMASK=0 FB_RX=8 UW=8 ELSZ=2
//@ config: SLEN=2 NEL=3 NULLMASK=2 FB_RX=7 UW=8 ELSZ=2
//@ thorough: SLEN=4 NEL=1 NULLMASK=0 FB_RX=11 UW=12 ELSZ=6 FB_ITEM=6
//@ thorough: SLEN=2 NEL=3 NULLMASK=0 FB_RX=10 UW=11 ELSZ=3
//@ loop: dill_suffix_mrecvl.0=4
//@ bound: SUFFIX receive: terminator 1..4 bytes, stream <=11 bytes, list of <=3 items
#include "vt.h"
#include "fakeb.h"
#include "lists.h"
static struct fakeb fb;

int main(void) {
    size_t i, j;
    uint8_t suf[SLEN];
    for(i = 0; i != FB_RX; ++i) fb.rx[i] = nd_u8();
    for(i = 0; i != SLEN; ++i) suf[i] = nd_u8();
    fb.rxlen = nd_range(0, FB_RX);
    fb.rxmayfail = nd_bool();
    int u = fakeb_open(&fb);
    int s = dill_suffix_attach(u, suf, SLEN);
    CHECK(s >= 0, "attach");
    list_make(1);
    /* Position of the first terminator. */
    size_t pos = FB_RX;
    for(i = 0; i + SLEN <= FB_RX; ++i) {
        size_t p = FB_RX - SLEN - i;
        int eq = p + SLEN <= fb.rxlen;
        for(j = 0; j != SLEN; ++j) eq = eq && fb.rx[p + j] == suf[j];
        if(eq) pos = p;
    }
    errno = 0;
    ssize_t rc = dill_mrecvl(s, LFIRST, LLAST, 77);
    int err = errno;
    CHECK(!fb.badlist, "underlying socket got a well-formed list");
    CHECK(fb.nrecv == 0 || fb.deadline == 77, "deadline is passed down");
    list_unchanged();
    if(rc >= 0) {
        CHECK(pos != FB_RX && (size_t)rc == pos, "message ends at the first terminator");
        CHECK(NEL == 0 || pos <= lcap, "message fits");
        CHECK(fb.rxpos == pos + SLEN, "consumed exactly through the terminator");
        list_holds(fb.rx, pos);
        if(pos == 0) WITNESS("empty message");
        if(pos == 3) WITNESS("message");
    } else {
        CHECK(err != 0, "errno set");
        list_bounds();
        if(!fb.rxfailed) {
            CHECK(NEL && pos > lcap, "no spurious failure");
            CHECK(err == EMSGSIZE, "EMSGSIZE when it does not fit");
            WITNESS("too long");
        } else if(!fb.rxtrunc) CHECK(err == fb.rxfailed, "transport error reported");
        size_t p = fb.rxpos;
        uint8_t c[1];
        errno = 0;
        CHECK(dill_mrecv(s, c, 1, 0) == -1 && errno == ECONNRESET,
            "input is dead after an error");
        CHECK(fb.rxpos == p, "nothing consumed after an error");
    }
    dill_hclose(s);
    CHECK(fb.closed == 1 && mh_open == 0 && vt_live == 0, "stack closed once");
    return 0;
}
