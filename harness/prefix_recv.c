/* PREFIX receive: arbitrary wire bytes, lengths and byte order. */
//@ prop: M01
//@ src: prefix
//@ lib: m_handle fakeb
//@ unwind: 10
//@ config: HDRLEN=1 NEL=0 NULLMASK=0 FB_RX=6 UW=3
//@ config: HDRLEN=2 NEL=1 NULLMASK=0 FB_RX=8 UW=4
//@ config: HDRLEN=8 NEL=1 NULLMASK=1 FB_RX=13 FB_ITEM=8 UW=10
//@ config: HDRLEN=1 NEL=2 NULLMASK=0 FB_RX=8 UW=4
//@ config: HDRLEN=2 NEL=2 NULLMASK=2 FB_RX=8 UW=4
//@ config: HDRLEN=1 NEL=3 NULLMASK=0 FB_RX=8 ELSZ=2 UW=5
//@ thorough: HDRLEN=3 NEL=3 NULLMASK=5 FB_RX=12 ELSZ=3 UW=5
//@ thorough: HDRLEN=7 NEL=2 NULLMASK=0 FB_RX=16 ELSZ=4 FB_ITEM=7 UW=9
//@ bound: PREFIX receive: header 1..8 bytes, list of <=3 items of <=4 bytes, stream <=16 bytes
#include "vt.h"
#include "fakeb.h"
#include "lists.h"
static struct fakeb fb;

int main(void) {
    size_t i;
    for(i = 0; i != FB_RX; ++i) fb.rx[i] = nd_u8();
    fb.rxlen = nd_range(0, FB_RX);
    fb.rxmayfail = nd_bool();
    int u = fakeb_open(&fb);
    int little = nd_bool();
    int s = dill_prefix_attach(u, HDRLEN,
        little ? DILL_PREFIX_LITTLE_ENDIAN : DILL_PREFIX_BIG_ENDIAN);
    CHECK(s >= 0, "attach");
    list_make(1);
    /* Reference decoding of the header. */
    uint64_t sz = 0;
    for(i = 0; i != HDRLEN; ++i)
        sz = (sz << 8) | fb.rx[little ? HDRLEN - 1 - i : i];
    errno = 0;
    ssize_t rc = dill_mrecvl(s, LFIRST, LLAST, 77);
    int err = errno;
    CHECK(!fb.badlist, "underlying socket got a well-formed list");
    CHECK(fb.nrecv == 0 || fb.deadline == 77, "deadline is passed down");
    list_unchanged();
    if(rc >= 0) {
        CHECK((uint64_t)rc == sz, "size returned is the size on the wire");
        CHECK(NEL == 0 || sz <= lcap, "message fits");
        CHECK(fb.rxpos == HDRLEN + sz, "exactly one message consumed");
        list_holds(fb.rx + HDRLEN, sz);
        if(NEL == 3 && sz == 4 && liol[1].iol_len == 1) WITNESS("message over three items");
        if(NEL == 0 && sz == 3) WITNESS("message skipped");
        if(NEL && sz == 0) WITNESS("empty message");
    } else {
        CHECK(err != 0, "errno set");
        list_bounds();
        if(!fb.rxfailed) {
            CHECK(sz > lcap && NEL, "no spurious failure");
            CHECK(err == EMSGSIZE, "EMSGSIZE when it does not fit");
            WITNESS("too long");
        } else if(!fb.rxtrunc) {
            CHECK(err == fb.rxfailed, "transport error reported");
        }
        size_t pos = fb.rxpos;
        uint8_t c[1];
        errno = 0;
        CHECK(dill_mrecv(s, c, 1, 0) == -1 && errno == ECONNRESET,
            "input is dead after an error");
        CHECK(fb.rxpos == pos, "nothing consumed after an error");
        /* The other direction is unaffected. */
        if(!fb.rxtrunc) {
            uint8_t x = 1;
            CHECK(dill_msend(s, &x, 1, -1) == 0, "output survives an input error");
        }
    }
    dill_hclose(s);
    CHECK(fb.closed == 1 && mh_open == 0 && vt_live == 0, "stack closed once");
    return 0;
}
