/* SUFFIX send: payload then terminator. */
//@ prop: M02
//@ src: suffix
//@ lib: m_handle fakeb
//@ unwind: 6
//@ config: SLEN=1 NEL=1 NULLMASK=0 FB_TX=16
//@ config: SLEN=4 NEL=2 NULLMASK=0 FB_TX=16
//@ config: SLEN=32 NEL=3 NULLMASK=0 FB_TX=44 FB_ITEM=32 UW=34
//@ bound: SUFFIX send: terminator 1..32 bytes, list of <=3 items of <=3 bytes
#include "vt.h"
#include "fakeb.h"
#include "lists.h"
static struct fakeb fb;

int main(void) {
    size_t i;
    uint8_t suf[SLEN];
    for(i = 0; i != SLEN; ++i) suf[i] = nd_u8();
    fb.rxlen = 0;
    fb.txmayfail = nd_bool();
    int s = dill_suffix_attach(fakeb_open(&fb), suf, SLEN);
    CHECK(s >= 0, "attach");
    list_make(0);
    uint8_t flat[NEL * ELSZ];
    size_t n = list_flat(flat);
    uint8_t ref[SLEN];
    for(i = 0; i != SLEN; ++i) {ref[i] = suf[i]; suf[i] = ~suf[i];}
    errno = 0;
    int rc = dill_msendl(s, LFIRST, LLAST, 77);
    int err = errno;
    CHECK(!fb.badlist, "underlying socket got a well-formed list");
    CHECK(fb.deadline == 77, "deadline is passed down");
    list_unchanged();
    if(rc == 0) {
        CHECK(!fb.txfailed, "failure is reported");
        CHECK(fb.txlen == n + SLEN, "exactly payload and terminator sent");
        for(i = 0; i != NEL * ELSZ; ++i)
            if(i < n) CHECK(fb.tx[i] == flat[i], "payload bytes in order");
        for(i = 0; i != SLEN; ++i)
            CHECK(fb.tx[n + i] == ref[i], "terminator as given at attach");
        WITNESS("sent");
    } else {
        CHECK(rc == -1 && fb.txfailed && err == fb.txfailed, "only transport errors");
        fb.txfailed = 0; fb.txmayfail = 0;
        int ns = fb.nsend;
        uint8_t c = 1;
        errno = 0;
        CHECK(dill_msend(s, &c, 1, -1) == -1 && errno == ECONNRESET, "output is dead after an error");
        CHECK(fb.nsend == ns, "nothing sent after an error");
        WITNESS("failed");
    }
    dill_hclose(s);
    CHECK(fb.closed == 1 && mh_open == 0 && vt_live == 0, "stack closed once");
    return 0;
}
