/* PREFIX send: header then payload, nothing else. */
//@ prop: M01
//@ src: prefix
//@ lib: m_handle fakeb
//@ unwind: 18
//@ config: HDRLEN=1 NEL=1 NULLMASK=0 FB_TX=18 FB_ITEM=8
//@ config: HDRLEN=8 NEL=1 NULLMASK=0 FB_TX=18 FB_ITEM=8
//@ config: HDRLEN=2 NEL=2 NULLMASK=0 FB_TX=18 FB_ITEM=8
//@ config: HDRLEN=3 NEL=3 NULLMASK=0 FB_TX=18 FB_ITEM=8
//@ bound: PREFIX send: header 1..8 bytes, list of <=3 items of <=3 bytes
#include "vt.h"
#include "fakeb.h"
#include "lists.h"
static struct fakeb fb;

int main(void) {
    size_t i;
    fb.rxlen = 0;
    fb.txmayfail = nd_bool();
    int u = fakeb_open(&fb);
    int little = nd_bool();
    int s = dill_prefix_attach(u, HDRLEN,
        little ? DILL_PREFIX_LITTLE_ENDIAN : DILL_PREFIX_BIG_ENDIAN);
    CHECK(s >= 0, "attach");
    list_make(0);
    uint8_t flat[NEL * ELSZ];
    size_t n = list_flat(flat);
    errno = 0;
    int rc = dill_msendl(s, LFIRST, LLAST, 77);
    int err = errno;
    CHECK(!fb.badlist, "underlying socket got a well-formed list");
    CHECK(fb.nsend == 1 && fb.deadline == 77, "sent by a single call with the deadline");
    list_unchanged();
    if(rc == 0) {
        CHECK(!fb.txfailed, "failure is reported");
        CHECK(fb.txlen == HDRLEN + n, "exactly header and payload sent");
        uint64_t sz = 0;
        for(i = 0; i != HDRLEN; ++i)
            sz = (sz << 8) | fb.tx[little ? HDRLEN - 1 - i : i];
        CHECK(sz == n, "header is the payload size");
        for(i = 0; i != NEL * ELSZ; ++i)
            if(i < n) CHECK(fb.tx[HDRLEN + i] == flat[i], "payload bytes in order");
        WITNESS("sent");
    } else {
        CHECK(rc == -1 && fb.txfailed && err == fb.txfailed, "only transport errors");
        fb.txfailed = 0; fb.txmayfail = 0;
        uint8_t c = 1;
        errno = 0;
        CHECK(dill_msend(s, &c, 1, -1) == -1 && errno == ECONNRESET, "output is dead after an error");
        CHECK(fb.nsend == 1, "nothing sent after an error");
        WITNESS("failed");
    }
    dill_hclose(s);
    CHECK(fb.closed == 1 && mh_open == 0 && vt_live == 0, "stack closed once");
    return 0;
}
