/* Scatter/gather lists of concrete shape (NEL items, bit k of NULLMASK: item k
   is a skipped region) with symbolic lengths. */
#ifndef LISTS_H
#define LISTS_H
#ifndef NEL
#define NEL 1
#endif
#ifndef ELSZ
#define ELSZ 3
#endif
#ifndef NULLMASK
#define NULLMASK 0
#endif
#define DILL_DISABLE_RAW_NAMES
#include "libdill.h"
#define CANARY 0xEE
static uint8_t lbuf[NEL + 1][ELSZ];
static struct dill_iolist liol[NEL + 1], lsave[NEL + 1];
static size_t lcap;
#define LFIRST (NEL ? &liol[0] : NULL)
#define LLAST (NEL ? &liol[NEL ? NEL - 1 : 0] : NULL)

/* rx: buffers hold canaries; tx: buffers hold arbitrary data. */
static void list_make(int rx) {
    int k; size_t i;
    lcap = 0;
    for(k = 0; k != NEL; ++k) {
        for(i = 0; i != ELSZ; ++i) lbuf[k][i] = rx ? CANARY : nd_u8();
        liol[k].iol_len = nd_range(0, ELSZ);
        liol[k].iol_base = (NULLMASK >> k) & 1 ? NULL : lbuf[k];
        liol[k].iol_next = k + 1 < NEL ? &liol[k + 1] : NULL;
        liol[k].iol_rsvd = 0;
        lcap += liol[k].iol_len;
        lsave[k] = liol[k];
    }
}
static void list_unchanged(void) {
    int k;
    for(k = 0; k != NEL; ++k) {
        CHECK(liol[k].iol_len == lsave[k].iol_len, "list item length as before the call");
        CHECK(liol[k].iol_base == lsave[k].iol_base, "list item base as before the call");
        CHECK(liol[k].iol_next == lsave[k].iol_next, "list link as before the call");
        CHECK(liol[k].iol_rsvd == 0, "list reserved field as before the call");
    }
}
/* The list holds exactly src[0..n), everything else is untouched. */
static void list_holds(const uint8_t *src, size_t n) {
    int k; size_t i, off = 0;
    for(k = 0; k != NEL; ++k) {
        for(i = 0; i != ELSZ; ++i) {
            if((NULLMASK >> k) & 1) continue;
            int in = i < lsave[k].iol_len && off + i < n;
            CHECK(lbuf[k][i] == (in ? src[off + i] : CANARY),
                "exactly the received bytes stored, in order");
        }
        off += lsave[k].iol_len;
    }
}
/* On failure anything inside the list may be clobbered, nothing outside. */
static void list_bounds(void) {
    int k; size_t i;
    for(k = 0; k != NEL; ++k)
        for(i = 0; i != ELSZ; ++i)
            if(i >= lsave[k].iol_len)
                CHECK(lbuf[k][i] == CANARY, "nothing written outside the buffers");
}
/* Flattens the list; returns its size. */
static size_t list_flat(uint8_t *dst) {
    int k; size_t i, n = 0;
    for(k = 0; k != NEL; ++k)
        for(i = 0; i != ELSZ; ++i)
            if(i < lsave[k].iol_len) dst[n++] = lbuf[k][i];
    return n;
}
#endif
