/* Copying to and from lists, trimming, conversion to iovecs. */
//@ prop: L01
//@ src: iol
//@ lib: m_handle
//@ unwind: 12
//@ config: NEL=1 NULLMASK=0 OP=0
//@ config: NEL=3 NULLMASK=0 OP=0
//@ config: NEL=3 NULLMASK=2 OP=0
//@ config: NEL=1 NULLMASK=0 OP=1
//@ config: NEL=3 NULLMASK=0 OP=1
//@ config: NEL=1 NULLMASK=1 OP=2
//@ config: NEL=3 NULLMASK=0 OP=2
//@ config: NEL=3 NULLMASK=5 OP=2
//@ config: NEL=3 NULLMASK=1 OP=3
//@ thorough: NEL=4 NULLMASK=0 OP=0 ELSZ=4
//@ thorough: NEL=4 NULLMASK=4 OP=2 ELSZ=4
//@ thorough: NEL=4 NULLMASK=0 OP=1 ELSZ=4
//@ bound: iol_copy: lists of 1 to 3 (thorough: 4) items of up to 3 (4) bytes, every length, offset and content; skipped regions in the listed positions
#include "vt.h"
#include "lists.h"
#include "iol.h"
#define TOT (NEL * ELSZ + 2)
static uint8_t buf[TOT + 1], flat[TOT + 1];
int main(void) {
    size_t i;
    for(i = 0; i != TOT; ++i) buf[i] = nd_u8();
    buf[TOT] = CANARY;
    list_make(OP != 1);
    if(OP == 0) {
        size_t n = nd_range(0, TOT);
        int rc = dill_iolto(buf, n, LFIRST);
        CHECK(rc == (n <= lcap ? 0 : -1), "copied exactly if it fits");
        list_unchanged();
        if(rc == 0) {
            list_holds(buf, n);
            if(n == NEL * ELSZ) WITNESS("all copied");
            if(n == 0) WITNESS("nothing copied");
        } else {list_bounds(); WITNESS("does not fit");}
    }
    if(OP == 1) {
        uint8_t dst[TOT + 1];
        for(i = 0; i != TOT + 1; ++i) dst[i] = CANARY;
        size_t n = nd_range(0, TOT), sz = list_flat(flat);
        int rc = dill_iolfrom(dst, n, LFIRST);
        CHECK(rc == (sz <= n ? 0 : -1), "copied exactly if it fits");
        list_unchanged();
        for(i = 0; i != TOT + 1; ++i) {
            if(rc == 0) CHECK(dst[i] == (i < sz ? flat[i] : CANARY), "exact bytes in order");
            else if(i >= n) CHECK(dst[i] == CANARY, "nothing written outside");
        }
        if(rc == 0 && sz == NEL * ELSZ) WITNESS("all copied");
        if(rc < 0) WITNESS("does not fit");
    }
    if(OP == 2) {
        size_t n = nd_range(0, TOT);
        struct dill_iolist r;
        int rc = dill_ioltrim(LFIRST, n, &r);
        CHECK(rc == (n <= lcap ? 0 : -1), "trims at most the whole list");
        list_unchanged();
        if(rc == 0) {
            /* The rest: the same bytes, without the first n. */
            static uint8_t *addr[TOT + 1];
            int k, j;
            size_t cnt = 0, pos = n;
            for(k = 0; k != NEL; ++k)
                for(i = 0; i != ELSZ; ++i)
                    if(i < lsave[k].iol_len)
                        addr[cnt++] = (NULLMASK >> k) & 1 ? NULL : lbuf[k] + i;
            struct dill_iolist *it = &r;
            for(j = 0; j != NEL + 1 && it; ++j) {
                CHECK(it->iol_rsvd == 0, "reserved field");
                for(i = 0; i != ELSZ; ++i) if(i < it->iol_len) {
                    CHECK(pos < cnt, "nothing more than the remainder");
                    uint8_t *want = addr[pos++];
                    CHECK(want ? (uint8_t*)it->iol_base + i == want : !it->iol_base,
                        "exactly the remaining regions");
                }
                CHECK(it->iol_len <= ELSZ, "item within its region");
                it = it->iol_next;
            }
            CHECK(!it && pos == cnt, "exactly the remainder");
            if(n == NEL * ELSZ) WITNESS("all trimmed");
            if(n == 1) WITNESS("one byte trimmed");
        } else WITNESS("too much");
    }
    if(OP == 3) {
        struct iovec iov[NEL + 1];
        iov[NEL].iov_base = buf; iov[NEL].iov_len = 7;
        dill_ioltoiov(LFIRST, iov);
        int k;
        for(k = 0; k != NEL; ++k) CHECK(iov[k].iov_base == liol[k].iol_base &&
            iov[k].iov_len == liol[k].iol_len, "same regions");
        CHECK(iov[NEL].iov_base == buf && iov[NEL].iov_len == 7, "nothing more");
        list_unchanged();
        WITNESS("converted");
    }
    return 0;
}
