/* Validation of lists: every link structure over NI items. */
//@ prop: L01
//@ src: iol
//@ lib: m_handle
//@ unwind: 6
//@ config: NI=2
//@ config: NI=3
//@ config: NI=2 ANYRSVD=1
//@ thorough: NI=4
//@ bound: iol_check: every list over up to 3 (thorough: 4) items including loops, tails shared or missing, any lengths and reserved values
#include "vt.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdill.h"
#include "iol.h"
static struct dill_iolist x[NI], o[NI];
static struct dill_iolist *pick(void) {
    int v = nd_range(0, NI), i;
    for(i = 0; i != NI; ++i) if(v == i) return &x[i];
    return NULL;
}
int main(void) {
    int i;
    for(i = 0; i != NI; ++i) {
        x[i].iol_base = nd_bool() ? NULL : &x[i];
        x[i].iol_len = nd_range(0, 1LL << 40);
        x[i].iol_next = pick();
#ifdef ANYRSVD
        x[i].iol_rsvd = nd_int();
#else
        x[i].iol_rsvd = 0;
#endif
        o[i] = x[i];
    }
    struct dill_iolist *first = pick(), *last = pick(), *it;
    int wantb = nd_bool(), wantn = nd_bool();
    size_t nb = 123, ny = 123, cnt = 0, bytes = 0;
    /* Reference: the list ends after at most NI items, in the given item. */
    int valid = 1;
    if(!first && !last) valid = 1;
    else if(!first || !last) valid = 0;
    else {
        it = first;
        for(i = 0; i != NI && it; ++i) {
            cnt++;
            bytes += it->iol_len;
            if(it->iol_rsvd) valid = 0;
            if(!it->iol_next && it != last) valid = 0;
            it = it->iol_next;
        }
        if(it) valid = 0;
    }
    errno = 0;
    int rc = dill_iolcheck(first, last, wantb ? &nb : NULL, wantn ? &ny : NULL);
    int err = errno;
    CHECK(rc == (valid ? 0 : -1), "exactly well-formed lists are accepted");
    if(rc == 0) {
        CHECK(!wantb || nb == cnt, "number of items");
        CHECK(!wantn || ny == bytes, "number of bytes");
        if(cnt == NI) WITNESS("valid");
        if(!cnt) WITNESS("empty");
    } else {
        CHECK(err == EINVAL, "malformed lists are EINVAL");
        if(first && last && first != last && first->iol_next == first) WITNESS("loop");
#ifdef ANYRSVD
        if(first && first->iol_next && first->iol_next->iol_rsvd && !first->iol_rsvd)
            WITNESS("reserved field in use");
#endif
    }
    for(i = 0; i != NI; ++i) {
        CHECK(x[i].iol_base == o[i].iol_base && x[i].iol_len == o[i].iol_len &&
            x[i].iol_next == o[i].iol_next, "items are not changed");
        CHECK(x[i].iol_rsvd == o[i].iol_rsvd, "reserved field is restored");
    }
    return 0;
}
