/* Channels: creation under failures, and validation of arguments. */
//@ prop: C02 C03 O01
//@ lib: m_handle
//@ unwind: 4
//@ loop: main.0=17
//@ config: MEM=0 WHAT=6 ORDER=0
//@ config: MEM=0 WHAT=6 ORDER=1
//@ config: MEM=1 WHAT=0 ORDER=0
//@ config: MEM=1 WHAT=1 ORDER=1
//@ config: MEM=1 WHAT=2 ORDER=0
//@ config: MEM=1 WHAT=3 ORDER=1 NCLS=2
//@ config: MEM=1 WHAT=3 ORDER=0 NCLS=1
//@ config: MEM=1 WHAT=3 ORDER=0 NCLS=-1
//@ config: MEM=1 WHAT=3 ORDER=0 NCLS=0
//@ bound: one channel created with every combination of failing allocation and handle creation; one call of each operation with every handle number, operation code and pointer/size combination, up to 2 clauses
#include "repo.h"
#undef malloc
#undef free
#define malloc tmalloc
#define free tfree
static void *tmalloc(size_t sz);
static void tfree(void *p);
#include "chan.c"
#undef malloc
#undef free
/* The heap block of the channel, typed. */
static struct dill_halfchan block[2];
static void *tmalloc(size_t sz) {
    CHECK(sz >= sizeof(block) && vt_live == 0, "one block, large enough");
    if(vt_fail_at) return NULL;
    vt_live++;
    return block;
}
static void tfree(void *p) {
    CHECK(p == block, "block released by its address");
    CHECK(vt_live == 1, "released once");
    vt_live--;
}
#include "m_handle.h"
#ifndef NCLS
#define NCLS 2
#endif
int dill_canblock(void) {return 0;}
void dill_waitfor(struct dill_clause *cl, int id, void (*cn)(struct dill_clause*)) {
    CHECK(0, "nothing waits with a zero deadline");
}
void dill_timer(struct dill_tmclause *tmcl, int id, int64_t deadline) {
    CHECK(0, "nothing waits with a zero deadline");
}
void dill_trigger(struct dill_clause *cl, int err) {CHECK(0, "nobody to wake");}
int dill_wait(void) {CHECK(0, "nothing waits with a zero deadline"); return -1;}
static int otype;
static int oclosed;
static void *oq(struct dill_hvfs *v, const void *type) {
    if(type == &otype) return v;
    errno = ENOTSUP; return NULL;
}
static void ocl(struct dill_hvfs *v) {oclosed++;}

static void scenario(int v) {
    int fail = v >= 5 || WHAT == 3 ? 0 : v;
    static struct dill_hvfs other = {oq, ocl};
    int i, ch[2] = {-7, -7}, rc;
    if(fail == 1) vt_fail_at = 1;
    if(fail == 2) mh_fail_at = 1;
    if(fail == 3) mh_fail_at = 2;
    if(MEM && fail == 1) return;
    int userm = MEM;
    static struct dill_halfchan store[2];
    if(userm) {
        int nul = fail == 4;
        rc = dill_chmake_mem(nul ? NULL : (struct dill_chstorage*)store, ch);
        if(nul) {
            CHECK(rc == -1 && errno == EINVAL, "missing memory is EINVAL");
            CHECK(mh_open == 0, "no handles left");
            return;
        }
    }
    else rc = dill_chmake(ch);
    CHECK((rc != 0) == (fail != 0 && fail != 4), "fails iff something needed fails");
    if(rc != 0) {
        CHECK(rc == -1, "failure is -1");
        CHECK(errno == ENOMEM || errno == ECANCELED, "failure reports the reason");
        CHECK(mh_open == 0 && vt_live == 0, "failed creation leaves nothing behind");
        WITNESS("creation failed");
        return;
    }
    CHECK(mh_open == 2 && ch[0] != ch[1], "two handles");
    CHECK(vt_live == (userm ? 0 : 1), "memory");
    int ho = dill_hmake(&other);
    int what = WHAT;
    uint8_t buf[2] = {1, 2};
    int h = fail ? 0 : v >= 5 ? v - 6 : 3;
    int bad = h < 0 || h > 2 ? EBADF : h == ho ? ENOTSUP : 0;
    errno = 0;
    if(what == 0) {
        rc = dill_chsend(h, buf, nd_range(0, 2), 0);
        CHECK(rc == -1 && errno == (bad ? bad : ETIMEDOUT), "send");
    } else if(what == 1) {
        rc = dill_chrecv(h, buf, nd_range(0, 2), 0);
        CHECK(rc == -1 && errno == (bad ? bad : ETIMEDOUT), "receive");
    } else if(what == 2) {
        rc = dill_chdone(h);
        CHECK(rc == (bad ? -1 : 0), "done");
        CHECK(rc == 0 || errno == bad, "done");
    } else if(what == 3) {
        struct dill_chclause cl[2];
        int n = NCLS, first = -1, err = ETIMEDOUT;
        for(i = 0; i != 2; ++i) {
            cl[i].op = nd_int();
            cl[i].ch = (i ? v / 4 : v % 4) - 1;
            cl[i].val = nd_bool() ? buf : NULL;
            cl[i].len = nd_range(0, 2);
        }
        for(i = 0; i < n; ++i) if(first < 0) {
            if(cl[i].ch < 0 || cl[i].ch > 2) {first = i; err = EBADF;}
            else if(cl[i].ch == ho) {first = i; err = ENOTSUP;}
            else if(!cl[i].val && cl[i].len) {first = i; err = EINVAL;}
            else if(cl[i].op != DILL_CHSEND && cl[i].op != DILL_CHRECV) {first = i; err = EINVAL;}
        }
        int nul = nd_bool();
        if(n < 0 || (n > 0 && nul)) {first = -1; err = EINVAL;}
        rc = dill_choose(nul ? NULL : cl, n, 0);
        CHECK(rc == first, "choose returns the offending clause");
        CHECK(errno == err, "choose reports the reason");
    }
    WITNESS("called");
    CHECK(buf[0] == 1 && buf[1] == 2, "buffers untouched");
    CHECK(dill_hclose(ch[ORDER]) == 0, "close");
    CHECK(vt_live == (userm ? 0 : 1), "memory kept until the second half is closed");
    CHECK(dill_hclose(ch[1 - ORDER]) == 0, "close");
    CHECK(vt_live == 0, "memory released once");
    CHECK(oclosed == 0 && mh_open == 1, "nothing else closed");
}

int main(void) {
    SPLIT(WHAT == 3 ? 16 : 10, scenario);
    return 0;
}
