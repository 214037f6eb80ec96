/* Coroutines on a stack supplied by the user, of any size and alignment. */
//@ prop: K01 S04
//@ engine: symx
//@ nosrc: bsock msock iol utils
//@ lib: m_handle m_rbtree cstr
//@ config: BNDL=0 MEM=1
//@ config: BNDL=1 MEM=1
//@ config: BNDL=0 MEM=0
//@ config: BNDL=1 MEM=0
//@ bound: launching a coroutine: memory block of every size from 0 to 35 bytes, around the sizes of the control structures, and from 700 to 735 bytes, at offsets 0, 1, 7, 8 and 15 from alignment (0 and 8 if it also holds the bundle), or a stack from the allocator; own or given bundle; all failures of allocation and handle creation
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#undef dill_setjmp
#undef dill_longjmp
#define dill_setjmp(ctx) 0
#define dill_longjmp(ctx) ((void)0)
#include "cr.c"
#include "m_handle.h"
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}
int dill_pollset_poll(int timeout) {CHECK(0, "unused"); return 0;}
int64_t dill_now(void) {return 0;}
int64_t dill_mnow(void) {return 0;}
static uint8_t stk[4096];
static int stackfail, stacks;
void *dill_allocstack(size_t *sz) {
    if(stackfail) {errno = ENOMEM; return NULL;}
    stacks++;
    *sz = sizeof(stk);
    return stk + sizeof(stk);
}
void dill_freestack(void *s) {CHECK(s == stk + sizeof(stk) && stacks == 1, "released once"); stacks--;}
static int pick(int n) {
    int v = nd_range(0, n - 1), i;
    for(i = 0; i != n; ++i) if(v == i) return i;
    return 0;
}
int main(void) {
    int i, h, bndl = -1;
    memset(&dill_ctx_.cr, 0xee, sizeof(dill_ctx_.cr));
    CHECK(dill_ctx_cr_init(&dill_ctx_.cr) == 0, "initialised");
    if(BNDL) {bndl = dill_bundle(); CHECK(bndl >= 0, "bundle");}
    static uint8_t pool[1000] __attribute__((aligned(16)));
    size_t off = 0, len = 0;
    void *ptr = NULL;
    uint8_t *base = NULL;
    if(MEM) {
        static const int offs[] = {0, 8, 1, 7, 15};
        size_t lo[] = {0, sizeof(struct dill_cr) - 9, sizeof(struct dill_cr) + sizeof(struct dill_bundle_storage) - 9, 700};
        off = offs[pick(BNDL ? 5 : 2)];
        len = lo[pick(4)] + pick(36);
        memset(pool, 0xcc, sizeof(pool));
        ptr = base = pool + off;
    } else stackfail = nd_bool();
    int badb = BNDL && nd_bool();
    if(!BNDL) {
        if(nd_bool()) mh_fail_at = 1;
        else if(!MEM && nd_bool()) vt_fail_at = 1;
    }
    int mf = mh_fail_at, vf = vt_fail_at;
    sigjmp_buf *jb = NULL;
    struct dill_cr *parent = dill_ctx_.cr.r;
    int live = vt_live;
    errno = 0;
    h = dill_prologue(&jb, &ptr, len, badb ? 5000 : bndl, "f", 1);
    int err = errno;
    if(h < 0) {
        CHECK(h == -1 && err != 0, "failure");
        CHECK(mh_open == BNDL && vt_live == live && stacks == 0, "nothing is leaked");
        CHECK(dill_ctx_.cr.r == parent, "still running");
        if(badb) {CHECK(err == EBADF, "no such bundle"); WITNESS("no such bundle");}
        else if(MEM) {
            CHECK(mf || err == ENOMEM, "block is too small");
            if(!mf) CHECK(len < 600, "large enough block is accepted");
            WITNESS("too small");
        } else {CHECK(stackfail || mf || vf, "reason"); WITNESS("failed");}
        for(i = 0; MEM && i != (int)off; ++i) CHECK(pool[i] == 0xcc, "writes within the block");
        return 0;
    }
    CHECK(!badb && !stackfail && !mf && !vf, "failure is reported");
    CHECK(h == 0 || !BNDL, "result");
    CHECK(BNDL || mh_isopen(h), "handle of the bundle");
    CHECK(mh_open == 1 && jb != NULL, "one handle");
    uint8_t *cr = ptr;
    if(MEM) {
        CHECK(cr >= base && cr <= base + len && (size_t)(base + len - cr) >= sizeof(struct dill_cr), "within the block");
        if(!BNDL) CHECK(cr >= base + sizeof(struct dill_bundle_storage), "does not overlap the bundle");
        for(i = 0; i != (int)off; ++i) CHECK(pool[i] == 0xcc, "writes within the block");
        size_t end = off + len;
        for(i = end; i != 60 + (int)end; ++i) CHECK(pool[i] == 0xcc, "writes within the block");
        CHECK(stacks == 0, "no stack is allocated");
    } else {
        CHECK(cr >= stk && cr + sizeof(struct dill_cr) <= stk + sizeof(stk), "within the stack");
        CHECK(stacks == 1, "one stack is allocated");
    }
    CHECK(((uintptr_t)cr & 15) == 0, "stack is aligned");
    CHECK(dill_ctx_.cr.r == (struct dill_cr*)cr, "runs the coroutine");
    WITNESS("launched");
    return 0;
}
