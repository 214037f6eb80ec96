/* The whole core of the library (scheduler, handles, channels, timers) with
   real coroutines in virtual time. Include it in place of the sources; the
   harness must define world_idle(), which is called if nobody can ever run. */
#ifndef WORLD_H
#define WORLD_H
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#undef dill_setjmp
#undef dill_longjmp
#undef dill_setsp
#if defined VT_SYMX
/* The executor copies and restores the call stack. */
__attribute__((returns_twice)) int vt_sx_setjmp(void *ctx);
void vt_sx_longjmp(void *ctx);
#define dill_setjmp(ctx) vt_sx_setjmp((void*)(ctx))
#define dill_longjmp(ctx) vt_sx_longjmp((void*)(ctx))
#define dill_setsp(x) ((void)0)
#else
#define dill_setjmp(ctx) sigsetjmp(ctx, 0)
#define dill_longjmp(ctx) siglongjmp(ctx, 1)
#define dill_setsp(x) __asm__ volatile("movq %0, %%rsp"::"r"(x):"memory")
#endif
#include "cr.c"
#include "handle.c"
#include "chan.c"
#include "rbtree.c"
struct dill_ctx dill_ctx_;
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}
/* ---- virtual time ---- */
static int64_t w_clock, w_polls;
int64_t dill_now(void) {return w_clock;}
int64_t dill_mnow(void) {return w_clock;}
static void world_idle(void);
/* Nothing happens until the timeout unless the harness says so. */
static int (*w_poll)(int timeout);
int dill_pollset_poll(int timeout) {
    w_polls++;
    if(w_poll) return w_poll(timeout);
    if(timeout < 0) {world_idle(); exit(0);}
    w_clock += timeout;
    return 0;
}
#include "libdill.c"
int dill_pollset_in(struct dill_fdclause *c, int id, int fd) {CHECK(0, "no descriptors here"); return -1;}
int dill_pollset_out(struct dill_fdclause *c, int id, int fd) {CHECK(0, "no descriptors here"); return -1;}
int dill_pollset_clean(int fd) {return 0;}
/* ---- stacks ---- */
#ifndef W_STACKS
#define W_STACKS 12
#endif
#ifdef VT_SYMX
#define W_STKSZ 1024
#else
#define W_STKSZ 65536
#endif
static uint8_t w_stk[W_STACKS][W_STKSZ] __attribute__((aligned(64)));
static int w_stkused, w_stklive;
static uint8_t w_stkopen[W_STACKS];
static int w_stkfail;
void *dill_allocstack(size_t *sz) {
    if(w_stkfail && !--w_stkfail) {errno = ENOMEM; return NULL;}
    CHECK(w_stkused < W_STACKS, "harness: enough stacks");
    *sz = W_STKSZ;
    w_stklive++;
    w_stkopen[w_stkused] = 1;
    return w_stk[w_stkused++] + W_STKSZ;
}
void dill_freestack(void *s) {
    int i;
    for(i = 0; i != W_STACKS; ++i) if(s == w_stk[i] + W_STKSZ) {
        CHECK(w_stkopen[i], "stack is released once");
        w_stkopen[i] = 0;
        w_stklive--;
        return;
    }
    CHECK(0, "released stack was allocated");
}
/* The hosts of these are other harnesses. */
static void world_init(void) {
    CHECK(dill_ctx_cr_init(&dill_ctx_.cr) == 0, "init");
    CHECK(dill_ctx_handle_init(&dill_ctx_.handle) == 0, "init");
    dill_ctx_.initialized = 1;
}
static int pick(int n) {
    int v = nd_range(0, n - 1), i;
    for(i = 0; i != n; ++i) if(v == i) return i;
    return 0;
}
#endif
