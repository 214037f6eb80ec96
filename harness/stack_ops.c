/* Coroutine stacks: every history of allocations and releases around the
   limits of the cache, with all failures of the system below. */
//@ prop: K01
//@ engine: symx
//@ nosrc: bsock msock iol utils
//@ lib: cstr
//@ config: PRE=0 BACK=0 N=5
//@ config: PRE=3 BACK=2 N=4
//@ config: PRE=66 BACK=63 N=4
//@ config: PRE=66 BACK=64 N=4
//@ config: PRE=66 BACK=65 N=3
//@ config: PRE=130 BACK=130 N=2
//@ config: PRE=66 BACK=63 N=4 ORDER=1
//@ thorough: PRE=0 BACK=0 N=8
//@ thorough: PRE=66 BACK=63 N=7
//@ thorough: PRE=70 BACK=66 N=7 ORDER=1
//@ bound: stacks: up to 130 stacks, released in either order up to the limits of the cache, then up to 5 arbitrary allocations and releases; failure of any allocation or protection call; page size of 4 kB; guard pages enabled
#include "repo.h"
#include <sys/mman.h>
#include <unistd.h>
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#ifndef ORDER
#define ORDER 0
#endif
#define MAXS 140
static int k_mprotect(void *p, size_t n, int prot);
static long k_sysconf(int name);
static int k_memalign(void **p, size_t align, size_t sz);
static void k_free(void *p);
static void *k_malloc(size_t sz);
#undef posix_memalign
#undef free
#undef malloc
#define posix_memalign k_memalign
#define malloc k_malloc
#define free k_free
#define mprotect k_mprotect
#define sysconf k_sysconf
#include "stack.c"
#undef posix_memalign
#undef free
#undef malloc
#undef mprotect
#undef sysconf
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}

static size_t pg = 4096;
static struct {uint8_t *p; size_t sz; int live, guarded; void *top;} bl[MAXS];
static int nbl, live, afail, pfail, failed;
static uint8_t *justfreed;
static long k_sysconf(int name) {CHECK(name == _SC_PAGESIZE, "page size"); return pg;}
static int k_memalign(void **p, size_t align, size_t sz) {
    CHECK(align == pg, "aligned to a page");
    if(afail && nd_bool()) {failed = ENOMEM; return ENOMEM;}
    CHECK(nbl < MAXS, "bounded");
    void *x = NULL;
    vt_fail_at = 0;
    if(vt_posix_memalign(&x, align, sz)) ASSUME(0);
    *p = x;
    bl[nbl].p = x;
    bl[nbl].sz = sz;
    bl[nbl].live = 1;
    nbl++;
    live++;
    return 0;
}
static void *k_malloc(size_t sz) {CHECK(0, "stacks are guarded, so they must be aligned"); return NULL;}
static int find(void *p) {
    int i;
    for(i = 0; i != nbl; ++i) if(bl[i].p == p) return i;
    return -1;
}
static void k_free(void *p) {
    int i = find(p);
    CHECK(i >= 0 && bl[i].live, "releases a live block once");
    CHECK(!bl[i].guarded, "accessible again before it is released");
    CHECK(!bl[i].top, "not in use");
    CHECK(p != justfreed, "possibly still running on it");
    bl[i].live = 0;
    live--;
    vt_free(p);
}
static int k_mprotect(void *p, size_t n, int prot) {
    int i = find(p);
    CHECK(i >= 0 && bl[i].live && n == pg, "protects one page of a live block");
    CHECK(((uintptr_t)p & (pg - 1)) == 0, "aligned");
    if(prot == PROT_NONE) {
        if(pfail && nd_bool()) {failed = EACCES; errno = EACCES; return -1;}
        bl[i].guarded = 1;
    } else {
        CHECK(prot == (PROT_READ | PROT_WRITE), "protection");
        bl[i].guarded = 0;
    }
    return 0;
}
static int used[MAXS], nused;   /* blocks in use, in order of allocation */
static size_t stsz;
static void alloc_(void) {
    int i, before = live;
    size_t sz = 0;
    int ask = !stsz || (afail && nd_bool()) ;
    failed = 0;
    errno = 0;
    uint8_t *top = dill_allocstack(ask ? &sz : NULL);
    int err = errno;
    if(!top) {
        CHECK(failed && err == failed, "reason of the failure");
        CHECK(live == before, "nothing is leaked");
        WITNESS("failed");
        return;
    }
    CHECK(!failed, "failure is reported");
    if(!ask) sz = stsz;
    CHECK(!stsz || sz == stsz, "all are the same");
    stsz = sz;
    CHECK(sz >= 256 * 1024, "documented size");
    CHECK(((uintptr_t)top & 15) == 0, "aligned");
    for(i = 0; i != nbl; ++i) if(bl[i].live && top > bl[i].p && top <= bl[i].p + bl[i].sz) break;
    CHECK(i != nbl, "within a live block");
    CHECK(!bl[i].top, "not in use by anybody else");
    CHECK(bl[i].guarded, "guarded");
    CHECK((size_t)(top - bl[i].p) == sz + pg, "guard page is right below");
    bl[i].top = top;
    used[nused++] = i;
    /* It's usable. */
    top[-1] = 0x5a;
    *(top - sz) = 0x5b;
}
static void free_(int k) {
    int i = used[k], j;
    uint8_t *top = bl[i].top;
    for(j = k; j != nused - 1; ++j) used[j] = used[j + 1];
    nused--;
    bl[i].top = NULL;
    justfreed = bl[i].p;
    dill_freestack(top);
    CHECK(bl[i].live, "kept until the coroutine is switched away from");
    justfreed = NULL;
}
int main(void) {
    int i;
    memset(&dill_ctx_.stack, 0xee, sizeof(dill_ctx_.stack));
    CHECK(dill_ctx_stack_init(&dill_ctx_.stack) == 0, "initialised");
    for(i = 0; i != PRE; ++i) alloc_();
    for(i = 0; i != BACK; ++i) free_(ORDER ? 0 : nused - 1);
    afail = pfail = 1;
    for(i = 0; i != N; ++i) {
        int f = 0;
        if(nused) f = nd_range(0, 2);
        if(f == 0) alloc_();
        else if(f == 1) free_(0);
        else free_(nused - 1);
    }
    while(nused) free_(0);
    dill_ctx_stack_term(&dill_ctx_.stack);
    CHECK(live == 0 && vt_live == 0, "everything is released");
    WITNESS("done");
    return 0;
}
