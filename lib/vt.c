#include "vt.h"

#ifdef VT_CBMC
uint64_t nondet_u64(void);
uint64_t nd_last;
uint64_t nd_raw(void) {nd_last = nondet_u64(); return nd_last;}
#elif defined VT_SYMX
/* nd_raw and vt_sx_* are provided by the executor. */
#else
static FILE *vt_rf;
static int vt_exhausted;
uint64_t nd_raw(void) {
    if(!vt_rf) {
        const char *fn = getenv("VT_REPLAY");
        vt_rf = fopen(fn ? fn : "/dev/null", "r");
        if(!vt_rf) {fprintf(stderr, "cannot open replay file\n"); exit(3);}
    }
    unsigned long long v;
    if(fscanf(vt_rf, "%llu", &v) != 1) {
        if(!vt_exhausted) printf("REPLAY-EXHAUSTED\n");
        vt_exhausted = 1;
        return 0;
    }
    return (uint64_t)v;
}
void vt_assume_failed(const char *c, int line) {
    printf("ASSUME-FAILED: %s (line %d)\n", c, line);
    fflush(stdout);
    _Exit(4);
}
void vt_check_failed(const char *msg, const char *file, int line) {
    printf("CHECK-FAILED: %s (%s:%d)\n", msg, file, line);
    fflush(stdout);
    _Exit(10);
}
void vt_witness(const char *name) {printf("WITNESS %s\n", name); fflush(stdout);}
#endif

int vt_malloc_may_fail = 0;
int vt_fail_at = 0;
int vt_live = 0;

static int vt_fail(void) {
    if(vt_fail_at && --vt_fail_at == 0) {errno = ENOMEM; return 1;}
    if(!vt_malloc_may_fail) return 0;
    if(!nd_bool()) return 0;
    errno = ENOMEM;
    return 1;
}

void *vt_malloc(size_t sz) {
    if(vt_fail()) return NULL;
    void *p = malloc(sz);
    ASSUME(p != NULL);
    vt_live++;
    return p;
}

void *vt_calloc(size_t n, size_t sz) {
    if(vt_fail()) return NULL;
    void *p = calloc(n, sz);
    ASSUME(p != NULL);
    vt_live++;
    return p;
}

void *vt_realloc(void *p, size_t sz) {
    if(vt_fail()) return NULL;
    void *q = realloc(p, sz);
    ASSUME(q != NULL);
    if(!p) vt_live++;
    return q;
}

void vt_free(void *p) {
    if(p) vt_live--;
    free(p);
}

int vt_posix_memalign(void **p, size_t align, size_t sz) {
    if(vt_fail()) return ENOMEM;
#if defined VT_CBMC || defined VT_SYMX
    *p = malloc(sz);
    ASSUME(*p != NULL);
#else
    if(posix_memalign(p, align, sz)) _Exit(4);
#endif
    vt_live++;
    return 0;
}

void vt_abort(void) {
    CHECK(0, "internal assertion or abort reached");
    ASSUME(0);
}

#ifdef VT_CBMC
/* Bytewise copies: the solver back end handles these more precisely than array
   operations of symbolic size. */
void *vt_memcpy(void *d, const void *s, size_t n) {
    size_t i;
    for(i = 0; i < n; ++i) ((uint8_t*)d)[i] = ((const uint8_t*)s)[i];
    return d;
}
void *vt_memmove(void *d, const void *s, size_t n) {
    size_t i;
    if((uintptr_t)d <= (uintptr_t)s)
        for(i = 0; i < n; ++i) ((uint8_t*)d)[i] = ((const uint8_t*)s)[i];
    else
        for(i = n; i > 0; --i) ((uint8_t*)d)[i - 1] = ((const uint8_t*)s)[i - 1];
    return d;
}
#endif
