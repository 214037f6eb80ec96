/* Verification toolkit shared by all harnesses.
   The same harness source is compiled several times:
     - by goto-cc, where nd_*() are unconstrained solver variables and CHECK()
       is a proof obligation;
     - by clang to LLVM IR for tools/symx.py, likewise;
     - by gcc with ASan/UBSan, where nd_*() replay the recorded values of a
       counterexample in order and CHECK() is a run-time test. */
#ifndef VT_H
#define VT_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

uint64_t nd_raw(void);
static inline int nd_int(void) {return (int)nd_raw();}
static inline uint8_t nd_u8(void) {return (uint8_t)nd_raw();}
static inline uint64_t nd_u64(void) {return nd_raw();}
static inline int64_t nd_i64(void) {return (int64_t)nd_raw();}
static inline size_t nd_size(void) {return (size_t)nd_raw();}
static inline int nd_bool(void) {return (int)(nd_raw() & 1);}

#ifdef VT_CBMC
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), msg)
#define WITNESS(name) __CPROVER_assert(0, "WITNESS " name)
#define H(fn) fn
#elif defined VT_SYMX
void vt_sx_assume(int c);
void vt_sx_check(int c, const char *msg);
void vt_sx_witness(const char *name);
#define ASSUME(c) vt_sx_assume(!!(c))
#define CHECK(c, msg) vt_sx_check(!!(c), msg)
#define WITNESS(name) vt_sx_witness("WITNESS " name)
#define H(fn) fn
#else
#define ASSUME(c) do {if(!(c)) vt_assume_failed(#c, __LINE__);} while(0)
#define CHECK(c, msg) do {if(!(c)) vt_check_failed(msg, __FILE__, __LINE__);} while(0)
#define WITNESS(name) vt_witness(name)
/* Natively the symbols of the code under test are renamed by objcopy, so that
   environment stubs do not clash with libc. */
#define H(fn) h_##fn
void vt_assume_failed(const char *c, int line);
void vt_check_failed(const char *msg, const char *file, int line);
void vt_witness(const char *name);
#endif

/* Value in the closed interval [lo, hi]. */
static inline int64_t nd_range(int64_t lo, int64_t hi) {
    int64_t v = (int64_t)nd_raw();
    ASSUME(v >= lo && v <= hi);
    return v;
}

/* Runs fn(v) for a symbolic v in [0, n): one symbolic execution per value, so
   that v is a constant within each. */
#define SPLIT(n, fn) do {\
    int split_i, split_v = (int)nd_range(0, (n) - 1);\
    for(split_i = 0; split_i != (n); ++split_i)\
        if(split_v == split_i) {fn(split_i); break;}\
    } while(0)

/* Heap of the code under test. */
extern int vt_malloc_may_fail;  /* if set, every allocation may fail */
extern int vt_fail_at;          /* if n > 0, the n-th allocation from now on fails */
extern int vt_live;             /* number of live heap blocks */
void *vt_malloc(size_t sz);
void *vt_calloc(size_t n, size_t sz);
void *vt_realloc(void *p, size_t sz);
void vt_free(void *p);
int vt_posix_memalign(void **p, size_t align, size_t sz);
void vt_abort(void);
void *vt_memcpy(void *d, const void *s, size_t n);
void *vt_memmove(void *d, const void *s, size_t n);

/* Arbitrary errno value, non-zero. */
static inline int nd_errno(void) {
    switch(nd_raw() & 7) {
    case 0: return ECONNRESET;
    case 1: return EPIPE;
    case 2: return ETIMEDOUT;
    case 3: return ECANCELED;
    case 4: return ENOMEM;
    case 5: return EBADF;
    case 6: return EMFILE;
    default: return EINVAL;
    }
}
#endif
