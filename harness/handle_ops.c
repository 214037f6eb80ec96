/* Handle table: arbitrary short histories over a fresh table. */
//@ prop: H01
//@ unwind: 12
//@ config: TWO=1 NOWIT=1 FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=0
//@ thorough: TWO=1 FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=0,11
//@ config: TWO=1 FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=10,20
//@ thorough: ANY=1 FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=0
//@ config: ANY=1 FREE=9,8,7,6,5,4,3,2,1 H0=0 H1=-1 OPS=0
//@ config: NOFAIL=1 FREE=9,8,7,6,5,4,3,2,1 H0=0 H1=-1 OPS=0,20,0,11
//@ thorough: FREE=9,8,7,6,5,4,3,2,1 H0=0 H1=-1 OPS=0,20,0,11
//@ config: NOFAIL=1 FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=0,20,12,0
//@ thorough: FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=0,20,12,0
//@ config: NOFAIL=1 FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=20,21,0,10
//@ thorough: FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=20,21,0,10
//@ config: NOFAIL=1 FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=10,20,0,0
//@ thorough: FREE=4,1,9,0,8,3,5,7 H0=2 H1=6 OPS=10,20,0,0
//@ config: NOFAIL=1 FREE=9,8,7,6,5,4,3,2,1 H0=0 H1=-1 OPS=10,0,10,20,0
//@ thorough: FREE=9,8,7,6,5,4,3,2,1 H0=0 H1=-1 OPS=10,0,10,20,0
//@ config: NOFAIL=1 FREE=9,8,7,6,5,4,3,2,1 H0=0 H1=-1 OPS=0,0,21,10,0
//@ thorough: FREE=9,8,7,6,5,4,3,2,1 H0=0 H1=-1 OPS=0,0,21,10,0
//@ bound: handle table: two pre-existing table states (10 entries, 1 or 2 handles in use, permuted free list) including growth to 20; one operation with any handle number (any int), and 6 longer operation orders; symbolic allocation failure, cancellation and blocking mode at every step
#ifndef NOWIT
#define NOWIT 0
#endif
#include "vt.h"
static void *table_realloc(void *p, size_t sz);
static void table_free(void *p) {}
#define realloc table_realloc
#define free table_free
#include "handle.c"
#undef realloc
#undef free

#define T0 10
static struct dill_handle tab0[T0], tab1[2 * T0], tab2[4 * T0];
static void *table_realloc(void *p, size_t sz) {
#ifndef NOFAIL
    if(nd_bool()) {errno = ENOMEM; return NULL;}
#endif
    int i;
    if(p == tab0) {
        CHECK(sz <= sizeof(tab1), "moderate growth");
        for(i = 0; i != T0; ++i) {tab1[i] = tab0[i]; tab0[i].vfs = NULL; tab0[i].next = -7;}
        return tab1;
    }
    CHECK(p == tab1 && sz <= sizeof(tab2), "moderate growth");
    for(i = 0; i != 2 * T0; ++i) {tab2[i] = tab1[i]; tab1[i].vfs = NULL; tab1[i].next = -7;}
    return tab2;
}

struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {CHECK(0, "context is initialised"); return &dill_ctx_;}
static int noblock, cancel, inclose, closes;
int dill_canblock(void) {
    if(noblock || cancel) {errno = ECANCELED; return -1;}
    return 0;
}
int dill_no_blocking(int v) {int o = noblock; noblock = v; return o;}

#define N 5
static struct obj {struct dill_hvfs v; int h; int open; int closed;} o[N];
static const int t1 = 0, t2 = 0;
static void *q(struct dill_hvfs *v, const void *type) {
    struct obj *x = (struct obj*)v;
    CHECK(!x->closed, "no query of a closed object");
    if(type == &t1) return x;
    errno = ENOTSUP;
    return NULL;
}
static void c(struct dill_hvfs *v) {
    struct obj *x = (struct obj*)v;
    x->closed++;
    CHECK(x->closed == 1, "object closed exactly once");
    CHECK(noblock == 1, "nothing can block inside the close");
    inclose = 1;
    closes++;
}

static struct obj *find(int h) {
    int i;
    struct obj *r = NULL;
    for(i = 0; i != N; ++i) if(o[i].open && o[i].h == h) r = &o[i];
    return r;
}

static const int ops[] = {OPS};

int main(void) {
    int i, n = 0, k;
    dill_ctx_handle_init(&dill_ctx_.handle);
    for(i = 0; i != N; ++i) {o[i].h = -1; o[i].v.query = q; o[i].v.close = c;}
    /* A reachable table state: some handles in use, free list permuted. */
    static const int fr[] = {FREE};
    int nf = sizeof(fr) / sizeof(fr[0]);
    dill_ctx_.handle.handles = tab0;
    dill_ctx_.handle.nhandles = T0;
    dill_ctx_.handle.nused = T0 - nf;
    dill_ctx_.handle.first = fr[0];
    dill_ctx_.handle.last = fr[nf - 1];
    for(i = 0; i != nf; ++i) tab0[fr[i]].next = i == nf - 1 ? -1 : fr[i + 1];
    static const int used[] = {H0, H1};
    for(i = 0; i != 2; ++i) if(used[i] >= 0) {
        tab0[used[i]].vfs = &o[n].v;
        tab0[used[i]].next = -2;
        o[n].h = used[i];
        o[n].open = 1;
        n++;
    }
    for(k = 0; k != sizeof(ops) / sizeof(ops[0]); ++k) {
#ifdef ANY
        int op = nd_range(0, 3);
        int h = nd_int();
#else
        int op = ops[k] / 10;
        int h = ops[k] ? o[ops[k] % 10].h : -1;
#endif
        struct obj *x = find(h);
#ifdef NOFAIL
        cancel = noblock = 0;
#else
        cancel = nd_bool();
        noblock = nd_bool();
#endif
        int nb = noblock;
        closes = 0;
        errno = 0;
        if(op == 0) {
            int r = dill_hmake(&o[n].v);
            if(r >= 0) {
                CHECK(!find(r), "fresh handle number is not in use");
                CHECK(!cancel && !nb, "no handle is created when canceled");
                o[n].open = 1;
                o[n].h = r;
                n++;
            } else CHECK((errno == ECANCELED) == (cancel || nb) && (errno == ECANCELED || errno == ENOMEM), "make error");
        }
        else if(op == 1) {
            int r = dill_hown(h);
            if(!x) CHECK(r == -1 && errno == EBADF && !closes, "own of a bad handle");
            else if(r >= 0) {
                CHECK(!find(r), "new number differs from all live ones");
                CHECK(x->closed == 0, "object stays open");
                x->h = r;
                if(!NOWIT) WITNESS("own");
            } else {
                CHECK(x->closed == 1 && closes == 1, "object closed if ownership transfer fails");
                x->open = 0;
            }
        }
        else if(op == 2) {
            int ty = nd_range(0, 1);
            void *r = dill_hquery(h, ty ? &t2 : &t1);
            if(!x) CHECK(!r && errno == EBADF, "query of a bad handle");
            else if(ty) CHECK(!r && errno == ENOTSUP, "unsupported type");
            else CHECK(r == x, "query finds the right object");
        }
        else if(op == 3) {
            int r = dill_hclose(h);
            if(!x) CHECK(r == -1 && errno == EBADF && !closes, "close of a bad handle");
            else {
                CHECK(r == 0 && closes == 1 && x->closed == 1, "close closes the object");
                x->open = 0;
                if(!NOWIT) WITNESS("close");
            }
        }
        CHECK(noblock == nb, "blocking mode restored");
        if(op == 0 && errno == 0) WITNESS("create");
    }
    for(i = 0; i != N; ++i) {
        CHECK(o[i].closed == (i < n && !o[i].open), "only dead objects are closed");
        if(o[i].open) {
            CHECK(dill_hquery(o[i].h, &t1) == &o[i], "live handles resolve to their object");
        }
    }
    return 0;
}
