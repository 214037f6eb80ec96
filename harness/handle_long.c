/* Handle table: long histories. Any sequence of LEN operations is repeated many
   times, then more handles than the table has entries are created and all of
   them are used and closed. */
//@ prop: H01
//@ engine: symx
//@ config: LEN=2 REP=30 DRAIN=300
//@ config: LEN=3 REP=12 DRAIN=270
//@ thorough: LEN=3 REP=90 DRAIN=600
//@ thorough: LEN=4 REP=12 DRAIN=270
//@ bound: handle_long: every sequence of 2, 3 or 4 operations among create, transfer or close of the newest or oldest handle, repeated 12 to 90 times on a fresh table, then 270 to 600 further handles (the table grows once or twice)
#include "vt.h"
#include "handle.c"

struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}
static int noblock;
int dill_canblock(void) {
    if(noblock) {errno = ECANCELED; return -1;}
    return 0;
}
int dill_no_blocking(int v) {int o = noblock; noblock = v; return o;}

#define MAXO 1024
static struct obj {struct dill_hvfs v; int closed;} o[MAXO];
static int h[MAXO];                     /* handles of open objects, -1 if closed */
static int owner[4096];                 /* object by handle */
static int n, first;                    /* objects first to n-1 exist */
static const int type = 0;
static void *q(struct dill_hvfs *v, const void *t) {
    if(t == &type) return v;
    errno = ENOTSUP;
    return NULL;
}
static void c(struct dill_hvfs *v) {((struct obj*)v)->closed++;}

static void entered(int x, int r) {
    CHECK(r >= 0 && r < 4096, "a handle");
    CHECK(!owner[r], "fresh handle number is not in use");
    owner[r] = x + 1;
    h[x] = r;
}
static void make(void) {
    ASSUME(n < MAXO);
    o[n].v.query = q;
    o[n].v.close = c;
    entered(n, dill_hmake(&o[n].v));
    n++;
}
static void own(int x) {
    int old = h[x], r = dill_hown(old);
    CHECK(r != old, "another number");
    CHECK(dill_hquery(old, &type) == NULL && errno == EBADF, "old handle is gone");
    owner[old] = 0;
    entered(x, r);
}
static void close_(int x) {
    CHECK(dill_hclose(h[x]) == 0 && o[x].closed == 1, "object closed");
    owner[h[x]] = 0;
    CHECK(dill_hquery(h[x], &type) == NULL && errno == EBADF, "handle is gone");
    h[x] = -1;
}
int main(void) {
    int op[LEN], i, k;
    for(i = 0; i != LEN; ++i) op[i] = nd_range(0, 4);
    dill_ctx_handle_init(&dill_ctx_.handle);
    make();
    make();
    for(k = 0; k != REP; ++k)
        for(i = 0; i != LEN; ++i) {
            if(op[i] == 0) make();
            else if(n == first) continue;
            else if(op[i] == 1) own(n - 1);
            else if(op[i] == 2) own(first);
            else if(op[i] == 3) {n--; close_(n); o[n].closed = 0;}
            else {close_(first); first++;}
        }
    for(i = 0; i != DRAIN; ++i) make();
    for(i = first; i != n; ++i)
        CHECK(dill_hquery(h[i], &type) == &o[i] && !o[i].closed, "handle refers to its object");
    for(i = first; i != n; ++i) close_(i);
    make();
    CHECK(dill_hquery(h[n - 1], &type) == &o[n - 1], "usable after everything was closed");
    WITNESS("done");
    dill_ctx_handle_term(&dill_ctx_.handle);
    return 0;
}
