/* The timer tree: one operation on every valid red-black tree of up to NMAX
   items, keys symbolic. The trees themselves are the induction hypothesis; that
   they are valid again afterwards is the conclusion. */
//@ prop: R01
//@ src: rbtree
//@ lib: m_handle
//@ unwind: 5
//@ unwindfile: rb_step.c=22
//@ flags: --object-bits 12
//@ recur: build=20 built=20 walk=9
//@ config: NMAX=5 INS=0
//@ config: NMAX=6 INS=0
//@ config: NMAX=3 INS=1 SCALE=2
//@ config: NMAX=6 INS=1 SCALE=(1LL<<60)
//@ thorough: NMAX=8 INS=0
//@ thorough: NMAX=8 INS=1 SCALE=(1LL<<33)
//@ bound: rb_step: one insertion or removal (keys at every rank, also equal ones, spaced 1 to 2^60 apart; removals with arbitrary 64-bit keys) on every valid red-black tree of up to NMAX items (inductive step), and the empty tree (base)
#include "vt.h"
#include "rbtree.h"
#ifdef VT_CBMC
#define END() __CPROVER_assume(0)
#else
#define END() exit(0)
#endif

static struct dill_rbtree t;
static struct dill_rbtree_item it[NMAX + 1];   /* in the order of keys */
static int64_t key[NMAX + 1];
static int in[NMAX + 1];
static int n, h;

/* Subtrees still to be built. */
static struct {int lo, hi, bh, red; struct dill_rbtree_item *up; int right;} todo[2 * NMAX + 2];
static int ntodo;
static void build(void);
static void run(void);
static int P(int i) {
    /* fewest / most items of a subtree with given black height: 2^bh - 1, 4^bh - 1 */
    return (1 << i) - 1;
}
static void put(struct dill_rbtree_item *up, int right, struct dill_rbtree_item *x) {
    if(right) up->right = x;
    else up->left = x;
}
static int pick_lo, pick_hi, pick_bh, pick_right, pick_redok;
static struct dill_rbtree_item *pick_up;
static void built(int v) {
    int lo = pick_lo, hi = pick_hi, bh = pick_bh, red = v & 1, i = lo + v / 2;
    struct dill_rbtree_item *up = pick_up;
    if(red && !pick_redok) END();
    int cbh = red ? bh : bh - 1;
    if(cbh < 0) END();
    /* Neither half may be too small for its black height. */
    if(i - lo < P(cbh) || hi - i - 1 < P(cbh)) END();
    if(cbh == 0 && red && (i - lo > 0 || hi - i - 1 > 0)) END();
    it[i].red = red;
    it[i].up = up;
    it[i].val = key[i];
    put(up, pick_right, &it[i]);
    todo[ntodo].lo = lo; todo[ntodo].hi = i; todo[ntodo].bh = cbh;
    todo[ntodo].red = red; todo[ntodo].up = &it[i]; todo[ntodo].right = 0;
    ntodo++;
    todo[ntodo].lo = i + 1; todo[ntodo].hi = hi; todo[ntodo].bh = cbh;
    todo[ntodo].red = red; todo[ntodo].up = &it[i]; todo[ntodo].right = 1;
    ntodo++;
    build();
}
static void build(void) {
    if(!ntodo) {run(); END();}
    ntodo--;
    int lo = todo[ntodo].lo, hi = todo[ntodo].hi, bh = todo[ntodo].bh;
    struct dill_rbtree_item *up = todo[ntodo].up;
    int right = todo[ntodo].right;
    if(lo == hi) {
        if(bh != 0) END();
        put(up, right, &t.nil);
        build();
        return;
    }
    pick_lo = lo; pick_hi = hi; pick_bh = bh; pick_up = up; pick_right = right;
    pick_redok = !todo[ntodo].red;
    SPLIT(2 * (hi - lo), built);
}

/* ---- oracle ---- */
static struct dill_rbtree_item *seq[NMAX + 2];
static int nseq;
/* Returns black height; collects the items in order. */
static int walk(struct dill_rbtree_item *x, struct dill_rbtree_item *up) {
    if(x == &t.nil) return 0;
    CHECK(nseq <= n, "no more items than inserted");
    CHECK(x->up == up, "parent link");
    CHECK(!x->red || !up->red, "red item has a black parent");
    int l = walk(x->left, x);
    seq[nseq++] = x;
    int r = walk(x->right, x);
    CHECK(l == r, "same number of black items on each path");
    return l + !x->red;
}
static void check(void) {
    int i, j, cnt = 0;
    nseq = 0;
    CHECK(!t.nil.red && !t.root.red, "sentinels are black");
    CHECK(t.nil.left == &t.nil && t.nil.right == &t.nil, "leaf sentinel intact");
    walk(t.root.left, &t.root);
    CHECK(!t.root.left->red, "root is black");
    for(i = 0; i <= NMAX; ++i) {
        if(in[i]) cnt++;
        int found = 0;
        for(j = 0; j != nseq; ++j) if(seq[j] == &it[i]) found++;
        CHECK(found == in[i], "exactly the inserted and not removed items");
        if(in[i]) CHECK(it[i].val == key[i], "keys are kept");
    }
    CHECK(cnt == nseq, "nothing else in the tree");
    for(j = 0; j + 1 < nseq; ++j) CHECK(seq[j]->val <= seq[j + 1]->val, "items in order");
    CHECK(dill_rbtree_empty(&t) == (cnt == 0), "emptiness");
    struct dill_rbtree_item *x = dill_rbtree_first(&t);
    for(j = 0; j != nseq; ++j) {
        CHECK(x == seq[j], "iteration follows the order, smallest first");
        x = dill_rbtree_next(&t, x);
    }
    CHECK(x == NULL, "iteration ends");
}

static void erase(int i) {
    dill_rbtree_erase(&t, &it[i]);
    in[i] = 0;
    check();
    if(n == NMAX) WITNESS("removed");
}
static void insert(int p) {
#ifdef SCALE
    /* In the middle of the keys, or equal to one of them. */
    key[NMAX] = p * (SCALE / 2);
#else
    key[NMAX] = nd_i64();
#endif
    in[NMAX] = 1;
    n++;
    dill_rbtree_insert(&t, key[NMAX], &it[NMAX]);
    check();
    if(n == NMAX + 1) WITNESS("inserted");
}
static void run(void) {
    int i;
    for(i = 0; i != n; ++i) in[i] = 1;
    if(INS) {
#ifdef SCALE
        SPLIT(2 * n + 1, insert);
#else
        insert(0);
#endif
    }
    else SPLIT(n, erase);
}
static void height(int v) {
    h = v;
    todo[0].lo = 0; todo[0].hi = n; todo[0].bh = h;
    todo[0].red = 1;    /* the root is black */
    todo[0].up = &t.root; todo[0].right = 0;
    ntodo = 1;
    build();
}
static void count(int v) {
    n = v;
    SPLIT(4, height);
}
int main(void) {
    int i;
    dill_rbtree_init(&t);
    check();
    t.nil.up = &it[0];
#ifdef SCALE
    for(i = 0; i != NMAX; ++i) key[i] = SCALE / 2 + i * SCALE;
#else
    for(i = 0; i != NMAX; ++i) key[i] = nd_i64();
    for(i = 0; i + 1 < NMAX; ++i) ASSUME(key[i] <= key[i + 1]);
#endif
    SPLIT(NMAX + 1, count);
    return 0;
}
