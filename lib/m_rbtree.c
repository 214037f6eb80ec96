/* Contract model of rbtree.c (verified on its own, R01): a multiset of items,
   the first one being the oldest of those with the lowest value. */
#include "vt.h"
#include "rbtree.h"
#ifndef MRB_MAX
#define MRB_MAX 6
#endif
static struct dill_rbtree_item *it[MRB_MAX];
static int64_t val[MRB_MAX];
static int n;
void dill_rbtree_init(struct dill_rbtree *self) {n = 0;}
int dill_rbtree_empty(struct dill_rbtree *self) {return n == 0;}
void dill_rbtree_insert(struct dill_rbtree *self, int64_t v, struct dill_rbtree_item *item) {
    int i;
    item->val = v;
    ASSUME(n < MRB_MAX);
    for(i = 0; i != MRB_MAX; ++i) if(i == n) {it[i] = item; val[i] = v;}
    n++;
}
void dill_rbtree_erase(struct dill_rbtree *self, struct dill_rbtree_item *item) {
    int i, found = 0;
    for(i = 0; i != MRB_MAX; ++i) if(i < n) {
        if(it[i] == item) {
            CHECK(!found, "item is in the tree once");
            found = 1;
        }
        else if(found) {it[i - 1] = it[i]; val[i - 1] = val[i];}
    }
    CHECK(found, "erased item is in the tree");
    n--;
}
struct dill_rbtree_item *dill_rbtree_first(struct dill_rbtree *self) {
    int i, b = 0;
    if(!n) return NULL;
    for(i = 1; i != MRB_MAX; ++i) if(i < n && val[i] < val[b]) b = i;
    return it[b];
}
