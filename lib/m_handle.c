#include "vt.h"
#include "m_handle.h"
#ifndef MH_MAX
#define MH_MAX 12
#endif
static struct {struct dill_hvfs *vfs; int open;} mh[MH_MAX];
static int mh_next = 0;
int mh_may_fail = 0;
int mh_open = 0;
int mh_fail_at = 0;

int mh_isopen(int h) {return h >= 0 && h < mh_next && mh[h].open;}

int dill_hmake(struct dill_hvfs *vfs) {
    if(!vfs || !vfs->query || !vfs->close) {errno = EINVAL; return -1;}
    if((mh_fail_at && --mh_fail_at == 0) || (mh_may_fail && nd_bool())) {
        errno = nd_bool() ? ENOMEM : ECANCELED; return -1;}
    ASSUME(mh_next < MH_MAX);
    mh[mh_next].vfs = vfs;
    mh[mh_next].open = 1;
    mh_open++;
    return mh_next++;
}

int dill_hclose(int h) {
    if(!mh_isopen(h)) {errno = EBADF; return -1;}
    struct dill_hvfs *vfs = mh[h].vfs;
    mh[h].vfs = NULL;
    mh[h].open = 0;
    mh_open--;
    vfs->close(vfs);
    return 0;
}

int dill_hown(int h) {
    if(!mh_isopen(h)) {errno = EBADF; return -1;}
    int n = dill_hmake(mh[h].vfs);
    if(n < 0) {int e = errno; dill_hclose(h); errno = e; return -1;}
    mh[h].open = 0;
    mh_open--;
    mh[h].vfs = NULL;
    return n;
}

void *dill_hquery(int h, const void *type) {
    if(!mh_isopen(h)) {errno = EBADF; return NULL;}
    return mh[h].vfs->query(mh[h].vfs, type);
}
