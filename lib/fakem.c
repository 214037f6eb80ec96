#include "vt.h"
#include "fakem.h"

static void *fm_query(struct dill_hvfs *h, const void *type) {
    struct fakem *f = (struct fakem*)h;
    if(type == dill_msock_type) return &f->mvfs;
    errno = ENOTSUP;
    return NULL;
}
static void fm_close(struct dill_hvfs *h) {
    struct fakem *f = (struct fakem*)h;
    f->closed++;
}
#define FM_OF(v) ((struct fakem*)((char*)(v) - offsetof(struct fakem, mvfs)))

static int fm_check(struct dill_iolist *first, struct dill_iolist *last) {
    if(!first || !last || last->iol_next) return -1;
    int n;
    struct dill_iolist *it = first;
    for(n = 0; n != FM_LIST; ++n) {
        if(it->iol_rsvd) return -1;
        if(!it->iol_next) return it == last ? 0 : -1;
        it = it->iol_next;
    }
    return -1;
}

static int fm_msendl(struct dill_msock_vfs *v, struct dill_iolist *first,
      struct dill_iolist *last, int64_t deadline) {
    struct fakem *f = FM_OF(v);
    CHECK(!f->closed, "use of a closed underlying socket");
    f->deadline = deadline;
    f->nsend++;
    if(fm_check(first, last) < 0) {f->badlist = 1; errno = EINVAL; return -1;}
    if(f->txfailed) {errno = ECONNRESET; return -1;}
    if(f->txmayfail && nd_bool()) {
        f->txfailed = nd_errno(); errno = f->txfailed; return -1;}
    ASSUME(f->ntx < FM_N);
    struct dill_iolist *it = first;
    int k;
    size_t n = 0;
    for(k = 0; k != FM_LIST && it; ++k) {
        size_t i;
        CHECK(it->iol_len <= FM_SZ, "item sent is within the bound");
        for(i = 0; i != FM_SZ; ++i)
            if(i < it->iol_len) {
                ASSUME(n < FM_SZ);
                FMTX(*f, f->ntx)[n++] = ((uint8_t*)it->iol_base)[i];
            }
        it = it->iol_next;
    }
    f->txlen[f->ntx] = n;
    f->ntx++;
    return 0;
}

static ssize_t fm_mrecvl(struct dill_msock_vfs *v, struct dill_iolist *first,
      struct dill_iolist *last, int64_t deadline) {
    struct fakem *f = FM_OF(v);
    CHECK(!f->closed, "use of a closed underlying socket");
    f->deadline = deadline;
    f->nrecv++;
    if((first || last) && fm_check(first, last) < 0) {
        f->badlist = 1; errno = EINVAL; return -1;}
    if(f->rxfailed) {errno = ECONNRESET; return -1;}
    if(f->rxmayfail && nd_bool()) {
        f->rxfailed = nd_errno(); errno = f->rxfailed; return -1;}
    if(f->rxpos == FM_N) {
        f->rxtrunc = 1; f->rxfailed = ETIMEDOUT; errno = ETIMEDOUT; return -1;}
    const uint8_t *p = FMRX(*f, f->rxpos);
    size_t sz = f->rxlen[f->rxpos], off = 0;
    f->rxpos++;
    struct dill_iolist *it = first;
    int k;
    for(k = 0; k != FM_LIST && it; ++k) {
        size_t i;
        for(i = 0; i != FM_SZ; ++i)
            if(i < it->iol_len && off + i < sz && it->iol_base)
                ((uint8_t*)it->iol_base)[i] = p[off + i];
        off = it->iol_len > sz - off ? sz : off + it->iol_len;
        it = it->iol_next;
    }
    if(first && off < sz) {
        f->rxbig = 1; f->rxfailed = EMSGSIZE; errno = EMSGSIZE; return -1;}
    return sz;
}

int fakem_open(struct fakem *f) {
    f->hvfs.query = fm_query;
    f->hvfs.close = fm_close;
    f->mvfs.msendl = fm_msendl;
    f->mvfs.mrecvl = fm_mrecvl;
    f->rxpos = f->ntx = f->rxfailed = f->txfailed = f->rxtrunc = f->rxbig = 0;
    f->badlist = f->closed = f->nrecv = f->nsend = 0;
    int fl = mh_may_fail;
    mh_may_fail = 0;
    int h = dill_hmake(&f->hvfs);
    mh_may_fail = fl;
    return h;
}
