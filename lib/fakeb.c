#include "vt.h"
#include "fakeb.h"

static void *fb_query(struct dill_hvfs *h, const void *type) {
    struct fakeb *f = (struct fakeb*)h;
    if(type == dill_bsock_type) return &f->bvfs;
    errno = ENOTSUP;
    return NULL;
}
static void *fb_noquery(struct dill_hvfs *h, const void *type) {
    errno = ENOTSUP;
    return NULL;
}
static void fb_close(struct dill_hvfs *h) {
    struct fakeb *f = (struct fakeb*)h;
    f->closed++;
}

#define FB_OF(v) ((struct fakeb*)((char*)(v) - offsetof(struct fakeb, bvfs)))

/* Same validity rules as the real transports. */
static int fb_check(struct dill_iolist *first, struct dill_iolist *last) {
    if(!first || !last || last->iol_next) return -1;
    int n;
    struct dill_iolist *it = first;
    for(n = 0; n != FB_LIST; ++n) {
        if(it->iol_rsvd) return -1;
        if(!it->iol_next) return it == last ? 0 : -1;
        it = it->iol_next;
    }
    return -1;
}

static int fb_bsendl(struct dill_bsock_vfs *v, struct dill_iolist *first,
      struct dill_iolist *last, int64_t deadline) {
    struct fakeb *f = FB_OF(v);
    CHECK(!f->closed, "use of a closed underlying socket");
    f->deadline = deadline;
    f->nsend++;
    if(fb_check(first, last) < 0) {f->badlist = 1; errno = EINVAL; return -1;}
    if(f->txfailed) {errno = ECONNRESET; return -1;}
    if(f->txmayfail && nd_bool()) {
        f->txfailed = nd_errno(); errno = f->txfailed; return -1;}
    struct dill_iolist *it = first;
    int k;
    for(k = 0; k != FB_LIST && it; ++k) {
        size_t i;
        CHECK(it->iol_len <= FB_ITEM, "item sent is within the bound");
        for(i = 0; i != FB_ITEM; ++i) {
            if(i < it->iol_len) {
                ASSUME(f->txlen < FB_TX);
                f->tx[f->txlen] = ((uint8_t*)it->iol_base)[i];
                f->txlen++;
            }
        }
        it = it->iol_next;
    }
    return 0;
}

static int fb_brecvl(struct dill_bsock_vfs *v, struct dill_iolist *first,
      struct dill_iolist *last, int64_t deadline) {
    struct fakeb *f = FB_OF(v);
    CHECK(!f->closed, "use of a closed underlying socket");
    f->deadline = deadline;
    f->nrecv++;
    if(fb_check(first, last) < 0) {f->badlist = 1; errno = EINVAL; return -1;}
    if(f->rxfailed) {errno = ECONNRESET; return -1;}
    if(f->rxmayfail && nd_bool()) {
        f->rxfailed = nd_errno(); errno = f->rxfailed; return -1;}
    struct dill_iolist *it = first;
    int k;
    for(k = 0; k != FB_LIST && it; ++k) {
        if(it->iol_len > f->rxlen - f->rxpos) {
            f->rxtrunc = 1; f->rxfailed = EPIPE; errno = EPIPE; return -1;}
        if(it->iol_base) {
            size_t i;
            CHECK(it->iol_len <= FB_ITEM, "no buffer is that large");
            for(i = 0; i != FB_ITEM; ++i)
                if(i < it->iol_len)
                    ((uint8_t*)it->iol_base)[i] = f->rx[f->rxpos + i];
        }
        f->rxpos += it->iol_len;
        it = it->iol_next;
    }
    return 0;
}

static int fb_init(struct fakeb *f) {
    f->hvfs.close = fb_close;
    f->bvfs.bsendl = fb_bsendl;
    f->bvfs.brecvl = fb_brecvl;
    size_t i;
    f->rxpos = f->txlen = 0;
    f->rxfailed = f->txfailed = f->rxtrunc = f->badlist = f->closed = 0;
    f->nrecv = f->nsend = 0;
    int fl = mh_may_fail;
    mh_may_fail = 0;
    int h = dill_hmake(&f->hvfs);
    mh_may_fail = fl;
    return h;
}
int fakeb_open(struct fakeb *f) {f->hvfs.query = fb_query; return fb_init(f);}
int fakeb_openl(struct fakeb *f) {f->hvfs.query = fb_noquery; return fb_init(f);}
