/* Waiting on descriptors: every history of a bounded number of waits,
   cancellations, cleanups and polls against a model of the kernel. */
#ifdef DILL_EPOLL
#undef DILL_EPOLL
#endif
#if BACK == 0
#define DILL_EPOLL
#else
#define DILL_POLL
#endif
#include "repo.h"
#include <sys/epoll.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#define NFD 2
#ifndef ERR
#define ERR 0
#endif
static int pick(int n) {
    int v = nd_range(0, n - 1), i;
    for(i = 0; i != n; ++i) if(v == i) return i;
    return 0;
}
static int k_epoll_create(int n);
static int k_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev);
static int k_epoll_wait(int efd, struct epoll_event *evs, int n, int timeout);
static int k_close(int fd);
static int k_poll(struct pollfd *p, nfds_t n, int timeout);
static int k_fcntl(int fd, int op, ...);
#define epoll_create k_epoll_create
#define epoll_create1 k_epoll_create
#define epoll_ctl k_epoll_ctl
#define epoll_wait k_epoll_wait
#define close k_close
#define poll k_poll
#define fcntl k_fcntl
#include "pollset.c"
#undef poll
#undef close
#undef fcntl
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}
int dill_maxfds(void) {return NFD;}

/* ---- waiting coroutines ---- */
struct wait {
    struct dill_fdclause cl;
    void (*cancel)(struct dill_clause *cl);
    int state;                  /* 0 unused, 1 waiting, 2 resumed by an event */
    int fd, dir;
};
static struct wait ws[8];
static int nws, triggered;
static struct wait *who[NFD][2];
void dill_waitfor(struct dill_clause *cl, int id, void (*cancel)(struct dill_clause*)) {
    CHECK(nws < 8 && cl == &ws[nws].cl.cl && id == 5, "waits with the clause given");
    cl->id = id;
    cl->cancel = cancel;
    ws[nws].state = 1;
}
static void endwait(struct wait *w, int st) {
    if(w->cl.cl.cancel) w->cl.cl.cancel(&w->cl.cl);
    w->state = st;
    who[w->fd][w->dir] = NULL;
}
void dill_trigger(struct dill_clause *cl, int err) {
    int i;
    for(i = 0; i != nws; ++i) if(cl == &ws[i].cl.cl) break;
    CHECK(i != nws && ws[i].state == 1, "only a waiting coroutine is resumed, once");
    CHECK(err == 0, "no error");
    triggered++;
    endwait(&ws[i], 2);
}

/* ---- kernel ---- */
#define EFD 99
static uint32_t want(int fd) {return (who[fd][0] ? EPOLLIN : 0) | (who[fd][1] ? EPOLLOUT : 0);}
static int open_[NFD] = {1, 1};
static int reg[NFD], efdopen, kcalls, ktimeout, kresult, ctlfail;
static uint32_t mask[NFD], ev_[NFD];
static int k_epoll_create(int n) {
    CHECK(BACK == 0 && !efdopen, "one kernel set");
    if(ctlfail) {errno = EMFILE; return -1;}
    efdopen = 1;
    return EFD;
}
static int k_close(int fd) {CHECK(fd == EFD && efdopen, "closed once"); efdopen = 0; return 0;}
static int k_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev) {
    CHECK(efd == EFD && efdopen, "own kernel set");
    if(fd < 0 || fd >= NFD || !open_[fd]) {errno = EBADF; return -1;}
    if(op == EPOLL_CTL_ADD && ctlfail) {errno = ctlfail; return -1;}
    if(op == EPOLL_CTL_ADD) {
        if(reg[fd]) {errno = EEXIST; return -1;}
        CHECK(ev->data.fd == fd, "identified by the descriptor");
        reg[fd] = 1;
        mask[fd] = ev->events;
    } else {
        if(!reg[fd]) {errno = ENOENT; return -1;}
        if(op == EPOLL_CTL_DEL) {reg[fd] = 0; mask[fd] = 0;}
        else {
            CHECK(op == EPOLL_CTL_MOD, "operation");
            CHECK(ev->data.fd == fd, "identified by the descriptor");
            mask[fd] = ev->events;
        }
    }
    return 0;
}
/* Picks what the kernel reports; 0 descriptors is a timeout. */
static uint32_t report(int fd, uint32_t m) {
    uint32_t e = 0;
    switch(pick(5)) {
    case 0: e = m & EPOLLIN; break;
    case 1: e = m & EPOLLOUT; break;
    case 2: if(m == (EPOLLIN | EPOLLOUT)) e = m; break;
    case 3: e = EPOLLHUP | (m & EPOLLOUT); break;
    case 4: e = EPOLLERR; break;
    }
    ev_[fd] = e;
    return e;
}
static int k_epoll_wait(int efd, struct epoll_event *evs, int n, int timeout) {
    int i, cnt = 0, fd;
    CHECK(BACK == 0 && efd == EFD && efdopen && n >= NFD, "own kernel set");
    CHECK(timeout == ktimeout, "timeout is respected");
    kcalls++;
    for(fd = 0; fd != NFD; ++fd) {
        ev_[fd] = 0;
        CHECK(reg[fd] == (want(fd) != 0), "registered while somebody waits");
        CHECK(mask[fd] == want(fd), "interest is what coroutines wait for");
    }
    if(kresult == 1) {errno = EINTR; return -1;}
    if(kresult == 2) return 0;
    int swap = reg[0] && reg[1] && pick(2);
    for(i = 0; i != NFD; ++i) {
        fd = swap ? NFD - 1 - i : i;
        if(!reg[fd] || pick(2)) continue;
        uint32_t e = report(fd, mask[fd]);
        ASSUME(e != 0);
        evs[cnt].data.fd = fd;
        evs[cnt++].events = e;
    }
    return cnt;
}
static int k_fcntl(int fd, int op, ...) {
    CHECK(BACK == 1 && op == F_GETFD, "asks whether it is open");
    if(fd < 0 || fd >= NFD || !open_[fd]) {errno = EBADF; return -1;}
    return 0;
}
static int k_poll(struct pollfd *p, nfds_t n, int timeout) {
    int i, cnt = 0, fd;
    CHECK(BACK == 1 && timeout == ktimeout, "timeout is respected");
    CHECK(n <= NFD, "table is bounded");
    kcalls++;
    for(fd = 0; fd != NFD; ++fd) {
        int e = 0, found = 0;
        for(i = 0; i != (int)n; ++i) if(p[i].fd == fd) {found++; e |= p[i].events;}
        ev_[fd] = 0;
        CHECK(found <= 1, "in the table once");
        CHECK(e == (int)want(fd), "interest is what coroutines wait for");
    }
    for(i = 0; i != (int)n; ++i) CHECK(p[i].fd >= 0 && p[i].fd < NFD, "a descriptor");
    if(kresult == 1) {errno = EINTR; return -1;}
    for(i = 0; i != (int)n; ++i) p[i].revents = 0;
    if(kresult == 2) return 0;
    for(i = 0; i != (int)n; ++i) {
        if(pick(2)) continue;
        uint32_t e;
        if(!open_[p[i].fd]) e = ev_[p[i].fd] = POLLNVAL;
        else e = report(p[i].fd, p[i].events);
        ASSUME(e != 0);
        p[i].revents = e;
        cnt++;
    }
    return cnt;
}

static void wait_(int fd, int dir) {
    struct wait *w = &ws[nws];
    w->fd = fd;
    w->dir = dir;
    w->state = 0;
    errno = 0;
    int known = fd >= 0 && fd < NFD;
    int rc = dir ? dill_pollset_out(&w->cl, 5, fd) : dill_pollset_in(&w->cl, 5, fd);
    if(!known || !open_[fd]) {CHECK(rc == -1 && errno == EBADF && w->state == 0, "no such descriptor"); WITNESS("no such descriptor"); return;}
    if(who[fd][dir]) {CHECK(rc == -1 && errno == EBUSY && w->state == 0, "somebody already waits"); WITNESS("busy"); return;}
    CHECK(rc == 0 && w->state == 1, "waits");
    who[fd][dir] = w;
    nws++;
}
static void poll_(int res) {
    static const int to[] = {-1, 0, 1000};
    int fd, d, i, w0[NFD][2];
    struct wait *was[NFD][2];
    ktimeout = to[res % 3];
    kresult = res;
    triggered = kcalls = 0;
    for(fd = 0; fd != NFD; ++fd) for(d = 0; d != 2; ++d) was[fd][d] = who[fd][d];
    errno = 0;
    int rc = dill_pollset_poll(ktimeout);
    CHECK(kcalls == 1, "asks the kernel once");
    if(res == 1) {CHECK(rc == -1 && triggered == 0, "interrupted"); WITNESS("interrupted"); return;}
    int n = 0;
    for(fd = 0; fd != NFD; ++fd) for(d = 0; d != 2; ++d) {
        int due = was[fd][d] && (ev_[fd] & ((d ? EPOLLOUT : EPOLLIN) | EPOLLERR | EPOLLHUP | (BACK ? POLLNVAL : 0)));
        if(due) {
            CHECK(was[fd][d]->state == 2, "resumed when its event is reported");
            n++;
        } else if(was[fd][d]) CHECK(was[fd][d]->state == 1, "not resumed without its event");
    }
    CHECK(triggered == n, "nothing else is resumed");
    CHECK(rc == (n > 0), "tells whether a coroutine was resumed");
    if(n) WITNESS("resumed");
}
static void clean_(int fd) {
    errno = 0;
    int rc = dill_pollset_clean(fd);
    if(fd < 0 || fd >= NFD) {WITNESS("clean of unknown"); return;}
    if(want(fd)) {CHECK(rc == -1 && errno == EBUSY, "somebody waits"); WITNESS("clean refused"); return;}
    CHECK(rc == 0, "cleaned");
    CHECK(!reg[fd], "not in the kernel set any more");
    WITNESS("cleaned");
}
static void act(int op) {
    if(op < 4) wait_(op >> 1, op & 1);
    else if(op < 8) {
        /* A deadline expires or the coroutine is closed. */
        struct wait *w = who[(op - 4) >> 1][op & 1];
        ASSUME(w != NULL);
        endwait(w, 3);
    } else if(op == 8) clean_(pick(2));
    else poll_(!ERR ? 0 : pick(3));
}
#ifndef SET
#define SET 0,1,2,3,4,5,6,7,8,9
#endif
static const int pre[] = {PRE}, set[] = {SET};
#define NPRE ((int)(sizeof(pre) / sizeof(pre[0])))
#define NSET ((int)(sizeof(set) / sizeof(set[0])))
int main(void) {
    int i, n;
    memset(&dill_ctx_.pollset, 0xee, sizeof(dill_ctx_.pollset));
    if(ERR) {
        vt_fail_at = pick(3);
        int af = vt_fail_at > 0 && vt_fail_at <= (BACK ? 2 : 1);
        ctlfail = !BACK && nd_bool();
        int rc = dill_ctx_pollset_init(&dill_ctx_.pollset);
        if(af || ctlfail) {
            CHECK(rc == -1 && errno == (af ? ENOMEM : EMFILE) && vt_live == 0 && !efdopen, "failed cleanly");
            WITNESS("init failed");
            return 0;
        }
        CHECK(rc == 0, "initialised");
        vt_fail_at = 0;
        /* Descriptors that cannot be waited for. */
        int what = pick(4);
        if(what == 0) {wait_(-1, nd_bool()); wait_(NFD, nd_bool()); clean_(-1); clean_(NFD); clean_(100000000);}
        if(what == 1) {open_[1] = 0; wait_(1, nd_bool()); clean_(1); open_[1] = 1;}
        if(what == 2 && BACK == 0) {
            ctlfail = nd_bool() ? EPERM : nd_bool() ? ENOMEM : ENOSPC;
            rc = nd_bool() ? dill_pollset_in(&ws[0].cl, 5, 1) : dill_pollset_out(&ws[0].cl, 5, 1);
            CHECK(rc == -1 && errno == (ctlfail == EPERM ? ENOTSUP : ctlfail) && ws[0].state == 0, "cannot be waited for");
            ctlfail = 0;
            WITNESS("not pollable");
        }
    } else CHECK(dill_ctx_pollset_init(&dill_ctx_.pollset) == 0, "initialised");
    for(i = 0; i != NPRE && !ERR; ++i) act(pre[i]);
    for(n = 0; n != N; ++n) act(set[pick(NSET)]);
    /* What coroutines wait for when the process goes to sleep. */
    poll_(0);
    poll_(2);
    dill_ctx_pollset_term(&dill_ctx_.pollset);
    CHECK(vt_live == 0 && !efdopen, "released");
    WITNESS("done");
    return 0;
}
