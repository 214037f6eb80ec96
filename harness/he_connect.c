/* Happy Eyeballs on the real scheduler and channels, in virtual time. */
//@ prop: E01
//@ engine: symx
//@ nosrc: bsock msock iol utils
//@ lib: cstr
//@ config: N6=1 N4=1 SYM=0
//@ config: N6=2 N4=0 SYM=0
//@ config: N6=0 N4=2 SYM=0
//@ config: N6=0 N4=0 SYM=0
//@ config: N6=1 N4=1 SYM=1
//@ config: N6=2 N4=1 SYM=1
//@ config: N6=1 N4=2 SYM=1
//@ config: N6=1 N4=1 SYM=2
//@ config: N6=2 N4=2 SYM=3
//@ config: N6=1 N4=1 SYM=3 FAIL=1
//@ config: N6=1 N4=1 SYM=3 CANCEL=1
//@ thorough: N6=2 N4=1 SYM=0
//@ thorough: N6=1 N4=2 SYM=0
//@ thorough: N6=2 N4=2 SYM=1
//@ bound: Happy Eyeballs: up to 2 resolved addresses per family (a failed resolution is one without addresses); every resolution time up to 1000 ms with representative connection times and outcomes, every connection time up to 1000 ms with representative resolution times, every deadline up to 2000 ms with representative others; failure to create any one of the coroutines, cancellation at every time up to 1000 ms
#define W_STACKS 8
#include "world.h"
static int cancelled_by_main;
static void world_idle(void) {CHECK(0, "connect waits forever");}
/* ---- environment ---- */
static int n[2] = {N4, N6};
static int64_t dns[2];
static int64_t conn_t[2][4];
static int conn_ok[2][4];
static int opens, attempts, afam[8], aidx[8], running;
static int64_t at[8];
static int asock[8];
static void fk_close(struct dill_hvfs *h);
static int fk_type;
static void *fk_query(struct dill_hvfs *h, const void *type) {
    if(type == &fk_type) return h;
    errno = ENOTSUP;
    return NULL;
}
static struct dill_hvfs fk[8];
static uint8_t fk_open[8];
static void fk_close(struct dill_hvfs *h) {
    int i = h - fk;
    CHECK(i >= 0 && i < 8 && fk_open[i], "socket closed once");
    fk_open[i] = 0;
    opens--;
}
int dill_ipaddr_local(struct dill_ipaddr *a, const char *name, int port, int mode) {
    CHECK(strcmp(name, "0.0.0.0") == 0 && port == 0, "null address");
    memset(a, 0, sizeof(*a));
    return 0;
}
int dill_ipaddr_equal(const struct dill_ipaddr *a, const struct dill_ipaddr *b, int ip) {
    return ((uint8_t*)a)[0] == ((uint8_t*)b)[0] && ((uint8_t*)a)[1] == ((uint8_t*)b)[1];
}
int dill_ipaddr_remotes(struct dill_ipaddr *as, int cnt, const char *name, int port, int mode, int64_t dl) {
    CHECK(strcmp(name, "nm") == 0 && port == 80, "resolves the name");
    CHECK(mode == DILL_IPADDR_IPV4 || mode == DILL_IPADDR_IPV6, "family");
    int f = mode == DILL_IPADDR_IPV6, i;
    running++;
    int rc = dill_msleep(dns[f]);
    running--;
    if(rc < 0) return -1;
    for(i = 0; i != n[f]; ++i) {
        CHECK(i < cnt, "room");
        memset(&as[i], 0, sizeof(as[i]));
        ((uint8_t*)&as[i])[0] = 1 + f;
        ((uint8_t*)&as[i])[1] = i;
    }
    if(!n[f]) {errno = EADDRNOTAVAIL; return -1;}
    return n[f];
}
int dill_tcp_connect(const struct dill_ipaddr *a, int64_t dl) {
    int f = ((uint8_t*)a)[0] - 1, i = ((uint8_t*)a)[1], k = attempts++;
    CHECK(f == 0 || f == 1, "address is not null");
    CHECK(k < 8 && i < n[f], "attempt");
    at[k] = w_clock;
    afam[k] = f;
    aidx[k] = i;
    asock[k] = -1;
    running++;
    int rc = dill_msleep(w_clock + conn_t[f][i]);
    running--;
    if(rc < 0) {CHECK(errno == ECANCELED, "only cancellation"); return -1;}
    if(!conn_ok[f][i]) {errno = ECONNREFUSED; return -1;}
    fk[k].query = fk_query;
    fk[k].close = fk_close;
    fk_open[k] = 1;
    opens++;
    int h = dill_hmake(&fk[k]);
    CHECK(h >= 0, "socket");
    asock[k] = h;
    return h;
}
#include "happyeyeballs.c"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef CANCEL
#define CANCEL 0
#endif
static int cres, cerr, cdone;
static dill_coroutine void runner(int64_t dl) {
    cres = dill_happyeyeballs_connect("nm", 80, dl);
    cerr = errno;
    cdone = 1;
}
int main(void) {
    int i, f, k;
    world_init();
    static const int dt[] = {20, 80, 400, 0, 700}, ct[] = {-1, 40, 350, 5000}, lt[] = {2000, 420};
    int few = SYM == 2 || (SYM == 1 && N4 + N6 > 2);
    dns[0] = SYM == 0 ? nd_range(0, 1000) : dt[pick(few ? 2 : 4)];
    dns[1] = SYM == 0 ? nd_range(0, 1000) : dt[pick(few ? 2 : 4)];
    for(f = 0; f != 2; ++f) for(i = 0; i != n[f]; ++i) {
        conn_t[f][i] = SYM == 1 ? nd_range(-1, 1000) : ct[pick(3)];
        conn_ok[f][i] = conn_t[f][i] >= 0;
        if(!conn_ok[f][i]) conn_t[f][i] = 0;
    }
    int64_t dl = SYM == 2 ? nd_range(1, 2000) : lt[pick(SYM == 3 || few ? 1 : 2)];
    if(FAIL) w_stkfail = 1 + pick(6);
    int wf = w_stkfail;
    if(CANCEL) {
        int c = dill_go(runner(dl));
        CHECK(c >= 0, "launched");
        dill_msleep(nd_range(0, 1000));
        CHECK(!cdone || cres >= 0 || cerr == ETIMEDOUT, "still running");
        CHECK(dill_hclose(c) == 0, "cancelled");
        CHECK(cdone && (cres >= 0 || cerr == ECANCELED), "cancellation is reported");
        if(cres >= 0) {CHECK(opens == 1 && dill_hclose(cres) == 0, "connected"); WITNESS("connected");}
        else WITNESS("cancelled");
        CHECK(opens == 0 && running == 0 && w_stklive == 0 && vt_live == 1, "all is released");
        return 0;
    }
    errno = 0;
    int h = dill_happyeyeballs_connect("nm", 80, dl);
    int err = errno;
    int64_t end = w_clock;
    CHECK(running == 0, "nothing is left running");
    CHECK(w_stklive == 0, "coroutines are released");
    if(wf && !w_stkfail) {
        if(h < 0) {CHECK(err == ENOMEM && opens == 0 && vt_live == 1, "not enough memory"); WITNESS("not enough memory"); return 0;}
    }
    CHECK(opens == (h >= 0), "other sockets are closed");
    CHECK(vt_live == 1, "memory is released");
    /* Order and times of the attempts. */
    int used[2] = {0, 0};
    for(k = 0; k <= attempts; ++k) {
        /* When the attempt is due. */
        int64_t due = -1;
        int left = 0;
        for(f = 0; f != 2; ++f) if(used[f] < n[f]) {
            left = 1;
            int64_t a = dns[f];
            if(k == 0 && f == 0) {
                /* IPv4 waits for IPv6, but no longer than 50 ms. */
                int64_t w = dns[1] < 50 ? dns[1] : 50;
                if(a < w) a = w;
            }
            if(due < 0 || a < due) due = a;
        }
        if(k > 0 && due < at[k - 1] + 300) due = at[k - 1] + 300;
        if(k == attempts) {
            CHECK(!left || due >= end, "attempt is started in time");
            break;
        }
        CHECK(left, "attempt of an address that was resolved");
        CHECK(at[k] == due, "attempts are staggered");
        f = afam[k];
        CHECK(aidx[k] == used[f], "addresses are tried in order, once");
        CHECK(dns[f] <= at[k], "resolved");
        if(k == 0) CHECK(f == 1 || n[1] == 0 || dns[1] >= at[0], "IPv6 is preferred");
        else if(afam[k - 1] == f) CHECK(used[!f] == n[!f] || dns[!f] >= at[k], "families alternate");
        used[f]++;
    }
    /* The result. */
    int64_t best = -1;
    int nbest = 0;
    for(k = 0; k != attempts; ++k) if(conn_ok[afam[k]][aidx[k]]) {
        int64_t t = at[k] + conn_t[afam[k]][aidx[k]];
        if(best < 0 || t < best) best = t;
    }
    if(h < 0) {
        CHECK(err == ETIMEDOUT && end == dl, "deadline");
        CHECK(best < 0 || best >= dl, "there was no connection");
        WITNESS("timed out");
        return 0;
    }
    for(k = 0; k != attempts; ++k) if(asock[k] == h) break;
    CHECK(k != attempts && fk_open[k], "returns a connected socket");
    CHECK(at[k] + conn_t[afam[k]][aidx[k]] == best, "first socket to connect");
    CHECK(end == best && end <= dl, "returned at once");
    CHECK(err == 0, "errno");
    CHECK(dill_hclose(h) == 0 && opens == 0, "closes");
    WITNESS("connected");
    return 0;
}
