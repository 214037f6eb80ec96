/* The scheduler (cr.c): every history of a bounded number of operations.
   The stack switch is replaced: setjmp returns and longjmp reports the
   coroutine to run next, which is then continued by the harness. Coroutines
   suspended on raw clauses are resumed by running the second half of
   dill_wait(); coroutines suspended within hclose() or bundle_wait() keep their
   frame and the others run on top of it. */
//@ prop: S01 S02 S03 S04
//@ lib: m_handle m_rbtree
//@ unwind: 4
//@ unwindfile: cr_ops.c=11 m_rbtree.c=7 m_handle.c=11
//@ recur: pick=12 picked=12 step=16 drive=16 act=16 dill_wait=6 vt_setjmp=4 launch=16 closebundle=16 waitbundle=16 badlaunch=16
//@ flags: --object-bits 14
//@ config: OPS=49,-1,-1,-1 CHOICE=12,20,31,91,50
//@ config: OPS=49,12,-1,-1,-1 CHOICE=30,31,60,20
//@ config: OPS=49,-1,-1,-1 CHOICE=86,89,81,93,92
//@ config: OPS=49,86,-1,-1,31 CHOICE=10,12,92,93,60
//@ config: OPS=49,12,49,12,-1,-1 CHOICE=70,100,110,31,50
//@ config: OPS=49,12,49,-1,-1,-1 CHOICE=60,70,31,50
//@ config: OPS=49,12,40,12,-1,-1 CHOICE=60,70,31,32,50
//@ config: OPS=49,12,49,20,49,-1,-1 CHOICE=60,61,50,20
//@ config: OPS=49,10,-1,120,60 CHOICE=130,131,132,133,134,135
//@ config: OPS=49,12,12,-1 CHOICE=0,2 POLLS=1,2,21,20
//@ config: OPS=49,12,12,-1 CHOICE=10,11,20 POLLS=2,3,1,20
//@ config: OPS=49,49,49,50,50,-1,-1 CHOICE=60,61,70,72,20
//@ config: OPS=49,12,-1,-1,-1 CHOICE=93,91,20,31
//@ thorough: OPS=49,-1,-1,-1,-1 CHOICE=12,20,31,91,50
//@ thorough: OPS=49,12,-1,-1,-1,-1 CHOICE=31,60,20,40,70,50
//@ thorough: OPS=49,12,49,12,-1,-1,-1 CHOICE=70,100,110,31,50,60
//@ thorough: OPS=49,12,40,12,-1,-1,-1 CHOICE=60,70,31,32,50,40
//@ thorough: OPS=49,12,49,20,49,-1,-1,-1 CHOICE=60,61,50,20,71
//@ thorough: OPS=49,86,-1,-1,-1,31 CHOICE=10,12,92,93,60
//@ thorough: OPS=49,12,12,-1,-1,-1 CHOICE=12,11,20,31 POLLS=2,3,1,20,21,20
//@ bound: cr_ops: up to 4 coroutines plus main, up to 3 bundles, 5 to 9 scheduler operations per history (2 or 3 of them chosen by the solver among up to 7 kinds, the rest fixed by the configuration), all trigger results; poll scripts with interruption, early and late wakeups. Stacks are frames of the harness: a coroutine suspended within hclose or bundle_wait is resumed only if it is the innermost of those
#include "repo.h"
#undef malloc
#undef free
#define malloc tmalloc
#define free tfree
static void *tmalloc(size_t sz);
static void tfree(void *p);
#define DILL_DISABLE_RAW_NAMES
#include "libdill.h"
#undef dill_setjmp
#undef dill_longjmp
static int vt_setjmp(void *ctx);
static void vt_longjmp(void *ctx);
#define dill_setjmp(ctx) vt_setjmp((void*)(ctx))
#define dill_longjmp(ctx) vt_longjmp((void*)(ctx))
#include "cr.c"
#undef malloc
#undef free
#include "m_handle.h"

struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}

static const int ops[] = {OPS};
#define N ((int)(sizeof(ops) / sizeof(ops[0])))
static int op_[N];
#ifndef POLLS
#define POLLS 0
#endif
static const int polls[] = {POLLS};
#define NP ((int)(sizeof(polls) / sizeof(polls[0])))
#define MAXC 5
#define MAXB 4
#define CID 2

#ifdef VT_CBMC
#define END() do {WITNESS("end"); __CPROVER_assume(0);} while(0)
#else
#define END() do {WITNESS("end"); exit(0);} while(0)
#endif

/* ---- memory ---- */
static struct dill_bundle blocks[MAXB];
static int bfreed[MAXB], nb;
static int bh[MAXB];            /* handles of bundles, in order of creation */
static int bclosed[MAXB];
static void *tmalloc(size_t sz) {
    CHECK(sz <= sizeof(struct dill_bundle), "only bundles are allocated");
    if(vt_fail_at && --vt_fail_at == 0) {errno = ENOMEM; return NULL;}
    vt_live++;
    return &blocks[nb];
}
static void tfree(void *p) {
    int i;
    for(i = 0; i != MAXB; ++i) if(p == &blocks[i]) {
        CHECK(!bfreed[i], "bundle freed once");
        bfreed[i] = 1;
        vt_live--;
        return;
    }
    CHECK(0, "only bundles are freed");
}
static struct dill_cr crs[MAXC];    /* actor i > 0 lives in crs[i] */
static int nact = 1;
static int stackfail;
static int sfreed[MAXC];
void *dill_allocstack(size_t *sz) {
    if(stackfail) {errno = ENOMEM; return NULL;}
    if(sz) *sz = 262144;
    return &crs[nact] + 1;
}
static int fdone[MAXC];
void dill_freestack(void *stack) {
    int i;
    for(i = 1; i != MAXC; ++i) if(stack == (void*)(&crs[i] + 1)) {
        CHECK(fdone[i] && !sfreed[i], "stack freed once, after the coroutine finished");
        sfreed[i] = 1;
        return;
    }
    CHECK(0, "only stacks are freed");
}
static void *ctxof(int i) {return i ? (void*)crs[i].ctx : (void*)dill_ctx_.cr.main.ctx;}

/* ---- reference scheduler ---- */
enum {RUNNING, READY, RAW, FRAME, DEAD};
static int state[MAXC];
static int inframe[MAXC];        /* suspended with its frame on the C stack */
static int afterGo[MAXC];
static int bundleof[MAXC];
static int rid[MAXC], rerr[MAXC];
static int rq[MAXC + 2], rqn;
static struct dill_clause ecl[MAXC];
static int eon[MAXC], ecanc[MAXC];
static struct dill_tmclause tm[2 * MAXC];
static int ton[2 * MAXC];
static int64_t tdl[2 * MAXC];
static int waits[MAXC];          /* in bundle_wait for this bundle, or -1 */
static int wseq[MAXC];
static int noblk[MAXC];          /* being closed */
static int closer[MAXC];         /* by whom, or -1 */
static int closes[MAXC];         /* which bundle it is closing, or -1 */
static int bclosedby[MAXB];
static int64_t clk, lastpoll;
static int cur, target, kk, pp, mode, polled, retries;
enum {SCHED, RESUME, NORMAL};

static void cancelled(struct dill_clause *cl) {
    int i;
    for(i = 0; i != MAXC; ++i) if(cl == &ecl[i]) ecanc[i]++;
}
static void ready(int a, int id, int err) {
    CHECK(state[a] == RAW || state[a] == FRAME || state[a] == RUNNING, "model: made ready once");
    state[a] = READY;
    rid[a] = id;
    rerr[a] = err;
    eon[a] = ton[2 * a] = ton[2 * a + 1] = 0;
    waits[a] = -1;
    rq[rqn++] = a;
}
static void expire(void) {
    int r, i;
    for(r = 0; r != 3; ++r) {
        int best = -1;
        for(i = 0; i != 2 * MAXC; ++i)
            if(ton[i] && tdl[i] <= clk && (best < 0 || tdl[i] < tdl[best])) best = i;
        for(i = 0; i != 2 * MAXC; ++i)
            if(i == best) ready(i / 2, 10 + i % 2, ETIMEDOUT);
    }
    for(i = 0; i != 2 * MAXC; ++i) CHECK(!ton[i] || tdl[i] > clk, "model: all expired");
}

/* Still in the bundle's list. */
static int members(int b, int me) {
    int i, n = 0;
    for(i = 1; i != MAXC; ++i)
        if(i < nact && i != me && bundleof[i] == b && (!fdone[i] || noblk[i])) n++;
    return n;
}
static void wakewaiters(int b) {
    int i, r;
    for(r = 0; r != 3; ++r) {
        int best = -1;
        for(i = 0; i != MAXC; ++i)
            if(waits[i] == b && (best < 0 || wseq[i] < wseq[best])) best = i;
        if(best >= 0) ready(best, 0, 0);
    }
}
/* x goes on closing its bundle: the next coroutine is canceled. */
static void closenext(int x) {
    int i;
    for(i = 1; i != MAXC; ++i) if(i < nact && bundleof[i] == closes[x] && !fdone[i]) {
        noblk[i] = 1;
        closer[i] = x;
        if((state[i] == RAW || state[i] == FRAME) && closes[i] < 0)
            ready(i, -1, ECANCELED);
        return;
    }
}
static void finished(int a) {
    fdone[a] = 1;
    if(closer[a] >= 0) ready(closer[a], -1, 0);
    if(!noblk[a] && members(bundleof[a], a) == 0) wakewaiters(bundleof[a]);
}

/* ---- environment ---- */
int64_t dill_now(void) {return clk;}
int64_t dill_mnow(void) {return clk;}
int dill_pollset_poll(int timeout) {
    int i, due = 0, fired = 0;
    int64_t first = 0;
    for(i = 0; i != 2 * MAXC; ++i)
        if(ton[i] && (!due || tdl[i] < first)) {due = 1; first = tdl[i];}
    if(rqn) CHECK(timeout == 0, "no sleeping while a coroutine is ready");
    else if(!due) CHECK(timeout < 0, "sleeps until an event");
    else if(first <= clk) CHECK(timeout == 0, "no sleeping while a timer is due");
    else CHECK(timeout > 0 && timeout <= first - clk, "sleeps until the first deadline");
    polled = 1;
    ASSUME(retries < 3);
    retries++;
    int pact = pp < NP ? polls[pp] : 0;
    pp++;
    if(pact == 1) return -1;     /* interrupted */
    if(pact >= 20 && eon[pact % 10]) {
        int e = nd_range(0, 200);
        ready(pact % 10, CID, e);
        dill_trigger(&ecl[pact % 10], e);
        fired = 1;
    }
    if(timeout != 0) {
        if(timeout > 0) clk += pact == 2 ? timeout / 2 : pact == 3 ? timeout + 500 : timeout;
    }
    lastpoll = clk;
    expire();
    if(timeout < 0) ASSUME(rqn);  /* otherwise it would sleep forever */
    return fired;
}

/* ---- switching ---- */
static void drive(void);
static int stopat = -1;
static int vt_setjmp(void *ctx) {
    if(mode == SCHED) {
        mode = NORMAL;
        polled = retries = 0;
        return 0;
    }
    if(mode == RESUME) {mode = NORMAL; return 1;}
    int me = cur;
    CHECK(closes[me] >= 0 || waits[me] >= 0 || state[me] == READY, "waits only if it has to");
    CHECK(ctx == ctxof(me), "context of the running coroutine is stored");
    if(state[me] == RUNNING) state[me] = FRAME;
    inframe[me] = 1;
    int old = stopat;
    stopat = me;
    mode = SCHED;
    dill_wait();
    drive();
    stopat = old;
    inframe[me] = 0;
    cur = me;
    CHECK(dill_ctx_.cr.r == (me ? &crs[me] : &dill_ctx_.cr.main), "running coroutine is current");
    state[me] = RUNNING;
    mode = NORMAL;
    if(closes[me] >= 0) closenext(me);
    return 1;
}
static void vt_longjmp(void *ctx) {
    int i;
    target = -1;
    for(i = 0; i != MAXC; ++i) if(ctx == ctxof(i)) target = i;
    CHECK(target >= 0, "switches to a coroutine");
    if(!polled) CHECK(clk <= lastpoll + 1000, "events are checked at least once a second");
    CHECK(rqn > 0, "somebody is ready");
    CHECK(target == rq[0], "coroutines run in the order they became ready");
    for(i = 0; i != MAXC + 1; ++i) rq[i] = rq[i + 1];
    rqn--;
}

/* ---- operations ---- */
static void step(void);
/* 0: never, 1: already over, 2 and 3: in the future. All are different. */
static int64_t deadline(int x) {
    static int unique;
    unique++;
    if(x == 0) return -unique;
    if(x == 1) return clk - 50 + unique;
    return clk + (x == 2 ? 100 : 200) + unique;
}
static void timer(int a, int j, int x) {
    int64_t d = deadline(x);
    dill_timer(&tm[2 * a + j], 10 + j, d);
    ton[2 * a + j] = d >= 0;
    tdl[2 * a + j] = d;
}
static void suspend(int a) {
    state[a] = RAW;
    mode = SCHED;
    dill_wait();
    drive();
}
static int opened(int b) {return b < nb && !bclosed[b];}
static void launch(int x) {
    int me = cur;
    sigjmp_buf *jb;
    void *ptr = NULL;
    if(x != 9 && !opened(x)) END();
    int rc = dill_prologue(&jb, &ptr, 0, x == 9 ? -1 : bh[x], __FILE__, __LINE__);
    CHECK(rc >= 0, "coroutine launched");
    CHECK((void*)*jb == ctxof(me), "context of the launching coroutine is stored");
    if(x == 9) {bh[nb] = rc; bundleof[nact] = nb; nb++;}
    else {
        CHECK(rc == 0, "launching into a bundle returns zero");
        bundleof[nact] = x;
    }
    ready(me, 0, 0);
    afterGo[me] = 1;
    cur = nact;
    nact++;
    state[cur] = RUNNING;
    step();
}
static void badlaunch(int x) {
    sigjmp_buf *jb;
    void *ptr = NULL;
    int h = -1, live = vt_live, open = mh_open, err, oldn = nb;
    if(x == 0) {stackfail = 1; err = ENOMEM;}
    if(x == 1) {vt_fail_at = 1; err = ENOMEM;}
    if(x == 2) {mh_fail_at = 1; err = 0;}
    if(x == 3) {h = 1000; err = EBADF;}
    if(x == 4) {stackfail = 1; h = bh[0]; err = ENOMEM; if(!opened(0)) END();}
    if(x == 5) {crs[MAXC - 1].vfs.query = dill_cr_query; crs[MAXC - 1].vfs.close = dill_cr_close; h = dill_hmake(&crs[MAXC - 1].vfs); open++; err = ENOTSUP;}
    int rc = dill_prologue(&jb, &ptr, 0, h, __FILE__, __LINE__);
    CHECK(rc == -1, "coroutine can't be launched");
    CHECK(x == 2 ? errno == ENOMEM || errno == ECANCELED : errno == err, "with the right error");
    CHECK(live == vt_live && open == mh_open, "nothing is left behind");
    bfreed[nb] = 0;
    stackfail = 0;
    CHECK(dill_ctx_.cr.r == (cur ? &crs[cur] : &dill_ctx_.cr.main), "caller keeps running");
    if(x == 4) {
        /* The bundle's list doesn't contain the failed coroutine. */
        CHECK(members(0, -1) > 0 || dill_list_empty(&blocks[0].crs), "no coroutine left behind");
    }
    WITNESS("launch failed");
    step();
}
/* Everything that could block fails once the coroutine is being closed. */
static void nomore(void) {
    sigjmp_buf *jb;
    void *ptr = NULL;
    int live = vt_live, open = mh_open;
    errno = 0;
    CHECK(dill_canblock() == -1 && errno == ECANCELED, "canceled coroutines can't block");
    errno = 0;
    CHECK(dill_yield() == -1 && errno == ECANCELED, "canceled coroutines can't yield");
    errno = 0;
    CHECK(dill_prologue(&jb, &ptr, 0, -1, "", 0) == -1 && errno == ECANCELED,
        "canceled coroutines can't launch");
    errno = 0;
    CHECK(dill_bundle_wait(bh[0], -1) == -1 && errno == ECANCELED, "canceled coroutines can't wait");
    CHECK(live == vt_live && open == mh_open, "nothing is left behind");
    WITNESS("canceled");
}
static void closebundle(int x) {
    int me = cur, i, c;
    if(x >= nb) END();
    if(bclosed[x]) {
        CHECK(dill_hclose(bh[x]) == -1 && errno == EBADF, "bundle is closed once");
        step();
        return;
    }
    /* Closing oneself, even indirectly, is not allowed. */
    for(c = me, i = 0; c > 0 && i != MAXC; ++i) {
        if(bundleof[c] == x) END();
        c = bclosed[bundleof[c]] == 1 ? bclosedby[bundleof[c]] : 0;
    }
    bclosed[x] = 1;
    bclosedby[x] = me;
    closes[me] = x;
    closenext(me);
    int rc = dill_hclose(bh[x]);
    CHECK(rc == 0, "bundle closed");
    closes[me] = -1;
    bclosed[x] = 2;
    CHECK(bfreed[x] == 1, "bundle's memory released");
    for(i = 1; i != MAXC; ++i) if(i < nact && bundleof[i] == x) {
        CHECK(fdone[i], "close returns after all coroutines have finished");
        CHECK(sfreed[i], "stacks released");
    }
    wakewaiters(x);
    WITNESS("closed");
    step();
}
static void waitbundle(int x, int dl) {
    int me = cur, expect, err;
    static int seq;
    if(x >= nb) END();
    int64_t d = deadline(dl);
    errno = 0;
    if(noblk[me]) {expect = -1; err = ECANCELED;}
    else if(bclosed[x]) {expect = -1; err = EBADF;}
    else if(members(x, -1) == 0) {expect = 0; err = 0;}
    else {
        expect = 1;
        waits[me] = x;
        wseq[me] = seq++;
        ton[2 * me] = d >= 0;
        tdl[2 * me] = d;
    }
    int rc = dill_bundle_wait(bh[x], d);
    if(expect == 1) {expect = rerr[me] ? -1 : 0; err = rerr[me]; WITNESS("waited");}
    CHECK(rc == expect, "result of the wait");
    CHECK(rc == 0 || errno == err, "error of the wait");
    step();
}
static void act(int op) {
    int me = cur, code = op / 10, x = op % 10;
    if(noblk[me] && (code <= 2 || code == 4 || code == 7 || code == 8 || code >= 10)) {
        nomore();
        act(50);
        return;
    }
    if(code == 0) {timer(me, 0, x); suspend(me);}
    else if(code == 8) {timer(me, 0, x / 4); timer(me, 1, x % 4); suspend(me);}
    else if(code == 1) {
        dill_waitfor(&ecl[me], CID, cancelled);
        eon[me] = 1;
        ecanc[me] = 0;
        timer(me, 0, x);
        suspend(me);
    }
    else if(code == 9) {
        clk += x == 1 ? 50 : x == 2 ? 150 : 2000;
        step();
    }
    else if(code == 2) {
        CHECK(dill_canblock() == 0, "may block");
        ready(me, 0, 0);
        mode = SCHED;
        dill_yield();
        drive();
    }
    else if(code == 3) {
        if(eon[x]) {
            int e = nd_range(0, 200);
            ready(x, CID, e);
            dill_trigger(&ecl[x], e);
        }
        step();
    }
    else if(code == 4) launch(x);
    else if(code == 5) {
        if(me == 0) END();
        state[me] = DEAD;
        finished(me);
        mode = SCHED;
        dill_epilogue();
        drive();
    }
    else if(code == 6) closebundle(x);
    else if(code == 7) waitbundle(x, 0);
    else if(code == 10) waitbundle(x, 2);
    else if(code == 11) waitbundle(x, 1);
    else if(code == 12) {
        int old = dill_no_blocking(1);
        CHECK(old == 0, "blocking mode");
        errno = 0;
        CHECK(dill_canblock() == -1 && errno == ECANCELED, "can't block while closing a handle");
        CHECK(dill_no_blocking(0) == 1, "blocking mode");
        CHECK(dill_canblock() == 0, "can block again");
        step();
    }
    else if(code == 13) badlaunch(x);
}
#ifndef CHOICE
#define CHOICE 0
#endif
static const int choice[] = {CHOICE};
static void step(void) {
    if(kk == N) END();
    int op = op_[kk];
    kk++;
    act(op);
}
static void resumed(int a) {
    cur = a;
    CHECK(dill_ctx_.cr.r == (a ? &crs[a] : &dill_ctx_.cr.main), "running coroutine is current");
    state[a] = RUNNING;
    if(afterGo[a]) {afterGo[a] = 0; return;}
    mode = RESUME;
    int id = dill_wait();
    int err = errno;
    CHECK(id == rid[a] && err == rerr[a], "resumed with the event's identity and result");
    if(ecanc[a]) CHECK(ecanc[a] == 1, "clause canceled once");
    if(id >= 10) WITNESS("timer fired");
}
static void drive(void) {
    int i;
    if(target == stopat) return;
    for(i = 0; i != MAXC; ++i) if(i < nact && target == i) {
        if(inframe[i]) END();
        resumed(i);
        step();
        return;
    }
    CHECK(0, "switches to a live coroutine");
}

/* The whole history is chosen first, so that it is constant on each path. */
static void pick(void);
static void picked(int v) {op_[kk] = choice[v]; kk++; pick();}
static void pick(void) {
    if(kk == N) {
        int i;
        for(i = 0; i != MAXC; ++i) waits[i] = closer[i] = closes[i] = -1;
        clk = 5000;
        kk = 0;
        dill_ctx_cr_init(&dill_ctx_.cr);
        lastpoll = clk;
        step();
        END();
    }
    if(ops[kk] >= 0) {op_[kk] = ops[kk]; kk++; pick(); return;}
    SPLIT((int)(sizeof(choice) / sizeof(choice[0])), picked);
}
int main(void) {
    pick();
    return 0;
}
