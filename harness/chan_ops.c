/* Channels: every history of a bounded number of operations by concurrent
   coroutines. The contract of the scheduler (wait/trigger/timer) is modelled
   here; chan.c is the real code. Blocked coroutines are kept as suspended
   frames below the operations which follow. */
//@ prop: C01 C02 C03
//@ lib: m_handle
//@ unwind: 8
//@ bound: histories of 2 to 6 operations (the listed sequences of send 0/1, receive 10/11, done 20/21, close 30/31, two-clause choose 4xy, expiry of the n-th operation 5n) by as many coroutines on one channel; message sizes 0..2, all contents, deadlines, times of expiry and cancellation symbolic as selected by SYM
//@ config: OPS=0,11 SYM=15
//@ config: OPS=11,0 SYM=15
//@ config: OPS=0,0,11 SYM=3
//@ config: OPS=11,11,0 SYM=3
//@ config: OPS=0,1,11,10 SYM=1
//@ config: OPS=0,0,11,11 SYM=1
//@ config: OPS=11,11,0,0 SYM=1
//@ config: OPS=0,0,0,11,11,11 SYM=0 LEN2=4
//@ config: OPS=11,11,11,0,0,0 SYM=0 LEN2=36
//@ config: OPS=0,0,0,51,11,11 SYM=1
//@ config: OPS=11,11,50,0,0 SYM=1
//@ config: OPS=11,11,11,51,0,0 SYM=0
//@ config: OPS=0,0,50,11,11 SYM=1
//@ config: OPS=20,0,11,1,10,20 SYM=1
//@ config: OPS=11,11,10,20,1,20 SYM=1
//@ config: OPS=0,0,1,20,0,11,10 SYM=0
//@ config: OPS=10,11,10,30,31 SYM=1
//@ config: OPS=0,0,1,31,30 SYM=1
//@ config: OPS=10,30,1,11,31 SYM=1
//@ config: OPS=30,0,10,20,0,11 SYM=1
//@ config: OPS=0,1,402,11,10 SYM=1
//@ config: OPS=0,403,11 SYM=3
//@ config: OPS=400,411,11 SYM=1
//@ config: OPS=433,402,0 SYM=3
//@ config: OPS=433,0,10 SYM=3
//@ config: OPS=421,432,0,1 SYM=0
//@ config: OPS=1,0,423,432 SYM=1
//@ config: OPS=403,403,20,11 SYM=1
//@ config: OPS=432,411,30,31 SYM=1
//@ config: OPS=433,403,51,1,0 SYM=0
//@ config: OPS=30,403,430 SYM=3
//@ config: OPS=20,423,11,400 SYM=3
//@ thorough: OPS=0,0,11 SYM=15
//@ thorough: OPS=11,11,0 SYM=15
//@ thorough: OPS=0,1,11,10 SYM=3
//@ thorough: OPS=10,11,30,31 SYM=3
//@ thorough: OPS=0,0,11,11 SYM=3
//@ thorough: OPS=11,11,0,0 SYM=3
//@ thorough: OPS=0,1,402,11 SYM=15
//@ thorough: OPS=0,11,423 SYM=15
//@ thorough: OPS=0,0,20,11,11 SYM=3
//@ thorough: OPS=0,0,0,51,11,11 SYM=3
//@ thorough: OPS=11,11,11,50,0,0 SYM=3
//@ thorough: OPS=432,411,30,31 SYM=3
//@ thorough: OPS=0,0,0,0,11,11,11,11 SYM=0 LEN2=64
#include "repo.h"
#include "chan.c"
#include "m_handle.h"

enum {SEND, RECV, DONE, CLOSE, CHOOSE, EXPIRE};
static const int codes[] = {OPS};
#define N ((int)(sizeof(codes) / sizeof(codes[0])))
#define MAXN N
#ifndef EMASK
#define EMASK 0
#endif
#define EARLY(k) (((EMASK >> (k)) & 1) || ((SYM & 8) && nd_bool()))
#ifndef SYM     /* what is symbolic: 1 sizes, 2 deadlines, 4 cancellation, 8 early expiry */
#define SYM 15
#endif
#ifndef LEN2
#define LEN2 0
#endif
#ifndef ZERODL
#define ZERODL 0
#endif
#define SZ 2
#define NCL 3

/* ---- the operations ---- */
struct op {
    uint8_t buf[2 * SZ]; /* contents before */
    int rc, err, resolved; /* expected result, once known */
    int blocked;
    int from;            /* for receives: operation and clause of the sender */
    int fromcl;
    int rcl;             /* clause performed */
    /* scheduler side */
    struct dill_clause *cl[NCL];
    int id[NCL], code[NCL], nreg;
    int triggered, tid, terr;
    int timer;
};
static struct op op[MAXN];
/* Kept apart from the results, which are written with symbolic indices. */
static int kind[MAXN], ends[2 * MAXN], opks[2 * MAXN];
static int64_t deadline_[MAXN];
static size_t lens[2 * MAXN];
static int ncl[MAXN];
static uint8_t b[MAXN * 2 * SZ];   /* the actual buffers */
static int ch[2];
static int done[2], closed[2];
/* Queues of waiting (operation, clause) pairs: [direction * 2 + receivers?] */
static int qn[4], q[4 * MAXN];
static int cur;
static int nested[MAXN];  /* later operations ran while this one was waiting */
static int cancel;

static void run(int k);

/* ---- reference model ---- */
static void withdraw(int o) {
    int k, i, j;
    for(k = 0; k != 4; ++k) {
        for(i = 0, j = 0; i != MAXN; ++i) if(i < qn[k]) {
            int v = q[k * MAXN + i];
            if(v / 2 != o) {q[k * MAXN + j] = v; j++;}
        }
        qn[k] = j;
    }
}
static void resolve(int o, int rc, int err) {
    CHECK(!op[o].resolved, "model: resolved once");
    op[o].resolved = 1;
    op[o].rc = rc;
    op[o].err = err;
    withdraw(o);
}
/* A waiter finishes with the outcome of one of its clauses. */
static void waiter(int v, int err, int from, int fromcl) {
    int o;
    for(o = 0; o != N; ++o) if(o == v / 2) {
        op[o].rcl = v % 2;
        op[o].from = from;
        op[o].fromcl = fromcl;
        if(kind[o] == CHOOSE) resolve(o, v % 2, err);
        else resolve(o, err ? -1 : 0, err);
    }
}
/* Tries to perform one clause at once. Returns 0 if it would have to wait. */
static int attempt(int o, int c) {
    int e = ends[2 * o + c], snd = opks[2 * o + c] == SEND;
    int d = snd ? 1 - e : e;
    int ok = kind[o] == CHOOSE ? c : 0;
    int bad = kind[o] == CHOOSE ? c : -1;
    if(closed[e]) {resolve(o, bad, EBADF); return 1;}
    if(done[d]) {resolve(o, bad, EPIPE); return 1;}
    int k = d * 2 + (snd ? 1 : 0);
    if(!qn[k]) return 0;
    int v = q[k * MAXN];
    if(lens[2 * (v / 2) + (v % 2)] != lens[2 * (o) + (c)]) {
        waiter(v, EMSGSIZE, 0, 0);
        resolve(o, bad, EMSGSIZE);
        return 1;
    }
    waiter(v, 0, o, c);
    op[o].rcl = c;
    op[o].from = v / 2;
    op[o].fromcl = v % 2;
    resolve(o, ok, 0);
    return 1;
}
static void flush(int d) {
    int i;
    for(i = 0; i != MAXN; ++i) if(qn[d * 2 + 1]) waiter(q[(d * 2 + 1) * MAXN], EPIPE, 0, 0);
    for(i = 0; i != MAXN; ++i) if(qn[d * 2]) waiter(q[d * 2 * MAXN], EPIPE, 0, 0);
}
static void reference(int o) {
    int c;
    if(kind[o] == DONE) {
        int d = 1 - ends[2 * o + 0];
        if(closed[ends[2 * o + 0]]) resolve(o, -1, EBADF);
        else if(done[d]) resolve(o, -1, EPIPE);
        else {done[d] = 1; flush(d); resolve(o, 0, 0);}
        return;
    }
    if(kind[o] == CLOSE) {
        if(closed[ends[2 * o + 0]]) resolve(o, -1, EBADF);
        else {
            closed[ends[2 * o + 0]] = 1;
            if(closed[1 - ends[2 * o + 0]]) {flush(0); flush(1);}
            resolve(o, 0, 0);
        }
        return;
    }
    if(cancel) {resolve(o, -1, ECANCELED); return;}
    for(c = 0; c != ncl[o]; ++c)
        if(attempt(o, c)) return;
    if(deadline_[o] == 0) {resolve(o, -1, ETIMEDOUT); return;}
    op[o].blocked = 1;
    for(c = 0; c != ncl[o]; ++c) {
        int e = ends[2 * o + c], snd = opks[2 * o + c] == SEND;
        int k = (snd ? 1 - e : e) * 2 + (snd ? 0 : 1);
        q[k * MAXN + qn[k]] = o * 2 + c;
        qn[k]++;
    }
}

/* ---- scheduler contract ---- */
int dill_canblock(void) {
    if(cancel) {errno = ECANCELED; return -1;}
    return 0;
}
/* Known cancellation callbacks, learned in main(). Keeps calls direct. */
static void (*known[3])(struct dill_clause*);
static int learning;
static void cancel_clause(int code, struct dill_clause *cl) {
    if(code == 0) known[0](cl);
    else if(code == 1) known[1](cl);
    else if(code == 2) known[2](cl);
    else CHECK(0, "harness: unexpected cancellation callback");
}
void dill_waitfor(struct dill_clause *cl, int id, void (*cn)(struct dill_clause*)) {
    CHECK(id >= 0, "clause registration");
    cl->id = id;
    cl->cancel = cn;
    if(learning) {known[learning - 1] = cn; return;}
    struct op *o = &op[cur];
    CHECK(o->nreg < NCL, "clause registration");
    cl->cr = (struct dill_cr*)(intptr_t)(cur + 1);
    o->cl[o->nreg] = cl;
    o->code[o->nreg] = cn == known[0] ? 0 : cn == known[1] ? 1 : cn == known[2] ? 2 : 3;
    o->nreg++;
}
void dill_timer(struct dill_tmclause *tmcl, int id, int64_t deadline) {
    if(learning) return;
    CHECK(deadline == deadline_[cur], "deadline passed on unchanged");
    if(deadline < 0) return;
    op[cur].timer = 1;
    op[cur].id[0] = id;
}
static void release(struct op *o) {
    int i;
    for(i = 0; i != NCL; ++i)
        if(i < o->nreg) cancel_clause(o->code[i], o->cl[i]);
    o->nreg = 0;
}
void dill_trigger(struct dill_clause *cl, int err) {
    int k, w = (int)(intptr_t)cl->cr - 1;
    for(k = 0; k != N; ++k) if(k == w) {
        struct op *o = &op[k];
        CHECK(!o->triggered, "a coroutine is resumed once");
        o->triggered = 1;
        o->tid = cl->id;
        o->terr = err;
        release(o);
    }
}
int dill_wait(void) {
    if(learning) {errno = ECANCELED; return -1;}
    int me = cur;
    struct op *o = &op[me];
    CHECK(o->blocked, "blocks only if it cannot proceed");
    if(!EARLY(me)) {
        nested[me] = 1;
        run(me + 1);
    }
    cur = me;
    if(o->triggered) {errno = o->terr; return o->tid;}
    if(o->timer && nd_bool()) {
        release(o);
        resolve(me, -1, ETIMEDOUT);
        errno = ETIMEDOUT;
        return o->id[0];
    }
    release(o);
    resolve(me, -1, ECANCELED);
    errno = ECANCELED;
    return -1;
}
int dill_no_blocking(int v) {return 0;}

/* ---- running the operations ---- */
/* An earlier waiter times out or is canceled, but does not run yet. */
static void expire(int k) {
    struct op *o = &op[k];
    if(!o->blocked || o->triggered) return;
    int cn = !o->timer || nd_bool();
    o->triggered = 1;
    o->tid = cn ? -1 : o->id[0];
    o->terr = cn ? ECANCELED : ETIMEDOUT;
    release(o);
    resolve(k, -1, o->terr);
    WITNESS("waiter expired while others wait");
}
static void run1(int k) {
    struct op *o = &op[k];
    int i, rc, c;
    if(kind[k] == EXPIRE) {expire(codes[k] % 10); return;}
    if((SYM & 4) && k < 2) cancel = (kind[k] == SEND || kind[k] == RECV || kind[k] == CHOOSE) ? nd_bool() : 0;
    cur = k;
    reference(k);
    uint8_t *p = b + k * 2 * SZ;
    errno = 0;
    if(kind[k] == SEND) rc = dill_chsend(ch[ends[2 * k + 0]], p, lens[2 * k + 0], deadline_[k]);
    else if(kind[k] == RECV) rc = dill_chrecv(ch[ends[2 * k + 0]], p, lens[2 * k + 0], deadline_[k]);
    else if(kind[k] == DONE) rc = dill_chdone(ch[ends[2 * k + 0]]);
    else if(kind[k] == CLOSE) rc = dill_hclose(ch[ends[2 * k + 0]]);
    else {
        struct dill_chclause cl[2];
        for(i = 0; i != 2; ++i) {
            cl[i].op = opks[2 * k + i] == SEND ? DILL_CHSEND : DILL_CHRECV;
            cl[i].ch = ch[ends[2 * k + i]];
            cl[i].val = p + i * SZ;
            cl[i].len = lens[2 * k + i];
        }
        rc = dill_choose(cl, ncl[k], deadline_[k]);
    }
    int e = errno;
    CHECK(o->resolved, "completes only when it should");
    CHECK(rc == o->rc, "right result");
    if(o->rc == -1 || kind[k] == CHOOSE) CHECK(e == o->err, "right errno");
    if(o->err == 0) {
        if(o->blocked) WITNESS("completed after waiting");
        else WITNESS("completed at once");
    }
    if(o->err == EPIPE) WITNESS("EPIPE");
    if(o->err == EMSGSIZE) WITNESS("EMSGSIZE");
    if(o->err == ETIMEDOUT) WITNESS("ETIMEDOUT");
    /* Buffers: a successful receive holds the message, nothing else changes. */
    for(c = 0; c != 2; ++c)
        for(i = 0; i != SZ; ++i) {
            int got = o->err == 0 && o->rcl == c && opks[2 * k + c] == RECV &&
                kind[k] != DONE && kind[k] != CLOSE && i < lens[2 * k + c];
            uint8_t exp = o->buf[c * SZ + i];
            if(got) exp = op[o->from].buf[o->fromcl * SZ + i];
            CHECK(b[k * 2 * SZ + c * SZ + i] == exp, "buffers hold exactly the message");
        }
}
static void run(int k) {
    if(k == N) return;
    run1(k);
    if(!nested[k]) run(k + 1);
}

int main(void) {
    int k, i;
    for(k = 0; k != N; ++k) {
        kind[k] = codes[k] >= 400 ? CHOOSE : codes[k] / 10;
        ends[2 * k + 0] = codes[k] % 10;
        opks[2 * k + 0] = kind[k];
        ncl[k] = 1;
        for(i = 0; i != 2; ++i) {
            lens[2 * (k) + (i)] = (LEN2 >> k) & 1 ? 2 : 1;
            if(SYM & 1) lens[2 * (k) + (i)] = nd_range(0, SZ);
        }
        deadline_[k] = (ZERODL >> k) & 1 ? 0 : 5;
        if(SYM & 2) deadline_[k] = nd_i64();
        for(i = 0; i != 2 * SZ; ++i) b[k * 2 * SZ + i] = op[k].buf[i] = nd_u8();
        if(kind[k] == CHOOSE) {
            ncl[k] = 2;
            for(i = 0; i != 2; ++i) {
                int d = i ? codes[k] % 10 : codes[k] / 10 % 10;
                opks[2 * k + i] = d / 2 ? RECV : SEND;
                ends[2 * k + i] = d % 2;
            }
        }
    }
    static struct dill_halfchan store[2];
    CHECK(dill_chmake_mem((struct dill_chstorage*)store, ch) == 0, "channel created");
    static uint8_t dummy[1];
    for(learning = 1; learning != 4; ++learning) {
        static struct dill_halfchan tmp[2];
        int t[2];
        CHECK(dill_chmake_mem((struct dill_chstorage*)tmp, t) == 0, "channel created");
        if(learning == 1) dill_chrecv(t[0], dummy, 1, -1);
        else if(learning == 2) dill_chsend(t[0], dummy, 1, -1);
        else {
            struct dill_chclause c = {DILL_CHRECV, t[0], dummy, 1};
            dill_choose(&c, 1, -1);
        }
    }
    learning = 0;
    run(0);
    for(i = 0; i != 2; ++i) if(!closed[i]) dill_hclose(ch[i]);
    CHECK(mh_open == 6, "everything released");
    return 0;
}
