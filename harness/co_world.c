/* Programs of several coroutines on the whole core of the library (scheduler,
   channels, handles, timers) with real stack switches in virtual time, step by
   step against a reference model of the scheduler and of the channels. */
//@ prop: C01 C02 C03 S01 S02 S03 S04
//@ engine: symx
//@ nosrc: bsock msock iol utils
//@ lib: cstr
//@ config: M=17,-1,-1 A=-1 B=99
//@ config: M=17,17,-1 A=-1 B=-1
//@ config: M=17,20,-1,-1 A=-1 B=-1 CHOICE=0,2,13,14,15,19,3
//@ config: M=17,-1,-1 A=20,-1 B=-1 CHOICE=0,1,3,13,14,15,17,18
//@ config: M=17,-1,-1 A=17,-1 B=-1 CHOICE=0,1,3,13,14,15,19,4
//@ config: M=17,17,-1 A=8,-1 B=9,-1 CHOICE=2,3,4,8,9,10,11,12,18,16,13
//@ config: M=17,17,-1,-1 A=-1 B=-1 CHOICE=2,3,4,5,7,8,9,16
//@ config: M=17,17,-1,-1 A=-1,-1 B=1 CHOICE=0,1,4,5,15,19
//@ bound: co_world: programs of main and up to 2 coroutines with up to 4 operations each, up to 3 of them chosen by the solver among up to 19 kinds (launching into own and shared bundles, channel sends, receives, half-close and close, two-way waits, sleeps, timeouts, yields, waiting for and closing bundles), 2 channels, real stack switches, virtual time
#define W_STACKS 6
#include "world.h"
#define NW 3
static const int prog[NW][8] = {{M, 99}, {A, 99}, {B, 99}};
#ifndef CHOICE
#define CHOICE 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18
#endif
static const int choice[] = {CHOICE};
#define NCHOICE ((int)(sizeof(choice) / sizeof(choice[0])))

/* ---- reference model ---- */
static struct {
    int launched, ended, cancelled, h, hopen, b, inlist;
    int waiting;            /* within a blocking operation */
    int resolved;           /* the result is known */
    int err, clause;        /* the result */
    int64_t dl;             /* deadline or -1 */
    int ticket;             /* position in the queue of ready coroutines */
    uint64_t *buf, val;     /* where to receive to, what has to be there */
    int got;
} w[NW];
static int cur, tick, nlaunched = 1, evts;
/* Waiting clauses, in order of arrival. */
static struct {int w, cl, c, d, out, len; uint64_t val;} q[16];
static int nq;
static int done[2][2], chopen[2] = {1, 1}, ch[2][2];
static uint64_t msgno;
static int bwait[NW], closer[NW];
static void unqueue(int i) {
    int k, n = 0;
    for(k = 0; k != nq; ++k) if(q[k].w != i) q[n++] = q[k];
    nq = n;
}
static void resolve(int i, int err, int cl) {
    CHECK(w[i].waiting && !w[i].resolved, "harness: resolved once");
    unqueue(i);
    bwait[i] = -1;
    w[i].resolved = 1;
    w[i].err = err;
    w[i].clause = cl;
    w[i].ticket = ++tick;
}
/* Cancels the first coroutine of bundle t that did not finish yet. */
static int cancel_next(int x, int t) {
    int i, k;
    for(i = 0; i != NW; ++i) if(w[i].inlist && w[i].b == t && !w[i].ended) {
        int inclose = 0;
        w[i].cancelled = 1;
        for(k = 0; k != NW; ++k) if(closer[k] == i) inclose = 1;
        if(w[i].waiting && !w[i].resolved && !inclose) resolve(i, ECANCELED, -1);
        closer[i] = x;
        return 1;
    }
    return 0;
}
/* A coroutine closing a bundle runs once for every coroutine in it. What it
   does then can be seen only later. */
static void phantom(int ticket) {
    int i, k;
    for(i = 0; i != NW; ++i) if(w[i].waiting && w[i].resolved && w[i].ticket <= ticket)
        for(k = 0; k != NW; ++k) if(closer[k] == i && w[k].ended) {
            int t = w[k].b;
            closer[k] = -1;
            w[k].inlist = 0;
            if(cancel_next(i, t)) {w[i].resolved = 0; WITNESS("several are closed");}
            break;
        }
}
static void world_idle(void) {
    int i;
    for(i = 0; i != NW; ++i) if(w[i].launched && !w[i].ended)
        CHECK(w[i].waiting && !w[i].resolved && w[i].dl < 0, "coroutine that can run runs");
    WITNESS("deadlock of the program");
    exit(0);
}
static int poll(int timeout) {
    int i, any = 0;
    phantom(tick);
    for(i = 0; i != NW; ++i)
        CHECK(!(w[i].launched && !w[i].ended) || !(w[i].waiting && w[i].resolved) || timeout == 0, "does not sleep if a coroutine can run");
    if(timeout < 0) world_idle();
    w_clock += timeout;
    for(i = 0; i != NW; ++i)
        if(w[i].waiting && !w[i].resolved && w[i].dl >= 0 && w[i].dl <= w_clock) {
            CHECK(w[i].dl == w_clock, "timer is not late");
            resolve(i, ETIMEDOUT, -1);
            if(any) w[i].ticket = --tick;   /* order of these is not specified */
            any = 1;
        }
    return 0;
}
static void begin(int i, int64_t dl) {
    w[i].waiting = 1;
    w[i].resolved = 0;
    w[i].dl = dl;
}
/* After a blocking operation. */
static void end(int i) {
    int k;
    phantom(w[i].resolved ? w[i].ticket : tick);
    CHECK(w[i].waiting && w[i].resolved, "resumed when there is a result");
    for(k = 0; k != NW; ++k) if(k != i && w[k].waiting && w[k].resolved)
        CHECK(w[k].ticket >= w[i].ticket, "resumed in order");
    w[i].waiting = 0;
    cur = i;
    evts++;
}
/* Puts the clause of coroutine i to a channel; true if it has a result now. */
static int try(int i, int cl, int c, int d, int out, int len, uint64_t val, uint64_t *buf, int *err) {
    int k;
    if(!chopen[c]) {*err = EBADF; return 1;}
    if(done[c][d]) {*err = EPIPE; return 1;}
    for(k = 0; k != nq; ++k) if(q[k].c == c && q[k].d == d && q[k].out != out) {
        int o = q[k].w;
        if(q[k].len != len) {resolve(o, EMSGSIZE, q[k].cl); *err = EMSGSIZE; return 1;}
        if(out) {w[o].val = val; w[o].got = 1;}
        else {w[i].val = q[k].val; w[i].got = 1;}
        resolve(o, 0, q[k].cl);
        *err = 0;
        return 1;
    }
    return 0;
}
static void enqueue(int i, int cl, int c, int d, int out, int len, uint64_t val) {
    CHECK(nq < 16, "harness: queue");
    q[nq].w = i; q[nq].cl = cl; q[nq].c = c; q[nq].d = d; q[nq].out = out; q[nq].len = len; q[nq].val = val;
    nq++;
}
static void worker_end(int i) {
    int k;
    CHECK(cur == i, "harness: current");
    w[i].ended = 1;
    if(closer[i] >= 0) {
        int x = closer[i];
        w[x].resolved = 1; w[x].ticket = ++tick;
        return;
    }
    w[i].inlist = 0;
    for(k = 0; k != NW; ++k) if(w[k].inlist && w[k].b == w[i].b) return;
    for(k = 0; k != NW; ++k) if(bwait[k] == w[i].b) resolve(k, 0, 0);
}
static void run(int i);
static dill_coroutine void worker(int i) {
    run(i);
    worker_end(i);
}
static void close_bundle(int i, int t) {
    int k;
    if(!w[t].launched || !w[t].hopen) return;
    int e = evts;
    w[t].hopen = 0;
    if(cancel_next(i, t)) {
        begin(i, -1);
        CHECK(dill_hclose(w[t].h) == 0, "close");
        w[i].err = 0;
        end(i);
    } else {
        CHECK(dill_hclose(w[t].h) == 0, "close");
        CHECK(evts == e, "close of a finished bundle does not block");
    }
    for(k = 0; k != NW; ++k) if(w[k].launched && w[k].b == t) CHECK(w[k].ended && closer[k] < 0, "close waits for the coroutines to finish");
    for(k = 0; k != NW; ++k) if(bwait[k] == t) resolve(k, 0, 0);
    WITNESS("closed");
}
static void close_channel(int c) {
    int k;
    if(!chopen[c]) return;
    CHECK(dill_hclose(ch[c][0]) == 0, "close");
    chopen[c] = 0;
    for(k = 0; k != nq;) if(q[k].c == c) {resolve(q[k].w, EPIPE, q[k].cl); k = 0;} else k++;
    CHECK(dill_hclose(ch[c][1]) == 0, "close");
}
static void channel_op(int i, int n, int c0, int out0, int len0, int c1, int out1, int64_t dl) {
    int k, rc, err = 0, hit = -1, e = evts;
    uint64_t v[2], in[2];
    struct dill_chclause cls[2];
    w[i].got = 0;
    for(k = 0; k != 2; ++k) {
        v[k] = ++msgno * 0x100000001ull;
        in[k] = 0;
        cls[k].op = (k ? out1 : out0) ? DILL_CHSEND : DILL_CHRECV;
        cls[k].ch = ch[k ? c1 : c0][(k ? out1 : out0) ? 0 : 1];
        cls[k].val = (k ? out1 : out0) ? (void*)&v[k] : (void*)&in[k];
        cls[k].len = k ? 4 : len0;
    }
    int can = w[i].cancelled;
    if(!can) {
        for(k = 0; k != n; ++k)
            if(try(i, k, k ? c1 : c0, 1, k ? out1 : out0, cls[k].len, v[k], &in[k], &err)) {hit = k; break;}
        if(hit < 0 && dl != 0) {
            for(k = 0; k != n; ++k) enqueue(i, k, k ? c1 : c0, 1, k ? out1 : out0, cls[k].len, v[k]);
            begin(i, dl);
        }
    }
    errno = 0;
    if(n == 2) rc = dill_choose(cls, 2, dl);
    else rc = out0 ? dill_chsend(cls[0].ch, &v[0], len0, dl) : dill_chrecv(cls[0].ch, &in[0], len0, dl);
    int er = errno;
    if(can) {CHECK(rc == -1 && er == ECANCELED && evts == e, "cancelled coroutine cannot block"); WITNESS("cancelled"); return;}
    if(hit >= 0) {
        CHECK(evts == e, "does not block if it need not");
    } else if(dl == 0) {
        CHECK(rc == -1 && er == ETIMEDOUT && evts == e, "immediate timeout");
        return;
    } else {
        end(i);
        err = w[i].err;
        hit = w[i].clause;
        if(hit < 0) {
            CHECK(rc == -1 && er == err, err == ECANCELED ? "cancelled" : "timed out");
            if(err == ECANCELED) WITNESS("cancelled");
            else WITNESS("timed out");
            return;
        }
    }
    if(n == 2) CHECK(rc == hit && er == err, "chosen clause and its result");
    else CHECK(err ? rc == -1 && er == err : rc == 0, "result of the operation");
    if(!err && !(hit ? out1 : out0)) {
        CHECK(w[i].got, "harness: got");
        if(cls[hit].len == 8) CHECK(in[hit] == w[i].val, "message");
        else CHECK(in[hit] == (uint32_t)w[i].val, "message");
        CHECK(in[1 - hit] == 0, "nothing else is received");
        WITNESS("received");
    }
    if(!err && (hit ? out1 : out0)) CHECK(in[0] == 0 && in[1] == 0, "nothing is received");
}
static void launch(int i, int b) {
    int t = nlaunched, rc;
    if(t >= NW) return;
    if(b >= 0 && (!w[b].launched || w[b].h < 0)) return;
    if(w[i].cancelled) {
        if(b < 0) rc = dill_go(worker(t));
        else rc = dill_bundle_go(w[b].h, worker(t));
        CHECK(rc == -1 && errno == ECANCELED, "cancelled coroutine cannot launch");
        return;
    }
    if(b >= 0 && !w[b].hopen) {
        CHECK(dill_bundle_go(w[b].h, worker(t)) == -1 && errno == EBADF, "no bundle");
        return;
    }
    nlaunched++;
    w[t].launched = 1;
    w[t].hopen = b < 0;
    w[t].h = -1;
    w[t].b = b < 0 ? t : b;
    w[t].inlist = 1;
    begin(i, -1);
    w[i].resolved = 1;
    w[i].ticket = ++tick;
    cur = t;
    if(b < 0) rc = dill_go(worker(t));
    else rc = dill_bundle_go(w[b].h, worker(t));
    CHECK(b < 0 ? rc >= 0 : rc == 0, "launched");
    end(i);
    if(b < 0) w[t].h = rc;
}
static void step(int i, int op) {
    int rc, t = i + 1, e = evts;
    int64_t c = w_clock;
    switch(op) {
    case 0:
        if(!w[i].cancelled) {
            begin(i, -1);
            w[i].resolved = 1; w[i].ticket = ++tick; w[i].err = 0;
        }
        rc = dill_yield();
        if(w[i].cancelled && evts == e && !w[i].waiting) {CHECK(rc == -1 && errno == ECANCELED, "cancelled"); return;}
        end(i);
        CHECK(rc == 0, "yield");
        return;
    case 1: case 19:
        if(w[i].cancelled) {
            CHECK(dill_msleep(c + 100) == -1 && errno == ECANCELED && evts == e, "cancelled");
            return;
        }
        begin(i, op == 1 ? c + 100 : c + 50);
        rc = dill_msleep(w[i].dl);
        end(i);
        if(w[i].err == ECANCELED) CHECK(rc == -1 && errno == ECANCELED, "cancelled");
        else CHECK(rc == 0 && w_clock >= w[i].dl, "slept");
        return;
    case 2: channel_op(i, 1, 0, 1, 4, 0, 0, -1); return;
    case 3: channel_op(i, 1, 0, 0, 4, 0, 0, -1); return;
    case 4: channel_op(i, 1, 0, 1, 4, 0, 0, c + 50); return;
    case 5: channel_op(i, 1, 0, 0, 4, 0, 0, c + 50); return;
    case 6: channel_op(i, 1, 0, 0, 4, 0, 0, 0); return;
    case 7: channel_op(i, 1, 0, 1, 4, 0, 0, 0); return;
    case 8: channel_op(i, 2, 0, 0, 4, 1, 1, -1); return;
    case 9: channel_op(i, 2, 0, 1, 4, 1, 0, c + 50); return;
    case 10: channel_op(i, 1, 1, 0, 4, 0, 0, -1); return;
    case 11: channel_op(i, 1, 1, 1, 4, 0, 0, -1); return;
    case 12:
        rc = dill_chdone(ch[0][0]);
        if(!chopen[0]) CHECK(rc == -1 && errno == EBADF, "no channel");
        else if(done[0][1]) CHECK(rc == -1 && errno == EPIPE, "done twice");
        else {
            int k;
            CHECK(rc == 0 && evts == e, "done");
            done[0][1] = 1;
            for(k = 0; k != nq;) if(q[k].c == 0 && q[k].d == 1 && !q[k].out) {resolve(q[k].w, EPIPE, q[k].cl); k = 0;} else k++;
            for(k = 0; k != nq;) if(q[k].c == 0 && q[k].d == 1) {resolve(q[k].w, EPIPE, q[k].cl); k = 0;} else k++;
        }
        return;
    case 13: if(t < NW) close_bundle(i, t); return;
    case 14: case 15:
        if(t >= NW || !w[t].launched || w[t].h < 0 || w[t].b != t) return;
        {
            int64_t dl = op == 14 ? -1 : c + 70;
            if(w[i].cancelled) {CHECK(dill_bundle_wait(w[t].h, dl) == -1 && errno == ECANCELED, "cancelled"); return;}
            if(!w[t].hopen) return;
            int fin = 1, k;
            for(k = 0; k != NW; ++k) if(w[k].inlist && w[k].b == t) fin = 0;
            if(!fin) {begin(i, dl); bwait[i] = t;}
            rc = dill_bundle_wait(w[t].h, dl);
            int er = errno;
            if(fin) {CHECK(rc == 0 && evts == e, "bundle is finished"); return;}
            end(i);
            if(w[i].err) CHECK(rc == -1 && er == w[i].err, "wait failed");
            else {
                CHECK(rc == 0, "waited");
                for(k = 0; k != NW; ++k) if(w[k].launched && w[k].b == t) CHECK(w[k].ended, "coroutines finished");
                WITNESS("waited");}
        }
        return;
    case 16: channel_op(i, 1, 0, 0, 8, 0, 0, -1); return;
    case 17: launch(i, -1); return;
    case 20: launch(i, 1); return;
    case 18: close_channel(0); return;
    }
}
static void run(int i) {
    int k;
    for(k = 0; k != 8 && prog[i][k] != 99; ++k) {
        int op = prog[i][k];
        if(op < 0) op = choice[pick(NCHOICE)];
        step(i, op);
        CHECK(cur == i, "runs again");
    }
}
int main(void) {
    int i;
    w_poll = poll;
    world_init();
    w_clock = 1000;
    for(i = 0; i != NW; ++i) closer[i] = bwait[i] = -1;
    w[0].launched = 1;
    CHECK(dill_chmake(ch[0]) == 0 && dill_chmake(ch[1]) == 0, "channels");
    run(0);
    /* Clean up. */
    for(i = 1; i != NW; ++i) close_bundle(0, i);
    close_channel(0);
    close_channel(1);
    CHECK(vt_live == 1 && w_stklive == 0, "everything is released");
    WITNESS("finished");
    return 0;
}
