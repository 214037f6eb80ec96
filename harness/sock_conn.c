/* State of TCP and IPC connections: any sequence of sends, receives, half-close
   and closes with any result of the system; while an operation is blocked
   another coroutine tries everything as well. */
//@ prop: N01
//@ engine: symx
//@ lib: m_handle
//@ lib: cstr
//@ config: PROTO=0 K=3
//@ config: PROTO=1 K=2
//@ thorough: PROTO=0 K=4
//@ thorough: PROTO=1 K=3
//@ bound: sock_conn: TCP and IPC connections, every sequence of 3 or 4 operations followed by closing, each with any result; one operation of another coroutine during each blocking one
#include "knet.h"
#include "fd.h"
static int f_send(int s, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline);
static int f_recv(int s, struct dill_fd_rxbuf *rx, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline);
static int closes, terms, shuts;
void dill_fd_initrxbuf(struct dill_fd_rxbuf *rx) {rx->len = rx->pos = 0; rx->buf = NULL;}
void dill_fd_termrxbuf(struct dill_fd_rxbuf *rx) {terms++;}
int dill_fd_unblock(int s) {return 0;}
int dill_fd_connect(int s, const struct sockaddr *addr, socklen_t len, int64_t dl) {CHECK(0, "unused"); return -1;}
int dill_fd_accept(int s, struct sockaddr *addr, socklen_t *len, int64_t dl) {CHECK(0, "unused"); return -1;}
int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {return f_send(s, first, last, deadline);}
int dill_fd_recv(int s, struct dill_fd_rxbuf *rx, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {return f_recv(s, rx, first, last, deadline);}
void dill_fd_close(int s) {CHECK(s == K_FD0, "own descriptor"); closes++;}
int dill_fd_own(int s) {return s;}
int dill_fd_check(int s, int type, int family1, int family2, int listening) {return 0;}
static ssize_t k_sendmsg(int s, const struct msghdr *m, int flags);
static ssize_t k_recvmsg(int s, struct msghdr *m, int flags);
#define sendmsg k_sendmsg
#define recvmsg k_recvmsg
#if PROTO == 0
#include "tcp.c"
#define CONN dill_tcp_fromfd(K_FD0)
#define DONE dill_tcp_done
#define CLOSE dill_tcp_close
#else
#include "ipc.c"
#define CONN dill_ipc_fromfd(K_FD0)
#define DONE dill_ipc_done
#define CLOSE dill_ipc_close
#endif

static int h;
static struct dill_bsock_vfs *b;
static struct dill_iolist iol;
static char data[8];
static int64_t dl;
/* Model of the connection. */
static int indone, inerr, outdone, outerr;
static int sending, receiving, closing;
static int calls, calle;         /* calls to the kernel layer, error of the last one */
static int nested;

static int someerr(void) {
    int e = nd_range(1, 133);
    ASSUME(e != EBUSY);
    return e;
}
static void other(void);
static int f_send(int s, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
    CHECK(s == K_FD0 && first == &iol && last == &iol && deadline == dl, "arguments passed on");
    CHECK(!sending && !outdone && !outerr, "one send at a time on a live connection");
    sending = 1;
    calls++;
    int c = calls;
    if(nested < 1 && nd_bool()) {nested++; other(); nested--;}
    sending = 0;
    calls = c;
    calle = 0;
    if(nd_bool()) {calle = someerr(); ASSUME(calle != EPIPE); outerr = 1; errno = calle; return -1;}
    return 0;
}
static int f_recv(int s, struct dill_fd_rxbuf *rx, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
    if(closing) CHECK(!first && !last, "skips everything until the end");
    else CHECK(first == &iol && last == &iol, "arguments passed on");
    CHECK(s == K_FD0 && deadline == dl, "arguments passed on");
    CHECK(!receiving && !indone && !inerr, "one receive at a time on a live connection");
    receiving = 1;
    calls++;
    int c = calls;
    if(nested < 1 && !closing && nd_bool()) {nested++; other(); nested--;}
    receiving = 0;
    calls = c;
    calle = 0;
    if(closing || nd_bool()) {
        calle = someerr();
        if(calle == EPIPE) indone = 1; else inerr = 1;
        errno = calle;
        return -1;
    }
    return 0;
}
#undef shutdown
static void op_send(void) {
    int busy = sending, d = outdone, e = outerr;
    calls = 0;
    errno = 0;
    int rc = b->bsendl(b, &iol, &iol, dl);
    CHECK(rc == 0 || rc == -1, "result");
    if(busy) CHECK(rc == -1 && errno == EBUSY && !calls, "busy while another coroutine sends");
    else if(d) CHECK(rc == -1 && errno == EPIPE && !calls, "no sending after the half-close");
    else if(e) CHECK(rc == -1 && errno == ECONNRESET && !calls, "outbound errors are permanent");
    else {
        CHECK(calls == 1, "sent once");
        CHECK(calle ? rc == -1 && errno == calle : rc == 0, "result is reported");
    }
    if(busy) WITNESS("busy");
}
static void op_recv(void) {
    int busy = receiving, d = indone, e = inerr;
    calls = 0;
    errno = 0;
    int rc = b->brecvl(b, &iol, &iol, dl);
    CHECK(rc == 0 || rc == -1, "result");
    if(busy) CHECK(rc == -1 && errno == EBUSY && !calls, "busy while another coroutine receives");
    else if(d) CHECK(rc == -1 && errno == EPIPE && !calls, "no receiving after the peer has finished");
    else if(e) CHECK(rc == -1 && errno == ECONNRESET && !calls, "inbound errors are permanent");
    else {
        CHECK(calls == 1, "received once");
        CHECK(calle ? rc == -1 && errno == calle : rc == 0, "result is reported");
    }
}
static void op_done(void) {
    int d = outdone, e = outerr, sh = kfd[0].shut;
    kfail = 0;
    errno = 0;
    int rc = DONE(h, dl);
    if(d) CHECK(rc == -1 && errno == EPIPE && kfd[0].shut == sh, "finishing twice fails");
    else if(e) CHECK(rc == -1 && errno == ECONNRESET && kfd[0].shut == sh, "broken connection can't be finished");
    else {
        CHECK(kfd[0].shut == sh + 1, "half-closed once");
        if(kfail) {
            CHECK(rc == -1 && errno == (kfail == ENOTCONN ? ECONNRESET : ENOMEM), "failure is reported");
            outerr = 1;
        } else {
            CHECK(rc == 0, "finished");
            outdone = 1;
            WITNESS("done");
        }
    }
}
#if PROTO == 1
static int sent, got, waitfail;
static ssize_t k_sendmsg(int s, const struct msghdr *m, int flags) {
    CHECK(s == K_FD0 && kfd[0].watched, "waited for the socket");
    CHECK(flags & MSG_NOSIGNAL, "a closed connection does not kill the process");
    CHECK(m->msg_iovlen == 1 && m->msg_iov[0].iov_len == 1, "one byte");
    struct cmsghdr *c = CMSG_FIRSTHDR(m);
    CHECK(c && c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS &&
        c->cmsg_len == CMSG_LEN(sizeof(int)) && m->msg_controllen >= c->cmsg_len && !CMSG_NXTHDR((struct msghdr*)m, c), "one descriptor");
    CHECK(*(int*)CMSG_DATA(c) == 33, "the descriptor is passed");
    sent++;
    if(nd_bool()) {calle = ECONNRESET; outerr = 1; errno = nd_bool() ? ECONNRESET : EPIPE; return -1;}
    return 1;
}
static ssize_t k_recvmsg(int s, struct msghdr *m, int flags) {
    CHECK(s == K_FD0 && kfd[0].watched, "waited for the socket");
    got++;
    CHECK(m->msg_iovlen == 1 && m->msg_iov[0].iov_len == 1 && m->msg_controllen >= CMSG_LEN(sizeof(int)), "room for a descriptor");
    int x = nd_range(0, 4);
    if(x == 0) {calle = ECONNRESET; inerr = 1; errno = ECONNRESET; return -1;}
    if(x == 1) {calle = EPIPE; indone = 1; m->msg_controllen = 0; return 0;}
    if(x == 2) {calle = EPROTO; inerr = 1; m->msg_controllen = 0; return 1;}
    struct cmsghdr *c = CMSG_FIRSTHDR(m);
    c->cmsg_level = SOL_SOCKET;
    c->cmsg_type = x == 3 ? SCM_RIGHTS : 2;
    c->cmsg_len = CMSG_LEN(sizeof(int));
    m->msg_controllen = CMSG_SPACE(sizeof(int));
    *(int*)CMSG_DATA(c) = 44;
    if(x == 4) {calle = EPROTO; inerr = 1;}
    return 1;
}
static void op_fd(int recv) {
    int busy = recv ? receiving : sending, d = recv ? indone : outdone, e = recv ? inerr : outerr;
    calle = sent = got = kfail = 0;
    kfd[0].watched = 0;
    errno = 0;
    int rc = recv ? dill_ipc_recvfd(h, dl) : dill_ipc_sendfd(h, 33, dl);
    if(busy || d || e) CHECK(rc == -1 && errno == (busy ? EBUSY : d ? EPIPE : ECONNRESET) && !sent && !got, "not in this state");
    else if(kfail) CHECK(rc == -1 && errno == kfail && !sent && !got, "waiting failed");
    else {
        CHECK(recv ? got == 1 && !sent : sent == 1 && !got, "one message");
        CHECK(calle ? rc == -1 && errno == calle : rc == (recv ? 44 : 0), "result is reported");
    }
    if(!recv) CHECK(dill_ipc_sendfd(h, -1, dl) == -1 && errno == EINVAL, "bad descriptor");
    if(recv && rc >= 0) WITNESS("descriptor");
    if(!recv && rc >= 0) WITNESS("descriptor sent");
}
#else
static ssize_t k_sendmsg(int s, const struct msghdr *m, int flags) {return -1;}
static ssize_t k_recvmsg(int s, struct msghdr *m, int flags) {return -1;}
static void op_fd(int recv) {ASSUME(0);}
#endif
static void other(void) {
    int x = nd_range(0, 2);
    if(x == 0) op_send();
    else if(x == 1) op_recv();
    else if(PROTO == 1 && nd_bool()) op_fd(nd_bool());
    else if(!sending) op_done();
}
int main(void) {
    int k;
    kdeadline = nd_i64();
    h = k_new(AF_INET, SOCK_STREAM);
    dl = kdeadline;
    iol.iol_base = data;
    iol.iol_len = sizeof(data);
    h = CONN;
    CHECK(h >= 0 && vt_live == 1 && mh_open == 1, "connection");
    b = dill_hquery(h, dill_bsock_type);
    CHECK(b != NULL, "is a bytestream");
    int other_ = 0;
    CHECK(!dill_hquery(h, &other_) && errno == ENOTSUP, "and nothing else");
    for(k = 0; k != K; ++k) {
        int x = nd_range(0, PROTO == 1 ? 5 : 3);
        if(x >= 4) op_fd(x - 4);
        else if(x == 0) op_send();
        else if(x == 1) op_recv();
        else if(x == 2) op_done();
        else break;
    }
    if(nd_bool()) {
        CHECK(dill_hclose(h) == 0, "closed");
        CHECK(calls <= 1, "at once");
    } else {
        int id = indone, ie = inerr, od = outdone, oe = outerr, sh = kfd[0].shut;
        closing = 1;
        calls = 0;
        kfail = 0;
        errno = 0;
        int rc = CLOSE(h, dl);
        int err = errno;
        CHECK(rc == 0 || rc == -1, "result");
        int exp = 0;
        if(ie || oe) {
            exp = ECONNRESET;
            CHECK(!calls && kfd[0].shut == sh, "broken connection is closed at once");
        } else {
            CHECK(kfd[0].shut == sh + !od, "half-closed unless it already is");
            if(kfail) {exp = kfail == ENOTCONN ? ECONNRESET : ENOMEM; CHECK(!calls, "gives up");}
            else if(!id) {
                CHECK(calls == 1, "waits for the peer");
                exp = calle == EPIPE ? 0 : calle;
            }
        }
        CHECK(exp ? rc == -1 && err == exp : rc == 0, "result of the close");
        if(rc == 0) WITNESS("closed");
        else WITNESS("close failed");
    }
    CHECK(mh_open == 0 && vt_live == 0 && closes == 1 && terms == 1, "everything is released once");
    CHECK(CLOSE(h, dl) == -1 && errno == EBADF, "handle is gone");
    return 0;
}
