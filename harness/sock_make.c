/* Creation of TCP, IPC and UDP sockets: any system call, allocation or handle
   creation may fail at any point. */
//@ prop: N02
//@ engine: symx
//@ src: iol
//@ lib: m_handle
//@ lib: cstr
//@ config: PROTO=0
//@ config: PROTO=1
//@ config: PROTO=2
//@ bound: sock_make: every public constructor of TCP, IPC and UDP sockets, with caller's and own memory, each system call succeeding or failing with any errno (at most 3 accept calls), both address families, then close of the result
#include "knet.h"
#include "fd.c"
#if PROTO == 0
#include "tcp.c"
#elif PROTO == 1
#include "ipc.c"
#else
#include "udp.c"
#endif
#undef close

struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}

static int own;      /* the user's descriptor, -1 if none */
/* h is the result of a constructor; nfd, nmem: what a socket consists of. */
static void result(int h, int nmem, const char *what) {
    if(h >= 0) {
        CHECK(kfails == 0, "failure is not ignored");
        CHECK(mh_isopen(h) && mh_open == 1, "one working handle");
        CHECK(vt_live == nmem, "one block of memory");
        CHECK(k_opens() == 1, "owns one descriptor");
        int i, f = -1;
        for(i = 0; i != K_NFD; ++i) if(kfd[i].open) f = i;
        CHECK(kfd[f].nonblock, "descriptor does not block");
        CHECK(f + K_FD0 != own, "user's descriptor is replaced by a private one");
        int rc = dill_hclose(h);
        CHECK(rc == 0 && kfd[f].closed == 1, "closing the handle closes the descriptor");
        WITNESS("created");
    } else {
        CHECK(h == -1, "result");
        if(kfails) {
            CHECK(errno == kfail, "error is reported");
            WITNESS("failed");
        }
        else CHECK(errno == ENOMEM || errno == ECANCELED || errno == EINVAL || errno == ENAMETOOLONG, "error is reported");
    }
    CHECK(mh_open == 0, "no handle left");
    CHECK(vt_live == 0, "no memory left");
    int i;
    for(i = 0; i != K_NFD; ++i) CHECK(kfd[i].closed <= 1, "descriptors closed once");
    if(h < 0 && own >= 0 && kfd[own - K_FD0].open) {
        /* Ownership is not taken if the wrapping fails early. */
        k_close(own);
    }
    CHECK(k_opens() == 0, "no descriptor left");
}

#if PROTO < 2
/* Listener to accept from. */
static void *lq(struct dill_hvfs *v, const void *t) {return NULL;}
#endif
static int mk(void *x) {return 0;}

int main(void) {
    struct dill_ipaddr addr;
    memset(&addr, 0, sizeof(addr));
    struct sockaddr *sa = (struct sockaddr*)&addr;
    sa->sa_family = nd_bool() ? AF_INET : AF_INET6;
    int port = nd_range(0, 65535);
    dill_ipaddr_setport(&addr, port);
    kaddr = &addr;
    kaddrlen = dill_ipaddr_len(&addr);
    kbacklog = nd_int();
    kdeadline = nd_i64();
    k_sotype = nd_bool() ? SOCK_STREAM : SOCK_DGRAM;
    k_soaccept = nd_bool();
    k_sofamily = nd_bool() ? AF_INET : nd_bool() ? AF_INET6 : nd_bool() ? AF_UNIX : AF_PACKET;
    own = -1;
    dill_ctx_fd_init(&dill_ctx_.fd);
    int op = nd_range(0, 10), h;
    vt_malloc_may_fail = 1;
    mh_may_fail = 1;
    errno = 0;
#if PROTO == 0
    static struct dill_tcp_storage mem;
    static struct dill_tcp_listener_storage lmem;
    if(op == 10) {
        int x = nd_range(0, 4);
        errno = 0;
        h = x == 0 ? dill_tcp_connect_mem(&addr, NULL, kdeadline) : x == 1 ? dill_tcp_listen_mem(&addr, 1, NULL) :
            x == 2 ? dill_tcp_accept_mem(7, NULL, NULL, kdeadline) : x == 3 ? dill_tcp_fromfd_mem(7, NULL) :
            dill_tcp_listener_fromfd_mem(7, NULL);
        CHECK(h == -1 && errno == EINVAL && kn == 0, "missing storage is refused");
        result(h, 0, "no storage");
    }
    else if(op == 0) result(dill_tcp_connect(&addr, kdeadline), 1, "connect");
    else if(op == 1) result(dill_tcp_connect_mem(&addr, &mem, kdeadline), 0, "connect");
    else if(op == 2 || op == 3) {
        h = op == 2 ? dill_tcp_listen(&addr, kbacklog) : dill_tcp_listen_mem(&addr, kbacklog, &lmem);
        if(h >= 0) {
            CHECK(kfd[0].listening && kfd[0].type == SOCK_STREAM && kfd[0].family == sa->sa_family, "socket listens");
            CHECK(dill_ipaddr_port(&addr) == (port ? port : kport), "ephemeral port reported");
        }
        result(h, op == 2, "listen");
    }
    else if(op == 4 || op == 5) {
        static struct dill_tcp_listener_storage m2;
        knofail = 1;
        vt_malloc_may_fail = mh_may_fail = 0;
        int l = dill_tcp_listen_mem(&addr, kbacklog, &m2);
        CHECK(l >= 0, "listener");
        knofail = 0;
        vt_malloc_may_fail = mh_may_fail = 1;
        struct dill_ipaddr peer;
        h = op == 4 ? dill_tcp_accept(l, nd_bool() ? &peer : NULL, kdeadline) : dill_tcp_accept_mem(l, NULL, &mem, kdeadline);
        int err = errno;
        if(h >= 0) CHECK(h != l, "handle of its own");
        CHECK(mh_isopen(l), "listener stays open");
        dill_hclose(l);
        CHECK(kfd[0].closed == 1, "listener closed");
        errno = err;
        result(h, op == 4, "accept");
    }
    else {
        int listener = op >= 8;
        own = k_new(k_sofamily, k_sotype);
        h = op == 6 ? dill_tcp_fromfd(own) : op == 7 ? dill_tcp_fromfd_mem(own, &mem) :
            op == 8 ? dill_tcp_listener_fromfd(own) : dill_tcp_listener_fromfd_mem(own, &lmem);
        if(h >= 0) CHECK(k_sotype == SOCK_STREAM && (k_sofamily == AF_INET || k_sofamily == AF_INET6) &&
            k_soaccept == listener, "only sockets of the right kind are wrapped");
        result(h, op == 6 || op == 8, "fromfd");
    }
#elif PROTO == 1
    static struct dill_ipc_storage mem;
    static struct dill_ipc_listener_storage lmem;
    static struct dill_ipc_pair_storage pmem;
    char name[120];
    int i, len = nd_bool() ? 5 : nd_bool() ? 107 : 108;
    for(i = 0; i != len; ++i) name[i] = 'a' + i % 26;
    name[len] = 0;
    kaddr = NULL;
    if(op == 10) {
        int x = nd_range(0, 5), s[2];
        errno = 0;
        h = x == 0 ? dill_ipc_connect_mem("x", NULL, kdeadline) : x == 1 ? dill_ipc_listen_mem("x", 1, NULL) :
            x == 2 ? dill_ipc_accept_mem(7, NULL, kdeadline) : x == 3 ? dill_ipc_fromfd_mem(7, NULL) :
            x == 4 ? dill_ipc_listener_fromfd_mem(7, NULL) : dill_ipc_pair_mem(NULL, s);
        CHECK(h == -1 && errno == EINVAL && kn == 0, "missing storage is refused");
        result(h, 0, "no storage");
    }
    else if(op == 0) {h = dill_ipc_connect(name, kdeadline); CHECK(h < 0 || len <= 107, "address fits"); result(h, 1, "connect");}
    else if(op == 1) {h = dill_ipc_connect_mem(name, &mem, kdeadline); CHECK(h < 0 || len <= 107, "address fits"); result(h, 0, "connect");}
    else if(op == 2 || op == 3) {
        h = op == 2 ? dill_ipc_listen(name, kbacklog) : dill_ipc_listen_mem(name, kbacklog, &lmem);
        if(h >= 0) CHECK(kfd[0].listening && kfd[0].type == SOCK_STREAM && kfd[0].family == AF_UNIX, "socket listens");
        result(h, op == 2, "listen");
    }
    else if(op == 4 || op == 5) {
        static struct dill_ipc_listener_storage m2;
        knofail = 1;
        vt_malloc_may_fail = mh_may_fail = 0;
        int l = dill_ipc_listen_mem("x", kbacklog, &m2);
        CHECK(l >= 0, "listener");
        knofail = 0;
        vt_malloc_may_fail = mh_may_fail = 1;
        h = op == 4 ? dill_ipc_accept(l, kdeadline) : dill_ipc_accept_mem(l, &mem, kdeadline);
        int err = errno;
        if(h >= 0) CHECK(h != l, "handle of its own");
        CHECK(mh_isopen(l), "listener stays open");
        dill_hclose(l);
        CHECK(kfd[0].closed == 1, "listener closed");
        errno = err;
        result(h, op == 4, "accept");
    }
    else if(op == 6 || op == 7) {
        int s[2];
        h = op == 6 ? dill_ipc_pair(s) : dill_ipc_pair_mem(&pmem, s);
        if(h == 0) {
            CHECK(kfails == 0, "failure is not ignored");
            CHECK(s[0] != s[1] && mh_isopen(s[0]) && mh_isopen(s[1]) && mh_open == 2, "two handles");
            CHECK(k_opens() == 2 && kfd[0].nonblock && kfd[1].nonblock, "two descriptors");
            CHECK(vt_live == (op == 6 ? 2 : 0), "two blocks");
            dill_hclose(s[nd_bool()]);
            CHECK(k_opens() == 1 && mh_open == 1, "first closed");
            dill_hclose(mh_isopen(s[0]) ? s[0] : s[1]);
            CHECK(k_opens() == 0 && kfd[0].closed == 1 && kfd[1].closed == 1 && vt_live == 0 && mh_open == 0, "both closed");
            WITNESS("pair");
        } else result(h, 0, "pair");
    }
    else {
        int listener = nd_bool();
        own = k_new(k_sofamily, k_sotype);
        h = op == 8 ? (listener ? dill_ipc_listener_fromfd(own) : dill_ipc_fromfd(own)) :
            listener ? dill_ipc_listener_fromfd_mem(own, &lmem) : dill_ipc_fromfd_mem(own, &mem);
        if(h >= 0) CHECK(k_sotype == SOCK_STREAM && k_sofamily == AF_UNIX && k_soaccept == listener,
            "only sockets of the right kind are wrapped");
        result(h, op == 8, "fromfd");
    }
#else
    static struct dill_udp_storage mem;
    struct dill_ipaddr remote;
    memset(&remote, 0, sizeof(remote));
    ((struct sockaddr*)&remote)->sa_family = nd_bool() ? AF_INET : AF_INET6;
    struct dill_ipaddr *l = nd_bool() ? &addr : NULL, *r = nd_bool() ? &remote : NULL;
    ASSUME(op <= 1);
    h = op == 0 ? dill_udp_open(l, r) : dill_udp_open_mem(l, r, &mem);
    if(h >= 0) {
        CHECK(kfd[0].type == SOCK_DGRAM, "datagram socket");
        CHECK(kfd[0].family == (l ? dill_ipaddr_family(l) : r ? dill_ipaddr_family(r) : AF_INET), "family");
        CHECK(kfd[0].bound == !!l, "bound to the local address");
        if(l) CHECK(dill_ipaddr_port(&addr) == (port ? port : kport), "ephemeral port reported");
        if(l && r) CHECK(dill_ipaddr_family(l) == dill_ipaddr_family(r), "families agree");
    }
    result(h, op == 0, "open");
#endif
    return 0;
}
