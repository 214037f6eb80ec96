/* Kernel model for socket system calls, used by harnesses which include the
   library's sources. Descriptors are tracked from creation to close; every
   call may fail where the library handles failure. */
#ifndef KNET_H
#define KNET_H
#include "repo.h"
#include <fcntl.h>
#include <unistd.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "m_handle.h"

#define K_FD0 10
#define K_NFD 8
static struct {int open, closed, nonblock, bound, listening, connected, watched, linger0;
    int type, family, shut;} kfd[K_NFD];
static int kn;                      /* descriptors created so far */
static int kfail;                   /* errno of the last failed call */
static int kfails;                  /* failures so far */
static int knofail;                 /* no injected failures */
static int64_t kdeadline;           /* deadline all waiting has to use */
static int kwaits;
static const void *kaddr;           /* address to bind or connect to */
static int kaddrlen;
static int kport;                   /* port assigned by the kernel */

static int k_errno(void) {
    /* Any error number, other than the ones the call handles by itself. */
    int e = nd_range(1, 133);
    ASSUME(e != EAGAIN && e != EWOULDBLOCK && e != EINPROGRESS && e != ECONNABORTED && e != ENOPROTOOPT);
    return e;
}
static int k_fail(void) {
    if(knofail || !nd_bool()) return 0;
    kfail = k_errno();
    kfails++;
    errno = kfail;
    return 1;
}
static int k_new(int family, int type) {
    CHECK(kn < K_NFD, "number of descriptors");
    int i = kn++;
    kfd[i].open = 1;
    kfd[i].type = type;
    kfd[i].family = family;
    return K_FD0 + i;
}
static int k_valid(int s) {
    CHECK(s >= K_FD0 && s < K_FD0 + kn && kfd[s - K_FD0].open, "an open descriptor is used");
    return s - K_FD0;
}
static int k_opens(void) {int i, n = 0; for(i = 0; i != K_NFD; ++i) n += kfd[i].open; return n;}

static int k_socket(int family, int type, int proto) {
    if(k_fail()) return -1;
    return k_new(family, type);
}
static int k_socketpair(int family, int type, int proto, int s[2]) {
    if(k_fail()) return -1;
    s[0] = k_new(family, type);
    s[1] = k_new(family, type);
    return 0;
}
static int k_dup(int s) {
    int i = k_valid(s);
    if(k_fail()) return -1;
    int r = k_new(kfd[i].family, kfd[i].type);
    kfd[r - K_FD0].nonblock = kfd[i].nonblock;
    return r;
}
static int k_close(int s) {
    int i = k_valid(s);
    CHECK(!kfd[i].watched, "polling state dropped before the descriptor is closed");
    kfd[i].open = 0;
    kfd[i].closed++;
    return 0;
}
static int k_fcntl(int s, int cmd, int arg) {
    int i = k_valid(s);
    if(cmd == F_GETFL) return kfd[i].nonblock ? O_NONBLOCK : 0;
    if(cmd == F_SETFL) kfd[i].nonblock = !!(arg & O_NONBLOCK);
    return 0;
}
static int k_setsockopt(int s, int level, int opt, const void *val, socklen_t len) {
    int i = k_valid(s);
    if(opt == SO_LINGER) {
        const struct linger *l = val;
        kfd[i].linger0 = l->l_onoff && l->l_linger == 0;
    }
    return 0;
}
static int k_sotype, k_soaccept, k_sofamily, k_soerror;
static int k_getsockopt(int s, int level, int opt, void *val, socklen_t *len) {
    int i = k_valid(s);
    CHECK(*len >= sizeof(int), "size of the option");
    if(opt == SO_ERROR) {
        if(k_fail()) return -1;
        k_soerror = !knofail && nd_bool() ? k_errno() : 0;
        *(int*)val = k_soerror;
        if(*(int*)val) {kfails++; kfail = k_soerror;}
        else kfd[i].connected = 1;
        return 0;
    }
    if(k_fail()) return -1;
    if(opt == SO_TYPE) *(int*)val = k_sotype;
    else if(opt == SO_ACCEPTCONN) *(int*)val = k_soaccept;
    else CHECK(0, "unknown option");
    return 0;
}
static int k_getsockname(int s, struct sockaddr *addr, socklen_t *len) {
    int i = k_valid(s);
    if(k_fail()) return -1;
    if(kfd[i].bound) {
        kport = nd_range(1, 65535);
        if(kfd[i].family == AF_INET) {
            struct sockaddr_in *in = (struct sockaddr_in*)addr;
            CHECK(*len >= sizeof(*in), "room for the address");
            in->sin_family = AF_INET;
            in->sin_port = htons(kport);
        }
        else {
            struct sockaddr_in6 *in = (struct sockaddr_in6*)addr;
            CHECK(*len >= sizeof(*in), "room for the address");
            in->sin6_family = AF_INET6;
            in->sin6_port = htons(kport);
        }
        return 0;
    }
    addr->sa_family = k_sofamily;
    return 0;
}
static int k_bind(int s, const struct sockaddr *addr, socklen_t len) {
    int i = k_valid(s);
    if(kaddr) CHECK(addr == kaddr && (int)len == kaddrlen, "address to bind to");
    if(k_fail()) return -1;
    kfd[i].bound = 1;
    return 0;
}
static int kbacklog;
static int k_listen(int s, int backlog) {
    int i = k_valid(s);
    CHECK(kfd[i].bound && backlog == kbacklog, "listens at the address");
    if(k_fail()) return -1;
    kfd[i].listening = 1;
    return 0;
}
static int k_connect(int s, const struct sockaddr *addr, socklen_t len) {
    int i = k_valid(s);
    CHECK(kfd[i].nonblock, "connecting does not block the thread");
    if(kaddr) CHECK(addr == kaddr && (int)len == kaddrlen, "address to connect to");
    if(k_fail()) return -1;
    if(nd_bool()) {errno = EINPROGRESS; return -1;}
    kfd[i].connected = 1;
    return 0;
}
static int kaccepts;
static int k_accept(int s, struct sockaddr *addr, socklen_t *len) {
    int i = k_valid(s);
    CHECK(kfd[i].nonblock, "accepting does not block the thread");
    ASSUME(kaccepts < 3);
    kaccepts++;
    if(nd_bool()) {errno = nd_bool() ? EAGAIN : ECONNABORTED; return -1;}
    if(k_fail()) return -1;
    int r = k_new(kfd[i].family, kfd[i].type);
    kfd[r - K_FD0].connected = 1;
    return r;
}
static int k_shutdown(int s, int how) {
    int i = k_valid(s);
    CHECK(how == SHUT_WR, "half-close");
    kfd[i].shut++;
    if(!knofail && nd_bool()) {
        kfail = nd_bool() ? ENOTCONN : ENOBUFS;
        kfails++;
        errno = kfail;
        return -1;
    }
    return 0;
}
static int k_wait(int s, int64_t deadline) {
    int i = k_valid(s);
    CHECK(deadline == kdeadline, "waits until the deadline");
    kfd[i].watched = 1;
    kwaits++;
    if(k_fail()) return -1;
    return 0;
}
int dill_fdin(int s, int64_t deadline) {return k_wait(s, deadline);}
int dill_fdout(int s, int64_t deadline) {return k_wait(s, deadline);}
int dill_fdclean(int s) {int i = k_valid(s); kfd[i].watched = 0; return 0;}

#define socket k_socket
#define socketpair k_socketpair
#define dup k_dup
#define close(s) k_close(s)
#define fcntl k_fcntl
#define setsockopt k_setsockopt
#define getsockopt k_getsockopt
#define getsockname k_getsockname
#define bind k_bind
#define listen k_listen
#define connect k_connect
#define accept k_accept
#define shutdown k_shutdown

/* IP addresses are verified on their own. */
int dill_ipaddr_family(const struct dill_ipaddr *addr) {return ((struct sockaddr*)addr)->sa_family;}
int dill_ipaddr_len(const struct dill_ipaddr *addr) {
    return dill_ipaddr_family(addr) == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6);
}
const struct sockaddr *dill_ipaddr_sockaddr(const struct dill_ipaddr *addr) {return (const struct sockaddr*)addr;}
int dill_ipaddr_port(const struct dill_ipaddr *addr) {
    return ntohs(dill_ipaddr_family(addr) == AF_INET ?
        ((struct sockaddr_in*)addr)->sin_port : ((struct sockaddr_in6*)addr)->sin6_port);
}
void dill_ipaddr_setport(struct dill_ipaddr *addr, int port) {
    if(dill_ipaddr_family(addr) == AF_INET) ((struct sockaddr_in*)addr)->sin_port = htons(port);
    else ((struct sockaddr_in6*)addr)->sin6_port = htons(port);
}
int dill_ipaddr_equal(const struct dill_ipaddr *a, const struct dill_ipaddr *b, int ignore_port) {
    const struct sockaddr_in *x = (const struct sockaddr_in*)a, *y = (const struct sockaddr_in*)b;
    return x->sin_family == y->sin_family && x->sin_addr.s_addr == y->sin_addr.s_addr &&
        (ignore_port || x->sin_port == y->sin_port);
}
#endif
