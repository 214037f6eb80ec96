/* Bytestream receive on a descriptor: any segmentation, any sizes. Data is not
   copied: the kernel and memcpy only record where each byte of the stream goes,
   so that sizes are symbolic over their whole range. */
//@ prop: I01 F01
//@ engine: symx
//@ src: iol
//@ lib: m_handle
//@ unwind: 4
//@ unwindfile: fd_recv.c=6
//@ config: NEL=1 NULLMASK=0 RXBUF=1 CALLS=3
//@ config: NEL=1 NULLMASK=1 RXBUF=1 CALLS=3
//@ config: NEL=2 NULLMASK=0 RXBUF=1 CALLS=2
//@ config: NEL=2 NULLMASK=1 RXBUF=1 CALLS=2
//@ config: NEL=2 NULLMASK=2 RXBUF=1 CALLS=2
//@ config: NEL=2 NULLMASK=0 RXBUF=0 CALLS=3
//@ config: NEL=3 NULLMASK=5 RXBUF=0 CALLS=2
//@ config: NEL=3 NULLMASK=2 RXBUF=0 CALLS=2
//@ config: NEL=0 NULLMASK=0 RXBUF=1 CALLS=3
//@ thorough: NEL=2 NULLMASK=0 RXBUF=1 CALLS=3
//@ thorough: NEL=2 NULLMASK=1 RXBUF=1 CALLS=3
//@ thorough: NEL=2 NULLMASK=2 RXBUF=1 CALLS=3
//@ thorough: NEL=3 NULLMASK=0 RXBUF=1 CALLS=2
//@ thorough: NEL=3 NULLMASK=2 RXBUF=1 CALLS=2
//@ thorough: NEL=3 NULLMASK=0 RXBUF=0 CALLS=3
//@ thorough: NEL=3 NULLMASK=4 RXBUF=0 CALLS=3
//@ bound: fd_recv: one receive from any state of the receive buffer, lists of 0 to 3 items of any size up to 65535 (skipped regions up to 1023 bytes), up to 4 system calls with any result (data, would block, end, errors) and any result of waiting
#include "repo.h"
#undef memcpy
#undef malloc
#undef free
#include <sys/socket.h>
#include <netinet/in.h>
#define DILL_DISABLE_RAW_NAMES
#include "libdill.h"

static ssize_t k_recv(int s, void *buf, size_t len, int flags);
static ssize_t k_recvmsg(int s, struct msghdr *hdr, int flags);
static void *k_memcpy(void *dst, const void *src, size_t n);
static void *k_malloc(size_t n);
static void k_free(void *p);
#define recv k_recv
#define recvmsg k_recvmsg
#define memcpy k_memcpy
#define malloc k_malloc
#define free k_free
#include "fd.c"
#undef recv
#undef recvmsg
#undef memcpy
#undef malloc
#undef free

struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}

static inline size_t nd_size_(void) {return nd_raw() & 0xffff;}
#define FD 7
#define BIG (1LL << 40)
#define BASE ((uintptr_t)1 << 44)
static struct dill_iolist l[NEL + 1], save[NEL + 1];
static int64_t off[NEL + 1];          /* position of each item within the request */
static int64_t total;
static int64_t dl;

static uint8_t pool[2][DILL_FD_BUFSIZE];
static int state[2];                  /* 0 heap, 1 in use, 2 cached (free) */
static int nalloc;
static int64_t kpos;                  /* bytes read from the kernel; 0 = start of the request */
static int64_t bufpos;                /* stream position of the buffer's first byte */
static int64_t written, last;
static int calls, failed, blocked;

static void *k_malloc(size_t n) {
    CHECK(n <= DILL_FD_BUFSIZE, "buffer size");
    if(nd_bool()) {failed = ENOMEM; errno = ENOMEM; return NULL;}
    CHECK(nalloc == 0, "one buffer at most");
    nalloc++;
    state[1] = 1;
    return pool[1];
}
static void k_free(void *p) {CHECK(0, "nothing to free while the pool is not full");}

/* Bytes [pos, pos + n) of the stream are stored at p. */
static void stored(uint8_t *p, int64_t pos, int64_t n, int kernel) {
    int k;
    if(n == 0) return;
    CHECK(pos >= last, "each byte is stored once, in order");
    last = pos + n;
    for(k = 0; k != NEL; ++k) {
        if(pos >= off[k] && pos < off[k] + (int64_t)save[k].iol_len) {
            CHECK(pos + n <= off[k] + (int64_t)save[k].iol_len, "stays within the region");
            if((NULLMASK >> k) & 1) {
                CHECK(kernel, "skipped regions are not copied");
                CHECK((uintptr_t)p < BASE || (uintptr_t)p > BASE * 5, "user's memory is not touched when skipping");
            }
            else {
                CHECK((uintptr_t)p == BASE * (k + 1) + (uintptr_t)(pos - off[k]), "byte of the stream goes to its place");
                written += n;
            }
            return;
        }
    }
    CHECK(NEL == 0 && kernel, "no bytes beyond the request");
}
static void *k_memcpy(void *dst, const void *src, size_t n) {
    if(n == 0) return dst;
    const uint8_t *s = src;
    int b = s >= pool[0] && s < pool[0] + DILL_FD_BUFSIZE ? 0 : 1;
    CHECK(s >= pool[b] && s + n <= pool[b] + DILL_FD_BUFSIZE, "copied from the receive buffer");
    CHECK(state[b] == 1, "buffer in use");
    stored(dst, bufpos + (s - pool[b]), n, 0);
    return dst;
}
/* Result of a receive call for up to n bytes. */
static int64_t result(int64_t n) {
    CHECK(n > 0, "receives at least one byte");
    CHECK(!failed, "no receiving after a failure");
    ASSUME(calls < CALLS);
    calls++;
    int64_t r = (int64_t)nd_size_() - 1;
    ASSUME(r <= n);
    if(r == -1) {
        int e = nd_range(1, 200);
        if(e == EAGAIN || e == EWOULDBLOCK) blocked = 1;
        else failed = e == EPIPE ? ECONNRESET : e;
        errno = e;
        return -1;
    }
    if(r == 0) failed = EPIPE;
    return r;
}
static struct dill_fd_rxbuf rx;
static ssize_t k_recv(int s, void *buf, size_t len, int flags) {
    CHECK(s == FD, "descriptor");
    CHECK(buf == pool[0] || buf == pool[1], "into the receive buffer");
    CHECK(state[buf == pool[0] ? 0 : 1] == 1 && buf == rx.buf, "which is its own");
    CHECK(len <= DILL_FD_BUFSIZE, "not beyond it");
    CHECK(rx.len == rx.pos, "unread data is not overwritten");
    int64_t r = result(len);
    bufpos = kpos;
    if(r > 0) kpos += r;
    return r;
}
static ssize_t k_recvmsg(int s, struct msghdr *hdr, int flags) {
    CHECK(s == FD, "descriptor");
    CHECK(NEL == 0 || rx.len == rx.pos, "buffered data comes first");
    int64_t n = 0;
    size_t i;
    CHECK(hdr->msg_iovlen <= NEL + 1, "as many regions as requested");
    for(i = 0; i != NEL + 1; ++i) if(i < hdr->msg_iovlen) n += hdr->msg_iov[i].iov_len;
    int64_t r = result(n), left = r;
    if(r > 0) {
        for(i = 0; i != NEL + 1; ++i) if(i < hdr->msg_iovlen && left > 0) {
            int64_t c = hdr->msg_iov[i].iov_len;
            if(c > left) c = left;
            stored(hdr->msg_iov[i].iov_base, kpos, c, 1);
            kpos += c;
            left -= c;
        }
    }
    return r;
}
int dill_fdin(int s, int64_t deadline) {
    CHECK(s == FD && deadline == dl, "waits for the socket until the deadline");
    CHECK(!failed, "no waiting after a failure");
    if(nd_bool()) {failed = nd_errno(); errno = failed; return -1;}
    return 0;
}
int dill_fdout(int s, int64_t deadline) {CHECK(0, "not waiting for output"); return -1;}
int dill_fdclean(int s) {return 0;}

int main(void) {
    int k;
    dl = nd_i64();
    total = 0;
    for(k = 0; k != NEL; ++k) {
        int null = (NULLMASK >> k) & 1;
        l[k].iol_base = null ? NULL : (void*)(BASE * (k + 1));
        l[k].iol_len = null ? nd_size_() & 1023 : nd_size_();
        l[k].iol_next = k + 1 < NEL ? &l[k + 1] : NULL;
        l[k].iol_rsvd = 0;
        save[k] = l[k];
        off[k] = total;
        total += l[k].iol_len;
    }
    dill_ctx_fd_init(&dill_ctx_.fd);
    /* Any state of the receive buffer. */
    dill_fd_initrxbuf(&rx);
    CHECK(!rx.buf && rx.len == 0 && rx.pos == 0, "initially there's no data");
    if(RXBUF && nd_bool()) {
        rx.buf = pool[0];
        state[0] = 1;
        rx.len = nd_range(0, DILL_FD_BUFSIZE);
        rx.pos = nd_range(0, DILL_FD_BUFSIZE);
        ASSUME(rx.pos <= rx.len);
        kpos = rx.len - rx.pos;
        bufpos = -(int64_t)rx.pos;
    }
    errno = 0;
    int rc = dill_fd_recv(FD, RXBUF ? &rx : NULL, NEL ? &l[0] : NULL,
        NEL ? &l[NEL ? NEL - 1 : 0] : NULL, dl);
    int err = errno;
    CHECK(rc == 0 || rc == -1, "result");
    CHECK((rc == -1) == (failed != 0), "fails exactly if receiving failed");
    if(rc == 0) {
        int64_t want = 0;
        for(k = 0; k != NEL; ++k) if(!((NULLMASK >> k) & 1)) want += save[k].iol_len;
        CHECK(written == want, "all requested bytes are stored");
        CHECK(kpos - (int64_t)(rx.len - rx.pos) == total, "exactly the requested bytes are consumed");
        if(calls == CALLS) WITNESS("received");
        if(calls == 0 && total > 0) WITNESS("received from the buffer");
        if(blocked) WITNESS("waited");
    } else {
        CHECK(err == failed, "error is reported");
        if(calls == CALLS) WITNESS("failed");
    }
    for(k = 0; k != NEL; ++k)
        CHECK(l[k].iol_base == save[k].iol_base && l[k].iol_len == save[k].iol_len &&
            l[k].iol_next == save[k].iol_next && l[k].iol_rsvd == 0, "list as before the call");
    /* State of the buffer, so that the next receive may start from it. */
    CHECK(rx.pos <= rx.len && rx.len <= DILL_FD_BUFSIZE, "buffer positions");
    if(!rx.buf) CHECK(rx.len == 0 && rx.pos == 0, "no buffer, no data");
    else CHECK((rx.buf == pool[0] || rx.buf == pool[1]) && state[rx.buf == pool[0] ? 0 : 1] == 1, "owned buffer");
    /* Released exactly once. */
    dill_fd_termrxbuf(&rx);
    return 0;
}
