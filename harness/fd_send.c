/* Bytestream send on a descriptor: any segmentation, any sizes, any number of
   bytes accepted by each system call. Data is not copied; the kernel records
   which bytes it was given. */
//@ prop: I02 F01
//@ engine: symx
//@ src: iol
//@ lib: m_handle
//@ config: NEL=1 CALLS=3
//@ config: NEL=2 CALLS=3
//@ config: NEL=3 CALLS=2
//@ thorough: NEL=3 CALLS=3
//@ thorough: NEL=4 CALLS=2
//@ bound: fd_send: lists of 1 to 3 items of any size up to 65535, up to 3 system calls accepting any number of bytes or failing, any result of waiting
#include "repo.h"
#include <sys/socket.h>
#include <netinet/in.h>
#define DILL_DISABLE_RAW_NAMES
#include "libdill.h"
static ssize_t k_sendmsg(int s, const struct msghdr *hdr, int flags);
#define sendmsg k_sendmsg
#include "fd.c"
#undef sendmsg

struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}

#define FD 7
#define BASE ((uintptr_t)1 << 44)
static struct dill_iolist l[NEL], save[NEL];
static int64_t off[NEL], total, sent, dl;
static int calls, failed, waits, blocked;

static ssize_t k_sendmsg(int s, const struct msghdr *hdr, int flags) {
    int k;
    size_t i;
    CHECK(s == FD, "descriptor");
    CHECK(flags & MSG_NOSIGNAL, "a closed connection does not kill the process");
    CHECK(!failed, "no sending after a failure");
    CHECK(sent < total, "nothing to send any more");
    CHECK(hdr->msg_iovlen >= 1 && hdr->msg_iovlen <= NEL, "as many regions as requested");
    CHECK(!hdr->msg_name && !hdr->msg_control, "plain data");
    ASSUME(calls < CALLS);
    CHECK(calls == 0 || waits == calls, "no busy loop");
    calls++;
    /* The rest of the data, in order, nothing else. */
    int64_t pos = sent;
    for(i = 0; i != hdr->msg_iovlen; ++i) {
        int64_t n = hdr->msg_iov[i].iov_len;
        if(n == 0) continue;
        for(k = 0; k != NEL; ++k)
            if(pos >= off[k] && pos < off[k] + (int64_t)save[k].iol_len) {
                CHECK(n <= off[k] + (int64_t)save[k].iol_len - pos, "stays within the region");
                CHECK((uintptr_t)hdr->msg_iov[i].iov_base == BASE * (k + 1) + (uintptr_t)(pos - off[k]), "next byte to send");
                break;
            }
        CHECK(k != NEL, "no more than requested");
        pos += n;
    }
    CHECK(pos == total, "all of the rest");
    int64_t r = (int64_t)(nd_raw() & 0x7ffff) - 1;
    ASSUME(r != 0 && r <= pos - sent);
    if(r == -1) {
        int e = nd_range(1, 200);
        if(e == EAGAIN || e == EWOULDBLOCK) blocked = 1;
        else failed = e == EPIPE ? ECONNRESET : e;
        errno = e;
        return -1;
    }
    sent += r;
    return r;
}
int dill_fdout(int s, int64_t deadline) {
    CHECK(s == FD && deadline == dl, "waits for the socket until the deadline");
    CHECK(!failed && waits < calls, "no waiting after a failure or without trying first");
    waits++;
    if(nd_bool()) {failed = nd_errno(); errno = failed; return -1;}
    return 0;
}
int dill_fdin(int s, int64_t deadline) {CHECK(0, "not waiting for input"); return -1;}
int dill_fdclean(int s) {return 0;}

int main(void) {
    int k;
    dl = nd_i64();
    for(k = 0; k != NEL; ++k) {
        l[k].iol_base = (void*)(BASE * (k + 1));
        l[k].iol_len = nd_raw() & 0xffff;
        l[k].iol_next = k + 1 < NEL ? &l[k + 1] : NULL;
        l[k].iol_rsvd = 0;
        save[k] = l[k];
        off[k] = total;
        total += l[k].iol_len;
    }
    errno = 0;
    int rc = dill_fd_send(FD, &l[0], &l[NEL - 1], dl);
    int err = errno;
    CHECK(rc == 0 || rc == -1, "result");
    if(rc == 0) {
        CHECK(!failed, "failure is not ignored");
        CHECK(sent == total, "everything was sent");
        if(calls == CALLS) WITNESS("sent");
        if(blocked) WITNESS("blocked");
    } else {
        CHECK(failed && err == failed, "error is reported");
        if(calls == CALLS) WITNESS("failed");
    }
    for(k = 0; k != NEL; ++k)
        CHECK(l[k].iol_base == save[k].iol_base && l[k].iol_len == save[k].iol_len &&
            l[k].iol_next == save[k].iol_next && l[k].iol_rsvd == 0, "list as before the call");
    return 0;
}
