/* UDP: sending and receiving packets of any size to and from any peer. */
//@ prop: U01
//@ engine: symx
//@ src: iol msock
//@ lib: m_handle
//@ config: NEL=1 RECV=0
//@ config: NEL=2 RECV=0
//@ config: NEL=3 RECV=0
//@ config: NEL=1 RECV=1
//@ config: NEL=2 RECV=1
//@ config: NEL=3 RECV=1
//@ bound: udp_io: lists of 1 to 3 items of any size up to 65535 (well-formed, or malformed in one way), any peers out of 4, up to 3 system calls per receive
#include "knet.h"
static ssize_t k_sendmsg(int s, const struct msghdr *hdr, int flags);
static ssize_t k_recvmsg(int s, struct msghdr *hdr, int flags);
#define sendmsg k_sendmsg
#define recvmsg k_recvmsg
#include "fd.c"
#include "udp.c"
#undef sendmsg
#undef recvmsg
struct dill_ctx dill_ctx_ = {1};
struct dill_ctx *dill_ctx_init(void) {return &dill_ctx_;}

#define BASE ((uintptr_t)1 << 44)
static struct dill_iolist l[NEL + 1], save[NEL + 1];
static int64_t total;
#define waits kwaits
static int calls, kerr, delivered;
static int64_t pktlen;
static struct dill_ipaddr peers[4], remote, from, *dst;
static int pk;

static void makepeer(struct dill_ipaddr *a, int i) {
    memset(a, 0, sizeof(*a));
    struct sockaddr_in *in = (struct sockaddr_in*)a;
    in->sin_family = AF_INET;
    in->sin_addr.s_addr = i & 1 ? 0x0100007f : 0x0200007f;
    in->sin_port = i & 2 ? 0x1234 : 0x4321;
}
static void iovs(const struct msghdr *hdr) {
    int k;
    CHECK(hdr->msg_iovlen == NEL, "all parts of the packet");
    for(k = 0; k != NEL; ++k)
        CHECK(hdr->msg_iov[k].iov_base == save[k].iol_base && hdr->msg_iov[k].iov_len == save[k].iol_len, "in order");
}
static ssize_t k_sendmsg(int s, const struct msghdr *hdr, int flags) {
    k_valid(s);
    calls++;
    iovs(hdr);
    CHECK(!hdr->msg_control, "plain packet");
    CHECK(hdr->msg_namelen == sizeof(struct sockaddr_in), "address length");
    CHECK(dill_ipaddr_equal(hdr->msg_name, dst ? dst : &remote, 0), "to the given peer or the default one");
    kerr = 0;
    if(nd_bool()) {kerr = nd_range(1, 133); errno = kerr; return -1;}
    return total;
}
static ssize_t k_recvmsg(int s, struct msghdr *hdr, int flags) {
    k_valid(s);
    CHECK(!delivered, "one packet is taken at a time");
    ASSUME(calls < 3);
    calls++;
    CHECK(waits == calls - 1 || pk, "no busy loop");
    iovs(hdr);
    CHECK(hdr->msg_namelen >= sizeof(struct sockaddr_in) && hdr->msg_name, "room for the address");
    kerr = 0;
    int x = nd_range(0, 2);
    if(x == 0) {kerr = nd_range(1, 133); errno = kerr; return -1;}
    if(x == 1) {kerr = EAGAIN; errno = EAGAIN; return -1;}
    pktlen = nd_raw() & 0xfffff;
    int i = nd_range(0, 3);
    pk = 1;
    makepeer(&from, i);
    memcpy(hdr->msg_name, &from, sizeof(struct sockaddr_in));
    hdr->msg_namelen = sizeof(struct sockaddr_in);
    hdr->msg_flags = pktlen > total ? MSG_TRUNC : 0;
    delivered = 1;
    if(dill_ipaddr_port(&remote) && !dill_ipaddr_equal(&from, &remote, 0)) delivered = 0; /* foreign */
    if(flags & MSG_TRUNC) return pktlen;
    return pktlen > total ? total : pktlen;
}

int main(void) {
    int k;
    kdeadline = nd_i64();
    knofail = 1;
    for(k = 0; k != NEL; ++k) {
        l[k].iol_base = (void*)(BASE * (k + 1));
        l[k].iol_len = nd_raw() & 0xffff;
        l[k].iol_next = k + 1 < NEL ? &l[k + 1] : NULL;
        l[k].iol_rsvd = 0;
        total += l[k].iol_len;
    }
    struct dill_ipaddr la;
    makepeer(&la, 2);
    dill_ctx_fd_init(&dill_ctx_.fd);
    int hasremote = nd_bool();
    if(hasremote) makepeer(&remote, nd_range(0, 3));
    int h = dill_udp_open(&la, hasremote ? &remote : NULL);
    CHECK(h >= 0, "opened");
    knofail = 0;
    int bad = nd_range(0, 4), hh = h;
    struct dill_iolist *first = &l[0], *last = &l[NEL - 1];
    if(bad == 1) l[NEL - 1].iol_rsvd = 1;
    if(bad == 2) l[NEL - 1].iol_next = &l[NEL];
    if(bad == 3) first = NULL;
    if(bad == 4) last = &l[NEL];
    for(k = 0; k != NEL; ++k) save[k] = l[k];
    int rc, err;
    errno = 0;
#if RECV
    struct dill_ipaddr peer;
    int how = nd_range(0, 3);
    if(NEL > 1 || bad) ASSUME(how >= 2);
    rc = how == 0 ? dill_udp_recv(h, nd_bool() ? &peer : NULL, l[0].iol_base, l[0].iol_len, kdeadline) :
        how == 1 ? dill_mrecv(h, l[0].iol_base, l[0].iol_len, kdeadline) :
        how == 2 ? dill_udp_recvl(h, &peer, first, last, kdeadline) : dill_mrecvl(h, first, last, kdeadline);
    err = errno;
    if(bad) CHECK(rc == -1 && err == EINVAL && !calls, "malformed list");
    else if(rc >= 0) {
        CHECK(delivered && pktlen <= total && rc == pktlen, "one whole packet");
        if(how == 2) CHECK(dill_ipaddr_equal(&peer, &from, 0), "its sender");
        if(hasremote) CHECK(dill_ipaddr_equal(&from, &remote, 0), "only packets from the peer");
        WITNESS("received");
    }
    else if(delivered) {CHECK(pktlen > total && rc == -1 && err == EMSGSIZE, "packet that does not fit"); WITNESS("too big");}
    else {
        CHECK(rc == -1, "result");
        if(kfail) CHECK(err == kfail, "waiting failed");
        else CHECK(kerr && kerr != EAGAIN && kerr != EWOULDBLOCK && err == kerr, "receiving failed");
        WITNESS("failed");
    }
#else
    dst = nd_bool() ? &peers[0] : NULL;
    makepeer(&peers[0], nd_range(0, 3));
    int how = nd_range(0, 3);
    if(NEL > 1 || bad) ASSUME(how >= 2);
    if(how & 1) dst = NULL;
    rc = how == 0 ? dill_udp_send(h, dst, l[0].iol_base, l[0].iol_len) :
        how == 1 ? dill_msend(h, l[0].iol_base, l[0].iol_len, kdeadline) :
        how == 2 ? dill_udp_sendl(h, dst, first, last) : dill_msendl(h, first, last, kdeadline);
    err = errno;
    CHECK(waits == 0, "sending does not wait");
    if(bad || (!dst && !hasremote)) {CHECK(rc == -1 && err == EINVAL && !calls, "malformed list or no destination"); WITNESS("refused");}
    else {
        CHECK(calls == 1, "one packet");
        if(kerr && kerr != EAGAIN && kerr != EWOULDBLOCK) CHECK(rc == -1 && err == kerr, "failure is reported");
        else {CHECK(rc == 0, "sent"); WITNESS("sent");}
    }
#endif
    for(k = 0; k != NEL; ++k)
        CHECK(l[k].iol_base == save[k].iol_base && l[k].iol_len == save[k].iol_len &&
            l[k].iol_next == save[k].iol_next && l[k].iol_rsvd == save[k].iol_rsvd, "list as before the call");
    dill_hclose(h);
    CHECK(k_opens() == 0 && vt_live == 0 && mh_open == 0, "all released");
    return 0;
}
