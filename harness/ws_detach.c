/* WebSocket: detaching completes the closing handshake or closes everything. */
//@ prop: W03 O01
//@ engine: symx
//@ src: iol
//@ nosrc: bsock utils
//@ lib: m_handle cstr
//@ config: SERVER=0
//@ config: SERVER=1
//@ bound: WebSocket detach: up to 2 messages and a closing frame or garbage from the peer, closed before or not in both directions, failure at any call of the socket below, storage on the heap or supplied
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "m_handle.h"
#define dill_random real_random
#include "utils.c"
#undef dill_random
int dill_random(uint8_t *buf, size_t len);
#include "ws.c"
#include "ws_stub.h"
int dill_random(uint8_t *buf, size_t len) {memset(buf, 0x5a, len); return 0;}
static uint8_t st[100];
static size_t stlen, pos, sent;
static int failed, rfail, sfail, calls;
int dill_brecv(int s, void *buf, size_t len, int64_t deadline) {
    CHECK(u_is(s) && deadline == 77, "reads until the deadline");
    if(failed || pos + len > stlen) {failed = rfail; errno = failed; return -1;}
    if(buf) memcpy(buf, st + pos, len);
    pos += len;
    return 0;
}
int dill_brecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t deadline) {CHECK(0, "unused"); return -1;}
int dill_bsend(int s, const void *buf, size_t len, int64_t deadline) {
    CHECK(u_is(s) && deadline == 77, "sends until the deadline");
    if(++calls == sfail) {failed = nd_errno(); errno = failed; return -1;}
    sent += len;
    return 0;
}
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t deadline) {
    CHECK(u_is(s) && deadline == 77, "sends until the deadline");
    if(++calls == sfail) {failed = nd_errno(); errno = failed; return -1;}
    for(; f; f = f->iol_next) sent += f->iol_len;
    return 0;
}
static void frame(int h0, int n, int sym) {
    int i;
    st[stlen++] = h0;
    st[stlen++] = (SERVER ? 0x80 : 0) | n;
    uint8_t m[4] = {0, 0, 0, 0};
    if(SERVER) for(i = 0; i != 4; ++i) st[stlen++] = m[i] = 0x11 * (i + 1);
    for(i = 0; i != n; ++i) st[stlen++] = (i == 0 ? 4 : i == 1 ? 1 : nd_u8()) ^ m[i % 4];
}
int main(void) {
    int heap = nd_bool(), i;
    if(heap) {
        int u = dill_hmake(&u_vfs);
        h = SERVER ? dill_ws_attach_server(u, DILL_WS_NOHTTP, NULL, 0, NULL, 0, -1) :
            dill_ws_attach_client(u, DILL_WS_NOHTTP, NULL, NULL, -1);
        CHECK(h >= 0, "attached");
    } else ws_make(SERVER, DILL_WS_BINARY);
    CHECK(vt_live == heap, "memory");
    rfail = nd_errno();
    int garbage = 0, closing = 0;
    int msgs = nd_range(0, 2);
    for(i = 0; i < msgs; ++i) frame(0x80 | 1 | nd_bool(), i == 0 ? 5 : 0, 1);
    switch(nd_range(0, 2)) {
    case 0: frame(0x88, nd_bool() ? 0 : 4, 0); closing = 1; break;
    case 1: frame(0xc2, 0, 0); garbage = 1; break;
    }
    size_t all = stlen;
    if(nd_bool()) frame(0x82, 3, 0);           /* not ours any more */
    int pre = nd_bool(), preclosed = 0;
    if(pre) {
        CHECK(dill_ws_done(h, 1000, NULL, 0, 77) == 0, "half-closed");
        CHECK(sent == (SERVER ? 4 : 8), "closing frame");
        sent = calls = 0;
    }
    if(closing && msgs == 0 && nd_bool()) {
        CHECK(dill_mrecv(h, NULL, 0, 77) == -1 && errno == EPIPE, "peer has closed");
        preclosed = 1;
    }
    sfail = pre ? 0 : nd_range(0, 3);
    errno = 0;
    int bad = !pre && nd_bool();
    int rc = dill_ws_detach(h, bad ? 5 : 1000, NULL, 0, 77);
    int err = errno;
    CHECK(mh_isopen(h) == 0 && vt_live == 0, "socket is gone");
    if(bad || failed || garbage || (!closing && !failed)) {
        CHECK(rc == -1 && u_closed == 1 && mh_open == 0, "closed on failure");
        if(bad) CHECK(err == EINVAL, "invalid status");
        else if(failed) CHECK(err == failed, "reason of the failure");
        else CHECK(err == EPROTO, "reason of the failure");
        WITNESS("failed");
    } else {
        CHECK(rc >= 0 && u_is(rc) && u_closed == 0 && mh_open == 1, "underlying socket is returned");
        CHECK(pos == all, "exactly the closing frame was read");
        CHECK(sent == (pre ? 0 : SERVER ? 4 : 8), "closing frame sent once");
        if(preclosed) WITNESS("detached after the peer");
        else WITNESS("detached");
    }
    return 0;
}
