/* WebSocket: any sequence of frames from the peer, into any list. */
//@ prop: W02 W03
//@ engine: symx
//@ src: iol utils
//@ nosrc: bsock
//@ lib: m_handle cstr
//@ config: SERVER=0 NF=1 NEL=1 NULLMASK=0 PAYS=0,1,2,3 ALLHDR=1
//@ config: SERVER=1 NF=1 NEL=2 NULLMASK=0 PAYS=0,1,2,3 ALLHDR=1
//@ config: SERVER=0 NF=3 NEL=2 NULLMASK=0 PAYS=0,2 ALLHDR=0
//@ config: SERVER=1 NF=2 NEL=2 NULLMASK=0 PAYS=0,1,3 ALLHDR=0
//@ config: SERVER=1 NF=2 NEL=2 NULLMASK=1 PAYS=0,2 ALLHDR=0
//@ config: SERVER=1 NF=2 NEL=0 NULLMASK=0 PAYS=0,2 ALLHDR=0
//@ config: SERVER=1 NF=1 NEL=3 NULLMASK=0 PAYS=4,6 ALLHDR=0
//@ config: SERVER=0 NF=2 NEL=1 NULLMASK=0 PAYS=2,124,125,126 ALLHDR=0 OP=8
//@ config: SERVER=1 NF=1 NEL=1 NULLMASK=0 PAYS=1,2,3,125,126 ALLHDR=0 OP=8
//@ config: SERVER=0 NF=2 NEL=2 NULLMASK=0 PAYS=0,2 ALLHDR=0 HUGE=1
//@ config: SERVER=1 NF=1 NEL=0 NULLMASK=0 PAYS=0,2 ALLHDR=0 HUGE=1
//@ thorough: SERVER=1 NF=3 NEL=2 NULLMASK=0 PAYS=0,1,3 ALLHDR=0
//@ thorough: SERVER=0 NF=2 NEL=3 NULLMASK=2 PAYS=0,1,4 ALLHDR=1
//@ thorough: SERVER=1 NF=4 NEL=1 NULLMASK=0 PAYS=0,2 ALLHDR=0
//@ bound: WebSocket receive: up to 3 frames with any header bytes, payloads of up to 6 arbitrary bytes (up to 126 in a closing frame, any 64-bit length for one frame), in both roles, the stream may break at any frame border; lists of up to 3 items of 0, 1 or 3 bytes, skipped items, or none
#ifndef OP
#define OP -1
#endif
#ifndef HUGE
#define HUGE 0
#endif
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "m_handle.h"
#include "ws.c"
#include "ws_stub.h"
static uint8_t st[700];
static size_t stlen, pos;
static int64_t huge = -1;      /* offset at which the huge payload starts */
static uint64_t hugelen, hugepos;
static int reads;
int dill_brecv(int s, void *buf, size_t len, int64_t deadline) {
    CHECK(u_is(s) && deadline == 77, "reads from the socket below until the deadline");
    reads++;
    if(huge >= 0 && (int64_t)pos == huge && len && hugepos < hugelen) {
        CHECK(len <= hugelen - hugepos, "does not read past the frame");
        hugepos += len;
        if(buf) memset(buf, 0x11, len);
        return 0;
    }
    if(pos + len > stlen) {errno = ECONNABORTED; return -1;}
    if(buf) memcpy(buf, st + pos, len);
    pos += len;
    return 0;
}
int dill_brecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t deadline) {CHECK(0, "unused"); return -1;}
int dill_bsend(int s, const void *buf, size_t len, int64_t deadline) {CHECK(0, "unused"); return -1;}
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t deadline) {CHECK(0, "unused"); return -1;}

#define ES 3
static uint8_t bufs[4][ES + 1];
static struct dill_iolist l[4], save[4];
static int exp_;                 /* expected errno, 0 for a message */
static uint8_t msg[600];
static size_t msglen, cap, used;
static int type, lax, closed;
static uint8_t ctext[256];
static size_t clen;
static int cstatus;

static void compose(void) {
    static const int pays[] = {PAYS};
    int k, frag = 0, over = 0;
    size_t i;
    for(k = 0; k != NF; ++k) {
        if(nd_bool()) break;        /* connection breaks here */
        uint8_t h0 = OP >= 0 ? (uint8_t)(OP | (nd_raw() & 0xf0)) : nd_u8();
        int x = nd_range(0, (int)(sizeof(pays) / sizeof(*pays)) - 1);
        int c = 0;
        while(c != x) ++c;
        size_t n = pays[c];
        int wrong = ALLHDR ? nd_bool() : 0;
        int cls = ALLHDR ? nd_range(0, 2) : HUGE && k == NF - 1 ? 3 : 0;
        if(n > 125 && cls == 0) cls = 1;
        uint8_t mbit = (SERVER ? 0x80 : 0) ^ (wrong ? 0x80 : 0);
        st[stlen++] = h0;
        if(cls == 0) st[stlen++] = mbit | n;
        else if(cls == 1) {st[stlen++] = mbit | 126; st[stlen++] = 0; st[stlen++] = n; if(n < 126) lax = 1;}
        else if(cls == 2) {
            st[stlen++] = mbit | 127;
            for(i = 0; i != 7; ++i) st[stlen++] = 0;
            st[stlen++] = n;
            lax = 1;
        } else {
            st[stlen++] = mbit | 127;
            hugelen = nd_raw();
            ASSUME(hugelen > 0xffff);
            for(i = 0; i != 8; ++i) st[stlen++] = (uint8_t)(hugelen >> (56 - 8 * i));
        }
        uint8_t m[4] = {0, 0, 0, 0};
        if(mbit) for(i = 0; i != 4; ++i) st[stlen++] = m[i] = nd_u8();
        uint8_t pay[130];
        if(cls == 3) huge = stlen;
        else for(i = 0; i != n; ++i) {pay[i] = nd_u8(); st[stlen++] = pay[i] ^ m[i % 4];}
        if(exp_ >= 0) continue;
        /* What is expected of this frame. */
        int op = h0 & 0x0f, fin = h0 & 0x80;
        if(h0 & 0x70) {exp_ = EPROTO; continue;}
        if(wrong) {exp_ = EPROTO; continue;}
        if(op == 8) {
            if(!fin || n > 125 || n == 1 || cls == 3) {exp_ = EPROTO; continue;}
            if(n >= 2) {
                cstatus = pay[0] * 256 + pay[1];
                if(cstatus < 1000 || cstatus > 4999) {exp_ = EPROTO; continue;}
                clen = n - 2;
                for(i = 0; i != clen; ++i) ctext[i] = pay[i + 2];
            }
            exp_ = EPIPE;
            closed = 1;
            continue;
        }
        if(op > 2 || (op == 0) != frag) {exp_ = EPROTO; continue;}
        if(op) type = op;
        frag = 1;
        if(cls == 3) {
            if(cap != SIZE_MAX) {exp_ = EMSGSIZE; if(hugelen >> 62) exp_ = EOVERFLOW;}
            else if(hugelen + msglen > INT64_MAX || hugelen > INT64_MAX) exp_ = EPROTO;
            else if(fin) {exp_ = 0; used = stlen; msglen += hugelen;}
            else exp_ = ECONNABORTED;
            continue;
        }
        for(i = 0; i != n; ++i) msg[msglen + i] = pay[i];
        msglen += n;
        if(msglen > cap) {exp_ = EMSGSIZE; continue;}
        if(fin) {exp_ = 0; used = stlen;}
    }
    if(exp_ < 0) exp_ = ECONNABORTED;
}
static ssize_t recv_(int api, int *flags) {
    struct dill_iolist *f = NEL ? &l[0] : NULL, *e = NEL ? &l[NEL - 1] : NULL;
    if(api) return mv->mrecvl(mv, f, e, 77);
    return dill_ws_recvl(h, flags, f, e, 77);
}
int main(void) {
    int k, api = nd_bool(), want = api && nd_bool();
    size_t i;
    ws_make(SERVER, want ? DILL_WS_TEXT : DILL_WS_BINARY);
    exp_ = -1;
    for(k = 0; k != NEL; ++k) {
        size_t n = nd_range(0, 2);
        for(i = 0; i != n; ++i);
        if(i == 2) i = ES;
        l[k].iol_base = NULLMASK >> k & 1 ? NULL : bufs[k];
        l[k].iol_len = i;
        l[k].iol_next = k + 1 < NEL ? &l[k + 1] : NULL;
        l[k].iol_rsvd = 0;
        cap += i;
        memset(bufs[k], 0xc3, sizeof(bufs[k]));
        save[k] = l[k];
    }
    if(!NEL) cap = SIZE_MAX;
    compose();
    int status = 5;
    uint8_t text[256];
    CHECK(dill_ws_status(h, &status, text, sizeof(text)) == -1 && errno == EAGAIN, "no status yet");
    errno = 0;
    int flags = -1;
    ssize_t rc = recv_(api, &flags);
    int err = errno;
    for(k = 0; k != NEL; ++k)
        CHECK(l[k].iol_base == save[k].iol_base && l[k].iol_len == save[k].iol_len &&
            l[k].iol_next == save[k].iol_next && l[k].iol_rsvd == 0, "list is left as it was");
    for(k = 0; k != NEL; ++k) for(i = l[k].iol_len; i != ES + 1; ++i) CHECK(bufs[k][i] == 0xc3, "nothing written behind a buffer");
    CHECK(mh_open == 2, "no leaks");
    int mismatch = api && exp_ == 0 && (type == 1) != want;
    if(lax && rc == -1 && err == EPROTO) return 0;
    if(mismatch) {
        CHECK(rc == -1 && err == EPROTO, "type of the message is checked");
        WITNESS("type mismatch");
        return 0;
    }
    if(exp_ == 0) {
        CHECK(rc == (ssize_t)msglen, "size of the message");
        if(!api) CHECK(flags == (type == 1 ? DILL_WS_TEXT : DILL_WS_BINARY), "type of the message");
        CHECK(pos == used, "exactly the message is consumed");
        if(!HUGE) {
            size_t p = 0;
            for(k = 0; k != NEL; ++k) for(i = 0; i != l[k].iol_len && p != msglen; ++i, ++p)
                if(!(NULLMASK >> k & 1)) CHECK(bufs[k][i] == msg[p], "payload in place");
        }
        CHECK(dill_ws_status(h, &status, text, sizeof(text)) == -1 && errno == EAGAIN, "no status yet");
        WITNESS("message");
        return 0;
    }
    CHECK(rc == -1, "fails");
    if(exp_ == EOVERFLOW) CHECK(err == EPROTO || err == EMSGSIZE, "error code");
    else CHECK(err == exp_, "error code");
    if(closed) {
        CHECK(dill_ws_status(h, &status, text, clen) == (ssize_t)clen && status == cstatus, "status of the peer");
        for(i = 0; i != clen; ++i) CHECK(text[i] == ctext[i], "text of the peer");
        if(clen) CHECK(dill_ws_status(h, &status, text, clen - 1) == -1 && errno == EMSGSIZE, "text does not fit");
        CHECK(dill_ws_status(h, NULL, NULL, 0) == (ssize_t)clen, "size of the text");
        if(clen) WITNESS("closed with a text");
        else WITNESS("closed");
    } else {
        CHECK(dill_ws_status(h, &status, text, sizeof(text)) == -1 && errno == EAGAIN, "no status");
        WITNESS("failed");
    }
    reads = 0;
    errno = 0;
    rc = recv_(!api, &flags);
    CHECK(rc == -1 && reads == 0 && errno == (closed ? EPIPE : ECONNRESET), "no more messages");
    return 0;
}
