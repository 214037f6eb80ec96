/* WebSocket: what is sent is one exact frame; closing sends one closing frame. */
//@ prop: W02 W03
//@ engine: symx
//@ src: iol
//@ nosrc: bsock utils
//@ lib: m_handle cstr
//@ config: SERVER=0 NEL=1 MODE=0
//@ config: SERVER=0 NEL=3 MODE=0
//@ config: SERVER=1 NEL=2 MODE=0
//@ config: SERVER=0 NEL=2 MODE=1
//@ config: SERVER=1 NEL=1 MODE=1
//@ config: SERVER=1 NEL=3 MODE=1
//@ config: SERVER=0 NEL=1 MODE=2 LENS=0,1,5,122
//@ config: SERVER=0 NEL=1 MODE=2 LENS=123,124,126
//@ config: SERVER=1 NEL=1 MODE=2 LENS=0,1,5,122,123,124,126
//@ bound: WebSocket send: lists of up to 3 items, contents compared for up to 3 bytes each, headers for every total size; failure at any call of the socket below; closing with every status and texts around the limits
#ifndef LENS
#define LENS 0
#endif
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "m_handle.h"
#define dill_random real_random
#include "utils.c"
#undef dill_random
int dill_random(uint8_t *buf, size_t len);
#include "ws.c"
#include "ws_stub.h"
static uint8_t rnd[4];
static int rnds, rndfail;
int dill_random(uint8_t *buf, size_t len) {
    size_t i;
    CHECK(len == 4, "mask");
    rnds++;
    if(nd_bool()) {rndfail = 1; errno = EIO; return -1;}
    for(i = 0; i != len; ++i) buf[i] = rnd[i] = nd_u8();
    return 0;
}
#define DL 77
#define HUGEBASE ((uintptr_t)1 << 44)
static uint8_t out[300];
static size_t outn;
static int big, failat, ncalls, failed;
static size_t hs = 300;                      /* bytes to record, the rest has to match the list */
static struct dill_iolist l[4], save[4];
static int seg;
static uint64_t segpos;
static int segbad;
static void seg_add(const void *base, size_t len) {
    size_t i = 0;
    while(outn < hs && i < len) {
        CHECK(outn < sizeof(out), "size of the frame");
        out[outn++] = ((const uint8_t*)base)[i++];
    }
    if(i == len) return;
    if(i != 0 || seg == NEL || base != l[seg].iol_base || len != l[seg].iol_len) segbad = 1;
    seg++;
    while(seg < NEL && l[seg].iol_len == 0) seg++;
}
static int fail(int s, int64_t deadline) {
    CHECK(u_is(s) && deadline == DL, "sends to the socket below until the deadline");
    CHECK(!failed, "nothing is sent after a failure");
    if(++ncalls == failat) {failed = nd_errno(); errno = failed; return -1;}
    return 0;
}
int dill_bsend(int s, const void *buf, size_t len, int64_t deadline) {
    if(big && !SERVER && outn == hs) failat = ncalls + 1;
    if(fail(s, deadline)) return -1;
    seg_add(buf, len);
    return 0;
}
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *e, int64_t deadline) {
    if(fail(s, deadline)) return -1;
    CHECK(e && !e->iol_next, "well-formed list");
    for(; f; f = f->iol_next) {
        CHECK(f->iol_rsvd == 0 && (f->iol_next || f == e), "well-formed list");
        if(f->iol_len) seg_add(f->iol_base, f->iol_len);
    }
    return 0;
}
int dill_brecv(int s, void *buf, size_t len, int64_t deadline) {CHECK(0, "unused"); return -1;}
int dill_brecvl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t deadline) {CHECK(0, "unused"); return -1;}

static void header(uint64_t len, int op) {
    size_t i, n = len < 126 ? 2 : len < 65536 ? 4 : 10;
    CHECK(outn >= n + (SERVER ? 0 : 4), "header is complete");
    CHECK(out[0] == (0x80 | op), "a single final frame of the right type");
    CHECK((out[1] & 0x80) == (SERVER ? 0 : 0x80), "masked by clients only");
    if(n == 2) CHECK((out[1] & 0x7f) == len, "short size");
    else if(n == 4) CHECK((out[1] & 0x7f) == 126 && out[2] == len >> 8 && out[3] == (len & 0xff), "16-bit size");
    else {
        CHECK((out[1] & 0x7f) == 127, "64-bit size");
        for(i = 0; i != 8; ++i) CHECK(out[2 + i] == ((len >> (56 - 8 * i)) & 0xff), "64-bit size");
    }
    if(!SERVER) for(i = 0; i != 4; ++i) CHECK(out[n + i] == rnd[i], "fresh random mask");
}
int main(void) {
    static uint8_t bufs[4][4], chunk[8192];
    int k, text = nd_bool();
    size_t i;
    ws_make(SERVER, text ? DILL_WS_TEXT : DILL_WS_BINARY);
    failat = nd_range(0, 6);
    if(MODE < 2) {
        uint64_t len = 0;
        int api = nd_bool(), type = api ? text : nd_bool();
        for(k = 0; k != NEL; ++k) {
            if(MODE == 1) {
                /* Clients read the payload: its beginning is there. */
                l[k].iol_base = SERVER ? (void*)(HUGEBASE * (k + 1)) : chunk;
                l[k].iol_len = nd_raw() & (((uint64_t)1 << 41) - 1);
            } else {
                size_t n = nd_range(0, 3);
                for(i = 0; i != n; ++i) bufs[k][i] = nd_u8();
                l[k].iol_base = bufs[k];
                l[k].iol_len = i;
            }
            l[k].iol_next = k + 1 < NEL ? &l[k + 1] : NULL;
            l[k].iol_rsvd = 0;
            save[k] = l[k];
            len += l[k].iol_len;
        }
        int bad = nd_bool();
        if(bad) l[NEL - 1].iol_rsvd = 1;
        big = MODE == 1;
        if(big) {
            hs = (len < 126 ? 2 : len < 65536 ? 4 : 10) + (SERVER ? 0 : 4);
            while(seg < NEL && l[seg].iol_len == 0) seg++;
        }
        errno = 0;
        int rc = api ? mv->msendl(mv, &l[0], &l[NEL - 1], DL) :
            dill_ws_sendl(h, type ? DILL_WS_TEXT : DILL_WS_BINARY, &l[0], &l[NEL - 1], DL);
        int err = errno;
        if(bad) {
            CHECK(rc == -1 && err == EINVAL && !ncalls, "malformed list");
            WITNESS("malformed");
            return 0;
        }
        for(k = 0; k != NEL; ++k)
            CHECK(l[k].iol_base == save[k].iol_base && l[k].iol_len == save[k].iol_len &&
                l[k].iol_next == save[k].iol_next && l[k].iol_rsvd == 0, "list is left as it was");
        if(rndfail) {CHECK(rc == -1 && !ncalls, "no randomness, no message"); return 0;}
        if(big && outn == hs && (!failed || !SERVER)) {header(len, type ? 1 : 2); WITNESS("header");}
        if(failed) {CHECK(rc == -1 && err == failed, "failure is reported"); WITNESS("failed"); return 0;}
        CHECK(rc == 0, "sent");
        CHECK(rnds == !SERVER, "one mask per message");
        if(big) {
            CHECK(!segbad && seg == NEL, "payload is sent as it is");
            return 0;
        }
        size_t p = SERVER ? 2 : 6, q = 0;
        header(len, type ? 1 : 2);
        CHECK(outn == p + len, "size of the frame");
        for(k = 0; k != NEL; ++k) for(i = 0; i != l[k].iol_len; ++i, ++q)
            CHECK((out[p + q] ^ (SERVER ? 0 : out[2 + q % 4])) == bufs[k][i], "payload");
        WITNESS("sent");
        return 0;
    }
    /* Closing. */
    static const int lens[] = {LENS};
    static uint8_t txt[130];
    int x = nd_range(0, (int)(sizeof(lens) / sizeof(*lens)) - 1), c = 0;
    while(c != x) ++c;
    size_t len = lens[c];
    int status = (int)nd_raw(), null = nd_bool();
    for(i = 0; i != len; ++i) txt[i] = nd_u8();
    errno = 0;
    int rc = dill_ws_done(h, status, null ? NULL : txt, len, DL);
    int err = errno;
    size_t sl = status ? 2 : 0;
    if((status && (status < 1000 || status > 4999)) || (null && len) || sl + len > 125 || (!status && len)) {
        CHECK(rc == -1 && err == EINVAL && !ncalls, "can't be sent");
        CHECK(!rnds, "nothing is done");
        WITNESS("refused");
        failat = 0;
        CHECK(dill_ws_send(h, DILL_WS_TEXT, txt, 0, DL) == 0 || rndfail, "still open");
        return 0;
    }
    if(rndfail) {CHECK(rc == -1 && !ncalls, "no randomness, no message"); return 0;}
    if(failed) {CHECK(rc == -1 && err == failed, "failure is reported"); return 0;}
    CHECK(rc == 0, "finished");
    header(sl + len, 8);
    size_t p = SERVER ? 2 : 6;
    CHECK(outn == p + sl + len, "size of the frame");
    uint8_t m[4] = {0, 0, 0, 0};
    if(!SERVER) for(i = 0; i != 4; ++i) m[i] = out[2 + i];
    if(sl) CHECK((out[p] ^ m[0]) == status >> 8 && (out[p + 1] ^ m[1]) == (status & 0xff), "status");
    for(i = 0; i != len; ++i) CHECK((out[p + sl + i] ^ m[(sl + i) % 4]) == txt[i], "text");
    ncalls = failat = 0;
    errno = 0;
    CHECK(dill_ws_done(h, 1000, NULL, 0, DL) == -1 && errno == EPIPE && !ncalls, "finishing twice");
    errno = 0;
    CHECK(dill_ws_send(h, DILL_WS_TEXT, txt, 1, DL) == -1 && errno == EPIPE && !ncalls, "sending after the end");
    CHECK(dill_hclose(h) == 0 && u_closed == 1 && mh_open == 0, "everything is closed");
    WITNESS("done");
    return 0;
}
