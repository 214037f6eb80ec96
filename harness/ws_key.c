/* WebSocket handshake keys. */
//@ prop: W04
//@ src: iol
//@ nosrc: utils bsock
//@ lib: m_handle
//@ cdef: __NO_CTYPE
//@ unwind: 70
//@ config: OP=0 N=16
//@ config: OP=1 N=24
//@ config: OP=1 N=30
//@ bound: handshake keys: every nonce; every request key of up to 30 characters; the digest function is any function of the bytes it is given
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "m_handle.h"
#define dill_random real_random
#define dill_sha1_init real_init
#define dill_sha1_hashbyte real_hashbyte
#define dill_sha1_result real_result
#include "utils.c"
#undef dill_random
#undef dill_sha1_init
#undef dill_sha1_hashbyte
#undef dill_sha1_result
int dill_random(uint8_t *buf, size_t len);
void dill_sha1_init(struct dill_sha1 *self);
void dill_sha1_hashbyte(struct dill_sha1 *self, uint8_t data);
uint8_t *dill_sha1_result(struct dill_sha1 *self);
#include "ws.c"
#include "ws_stub.h"
int dill_brecv(int s, void *buf, size_t len, int64_t deadline) {return -1;}
int dill_bsend(int s, const void *buf, size_t len, int64_t deadline) {return -1;}
int dill_bsendl(int s, struct dill_iolist *f, struct dill_iolist *l, int64_t deadline) {return -1;}
static uint8_t rnd[16], digest[20], hashed[80];
static int rnds, rndfail, inits, results;
static size_t nhashed;
int dill_random(uint8_t *buf, size_t len) {
    size_t i;
    CHECK(len == 16, "16 random bytes");
    rnds++;
    if(rndfail) {errno = EIO; return -1;}
    for(i = 0; i != 16; ++i) buf[i] = rnd[i];
    return 0;
}
void dill_sha1_init(struct dill_sha1 *self) {inits++; nhashed = 0;}
void dill_sha1_hashbyte(struct dill_sha1 *self, uint8_t data) {
    CHECK(nhashed < sizeof(hashed), "size of the hashed text");
    hashed[nhashed++] = data;
}
uint8_t *dill_sha1_result(struct dill_sha1 *self) {results++; return digest;}
int main(void) {
    char key[N + 1], out[WS_KEY_SIZE + 1], exp[40];
    uint8_t nonce[17];
    size_t i;
    out[WS_KEY_SIZE] = 0x7e;
    errno = 0;
    if(OP == 0) {
        rndfail = nd_bool();
        for(i = 0; i != 16; ++i) rnd[i] = nd_u8();
        CHECK(dill_ws_request_key(NULL) == -1 && errno == EINVAL, "no buffer");
        int rc = dill_ws_request_key(out);
        if(rndfail) {CHECK(rc == -1 && errno == EIO, "no randomness"); return 0;}
        CHECK(rc == 0 && rnds == 1, "key");
        CHECK(dill_base64_encode(rnd, 16, exp, sizeof(exp)) == 24, "size");
        for(i = 0; i != 25; ++i) CHECK(out[i] == exp[i], "text of 16 random bytes");
        CHECK(out[WS_KEY_SIZE] == 0x7e, "bounds");
        WITNESS("request key");
        return 0;
    }
    size_t n = N == 24 ? 24 : nd_range(0, N);
    for(i = 0; i != N; ++i) {
        key[i] = (char)nd_u8();
        if(i < n) ASSUME(key[i] != 0); else key[i] = 0;
    }
    key[N] = 0;
    for(i = 0; i != 20; ++i) digest[i] = nd_u8();
    int d = dill_base64_decode(key, n, nonce, 16);
    int rc = dill_ws_response_key(key, out);
    CHECK(out[WS_KEY_SIZE] == 0x7e, "bounds");
    if(d != 16) {
        CHECK(rc == -1 && errno == EPROTO, "malformed key is refused");
        WITNESS("malformed");
        return 0;
    }
    CHECK(rc == 0 && inits == 1 && results == 1, "one digest");
    static const char guid[] = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
    CHECK(nhashed == n + 36, "key and GUID are hashed");
    for(i = 0; i != N; ++i) if(i < n) CHECK(hashed[i] == (uint8_t)key[i], "key is hashed");
    for(i = 0; i != 36; ++i) CHECK(hashed[n + i] == (uint8_t)guid[i], "GUID is hashed");
    CHECK(dill_base64_encode(digest, 20, exp, sizeof(exp)) == 28, "size");
    for(i = 0; i != 29; ++i) CHECK(out[i] == exp[i], "text of the digest");
    CHECK(dill_ws_response_key(NULL, out) == -1 && errno == EINVAL, "no key");
    CHECK(dill_ws_response_key(key, NULL) == -1 && errno == EINVAL, "no buffer");
    WITNESS("response key");
    return 0;
}
