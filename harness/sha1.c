/* SHA-1 against an independent implementation of FIPS 180-4. */
//@ prop: W04
//@ src: utils
//@ nosrc: bsock msock iol
//@ unwind: 130
//@ config: LEN=0 SYM=0
//@ config: LEN=60 SYM=59
//@ config: LEN=64 SYM=0
//@ config: LEN=55 SYM=54
//@ config: LEN=56 SYM=3
//@ config: LEN=63 SYM=20
//@ config: LEN=119 SYM=118
//@ config: LEN=120 SYM=64
//@ bound: SHA-1: messages of the listed sizes around the block borders with one arbitrary byte, two blocks
#include "vt.h"
#include "utils.h"
static uint32_t rol(uint32_t x, int n) {return x << n | x >> (32 - n);}
static void ref(const uint8_t *m, size_t len, uint8_t *out) {
    static uint8_t p[256];
    uint32_t H[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    size_t i, t, n = (len + 8) / 64 + 1, b;
    for(i = 0; i != n * 64; ++i) p[i] = i < len ? m[i] : i == len ? 0x80 : 0;
    for(i = 0; i != 8; ++i) p[n * 64 - 1 - i] = (uint8_t)((uint64_t)len * 8 >> (8 * i));
    for(b = 0; b != n; ++b) {
        uint32_t W[80], v[5];
        for(t = 0; t != 16; ++t)
            W[t] = (uint32_t)p[b * 64 + t * 4] << 24 | p[b * 64 + t * 4 + 1] << 16 | p[b * 64 + t * 4 + 2] << 8 | p[b * 64 + t * 4 + 3];
        for(; t != 80; ++t) W[t] = rol(W[t - 3] ^ W[t - 8] ^ W[t - 14] ^ W[t - 16], 1);
        for(i = 0; i != 5; ++i) v[i] = H[i];
        for(t = 0; t != 80; ++t) {
            uint32_t f = t < 20 ? (v[1] & v[2]) ^ (~v[1] & v[3]) : t >= 40 && t < 60 ? (v[1] & v[2]) ^ (v[1] & v[3]) ^ (v[2] & v[3]) :
                v[1] ^ v[2] ^ v[3];
            uint32_t K = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
            uint32_t T = rol(v[0], 5) + f + v[4] + K + W[t];
            v[4] = v[3]; v[3] = v[2]; v[2] = rol(v[1], 30); v[1] = v[0]; v[0] = T;
        }
        for(i = 0; i != 5; ++i) H[i] += v[i];
    }
    for(i = 0; i != 20; ++i) out[i] = (uint8_t)(H[i / 4] >> (24 - 8 * (i % 4)));
}
int main(void) {
    uint8_t m[LEN + 1], exp[20];
    size_t i;
    for(i = 0; i != LEN; ++i) m[i] = (uint8_t)(i * 37 + 11);
    if(LEN) m[SYM] = nd_u8();
    struct dill_sha1 s;
    memset(&s, 0xff, sizeof(s));
    dill_sha1_init(&s);
    for(i = 0; i != LEN; ++i) dill_sha1_hashbyte(&s, m[i]);
    uint8_t *d = dill_sha1_result(&s);
    ref(m, LEN, exp);
    for(i = 0; i != 20; ++i) CHECK(d[i] == exp[i], "digest");
    WITNESS("digest");
    return 0;
}
