/* Base64: encoding, decoding and network byte order. */
//@ prop: W04
//@ src: utils
//@ nosrc: bsock msock iol
//@ cdef: __NO_CTYPE
//@ unwind: 40
//@ config: OP=0 N=8
//@ config: OP=1 N=8
//@ config: OP=2 N=8
//@ config: OP=3 N=1
//@ thorough: OP=0 N=24
//@ thorough: OP=1 N=20
//@ thorough: OP=2 N=16
//@ bound: base64: every input of up to 8 bytes (thorough: 16 to 24) and every output size; byte order conversions of every value
#include "vt.h"
#include "utils.h"
static char alpha(int v) {
    if(v < 26) return 'A' + v;
    if(v < 52) return 'a' + v - 26;
    if(v < 62) return '0' + v - 52;
    return v == 62 ? '+' : '/';
}
static int unalpha(uint8_t c) {
    if(c >= 'A' && c <= 'Z') return c - 'A';
    if(c >= 'a' && c <= 'z') return c - 'a' + 26;
    if(c >= '0' && c <= '9') return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
}
#define OUT (N / 3 * 4 + 8)
int main(void) {
    uint8_t in[N + 1];
    char out[OUT + 1];
    size_t i, n = nd_range(0, N), osz = nd_range(0, OUT);
    for(i = 0; i != N; ++i) in[i] = nd_u8();
    for(i = 0; i != OUT + 1; ++i) out[i] = 0x7e;
    if(OP == 0 || OP == 1) {
        int rc = dill_base64_encode(in, n, out, OP == 1 ? OUT : osz);
        size_t m = (n + 2) / 3 * 4;
        for(i = 0; i != OUT + 1; ++i) if(i >= (OP == 1 ? OUT : osz)) CHECK(out[i] == 0x7e, "nothing written behind the buffer");
        if(OP == 0 && osz < m + 1) {CHECK(rc == -1, "does not fit"); WITNESS("does not fit"); return 0;}
        CHECK(rc == (int)m && out[m] == 0, "size of the text");
        if(OP == 0) {
            for(i = 0; i != N; i += 1) if(i < n) {
                size_t g = i / 3 * 3;
                uint32_t v = in[g] << 16 | (g + 1 < n ? in[g + 1] << 8 : 0) | (g + 2 < n ? in[g + 2] : 0);
                char *o = out + g / 3 * 4;
                CHECK(o[0] == alpha(v >> 18 & 63) && o[1] == alpha(v >> 12 & 63), "standard encoding");
                CHECK(o[2] == (g + 1 < n ? alpha(v >> 6 & 63) : '='), "standard encoding");
                CHECK(o[3] == (g + 2 < n ? alpha(v & 63) : '='), "standard encoding");
            }
            WITNESS("encoded");
        } else {
            uint8_t back[N + 1];
            back[N] = 0x7e;
            CHECK(dill_base64_decode(out, m, back, n) == (int)n, "decodes to the same size");
            for(i = 0; i != N; ++i) if(i < n) CHECK(back[i] == in[i], "decodes to the same bytes");
            CHECK(back[N] == 0x7e, "nothing written behind the buffer");
            if(n) CHECK(dill_base64_decode(out, m, back, n - 1) == -1, "does not fit");
            WITNESS("round trip");
        }
        return 0;
    }
    if(OP == 2) {
        uint8_t exp[N + 1];
        size_t e = 0;
        uint32_t v = 0;
        int bits = 0;
        for(i = 0; i != N; ++i) {
            if(i >= n) break;
            uint8_t c = in[i];
            if(c == ' ' || (c >= 9 && c <= 13)) continue;
            int x = unalpha(c);
            if(x < 0) break;
            v = v << 6 | x;
            bits += 6;
            if(bits >= 8) {bits -= 8; exp[e++] = v >> bits & 255;}
        }
        int rc = dill_base64_decode((char*)in, n, (uint8_t*)out, osz);
        for(i = 0; i != OUT + 1; ++i) if(i >= osz) CHECK(out[i] == 0x7e, "nothing written behind the buffer");
        if(e > osz) {CHECK(rc == -1, "does not fit"); WITNESS("does not fit"); return 0;}
        CHECK(rc == (int)e, "decodes up to the first character that is not base64");
        for(i = 0; i != N; ++i) if(i < e) CHECK((uint8_t)out[i] == exp[i], "decoded");
        if(e == 6) WITNESS("decoded");
        return 0;
    }
    uint8_t b[9];
    b[8] = 0x7e;
    uint64_t x = nd_u64();
    dill_putll(b, x);
    for(i = 0; i != 8; ++i) CHECK(b[i] == (uint8_t)(x >> (56 - 8 * i)), "network byte order");
    CHECK(dill_getll(b) == x, "inverse");
    dill_putl(b, (uint32_t)x);
    for(i = 0; i != 4; ++i) CHECK(b[i] == (uint8_t)(x >> (24 - 8 * i)), "network byte order");
    CHECK(dill_getl(b) == (uint32_t)x, "inverse");
    dill_puts(b, (uint16_t)x);
    CHECK(b[0] == (uint8_t)(x >> 8) && b[1] == (uint8_t)x && dill_gets(b) == (uint16_t)x, "network byte order");
    CHECK(b[8] == 0x7e, "bounds");
    WITNESS("numbers");
    return 0;
}
