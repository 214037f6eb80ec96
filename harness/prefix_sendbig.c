/* PREFIX send of arbitrary 64-bit sizes: the length must be expressible. The
   transport here only inspects the header and the list, not the payload. */
//@ prop: M01
//@ src: prefix
//@ lib: m_handle
//@ unwind: 12
//@ config: HDRLEN=1
//@ config: HDRLEN=2
//@ config: HDRLEN=4
//@ config: HDRLEN=7
//@ config: HDRLEN=8
//@ bound: PREFIX length field: payload of any size below 2^63 in two items
#include "vt.h"
#include "m_handle.h"
static struct dill_hvfs hv;
static struct dill_bsock_vfs bv;
static int nsend;
static uint64_t hdr;
static int little;
static struct dill_iolist it[2];
static void *q(struct dill_hvfs *h, const void *type) {
    if(type == dill_bsock_type) return &bv;
    errno = ENOTSUP;
    return NULL;
}
static void cl(struct dill_hvfs *h) {}
static int snd(struct dill_bsock_vfs *v, struct dill_iolist *first,
      struct dill_iolist *last, int64_t deadline) {
    nsend++;
    CHECK(first->iol_len == HDRLEN && first->iol_next == &it[0] && last == &it[1] &&
        it[0].iol_next == &it[1] && it[1].iol_next == NULL, "header followed by the payload");
    int i;
    for(i = 0; i != HDRLEN; ++i)
        hdr = (hdr << 8) | ((uint8_t*)first->iol_base)[little ? HDRLEN - 1 - i : i];
    return 0;
}
static int rcv(struct dill_bsock_vfs *v, struct dill_iolist *first,
      struct dill_iolist *last, int64_t deadline) {return -1;}

int main(void) {
    static uint8_t b[1];
    hv.query = q; hv.close = cl; bv.bsendl = snd; bv.brecvl = rcv;
    little = nd_bool();
    int s = dill_prefix_attach(dill_hmake(&hv), HDRLEN,
        little ? DILL_PREFIX_LITTLE_ENDIAN : DILL_PREFIX_BIG_ENDIAN);
    uint64_t a = nd_u64(), c = nd_u64();
    ASSUME(a < (1ull << 62) && c < (1ull << 62));
    it[0].iol_base = b; it[0].iol_len = a; it[0].iol_next = &it[1];
    it[1].iol_base = b; it[1].iol_len = c;
    errno = 0;
    int rc = dill_msendl(s, &it[0], &it[1], -1);
    int fits = HDRLEN >= 8 || ((a + c) >> (8 * (HDRLEN & 7))) == 0;
    if(rc == 0) {
        CHECK(fits, "inexpressible size refused");
        CHECK(nsend == 1 && hdr == a + c, "size encoded exactly");
        if(a + c > 100) WITNESS("sent");
    } else {
        CHECK(!fits && errno == EMSGSIZE && nsend == 0, "only oversized messages refused, unsent");
    }
    return 0;
}
