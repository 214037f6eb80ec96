/* HTTP: any line from the peer is parsed exactly or refused. */
//@ prop: W01
//@ engine: symx
//@ src: utils
//@ nosrc: msock
//@ lib: m_handle cstr
//@ config: KIND=0 NF=5 NT=1 MUT=0
//@ config: KIND=0 NF=3 NT=1 MUT=1
//@ config: KIND=1 NF=1 NT=7 MUT=0
//@ config: KIND=1 NF=0 NT=6 MUT=1
//@ config: KIND=2 NF=5 NT=0 MUT=0
//@ config: KIND=0 NF=2 NT=2 MUT=0 LONG=1
//@ config: KIND=1 NF=0 NT=6 MUT=0 LONG=1
//@ config: KIND=2 NF=4 NT=0 MUT=0 LONG=1
//@ thorough: KIND=0 NF=8 NT=2 MUT=1
//@ thorough: KIND=1 NF=2 NT=8 MUT=1
//@ thorough: KIND=2 NF=8 NT=0 MUT=0
//@ bound: HTTP receive: lines of up to 5 arbitrary bytes, a protocol string with any one byte changed or dropped, and up to 7 more arbitrary bytes; also padded to any of the largest sizes; result buffers of 0, 1, 3 and 30 bytes and the full size
#ifndef LONG
#define LONG 0
#endif
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "m_handle.h"
#include "http.c"
static uint8_t line[1200];
static size_t len;
static int fails, calls;
ssize_t dill_mrecv(int u, void *buf, size_t blen, int64_t deadline) {
    CHECK(u == 7 && deadline == 77, "reads from the socket below until the deadline");
    calls++;
    if(fails) {errno = fails; return -1;}
    if(len > blen) {errno = EMSGSIZE; fails = EMSGSIZE; return -1;}
    memcpy(buf, line, len);
    if(blen > len) ((uint8_t*)buf)[blen - 1] = 0xaa;
    return len;
}
int dill_msendl(int u, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {CHECK(0, "unused"); return -1;}
int dill_suffix_attach_mem(int s, const void *suffix, size_t sz, struct dill_suffix_storage *mem) {return -1;}
int dill_suffix_detach(int s, int64_t deadline) {return -1;}
int dill_term_attach_mem(int s, const void *buf, size_t sz, struct dill_term_storage *mem) {return -1;}
int dill_term_detach(int s, int64_t deadline) {return -1;}
int dill_term_done(int s, int64_t deadline) {return -1;}

static size_t tstart[4], tend[4];
static int ntok;
static void tokens(void) {
    size_t i = 0;
    while(1) {
        while(i != len && line[i] == ' ') ++i;
        if(i == len) return;
        if(ntok == 4) {ntok = 5; return;}
        tstart[ntok] = i;
        while(i != len && line[i] != ' ') ++i;
        tend[ntok++] = i;
    }
}
static int tokis(int t, const char *s, size_t n) {
    return tend[t] - tstart[t] == n && memcmp(line + tstart[t], s, n) == 0;
}
#define CAN 0x5a
static void same(const char *out, size_t outlen, size_t from, size_t to) {
    size_t i;
    CHECK(to - from < outlen, "fits the buffer");
    for(i = from; i != to; ++i) CHECK((uint8_t)out[i - from] == line[i], "component is exact");
    CHECK(out[to - from] == 0, "terminated");
}
/* Buffers of exactly the stated size on the heap, so that any overrun is seen. */
static size_t anylen(void) {
    if(LONG) {uint64_t x = nd_raw() & 3; return x == 0 ? 0 : x == 1 ? 1 : x == 2 ? 1023 : 1024;}
    uint64_t n = nd_raw() & 3;
    return n == 2 ? 3 : n == 3 ? 30 : n;
}
int main(void) {
    struct dill_http_sock obj;
    memset(&obj, 0, sizeof(obj));
    obj.hvfs.query = dill_http_hquery;
    obj.hvfs.close = dill_http_hclose;
    obj.u = 7;
    obj.mem = 1;
    int h = dill_hmake(&obj.hvfs);
    size_t i, n;
    int nul = 0;
    if(nd_bool()) fails = nd_bool() ? EPIPE : ECONNRESET;
    else {
        n = nd_range(0, NF);
        for(i = 0; i < n; ++i) line[len++] = nd_u8();
        if(LONG && KIND == 0) {
            size_t to = 1022 - 11 + nd_range(0, 4);
            while(len < to) line[len++] = 'a';
            line[len++] = ' ';
        }
        if(KIND != 2) {
            int m = MUT ? nd_range(0, 16) : 16;
            uint8_t c = nd_u8();
            for(i = 0; i != 8; ++i)
                if((size_t)m == i) line[len++] = c;
                else if((size_t)m != i + 8) line[len++] = "HTTP/1.1"[i];
        }
        if(KIND == 1 && (LONG || MUT)) {line[len++] = ' '; line[len++] = '2';}
        n = nd_range(0, NT);
        for(i = 0; i < n; ++i) line[len++] = nd_u8();
        if(LONG && KIND) {
            size_t to = 1020 + nd_range(0, 4);
            while(len < to) line[len++] = 'a';
        }
        for(i = 0; i != len; ++i) nul |= line[i] == 0;
    }
    size_t l1 = anylen(), l2 = KIND == 1 ? 0 : LONG ? 1024 : anylen();
    char *b1 = malloc(l1), *b2 = malloc(l2);
    ASSUME(b1 && b2);
    int rc;
    errno = 0;
    if(KIND == 0) rc = dill_http_recvrequest(h, b1, l1, b2, l2, 77);
    else if(KIND == 1) rc = dill_http_recvstatus(h, b1, l1, 77);
    else rc = dill_http_recvfield(h, b1, l1, b2, l2, 77);
    int err = errno;
    CHECK(calls == 1, "one line read");
    if(fails) {CHECK(rc == -1 && err == fails, "error is passed on"); WITNESS("error"); return 0;}
    /* Lines with a zero byte have no representation as C strings: safety only. */
    if(nul) {CHECK(rc >= 0 || (rc == -1 && (err == EPROTO || err == EMSGSIZE)), "result"); return 0;}
    int good = 0, big = 0;
    size_t f1, t1, f2, t2;
    tokens();
    if(KIND == 0) {
        good = ntok == 3 && tokis(2, "HTTP/1.1", 8);
        if(ntok > 0) {f1 = tstart[0]; t1 = tend[0]; big |= t1 - f1 >= l1;}
        if(ntok > 1) {f2 = tstart[1]; t2 = tend[1]; big |= t2 - f2 >= l2;}
    } else if(KIND == 1) {
        good = ntok >= 2 && tokis(0, "HTTP/1.1", 8) && tend[1] - tstart[1] == 3 && tend[1] != len;
        if(good) for(i = tstart[1]; i != tend[1]; ++i) good &= line[i] >= '0' && line[i] <= '9';
        if(good) {
            f1 = tend[1];
            while(f1 != len && line[f1] == ' ') ++f1;
            t1 = len;
            big = t1 - f1 >= l1;
        }
    } else {
        for(f1 = 0; f1 != len && line[f1] == ' '; ++f1);
        for(t1 = f1; t1 != len && line[t1] != ' ' && line[t1] != ':'; ++t1);
        big |= t1 - f1 >= l1;
        for(f2 = t1; f2 != len && line[f2] == ' '; ++f2);
        good = f2 != len && line[f2] == ':';
        if(good) {
            for(++f2; f2 != len && line[f2] == ' '; ++f2);
            for(t2 = len; t2 != f2 && line[t2 - 1] == ' '; --t2);
            big |= t2 - f2 >= l2;
        }
        /* A field without a name may be refused. */
        if(good && t1 == f1 && rc == -1 && err == EPROTO) return 0;
    }
    if(rc < 0) {
        CHECK(rc == -1 && (err == EPROTO || err == EMSGSIZE), "error code");
        CHECK(err == EPROTO ? !good : big, "error is justified");
        if(err == EPROTO) WITNESS("malformed");
        else WITNESS("too big");
        return 0;
    }
    CHECK(good && !big, "only well-formed lines that fit are accepted");
    same(b1, l1, f1, t1);
    if(KIND != 1) {same(b2, l2, f2, t2); CHECK(rc == 0, "result");}
    else CHECK(rc == (line[tstart[1]] - '0') * 100 + (line[tstart[1] + 1] - '0') * 10 + line[tstart[1] + 2] - '0', "status code");
    WITNESS("parsed");
    return 0;
}
