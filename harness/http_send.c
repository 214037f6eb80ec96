/* HTTP: what is sent is one line that decodes back to the same values. */
//@ prop: W01
//@ engine: symx
//@ src: utils
//@ nosrc: msock
//@ lib: m_handle cstr
//@ config: KIND=0 N1=3 N2=2
//@ config: KIND=1 N1=0 N2=4
//@ config: KIND=2 N1=2 N2=3
//@ thorough: KIND=0 N1=3 N2=4
//@ thorough: KIND=1 N1=0 N2=6
//@ thorough: KIND=2 N1=2 N2=5
//@ bound: HTTP send: every argument string of up to 2 to 4 bytes, every status code
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
#include "m_handle.h"
#include "http.c"
static char line[64];
static size_t len;
static int fails, sent, got;
int dill_msendl(int u, struct dill_iolist *f, struct dill_iolist *l, int64_t dl) {
    CHECK(u == 7 && dl == 77 && !l->iol_next, "sends to the socket below");
    sent++;
    for(; f; f = f->iol_next) {
        CHECK(f->iol_rsvd == 0 && (f->iol_next || f == l), "well-formed list");
        size_t i;
        for(i = 0; i != f->iol_len; ++i) line[len++] = ((char*)f->iol_base)[i];
    }
    if(fails) {errno = fails; return -1;}
    return 0;
}
ssize_t dill_mrecv(int u, void *buf, size_t blen, int64_t deadline) {
    got++;
    memcpy(buf, line, len);
    return len;
}
int dill_suffix_attach_mem(int s, const void *suffix, size_t sz, struct dill_suffix_storage *mem) {return -1;}
int dill_suffix_detach(int s, int64_t deadline) {return -1;}
int dill_term_attach_mem(int s, const void *buf, size_t sz, struct dill_term_storage *mem) {return -1;}
int dill_term_detach(int s, int64_t deadline) {return -1;}
int dill_term_done(int s, int64_t deadline) {return -1;}

static int bad(const char *s, int level) {
    /* level 0: no line breaks; 1: no blanks; 2: no separators */
    for(; *s; ++s) {
        if(*s == '\r' || *s == '\n') return 1;
        if(level >= 1 && (*s == ' ' || *s == '\t')) return 1;
        if(level >= 2 && strchr("(),/:;<=>?@[\\]{}\"", *s)) return 1;
    }
    return 0;
}
int main(void) {
    struct dill_http_sock obj;
    memset(&obj, 0, sizeof(obj));
    obj.hvfs.query = dill_http_hquery;
    obj.hvfs.close = dill_http_hclose;
    obj.u = 7;
    obj.mem = 1;
    int h = dill_hmake(&obj.hvfs);
    char a[N1 + 1], b[N2 + 1], o1[N1 + 2], o2[N2 + 2];
    size_t i;
    for(i = 0; i != N1; ++i) a[i] = (char)nd_u8();
    for(i = 0; i != N2; ++i) b[i] = (char)nd_u8();
    a[N1] = b[N2] = 0;
    int status = (int)nd_raw();
    if(nd_bool()) fails = ECONNRESET;
    int rc, may, must;
    errno = 0;
    /* Arguments which may and which have to be refused. */
    if(KIND == 0) {
        rc = dill_http_sendrequest(h, a, b, 77);
        may = bad(a, 1) || bad(b, 1) || !*a || !*b;
        must = bad(a, 1) || bad(b, 1) || !*a || !*b;
        if(strchr(a, '\r') || strchr(b, '\r')) must = 0;
    } else if(KIND == 1) {
        rc = dill_http_sendstatus(h, status, b, 77);
        may = status < 100 || status > 599 || bad(b, 0);
        must = status < 100 || status > 599 || strstr(b, "\r\n");
    } else {
        rc = dill_http_sendfield(h, a, b, 77);
        may = bad(a, 2) || bad(b, 0) || !*a;
        must = strchr(a, ' ') || strchr(a, ':') || strstr(b, "\r\n");
    }
    int err = errno;
    int blank = KIND == 2;
    for(i = 0; b[i]; ++i) if(b[i] != ' ') blank = 0;
    CHECK(rc == 0 || rc == -1, "result");
    if(!sent) {
        CHECK(rc == -1 && (err == EINVAL || (blank && err == EPROTO)), "refused with an error");
        CHECK(may || blank, "only malformed arguments are refused");
        WITNESS("refused");
        return 0;
    }
    CHECK(!must && !blank, "malformed arguments are not sent");
    CHECK(sent == 1, "one message");
    CHECK(fails ? rc == -1 && err == fails : rc == 0, "result of sending is reported");
    CHECK(len > 0, "not the terminal message");
    for(i = 0; i + 1 < len; ++i) CHECK(!(line[i] == '\r' && line[i + 1] == '\n'), "one line");
    if(fails) return 0;
    if(KIND == 0) {
        CHECK(dill_http_recvrequest(h, o1, sizeof(o1), o2, sizeof(o2), 77) == 0 &&
            strcmp(o1, a) == 0 && strcmp(o2, b) == 0, "decodes to the same request");
        WITNESS("request");
    } else if(KIND == 1) {
        size_t s = 0;
        while(b[s] == ' ') ++s;
        CHECK(dill_http_recvstatus(h, o2, sizeof(o2), 77) == status && strcmp(o2, b + s) == 0, "decodes to the same status");
        WITNESS("status");
    } else {
        size_t s = 0, e = strlen(b);
        while(b[s] == ' ') ++s;
        while(e > s && b[e - 1] == ' ') --e;
        b[e] = 0;
        CHECK(dill_http_recvfield(h, o1, sizeof(o1), o2, sizeof(o2), 77) == 0 &&
            strcmp(o1, a) == 0 && strcmp(o2, b + s) == 0, "decodes to the same field");
        WITNESS("field");
    }
    CHECK(got == 1, "one line");
    return 0;
}
