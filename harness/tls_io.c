/* TLS sockets over every behaviour of the TLS engine. */
//@ prop: T01 O01
//@ engine: symx
//@ nosrc: bsock msock iol utils
//@ lib: m_handle cstr
//@ config: OP=0 SRV=0
//@ config: OP=0 SRV=1
//@ config: OP=1 SRV=0
//@ config: OP=2 SRV=0
//@ config: OP=3 SRV=0
//@ config: OP=3 SRV=1
//@ config: OP=4 SRV=0
//@ bound: TLS sockets: the engine (OpenSSL) is replaced by one that accepts or produces any number of bytes per call and fails in every way the library distinguishes, up to 4 engine calls per data transfer and 6 otherwise; lists of up to 2 items of 0 to 3 bytes with and without buffer; attaching with every failure of the engine, of allocation and of handles; sequences of 2 operations. Outside: what the engine itself does
#include "repo.h"
#define DILL_DISABLE_RAW_NAMES
#include "m_handle.h"
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#undef SSL_library_init
#undef SSL_load_error_strings
#undef SSL_CTX_set_ecdh_auto
#undef ERR_free_strings
#undef EVP_cleanup
#undef SSLv23_method
#undef SSLv23_server_method
#define SSL_library_init() ((void)0)
#define SSL_load_error_strings() ((void)0)
#define ERR_free_strings() ((void)0)
#define EVP_cleanup() ((void)0)
#define SSL_CTX_set_ecdh_auto(c, v) k_ecdh()
#define SSLv23_method() k_method(0)
#define SSLv23_server_method() k_method(1)
#define SSL_CTX_new k_ctx_new
#define SSL_CTX_free k_ctx_free
#define SSL_CTX_use_certificate_file k_cert
#define SSL_CTX_use_PrivateKey_file k_pkey
#define SSL_new k_new
#define SSL_free k_free
#define SSL_set_connect_state(s) k_state(s, 0)
#define SSL_set_accept_state(s) k_state(s, 1)
#define SSL_set_bio k_set_bio
#define SSL_connect(s) k_handshake(s, 0)
#define SSL_accept(s) k_handshake(s, 1)
#define SSL_shutdown k_shutdown
#define SSL_write k_write
#define SSL_read k_read
#define SSL_get_error k_get_error
#define ERR_clear_error() ((void)0)
#define ERR_get_error k_err
#define ERR_error_string_n(a, b, c) ((void)0)
#define BIO_new k_bio_new
#define BIO_vfree(b) CHECK(0, "BIO belongs to the connection")
#define BIO_free(b) CHECK(0, "BIO belongs to the connection")
#define BIO_set_data(b, d) (biodata = (d))
#define BIO_get_data(b) biodata
#define BIO_set_init(b, i) ((void)0)
#define BIO_get_new_index() 7
#define BIO_meth_new k_meth_new
#define BIO_meth_free(m) ((void)0)
#define BIO_meth_set_create(m, f) 1
#define BIO_meth_set_destroy(m, f) 1
#define BIO_meth_set_write(m, f) (bio_w = (f), 1)
#define BIO_meth_set_read(m, f) (bio_r = (f), 1)
#define BIO_meth_set_ctrl(m, f) (bio_c = (f), 1)
#define atexit(f) 0
#define dill_bsend k_bsend
#define dill_brecv k_brecv
#undef fprintf
#define fprintf(...) ((void)0)
static int obj;
static void *biodata;
static int (*bio_w)(BIO *, const char *, int);
static int (*bio_r)(BIO *, char *, int);
static long (*bio_c)(BIO *, int, long, void *);
static int ctxs, ssls, bios, biogiven, certs;
static int failat, fcnt, calls, code, errq, failed, engine_err;
static int64_t opdl;
static int uhandle;
static int fail(void) {
    if(failat && ++fcnt == failat) {failed = 1; return 1;}
    return 0;
}
static int pick(int n) {
    int v = nd_range(0, n - 1), i;
    for(i = 0; i != n; ++i) if(v == i) return i;
    return 0;
}
static const SSL_METHOD *k_method(int srv) {CHECK(srv == SRV, "role"); return fail() ? NULL : (void*)&obj;}
static int k_ecdh(void) {return fail() ? 0 : 1;}
static SSL_CTX *k_ctx_new(const SSL_METHOD *m) {CHECK(ctxs == 0, "one context"); if(fail()) return NULL; ctxs++; return (void*)&ctxs;}
static void k_ctx_free(SSL_CTX *c) {CHECK((void*)c == &ctxs && ctxs == 1, "context is released once"); ctxs = 0;}
static int k_cert(SSL_CTX *c, const char *f, int t) {CHECK(strcmp(f, "cert") == 0, "certificate"); certs |= 1; return fail() ? 0 : 1;}
static int k_pkey(SSL_CTX *c, const char *f, int t) {CHECK(strcmp(f, "pkey") == 0, "key"); certs |= 2; return fail() ? -1 : 1;}
static SSL *k_new(SSL_CTX *c) {CHECK((void*)c == &ctxs && ctxs && ssls == 0, "connection"); if(fail()) return NULL; ssls++; return (void*)&ssls;}
static void k_free(SSL *s) {
    CHECK((void*)s == &ssls && ssls == 1, "connection is released once");
    ssls = 0;
    if(biogiven) {CHECK(bios == 1, "BIO is released once"); bios = 0;}
}
static void k_state(SSL *s, int srv) {CHECK(srv == SRV, "role");}
static void k_set_bio(SSL *s, BIO *r, BIO *w) {CHECK((void*)r == &bios && r == w && !biogiven, "BIO"); biogiven = 1;}
static BIO *k_bio_new(const BIO_METHOD *m) {if(fail()) return NULL; bios++; return (void*)&bios;}
static BIO_METHOD *k_meth_new(int i, const char *n) {return (void*)&obj;}
static unsigned long k_err(void) {if(errq) {errq--; return 99;} return 0;}
static int k_get_error(const SSL *s, int rc) {return rc > 0 ? SSL_ERROR_NONE : code;}
/* The transport. */
static int tr_err, tr_calls;
static uint8_t trbuf[4];
static int k_bsend(int h, const void *b, size_t len, int64_t dl) {
    CHECK(h == uhandle || OP == 0, "underlying socket");
    CHECK(mh_isopen(h) && b == trbuf && len == 4, "passes the data through");
    CHECK(dl == opdl, "deadline of the operation");
    tr_calls++;
    if(tr_err) {errno = tr_err; return -1;}
    return 0;
}
static int k_brecv(int h, void *b, size_t len, int64_t dl) {
    return k_bsend(h, b, len, dl);
}
/* Result of an engine call; 0 means that it works. */
static int engine(SSL *s) {
    CHECK((void*)s == &ssls && ssls == 1, "live connection");
    ASSUME(calls < (OP == 1 || OP == 2 ? 4 : 6));
    calls++;
    CHECK(bio_c((void*)&bios, BIO_CTRL_FLUSH, 0, NULL) == 1, "flush");
    CHECK(bio_c((void*)&bios, BIO_CTRL_EOF, 0, NULL) == 0 && bio_c((void*)&bios, 73, 0, NULL) == 0, "unknown control operation");
    switch(pick(5)) {
    case 0: CHECK(bio_r((void*)&bios, (char*)trbuf, 4) == 4 && bio_w((void*)&bios, (char*)trbuf, 4) == 4, "transport"); return 0;
    case 1: code = SSL_ERROR_ZERO_RETURN; engine_err = EPIPE; return -1;
    case 2: code = SSL_ERROR_SSL; errq = 2; engine_err = EFAULT; return -1;
    case 3: {
        tr_err = pick(2) ? ETIMEDOUT : ECONNRESET;
        int rc = pick(2) ? bio_r((void*)&bios, (char*)trbuf, 4) : bio_w((void*)&bios, (char*)trbuf, 4);
        CHECK(rc == -1 && errno == tr_err, "transport error");
        code = SSL_ERROR_SYSCALL;
        engine_err = tr_err;
        tr_err = 0;
        return -1;
        }
    default: code = SSL_ERROR_SYSCALL; errno = 0; return -2;   /* to be repeated */
    }
}
static int handshaken;
static int k_handshake(SSL *s, int srv) {
    CHECK(srv == SRV, "role");
    int r = engine(s);
    if(r == 0) {handshaken = 1; return 1;}
    return -1;
}
static uint8_t sent[10], data[10];
static int nsent, nread;
static int k_write(SSL *s, const void *b, int n) {
    int i;
    CHECK(n > 0, "something to send");
    if(engine(s)) return -1;
    int k = n > 1 ? 1 + pick(n) : n;
    for(i = 0; i != k; ++i) {CHECK(nsent < 10, "harness: room"); sent[nsent++] = ((uint8_t*)b)[i];}
    return k;
}
static int k_read(SSL *s, void *b, int n) {
    int i;
    CHECK(n > 0 && b, "somewhere to receive to");
    if(engine(s)) return -1;
    int k = n > 1 ? 1 + pick(n) : n;
    for(i = 0; i != k; ++i) {CHECK(nread < 10, "receives no more than asked for"); ((uint8_t*)b)[i] = data[nread++];}
    return k;
}
static int oursent, theirs, shutdowns;
static int k_shutdown(SSL *s) {
    int r = engine(s);
    if(r) return -1;
    shutdowns++;
    if(!oursent) {
        oursent = 1;
        if(pick(2)) {theirs = 1; return 1;}
        code = SSL_ERROR_SYSCALL; errno = 0;
        return 0;
    }
    theirs = 1;
    return 1;
}
#include "tls.c"
#undef atexit
const int dill_bsock_type_ = 0;
const void *dill_bsock_type = &dill_bsock_type_;
/* The underlying socket. */
static struct dill_hvfs uh;
static struct dill_bsock_vfs ub;
static int uopen, utype;
static void *u_query(struct dill_hvfs *h, const void *type) {
    if(type == dill_bsock_type && !utype) return &ub;
    errno = ENOTSUP;
    return NULL;
}
static void u_close(struct dill_hvfs *h) {CHECK(uopen == 1, "underlying socket is closed once"); uopen = 0; errno = 0;}
static struct dill_tls_storage mem;
int main(void) {
    int i, j, k, rc, err, h;
    uh.query = u_query;
    uh.close = u_close;
    uopen = 1;
    opdl = 1000;
    int bad = 0;
    int u = dill_hmake(&uh);
    if(OP == 0) {
        int usemem = pick(2), nomem = 0, mf = 0;
        switch(pick(5)) {
        case 0: failat = 1 + pick(SRV ? 7 : 4); break;
        case 1: mf = mh_fail_at = 1 + pick(2); break;
        case 2: utype = 1; bad = EPROTO; break;
        case 3: if(usemem) {usemem = 2; bad = EINVAL;} else {vt_fail_at = 1; bad = ENOMEM;} break;
        }
        struct dill_tls_storage *m = usemem == 2 ? NULL : &mem;
        if(SRV) h = usemem ? dill_tls_attach_server_mem(u, "cert", "pkey", m, opdl) : dill_tls_attach_server(u, "cert", "pkey", opdl);
        else h = usemem ? dill_tls_attach_client_mem(u, m, opdl) : dill_tls_attach_client(u, opdl);
        err = errno;
        CHECK(!mh_isopen(u), "underlying handle is taken over");
        if(h < 0) {
            CHECK(h == -1, "failure");
            CHECK(!uopen && mh_open == 0, "underlying socket is closed");
            CHECK(ctxs == 0 && ssls == 0 && bios == 0 && vt_live == 0, "everything is released");
            CHECK(failed || (mf && !mh_fail_at) || bad || engine_err, "failed for a reason");
            if(bad) CHECK(err == bad, "reason");
            else if(failed) CHECK(err == EFAULT, "reason");
            else if(engine_err) CHECK(err == engine_err, "reason");
            else CHECK(err == ENOMEM || err == ECANCELED, "reason");
            WITNESS("attach failed");
            return 0;
        }
        CHECK(!bad && !failed && !mh_fail_at && !engine_err, "failure is reported");
        CHECK(handshaken, "handshake is done");
        CHECK(!SRV || certs == 3, "certificate is used");
        CHECK(uopen && ctxs && ssls && bios, "attached");
        CHECK(dill_hclose(h) == 0, "close");
        CHECK(!uopen && mh_open == 0 && ctxs == 0 && ssls == 0 && bios == 0 && vt_live == 0, "everything is released");
        WITNESS("attached");
        return 0;
    }
    /* Attach without failures. */
    struct dill_tls_sock *self;
    int usemem = OP == 3 ? pick(2) : 1;
    dill_tls_init();
    self = usemem ? (void*)&mem : vt_malloc(sizeof(*self));
    memset(self, 0, sizeof(*self));
    self->hvfs.query = dill_tls_hquery;
    self->hvfs.close = dill_tls_hclose;
    self->bvfs.bsendl = dill_tls_bsendl;
    self->bvfs.brecvl = dill_tls_brecvl;
    self->ctx = (void*)&ctxs;
    self->ssl = (void*)&ssls;
    ctxs = ssls = bios = biogiven = 1;
    self->u = uhandle = u;
    self->deadline = 5;
    self->mem = usemem;
    biodata = self;
    h = dill_hmake(&self->hvfs);
    if(OP == 1 || OP == 2) {
        /* Up to 3 items, twice. */
        uint8_t bufs[3][4];
        int dead = 0;
        for(i = 0; i != 10; ++i) data[i] = nd_u8();
        for(k = 0; k != 2; ++k) {
            struct dill_iolist l[3];
            int n = k ? 1 : 1 + pick(2), total = 0, before = OP == 1 ? nsent : nread, c0 = calls;
            uint8_t exp[10];
            for(i = 0; i != n; ++i) {
                int shape = k ? 2 : pick(OP == 2 ? 5 : 4);
                l[i].iol_len = shape == 4 ? 2 : shape;
                l[i].iol_base = shape == 4 ? NULL : bufs[i];
                l[i].iol_next = i + 1 == n ? NULL : &l[i + 1];
                l[i].iol_rsvd = 0;
                for(j = 0; j != 4; ++j) bufs[i][j] = nd_u8();
                for(j = 0; j != (int)l[i].iol_len; ++j) exp[total++] = bufs[i][j];
            }
            opdl = 2000 + k;
            uint8_t tail = bufs[n - 1][3];
            engine_err = 0;
            errno = 0;
            rc = OP == 1 ? dill_tls_bsendl(&self->bvfs, &l[0], &l[n - 1], opdl) : dill_tls_brecvl(&self->bvfs, &l[0], &l[n - 1], opdl);
            err = errno;
            int moved = (OP == 1 ? nsent : nread) - before;
            if(dead) {
                CHECK(rc == -1 && err == dead && calls == c0, "error is remembered");
                WITNESS("error is remembered");
                return 0;
            }
            CHECK((rc == 0) == !engine_err, "fails if and only if the engine does");
            if(rc == 0) {
                CHECK(moved == total, "everything is transferred");
                j = before;
                for(i = 0; i != n; ++i) {
                    int m;
                    for(m = 0; m != (int)l[i].iol_len; ++m, ++j) {
                        if(OP == 1) CHECK(sent[j] == exp[j - before], "bytes in order");
                        else if(l[i].iol_base) CHECK(bufs[i][m] == data[j], "bytes in order");
                    }
                }
                if(l[n - 1].iol_len < 4) CHECK(bufs[n - 1][3] == tail, "writes within the buffer");
                WITNESS("transferred");
            } else {
                CHECK(rc == -1 && err == engine_err, "reason");
                CHECK(moved < total || total == 0, "did not finish");
                dead = err == EPIPE && OP == 2 ? EPIPE : ECONNRESET;
                WITNESS("failed");
            }
        }
        return 0;
    }
    if(OP == 3) {
        /* Detach, possibly after done or an error. */
        int pre = pick(4), dead = 0;
        if(pre == 1) {
            opdl = 300;
            rc = dill_tls_done(h, opdl);
            if(rc < 0) {CHECK(errno == engine_err, "reason"); dead = ECONNRESET; engine_err = 0;}
            else CHECK(oursent, "shut down");
            rc = dill_tls_done(h, opdl);
            CHECK(rc == -1 && errno == (dead ? ECONNRESET : EPIPE), "done twice");
            CHECK(dill_tls_bsendl(&self->bvfs, NULL, NULL, 1) == -1 && errno == (dead ? ECONNRESET : EPIPE), "no sends after done");
        }
        if(pre == 2) {self->inerr = 1; dead = ECONNRESET;}
        if(pre == 3) {self->outerr = 1; dead = ECONNRESET;}
        opdl = 400;
        engine_err = 0;
        rc = dill_tls_detach(h, opdl);
        err = errno;
        CHECK(!mh_isopen(h), "handle is gone");
        CHECK(ctxs == 0 && ssls == 0 && bios == 0 && vt_live == 0, "everything is released");
        if(rc < 0) {
            CHECK(rc == -1 && (dead || engine_err), "failed for a reason");
            CHECK(err == (dead ? dead : engine_err), "reason");
            CHECK(!uopen && mh_open == 0, "underlying socket is closed");
            WITNESS("detach failed");
            return 0;
        }
        CHECK(!dead && !engine_err && oursent && theirs, "both directions are shut down");
        CHECK(rc == u && mh_isopen(u) && uopen && mh_open == 1, "underlying socket");
        WITNESS("detached");
        return 0;
    }
    /* Operations on something else. */
    CHECK(dill_tls_done(u, 1) == -1 && errno == ENOTSUP, "not a TLS socket");
    CHECK(dill_tls_detach(u, 1) == -1 && errno == ENOTSUP && uopen, "not a TLS socket");
    CHECK(dill_tls_done(7, 1) == -1 && errno == EBADF, "no such handle");
    CHECK(dill_tls_detach(7, 1) == -1 && errno == EBADF, "no such handle");
    CHECK(dill_hquery(h, dill_bsock_type) == &self->bvfs, "bytestream");
    CHECK(dill_hquery(h, &obj) == NULL && errno == ENOTSUP, "nothing else");
    CHECK(dill_hclose(h) == 0 && !uopen && mh_open == 0 && ctxs == 0 && ssls == 0, "closes all");
    WITNESS("other");
    return 0;
}
