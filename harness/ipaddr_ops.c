/* IP addresses. */
//@ prop: A01
//@ engine: symx
//@ nosrc: bsock msock iol utils
//@ lib: cstr
//@ config: OP=0
//@ config: OP=1
//@ config: OP=2
//@ config: OP=3
//@ config: OP=4
//@ config: OP=5 BASE=0
//@ config: OP=5 BASE=1
//@ config: OP=5 BASE=2
//@ config: OP=5 BASE=3
//@ config: OP=5 BASE=4
//@ config: OP=5 BASE=5
//@ config: OP=5 BASE=6
//@ config: OP=5 BASE=7
//@ bound: addresses: every IPv4 address; IPv6 addresses with every pattern of zero groups and arbitrary digits in two of the groups; every port and mode; text that is one character off a valid literal; up to 3 interface addresses; up to 3 resolved addresses per family, every resolver result. Outside: allocation failures within the resolver, missing system configuration
#include "repo.h"
#include <ifaddrs.h>
#include <netdb.h>
#include <stdio.h>
#include "dns/dns.h"
static int k_getifaddrs(struct ifaddrs **p);
static void k_freeifaddrs(struct ifaddrs *p);
static struct dns_resolv_conf *k_resconf(int *rc);
static struct dns_hosts *k_hosts(int *rc);
static struct dns_hints *k_hints(struct dns_resolv_conf *c, int *rc);
static struct dns_resolver *k_res_open(struct dns_resolv_conf *c, struct dns_hosts *h, struct dns_hints *hi, struct dns_cache *ca, const struct dns_options *o, int *rc);
static void k_res_close(struct dns_resolver *r);
static struct dns_addrinfo *k_ai_open(const char *name, const char *serv, enum dns_type t, const struct addrinfo *hints, struct dns_resolver *r, int *rc);
static int k_ai_nextent(struct addrinfo **it, struct dns_addrinfo *ai);
static int k_ai_pollfd(struct dns_addrinfo *ai);
static int k_ai_events(struct dns_addrinfo *ai);
static void k_ai_close(struct dns_addrinfo *ai);
static int k_snprintf(char *b, size_t n, const char *f, ...);
#define getifaddrs k_getifaddrs
#define freeifaddrs k_freeifaddrs
#define dns_resconf_local k_resconf
#define dns_hosts_local k_hosts
#define dns_hints_local k_hints
#define dns_res_open k_res_open
#define dns_res_close k_res_close
#define dns_ai_open k_ai_open
#define dns_ai_nextent k_ai_nextent
#define dns_ai_pollfd k_ai_pollfd
#define dns_ai_events k_ai_events
#define dns_ai_close k_ai_close
#define snprintf k_snprintf
#include "ipaddr.c"
#ifndef BASE
#define BASE 0
#endif
#undef snprintf
const struct in6_addr in6addr_any;
static int pick(int n) {
    int v = nd_range(0, n - 1), i;
    for(i = 0; i != n; ++i) if(v == i) return i;
    return 0;
}
static const int modes[] = {0, DILL_IPADDR_IPV4, DILL_IPADDR_IPV6, DILL_IPADDR_PREF_IPV4, DILL_IPADDR_PREF_IPV6, 99, -1};
/* ---- interfaces ---- */
static struct ifaddrs ifs[3];
static struct sockaddr_in6 ifa[3];
static int nifs, ifopen;
static int k_getifaddrs(struct ifaddrs **p) {ifopen++; *p = nifs ? &ifs[0] : NULL; return 0;}
static void k_freeifaddrs(struct ifaddrs *p) {CHECK(p == &ifs[0] && ifopen == 1, "released once"); ifopen--;}
/* ---- resolver ---- */
static int opened_res, opened_ai, qtype, res4, res6, served, waits, failrc, waitrc, qport;
static char fdclean_due;
static struct dns_resolv_conf *k_resconf(int *rc) {return (void*)ifs;}
static struct dns_hosts *k_hosts(int *rc) {return (void*)ifs;}
static struct dns_hints *k_hints(struct dns_resolv_conf *c, int *rc) {return (void*)ifs;}
static int emfile;
static struct dns_resolver *k_res_open(struct dns_resolv_conf *c, struct dns_hosts *h, struct dns_hints *hi, struct dns_cache *ca, const struct dns_options *o, int *rc) {
    if(emfile) {errno = emfile; *rc = emfile; return NULL;}
    CHECK(!opened_res, "one resolver");
    opened_res = 1;
    return (void*)&opened_res;
}
static void k_res_close(struct dns_resolver *r) {CHECK((void*)r == &opened_res && opened_res == 1, "closed once"); opened_res = 0;}
static struct dns_addrinfo *k_ai_open(const char *name, const char *serv, enum dns_type t, const struct addrinfo *hints, struct dns_resolver *r, int *rc) {
    CHECK(!opened_ai && (void*)r == &opened_res && opened_res, "one query");
    CHECK(strcmp(name, "nm") == 0, "queries the name");
    CHECK(t == DNS_T_A || t == DNS_T_AAAA, "type of the query");
    opened_ai = 1;
    qtype = t;
    served = 0;
    return (void*)&opened_ai;
}
static int k_ai_nextent(struct addrinfo **it, struct dns_addrinfo *ai) {
    *it = NULL;
    CHECK((void*)ai == &opened_ai && opened_ai, "query is open");
    if(waits) {waits--; return EAGAIN;}
    if(failrc) return failrc;
    int n = qtype == DNS_T_A ? res4 : res6;
    if(served == n) return ENOENT;
    struct addrinfo *a = vt_malloc(sizeof(struct addrinfo) + sizeof(struct sockaddr_in6));
    memset(a, 0, sizeof(struct addrinfo) + sizeof(struct sockaddr_in6));
    a->ai_addr = (struct sockaddr*)(a + 1);
    if(qtype == DNS_T_A) {
        struct sockaddr_in *s = (void*)a->ai_addr;
        a->ai_family = AF_INET;
        s->sin_family = AF_INET;
        memset(&s->sin_addr, 10 + served, 4);
    } else {
        struct sockaddr_in6 *s = (void*)a->ai_addr;
        a->ai_family = AF_INET6;
        s->sin6_family = AF_INET6;
        memset(&s->sin6_addr, 20 + served, 16);
    }
    served++;
    *it = a;
    return 0;
}
static int k_ai_pollfd(struct dns_addrinfo *ai) {return 31;}
static int evout;
static int k_ai_events(struct dns_addrinfo *ai) {return evout ? DNS_POLLOUT : DNS_POLLIN;}
static void k_ai_close(struct dns_addrinfo *ai) {CHECK((void*)ai == &opened_ai && opened_ai == 1, "closed once"); opened_ai = 0;}
static int k_snprintf(char *b, size_t n, const char *f, ...) {memset(b, 0, n); return 0;}
int dill_fdin(int fd, int64_t dl) {CHECK(fd == 31 && dl == 77 && !evout, "waits for the resolver"); fdclean_due = 1; if(waitrc) {errno = waitrc; return -1;} return 0;}
int dill_fdout(int fd, int64_t dl) {CHECK(fd == 31 && dl == 77 && evout, "waits for the resolver"); fdclean_due = 1; if(waitrc) {errno = waitrc; return -1;} return 0;}
int dill_fdclean(int fd) {CHECK(fd == 31, "resolver's descriptor"); fdclean_due = 0; errno = 0; return 0;}
struct dns_options *dns_opts_(void) {return NULL;}

/* ---- checks ---- */
static void make(struct dill_ipaddr *a, int v6, const uint8_t *b, int port) {
    memset(a, 0, sizeof(*a));
    if(!v6) {
        struct sockaddr_in *s = (void*)a;
        s->sin_family = AF_INET; s->sin_port = htons(port); memcpy(&s->sin_addr, b, 4);
    } else {
        struct sockaddr_in6 *s = (void*)a;
        s->sin6_family = AF_INET6; s->sin6_port = htons(port); memcpy(&s->sin6_addr, b, 16);
    }
}
static void is(const struct dill_ipaddr *a, int v6, const uint8_t *b, int port) {
    int i;
    CHECK(dill_ipaddr_family(a) == (v6 ? AF_INET6 : AF_INET), "family");
    CHECK(dill_ipaddr_port(a) == port, "port");
    CHECK(dill_ipaddr_len(a) == (int)(v6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in)), "length");
    const struct sockaddr *s = dill_ipaddr_sockaddr(a);
    CHECK(s->sa_family == (v6 ? AF_INET6 : AF_INET), "system's address");
    CHECK((v6 ? ((struct sockaddr_in6*)s)->sin6_port : ((struct sockaddr_in*)s)->sin_port) == htons(port), "system's port");
    const uint8_t *x = v6 ? (void*)&((struct sockaddr_in6*)s)->sin6_addr : (void*)&((struct sockaddr_in*)s)->sin_addr;
    for(i = 0; i != (v6 ? 16 : 4); ++i) CHECK(x[i] == b[i], "address");
}
int main(void) {
    struct dill_ipaddr a, b;
    uint8_t x[16], y[16];
    int i, rc, err;
    memset(&a, 0xee, sizeof(a));
    if(OP == 0 || OP == 1) {
        /* Formatting and parsing. */
        nifs = 1;
        ifs[0].ifa_name = "lo";
        int v6 = OP, remote = pick(2);
        int mode = modes[pick(7)];
        int badmode = mode == 99 || mode == -1;
        int port = (int)nd_raw(), badport = port < 0 || port > 65535;
        if(v6) {
            int pat = nd_range(0, 255), k = 0;
            for(i = 0; i != 8; ++i) {
                int z = (pat >> i) & 1;
                if(z) x[2 * i] = x[2 * i + 1] = 0;
                else {
                    k++;
                    x[2 * i] = k & 1 ? 0 : 0x12;
                    x[2 * i + 1] = k == 1 ? 1 + (nd_raw() & 7) : k == 2 ? 0xa0 + (nd_raw() & 7) : 0xff;
                }
            }
        } else for(i = 0; i != 4; ++i) x[i] = mode == 0 && !remote ? nd_u8() : 50 * i;
        make(&b, v6, x, badport ? 0 : port);
        char *s = malloc(DILL_IPADDR_MAXSTRLEN);
        memset(s, 0xee, DILL_IPADDR_MAXSTRLEN);
        CHECK(dill_ipaddr_str(&b, s) == s, "formatted");
        for(i = 0; i != DILL_IPADDR_MAXSTRLEN; ++i) if(!s[i]) break;
        CHECK(i != DILL_IPADDR_MAXSTRLEN, "fits the documented length");
        int other = mode == (v6 ? DILL_IPADDR_IPV4 : DILL_IPADDR_IPV6);
        if(other && remote) return 0;
        rc = remote ? dill_ipaddr_remote(&a, s, port, mode, 77) : dill_ipaddr_local(&a, s, port, mode);
        err = errno;
        CHECK(ifopen == 0, "interfaces released");
        if(badport || badmode) {CHECK(rc == -1 && err == EINVAL, "invalid argument"); WITNESS("invalid argument"); return 0;}
        if(other) {CHECK(rc == -1, "other family"); WITNESS("other family"); return 0;}
        CHECK(rc == 0, "literal");
        is(&a, v6, x, port);
        CHECK(dill_ipaddr_equal(&a, &b, 0) == 1, "equal");
        int p2 = nd_raw() & 0xffff;
        dill_ipaddr_setport(&a, p2);
        is(&a, v6, x, p2);
        CHECK(dill_ipaddr_equal(&a, &b, 1) == 1, "equal but the port");
        CHECK(dill_ipaddr_equal(&a, &b, 0) == (p2 == port), "equal if the port is");
        WITNESS("round trip");
        return 0;
    }
    if(OP == 2) {
        int v1 = pick(2), v2 = pick(2), p1 = nd_raw() & 0xffff, p2 = nd_raw() & 0xffff, same = v1 == v2, ip = (int)nd_raw();
        for(i = 0; i != 16; ++i) {x[i] = nd_u8(); y[i] = nd_u8();}
        make(&a, v1, x, p1);
        make(&b, v2, y, p2);
        /* Unused bytes don't matter. */
        if(!v1 && !v2) {((uint8_t*)&a)[20] = nd_u8();}
        if(v1 && v2) {((struct sockaddr_in6*)&a)->sin6_flowinfo = nd_raw();}
        int eq = same;
        for(i = 0; i != (v1 ? 16 : 4); ++i) eq &= x[i] == y[i];
        if(!ip) eq &= p1 == p2;
        CHECK(!!dill_ipaddr_equal(&a, &b, ip) == eq, "equality");
        CHECK(!!dill_ipaddr_equal(&b, &a, ip) == eq, "equality is symmetric");
        if(eq) WITNESS("equal");
        else WITNESS("different");
        return 0;
    }
    if(OP == 3) {
        /* Any address and names of interfaces. */
        int named = pick(2), mode = modes[pick(7)], port = (int)nd_raw(), n4 = -1, n6 = -1;
        int badmode = mode == 99 || mode == -1, badport = port < 0 || port > 65535;
        nifs = 1 + pick(3);
        static const char *names[] = {"e0", "e00", "e1"};
        for(i = 0; i != nifs && named; ++i) {
            int k = pick(5);
            ifs[i].ifa_next = i + 1 < nifs ? &ifs[i + 1] : NULL;
            ifs[i].ifa_name = k == 2 ? "e00" : "e0";
            ifs[i].ifa_addr = k == 3 ? NULL : (struct sockaddr*)&ifa[i];
            int v6 = k == 1, j;
            memset(&ifa[i], 0, sizeof(ifa[i]));
            for(j = 0; j != 16; ++j) y[j] = 16 * i + j;
            make((struct dill_ipaddr*)&a, v6, y, 0);
            memcpy(&ifa[i], &a, sizeof(ifa[i]));
            if(k == 4) ifa[i].sin6_family = AF_PACKET;
            if(k == 0 && n4 < 0) n4 = i;
            if(k == 1 && n6 < 0) n6 = i;
        }
        memset(&a, 0xee, sizeof(a));
        rc = dill_ipaddr_local(&a, named ? "e0" : NULL, port, mode);
        err = errno;
        CHECK(ifopen == 0, "interfaces released");
        if(badport || badmode) {CHECK(rc == -1 && err == EINVAL, "invalid argument"); WITNESS("invalid argument"); return 0;}
        if(!named) {
            int v6 = mode == DILL_IPADDR_IPV6 || mode == DILL_IPADDR_PREF_IPV6;
            memset(x, 0, 16);
            CHECK(rc == 0, "any address");
            is(&a, v6, x, port);
            WITNESS("any address");
            return 0;
        }
        int sel = -1;
        if(mode == DILL_IPADDR_IPV4) sel = n4;
        else if(mode == DILL_IPADDR_IPV6) sel = n6;
        else if(mode == DILL_IPADDR_PREF_IPV6) sel = n6 >= 0 ? n6 : n4;
        else sel = n4 >= 0 ? n4 : n6;
        if(sel < 0) {CHECK(rc == -1 && err == ENODEV, "no such interface"); WITNESS("no such interface"); return 0;}
        CHECK(rc == 0, "address of the interface");
        for(i = 0; i != 16; ++i) x[i] = 16 * sel + i;
        is(&a, sel == n6 && sel != n4, x, port);
        WITNESS("address of the interface");
        return 0;
    }
    if(OP == 4) {
        /* Resolution of names. */
        struct dill_ipaddr as[5];
        int n = pick(5) - 1, mode = modes[pick(7)], port = (int)nd_raw();
        res4 = pick(4);
        res6 = pick(4);
        waits = pick(2);
        evout = waits && pick(2);
        switch(pick(6)) {
        case 0: failrc = DNS_ENOBUFS; break;
        case 1: failrc = ENETUNREACH; break;
        case 2: waitrc = ETIMEDOUT; break;
        case 3: emfile = EMFILE; break;
        }
        int bad = n <= 0 || mode == 99 || mode == -1 || port < 0 || port > 65535;
        if(bad && (res4 || res6 || waits)) return 0;
        int single = n == 1 && !bad && pick(2);
        memset(as, 0xee, sizeof(as));
        rc = single ? dill_ipaddr_remote(as, "nm", port, mode, 77) : dill_ipaddr_remotes(as, n, "nm", port, mode, 77);
        err = errno;
        CHECK(!opened_res && !opened_ai && vt_live == 0 && !fdclean_due, "resolver is released");
        if(bad) {CHECK(rc == -1 && err == EINVAL, "invalid argument"); WITNESS("invalid argument"); return 0;}
        int waited = waits == 0;
        if(emfile) {CHECK(rc == -1 && err == EMFILE, "no descriptor"); WITNESS("failed"); return 0;}
        if(waitrc && evout + 1 && rc == -1 && err == ETIMEDOUT) {WITNESS("timed out"); return 0;}
        if(failrc == ENETUNREACH) {CHECK(rc == -1 && err == ENETUNREACH, "system error"); WITNESS("failed"); return 0;}
        if(failrc) res4 = res6 = 0;
        int n4 = mode == DILL_IPADDR_IPV6 ? 0 : res4, n6 = mode == DILL_IPADDR_IPV4 ? 0 : res6;
        int first6 = mode == DILL_IPADDR_PREF_IPV6 || mode == DILL_IPADDR_IPV6;
        int tot = n4 + n6 < n ? n4 + n6 : n;
        if(single) {
            if(!tot) {CHECK(rc == -1 && err == EADDRNOTAVAIL, "no address"); WITNESS("no address"); return 0;}
            CHECK(rc == 0, "address");
        } else CHECK(rc == tot, "number of addresses");
        for(i = 0; i != tot; ++i) {
            int v6 = first6 ? i < n6 : i >= n4;
            memset(x, v6 ? 20 + (first6 ? i : i - n4) : 10 + (first6 ? i - n6 : i), 16);
            is(&as[i], v6, x, port);
        }
        for(i = 0; i != (int)sizeof(as[0]); ++i) if(n < 5 && n > 0) CHECK(((uint8_t*)&as[n])[i] == 0xee, "writes no more than asked for");
        WITNESS("resolved");
        return 0;
    }
    /* Text that is nearly an address. */
    char s[12];
    memset(s, 0, sizeof(s));
    int n = BASE;
    static const char base[8][10] = {"1.2.3.4", "0.0.0.0", "255.1.1", "1.1.1.256", "::1", "1::2:3", "::", "a.b"};
    strcpy(s, base[n]);
    static const char some[] = "0aG:.%f/";
    if(BASE < 4 || BASE == 7) s[pick(strlen(s) + 1)] = nd_u8();
    else s[pick(strlen(s) + 1)] = some[pick(9)];
    s[11] = 0;
    int mode = modes[pick(5)], ok4, ok6;
    ok4 = inet_pton(AF_INET, s, x) == 1;
    ok6 = inet_pton(AF_INET6, s, y) == 1;
    if(mode == DILL_IPADDR_IPV4) ok6 = 0;
    if(mode == DILL_IPADDR_IPV6) ok4 = 0;
    nifs = 1;
    ifs[0].ifa_name = "lo";
    rc = dill_ipaddr_local(&a, s, 80, mode);
    if(ok4 || ok6) {
        CHECK(rc == 0, "literal");
        is(&a, ok6, ok6 ? y : x, 80);
        WITNESS("literal");
    } else {
        CHECK(rc == -1 && errno == ENODEV, "not a literal");
        WITNESS("not a literal");
    }
    return 0;
}
