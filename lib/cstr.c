/* C library string functions for the symbolic executor (natively libc's). */
#ifdef VT_SYMX
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
void *memcpy(void *d, const void *s, size_t n);
void *memset(void *d, int c, size_t n);
#include <sys/socket.h>
typedef unsigned char u8;
struct cmsghdr *__cmsg_nxthdr(struct msghdr *m, struct cmsghdr *c) {
    if(c->cmsg_len < sizeof(struct cmsghdr)) return NULL;
    unsigned char *n = (unsigned char*)c + CMSG_ALIGN(c->cmsg_len), *e = (unsigned char*)m->msg_control + m->msg_controllen;
    if(n + sizeof(struct cmsghdr) > e || n + CMSG_ALIGN(((struct cmsghdr*)n)->cmsg_len) > e) return NULL;
    return (struct cmsghdr*)n;
}
size_t strlen(const char *s) {size_t n = 0; while(s[n]) n++; return n;}
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for(; i != n && s[i]; ++i) d[i] = s[i];
    for(; i != n; ++i) d[i] = 0;
    return d;
}
char *strcpy(char *d, const char *s) {size_t i = 0; do d[i] = s[i]; while(s[i++]); return d;}
int strcmp(const char *a, const char *b) {
    while(*a && *a == *b) {a++; b++;}
    return (u8)*a - (u8)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
    for(; n; --n, ++a, ++b) {
        if(*a != *b) return (u8)*a - (u8)*b;
        if(!*a) return 0;
    }
    return 0;
}
static int lower(u8 c) {return c >= 'A' && c <= 'Z' ? c + 32 : c;}
int strcasecmp(const char *a, const char *b) {
    while(*a && lower(*a) == lower(*b)) {a++; b++;}
    return lower(*a) - lower(*b);
}
int strncasecmp(const char *a, const char *b, size_t n) {
    for(; n; --n, ++a, ++b) {
        if(lower(*a) != lower(*b)) return lower(*a) - lower(*b);
        if(!*a) return 0;
    }
    return 0;
}
int memcmp(const void *a, const void *b, size_t n) {
    const u8 *x = a, *y = b;
    size_t i;
    for(i = 0; i != n; ++i) if(x[i] != y[i]) return x[i] - y[i];
    return 0;
}
void *memchr(const void *s, int c, size_t n) {
    const u8 *x = s;
    for(; n; --n, ++x) if(*x == (u8)c) return (void*)x;
    return NULL;
}
char *strchr(const char *s, int c) {
    for(;; ++s) {
        if(*s == (char)c) return (char*)s;
        if(!*s) return NULL;
    }
}
char *strrchr(const char *s, int c) {
    const char *r = NULL;
    for(;; ++s) {
        if(*s == (char)c) r = s;
        if(!*s) return (char*)r;
    }
}
char *strstr(const char *h, const char *n) {
    size_t i;
    for(;; ++h) {
        for(i = 0; n[i] && h[i] == n[i]; ++i);
        if(!n[i]) return (char*)h;
        if(!*h) return NULL;
    }
}
char *strpbrk(const char *s, const char *r) {
    for(; *s; ++s) {
        const char *p;
        int hit = 0;
        for(p = r; *p; ++p) hit |= *s == *p;
        if(hit) return (char*)s;
    }
    return NULL;
}
int isspace(int c) {return c == ' ' || (c >= 9 && c <= 13);}
int isdigit(int c) {return c >= '0' && c <= '9';}
int isprint(int c) {return c >= 32 && c < 127;}
int tolower(int c) {return c >= 'A' && c <= 'Z' ? c + 32 : c;}
int toupper(int c) {return c >= 'a' && c <= 'z' ? c - 32 : c;}
/* Address conversion as in glibc. */
static int pton4(const char *s, u8 *dst) {
    u8 tmp[4] = {0, 0, 0, 0};
    int octets = 0, saw = 0, i = 0, ch;
    while((ch = (u8)*s++) != 0) {
        if(ch >= '0' && ch <= '9') {
            unsigned v = tmp[i] * 10u + (unsigned)(ch - '0');
            if(saw && tmp[i] == 0) return 0;
            if(v > 255) return 0;
            tmp[i] = (u8)v;
            if(!saw) {if(++octets > 4) return 0; saw = 1;}
        } else if(ch == '.' && saw) {
            if(octets == 4) return 0;
            tmp[++i] = 0;
            saw = 0;
        } else return 0;
    }
    if(octets < 4) return 0;
    memcpy(dst, tmp, 4);
    return 1;
}
static int pton6(const char *s, u8 *dst) {
    u8 tmp[16];
    int tp = 0, colon = -1, seen = 0, ch, i;
    unsigned val = 0;
    memset(tmp, 0, sizeof(tmp));
    if(*s == ':' && *++s != ':') return 0;
    const char *curtok = s;
    while((ch = (u8)*s++) != 0) {
        int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 :
            ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
        if(d >= 0) {
            if(seen == 4) return 0;
            val = (val << 4) | (unsigned)d;
            if(val > 0xffff) return 0;
            seen++;
            continue;
        }
        if(ch == ':') {
            curtok = s;
            if(seen == 0) {
                if(colon >= 0) return 0;
                colon = tp;
                continue;
            } else if(*s == 0) return 0;
            if(tp + 2 > 16) return 0;
            tmp[tp++] = (u8)(val >> 8);
            tmp[tp++] = (u8)val;
            seen = 0;
            val = 0;
            continue;
        }
        if(ch == '.' && tp + 4 <= 16 && pton4(curtok, tmp + tp) > 0) {
            tp += 4;
            seen = 0;
            break;
        }
        return 0;
    }
    if(seen > 0) {
        if(tp + 2 > 16) return 0;
        tmp[tp++] = (u8)(val >> 8);
        tmp[tp++] = (u8)val;
    }
    if(colon >= 0) {
        if(tp == 16) return 0;
        int n = tp - colon;
        for(i = 1; i <= n; ++i) {tmp[16 - i] = tmp[colon + n - i]; tmp[colon + n - i] = 0;}
        tp = 16;
    }
    if(tp != 16) return 0;
    memcpy(dst, tmp, 16);
    return 1;
}
int inet_pton(int af, const char *s, void *dst) {
    if(af == 2) return pton4(s, dst);
    if(af == 10) return pton6(s, dst);
    errno = EAFNOSUPPORT;
    return -1;
}
static char *putnum(char *p, unsigned v, unsigned base) {
    unsigned d = 1;
    while(v / d >= base) d *= base;
    for(; d; d /= base) *p++ = "0123456789abcdef"[v / d % base];
    return p;
}
static char *ntop4(const u8 *s, char *p) {
    int i;
    for(i = 0; i != 4; ++i) {if(i) *p++ = '.'; p = putnum(p, s[i], 10);}
    return p;
}
const char *inet_ntop(int af, const void *src, char *dst, unsigned sz) {
    char tmp[64], *p = tmp;
    const u8 *s = src;
    if(af == 2) p = ntop4(s, p);
    else if(af == 10) {
        unsigned w[8];
        int i, base = -1, len = 0, cb = -1, cl = 0;
        for(i = 0; i != 8; ++i) w[i] = (unsigned)(s[2 * i] << 8 | s[2 * i + 1]);
        for(i = 0; i != 8; ++i) {
            if(w[i] == 0) {
                if(cb < 0) {cb = i; cl = 1;} else cl++;
            } else if(cb >= 0) {
                if(base < 0 || cl > len) {base = cb; len = cl;}
                cb = -1;
            }
        }
        if(cb >= 0 && (base < 0 || cl > len)) {base = cb; len = cl;}
        if(base >= 0 && len < 2) base = -1;
        for(i = 0; i != 8; ++i) {
            if(base >= 0 && i >= base && i < base + len) {
                if(i == base) *p++ = ':';
                continue;
            }
            if(i != 0) *p++ = ':';
            if(i == 6 && base == 0 && (len == 6 || (len == 5 && w[5] == 0xffff))) {
                p = ntop4(s + 12, p);
                break;
            }
            p = putnum(p, w[i], 16);
        }
        if(base >= 0 && base + len == 8) *p++ = ':';
    } else {errno = EAFNOSUPPORT; return NULL;}
    *p++ = 0;
    if((unsigned)(p - tmp) > sz) {errno = ENOSPC; return NULL;}
    memcpy(dst, tmp, (size_t)(p - tmp));
    return dst;
}
#endif
