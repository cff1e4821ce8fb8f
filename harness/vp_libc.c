/* C library models used only in the symbolic encoding (never in replays).
 * Plain C, byte at a time, so that concrete strings stay concrete in symex. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

/* The loops of these models are not instrumented; one assertion per call covers all the memory touched. */
#define RD(p, n) __CPROVER_assert((n) == 0 || __CPROVER_r_ok(p, n), "memory read by a library call is within its object")
#define WR(p, n) __CPROVER_assert((n) == 0 || __CPROVER_w_ok(p, n), "memory written by a library call is within its object")
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
/* Characters at these offsets of their object are, by an assertion, neither NUL nor delimiters and, in numbers, digits with a first one other than 0
 * (spares the encoder the cases that a harness has excluded) */
unsigned long vp_opaque_lo, vp_opaque_hi;
#define OPQ(p) (vp_opaque_hi != 0 && __CPROVER_POINTER_OFFSET(p) >= vp_opaque_lo && __CPROVER_POINTER_OFFSET(p) < vp_opaque_hi)
#define OPQ_IS(c) (__CPROVER_assert(c, "encoding: opaque characters"), __CPROVER_assume(c)) /* not do {} while(0), which would be a loop */
size_t strlen(const char *s) { size_t n = 0; for(;;) { if(OPQ(s + n)) OPQ_IS(s[n] != 0); else if(s[n] == 0) break; n++; } RD(s, n + 1); return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while(n < m && s[n] != 0) n++; RD(s, n < m ? n + 1 : n); return n; }
int strcmp(const char *a, const char *b) {
    size_t n = 0;
    for(;;) {
        unsigned char x = a[n], y = b[n];
        if(x != y || x == 0) { RD(a, n + 1); RD(b, n + 1); return x == y ? 0 : x < y ? -1 : 1; }
        n++;
    }
}
int strncmp(const char *a, const char *b, size_t len) {
    for(size_t n = 0; n < len; n++) {
        unsigned char x = a[n], y = b[n];
        if(x != y || x == 0) { RD(a, n + 1); RD(b, n + 1); return x == y ? 0 : x < y ? -1 : 1; }
    }
    return 0;
}
static int vp_lower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) {
    size_t n = 0;
    for(;;) {
        int x = vp_lower((unsigned char)a[n]), y = vp_lower((unsigned char)b[n]);
        if(x != y || x == 0) { RD(a, n + 1); RD(b, n + 1); return x == y ? 0 : x < y ? -1 : 1; }
        n++;
    }
}
int strncasecmp(const char *a, const char *b, size_t len) {
    for(size_t n = 0; n < len; n++) {
        int x = vp_lower((unsigned char)a[n]), y = vp_lower((unsigned char)b[n]);
        if(x != y || x == 0) { RD(a, n + 1); RD(b, n + 1); return x == y ? 0 : x < y ? -1 : 1; }
    }
    return 0;
}
char *strcpy(char *d, const char *s) {
    size_t n = 0;
    for(;;) { char c = s[n]; d[n] = c; if(c == 0) { RD(s, n + 1); WR(d, n + 1); return d; } n++; }
}
char *strncpy(char *d, const char *s, size_t len) {
    size_t n = 0;
    for(; n < len && s[n] != 0; n++) d[n] = s[n];
    RD(s, n < len ? n + 1 : n); WR(d, len);
    for(; n < len; n++) d[n] = 0;
    return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t len) {
    size_t o = strlen(d), n = 0;
    for(; n < len && s[n] != 0; n++) d[o + n] = s[n];
    RD(s, n < len ? n + 1 : n); WR(d + o, n + 1);
    d[o + n] = 0;
    return d;
}
char *strchr(const char *s, int c) {
    for(size_t n = 0;; n++) if(s[n] == (char)c || s[n] == 0) { RD(s, n + 1); return s[n] == (char)c ? (char *)s + n : NULL; }
}
char *strrchr(const char *s, int c) {
    char *r = NULL;
    for(size_t n = 0;; n++) { if(s[n] == (char)c) r = (char *)s + n; if(s[n] == 0) { RD(s, n + 1); return r; } }
}
void *malloc(size_t);
void free(void *);
void *__CPROVER_allocate(__CPROVER_size_t size, __CPROVER_bool zero);
/* set by harnesses in which no further memory is needed (spares the encoder allocations of symbolic size) */
int vp_noalloc;
#define ALLOC_CHECK() do { if(vp_noalloc) { __CPROVER_assert(0, "encoding: no allocation"); __CPROVER_assume(0); } } while(0)
void *vp_alloc(size_t n, int zero) {
    ALLOC_CHECK();
    if(zero) return __CPROVER_allocate(n, 1);
    return __CPROVER_allocate(n, 0);
}
void *malloc(size_t n) { ALLOC_CHECK(); return __CPROVER_allocate(n, 0); }
void *calloc(size_t a, size_t b) { ALLOC_CHECK(); return __CPROVER_allocate(a * b, 1); }
/* server/func.c: zeroing allocator (its own body is checked by a separate harness) */
void *xmalloc(size_t n) { ALLOC_CHECK(); return __CPROVER_allocate(n, 1); }
void *xcalloc(size_t a, size_t b) { ALLOC_CHECK(); return __CPROVER_allocate(a * b, 1); }
char *strdup(const char *s) {
    size_t n = strlen(s);
    char *d = malloc(n + 1);
    if(d == NULL) return NULL;
    for(size_t i = 0; i <= n; i++) d[i] = s[i];
    return d;
}
static int vp_in(char c, const char *set) { for(; *set; set++) if(*set == c) return 1; return 0; }
char *strtok_r(char *s, const char *delim, char **save) {
    char *t, *s0;
    if(s == NULL) s = *save;
    s0 = s;
    while(!OPQ(s) && *s != 0 && vp_in(*s, delim)) s++;
    if(!OPQ(s) && *s == 0) { RD(s0, s - s0 + 1); *save = s; return NULL; }
    t = s;
    for(;;) { if(OPQ(s)) OPQ_IS(*s != 0 && !vp_in(*s, delim)); else if(*s == 0 || vp_in(*s, delim)) break; s++; }
    RD(s0, s - s0 + 1);
    if(*s != 0) { WR(s, 1); *s = 0; s++; }
    *save = s;
    return t;
}
static char *vp_strtok_save;
char *strtok(char *s, const char *delim) { return strtok_r(s, delim, &vp_strtok_save); }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int tolower(int c) { return vp_lower(c); }
/* glibc's ctype macros go through this table */
const unsigned short **__ctype_b_loc(void) {
    static unsigned short t[384]; static const unsigned short *p; static int init;
    if(!init) {
        init = 1;
        for(int c = 0; c < 128; c++) {
            unsigned short v = 0;
            if(c >= 'A' && c <= 'Z') v |= 0x100 | 0x400 | 8;
            if(c >= 'a' && c <= 'z') v |= 0x200 | 0x400 | 8;
            if(c >= '0' && c <= '9') v |= 0x800 | 0x1000 | 8;
            if((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) v |= 0x1000;
            if(c == ' ' || (c >= 9 && c <= 13)) v |= 0x2000;
            t[128 + c] = v;
        }
        p = t + 128;
    }
    return &p;
}
#include <errno.h>
static int vp_errno;
int *__errno_location(void) { return &vp_errno; }

/* The loops are bounded by the space left in the objects (a constant for symex) as well as by n. */
static size_t vp_lim(const void *d, size_t n) {
    RD(d, n);
    return __CPROVER_OBJECT_SIZE(d) - __CPROVER_POINTER_OFFSET(d);
}
void *vp_memcpy_bytes(void *d, const void *s, size_t n, size_t arr) {
    size_t l1 = vp_lim(d, n), l2 = vp_lim(s, n);
    size_t o1 = __CPROVER_OBJECT_SIZE(d), o2 = __CPROVER_OBJECT_SIZE(s);
    __CPROVER_assert(n <= arr, "memory region of a library call is within its array");
    for(size_t i = 0; i < arr && i < l1 && i < l2 && i < o1 && i < o2 && i < n; i++) ((unsigned char *)d)[i] = ((const unsigned char *)s)[i];
    return d;
}
void *vp_memmove_bytes(void *d, const void *s, size_t n, size_t arr) {
    unsigned char *dd = d; const unsigned char *ss = s;
    size_t l1 = vp_lim(d, n), l2 = vp_lim(s, n);
    size_t o1 = __CPROVER_OBJECT_SIZE(d), o2 = __CPROVER_OBJECT_SIZE(s);
    __CPROVER_assert(n <= arr, "memory region of a library call is within its array");
    if(o2 < o1) o1 = o2;
    if(__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s))
        for(size_t i = o1; i > 0; i--) { if(i <= n && i <= l1 && i <= l2) dd[i-1] = ss[i-1]; }
    else
        for(size_t i = 0; i < arr && i < o1 && i < l1 && i < l2 && i < n; i++) dd[i] = ss[i];
    return d;
}
void *memcpy(void *d, const void *s, size_t n) { return vp_memcpy_bytes(d, s, n, -1); }
void *memmove(void *d, const void *s, size_t n) { return vp_memmove_bytes(d, s, n, -1); }
void *vp_memset(void *d, int c, size_t n, size_t arr) {
    size_t l1 = vp_lim(d, n), o1 = __CPROVER_OBJECT_SIZE(d);
    __CPROVER_assert(n <= arr, "memory region of a library call is within its array");
    for(size_t i = 0; i < arr && i < l1 && i < o1 && i < n; i++) ((unsigned char *)d)[i] = (unsigned char)c;
    return d;
}
void *memset(void *d, int c, size_t n) { return vp_memset(d, c, n, -1); }
void bzero(void *d, size_t n) { vp_memset(d, 0, n, -1); }
int memcmp(const void *a, const void *b, size_t n) {
    RD(a, n); RD(b, n);
    for(size_t i = 0; i < n; i++) {
        unsigned char x = ((unsigned char *)a)[i], y = ((unsigned char *)b)[i];
        if(x != y) return x < y ? -1 : 1;
    }
    return 0;
}
#pragma CPROVER check pop
/* decimal / octal / hex, saturating as the C library does */
long strtol(const char *s, char **end, int base) {
    const char *p = s; int neg = 0, any = 0; unsigned long v = 0, lim; int ovf = 0;
    if(OPQ(p)) { OPQ_IS(*p > '0' && *p <= '9'); base = 10; goto digits; }
    while(isspace((unsigned char)*p)) p++;
    if(*p == '-') { neg = 1; p++; } else if(*p == '+') p++;
    if((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    else if(base == 0) base = (*p == '0') ? 8 : 10;
digits:
    lim = neg ? (unsigned long)1 << 63 : ((unsigned long)1 << 63) - 1;
    for(;;) {
        int d; char c = *p;
        if(OPQ(p)) { OPQ_IS(c >= '0' && c <= '9'); d = c - '0'; }
        else if(c >= '0' && c <= '9') d = c - '0';
        else if(c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if(!OPQ(p) && d >= base) break;
        any = 1;
        if(v > (lim - d) / base) ovf = 1; else v = v * base + d;
        p++;
    }
    if(end) *end = (char *)(any ? p : s);
    if(ovf) { vp_errno = ERANGE; v = lim; }
    return neg ? (long)(0 - v) : (long)v;
}
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
long long __isoc23_strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
long atol(const char *s) { return strtol(s, NULL, 10); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
static size_t vp_putd(char *o, size_t n, size_t cap, long v, int width, int zero, int uns) {
    char t[24]; int k = 0, neg = 0; unsigned long u;
    if(!uns && v < 0) { neg = 1; u = 0 - (unsigned long)v; } else u = (unsigned long)v;
    do { t[k++] = '0' + (char)(u % 10); u /= 10; } while(u);
    while(k + neg < width && k < 20) t[k++] = zero ? '0' : ' ';
    if(neg) t[k++] = '-';
    while(k > 0) { k--; if(n < cap) o[n] = t[k]; n++; }
    return n;
}
/* %d %u %s %c %0Nd only */
int vsnprintf(char *o, size_t cap1, const char *f, va_list ap) {
    size_t n = 0, cap = cap1 ? cap1 - 1 : 0;
    for(; *f; f++) {
        int width = 0, zero = 0;
        if(*f != '%') { if(n < cap) o[n] = *f; n++; continue; }
        f++;
        if(*f == '0') { zero = 1; f++; }
        while(*f >= '0' && *f <= '9') { width = width * 10 + (*f - '0'); f++; }
        while(*f == 'l') f++;
        if(*f == 'd') n = vp_putd(o, n, cap, va_arg(ap, int), width, zero, 0);
        else if(*f == 'u') n = vp_putd(o, n, cap, va_arg(ap, unsigned int), width, zero, 1);
        else if(*f == 's') { const char *s = va_arg(ap, char *); for(; *s; s++) { if(n < cap) o[n] = *s; n++; } }
        else if(*f == 'c') { int c = va_arg(ap, int); if(n < cap) o[n] = (char)c; n++; }
        else { if(n < cap) o[n] = *f; n++; }
    }
    if(cap1) o[n < cap ? n : cap] = 0;
    return (int)n;
}
int snprintf(char *o, size_t cap, const char *f, ...) {
    va_list ap; int r; va_start(ap, f); r = vsnprintf(o, cap, f, ap); va_end(ap); return r;
}
int sprintf(char *o, const char *f, ...) {
    va_list ap; int r; va_start(ap, f); r = vsnprintf(o, (size_t)1 << 30, f, ap); va_end(ap); return r;
}
int printf(const char *f, ...) { return 0; }
