/* What a program needs from the C library, for systems this sandbox has no library for.  Linux on a 32-bit x86. */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>

static int nm_errno;
int* __errno_location(void) { return &nm_errno; }
static int32_t nm_call(int32_t n, int32_t a, int32_t b, int32_t c, int32_t d, int32_t e)
{
    int32_t r;
    __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
    return r;
}
long nw_read(void* p, size_t n) { return nm_call(3, 0, (int32_t) p, (int32_t) n, 0, 0); }
long nw_write(const void* p, size_t n) { return nm_call(4, 1, (int32_t) p, (int32_t) n, 0, 0); }
void nw_exit(int rc) { for(;;) nm_call(252, rc, 0, 0, 0, 0); }
/* old mmap(): the arguments in a block, the address is given back (or -1 .. -4095) */
void* nw_map(size_t n)
{
    uint32_t a[6]; uint32_t r;
    a[0] = 0; a[1] = n; a[2] = 3; a[3] = 0x22; a[4] = (uint32_t) -1; a[5] = 0;
    r = (uint32_t) nm_call(90, (int32_t) a, 0, 0, 0, 0);
    return r > 0xfffff000u ? NULL : (void*) r;
}
int nw_unmap(void* p, size_t n) { return nm_call(91, (int32_t) p, (int32_t) n, 0, 0, 0); }
void* nw_remap(void* q, size_t n, size_t to) { uint32_t r = (uint32_t) nm_call(163, (int32_t) q, (int32_t) n, (int32_t) to, 1, 0); return r > 0xfffff000u ? NULL : (void*) r; }
int nw_protect(void* p, size_t n, int prot) { return nm_call(125, (int32_t) p, (int32_t) n, prot, 0, 0); }

#define KEEP __attribute__((used, noinline, optimize("no-tree-loop-distribute-patterns")))
KEEP void* memcpy(void* d, const void* s, size_t n) { void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
KEEP void* memset(void* d, int c, size_t n) { void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
KEEP void* memmove(void* d, const void* s, size_t n)
{
    unsigned char* a = d; const unsigned char* b = s;
    if((uintptr_t) a - (uintptr_t) b >= n) return memcpy(d, s, n);
    while(n > 0) { n--; a[n] = b[n]; }
    return d;
}
KEEP int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = x, *b = y; size_t i; for(i = 0; i < n; i++) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
KEEP void* memchr(const void* x, int c, size_t n) { const unsigned char* a = x; size_t i; for(i = 0; i < n; i++) if(a[i] == (unsigned char) c) return (void*) (a + i); return NULL; }
KEEP size_t strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
KEEP size_t strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
KEEP int strcmp(const char* a, const char* b) { while(*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
KEEP int strncmp(const char* a, const char* b, size_t n) { while(n > 0 && *a && *a == *b) { a++; b++; n--; } return n == 0 ? 0 : (unsigned char) *a - (unsigned char) *b; }
KEEP char* strchr(const char* s, int c) { for(;; s++) { if(*s == (char) c) return (char*) s; if(!*s) return NULL; } }
KEEP char* strchrnul(const char* s, int c) { while(*s && *s != (char) c) s++; return (char*) s; }
KEEP char* strrchr(const char* s, int c) { const char* r = NULL; for(;; s++) { if(*s == (char) c) r = s; if(!*s) return (char*) r; } }
KEEP char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
KEEP char* stpcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
KEEP char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
KEEP char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
KEEP char* strncat(char* d, const char* s, size_t n) { size_t l = strlen(d), k = strnlen(s, n); memcpy(d + l, s, k); d[l + k] = 0; return d; }
KEEP size_t strspn(const char* s, const char* a) { size_t n = 0; while(s[n] && strchr(a, s[n])) n++; return n; }
KEEP size_t strcspn(const char* s, const char* a) { size_t n = 0; while(s[n] && !strchr(a, s[n])) n++; return n; }
KEEP char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*) s : NULL; }
KEEP char* strstr(const char* s, const char* f) { size_t n = strlen(f); for(;; s++) { if(strncmp(s, f, n) == 0) return (char*) s; if(!*s) return NULL; } }
KEEP void* mempcpy(void* d, const void* s, size_t n) { return (char*) memcpy(d, s, n) + n; }
KEEP int isdigit(int c) { return c >= '0' && c <= '9'; }
KEEP int islower(int c) { return c >= 'a' && c <= 'z'; }
KEEP int isupper(int c) { return c >= 'A' && c <= 'Z'; }
KEEP int isalpha(int c) { return islower(c) || isupper(c); }
KEEP int isalnum(int c) { return isalpha(c) || isdigit(c); }
KEEP int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
KEEP int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
KEEP int tolower(int c) { return isupper(c) ? c + 32 : c; }
KEEP int toupper(int c) { return islower(c) ? c - 32 : c; }
KEEP int abs(int x) { return x < 0 ? -x : x; }
KEEP long labs(long x) { return x < 0 ? -x : x; }
KEEP void abort(void) { nw_exit(134); for(;;) { } }
KEEP void exit(int rc) { nw_exit(rc); for(;;) { } }
KEEP void __assert_fail(const char* e, const char* f, unsigned l, const char* g) { (void) f; (void) l; (void) g; nw_write(e, strlen(e)); nw_exit(134); for(;;) { } }
KEEP unsigned long long strtoull(const char* s, char** end, int base)
{
    const char* p = s; const char* start; int neg = 0, over = 0; unsigned long long v = 0;
    while(isspace((unsigned char) *p)) p++;
    if(*p == '+' || *p == '-') neg = *p++ == '-';
    if((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char) p[2])) { p += 2; base = 16; }
    if(base == 0) base = *p == '0' ? 8 : 10;
    for(start = p;; p++) {
        int d = isdigit((unsigned char) *p) ? *p - '0' : isalpha((unsigned char) *p) ? tolower(*p) - 'a' + 10 : 99;
        if(d >= base) break;
        if(v > (ULLONG_MAX - (unsigned) d) / (unsigned) base) over = 1;
        v = v * (unsigned) base + (unsigned) d;
    }
    if(end) *end = (char*) (p == start ? s : p);
    if(over) { nm_errno = ERANGE; return ULLONG_MAX; }
    return neg ? 0 - v : v;
}
KEEP long long strtoll(const char* s, char** end, int base)
{
    const char* p = s; int neg, e = nm_errno; unsigned long long v;
    while(isspace((unsigned char) *p)) p++;
    neg = *p == '-';
    nm_errno = 0;
    v = strtoull(neg ? p + 1 : p, end, base);
    if(end && neg && *end == p + 1) *end = (char*) s;
    if(nm_errno == ERANGE || v > (unsigned long long) LLONG_MAX + (unsigned) neg) { nm_errno = ERANGE; return neg ? LLONG_MIN : LLONG_MAX; }
    nm_errno = e;
    return neg ? (long long) (0 - v) : (long long) v;
}
KEEP unsigned long strtoul(const char* s, char** end, int base)
{
    unsigned long long v; const char* p = s;
    while(isspace((unsigned char) *p)) p++;
    v = strtoull(s, end, base);
    if(*p == '-') { if(0 - v > ULONG_MAX) { nm_errno = ERANGE; return ULONG_MAX; } return (unsigned long) v; }
    if(v > ULONG_MAX) { nm_errno = ERANGE; return ULONG_MAX; }
    return (unsigned long) v;
}
KEEP long strtol(const char* s, char** end, int base)
{
    long long v = strtoll(s, end, base);
    if(v > LONG_MAX) { nm_errno = ERANGE; return LONG_MAX; }
    if(v < LONG_MIN) { nm_errno = ERANGE; return LONG_MIN; }
    return (long) v;
}
KEEP int atoi(const char* s) { return (int) strtol(s, NULL, 10); }
KEEP long atol(const char* s) { return strtol(s, NULL, 10); }
KEEP long long atoll(const char* s) { return strtoll(s, NULL, 10); }
KEEP void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    char* b = base; size_t i, j, k;
    for(i = 1; i < n; i++)
        for(j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--)
            for(k = 0; k < w; k++) { char t = b[j * w + k]; b[j * w + k] = b[(j - 1) * w + k]; b[(j - 1) * w + k] = t; }
}
KEEP void* bsearch(const void* key, const void* base, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    while(n > 0) { const char* m = (const char*) base + n / 2 * w; int c = cmp(key, m); if(c == 0) return (void*) m; if(c > 0) { base = m + w; n -= n / 2 + 1; } else n /= 2; }
    return NULL;
}
/* only what names options, numbers and characters: %s %.*s %c %d %i %u %x %zu %lu %ld %% with a minus, a zero and a width */
#include <stdarg.h>
KEEP int vsnprintf(char* out, size_t room, const char* f, va_list ap)
{
    size_t n = 0;
#define PUT(c) do { if(n + 1 < room) out[n] = (char) (c); n++; } while(0)
    for(; *f; f++) {
        int width = 0, prec = -1, left = 0, zero = 0, lng = 0; char t[24]; const char* s = t; size_t len = 0;
        if(*f != '%') { PUT(*f); continue; }
        for(f++; *f == '-' || *f == '0'; f++) { if(*f == '-') left = 1; else zero = 1; }
        if(*f == '*') { width = va_arg(ap, int); f++; } else while(isdigit((unsigned char) *f)) width = width * 10 + *f++ - '0';
        if(*f == '.') { f++; prec = 0; if(*f == '*') { prec = va_arg(ap, int); f++; } else while(isdigit((unsigned char) *f)) prec = prec * 10 + *f++ - '0'; }
        while(*f == 'l' || *f == 'z' || *f == 'h') { if(*f == 'l') lng++; f++; }
        switch(*f) {
            case 's': s = va_arg(ap, const char*); len = prec >= 0 ? strnlen(s, (size_t) prec) : strlen(s); break;
            case 'c': t[0] = (char) va_arg(ap, int); len = 1; break;
            case '%': t[0] = '%'; len = 1; break;
            default: {
                unsigned long long v; int neg = 0; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; char* p = t + 24;
                if(*f == 'd' || *f == 'i') { long long x = lng > 1 ? va_arg(ap, long long) : va_arg(ap, int); neg = x < 0; v = neg ? 0 - (unsigned long long) x : (unsigned long long) x; }
                else v = lng > 1 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
                do { *--p = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; } while(v);
                if(neg) *--p = '-';
                s = p; len = (size_t) (t + 24 - p); break;
            }
        }
        { int pad = width > (int) len ? width - (int) len : 0; size_t i; if(!left) while(pad > 0) { PUT(zero ? '0' : ' '); pad--; } for(i = 0; i < len; i++) PUT(s[i]); while(pad > 0) { PUT(' '); pad--; } }
    }
    if(room > 0) out[n < room ? n : room - 1] = 0;
    return (int) n;
}
KEEP int snprintf(char* out, size_t room, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(out, room, f, ap); va_end(ap); return r; }
KEEP int sprintf(char* out, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(out, (size_t) INT_MAX, f, ap); va_end(ap); return r; }
/* what goes to the streams is not looked at */
void *stderr, *stdout, *stdin;
KEEP int fprintf(void* s, const char* f, ...) { (void) s; (void) f; return 0; }
KEEP int printf(const char* f, ...) { (void) f; return 0; }
KEEP int puts(const char* f) { (void) f; return 0; }
KEEP int putchar(int c) { return c; }
KEEP int fputs(const char* s, void* f) { (void) s; (void) f; return 0; }
KEEP int fputc(int c, void* f) { (void) f; return c; }
KEEP int fflush(void* f) { (void) f; return 0; }
KEEP size_t fwrite(const void* p, size_t w, size_t n, void* f) { (void) p; (void) w; (void) f; return n; }
KEEP double fabs(double x) { return x < 0 ? -x : x; }
KEEP double floor(double x) { double t; if(!(fabs(x) < 4503599627370496.0)) return x; t = (double) (long long) x; return t > x ? t - 1 : t; }
KEEP double ceil(double x) { return -floor(-x); }
KEEP double trunc(double x) { return x < 0 ? ceil(x) : floor(x); }
KEEP double round(double x) { double t; if(!(fabs(x) < 4503599627370496.0)) return x; t = trunc(x); if(fabs(x - t) >= 0.5) t += x < 0 ? -1 : 1; return t; }
KEEP float fabsf(float x) { return x < 0 ? -x : x; }
KEEP float floorf(float x) { return (float) floor(x); }
KEEP float ceilf(float x) { return (float) ceil(x); }
KEEP float truncf(float x) { return (float) trunc(x); }
KEEP float roundf(float x) { return (float) round(x); }
KEEP long long llround(double x) { return (long long) round(x); }
KEEP long lround(double x) { return (long) round(x); }

/* what the compiler calls for 64-bit numbers */
KEEP uint64_t __udivmoddi4(uint64_t a, uint64_t b, uint64_t* rem)
{
    uint64_t q = 0, r = 0; int i;
    if((b >> 32) == 0) {                /* two divisions of 64 by 32 bits */
        uint32_t d = (uint32_t) b, hi = (uint32_t) (a >> 32), lo = (uint32_t) a, qh, ql, rr;
        if(d == 0) nw_exit(136);
        qh = hi / d; rr = hi % d;
        __asm__("divl %4" : "=a"(ql), "=d"(rr) : "0"(lo), "1"(rr), "r"(d));
        if(rem) *rem = rr;
        return (uint64_t) qh << 32 | ql;
    }
    for(i = 63; i >= 0; i--) {
        uint64_t top = r >> 63;
        r = r << 1 | ((a >> i) & 1);
        if(top || r >= b) { r -= b; q |= (uint64_t) 1 << i; }
    }
    if(rem) *rem = r;
    return q;
}
KEEP uint64_t __udivdi3(uint64_t a, uint64_t b) { return __udivmoddi4(a, b, NULL); }
KEEP uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; __udivmoddi4(a, b, &r); return r; }
static uint64_t nm_abs(int64_t x) { return x < 0 ? 0 - (uint64_t) x : (uint64_t) x; }
KEEP int64_t __divdi3(int64_t a, int64_t b) { uint64_t q = __udivmoddi4(nm_abs(a), nm_abs(b), NULL); return (int64_t) ((a < 0) != (b < 0) ? 0 - q : q); }
KEEP int64_t __moddi3(int64_t a, int64_t b) { uint64_t r; __udivmoddi4(nm_abs(a), nm_abs(b), &r); return (int64_t) (a < 0 ? 0 - r : r); }
KEEP int64_t __divmoddi4(int64_t a, int64_t b, int64_t* rem) { *rem = __moddi3(a, b); return __divdi3(a, b); }
KEEP uint64_t __fixunsdfdi(double x)
{
    union { double d; uint64_t u; } w; int e; uint64_t m;
    w.d = x; e = (int) (w.u >> 52 & 0x7ff) - 1075; m = (w.u & 0xfffffffffffffull) | 0x10000000000000ull;
    if(e < -52) return 0;
    if(e >= 12) return (uint64_t) 1 << 63;
    m = e < 0 ? m >> -e : m << e;
    return w.u >> 63 ? 0 - m : m;
}
KEEP int64_t __fixdfdi(double x) { union { double d; uint64_t u; } w; w.d = x; return (w.u >> 52 & 0x7ff) >= 1086 ? (int64_t) ((uint64_t) 1 << 63) : (int64_t) __fixunsdfdi(x); }
KEEP uint64_t __fixunssfdi(float x) { return __fixunsdfdi(x); }
KEEP int64_t __fixsfdi(float x) { return __fixdfdi(x); }
/* correctly rounded: to the nearest, ties to even */
static uint64_t nm_pack(uint64_t u, int bits, int bias)
{
    int e; uint64_t m, half, rest;
    if(u == 0) return 0;
    e = 63 - __builtin_clzll(u);
    if(e <= bits) m = u << (bits - e);
    else {
        int s = e - bits;
        m = u >> s; half = (uint64_t) 1 << (s - 1); rest = u & (((uint64_t) 1 << s) - 1);
        if(rest > half || (rest == half && (m & 1))) m++;
        if(m >> (bits + 1)) { m >>= 1; e++; }
    }
    return (uint64_t) (e + bias) << bits | (m & (((uint64_t) 1 << bits) - 1));
}
KEEP double __floatundidf(uint64_t u) { union { double d; uint64_t u; } w; w.u = nm_pack(u, 52, 1023); return w.d; }
KEEP float __floatundisf(uint64_t u) { union { float d; uint32_t u; } w; w.u = (uint32_t) nm_pack(u, 23, 127); return w.d; }
KEEP double __floatdidf(int64_t x) { double d = __floatundidf(nm_abs(x)); return x < 0 ? -d : d; }
KEEP float __floatdisf(int64_t x) { float d = __floatundisf(nm_abs(x)); return x < 0 ? -d : d; }
KEEP uint64_t __ashldi3(uint64_t x, int n) { uint32_t lo = (uint32_t) x, hi = (uint32_t) (x >> 32); if(n >= 32) { hi = lo << (n - 32); lo = 0; } else if(n) { hi = hi << n | lo >> (32 - n); lo <<= n; } return (uint64_t) hi << 32 | lo; }
KEEP uint64_t __lshrdi3(uint64_t x, int n) { uint32_t lo = (uint32_t) x, hi = (uint32_t) (x >> 32); if(n >= 32) { lo = hi >> (n - 32); hi = 0; } else if(n) { lo = lo >> n | hi << (32 - n); hi >>= n; } return (uint64_t) hi << 32 | lo; }
KEEP int64_t __ashrdi3(int64_t x, int n) { uint32_t lo = (uint32_t) (uint64_t) x; int32_t hi = (int32_t) ((uint64_t) x >> 32); if(n >= 32) { lo = (uint32_t) (hi >> (n - 32)); hi = hi >> 31; } else if(n) { lo = lo >> n | (uint32_t) hi << (32 - n); hi >>= n; } return (int64_t) ((uint64_t) (uint32_t) hi << 32 | lo); }
KEEP int64_t __muldi3(int64_t a, int64_t b)
{
    uint32_t al = (uint32_t) (uint64_t) a, ah = (uint32_t) ((uint64_t) a >> 32), bl = (uint32_t) (uint64_t) b, bh = (uint32_t) ((uint64_t) b >> 32), lo, hi;
    __asm__("mull %3" : "=a"(lo), "=d"(hi) : "0"(al), "r"(bl));
    return (int64_t) ((uint64_t) (hi + al * bh + ah * bl) << 32 | lo);
}
KEEP int64_t __negdi2(int64_t x) { return (int64_t) (0 - (uint64_t) x); }
KEEP int __popcountsi2(uint32_t x) { int n = 0; while(x) { x &= x - 1; n++; } return n; }
KEEP int __popcountdi2(uint64_t x) { return __popcountsi2((uint32_t) x) + __popcountsi2((uint32_t) (x >> 32)); }
KEEP int __paritysi2(uint32_t x) { return __popcountsi2(x) & 1; }
KEEP int __clzdi2(uint64_t x) { uint32_t h = (uint32_t) (x >> 32); return h ? __builtin_clz(h) : 32 + __builtin_clz((uint32_t) x); }
KEEP int __ctzdi2(uint64_t x) { uint32_t l = (uint32_t) x; return l ? __builtin_ctz(l) : 32 + __builtin_ctz((uint32_t) (x >> 32)); }
KEEP int __ffsdi2(uint64_t x) { return x ? __ctzdi2(x) + 1 : 0; }
KEEP uint64_t __bswapdi2(uint64_t x) { return (uint64_t) __builtin_bswap32((uint32_t) x) << 32 | __builtin_bswap32((uint32_t) (x >> 32)); }

int main(void);
__attribute__((used)) static void nm_start(void) { nw_exit(main()); }
__asm__(".globl _start\n_start:\n xorl %ebp,%ebp\n andl $-16,%esp\n call nm_start\n hlt\n");
