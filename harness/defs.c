/* C41: the macros of misc/defs.h over operands of all types and expressions of several kinds. */
#include "pbt.h"
#include <math.h>
#include "defs.h"

const char vf_property[] = "C41";
const char vf_rule[] = "operands of at least three types, not all equal, went through the macros, and a structure macro was evaluated";

static int distinct, types, structs;

/* Two operands are the same rather often, and often neighbours. */
static u64 prev_;
static u64 draw_word(void)
{
    switch(D_WEIGHTED(4, 2, 2)) {
        case 0: prev_ = d_u64(); break;
        case 1: break;
        default: prev_ += d_bool() ? 1 : (u64) -1;
    }
    return prev_;
}
static double draw_real(void)
{
    static double prev;
    switch(D_WEIGHTED(4, 2, 2, 2)) {
        case 0: prev = d_double(); break;
        case 1: break;
        case 2: prev = -prev; break;
        default: prev = (double) d_irange(-3, 3);
    }
    return prev;
}

/* Operands a, b, c of type T, wide enough an oracle type W. */
#define LESS(W, x, y) ((W) (x) < (W) (y))
#define INT_TYPE(NAME, T) \
static void NAME(void) \
{ \
    T a = (T) draw_word(), b = (T) draw_word(), c = (T) draw_word(); \
    T v[4] = { a, b, c, a }, *p = v; \
    T lo2 = LESS(__int128, a, b) ? a : b, hi2 = LESS(__int128, a, b) ? b : a; \
    T lo3 = LESS(__int128, c, lo2) ? c : lo2, hi3 = LESS(__int128, hi2, c) ? c : hi2; \
    T cl = LESS(__int128, c, lo2) ? lo2 : LESS(__int128, hi2, c) ? hi2 : c; \
    int one = 1, zero = 0, yes = d_bool(); \
    TRACE(#T " %lld %lld %lld", (long long) a, (long long) b, (long long) c); \
    CHECK(MIN(a, b) == lo2 && MIN(b, a) == lo2, "MIN of " #T " %lld and %lld", (long long) a, (long long) b); \
    CHECK(MAX(a, b) == hi2 && MAX(b, a) == hi2, "MAX of " #T " %lld and %lld", (long long) a, (long long) b); \
    CHECK(MIN3(a, b, c) == lo3 && MIN3(c, a, b) == lo3 && MIN3(b, c, a) == lo3 && MIN3(c, b, a) == lo3, "MIN3 of " #T " %lld, %lld, %lld", (long long) a, (long long) b, (long long) c); \
    CHECK(MAX3(a, b, c) == hi3 && MAX3(c, a, b) == hi3 && MAX3(b, c, a) == hi3 && MAX3(c, b, a) == hi3, "MAX3 of " #T " %lld, %lld, %lld", (long long) a, (long long) b, (long long) c); \
    CHECK(CLAMP(c, lo2, hi2) == cl, "CLAMP of " #T " %lld to %lld .. %lld", (long long) c, (long long) lo2, (long long) hi2); \
    CHECK(CLAMP(a, lo2, hi2) == a && CLAMP(b, lo2, hi2) == b && CLAMP(c, a, a) == a, "CLAMP of " #T); \
    /* expressions as operands: every operator binds as it should */ \
    CHECK(MIN(p[0], *(p + 1)) == lo2 && MAX(*p, p[one]) == hi2, "MIN/MAX of array elements"); \
    CHECK(MIN(yes ? a : b, yes ? b : a) == lo2 && MAX(yes ? a : b, yes ? b : a) == hi2, "MIN/MAX of conditional expressions"); \
    CHECK(MIN3(yes ? a : b, yes ? b : a, yes ? c : c) == lo3 && MAX3(yes ? a : b, yes ? b : a, yes ? c : c) == hi3, "MIN3/MAX3 of conditional expressions"); \
    CHECK(CLAMP(yes ? c : c, yes ? lo2 : lo2, yes ? hi2 : hi2) == cl, "CLAMP of conditional expressions"); \
    CHECK((T) MIN(a | zero, b & -one) == lo2 && (T) MAX(a ^ zero, b | zero) == hi2, "MIN/MAX of bitwise expressions"); \
    CHECK((T) MIN3(a | zero, b & -one, c ^ zero) == lo3 && (T) MAX3(a & -one, b | zero, c ^ zero) == hi3, "MIN3/MAX3 of bitwise expressions"); \
    CHECK((T) CLAMP(c | zero, lo2 & -one, hi2 ^ zero) == cl, "CLAMP of bitwise expressions"); \
    CHECK(MIN(a == b, a != b) == 0 && MAX(a == b, a != b) == 1, "MIN/MAX of comparisons"); \
    CHECK(MIN(a < b && b < c, a < b || b < c) == (a < b && b < c) && MAX(a < b && b < c, a < b || b < c) == (a < b || b < c), "MIN/MAX of logical expressions"); \
    CHECK(MIN(MAX(a, b), c) == (LESS(__int128, hi2, c) ? hi2 : c) && MAX(MIN(a, b), c) == (LESS(__int128, lo2, c) ? c : lo2), "nested MIN and MAX"); \
    CHECK(MAX3(MIN(a, b), MIN3(a, b, c), CLAMP(c, lo2, hi2)) == cl, "nested macros"); \
    /* as part of a bigger expression */ \
    CHECK((u64) (2 * (u64) 1 * MIN(a, b)) == (u64) 2 * (u64) lo2 && (u64) ((u64) MAX(a, b) * 3) == (u64) hi2 * 3, "MIN/MAX within an expression"); \
    CHECK((u64) ((u64) 5 - MIN(a, b)) == (u64) 5 - lo2 && (u64) ((u64) 7 - MAX3(a, b, c)) == (u64) 7 - hi3 && (u64) ((u64) 7 - MIN3(a, b, c)) == (u64) 7 - lo3, "subtracted MIN/MAX"); \
    CHECK((u64) ((u64) 7 - CLAMP(c, lo2, hi2)) == (u64) 7 - cl && !MAX(a, b) == !hi2 && !MIN(a, b) == !lo2, "CLAMP within an expression"); \
    CHECK(!!CLAMP(c, lo2, hi2) == !!cl && (MIN(a, b) ? 1 : 2) == (lo2 ? 1 : 2), "within a condition"); \
    { /* magnitudes: of everything but the most negative value */ \
        T s = LESS(__int128, a, -(__int128) INT64_MAX) || (sizeof(T) == 4 && (T) -1 < 0 && a == (T) ((u32) 1 << 31)) ? 0 : a; \
        __int128 w = s, m = w < 0 ? -w : w; \
        CHECK((__int128) ABS(s) == m, "ABS of " #T " %lld", (long long) s); \
        CHECK((__int128) ABS(yes ? s : s) == m && (__int128) ABS(*&s) == m, "ABS of an expression"); \
        CHECK((__int128) ABS(ABS(s)) == m && (u64) ((u64) 9 - ABS(s)) == (u64) 9 - (u64) m && !ABS(s) == !m, "ABS within an expression"); \
        if((T) -1 < 0) { T h = s / 4, g = b == 0 ? 1 : b / 4; __int128 d = (__int128) h - g, u = (__int128) h + g; \
            CHECK((__int128) ABS(h - g) == (d < 0 ? -d : d) && (__int128) ABS(h + g) == (u < 0 ? -u : u), "ABS of %lld - %lld and their sum", (long long) h, (long long) g); \
            CHECK((__int128) ABS(-h) == (h < 0 ? -(__int128) h : h), "ABS of a negated value"); \
            CHECK((__int128) MIN(h - g, h + g) == (d < u ? d : u) && (__int128) MAX(h - g, h + g) == (d < u ? u : d), "MIN/MAX of sums"); \
            CHECK((__int128) MAX(-h, h) == (h < 0 ? -(__int128) h : h), "MAX of a value and its negation"); } \
    } \
    if(a != b && b != c) distinct = 1; \
    types |= 1 << (__COUNTER__ - COUNT0 - 1); \
}
#define REAL_TYPE(NAME, T) \
static void NAME(void) \
{ \
    T a = (T) draw_real(), b = (T) draw_real(), c = (T) draw_real(); \
    T lo2, hi2, lo3, hi3, cl; \
    int yes = d_bool(); \
    if(isinf(a)) a = 1; if(isinf(b)) b = d_bool() ? (T) -INFINITY : 2; if(isinf(c)) c = (T) INFINITY; \
    lo2 = fmin(a, b); hi2 = fmax(a, b); \
    if(sizeof(T) > 8) { lo2 = fminl(a, b); hi2 = fmaxl(a, b); } \
    lo3 = fminl(lo2, c); hi3 = fmaxl(hi2, c); cl = fmaxl(lo2, fminl(c, hi2)); \
    TRACE(#T " %Lg %Lg %Lg", (long double) a, (long double) b, (long double) c); \
    CHECK(MIN(a, b) == lo2 && MIN(b, a) == lo2 && MAX(a, b) == hi2 && MAX(b, a) == hi2, "MIN/MAX of " #T " %Lg and %Lg", (long double) a, (long double) b); \
    CHECK(MIN3(a, b, c) == lo3 && MIN3(c, a, b) == lo3 && MIN3(b, c, a) == lo3, "MIN3 of " #T " %Lg, %Lg, %Lg", (long double) a, (long double) b, (long double) c); \
    CHECK(MAX3(a, b, c) == hi3 && MAX3(c, a, b) == hi3 && MAX3(b, c, a) == hi3, "MAX3 of " #T " %Lg, %Lg, %Lg", (long double) a, (long double) b, (long double) c); \
    CHECK(CLAMP(c, lo2, hi2) == cl, "CLAMP of " #T " %Lg to %Lg .. %Lg", (long double) c, (long double) lo2, (long double) hi2); \
    CHECK(ABS(a) == fabsl(a) && ABS(-a) == fabsl(a) && ABS(c) == fabsl(c), "ABS of " #T " %Lg", (long double) a); \
    CHECK(ABS(a / 2 - b / 2) == fabsl(a / 2 - b / 2) && 1 - ABS(yes ? a : b) == 1 - (T) fabsl(yes ? a : b), "ABS of an expression of " #T); \
    CHECK(MIN(yes ? a : b, yes ? b : a) == lo2 && MAX(a / 2, b / 2) == MAX(b / 2, a / 2), "MIN/MAX of expressions of " #T); \
    if(a != b && b != c) distinct = 1; \
    types |= 1 << (__COUNTER__ - COUNT0 - 1); \
}
enum { COUNT0 = __COUNTER__ };
INT_TYPE(t_i8, int8_t) INT_TYPE(t_u8, uint8_t) INT_TYPE(t_i16, int16_t) INT_TYPE(t_u16, uint16_t)
INT_TYPE(t_i32, int32_t) INT_TYPE(t_u32, uint32_t) INT_TYPE(t_i64, int64_t) INT_TYPE(t_u64, uint64_t)
INT_TYPE(t_long, long) INT_TYPE(t_sz, size_t) INT_TYPE(t_ll, long long)
REAL_TYPE(t_f, float) REAL_TYPE(t_d, double) REAL_TYPE(t_ld, long double)
static void t_ptr(void)
{
    char buf[40], *a = buf + d_below(40), *b = buf + d_below(40), *c = buf + d_below(40);
    char* lo = a < b ? a : b, *hi = a < b ? b : a;
    TRACE("pointers %td %td %td", a - buf, b - buf, c - buf);
    CHECK(MIN(a, b) == lo && MAX(a, b) == hi && MIN3(a, b, c) == (c < lo ? c : lo) && MAX3(a, b, c) == (c > hi ? c : hi), "MIN/MAX of pointers");
    CHECK(CLAMP(c, lo, hi) == (c < lo ? lo : c > hi ? hi : c), "CLAMP of a pointer");
    CHECK(*MIN(&buf[0], &buf[1]) == buf[0] && MAX(buf + 1, buf + 2) - buf == 2, "MIN/MAX of pointer expressions");
    types |= 1 << 30;
}

/* ---------------- structures ---------------- */
typedef struct IN { char tag; double d; short s[7]; struct { u8 x; int y[3]; } deep; } IN;
typedef struct OUT { char first; IN in; char gap[3]; IN ins[4]; union { long l; char c[9]; } u; u8 last; } OUT;
typedef struct __attribute__((packed)) PACKED { char c; int i; u8 b; double d; IN in; } PACKED;
typedef union UN { char c; OUT o; int i[200]; } UN;

#define OFF(T, m) do { T* o_ = (T*) h_malloc(sizeof(T)); \
        CHECK(OFFSETOF(T, m) == (size_t) ((char*) &o_->m - (char*) o_), "the offset of " #m " in " #T " is %zu", (size_t) OFFSETOF(T, m)); \
        CHECK(1000 - OFFSETOF(T, m) == (size_t) 1000 - (size_t) ((char*) &o_->m - (char*) o_) && 2 * OFFSETOF(T, m) == 2 * (size_t) ((char*) &o_->m - (char*) o_), "the offset of " #m " in an expression"); \
        h_free(o_); } while(0)
#define CONT(T, m) do { T* o_ = (T*) h_calloc(sizeof(T) * 5); int at_ = (int) d_below(5), yes_ = d_bool(), zero_ = 0; \
        __typeof__(&o_->m) p_ = &o_[at_].m; const __typeof__(o_->m)* cp_ = p_; __typeof__(&o_->m) v_[2] = { p_, p_ }; \
        TRACE("enclosing " #T " of " #m " of element %d", at_); \
        CHECK(CONTAINEROF(p_, T, m) == o_ + at_, "the " #T " around its " #m); \
        CHECK(CONTAINEROF(&o_[at_].m, T, m) == o_ + at_ && CONTAINEROF(v_[yes_], T, m) == o_ + at_ && CONTAINEROF(*v_, T, m) == o_ + at_, "the " #T " around its " #m " given as an expression"); \
        CHECK(CONTAINEROF(yes_ ? p_ : v_[0], T, m) == o_ + at_ && CONTAINEROF(p_ + zero_, T, m) == o_ + at_ && CONTAINEROF((p_ + 1) - 1, T, m) == o_ + at_, "the " #T " around its " #m " given as an expression"); \
        CHECK(CONTAINEROF(cp_, T, m) == o_ + at_, "the " #T " around its constant " #m); \
        CHECK(&CONTAINEROF(p_, T, m)->m == p_ && CONTAINEROF(p_, T, m) - o_ == at_ && (CONTAINEROF(p_, T, m) + 1) - 1 == o_ + at_ && *(char*) CONTAINEROF(p_, T, m) == 0, "within an expression"); \
        CHECK(CONTAINEROF(&CONTAINEROF(p_, T, m)->m, T, m) == o_ + at_, "nested CONTAINEROF"); \
        h_free(o_); structs = 1; } while(0)
#define EACH_MEMBER(X) X(IN, tag) X(IN, d) X(IN, s) X(IN, s[3]) X(IN, deep) X(IN, deep.x) X(IN, deep.y) X(IN, deep.y[2]) \
    X(OUT, first) X(OUT, in) X(OUT, in.d) X(OUT, in.s[6]) X(OUT, gap) X(OUT, ins) X(OUT, ins[2]) X(OUT, ins[3].deep.y[1]) X(OUT, u) X(OUT, u.c[4]) X(OUT, last) \
    X(UN, c) X(UN, o) X(UN, o.in) X(UN, o.ins[1].d) X(UN, i[150])
static void t_structs(void)
{
    int k = 0, want;
#define X(T, m) OFF(T, m);
    EACH_MEMBER(X)
    OFF(PACKED, c); OFF(PACKED, i); OFF(PACKED, b); OFF(PACKED, d); OFF(PACKED, in);
#undef X
#define X(T, m) if(k++ == want) CONT(T, m);
    want = (int) d_below(24);
    EACH_MEMBER(X)
#undef X
    { /* an intrusive chain: from any link back to its holder */
        typedef struct LINK { struct LINK* next; } LINK;
        typedef struct HOLD { int id; LINK a; char pad[5]; LINK b; } HOLD;
        HOLD h[6]; LINK* l; int i, n = 0;
        for(i = 0; i < 6; i++) { h[i].id = i * 7; h[i].a.next = i < 5 ? &h[i + 1].a : NULL; h[i].b.next = i ? &h[i - 1].b : NULL; }
        for(l = &h[0].a; l; l = l->next) CHECK(CONTAINEROF(l, HOLD, a)->id == 7 * n++, "a chain through links");
        for(l = &h[5].b; l; l = l->next) CHECK(CONTAINEROF(l, HOLD, b)->id == 7 * --n, "a chain through links");
    }
}

/* ---------------- arrays and texts ---------------- */
static void t_arrays(void)
{
    int i7[7], m[3][5][2], (*pi)[7] = &i7, (*pm)[5][2] = m;
    char c1[1], text[] = "hello", *ptrs[9];
    OUT o, *po = &o;
    double dd[1000];
    size_t n = 1 + (size_t) d_below(50);
    u16 vla[n], vla2[n][3];
    struct { char b[33]; long l[4]; } big[6];
    CHECK(SIZEOF_ARRAY(i7) == 7 && SIZEOF_ARRAY(c1) == 1 && SIZEOF_ARRAY(text) == 6 && SIZEOF_ARRAY(ptrs) == 9 && SIZEOF_ARRAY(dd) == 1000 && SIZEOF_ARRAY(big) == 6, "sizes of arrays");
    CHECK(SIZEOF_ARRAY(m) == 3 && SIZEOF_ARRAY(m[1]) == 5 && SIZEOF_ARRAY(m[2][3]) == 2 && SIZEOF_ARRAY(*m) == 5 && SIZEOF_ARRAY(**m) == 2, "sizes of nested arrays");
    CHECK(SIZEOF_ARRAY(*pi) == 7 && SIZEOF_ARRAY(*pm) == 5 && SIZEOF_ARRAY(pm[1]) == 5 && SIZEOF_ARRAY(*(pm + 1)) == 5 && SIZEOF_ARRAY(**pm) == 2, "sizes of arrays behind pointers");
    CHECK(SIZEOF_ARRAY(po->ins) == 4 && SIZEOF_ARRAY(o.in.s) == 7 && SIZEOF_ARRAY(po->ins[1].deep.y) == 3 && SIZEOF_ARRAY(big[2].b) == 33 && SIZEOF_ARRAY(big->l) == 4 && SIZEOF_ARRAY((*po).u.c) == 9, "sizes of member arrays");
    CHECK(SIZEOF_ARRAY(vla) == n && SIZEOF_ARRAY(vla2) == n && SIZEOF_ARRAY(vla2[0]) == 3, "size of an array of %zu elements", n);
    CHECK(SIZEOF_ARRAY("abc") == 4 && SIZEOF_ARRAY("") == 1 && SIZEOF_ARRAY(((int[]) { 1, 2, 3 })) == 3, "sizes of literals");
    CHECK(84 / SIZEOF_ARRAY(i7) == 12 && 2 * SIZEOF_ARRAY(i7) == 14 && 100 % SIZEOF_ARRAY(i7) == 2 && SIZEOF_ARRAY(i7) * 3 == 21 && SIZEOF_ARRAY(i7) - 1 == 6 && 10 - SIZEOF_ARRAY(i7) == 3, "size of an array within an expression");
    { static const int a[] = { 3, 1, 4, 1, 5 }; int sum = 0; size_t i; char copy[SIZEOF_ARRAY(a)]; for(i = 0; i < SIZEOF_ARRAY(a); i++) sum += a[i]; CHECK(sum == 14 && sizeof(copy) == 5, "a loop over an array"); }
#define ONE 1
#define TWO 2
#define NEST ONE.TWO
#define CALL(x) <x>
#define STR(lit, ...) CHECK(strcmp(STRINGIZE(__VA_ARGS__), lit) == 0, "STRINGIZE gives %s", STRINGIZE(__VA_ARGS__))
    CHECK(strcmp(STRINGIZE(ONE), "1") == 0 && strcmp(STRINGIZE(ONE) "-" STRINGIZE(TWO), "1-2") == 0 && sizeof(STRINGIZE(ONE)) == 2, "STRINGIZE of a macro gives %s", STRINGIZE(ONE));
    CHECK(strcmp(STRINGIZE(NEST), "1.2") == 0 && strcmp(STRINGIZE(ONE.TWO.x), "1.2.x") == 0, "STRINGIZE of nested macros gives %s", STRINGIZE(NEST));
    CHECK(strcmp(STRINGIZE(CALL(TWO)), "<2>") == 0 && strcmp(STRINGIZE(a + b * c), "a + b * c") == 0 && strcmp(STRINGIZE("q"), "\"q\"") == 0 && strcmp(STRINGIZE(), "") == 0, "STRINGIZE of expressions gives %s", STRINGIZE(CALL(TWO)));
    CHECK(atoi(STRINGIZE(__LINE__)) == __LINE__, "STRINGIZE of the line gives %s", STRINGIZE(__LINE__));
}

void vf_case(void)
{
    static void (*const f[])(void) = { t_i8, t_u8, t_i16, t_u16, t_i32, t_u32, t_i64, t_u64, t_long, t_sz, t_ll, t_f, t_d, t_ld, t_ptr };
    distinct = types = structs = 0; prev_ = 0;
    do f[d_below(sizeof(f) / sizeof(f[0]))](); while(d_more(8));
    if(d_chance(1, 4)) { t_structs(); t_arrays(); }
    if(distinct && structs && __builtin_popcount((unsigned) types) >= 3) vf_nontrivial();
}
