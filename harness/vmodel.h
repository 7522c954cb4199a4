/* The reference model of values: a plain tree. */
#ifndef VMODEL_H
#define VMODEL_H

#include "pbt.h"
#include "value.h"
#include <math.h>

typedef struct MV MV;
typedef struct { char* key; size_t len; MV* val; } ENT;
struct MV {
    VALUE_TYPE type;
    int isnew;
    int b;
    u64 bits;               /* integers, and the bits of floats and doubles */
    char* str; size_t len;  /* strings: an exact-size copy */
    MV** it; ENT* e;        /* items; entries in the order they were added */
    size_t n, cap;
    int ordered, cmp;       /* dictionaries */
    MV* parent;
    u64 ver;                /* changes with every change of this very value */
};

static u64 mv_clock;

static MV* mv_new(MV* parent, int isnew)
{
    MV* m = (MV*) h_calloc(sizeof(MV));
    m->type = VALUE_NULL; m->isnew = isnew; m->parent = parent; m->ver = ++mv_clock;
    return m;
}
static void mv_touch(MV* m) { m->ver = ++mv_clock; }

static void mv_free(MV* m);
static void mv_reset(MV* m)
{
    size_t i;
    if(m->str) h_free(m->str);
    if(m->it) { for(i = 0; i < m->n; i++) mv_free(m->it[i]); h_free(m->it); }
    if(m->e) { for(i = 0; i < m->n; i++) { h_free(m->e[i].key); mv_free(m->e[i].val); } h_free(m->e); }
    m->str = NULL; m->it = NULL; m->e = NULL; m->len = m->n = m->cap = 0;
    m->type = VALUE_NULL; m->isnew = 0; m->ordered = m->cmp = 0;
    mv_touch(m);
}
static void mv_free(MV* m) { mv_reset(m); h_free(m); }

static MV* mv_clone(const MV* m, MV* parent)
{
    MV* c = mv_new(parent, 0);
    size_t i;
    *c = *m;
    c->parent = parent;
    c->str = m->str ? (char*) h_dup(m->str, m->len) : NULL;
    if(m->it) { c->it = (MV**) h_malloc(m->cap * sizeof(MV*)); for(i = 0; i < m->n; i++) c->it[i] = mv_clone(m->it[i], c); }
    if(m->e) { c->e = (ENT*) h_malloc(m->cap * sizeof(ENT));
        for(i = 0; i < m->n; i++) { c->e[i].key = (char*) h_dup(m->e[i].key, m->e[i].len); c->e[i].len = m->e[i].len; c->e[i].val = mv_clone(m->e[i].val, c); } }
    return c;
}

static void mv_set_string(MV* m, const void* s, size_t len) { mv_reset(m); m->type = VALUE_STRING; m->str = (char*) h_dup(s, len); m->len = len; }
static void mv_set_array(MV* m) { mv_reset(m); m->type = VALUE_ARRAY; }
static void mv_set_dict(MV* m, int ordered, int cmp) { mv_reset(m); m->type = VALUE_DICT; m->ordered = ordered; m->cmp = cmp; }

static MV* mv_insert(MV* m, size_t i)
{
    if(m->n == m->cap) { m->cap = m->cap ? 2 * m->cap : 4; m->it = (MV**) h_realloc(m->it, m->cap * sizeof(MV*)); }
    memmove(m->it + i + 1, m->it + i, (m->n - i) * sizeof(MV*));
    m->n++;
    mv_touch(m);
    return m->it[i] = mv_new(m, 1);
}
static void mv_remove(MV* m, size_t i, size_t k)
{
    size_t j;
    for(j = i; j < i + k; j++) mv_free(m->it[j]);
    if(m->it) memmove(m->it + i, m->it + i + k, (m->n - i - k) * sizeof(MV*));
    m->n -= k;
    mv_touch(m);
}

/* ---- key orders ---- */
static int k_bytes(const char* a, size_t la, const char* b, size_t lb)
{
    size_t i;
    for(i = 0; i < la && i < lb; i++) if((u8) a[i] != (u8) b[i]) return (u8) a[i] < (u8) b[i] ? -1 : 1;
    return la < lb ? -1 : la > lb;
}
static int k_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static u64 k_calls;
#define N_CMP 4
/* 0: the default one; 1: reversed; 2: the shorter first; 3: letters without regard to case */
static int k_order(int kind, const char* a, size_t la, const char* b, size_t lb)
{
    size_t i;
    switch(kind) {
        case 1: return -k_bytes(a, la, b, lb);
        case 2: return la != lb ? (la < lb ? -1 : 1) : k_bytes(a, la, b, lb);
        case 3:
            for(i = 0; i < la && i < lb; i++) { int x = k_lower((u8) a[i]), y = k_lower((u8) b[i]); if(x != y) return x < y ? -1 : 1; }
            return la < lb ? -1 : la > lb;
        default: return k_bytes(a, la, b, lb);
    }
}
static int kc0(const char* a, size_t la, const char* b, size_t lb) { k_calls++; return k_order(0, a, la, b, lb); }
static int kc1(const char* a, size_t la, const char* b, size_t lb) { int r = k_order(1, a, la, b, lb); k_calls++; return r < 0 ? INT_MIN : r > 0 ? INT_MAX : 0; }
static int kc2(const char* a, size_t la, const char* b, size_t lb) { k_calls++; return k_order(2, a, la, b, lb) * 0x10000; }
static int kc3(const char* a, size_t la, const char* b, size_t lb) { k_calls++; return k_order(3, a, la, b, lb) * (1 + (int) (la % 300)); }
typedef int (*KCMP)(const char*, size_t, const char*, size_t);
static const KCMP k_funcs[N_CMP] = { kc0, kc1, kc2, kc3 };

static ENT* mv_find(MV* m, const char* key, size_t len)
{
    size_t i;
    for(i = 0; i < m->n; i++) if(k_order(m->cmp, m->e[i].key, m->e[i].len, key, len) == 0) return &m->e[i];
    return NULL;
}
static MV* mv_add(MV* m, const char* key, size_t len)
{
    ENT* e;
    if(m->n == m->cap) { m->cap = m->cap ? 2 * m->cap : 4; m->e = (ENT*) h_realloc(m->e, m->cap * sizeof(ENT)); }
    e = &m->e[m->n++];
    e->key = (char*) h_dup(key, len); e->len = len; e->val = mv_new(m, 1);
    mv_touch(m);
    return e->val;
}
static void mv_del(MV* m, ENT* e)
{
    size_t i = (size_t) (e - m->e);
    h_free(e->key); mv_free(e->val);
    memmove(e, e + 1, (m->n - i - 1) * sizeof(ENT));
    m->n--;
    mv_touch(m);
}
static void mv_clean(MV* m)
{
    int ordered = m->ordered, cmp = m->cmp, t = m->type;
    mv_reset(m);
    m->type = (VALUE_TYPE) t; m->ordered = ordered; m->cmp = cmp;
}

/* ---- comparison: NULL when the value is what the model says, otherwise what is wrong ---- */
static char v_why[400];
static const char* v_names[] = { "null", "bool", "int32", "uint32", "int64", "uint64", "float", "double", "string", "array", "dict" };
static const char* v_name(int t) { return t >= 0 && t <= 10 ? v_names[t] : "?"; }
#define DIFF(...) do { snprintf(v_why, sizeof(v_why), __VA_ARGS__); return v_why; } while(0)

typedef struct { MV* m; size_t i; const VALUE* prev_key; char why[200]; int ordered; } WCTX;

static int v_visit(const VALUE* key, VALUE* val, void* p)
{
    WCTX* w = (WCTX*) p;
    ENT* e;
    if(w->i >= w->m->n) { snprintf(w->why, sizeof(w->why), "the walk goes on after %zu items", w->i); return 1; }
    if(value_type(key) != VALUE_STRING) { snprintf(w->why, sizeof(w->why), "key %zu of the walk is of type %s", w->i, v_name(value_type(key))); return 1; }
    if(w->ordered) {
        e = &w->m->e[w->i];
        if(e->len != value_string_length(key) || memcmp(e->key, value_string(key), e->len) != 0) { snprintf(w->why, sizeof(w->why), "item %zu of the ordered walk is keyed %s", w->i, vf_hex(value_string(key), value_string_length(key))); return 1; }
    } else {
        e = mv_find(w->m, value_string(key), value_string_length(key));
        if(e == NULL) { snprintf(w->why, sizeof(w->why), "the walk yields key %s, which is absent", vf_hex(value_string(key), value_string_length(key))); return 1; }
        if(w->prev_key && k_order(w->m->cmp, value_string(w->prev_key), value_string_length(w->prev_key), value_string(key), value_string_length(key)) >= 0) { snprintf(w->why, sizeof(w->why), "item %zu of the sorted walk is not after the one before", w->i); return 1; }
    }
    if(value_type(val) != e->val->type) { snprintf(w->why, sizeof(w->why), "item %zu of the walk has a value of type %s", w->i, v_name(value_type(val))); return 1; }
    w->prev_key = key;
    w->i++;
    return 0;
}

static const char* v_diff(const VALUE* v, MV* m)
{
    size_t i;
    if(v == NULL) DIFF("no value");
    if(value_type(v) != m->type) DIFF("type is %s and should be %s", v_name(value_type(v)), v_name(m->type));
    if(!!value_is_new(v) != m->isnew) DIFF("a value of type %s is %smarked new", v_name(m->type), m->isnew ? "not " : "");
    switch(m->type) {
        case VALUE_NULL: break;
        case VALUE_BOOL: if(value_bool(v) != m->b) DIFF("bool is %d", value_bool(v)); break;
        case VALUE_INT32: if(value_int32(v) != (int32_t) m->bits) DIFF("int32 is %d", (int) value_int32(v)); break;
        case VALUE_UINT32: if(value_uint32(v) != (u32) m->bits) DIFF("uint32 is %u", (unsigned) value_uint32(v)); break;
        case VALUE_INT64: if(value_int64(v) != (i64) m->bits) DIFF("int64 is %lld", (long long) value_int64(v)); break;
        case VALUE_UINT64: if(value_uint64(v) != m->bits) DIFF("uint64 is %llu", (unsigned long long) value_uint64(v)); break;
        case VALUE_FLOAT: { float f = value_float(v); u32 x; memcpy(&x, &f, 4); if(x != (u32) m->bits) DIFF("float is %.9g", (double) f); break; }
        case VALUE_DOUBLE: { double d = value_double(v); u64 x; memcpy(&x, &d, 8); if(x != m->bits) DIFF("double is %.17g", d); break; }
        case VALUE_STRING: {
            const char* s = value_string(v);
            if(value_string_length(v) != m->len) DIFF("string length is %zu and should be %zu", value_string_length(v), m->len);
            if(s == NULL) DIFF("a string of %zu bytes is NULL", m->len);
            if(memcmp(s, m->str, m->len) != 0) DIFF("a string of %zu bytes differs: %s and should be %s", m->len, vf_hex(s, m->len), vf_hex(m->str, m->len));
            if(s[m->len] != 0) DIFF("a string of %zu bytes is not terminated", m->len);
            break;
        }
        case VALUE_ARRAY: {
            VALUE* all;
            if(value_array_size(v) != m->n) DIFF("array size is %zu and should be %zu", value_array_size(v), m->n);
            all = value_array_get_all(v);
            for(i = 0; i < m->n; i++) {
                VALUE* x = value_array_get(v, i);
                if(x == NULL) DIFF("item %zu of %zu is NULL", i, m->n);
                if(x != all + i) DIFF("item %zu is not in its place in the array of all items", i);
                if(v_diff(x, m->it[i])) { char t[sizeof(v_why)]; memcpy(t, v_why, sizeof(t)); snprintf(v_why, sizeof(v_why), "[%zu]: %.300s", i, t); return v_why; }
            }
            if(value_array_get(v, m->n) != NULL) DIFF("an item is found at the size %zu", m->n);
            break;
        }
        default: {
            WCTX w;
            int r;
            if(value_dict_size(v) != m->n) DIFF("dict size is %zu and should be %zu", value_dict_size(v), m->n);
            if(value_dict_flags(v) != (m->ordered ? VALUE_DICT_MAINTAINORDER : 0u)) DIFF("dict flags are %#x", value_dict_flags(v));
            for(i = 0; i < m->n; i++) {
                VALUE* x = value_dict_get_(v, m->e[i].key, m->e[i].len);
                if(x == NULL) DIFF("key %s is not found", vf_hex(m->e[i].key, m->e[i].len));
                if(v_diff(x, m->e[i].val)) { char t[sizeof(v_why)]; memcpy(t, v_why, sizeof(t)); snprintf(v_why, sizeof(v_why), "/%s: %.300s", vf_hex(m->e[i].key, m->e[i].len), t); return v_why; }
            }
            memset(&w, 0, sizeof(w)); w.m = m;
            r = value_dict_walk_sorted(v, v_visit, &w);
            if(w.why[0]) DIFF("%s", w.why);
            if(r != 0 || w.i != m->n) DIFF("the sorted walk returns %d after %zu of %zu items", r, w.i, m->n);
            memset(&w, 0, sizeof(w)); w.m = m; w.ordered = 1;
            if(!m->ordered) break;
            r = value_dict_walk_ordered(v, v_visit, &w);
            if(w.why[0]) DIFF("%s", w.why);
            if(r != 0 || w.i != m->n) DIFF("the ordered walk returns %d after %zu of %zu items", r, w.i, m->n);
        }
    }
    return NULL;
}
static void v_check(const VALUE* v, MV* m, const char* when)
{
    const char* d = v_diff(v, m);
    CHECK(d == NULL, "%s: %s", when, d);
}

/* ---- scalars ---- */
/* An integer; sometimes one near the middle between two neighbouring floats or doubles. */
static u64 v_draw_u64(unsigned width)
{
    unsigned mant, top, sh;
    u64 x;
    if(!d_chance(1, 5)) return d_u64();
    mant = d_bool() ? 24 : 53;
    top = 1 + (unsigned) d_below(width);     /* bits of the magnitude */
    if(top <= mant + 1) return d_u64();
    sh = top - mant;
    x = (((u64) 1 << (mant - 1)) | (d_u64() & (((u64) 1 << (mant - 1)) - 1))) << sh;
    if(d_bool()) x += (u64) 1 << (sh - 1);
    x += (u64) d_irange(-2, 2);
    if(d_bool()) { unsigned k = (unsigned) d_below(sh); x += d_bool() ? (u64) 1 << k : 0 - ((u64) 1 << k); }
    return x;
}

static double v_draw_double(void)
{
    static const double lim[] = { 2147483648.0, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0, 16777216.0, 9007199254740992.0, 32768.0, 1.0 };
    double d;
    switch(D_WEIGHTED(4, 4, 3, 3, 2, 1)) {
        case 0: d = (double) d_irange(-300, 300) / (double) (1u << d_below(4)); break;
        case 1: d = lim[d_below(8)]; if(d_bool()) d = -d; d += (double) d_irange(-6, 6) / (double) (1u << d_below(4)); break;
        case 2: d = lim[d_below(8)]; if(d_bool()) d = -d; { int k = (int) d_irange(-3, 3); while(k > 0) { d = nextafter(d, INFINITY); k--; } while(k < 0) { d = nextafter(d, -INFINITY); k++; } } break;
        case 3: d = (double) (i64) d_u64() + (d_bool() ? 0.5 : 0);
            if(d_chance(1, 3)) { d = (double) (i64) v_draw_u64(63); if(d_bool()) d = -d; if(d_bool()) d = nextafter(d, d_bool() ? INFINITY : -INFINITY); if(d_bool()) d = ldexp(d, (int) d_irange(-180, 60)); }
            break;
        case 4: { double h = 0.5; int k = (int) d_irange(-2, 2); h += (double) d_irange(-40, 40); while(k > 0) { h = nextafter(h, INFINITY); k--; } while(k < 0) { h = nextafter(h, -INFINITY); k++; } d = h; break; }
        default: d = d_double(); break;
    }
    return d;
}
static float v_draw_float(void)
{
    float f = (float) v_draw_double();
    int k = (int) d_irange(-2, 2);
    while(k > 0) { f = nextafterf(f, INFINITY); k--; }
    while(k < 0) { f = nextafterf(f, -INFINITY); k++; }
    if(isinf(f) && !d_chance(1, 8)) f = 1.5f;
    return f;
}

/* Initialises a value as a scalar of the given type; the result of the initialiser is returned. */
static int v_init_scalar(VALUE* v, MV* m, VALUE_TYPE t)
{
    mv_reset(m);
    m->type = t;
    switch(t) {
        case VALUE_BOOL: { int b = d_bool() ? (int) d_irange(INT_MIN, INT_MAX) : (int) d_below(2); if(d_chance(1, 8)) b = 1 << d_below(31); m->b = b != 0; return value_init_bool(v, b); }
        case VALUE_INT32: { int32_t x = (int32_t) v_draw_u64(31); if(d_bool()) x = (int32_t) (0u - (u32) x); m->bits = (u64) (i64) x; return value_init_int32(v, x); }
        case VALUE_UINT32: { u32 x = (u32) v_draw_u64(32); m->bits = x; return value_init_uint32(v, x); }
        case VALUE_INT64: { i64 x = (i64) v_draw_u64(63); if(d_bool()) x = (i64) (0ull - (u64) x); m->bits = (u64) x; return value_init_int64(v, x); }
        case VALUE_UINT64: m->bits = v_draw_u64(64); return value_init_uint64(v, m->bits);
        case VALUE_FLOAT: { float f = v_draw_float(); u32 x; memcpy(&x, &f, 4); m->bits = x; return value_init_float(v, f); }
        case VALUE_DOUBLE: { double d = v_draw_double(); memcpy(&m->bits, &d, 8); return value_init_double(v, d); }
        default: { static const VALUE init = VALUE_NULL_INITIALIZER; if(d_bool()) *v = init; else value_init_null(v); return 0; }
    }
}
static size_t v_draw_len(void)
{
    switch(D_WEIGHTED(6, 3, 2, 1)) {
        case 0: return (size_t) d_below(20);
        case 1: return (size_t) d_below(300);
        case 2: return 120 + (size_t) d_below(16);
        default: return d_chance(1, 8) ? 16376 + (size_t) d_below(16) : (size_t) d_below(2000);
    }
}
/* The bytes of a string, in a block of exactly that size. */
static char* v_draw_bytes(size_t len)
{
    char* s = (char*) h_malloc(len ? len : 1);
    if(len <= 24) d_fill(s, len);
    else { u64 x = d_seed(); size_t i; for(i = 0; i < len; i++) s[i] = (char) vf_next(&x); }
    return s;
}
static int v_init_str(VALUE* v, MV* m)
{
    size_t len = v_draw_len();
    char* s = v_draw_bytes(len);
    int r = value_init_string_(v, s, len);
    mv_set_string(m, s, len);
    memset(s, 0x5a, len);
    h_free(s);
    return r;
}

/* ---- keys of the small dictionaries inside trees ---- */
static char* v_draw_key(size_t* len)
{
    static const char* names[] = { "a", "b", "c", "foo", "bar", "aa", "A", "0", "1", "-1", "a b", "key-of-fourteen", "Foo" };
    char* s;
    if(vf_profile == 2 && d_chance(1, 3)) {
        static const u32 around[] = { 127, 16383, 32767, 65535, 131071, 1000000, 2097151 };
        *len = around[d_below(7)] - 3 + (size_t) d_below(8);
        s = (char*) h_malloc(*len); memset(s, 'k', *len); if(d_chance(1, 3)) s[*len - 1] = 'l';
        return s;
    }
    switch(D_WEIGHTED(20, 2, 2, 2, 3)) {
        case 4: { /* what means something elsewhere */
            static const char* signs[] = { ".", "..", "*", "**", " a", "a ", "\ta", "a\n", "%2F", "%61", "~1", "~0", "\\", "\\a", "\"a\"", "'a'", "$", "#", "?", "+", "-", "a.b", "a:b", "a,b", "{}", "()", "@a", "00", "01",
                "null", "true", "\xc3\xa9", "e\xcc\x81", "\xc3\x89", "\xe9", "FOO", "a=", "!a", "~", "foo.", "foo*" };
            const char* k = signs[d_below(sizeof(signs) / sizeof(signs[0]))]; *len = strlen(k); return (char*) h_dup(k, *len); }
        case 0: { const char* k = names[d_below(13)]; *len = strlen(k); return (char*) h_dup(k, *len); }
        case 1: *len = (size_t) d_below(4); s = (char*) h_malloc(*len + 1); d_fill(s, *len); return s;
        case 2: *len = 100 + (size_t) d_below(60); s = (char*) h_malloc(*len); memset(s, 'k', *len); return s;
        default: { static const char* odd[] = { "", "a/b", "[0]", "x[1]", "/", "]" }; const char* k = odd[d_below(6)]; *len = strlen(k); return (char*) h_dup(k, *len); }
    }
}
static int v_has_zero(const char* s, size_t len) { return memchr(s, 0, len) != NULL; }
/* value_dict_get_or_add() and the like with a key in a block of exactly its size, gone after the call */
static char* v_exact(const char* key, size_t len, int zero)
{
    char* s = (char*) h_malloc(len + (zero ? 1 : 0) + (len + (size_t) zero == 0));
    memcpy(s, key, len);
    if(zero) s[len] = 0;
    return s;
}
enum { K_GET, K_ADD, K_GETADD };
static VALUE* v_dict_op(VALUE* v, int op, const char* key, size_t len)
{
    int plain = !v_has_zero(key, len) && d_bool();
    char* s = v_exact(key, len, plain);
    VALUE* r = NULL;
    switch(op) {
        case K_GET: r = plain ? value_dict_get(v, s) : value_dict_get_(v, s, len); break;
        case K_ADD: r = plain ? value_dict_add(v, s) : value_dict_add_(v, s, len); break;
        default: r = plain ? value_dict_get_or_add(v, s) : value_dict_get_or_add_(v, s, len); break;
    }
    memset(s, 0x5b, len);
    h_free(s);
    return r;
}
static int v_dict_del(VALUE* v, const char* key, size_t len)
{
    int plain = !v_has_zero(key, len) && d_bool();
    char* s = v_exact(key, len, plain);
    int r = plain ? value_dict_remove(v, s) : value_dict_remove_(v, s, len);
    memset(s, 0x5b, len);
    h_free(s);
    return r;
}

/* Initialises an empty dictionary of any kind; a dictionary with neither flag nor order also through the short form. */
static int v_init_dict(VALUE* v, MV* m)
{
    int ordered = d_bool(), cmp = d_chance(1, 3) ? (int) d_below(N_CMP) : 0, own = cmp != 0 || d_chance(1, 6);
    mv_set_dict(m, ordered, cmp);
    if(!ordered && !own && d_bool()) return value_init_dict(v);
    return value_init_dict_ex(v, own ? k_funcs[cmp] : NULL, ordered ? VALUE_DICT_MAINTAINORDER : 0);
}

/* Initialises a value with any content, nested up to a depth. */
static size_t v_gen(VALUE* v, MV* m, int depth)
{
    size_t work = 1, k;
    switch(depth > 0 ? D_WEIGHTED(5, 2, 3, 3) : D_WEIGHTED(5, 3)) {
        case 0: {
            VALUE_TYPE t = (VALUE_TYPE) d_below(8);
            CHECK(v_init_scalar(v, m, t) == 0, "initialising a %s fails", v_name(t));
            break;
        }
        case 1: CHECK(v_init_str(v, m) == 0, "initialising a string fails"); break;
        case 2:
            mv_set_array(m);
            CHECK(value_init_array(v) == 0, "initialising an array fails");
            for(k = (size_t) d_below(6); k > 0; k--) {
                VALUE* x = value_array_append(v);
                MV* mx = mv_insert(m, m->n);
                CHECK(x != NULL && value_is_new(x), "append fails or its item is not new");
                if(d_chance(7, 8)) work += v_gen(x, mx, depth - 1), mx->isnew = 0;
            }
            break;
        default:
            CHECK(v_init_dict(v, m) == 0, "initialising a dict fails");
            for(k = (size_t) d_below(6); k > 0; k--) {
                size_t len;
                char* key = v_draw_key(&len);
                VALUE* x = v_dict_op(v, K_ADD, key, len);
                if(mv_find(m, key, len)) CHECK(x == NULL, "adding a present key succeeds");
                else {
                    MV* mx = mv_add(m, key, len);
                    CHECK(x != NULL && value_is_new(x), "adding an absent key fails or its value is not new");
                    if(d_chance(7, 8)) work += v_gen(x, mx, depth - 1);
                }
                h_free(key);
            }
    }
    return work;
}

#endif
