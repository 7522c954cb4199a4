/* C17-C20: scalars, compatibility, strings, wrong types. */
#include "vmodel.h"

const char vf_property[] = VF_PROPERTY;

/* A value with guards on both sides, so that a write outside it is seen. */
typedef struct { VALUE before, v, after; u8 mark; } BOX;
static BOX* box_new(void)
{
    BOX* b = (BOX*) h_malloc(sizeof(BOX));
    b->mark = d_chance(1, 2) ? 0xA5 : (u8) d_below(256);
    memset(&b->before, b->mark, sizeof(VALUE));
    memset(&b->after, b->mark, sizeof(VALUE));
    memset(&b->v, d_chance(1, 2) ? 0xFF : (int) d_below(256), sizeof(VALUE));
    return b;
}
static void box_check(BOX* b, const char* when)
{
    size_t i;
    for(i = 0; i < sizeof(VALUE); i++)
        CHECK(b->before.data[i] == b->mark && b->after.data[i] == b->mark, "%s: memory next to the value was overwritten", when);
}

#if defined VF_C17 || defined VF_C18
/* The number a value stands for; 64-bit mantissas hold all of them exactly. */
static long double num(const MV* m)
{
    switch(m->type) {
        case VALUE_INT32: case VALUE_INT64: return (long double) (i64) m->bits;
        case VALUE_UINT32: case VALUE_UINT64: return (long double) m->bits;
        case VALUE_FLOAT: { float f; u32 x = (u32) m->bits; memcpy(&f, &x, 4); return f; }
        default: { double d; memcpy(&d, &m->bits, 8); return d; }
    }
}
static int is_int(int t) { return t >= VALUE_INT32 && t <= VALUE_UINT64; }
static int is_num(int t) { return t >= VALUE_INT32 && t <= VALUE_DOUBLE; }
static const long double lo[] = { -2147483648.0L, 0, -9223372036854775808.0L, 0 };
static const long double hi[] = { 2147483647.0L, 4294967295.0L, 9223372036854775807.0L, 18446744073709551615.0L };
#define IN(x, t) ((x) >= lo[(t) - VALUE_INT32] && (x) <= hi[(t) - VALUE_INT32])
static u64 get_int(const VALUE* v, int t)
{
    switch(t) {
        case VALUE_INT32: return (u64) (i64) value_int32(v);
        case VALUE_UINT32: return value_uint32(v);
        case VALUE_INT64: return (u64) value_int64(v);
        default: return value_uint64(v);
    }
}
static u64 wrap_int(u64 x, int t)
{
    switch(t) {
        case VALUE_INT32: return (u64) (i64) (int32_t) (u32) x;
        case VALUE_UINT32: return (u32) x;
        default: return x;
    }
}
static u64 to_bits(long double x, int t) { return t == VALUE_INT32 || t == VALUE_INT64 ? (u64) (i64) x : (u64) x; }
#endif

#ifdef VF_C17
const char vf_rule[] = "at least four numbers not all of one type were read through every getter, one of them floating or out of the range of some type";

static int saw_odd;

static void check_scalar(const VALUE* v, MV* m, const char* when)
{
    int t;
    long double x;
    v_check(v, m, when);
    if(!is_num(m->type)) return;
    x = num(m);
    for(t = VALUE_INT32; t <= VALUE_UINT64; t++) {
        u64 got = get_int(v, t);
        if(is_int(m->type)) {
            u64 want = wrap_int(m->bits, t);
            if(!IN(x, t)) saw_odd = 1;
            CHECK(got == want, "%s: %s %.20Lg read as %s is %lld (0x%llx) and should be %lld", when, v_name(m->type), x, v_name(t), (long long) got, (unsigned long long) got, (long long) want);
        } else if(!isnan(x)) {
            long double r = roundl(x);
            saw_odd = 1;
            if(IN(r, t))
                CHECK(got == to_bits(r, t), "%s: %s %.20Lg read as %s is %lld (0x%llx) and should be %.0Lf", when, v_name(m->type), x, v_name(t), (long long) got, (unsigned long long) got, r);
        }
    }
    if(!isnan(x)) {
        float f = value_float(v);
        double d = value_double(v);
        if(!(m->type == VALUE_DOUBLE && fabsl(x) > 3.4028234663852886e38L && !isinf(x)))
            CHECK(f == (float) x && signbit(f) == signbit((float) x), "%s: %s %.20Lg read as float is %.9g", when, v_name(m->type), x, (double) f);
        CHECK(d == (double) x && signbit(d) == signbit((double) x), "%s: %s %.20Lg read as double is %.17g", when, v_name(m->type), x, d);
    } else {
        CHECK(isnan(value_float(v)) && isnan(value_double(v)), "%s: not-a-number is read as a number", when);
    }
}

void vf_case(void)
{
    enum { N = 24 };
    VALUE* v[N];
    BOX* box[N];
    MV* m[N];
    VALUE arr, dict;
    unsigned seen = 0;
    int n = 0, numbers = 0, i, in_array = 0;
    unsigned avg = d_avg();
    saw_odd = 0;
    mv_clock = 0;
    CHECK(value_init_array(&arr) == 0 && value_init_dict(&dict) == 0, "no container");
    for(i = 0; i < 4; i++) value_array_append(&arr);
    while(n < N && d_more(avg < 4 ? 4 : avg)) {
        VALUE_TYPE t = (VALUE_TYPE) d_weighted((const unsigned[]){ 1, 1, 3, 3, 3, 3, 5, 5 }, 8);
        char key[8];
        int r;
        m[n] = mv_new(NULL, 0);
        box[n] = NULL;
        switch(D_WEIGHTED(4, 1, 1)) {
            case 0: box[n] = box_new(); v[n] = &box[n]->v; break;
            case 1: if(in_array < 4) { v[n] = value_array_get(&arr, in_array++); break; }   /* fall through */
            default: sprintf(key, "%d", n); v[n] = value_dict_add(&dict, key); break;
        }
        r = v_init_scalar(v[n], m[n], t);
        TRACE("%d: %s %.20Lg", n, v_name(t), is_num(t) ? num(m[n]) : (long double) m[n]->b);
        CHECK(r == 0, "initialising a %s fails", v_name(t));
        check_scalar(v[n], m[n], "just initialised");
        if(box[n]) box_check(box[n], "just initialised");
        if(is_num(t)) { numbers++; seen |= 1u << t; }
        if(d_chance(1, 8)) {
            value_fini(v[n]);
            mv_reset(m[n]);
            check_scalar(v[n], m[n], "finalised");
            r = v_init_scalar(v[n], m[n], (VALUE_TYPE) d_below(8));
            CHECK(r == 0, "initialising again fails");
        }
        n++;
    }
    for(i = 0; i < n; i++) {
        check_scalar(v[i], m[i], "at the end");
        if(box[i]) box_check(box[i], "at the end");
    }
    for(i = 0; i < n; i++) { value_fini(v[i]); mv_reset(m[i]); check_scalar(v[i], m[i], "finalised"); if(box[i]) box_check(box[i], "finalised"); }
    value_fini(&arr);
    value_fini(&dict);
    if(seen & ((1u << VALUE_FLOAT) | (1u << VALUE_DOUBLE))) vf_label("floating");
    if(numbers >= 4 && (seen & (seen - 1)) && saw_odd) vf_nontrivial();
}

#elif defined VF_C18
const char vf_rule[] = "at least four numbers were asked about all types, with both answers for integer types";

static int yes, no;

static void check_compat(const VALUE* v, MV* m, const char* when)
{
    int t;
    for(t = VALUE_NULL; t <= VALUE_DICT; t++) {
        int got = value_is_compatible(v, (VALUE_TYPE) t), want;
        if(t == (int) m->type) want = 1;
        else if(!is_num(m->type) || !is_num(t)) want = 0;
        else if(!is_int(t)) want = 1;
        else {
            long double x = num(m);
            want = !isnan(x) && IN(x, t) && x == truncl(x);
            if(want) yes = 1; else no = 1;
        }
        CHECK(!!got == want, "%s: a %s %.20Lg is %scompatible with %s", when, v_name(m->type), is_num(m->type) ? num(m) : 0.0L, got ? "" : "not ", v_name(t));
        if(want && is_int(t)) CHECK(get_int(v, t) == to_bits(num(m), t), "%s: a %s %.20Lg compatible with %s is read as %lld", when, v_name(m->type), num(m), v_name(t), (long long) get_int(v, t));
    }
    v_check(v, m, when);
}

void vf_case(void)
{
    int numbers = 0, i;
    yes = no = 0;
    mv_clock = 0;
    for(i = 0; i < 12; i++) {
        BOX* b = box_new();
        MV* m = mv_new(NULL, 0);
        if(!d_chance(1, 8)) {
            VALUE_TYPE t = (VALUE_TYPE) d_weighted((const unsigned[]){ 1, 1, 3, 3, 3, 3, 5, 5 }, 8);
            CHECK(v_init_scalar(&b->v, m, t) == 0, "initialising fails");
            if(is_num(t)) numbers++;
        } else v_gen(&b->v, m, 1);
        TRACE("%s %.20Lg", v_name(m->type), is_num(m->type) ? num(m) : 0.0L);
        check_compat(&b->v, m, "compatibility");
        box_check(b, "compatibility");
        value_fini(&b->v);
        mv_reset(m);
        check_compat(&b->v, m, "finalised");
    }
    if(numbers >= 4 && yes && no) vf_nontrivial();
}

#elif defined VF_C19
const char vf_rule[] = "at least three strings, one of 128 bytes or more or with a zero byte inside, were alive at once";

typedef struct { BOX* b; VALUE* v; size_t len; u64 seed; char* copy; } STR;

static char pat(u64 seed, size_t i) { return (char) (vf_mix(seed + i / 8) >> (i % 8 * 8)); }

static void check_str(STR* s, const char* when)
{
    const char* p = value_string(s->v);
    size_t i;
    CHECK(value_type(s->v) == VALUE_STRING, "%s: type is %s", when, v_name(value_type(s->v)));
    CHECK(value_string_length(s->v) == s->len, "%s: the length is %zu and should be %zu", when, value_string_length(s->v), s->len);
    CHECK(p != NULL, "%s: a string of %zu bytes is NULL", when, s->len);
    if(s->copy) CHECK(memcmp(p, s->copy, s->len) == 0, "%s: a string of %zu bytes differs: %s and should be %s", when, s->len, vf_hex(p, s->len), vf_hex(s->copy, s->len));
    else if(s->seed) for(i = 0; i < s->len; i++) CHECK(p[i] == pat(s->seed, i), "%s: byte %zu of %zu differs", when, i, s->len);
    CHECK(p[s->len] == 0, "%s: a string of %zu bytes is not terminated", when, s->len);
    if(s->b) box_check(s->b, when);
}

#include <sys/mman.h>

static void giant(void)
{
    /* zero pages that are never touched: only the copy takes memory */
    static const u64 mids[] = { 1ull << 28, 1ull << 31, 1ull << 32 };
    int w = (int) d_below(10);
    size_t len = w >= 8 ? ((size_t) 1 << 32) + (size_t) d_below(1000) : w < 3 ? (size_t) (mids[w] - 3 + d_below(6)) : w < 6 ? (size_t) (mids[w - 3] / 2 - 3 + d_below(6)) : (1u << 21) - 3 + (size_t) d_below(6), k;
    STR s = { NULL, NULL, len, 0, NULL };
    VALUE v;
    const size_t spot = (size_t) d_below(len);
    char* src = (char*) mmap(NULL, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    const char* p;
    if(src == MAP_FAILED) return;
    vf_mem_cap((size_t) 6 << 30);
    src[0] = 'A'; src[spot] = 'B'; src[len - 1] = 'C'; src[len] = 'D';
    TRACE("a string of %zu bytes", len);
    if(value_init_string_(&v, src, len) == 0) {
        static const char zero[4096];
        s.v = &v;
        check_str(&s, "a huge string");
        p = value_string(&v);
        CHECK(p[len - 1] == 'C' && (len == 1 || spot == len - 1 || p[spot] == 'B') && (spot == 0 || len == 1 || p[0] == 'A'), "a huge string differs at a marked byte");
        for(k = 1; k + 4096 < len; k += 4096 * 257)
            if(spot < k || spot >= k + 4096) CHECK(memcmp(p + k, zero, 4096) == 0, "a huge string differs near byte %zu", k);
        value_fini(&v);
        CHECK(value_type(&v) == VALUE_NULL, "finalised: the type is %s", v_name(value_type(&v)));
        vf_nontrivial();
        vf_label(len >> 31 ? "2 GB and more" : len >> 28 ? "256 MB and more" : "big");
    } else { CHECK(vf_alloc_failures() > 0, "initialising a string of %zu bytes fails without reason", len); vf_label("refused"); }
    munmap(src, len + 4096);
}

void vf_case(void)
{
    enum { N = 16 };
    STR s[N];
    VALUE dict;
    int n = 0, i, zeros = 0, big = 0, serial = 0;
    size_t work = 0, before = vf_live_blocks();
    unsigned avg = d_avg();
    mv_clock = 0;
    if(vf_profile == 2) { giant(); return; }
    CHECK(value_init_dict(&dict) == 0, "no container");
    before = vf_live_blocks();
    while(n < N && work < 8000000 && d_more(avg < 4 ? 4 : avg)) {
        STR* x = &s[n];
        size_t len, i;
        char* src;
        int r;
        switch(D_WEIGHTED(8, 4, 4, 2, 1)) {
            case 0: len = (size_t) d_below(18); break;
            case 1: len = 120 + (size_t) d_below(16); break;
            case 2: len = d_size(3000); break;
            case 3: len = 16376 + (size_t) d_below(16); break;
            default: len = d_chance(1, vf_profile == 1 ? 20 : 100) ? (1u << 21) - 4 + (size_t) d_below(8) : (size_t) d_below(70000); break;
        }
        x->len = len; x->copy = NULL; x->seed = 0; x->b = NULL;
        work += len + 20;
        if(d_chance(3, 4)) { x->b = box_new(); x->v = &x->b->v; }
        else { char key[12]; sprintf(key, "%d", serial++); x->v = value_dict_add(&dict, key); }
        switch(D_WEIGHTED(8, 5, 1)) {
            case 0: /* any bytes */
                src = (char*) h_malloc(len ? len : 1);
                if(len <= 40) { d_fill(src, len); x->copy = (char*) h_dup(src, len); }
                else { x->seed = 1 + d_seed(); for(i = 0; i < len; i++) src[i] = pat(x->seed, i); }
                if(memchr(src, 0, len)) zeros = 1;
                r = value_init_string_(x->v, src, len);
                memset(src, 0x77, len);
                h_free(src);
                break;
            case 1: /* a C string */
                src = (char*) h_malloc(len + 1);
                { u64 q = d_seed(); for(i = 0; i < len; i++) src[i] = (char) (1 + vf_next(&q) % 255); }
                src[len] = 0;
                x->copy = (char*) h_dup(src, len);
                r = value_init_string(x->v, src);
                memset(src, 0x77, len);
                h_free(src);
                break;
            default:
                x->copy = (char*) h_malloc(1);
                x->len = 0;
                r = d_bool() ? value_init_string(x->v, NULL) : value_init_string_(x->v, NULL, d_bool() ? len : (size_t) d_below(20));
        }
        TRACE("string %d of %zu bytes", n, x->len);
        CHECK(r == 0, "initialising a string of %zu bytes fails", x->len);
        check_str(x, "just initialised");
        if(x->len >= 128) big = 1;
        n++;
        if(d_chance(1, 10)) {
            n--;
            value_fini(x->v);
            CHECK(value_type(x->v) == VALUE_NULL && value_string(x->v) == NULL && value_string_length(x->v) == 0, "finalised: still a string");
            if(x->b) { box_check(x->b, "finalised"); h_free(x->b); }
            if(x->copy) h_free(x->copy);
        } else if(d_chance(1, 10)) check_str(&s[d_below((u64) n)], "later");
    }
    (void) before;
    for(i = 0; i < n; i++) check_str(&s[i], "at the end");
    for(i = 0; i < n; i++) value_fini(s[i].v);
    value_fini(&dict);
    if(zeros) vf_label("zero bytes inside");
    if(big) vf_label("128 bytes and more");
    if(n >= 3 && (zeros || big)) vf_nontrivial();
}

#else /* VF_C20 */
const char vf_rule[] = "operations of at least four other types were tried, among them some on a populated container or a string";

static int never(const VALUE* k, VALUE* v, void* c) { (void) k; (void) v; (void) c; vf_fail("a walk over a value that is no dictionary visits something"); }

void vf_case(void)
{
    BOX* b = box_new();
    MV* m = mv_new(NULL, 0);
    VALUE* v = &b->v;
    VALUE arr;
    int in_arr = d_chance(1, 4), is_null_ptr = d_chance(1, 12), t, i, n = 0, rich;
    unsigned kinds = 0;
    mv_clock = 0;
    CHECK(value_init_array(&arr) == 0, "no array");
    if(in_arr) { v = value_array_append(&arr); m->isnew = 1; }
    if(!in_arr || d_chance(3, 4)) v_gen(v, m, 2);
    if(is_null_ptr) { value_fini(v); mv_reset(m); m->isnew = 0; }
    TRACE("a %s%s", is_null_ptr ? "NULL pointer as " : "", v_name(m->type));
    t = (int) m->type;
    rich = t == VALUE_STRING || (t >= VALUE_ARRAY && m->n > 0);
    for(i = 4 + (int) d_below(30); i > 0; i--) {
        VALUE* x = is_null_ptr ? NULL : v;
        size_t idx = d_chance(1, 3) ? d_u64() : (size_t) d_below(4), cnt = (size_t) d_below(3), len, calls = vf_alloc_calls(), live = vf_live_bytes();
        int op = (int) d_below(28);
        char* key = v_draw_key(&len);
        const VALUE* buf[3] = { NULL, NULL, NULL };
        int is_num = t >= VALUE_INT32 && t <= VALUE_DOUBLE;
        TRACE("operation %d, index %zu", op, idx);
        n++;
        switch(op) {
            case 0: if(t != VALUE_BOOL) { CHECK(value_bool(x) == -1, "bool of a %s is %d", v_name(t), value_bool(x)); kinds |= 1; } break;
            case 1: if(!is_num) { CHECK(value_int32(x) == -1, "int32 of a %s is %d", v_name(t), (int) value_int32(x)); kinds |= 2; } break;
            case 2: if(!is_num) { CHECK(value_uint32(x) == UINT32_MAX, "uint32 of a %s is %u", v_name(t), (unsigned) value_uint32(x)); kinds |= 2; } break;
            case 3: if(!is_num) { CHECK(value_int64(x) == -1, "int64 of a %s is %lld", v_name(t), (long long) value_int64(x)); kinds |= 2; } break;
            case 4: if(!is_num) { CHECK(value_uint64(x) == UINT64_MAX, "uint64 of a %s is %llu", v_name(t), (unsigned long long) value_uint64(x)); kinds |= 2; } break;
            case 5: if(!is_num) { CHECK(value_float(x) == -1.0f, "float of a %s is %g", v_name(t), (double) value_float(x)); kinds |= 2; } break;
            case 6: if(!is_num) { CHECK(value_double(x) == -1.0, "double of a %s is %g", v_name(t), value_double(x)); kinds |= 2; } break;
            case 7: if(t != VALUE_STRING) { CHECK(value_string(x) == NULL, "string of a %s is not NULL", v_name(t)); kinds |= 4; } break;
            case 8: if(t != VALUE_STRING) { CHECK(value_string_length(x) == 0, "string length of a %s is %zu", v_name(t), value_string_length(x)); kinds |= 4; } break;
            case 9: if(t != VALUE_ARRAY) { CHECK(value_array_size(x) == 0, "array size of a %s is %zu", v_name(t), value_array_size(x)); kinds |= 8; } break;
            case 10: if(t != VALUE_ARRAY) { CHECK(value_array_get(x, idx) == NULL, "array item %zu of a %s is not NULL", idx, v_name(t)); kinds |= 8; } break;
            case 11: if(t != VALUE_ARRAY) { CHECK(value_array_get_all(x) == NULL, "array items of a %s are not NULL", v_name(t)); kinds |= 8; } break;
            case 12: if(t != VALUE_ARRAY) { CHECK(value_array_append(x) == NULL, "append to a %s succeeds", v_name(t)); kinds |= 8; } break;
            case 13: if(t != VALUE_ARRAY) { CHECK(value_array_insert(x, idx) == NULL, "insertion to a %s succeeds", v_name(t)); kinds |= 8; } break;
            case 14: if(t != VALUE_ARRAY) { CHECK(value_array_remove(x, idx) == -1, "removal of an item of a %s does not fail", v_name(t)); kinds |= 8; } break;
            case 15: if(t != VALUE_ARRAY) { CHECK(value_array_remove_range(x, idx, cnt) == -1, "removal of %zu items of a %s does not fail", cnt, v_name(t)); kinds |= 8; } break;
            case 16: if(t != VALUE_ARRAY) { value_array_clean(x); kinds |= 8; } break;
            case 17: if(t != VALUE_DICT) { CHECK(value_dict_size(x) == 0, "dict size of a %s is %zu", v_name(t), value_dict_size(x)); kinds |= 16; } break;
            case 18: if(t != VALUE_DICT) { CHECK(value_dict_flags(x) == 0, "dict flags of a %s are %#x", v_name(t), value_dict_flags(x)); kinds |= 16; } break;
            case 19: case 20: case 21: if(t != VALUE_DICT) { CHECK(v_dict_op(x, op - 19, key, len) == NULL, "dict operation %d on a %s succeeds", op - 19, v_name(t)); kinds |= 16; } break;
            case 22: if(t != VALUE_DICT) { CHECK(v_dict_del(x, key, len) == -1, "removal of a key of a %s does not fail", v_name(t)); kinds |= 16; } break;
            case 23: if(t != VALUE_DICT) { CHECK(value_dict_walk_sorted(x, never, NULL) == -1 && value_dict_walk_ordered(x, never, NULL) == -1, "a walk over a %s does not fail", v_name(t)); kinds |= 16; } break;
            case 24: if(t != VALUE_DICT) { CHECK(value_dict_keys_sorted(x, buf, 3) == 0 && value_dict_keys_ordered(x, buf, 3) == 0 && !buf[0] && !buf[1] && !buf[2], "keys of a %s are found", v_name(t)); kinds |= 16; } break;
            case 25: if(t != VALUE_DICT) { value_dict_clean(x); kinds |= 16; } break;
            case 26: if(t != VALUE_DICT && !m->isnew) { CHECK(value_path(x, "a") == NULL && value_build_path(x, "a") == NULL, "a key of a %s is found by path", v_name(t)); kinds |= 32; } break;
            default: if(t != VALUE_ARRAY && !m->isnew) { CHECK(value_path(x, "[0]") == NULL && value_build_path(x, "[]") == NULL && value_build_path(x, "[-1]") == NULL, "an index of a %s is found by path", v_name(t)); kinds |= 32; } break;
        }
        h_free(key);
        CHECK(vf_live_bytes() == live, "operation %d on a %s changes the memory held", op, v_name(t));
        (void) calls;
        if(is_null_ptr) CHECK(value_type(NULL) == VALUE_NULL && !value_is_new(NULL), "NULL is of type %s", v_name(value_type(NULL)));
    }
    v_check(v, m, "after operations of other types");
    box_check(b, "after operations of other types");
    if(!in_arr) value_fini(v);
    value_fini(&arr);
    vf_label(v_name(t));
    for(i = 0; kinds; kinds &= kinds - 1) i++;
    if(i >= 3 && rich) vf_nontrivial();
}
#endif
