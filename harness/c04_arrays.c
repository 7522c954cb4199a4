/* C04: each of the nine typed arrays against a plain sequence. */
#include "bv.h"
#include "sparse.h"
#include "buffer.h"

const char vf_property[] = "C04";
const char vf_rule[] = "the history holds an insertion before existing items, a removal of several items, and a write by index";

static int f_ins, f_rem, f_set;

/* A count whose size in bytes is at the edge of size_t or beyond it (and in any case more than a block can have). */
static size_t huge_count(size_t item)
{
    size_t edge = SIZE_MAX / item;
    switch(d_below(5)) {
        case 0: return edge - d_size(20);
        case 1: return edge + 1 + d_size(item > 1 ? 20 : 0) - (item == 1);
        case 2: return SIZE_MAX - d_size(20);
        case 3: return item > 1 ? (edge + 1) * (1 + d_below((unsigned) item - 1)) + d_size(20) : SIZE_MAX / 2 + 1 + d_size(20);
        default: return edge / 2 + 1 + d_size(20);
    }
}

/* The system has no such block: nothing to be seen. */
#define REFUSED(c) do { failed = (c); if(failed && vf_alloc_failures() > 0) { vf_label("refused by the system"); buffer_fini(&a.buf); return; } } while(0)
/* The wrappers are called through generated code, one copy per type, so that types and widths are those a user sees. */
#define DEF(name, T, U)                                                                                                 \
static T draw_##name(void) { u64 r = d_u64(); T v; memcpy(&v, &r, sizeof(v)); return v; }                               \
static void same_##name(ARRAY_##name* a, const BV* m, const char* op)                                                   \
{                                                                                                                       \
    size_t n = m->n / sizeof(T), i;                                                                                     \
    const T* w = (const T*) m->p;                                                                                       \
    CHECK(array_##name##_size(a) == n, "array_" #name ": after %s the size is %zu instead of %zu", op, array_##name##_size(a), n); \
    CHECK(!!array_##name##_is_empty(a) == (n == 0), "array_" #name ": after %s is_empty is wrong (%zu items)", op, n);  \
    for(i = 0; i < n; i++) {                                                                                            \
        CHECK((T) array_##name##_get(a, i) == w[i], "array_" #name ": after %s item %zu of %zu differs", op, i, n);     \
        if(n > 50 && i == 20) i = n - 20;                                                                               \
    }                                                                                                                   \
    CHECK(n == 0 || memcmp(array_##name##_const_data(a), m->p, m->n) == 0, "array_" #name ": after %s the data differ", op); \
    CHECK((const void*) array_##name##_const_data(a) == (const void*) array_##name##_data(a), "array_" #name ": data accessors differ"); \
}                                                                                                                       \
static int at_##name(const void* o, size_t i) { T v = (T) array_##name##_get((const ARRAY_##name*) o, i); u8 b[sizeof(T)]; size_t k; memcpy(b, &v, sizeof(T)); for(k = 1; k < sizeof(T); k++) if(b[k] != b[0]) return -2; return b[0]; } \
static void giant_##name(void)                                                                                         \
{                                                                                                                      \
    ARRAY_##name a; SP m; int failed; T v; int k, ops = 3 + (int) d_below(4); size_t n, i, max = ((size_t) 5 << 30) / sizeof(T);   \
    m.n = 0; m.size = 0;                                                                                               \
    vf_mem_cap((size_t) 20 << 30);                                                                                     \
    array_##name##_init(&a);                                                                                           \
    n = sizeof(T) <= 2 && d_bool() ? sp_amount() : sp_amount() / sizeof(T);                                            \
    TRACE(#name " append_n %zu", n);                                                                                   \
    REFUSED(array_##name##_append_n(&a, n) != 0); CHECK(!failed, "array_" #name ": append_n of %zu fails", n);                           \
    sp_insert(&m, 0, n, -1);                                                                                           \
    for(k = 0; k < 10; k++) { i = sp_place(n - 1); memset(&v, k, sizeof(v)); array_##name##_set(&a, i, v); sp_set(&m, i, 1, k); } \
    sp_check(&m, at_##name, &a, "set");                                                                                \
    while(ops-- > 0) {                                                                                                 \
        const char* op = "?";                                                                                          \
        i = d_bool() ? sp_place(m.size) : m.size - d_size(m.size < 3000 ? m.size : 3000);                              \
        memset(&v, 100 + ops, sizeof(v));                                                                              \
        switch(d_below(6)) {                                                                                           \
            case 0: op = "insert"; TRACE(#name " insert at %zu of %zu", i, m.size); REFUSED(array_##name##_insert(&a, i, v) != 0); CHECK(!failed, "array_" #name ": insert fails"); sp_insert(&m, i, 1, 100 + ops); break; \
            case 1: op = "append"; TRACE(#name " append to %zu", m.size); REFUSED(array_##name##_append(&a, v) != 0); CHECK(!failed, "array_" #name ": append fails"); sp_insert(&m, m.size, 1, 100 + ops); break; \
            case 2: op = "remove"; if(i == m.size) break; TRACE(#name " remove at %zu of %zu", i, m.size); array_##name##_remove(&a, i); sp_remove(&m, i, 1); break; \
            case 3: op = "remove_n"; n = d_bool() ? (size_t) d_below(50) : sp_amount() / sizeof(T); TRACE(#name " remove_n %zu at %zu of %zu", n, i, m.size); array_##name##_remove_n(&a, i, n); sp_remove(&m, i, n); break; \
            case 4: op = "insert_n_raw"; n = d_bool() ? (size_t) d_below(50) : sp_amount() / sizeof(T); if(n + m.size > max) break; TRACE(#name " insert_n_raw %zu at %zu of %zu", n, i, m.size); \
                REFUSED(array_##name##_insert_n_raw(&a, i, n) != 0); CHECK(!failed, "array_" #name ": insert_n_raw fails"); sp_insert(&m, i, n, -1); break; \
            default: op = "set"; if(i == m.size) break; TRACE(#name " set %zu of %zu", i, m.size); array_##name##_set(&a, i, v); sp_set(&m, i, 1, 100 + ops); break; \
        }                                                                                                              \
        CHECK(array_##name##_size(&a) == m.size, "array_" #name ": after %s the size is %zu instead of %zu", op, array_##name##_size(&a), m.size); \
        sp_check(&m, at_##name, &a, op);                                                                               \
    }                                                                                                                  \
    { size_t sz = 1; void* p = array_##name##_acquire(&a, &sz); CHECK(sz == m.size, "array_" #name ": acquire tells %zu instead of %zu items", sz, m.size); vf_tracked_free(p); } \
    array_##name##_fini(&a);                                                                                           \
    vf_label("giant " #name);                                                                                          \
    vf_nontrivial();                                                                                                   \
}                                                                                                                      \
static void run_##name(unsigned avg, size_t lim)                                                                        \
{                                                                                                                       \
    static const ARRAY_##name init = ARRAY_##name##_INITIALIZER;                                                        \
    ARRAY_##name a;                                                                                                     \
    BV m = { 0 };                                                                                                       \
    int ops = 0;                                                                                                        \
    if(d_bool()) a = init; else { memset(&a, 0x3b, sizeof(a)); array_##name##_init(&a); }                               \
    same_##name(&a, &m, "init");                                                                                        \
    while(d_more(avg) && ops++ < 4000) {                                                                                \
        size_t n = m.n / sizeof(T), k, i, j;                                                                            \
        T v;                                                                                                            \
        const char* op = "?";                                                                                           \
        switch(D_WEIGHTED(8, 10, 4, 4, 4, 4, 6, 4, 6, 2, 4, 1)) {                                                           \
            case 0: v = draw_##name(); op = "append"; TRACE(#name " append");                                           \
                CHECK(array_##name##_append(&a, v) == 0, "array_" #name ": append failed");                             \
                bv_append(&m, &v, sizeof(v)); break;                                                                    \
            case 1: v = draw_##name(); i = d_size(n); op = "insert"; TRACE(#name " insert at %zu of %zu", i, n);        \
                CHECK(array_##name##_insert(&a, i, v) == 0, "array_" #name ": insert at %zu of %zu failed", i, n);      \
                bv_insert(&m, i * sizeof(T), &v, sizeof(v)); if(i < n) f_ins = 1; break;                                \
            case 2: i = d_size(n); v = draw_##name(); op = "insert_raw"; TRACE(#name " insert_raw at %zu of %zu", i, n); \
                CHECK(array_##name##_insert_raw(&a, i) == 0, "array_" #name ": insert_raw failed");                     \
                CHECK(array_##name##_size(&a) == n + 1, "array_" #name ": insert_raw did not add one item");            \
                array_##name##_set(&a, i, v); bv_insert(&m, i * sizeof(T), &v, sizeof(v)); if(i < n) f_ins = 1; break;  \
            case 3: i = d_size(n); k = d_size(lim); if(n + k > 30000) k = 0; op = "insert_n_raw";                       \
                TRACE(#name " insert_n_raw %zu at %zu of %zu", k, i, n);                                                \
                CHECK(array_##name##_insert_n_raw(&a, i, k) == 0, "array_" #name ": insert_n_raw of %zu failed", k);    \
                CHECK(array_##name##_size(&a) == n + k, "array_" #name ": insert_n_raw of %zu makes %zu of %zu items", k, array_##name##_size(&a), n); \
                { u64 s = d_seed(); for(j = 0; j < k; j++) { u64 r = vf_next(&s); memcpy(&v, &r, sizeof(v));            \
                    array_##name##_data(&a)[i + j] = v; bv_insert(&m, (i + j) * sizeof(T), &v, sizeof(v)); } }          \
                if(k && i < n) f_ins = 1; break;                                                                        \
            case 4: v = draw_##name(); op = "append_raw"; TRACE(#name " append_raw");                                   \
                CHECK(array_##name##_append_raw(&a) == 0, "array_" #name ": append_raw failed");                        \
                CHECK(array_##name##_size(&a) == n + 1, "array_" #name ": append_raw did not add one item");            \
                array_##name##_set(&a, n, v); bv_append(&m, &v, sizeof(v)); break;                                      \
            case 5: k = d_size(lim); if(n + k > 30000) k = 0; op = "append_n"; TRACE(#name " append_n %zu", k);         \
                CHECK(array_##name##_append_n(&a, k) == 0, "array_" #name ": append_n of %zu failed", k);               \
                CHECK(array_##name##_size(&a) == n + k, "array_" #name ": append_n of %zu makes %zu of %zu items", k, array_##name##_size(&a), n); \
                { u64 s = d_seed(); for(j = 0; j < k; j++) { u64 r = vf_next(&s); memcpy(&v, &r, sizeof(v));            \
                    array_##name##_set(&a, n + j, v); bv_append(&m, &v, sizeof(v)); } }                                 \
                break;                                                                                                  \
            case 11: op = "append_n of a huge count"; k = huge_count(sizeof(T)); i = d_size(n); TRACE(#name " huge %zu", k); \
                if(d_bool()) CHECK(array_##name##_append_n(&a, k) != 0, "array_" #name ": append_n of %zu items to %zu succeeds", k, n); \
                else CHECK(array_##name##_insert_n_raw(&a, i, k) != 0, "array_" #name ": insert_n_raw of %zu items to %zu succeeds", k, n); \
                vf_label("impossible count"); break;                                                                    \
            case 6: op = "remove"; if(n == 0) break; i = d_size(n - 1); TRACE(#name " remove %zu of %zu", i, n);        \
                array_##name##_remove(&a, i); bv_remove(&m, i * sizeof(T), sizeof(T)); break;                           \
            case 7: op = "remove_n"; i = d_size(n); k = d_chance(1, 6) ? d_size(n + 5) : d_size(n - i);                 \
                if(d_chance(1, 10)) { k = huge_count(sizeof(T)); vf_label("removal of a huge count"); }                 \
                TRACE(#name " remove_n %zu at %zu of %zu", k, i, n);                                                    \
                array_##name##_remove_n(&a, i, k); if(k > n - i) k = n - i; bv_remove(&m, i * sizeof(T), k * sizeof(T)); \
                if(k > 1 && i < n) f_rem = 1; break;                                                                    \
            case 8: op = "set"; if(n == 0) break; i = d_size(n - 1); v = draw_##name(); TRACE(#name " set %zu of %zu", i, n); \
                if(d_bool()) array_##name##_set(&a, i, v); else array_##name##_data(&a)[i] = v;                         \
                memcpy(m.p + i * sizeof(T), &v, sizeof(v)); f_set = 1; break;                                           \
            case 9: { size_t sz = 54321; T* p; int want = d_bool(); op = "acquire"; TRACE(#name " acquire of %zu", n);  \
                p = array_##name##_acquire(&a, want ? &sz : NULL);                                                      \
                CHECK(!want || sz == n, "array_" #name ": acquire tells %zu instead of %zu items", sz, n);              \
                CHECK(n == 0 || memcmp(p, m.p, m.n) == 0, "array_" #name ": the acquired block has other content");     \
                vf_tracked_free((void*) p); bv_truncate(&m, 0); break; }                                                \
            case 10: op = "get"; if(n == 0) break; i = d_size(n - 1);                                                   \
                CHECK((T) array_##name##_get(&a, i) == ((T*) m.p)[i], "array_" #name ": get of item %zu gives another value", i); \
                CHECK((U) array_##name##_const_data(&a)[i] == (U) ((T*) m.p)[i], "array_" #name ": item %zu read from the data differs", i); break; \
        }                                                                                                               \
        same_##name(&a, &m, op);                                                                                        \
    }                                                                                                                   \
    vf_label(#name);                                                                                                    \
    array_##name##_fini(&a);                                                                                            \
    h_free(m.p);                                                                                                        \
}

DEF(int8, int8_t, long long)
DEF(uint8, uint8_t, long long)
DEF(int16, int16_t, long long)
DEF(uint16, uint16_t, long long)
DEF(int32, int32_t, long long)
DEF(uint32, uint32_t, long long)
DEF(int64, int64_t, long long)
DEF(uint64, uint64_t, unsigned long long)
DEF(ptr, void*, void*)

void vf_case(void)
{
    static void (*const run[9])(unsigned, size_t) = { run_int8, run_uint8, run_int16, run_uint16, run_int32, run_uint32, run_int64, run_uint64, run_ptr };
    unsigned avg = d_avg();
    size_t lim = d_chance(1, 6) ? 2000 : 30;
    static void (*const giants[9])(void) = { giant_int8, giant_uint8, giant_int16, giant_uint16, giant_int32, giant_uint32, giant_int64, giant_uint64, giant_ptr };
    f_ins = f_rem = f_set = 0;
    if(vf_profile == 2) { giants[d_below(9)](); return; }
    run[d_below(9)](avg, lim);
    if(f_ins && f_rem && f_set) vf_nontrivial();
}
