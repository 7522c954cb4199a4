/* C03: two stacks against two reference byte sequences. */
#include "bv.h"
#include "sparse.h"
#include "buffer.h"

const char vf_property[] = "C03";
const char vf_rule[] = "typed items of at least three widths and a raw block were pushed, and something was popped after other pushes";

static void same(const STACK* s, const BV* m, const char* op)
{
    CHECK(stack_size(s) == m->n, "after %s the size is %zu instead of %zu", op, stack_size(s), m->n);
    CHECK(!!stack_is_empty(s) == (m->n == 0), "after %s is_empty is wrong", op);
    CHECK(m->n == 0 || memcmp(stack_const_data(s), m->p, m->n) == 0, "after %s the content differs", op);
}

#define TYPES(X) X(int8, int8_t) X(uint8, uint8_t) X(int16, int16_t) X(uint16, uint16_t) X(int32, int32_t) \
                 X(uint32, uint32_t) X(int64, int64_t) X(uint64, uint64_t) X(ptr, void*)

/* ---- beyond 4 GiB ---- */
static int byte_at(const void* o, size_t i) { return ((const u8*) stack_const_data((const STACK*) o))[i]; }
/* The system has no such block: nothing to be seen. */
#define REFUSED(c) do { failed = (c); if(failed && vf_alloc_failures() > 0) { vf_label("refused by the system"); stack_fini(&s); return; } } while(0)
static void giant(void)
{
    int failed;
    STACK s;
    SP m;
    u8 small[64], back[64];
    int k, ops = 4 + (int) d_below(12), typed = 0;
    size_t n, off, max = (size_t) 5 << 30;
    m.n = 0; m.size = 0;
    vf_mem_cap((size_t) 20 << 30);
    stack_init(&s);
    n = sp_amount();
    TRACE("push_raw %zu", n);
    REFUSED(stack_push_raw(&s, n) == NULL); CHECK(!failed, "push_raw of %zu bytes fails", n);
    sp_insert(&m, 0, n, -1);
    for(k = 0; k < 12; k++) { off = sp_place(n - 1); ((u8*) stack_data(&s))[off] = (u8) k; sp_set(&m, off, 1, k); }
    while(ops-- > 0) {
        const char* op = "?";
        switch(D_WEIGHTED(3, 3, 2, 2, 2)) {
            case 0:
                op = "push_uint64"; TRACE("push_uint64 on %zu", m.size);
                REFUSED(stack_push_uint64(&s, 0x0101010101010101ull * (unsigned) (50 + ops)) != 0); CHECK(!failed, "push_uint64 on %zu bytes fails", m.size);
                sp_insert(&m, m.size, 8, 50 + ops);
                CHECK(stack_peek_uint64(&s) == 0x0101010101010101ull * (unsigned) (50 + ops), "peek gives another value on %zu bytes", m.size);
                typed++;
                break;
            case 1:
                n = 1 + (size_t) d_below(64); op = "push"; memset(small, 100 + ops, n); TRACE("push %zu on %zu", n, m.size);
                REFUSED(stack_push(&s, small, n) != 0); CHECK(!failed, "push of %zu on %zu bytes fails", n, m.size);
                sp_insert(&m, m.size, n, 100 + ops);
                stack_peek(&s, back, n);
                CHECK(memcmp(small, back, n) == 0, "peek gives other bytes on %zu bytes", m.size);
                break;
            case 2: { u8 c; if(m.size < 9) break; op = "pop_uint8"; TRACE("pop_uint8 of %zu", m.size); c = ((u8*) stack_data(&s))[m.size - 1];
                CHECK(stack_peek_uint8(&s) == c && stack_pop_uint8(&s) == c, "pop gives another byte than lies on top of %zu bytes", m.size); sp_remove(&m, m.size - 1, 1); break; }
            case 3: n = sp_amount(); op = "push_raw"; if(n + m.size > max) break; TRACE("push_raw %zu on %zu", n, m.size);
                REFUSED(stack_push_raw(&s, n) == NULL); CHECK(!failed, "push_raw of %zu on %zu bytes fails", n, m.size); sp_insert(&m, m.size, n, -1);
                off = m.size - 1 - d_size(40); ((u8*) stack_data(&s))[off] = (u8) (150 + ops); sp_set(&m, off, 1, 150 + ops); break;
            default: n = d_bool() ? (size_t) d_below(100) : sp_amount(); op = "pop_raw"; if(n >= m.size) break; TRACE("pop_raw %zu of %zu", n, m.size);
                CHECK((const u8*) stack_peek_raw(&s, n) == (const u8*) stack_data(&s) + (m.size - n), "peek_raw of %zu of %zu bytes points elsewhere", n, m.size);
                stack_pop_raw(&s, n); sp_remove(&m, m.size - n, n); break;
        }
        CHECK(stack_size(&s) == m.size, "after %s the size is %zu instead of %zu", op, stack_size(&s), m.size);
        CHECK(!!stack_is_empty(&s) == (m.size == 0), "after %s is_empty is wrong", op);
        if(m.size == 0) break;
        sp_check(&m, byte_at, &s, op);
    }
    stack_fini(&s);
    vf_label("more than 2 GiB");
    if(typed) vf_nontrivial();
}

void vf_case(void)
{
    static const STACK init = STACK_INITIALIZER;
    STACK s[2];
    BV m[2] = { { 0 }, { 0 } };
    unsigned avg = d_avg(), widths = 0;
    int raw = 0, popped = 0, ops = 0;
    size_t lim = d_chance(1, 4) ? 3000 : 50;
    u8* tmp = (u8*) h_malloc(lim + 16);
    if(vf_profile == 2) { giant(); return; }

    if(d_bool()) s[0] = s[1] = init;
    else { memset(s, 0x91, sizeof(s)); stack_init(&s[0]); stack_init(&s[1]); }
    while(d_more(avg) && ops++ < 6000) {
        int k = d_chance(1, 6), t;
        STACK* x = &s[k]; BV* y = &m[k];
        size_t n;
        const char* op = "?";
        switch(D_WEIGHTED(8, 6, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1)) {
            case 0: /* typed push */
                t = (int) d_below(9);
                op = "push_<type>";
                if(y->n > 100000) break;
                switch(t) {
#define X(name, T) case (__COUNTER__ - BASE - 1): { u64 r = d_u64(); T v; memcpy(&v, &r, sizeof(v)); op = "push_" #name; \
                    TRACE("stack%d push_%s %llx", k, #name, (unsigned long long) r); \
                    CHECK(stack_push_##name(x, v) == 0, "%s failed", op); bv_append(y, &v, sizeof(v)); widths |= 1u << sizeof(v); break; }
                    enum { BASE = __COUNTER__ };
                    TYPES(X)
#undef X
                }
                break;
            case 1: /* typed peek and pop */
                t = (int) d_below(9);
                op = "pop_<type>";
                switch(t) {
#define X(name, T) case (__COUNTER__ - BASE2 - 1): if(y->n >= sizeof(T)) { T v; T w; op = "pop_" #name; \
                    TRACE("stack%d peek/pop_%s", k, #name); \
                    memcpy(&w, y->p + y->n - sizeof(T), sizeof(T)); \
                    if(d_bool()) { v = stack_peek_##name(x); CHECK(v == w, "peek_" #name " gives another value than was pushed"); same(x, y, "peek_" #name); } \
                    if(!d_chance(1, 5)) { v = stack_pop_##name(x); CHECK(v == w, "pop_" #name " gives another value than was pushed"); \
                      bv_truncate(y, y->n - sizeof(T)); popped = 1; } } break;
                    enum { BASE2 = __COUNTER__ };
                    TYPES(X)
#undef X
                }
                break;
            case 2: { /* block */
                u8* src;
                n = d_size(lim);
                if(y->n > 200000) n = 0;
                d_fill(tmp, n);
                op = "push";
                TRACE("stack%d push %zu", k, n);
                src = (u8*) h_dup(tmp, n);
                CHECK(stack_push(x, src, n) == 0, "push of %zu bytes failed", n);
                h_free(src);
                bv_append(y, tmp, n);
                raw = 1;
                break;
            }
            case 3: {
                u8* p;
                n = d_size(lim);
                if(y->n > 200000) n = 0;
                d_fill(tmp, n);
                op = "push_raw";
                TRACE("stack%d push_raw %zu", k, n);
                p = (u8*) stack_push_raw(x, n);
                CHECK(p != NULL && p == (u8*) stack_data(x) + y->n, "push_raw of %zu bytes gives a wrong pointer", n);
                if(n) memcpy(p, tmp, n);
                bv_append(y, tmp, n);
                raw = 1;
                break;
            }
            case 4: { /* peek */
                u8* dst;
                n = d_size(y->n < lim ? y->n : lim);
                op = "peek";
                TRACE("stack%d peek %zu", k, n);
                dst = (u8*) h_dup(tmp, n);
                if(y->n > 0 || n > 0) stack_peek(x, dst, n);
                CHECK(n == 0 || memcmp(dst, y->p + y->n - n, n) == 0, "peek of %zu bytes gives other bytes than were pushed", n);
                h_free(dst);
                break;
            }
            case 5:
                n = d_size(y->n);
                op = "peek_raw";
                TRACE("stack%d peek_raw %zu", k, n);
                if(n > 0)
                    CHECK(memcmp(stack_peek_raw(x, n), y->p + y->n - n, n) == 0, "peek_raw of %zu bytes points at other bytes", n);
                break;
            case 6: { /* pop */
                u8* dst;
                n = d_size(y->n < lim ? y->n : lim);
                op = "pop";
                TRACE("stack%d pop %zu of %zu", k, n, y->n);
                if(y->n == 0) break;
                dst = (u8*) h_dup(tmp, n);
                stack_pop(x, dst, n);
                CHECK(n == 0 || memcmp(dst, y->p + y->n - n, n) == 0, "pop of %zu bytes gives other bytes than were pushed", n);
                h_free(dst);
                bv_truncate(y, y->n - n);
                if(n) popped = 1;
                break;
            }
            case 7: {
                const u8* p;
                n = d_chance(1, 3) ? y->n : d_size(y->n);
                op = "pop_raw";
                TRACE("stack%d pop_raw %zu of %zu", k, n, y->n);
                if(y->n == 0) break;
                p = (const u8*) stack_pop_raw(x, n);
                CHECK(n == 0 || memcmp(p, y->p + y->n - n, n) == 0, "pop_raw of %zu bytes points at other bytes", n);
                bv_truncate(y, y->n - n);
                if(n) popped = 1;
                break;
            }
            case 8:
                op = "clear";
                TRACE("stack%d clear", k);
                stack_clear(x);
                bv_truncate(y, 0);
                break;
            case 9: {
                size_t sz = 99999;
                void* p;
                int want = d_bool();
                op = "acquire";
                TRACE("stack%d acquire", k);
                p = stack_acquire(x, want ? &sz : NULL);
                CHECK(!want || sz == y->n, "acquire tells %zu bytes instead of %zu", sz, y->n);
                CHECK(y->n == 0 || memcmp(p, y->p, y->n) == 0, "the acquired block has other content");
                vf_tracked_free(p);
                bv_truncate(y, 0);
                break;
            }
            case 10: {
                BV z = m[0];
                op = "swap";
                TRACE("swap");
                stack_swap(&s[0], &s[1]);
                m[0] = m[1]; m[1] = z;
                break;
            }
            case 11:
                n = d_size(lim);
                op = "reserve";
                TRACE("stack%d reserve %zu", k, n);
                CHECK(stack_reserve(x, n) == 0, "reserve failed");
                break;
        }
        same(&s[0], &m[0], op);
        same(&s[1], &m[1], op);
    }
    /* take everything out again */
    while(m[0].n >= 8) {
        u64 v, w;
        memcpy(&w, m[0].p + m[0].n - 8, 8);
        v = stack_pop_uint64(&s[0]);
        CHECK(v == w, "pop_uint64 gives another value than the bytes pushed");
        bv_truncate(&m[0], m[0].n - 8);
    }
    while(m[0].n >= 1) {
        CHECK(stack_pop_uint8(&s[0]) == m[0].p[m[0].n - 1], "pop_uint8 gives another byte");
        bv_truncate(&m[0], m[0].n - 1);
    }
    same(&s[0], &m[0], "popping everything");
    if(raw) vf_label("raw blocks");
    if(popped) vf_label("popped");
    if(ops > 100) vf_label("more than 100 operations");
    if(raw && popped && __builtin_popcount(widths) >= 3) vf_nontrivial();
    stack_fini(&s[0]);
    stack_fini(&s[1]);
}
