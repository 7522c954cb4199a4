/* C05: buffers, stacks and arrays under refused allocations. */
#include "bv.h"
#include "buffer.h"

const char vf_property[] = "C05";
const char vf_rule[] = "an operation on a non-empty container met a refused allocation, and a later operation needing memory succeeded";

static int refused, recovered;

static void same(BUFFER* b, const BV* m, const char* op)
{
    CHECK(buffer_size(b) == m->n, "after %s the size is %zu instead of %zu", op, buffer_size(b), m->n);
    CHECK(!!buffer_is_empty(b) == (m->n == 0), "after %s is_empty is wrong", op);
    CHECK(m->n == 0 || memcmp(buffer_const_data(b), m->p, m->n) == 0, "after %s the content of %zu bytes differs", op, m->n);
}

/* Whether the model takes the operation over: only a refused allocation excuses a failure. */
static int done(int ok, u64 failures, const char* op, size_t n, size_t size)
{
    int hit = vf_alloc_failures() != failures;
    if(!ok)
        CHECK(hit, "%s of %zu to %zu bytes failed though no allocation was refused", op, n, size);
    if(hit && size > 0) refused = 1;
    if(ok && !hit && refused && n > 0) recovered = 1;
    return ok;
}

void vf_case(void)
{
    STACK st;
    BUFFER* b = &st.buf;
    BV m = { 0 };
    unsigned avg = d_avg();
    int ops = 0, permanent = 0;
    refused = recovered = 0;
    size_t lim = d_chance(1, 4) ? 5000 : d_bool() ? 300 : 20;
    u8* tmp = (u8*) h_malloc(lim + 16);

    stack_init(&st);
    while(d_more(avg) && ops++ < 3000) {
        size_t n, off;
        u64 f;
        const char* op;
        if(permanent) {
            if(d_chance(1, 4)) { permanent = 0; vf_alloc_fail_none(); TRACE("memory is available again"); }
        } else switch(D_WEIGHTED(5, 4, 1, 1, 1)) {
            case 0: vf_alloc_fail_none(); break;
            case 1: vf_alloc_fail_at(1); TRACE("the next allocation is refused"); break;
            case 2: { u64 k = 1 + d_below(3); vf_alloc_fail_at(k); TRACE("allocation %llu is refused", (unsigned long long) k); break; }
            case 3: vf_alloc_fail_from(1); permanent = d_bool(); TRACE("allocations are refused from now on"); break;
            case 4: { size_t k = d_size(m.n * 3 + 100); vf_alloc_fail_over(k); permanent = d_bool(); TRACE("allocations over %zu bytes are refused", k); break; }
        }
        f = vf_alloc_failures();
        switch(D_WEIGHTED(4, 4, 2, 3, 3, 3, 2, 1, 4, 2, 2)) {
            case 0:
                n = d_size(lim); off = d_size(m.n); op = "insert";
                d_fill(tmp, n);
                TRACE("insert %zu at %zu of %zu", n, off, m.n);
                if(done(buffer_insert(b, off, tmp, n) == 0, f, op, n, m.n)) bv_insert(&m, off, tmp, n);
                break;
            case 1:
                n = d_size(lim); op = "append";
                d_fill(tmp, n);
                TRACE("append %zu to %zu", n, m.n);
                if(done(buffer_append(b, tmp, n) == 0, f, op, n, m.n)) bv_append(&m, tmp, n);
                break;
            case 2: {
                void* p;
                n = d_size(lim); off = d_size(m.n); op = "insert_raw";
                d_fill(tmp, n);
                TRACE("insert_raw %zu at %zu of %zu", n, off, m.n);
                p = buffer_insert_raw(b, off, n);
                if(done(p != NULL, f, op, n, m.n)) { if(n) memcpy(p, tmp, n); bv_insert(&m, off, tmp, n); }
                break;
            }
            case 3: {
                int r;
                n = d_bool() ? d_size(m.n + 50) : d_size(lim); op = "realloc";
                TRACE("realloc %zu (size %zu)", n, m.n);
                r = buffer_realloc(b, n);
                if(done(r == 0, f, op, n, m.n)) bv_truncate(&m, n);
                break;
            }
            case 4:
                n = d_size(lim); op = "reserve";
                TRACE("reserve %zu (size %zu)", n, m.n);
                done(buffer_reserve(b, n) == 0, f, op, n, m.n);
                break;
            case 5:
                op = "remove"; off = d_size(m.n); n = d_chance(1, 3) ? m.n - off : d_size(m.n - off + 1);
                TRACE("remove %zu at %zu of %zu", n, off, m.n);
                buffer_remove(b, off, n);
                if(vf_alloc_failures() != f) refused = 1;
                bv_remove(&m, off, n);
                break;
            case 6:
                op = "shrink";
                TRACE("shrink (size %zu)", m.n);
                buffer_shrink(b);
                if(vf_alloc_failures() != f) refused = 1;
                break;
            case 7:
                op = "clear";
                TRACE("clear");
                buffer_clear(b);
                bv_truncate(&m, 0);
                break;
            case 8: { /* typed pushes and pops */
                u64 v = d_bits();
                op = "push";
                TRACE("push to %zu", m.n);
                switch(d_below(9)) {
#define PUSH(i, name, T) case i: { T t; memcpy(&t, &v, sizeof(t)); if(done(stack_push_##name(&st, t) == 0, f, "push_" #name, sizeof(t), m.n)) bv_append(&m, &t, sizeof(t)); break; }
                    PUSH(0, int8, int8_t) PUSH(1, uint8, uint8_t) PUSH(2, int16, int16_t) PUSH(3, uint16, uint16_t) PUSH(4, int32, int32_t)
                    PUSH(5, uint32, uint32_t) PUSH(6, int64, int64_t) PUSH(7, uint64, uint64_t) PUSH(8, ptr, void*)
                }
                break;
            }
            case 9:
                op = "pop";
                n = d_size(m.n < lim ? m.n : lim);
                TRACE("pop %zu of %zu", n, m.n);
                if(n == 0) break;
                stack_pop(&st, tmp, n);
                CHECK(memcmp(tmp, m.p + m.n - n, n) == 0, "pop gives other bytes than were pushed");
                if(vf_alloc_failures() != f) refused = 1;
                bv_truncate(&m, m.n - n);
                break;
            default: { /* the same memory seen as an array of each type */
                u64 v = d_bits();
                op = "array operation";
                switch(d_below(9)) {
#define ARR(i, name, T) case i: { ARRAY_##name a; T t; size_t cnt = m.n / sizeof(T), at, r; memcpy(&t, &v, sizeof(t)); \
                    if(m.n % sizeof(T)) break; a.buf = *b; at = d_size(cnt); n = 1; \
                    TRACE("array_" #name " operation on %zu items", cnt); \
                    switch(d_below(7)) { \
                      case 0: r = array_##name##_append(&a, t); if(done(r == 0, f, "array_" #name "_append", sizeof(T), m.n)) bv_append(&m, &t, sizeof(T)); break; \
                      case 1: r = array_##name##_insert(&a, at, t); if(done(r == 0, f, "array_" #name "_insert", sizeof(T), m.n)) bv_insert(&m, at * sizeof(T), &t, sizeof(T)); break; \
                      case 2: r = array_##name##_append_raw(&a); if(done(r == 0, f, "array_" #name "_append_raw", sizeof(T), m.n)) { array_##name##_set(&a, cnt, t); bv_append(&m, &t, sizeof(T)); } break; \
                      case 3: r = array_##name##_insert_raw(&a, at); if(done(r == 0, f, "array_" #name "_insert_raw", sizeof(T), m.n)) { array_##name##_set(&a, at, t); bv_insert(&m, at * sizeof(T), &t, sizeof(T)); } break; \
                      case 4: n = d_size(lim / sizeof(T)); r = array_##name##_append_n(&a, n); if(done(r == 0, f, "array_" #name "_append_n", n * sizeof(T), m.n)) { size_t q; for(q = 0; q < n; q++) { array_##name##_set(&a, cnt + q, t); bv_append(&m, &t, sizeof(T)); } } break; \
                      case 5: n = d_size(lim / sizeof(T)); r = array_##name##_insert_n_raw(&a, at, n); if(done(r == 0, f, "array_" #name "_insert_n_raw", n * sizeof(T), m.n)) { size_t q; for(q = 0; q < n; q++) { array_##name##_set(&a, at + q, t); bv_insert(&m, at * sizeof(T), &t, sizeof(T)); } } break; \
                      case 6: n = d_size(cnt - at); array_##name##_remove_n(&a, at, n); if(vf_alloc_failures() != f) refused = 1; bv_remove(&m, at * sizeof(T), n * sizeof(T)); break; \
                    } *b = a.buf; break; }
                    ARR(0, int8, int8_t) ARR(1, uint8, uint8_t) ARR(2, int16, int16_t) ARR(3, uint16, uint16_t) ARR(4, int32, int32_t)
                    ARR(5, uint32, uint32_t) ARR(6, int64, int64_t) ARR(7, uint64, uint64_t) ARR(8, ptr, void*)
                }
                break;
            }
        }
        same(b, &m, op);
    }
    vf_alloc_fail_none();
    d_fill(tmp, 16);
    CHECK(buffer_append(b, tmp, 16) == 0, "append fails though memory is available again");
    bv_append(&m, tmp, 16);
    same(b, &m, "the last append");
    if(refused) vf_label("refused allocation");
    if(recovered) vf_label("growth after a refusal");
    if(refused && recovered) vf_nontrivial();
    stack_fini(&st);
}
