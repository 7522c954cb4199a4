/* C01: two buffers against two reference byte sequences. */
#include "bv.h"
#include "sparse.h"
#include "buffer.h"

const char vf_property[] = "C01";
const char vf_rule[] = "the history holds at least one insertion into the middle, one removal, and one reallocation of a non-empty buffer";

static size_t maxlen(void)
{
    switch(d_weighted((const unsigned[]){8, 4, 1}, 3)) {
        case 0: return 40;
        case 1: return 700;
        default: return vf_profile ? 70000 : 5000;
    }
}

static void same(const BUFFER* b, const BV* m, const char* op)
{
    CHECK(buffer_size(b) == m->n, "after %s the size is %zu instead of %zu", op, buffer_size(b), m->n);
    CHECK(!!buffer_is_empty(b) == (m->n == 0), "after %s is_empty is wrong (size %zu)", op, m->n);
    if(m->n > 0) {
        const u8* d = (const u8*) buffer_const_data(b);
        CHECK(d != NULL, "after %s there is no data", op);
        if(memcmp(d, m->p, m->n) != 0) {
            size_t i = 0;
            while(d[i] == m->p[i]) i++;
            vf_fail("after %s byte %zu of %zu is %02x instead of %02x", op, i, m->n, d[i], m->p[i]);
        }
    }
}

/* ---- beyond 4 GiB ---- */
static int byte_at(const void* o, size_t i) { return *(const u8*) buffer_const_data_at((const BUFFER*) o, i); }
/* The system has no such block: nothing to be seen. */
#define REFUSED(c) do { failed = (c); if(failed && vf_alloc_failures() > 0) { vf_label("refused by the system"); buffer_fini(&b); return; } } while(0)
static void giant(void)
{
    int failed;
    BUFFER b;
    SP m;
    u8 small[64];
    int k, ops = 3 + (int) d_below(4), big = 0;
    size_t n, off, max = (size_t) 5 << 30;
    m.n = 0; m.size = 0;
    vf_mem_cap((size_t) 20 << 30);
    buffer_init(&b);
    n = sp_amount();
    TRACE("append_raw %zu", n);
    REFUSED(buffer_append_raw(&b, n) == NULL); CHECK(!failed, "append_raw of %zu bytes fails", n);
    sp_insert(&m, 0, n, -1);
    for(k = 0; k < 10; k++) { off = sp_place(n - 1); *(u8*) buffer_data_at(&b, off) = (u8) k; sp_set(&m, off, 1, k); }
    while(ops-- > 0) {
        const char* op = "?";
        CHECK(buffer_size(&b) == m.size && !buffer_is_empty(&b), "the size is %zu instead of %zu", buffer_size(&b), m.size);
        off = sp_place(m.size);
        switch(D_WEIGHTED(4, 3, 2, 2, 1)) {
            case 0:
                n = 1 + (size_t) d_below(64); op = "insert"; memset(small, 100 + ops, n);
                TRACE("insert %zu at %zu of %zu", n, off, m.size);
                REFUSED(buffer_insert(&b, off, small, n) != 0); CHECK(!failed, "insert of %zu at %zu of %zu bytes fails", n, off, m.size);
                sp_insert(&m, off, n, 100 + ops); big = 1;
                break;
            case 1:
                n = 1 + (size_t) d_below(64); op = "removal of some";
                TRACE("remove %zu at %zu of %zu", n, off, m.size);
                buffer_remove(&b, off, n); sp_remove(&m, off, n); big = 1;
                break;
            case 2: {
                void* base; size_t total; char* v;
                n = sp_amount(); op = "insert of much"; if(m.size > max || n > max) break;
                v = huge_view(n, 200 + ops, &base, &total);
                TRACE("insert %zu at %zu of %zu", n, off, m.size);
                k = buffer_insert(&b, off, v, n);
                munmap(base, total);
                REFUSED(k != 0); CHECK(!failed, "insert of %zu at %zu of %zu bytes fails", n, off, m.size);
                sp_insert(&m, off, n, 200 + ops); big = 1;
                break;
            }
            case 3:
                n = sp_amount(); op = "removal of much"; if(off == 0 && n >= m.size) n = m.size - 1;
                TRACE("remove %zu at %zu of %zu", n, off, m.size);
                buffer_remove(&b, off, n); sp_remove(&m, off, n); big = 1;
                break;
            default:
                op = "shrink"; TRACE("shrink of %zu", m.size); buffer_shrink(&b);
                break;
        }
        if(m.size == 0) { CHECK(buffer_is_empty(&b), "all removed, but the buffer is not empty"); break; }
        CHECK(buffer_size(&b) == m.size, "after %s the size is %zu instead of %zu", op, buffer_size(&b), m.size);
        sp_check(&m, byte_at, &b, op);
    }
    buffer_fini(&b);
    vf_label("more than 2 GiB");
    if(big) vf_nontrivial();
}

void vf_case(void)
{
    static const BUFFER init = BUFFER_INITIALIZER;
    BUFFER b[2];
    BV m[2] = { { 0 }, { 0 } };
    unsigned avg = d_avg();
    size_t lim = maxlen();
    size_t cap_total = vf_profile ? 400000 : 40000;
    int mid = 0, rem = 0, rea = 0, ops = 0;
    u8* tmp = (u8*) h_malloc(lim + 16);
    if(vf_profile == 2) { giant(); return; }

    if(d_bool()) { b[0] = init; b[1] = init; }
    else { memset(b, 0x5c, sizeof(b)); buffer_init(&b[0]); buffer_init(&b[1]); }
    same(&b[0], &m[0], "init");

    while(d_more(avg) && ops++ < 6000) {
        int k = d_chance(1, 6);
        BUFFER* x = &b[k]; BV* y = &m[k];
        size_t n, off;
        const char* op = "?";
        switch(D_WEIGHTED(5, 5, 3, 3, 5, 2, 2, 2, 1, 1, 1, 2)) {
            case 0: /* append */
                n = d_size(lim);
                if(y->n + n > cap_total) n = 0;
                d_fill(tmp, n);
                op = "append";
                TRACE("buf%d append %zu %s", k, n, vf_hex(tmp, n));
                { u8* src = (u8*) h_dup(tmp, n);
                  CHECK(buffer_append(x, src, n) == 0, "append of %zu bytes to %zu bytes failed", n, y->n);
                  h_free(src); }
                bv_append(y, tmp, n);
                break;
            case 1: /* insert */
                n = d_size(lim); off = d_size(y->n);
                if(y->n + n > cap_total) n = 0;
                d_fill(tmp, n);
                op = "insert";
                TRACE("buf%d insert %zu at %zu of %zu", k, n, off, y->n);
                { u8* src = (u8*) h_dup(tmp, n);
                  CHECK(buffer_insert(x, off, src, n) == 0, "insert of %zu bytes at %zu of %zu failed", n, off, y->n);
                  h_free(src); }
                if(n > 0 && off > 0 && off < y->n) mid = 1;
                bv_insert(y, off, tmp, n);
                break;
            case 2: { /* append raw */
                u8* p;
                n = d_size(lim);
                if(y->n + n > cap_total) n = 0;
                d_fill(tmp, n);
                op = "append_raw";
                TRACE("buf%d append_raw %zu", k, n);
                p = (u8*) buffer_append_raw(x, n);
                CHECK(p != NULL, "append_raw of %zu bytes to %zu bytes failed", n, y->n);
                CHECK(p == (u8*) buffer_data_at(x, y->n), "append_raw returned a pointer that is not the end");
                if(n) memcpy(p, tmp, n);
                bv_append(y, tmp, n);
                break;
            }
            case 3: { /* insert raw */
                u8* p;
                n = d_size(lim); off = d_size(y->n);
                if(y->n + n > cap_total) n = 0;
                d_fill(tmp, n);
                op = "insert_raw";
                TRACE("buf%d insert_raw %zu at %zu of %zu", k, n, off, y->n);
                p = (u8*) buffer_insert_raw(x, off, n);
                CHECK(p != NULL, "insert_raw of %zu bytes at %zu of %zu failed", n, off, y->n);
                CHECK(p == (u8*) buffer_data_at(x, off), "insert_raw returned a pointer that is not at the offset");
                if(n) memcpy(p, tmp, n);
                if(n > 0 && off > 0 && off < y->n) mid = 1;
                bv_insert(y, off, tmp, n);
                break;
            }
            case 4: /* remove */
                off = d_size(y->n);
                n = d_chance(1, 5) ? (size_t) d_u64() : d_size(y->n - off + 2);
                op = "remove";
                TRACE("buf%d remove %zu at %zu of %zu", k, n, off, y->n);
                buffer_remove(x, off, n);
                if(off < y->n && n > 0) rem = 1;
                bv_remove(y, off, n);
                break;
            case 5: /* explicit capacity, truncating */
                n = d_bool() ? d_size(y->n + 40) : d_size(lim);
                op = "realloc";
                TRACE("buf%d realloc %zu (size %zu)", k, n, y->n);
                CHECK(buffer_realloc(x, n) == 0, "realloc to %zu failed", n);
                bv_truncate(y, n);
                if(y->n > 0) rea = 1;
                break;
            case 6:
                n = d_size(lim);
                op = "reserve";
                TRACE("buf%d reserve %zu", k, n);
                CHECK(buffer_reserve(x, n) == 0, "reserve of %zu failed", n);
                if(y->n > 0) rea = 1;
                break;
            case 7:
                op = "shrink";
                TRACE("buf%d shrink", k);
                buffer_shrink(x);
                if(y->n > 0) rea = 1;
                break;
            case 8:
                op = "clear";
                TRACE("buf%d clear", k);
                buffer_clear(x);
                bv_truncate(y, 0);
                break;
            case 9: { /* acquire */
                size_t sz = 12345;
                u8* p;
                int want = d_bool();
                op = "acquire";
                TRACE("buf%d acquire (%zu)", k, y->n);
                p = (u8*) buffer_acquire(x, want ? &sz : NULL);
                if(want) CHECK(sz == y->n, "acquire reports %zu bytes instead of %zu", sz, y->n);
                if(y->n > 0)
                    CHECK(p != NULL && memcmp(p, y->p, y->n) == 0, "the acquired block has other content");
                vf_tracked_free(p);
                bv_truncate(y, 0);
                break;
            }
            case 10: {
                BV t = m[0];
                op = "swap";
                TRACE("swap");
                buffer_swap(&b[0], &b[1]);
                m[0] = m[1]; m[1] = t;
                break;
            }
            case 11: /* write in place, read back through the other accessors */
                op = "write";
                if(y->n > 0) {
                    off = d_size(y->n - 1);
                    n = d_size(y->n - off);
                    d_fill(tmp, n > lim ? (n = lim) : n);
                    TRACE("buf%d write %zu at %zu", k, n, off);
                    if(n) memcpy(buffer_data_at(x, off), tmp, n);
                    if(n) memcpy(y->p + off, tmp, n);
                    CHECK((const u8*) buffer_const_data_at(x, off) == (const u8*) buffer_data(x) + off,
                          "accessors disagree about offset %zu", off);
                }
                break;
        }
        same(&b[0], &m[0], op);
        same(&b[1], &m[1], op);
    }
    if(mid) vf_label("insert in the middle");
    if(rem) vf_label("removal");
    if(rea) vf_label("capacity change on a non-empty buffer");
    if(m[0].n > 1000) vf_label("ends with more than 1000 bytes");
    if(ops > 100) vf_label("more than 100 operations");
    if(mid && rem && rea) vf_nontrivial();
    buffer_fini(&b[0]);
    buffer_fini(&b[1]);
}
