/* C02: what a buffer promises about memory. */
#include "bv.h"
#include "buffer.h"

const char vf_property[] = "C02";
const char vf_rule[] = "content was inserted under a reservation or explicit capacity, and content was removed or shrunk";

static unsigned lg(size_t n) { unsigned k = 0; while(n > 1) { n /= 2; k++; } return k; }

static void same(const BUFFER* b, const BV* m, const char* op)
{
    CHECK(buffer_size(b) == m->n, "after %s the size is %zu instead of %zu", op, buffer_size(b), m->n);
    CHECK(m->n == 0 || memcmp(buffer_const_data(b), m->p, m->n) == 0, "after %s the content of %zu bytes differs", op, m->n);
}

void vf_case(void)
{
    STACK st;
    BUFFER* b = &st.buf;
    BV m = { 0 };
    size_t promise = 0;         /* so many bytes must fit without any allocation */
    int under = 0, gave = 0, impossible = 0, ops = 0;
    unsigned avg = d_avg();
    size_t lim = d_chance(1, 4) ? (vf_profile ? 60000 : 6000) : d_chance(1, 2) ? 600 : 60;
    size_t total = vf_profile ? 600000 : 60000;
    u8* tmp = (u8*) h_malloc(lim + 16);

    memset(&st, 0x77, sizeof(st));
    stack_init(&st);
    while(d_more(avg) && ops++ < 3000) {
        size_t n, off, live = vf_live_bytes();
        u64 calls = vf_alloc_calls();
        const void* data = buffer_const_data(b);
        switch(D_WEIGHTED(6, 3, 3, 2, 3, 4, 3, 2, 1, 2, 1)) {
            case 0: case_insert: /* insert */
                n = d_size(lim);
                off = d_chance(1, 3) ? d_size(m.n) : m.n;
                if(promise > 0 && d_bool()) n = d_bool() ? promise : d_size(promise);
                if(n > lim) n = lim;
                if(m.n + n > total) n = 0;
                d_fill(tmp, n);
                TRACE("insert %zu at %zu of %zu (promised %zu)", n, off, m.n, promise);
                switch(d_below(4)) {
                    case 0:
                        CHECK(buffer_insert(b, off, tmp, n) == 0, "insert of %zu bytes failed", n);
                        break;
                    case 1: {
                        void* p = buffer_insert_raw(b, off, n);
                        CHECK(p != NULL, "insert_raw of %zu bytes failed", n);
                        if(n) memcpy(p, tmp, n);
                        break;
                    }
                    case 2:
                        off = m.n;
                        CHECK(stack_push(&st, tmp, n) == 0, "push of %zu bytes failed", n);
                        break;
                    case 3: {
                        void* p;
                        off = m.n;
                        p = buffer_append_raw(b, n);
                        CHECK(p != NULL, "append_raw of %zu bytes failed", n);
                        if(n) memcpy(p, tmp, n);
                        break;
                    }
                }
                bv_insert(&m, off, tmp, n);
                if(n <= promise) {
                    if(n > 0) {
                        under = 1;
                        CHECK(vf_alloc_calls() == calls && buffer_const_data(b) == data,
                              "%zu bytes inserted under a reservation of %zu bytes made an allocation", n, promise);
                    }
                    promise -= n;
                } else {
                    promise = 0;
                    CHECK(vf_live_bytes() <= live || vf_live_bytes() <= 4 * m.n + 256,
                          "a buffer of %zu bytes holds %zu bytes of memory", m.n, vf_live_bytes());
                }
                same(b, &m, "insertion");
                break;
            case 1:
                n = d_bool() ? d_size(lim) : d_size(40);
                TRACE("reserve %zu (size %zu)", n, m.n);
                CHECK((d_bool() ? buffer_reserve(b, n) : stack_reserve(&st, n)) == 0, "reservation of %zu bytes failed", n);
                if(n > promise) promise = n;
                CHECK(vf_live_bytes() <= live || vf_live_bytes() <= 4 * (m.n + n) + 256,
                      "%zu bytes with a reservation of %zu hold %zu bytes of memory", m.n, n, vf_live_bytes());
                same(b, &m, "reserve");
                if(d_bool()) { live = vf_live_bytes(); calls = vf_alloc_calls(); data = buffer_const_data(b); goto case_insert; }
                break;
            case 2:
                n = d_bool() ? m.n + d_size(lim) : d_size(m.n + 10);
                TRACE("realloc %zu (size %zu)", n, m.n);
                CHECK(buffer_realloc(b, n) == 0, "setting the capacity %zu failed", n);
                bv_truncate(&m, n);
                promise = n - m.n;
                CHECK(vf_live_bytes() <= n + n / 4 + 64, "a capacity of %zu holds %zu bytes of memory", n, vf_live_bytes());
                same(b, &m, "realloc");
                if(d_bool()) { live = vf_live_bytes(); calls = vf_alloc_calls(); data = buffer_const_data(b); goto case_insert; }
                break;
            case 3:
                TRACE("shrink (size %zu)", m.n);
                buffer_shrink(b);
                promise = 0;
                gave = 1;
                CHECK(vf_live_bytes() <= m.n + m.n / 4 + 16, "after a shrink %zu bytes hold %zu bytes of memory", m.n, vf_live_bytes());
                same(b, &m, "shrink");
                break;
            case 4: case 5: case 6: /* removal */
                off = d_size(m.n);
                n = d_chance(1, 8) ? (size_t) d_u64() : d_chance(1, 4) ? m.n : d_size(m.n - off);
                if(d_chance(1, 3)) { off = d_size(m.n / 8); n = m.n - off; }
                TRACE("remove %zu at %zu of %zu", n, off, m.n);
                { size_t before = m.n;
                  bv_remove(&m, off, n);
                  buffer_remove(b, off, n);
                  if(m.n < before) {
                      gave = 1;
                      promise = 0;
                      if(m.n == 0) CHECK(vf_live_bytes() == 0, "a buffer emptied by removal holds %zu bytes of memory", vf_live_bytes());
                      else CHECK(vf_live_bytes() <= 10 * m.n + 256, "after a removal %zu bytes hold %zu bytes of memory", m.n, vf_live_bytes());
                  } else
                      promise = 0;
                }
                same(b, &m, "removal");
                break;
            case 7:
                TRACE("clear (size %zu)", m.n);
                if(d_bool()) buffer_clear(b); else stack_clear(&st);
                bv_truncate(&m, 0);
                promise = 0;
                gave = 1;
                CHECK(vf_live_bytes() == 0, "a cleared buffer holds %zu bytes of memory", vf_live_bytes());
                same(b, &m, "clear");
                break;
            case 8: { /* single byte appends */
                size_t k = d_size(vf_profile ? 60000 : 8000), i, n0 = m.n, before = vf_alloc_calls();
                unsigned step = 1 + (unsigned) d_below(3);
                if(m.n + k * step > total) k = 0;
                TRACE("%zu appends of %u bytes", k, step);
                for(i = 0; i < k; i++) {
                    u8 x[4] = { (u8) i, (u8) (i >> 8), 0x3c, 0 };
                    bv_append(&m, x, step);
                    CHECK(buffer_append(b, x, step) == 0, "append failed");
                }
                CHECK(vf_alloc_calls() - before <= 3 * lg(m.n + 2) + 16, "%zu small appends to %zu bytes made %llu allocations",
                      k, n0, (unsigned long long) (vf_alloc_calls() - before));
                if(k > 0)
                    CHECK(vf_live_bytes() <= live || vf_live_bytes() <= 4 * m.n + 256, "a buffer of %zu bytes holds %zu bytes of memory", m.n, vf_live_bytes());
                if(k * step >= promise) promise = 0; else promise -= k * step;
                same(b, &m, "appends");
                break;
            }
            case 9: { /* cannot be had */
                size_t cap = buffer_size(b);
                n = d_bool() ? SIZE_MAX - d_size(m.n + 70) : d_chance(1, 2) ? SIZE_MAX / 2 + d_size(1000) - 500 : SIZE_MAX - d_size((size_t) 1 << 34);
                off = d_size(m.n);
                impossible = 1;
                TRACE("impossible %zu at %zu of %zu", n, off, m.n);
                (void) cap;
                switch(d_below(6)) {
                    case 0: CHECK(buffer_reserve(b, n) != 0, "reservation of %zu more bytes succeeded", n); break;
                    case 1: CHECK(stack_reserve(&st, n) != 0, "reservation of %zu more bytes succeeded", n); break;
                    case 2: CHECK(buffer_insert_raw(b, off, n) == NULL, "room for %zu more bytes was made", n); break;
                    case 3: CHECK(buffer_append_raw(b, n) == NULL, "room for %zu more bytes was made", n); break;
                    case 4: CHECK(stack_push_raw(&st, n) == NULL, "room for %zu more bytes was made", n); break;
                    case 5: CHECK(buffer_insert(b, off, tmp, n) != 0, "insertion of %zu bytes succeeded", n); break;
                }
                CHECK(vf_live_bytes() == live && buffer_const_data(b) == data, "an impossible request changed the memory held");
                same(b, &m, "an impossible request");
                break;
            }
            case 10: { /* acquire: the memory is not the buffer's any more */
                size_t sz = 0;
                void* p = buffer_acquire(b, &sz);
                TRACE("acquire");
                CHECK(sz == m.n, "acquire tells a wrong size");
                vf_tracked_free(p);
                CHECK(vf_live_bytes() == 0, "after the content was acquired and freed %zu bytes are held", vf_live_bytes());
                bv_truncate(&m, 0);
                promise = 0;
                same(b, &m, "acquire");
                break;
            }
        }
    }
    if(under) vf_label("insertion under a promise");
    if(gave) vf_label("memory given back");
    if(impossible) vf_label("impossible request");
    if(m.n > 5000) vf_label("ends with more than 5000 bytes");
    if(under && gave) vf_nontrivial();
    stack_fini(&st);
}
