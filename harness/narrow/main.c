/* C52: reads lines "MODULE SEED STEPS", answers each with the digest of what the module returned. */
#include "buffer.h"
#include "htable.h"
#include "rbtree.h"
#include "list.h"
#include "value.h"
#include "base64.h"
#include "hex.h"
#include "crc32.h"
#include "fnv1a.h"
#include "memchunk.h"
#include "malloca.h"
#include "cmdline.h"
#include "defs.h"
#include "memstream.h"
#define SC_TU 0
#define SC_buffer
#define SC_htable
#define SC_rbtree
#define SC_list
#define SC_value
#define SC_base64
#define SC_hex
#define SC_crc32
#define SC_fnv1a
#define SC_memchunk
#define SC_malloca
#define SC_cmdline
#define SC_defs
#include "../scen.h"
#include "narrow.h"
#ifdef NW_32
long nw_read(void* p, size_t n); long nw_write(const void* p, size_t n); void nw_exit(int rc);
#else
#include <unistd.h>
static long nw_read(void* p, size_t n) { return read(0, p, n); }
static long nw_write(const void* p, size_t n) { return write(1, p, n); }
static void nw_exit(int rc) { _exit(rc); }
#endif
void nw_fail(const char* what) { nw_write("fail: ", 6); nw_write(what, strlen(what)); nw_write("\n", 1); nw_exit(99); }

/* ---- sizes no system can give, and those which wrap around in 32 bits ---- */
static size_t nw_huge(SC* c, size_t item)
{
    size_t k = (size_t) sc_rnd(c, 40), m = (size_t) -1;
    switch(sc_rnd(c, 9)) {
        case 0: return m - k;
        case 1: return m / 2 + 20 - k;
        case 2: return m / item - k;
        case 3: return item > 1 ? m / item + 1 + k : m - k;
        case 4: return m / item / 2 + 20 - k;
        case 5: return m / item / 2 * 3 + k;
        case 6: return (size_t) 0xffffffffu - k;
        case 7: return (size_t) 0x7fffffff + 20 - k;
        default: return (size_t) 0x40000000 + 20 - k;
    }
}
#define NW_ARR(n, T) do { \
    ARRAY_##n a = ARRAY_##n##_INITIALIZER; size_t i, have = (size_t) sc_rnd(c, 30), h = nw_huge(c, sizeof(T)), at = (size_t) sc_rnd(c, have + 1); \
    for(i = 0; i < have; i++) { sc_mix(c, (uint64_t) array_##n##_append(&a, (T) 0)); memset(array_##n##_data(&a) + i, (int) (i * 37), sizeof(T)); } \
    sc_mix(c, array_##n##_append_n(&a, h) != 0); sc_mix(c, array_##n##_size(&a)); \
    sc_mix(c, array_##n##_insert_n_raw(&a, at, h) != 0); sc_mix(c, array_##n##_size(&a)); \
    sc_mix(c, (uint64_t) array_##n##_insert_n_raw(&a, at, 3)); if(array_##n##_size(&a) >= at + 3) memset(array_##n##_data(&a) + at, 0x11, 3 * sizeof(T)); \
    if(at < have) array_##n##_remove_n(&a, at, h); \
    sc_mix(c, array_##n##_size(&a)); \
    for(i = 0; i < array_##n##_size(&a); i++) sc_mix(c, ((const unsigned char*) (array_##n##_const_data(&a) + i))[sizeof(T) - 1]); \
    array_##n##_fini(&a); \
} while(0)
static uint64_t nw_sizes(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0; BUFFER b = BUFFER_INITIALIZER; STACK s = STACK_INITIALIZER; unsigned char data[100]; MEMCHUNK mc = MEMCHUNK_INITIALIZER(0); unsigned char* small;
    VALUE e = VALUE_NULL_INITIALIZER;
    sc_bytes(c, data, 100);
    memchunk_init(&mc, (size_t) sc_rnd(c, 200));
    value_init_array(&e);
    small = memchunk_alloc(&mc, 8); if(small) memset(small, 3, 8);
    while(steps-- > 0) {
        size_t h = nw_huge(c, 1), n = (size_t) sc_rnd(c, 100), sz = buffer_size(&b), off = (size_t) sc_rnd(c, sz + 1);
        switch(sc_rnd(c, 14)) {
            case 0: sc_mix(c, (uint64_t) buffer_append(&b, data, n)); break;
            case 1: sc_mix(c, buffer_reserve(&b, h) != 0); break;
            case 2: sc_mix(c, buffer_realloc(&b, h) != 0); break;
            case 3: sc_mix(c, buffer_insert_raw(&b, off, h) == NULL); break;
            case 4: sc_mix(c, buffer_append_raw(&b, h) == NULL); break;
            case 5: if(off < sz) buffer_remove(&b, off, h); break;
            case 6: sc_mix(c, (uint64_t) stack_push(&s, data, n)); sc_mix(c, stack_push_raw(&s, h) == NULL); sc_mix(c, stack_reserve(&s, h) != 0); sc_mixb(c, stack_size(&s) ? stack_const_data(&s) : "", stack_size(&s)); break;
            case 7: NW_ARR(int8, int8_t); NW_ARR(uint16, uint16_t); NW_ARR(ptr, void*); break;
            case 8: NW_ARR(int32, int32_t); NW_ARR(uint64, uint64_t); NW_ARR(int64, int64_t); break;
            case 9: NW_ARR(uint8, uint8_t); NW_ARR(int16, int16_t); NW_ARR(uint32, uint32_t); break;
            case 10: sc_mix(c, memchunk_alloc(&mc, h) == NULL); { unsigned char* p = memchunk_alloc(&mc, n); sc_mix(c, p != NULL); if(p) memset(p, 5, n); } if(small) sc_mixb(c, small, 8); break;
            case 11: { void* p; if(sc_rnd(c, 2)) p = MALLOCA(h); else p = MALLOCA_(h, 64); sc_mix(c, p == NULL); FREEA(p); break; }
            case 12: { VALUE* v; size_t m = value_array_size(&e), at = (size_t) sc_rnd(c, m + 1);
                       v = value_array_append(&e); if(v) value_init_uint32(v, (uint32_t) n); sc_mix(c, value_array_insert(&e, h) == NULL); sc_mix(c, value_array_get(&e, h) == NULL); sc_mix(c, value_array_remove(&e, h) != 0);
                       sc_mix(c, value_array_remove_range(&e, at, h) != 0); sc_mix(c, value_array_remove_range(&e, h, n) != 0); sc_mix(c, value_array_size(&e)); break; }
            default: sc_mix(c, value_array_remove_range(&e, n, h) != 0); sc_mix(c, value_array_size(&e)); break;
        }
        sc_mixb(c, buffer_size(&b) ? buffer_const_data(&b) : "", buffer_size(&b));
    }
    buffer_fini(&b); stack_fini(&s); memchunk_fini(&mc); value_fini(&e);
    return c->d;
}

/* ---- sizes announced to the encoders ---- */
static unsigned nw_announce(SC* c)
{
    static const unsigned base[] = { 0u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x3fffffffu, 0x40000000u, 0x60000000u, 1610612733u, 0xbfffffffu, 0xc0000000u, 0x55555555u, 0xaaaaaaaau, 100000u };
    unsigned b = base[sc_rnd(c, 13)];
    return b + (unsigned) sc_rnd(c, 20) - 10;
}
static uint64_t nw_announced(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0; BASE64_OPTIONS o;
    o.ch62 = '-'; o.ch63 = '_'; o.pad = 0;
    while(steps-- > 0) {
        unsigned n = nw_announce(c); unsigned k = (unsigned) sc_rnd(c, 60); char in[80], out[200];
        if(n == 0) n = 1;
        sc_bytes(c, (unsigned char*) in, 80);
        sc_mix(c, (uint64_t) (int64_t) base64_encode(in, n, NULL, 0, NULL));
        sc_mix(c, (uint64_t) (int64_t) base64_encode(in, n, NULL, 0, &o));
        sc_mix(c, (uint64_t) (int64_t) hex_encode(in, n, NULL, 0, 0));
        /* a blob there is no room for, and more room than could be used */
        if(n > 1000) { sc_mix(c, base64_encode(in, n, out, 200, NULL) < 0); sc_mix(c, hex_encode(in, n, out, 200, 1) < 0); }
        if(n > 0x10000) { int r; char back[80];
            /* the room announced ends where the memory of any system ends: no more than the pointer can express */
            r = base64_encode(in, k, out, 200, NULL); sc_mix(c, (uint64_t) (int64_t) r); sc_mixb(c, out, (size_t) r); if(r > 0) { r = base64_decode(out, (unsigned) r, back, 80, NULL); sc_mix(c, (uint64_t) (int64_t) r); }
        }
    }
    return c->d;
}

/* ---- numbers of the whole range ---- */
static void nw_number(SC* c, VALUE* v)
{
    static const uint64_t edge[] = { 0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x1000000, 0x1000001, 0x20000000000000ull, 0x20000000000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull };
    uint64_t u = sc_rnd(c, 3) ? edge[sc_rnd(c, 19)] + sc_rnd(c, 5) - 2 : sc_next(c) >> sc_rnd(c, 64);
    switch(sc_rnd(c, 8)) {
        case 0: value_init_int32(v, (int32_t) (uint32_t) u); break;
        case 1: value_init_uint32(v, (uint32_t) u); break;
        case 2: value_init_int64(v, (int64_t) u); break;
        case 3: value_init_int64(v, (int64_t) (0 - u)); break;
        case 4: value_init_uint64(v, u); break;
        case 5: value_init_float(v, (float) ((double) (u >> 1) * (sc_rnd(c, 2) ? 1 : -1) / (sc_rnd(c, 2) ? 1 : 8))); break;
        default: value_init_double(v, (double) (int64_t) (u >> 1) * (sc_rnd(c, 2) ? 1 : -1) / (sc_rnd(c, 2) ? 1 : 8)); break;
    }
}
/* within which every getter has an answer; outside of it, the conversion has none */
static uint64_t nw_numbers(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0;
    while(steps-- > 0) {
        VALUE v = VALUE_NULL_INITIALIZER; int k, r; double d; float f; VALUE_TYPE t;
        nw_number(c, &v); t = value_type(&v);
        sc_mix(c, (uint64_t) t);
        for(k = VALUE_NULL; k <= VALUE_DICT; k++) { r = value_is_compatible(&v, (VALUE_TYPE) k); sc_mix(c, r != 0); }
        d = value_double(&v); sc_mixb(c, &d, 8);
        f = value_float(&v); sc_mixb(c, &f, 4);
        if(t < VALUE_FLOAT || (d > -2e9 && d < 2e9)) sc_mix(c, (uint64_t) value_int32(&v));
        if(t < VALUE_FLOAT || (d >= 0 && d < 4e9)) sc_mix(c, value_uint32(&v));
        if(t < VALUE_FLOAT || (d > -9e18 && d < 9e18)) sc_mix(c, (uint64_t) value_int64(&v));
        if(t < VALUE_FLOAT || (d >= 0 && d < 1.8e19)) sc_mix(c, value_uint64(&v));
        value_fini(&v);
    }
    return c->d;
}

/* ---- paths with indexes of every length; keys with any bytes; strings ---- */
static size_t nw_dec(char* out, uint64_t u) { char t[24]; size_t n = 0, k = 0; do { t[n++] = (char) ('0' + u % 10); u /= 10; } while(u); while(n > 0) out[k++] = t[--n]; return k; }
static uint64_t nw_paths(uint64_t seed, unsigned steps)
{
    static const uint64_t edge[] = { 0, 1, 5, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x100000005ull, 0x200000003ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x4000000000000002ull, 4294967296000ull };
    SC c0 = sc_start(seed); SC* c = &c0; VALUE root = VALUE_NULL_INITIALIZER; VALUE* v;
    value_init_dict_ex(&root, NULL, sc_rnd(c, 2) ? VALUE_DICT_MAINTAINORDER : 0);
    v = value_dict_add(&root, "l"); if(v) value_init_array(v);
    while(steps-- > 0) {
        char p[120]; size_t n = 0; uint64_t u = edge[sc_rnd(c, 14)] + sc_rnd(c, 4) - 1;
        if(sc_rnd(c, 2)) u = sc_rnd(c, 8);
        memcpy(p, "l/[", 3); n = 3;
        if(sc_rnd(c, 3) == 0) p[n++] = '-';
        while(sc_rnd(c, 4) == 0) p[n++] = '0';
        n += nw_dec(p + n, u);
        if(sc_rnd(c, 6) == 0) { memcpy(p + n, "0000000000000000000", 19); n += 19; }
        p[n++] = ']';
        if(sc_rnd(c, 3) == 0) { memcpy(p + n, "/k", 2); n += 2; }
        p[n] = 0;
        if(n > 100) continue;
        switch(sc_rnd(c, 4)) {
            case 0: sc_read(c, value_path(&root, p)); break;
            case 1: v = value_build_path(&root, p); sc_mix(c, v != NULL); if(v && value_is_new(v)) { sc_mix(c, 3); nw_number(c, v); } break;
            case 2: v = value_build_path(&root, sc_rnd(c, 2) ? "l/[]" : "l/[]/k"); if(v && value_is_new(v)) value_init_bool(v, 1); sc_mix(c, v != NULL); break;
            default: { char k[40]; size_t m = (size_t) sc_rnd(c, 40), at = (size_t) sc_rnd(c, 3), i; for(i = 0; i < m; i++) k[i] = (char) sc_rnd(c, 4); v = value_dict_get_or_add_(&root, k, m); sc_mix(c, v && value_is_new(v)); if(v && value_is_new(v)) value_init_string_(v, k, m);
                       sc_read(c, value_dict_get_(&root, k, m / 2)); if(at == 0) sc_mix(c, (uint64_t) value_dict_remove_(&root, k, m / 3)); break; }
        }
        sc_mix(c, value_dict_size(&root)); sc_mix(c, value_array_size(value_dict_get(&root, "l")));
    }
    sc_mix(c, (uint64_t) (int64_t) value_dict_walk_sorted(&root, sc_visit, c));
    sc_mix(c, (uint64_t) (int64_t) value_dict_walk_ordered(&root, sc_visit, c));
    value_fini(&root);
    return c->d;
}

/* ---- sizes of gigabytes: what is given has to be there ---- */
typedef struct NW_MARK { size_t off; unsigned char ch; } NW_MARK;
#define NW_MARKS 8
typedef struct NW_MODEL { NW_MARK m[NW_MARKS]; int n; size_t size; } NW_MODEL;
static void nw_put(NW_MODEL* q, unsigned char* data, size_t off, unsigned char ch)
{
    int i;
    if(off >= q->size) return;
    data[off] = ch;
    for(i = 0; i < q->n; i++) if(q->m[i].off == off) { q->m[i].ch = ch; return; }
    if(q->n < NW_MARKS) { q->m[q->n].off = off; q->m[q->n++].ch = ch; }
}
static void nw_see(const NW_MODEL* q, const unsigned char* data, size_t size, const char* what)
{
    int i;
    if(size != q->size) nw_fail(what);
    for(i = 0; i < q->n; i++) if(data[q->m[i].off] != q->m[i].ch) nw_fail(what);
}
static uint64_t nw_giants(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0; size_t old = nw_limit;
    nw_limit = (size_t) 3 << 30;
    if(steps > 12) steps = 12;
    if(sc_rnd(c, 4) == 0) {             /* items of an array */
        ARRAY_uint64 a = ARRAY_uint64_INITIALIZER; ARRAY_uint16 b = ARRAY_uint16_INITIALIZER; size_t na = 0, nb = 0;
        while(steps-- > 0) {
            size_t k = (size_t) 1 + (size_t) sc_rnd(c, sc_rnd(c, 3) ? (uint64_t) 1 << 28 : (uint64_t) 0xffffffffu), i;
            if(sc_rnd(c, 2)) {
                if(array_uint64_append_n(&a, k) == 0) { na += k; if(na > (size_t) 3 << 27) nw_fail("room for more items than there is memory"); array_uint64_set(&a, na - 1, 77); array_uint64_set(&a, na - k, 77); }
                if(array_uint64_size(&a) != na) nw_fail("the number of items of 8 bytes");
                if(na > 0 && array_uint64_get(&a, na - 1) != 77) nw_fail("the last item of 8 bytes");
                i = na / 2; if(na > 4 && sc_rnd(c, 2)) { array_uint64_remove_n(&a, i, (size_t) -1); na = i; array_uint64_set(&a, na - 1, 77); }
            } else {
                if(array_uint16_append_n(&b, k) == 0) { nb += k; if(nb > (size_t) 3 << 29) nw_fail("room for more items than there is memory"); array_uint16_set(&b, nb - 1, 777); array_uint16_set(&b, nb - k, 777); }
                if(array_uint16_size(&b) != nb) nw_fail("the number of items of 2 bytes");
                if(nb > 0 && array_uint16_get(&b, nb - 1) != 777) nw_fail("the last item of 2 bytes");
            }
        }
        array_uint64_fini(&a); array_uint16_fini(&b);
    } else {
        BUFFER b = BUFFER_INITIALIZER; NW_MODEL q; int i;
        q.n = 0; q.size = 0;
        while(steps-- > 0) {
            size_t k = (size_t) 1 + (size_t) sc_rnd(c, sc_rnd(c, 2) ? (uint64_t) 900 << 20 : (uint64_t) 0xfffffff0u), off; unsigned char* p;
            switch(sc_rnd(c, 6)) {
                case 0: case 1: p = (unsigned char*) buffer_append_raw(&b, k); if(p != NULL) { if(k > nw_limit) nw_fail("more than there is memory"); off = q.size; q.size += k; if(p != (unsigned char*) buffer_data(&b) + off) nw_fail("where the appended bytes are"); nw_put(&q, buffer_data(&b), off, (unsigned char) k); nw_put(&q, buffer_data(&b), q.size - 1, (unsigned char) (k + 1)); } break;
                case 2: off = q.size > 4096 ? q.size - (size_t) sc_rnd(c, 4096) : q.size; p = (unsigned char*) buffer_insert_raw(&b, off, k);
                        if(p != NULL) { if(k > nw_limit) nw_fail("more than there is memory"); q.size += k; for(i = 0; i < q.n; i++) if(q.m[i].off >= off) q.m[i].off += k; nw_put(&q, buffer_data(&b), off, 3); nw_put(&q, buffer_data(&b), off + k - 1, 4); } break;
                case 3: if(buffer_reserve(&b, k) == 0) { if(k > nw_limit) nw_fail("room for more than there is memory"); p = (unsigned char*) buffer_append_raw(&b, k); if(p == NULL) nw_fail("the room reserved is not there"); q.size += k; nw_put(&q, buffer_data(&b), q.size - 1, 5); } break;
                case 4: if(q.size > 0) { off = (size_t) sc_rnd(c, q.size); if(sc_rnd(c, 2)) k = (size_t) -1; else if(off < q.size / 2) off = q.size - q.size / 3;
                            buffer_remove(&b, off, k); if(k > q.size - off) k = q.size - off;
                            for(i = 0; i < q.n; i++) { if(q.m[i].off < off) continue; if(q.m[i].off - off < k) { q.m[i] = q.m[--q.n]; i--; } else q.m[i].off -= k; }
                            q.size -= k; } break;
                default: buffer_shrink(&b); break;
            }
            nw_see(&q, (const unsigned char*) buffer_const_data(&b), buffer_size(&b), "a buffer of gigabytes");
        }
        buffer_fini(&b);
    }
    nw_limit = old;
    return 1;
}

typedef uint64_t (*NW_RUN)(uint64_t, unsigned);
#include "memscen.h"
static const struct { const char* name; NW_RUN run; } nw_all[] = {
    { "buffer", sc_buffer_0 }, { "htable", sc_htable_0 }, { "rbtree", sc_rbtree_0 }, { "list", sc_list_0 }, { "value", sc_value_0 }, { "base64", sc_base64_0 }, { "hex", sc_hex_0 },
    { "crc32", sc_crc32_0 }, { "fnv1a", sc_fnv1a_0 }, { "memchunk", sc_memchunk_0 }, { "malloca", sc_malloca_0 }, { "cmdline", sc_cmdline_0 }, { "defs", sc_defs_0 },
    { "sizes", nw_sizes }, { "announced", nw_announced }, { "numbers", nw_numbers }, { "paths", nw_paths }, { "memstream", nw_memstream }, { "giants", nw_giants },
};
static char in_buf[4096]; static long in_n, in_at;
static int in_char(void) { if(in_at == in_n) { in_n = nw_read(in_buf, sizeof(in_buf)); in_at = 0; if(in_n <= 0) return -1; } return (unsigned char) in_buf[in_at++]; }
int main(void)
{
    for(;;) {
        char line[120], out[40]; int n = 0, ch; size_t i, k; uint64_t seed = 0, d; unsigned steps = 0; char* p = line; size_t live = nw_live;
        while((ch = in_char()) >= 0 && ch != '\n' && n < 110) line[n++] = (char) ch;
        if(ch < 0) return 0;
        line[n] = 0;
        for(k = 0; line[k] && line[k] != ' '; k++) { }
        line[k] = 0; p = line + k + 1;
        while(*p >= '0' && *p <= '9') seed = seed * 10 + (uint64_t) (*p++ - '0');
        p++;
        while(*p >= '0' && *p <= '9') steps = steps * 10 + (unsigned) (*p++ - '0');
        d = 0;
        for(i = 0; i < sizeof(nw_all) / sizeof(nw_all[0]); i++)
            if(strcmp(nw_all[i].name, line) == 0) d = nw_all[i].run(seed, steps);
        if(nw_live != live) nw_fail("memory is not released");
        for(i = 0; i < 16; i++) out[i] = "0123456789abcdef"[d >> (60 - 4 * i) & 15];
        out[16] = '\n';
        nw_write(out, 17);
    }
}
