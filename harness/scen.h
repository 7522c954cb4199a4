/* C45: what a program does with each of the modules.  Included, after the headers of the
 * modules themselves, into C and C++ sources of any language version; SC_TU is the number of the source.
 * sc_MODULE_TU(seed, steps) works through a script and returns the digest of what the module returned. */
#include <stddef.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
#define SC_C extern "C"
#else
#define SC_C
#endif
#define SC_CAT3(a, b, c) a##b##_##c
#define SC_CAT2(a, b, c) SC_CAT3(a, b, c)
#define SC_F(m) SC_CAT2(sc_, m, SC_TU)

typedef struct SC { uint64_t s, d; } SC;
static uint64_t sc_next(SC* c)
{
    uint64_t z;
    c->s = c->s * 6364136223846793005u + 1442695040888963407u;
    z = c->s;
    z ^= z >> 33; z *= 0xff51afd7ed558ccdu; z ^= z >> 29;
    return z;
}
static uint64_t sc_rnd(SC* c, uint64_t n) { return sc_next(c) % n; }
static void sc_mix(SC* c, uint64_t x) { c->d = (c->d ^ x) * 0x9E3779B97F4A7C15u; c->d ^= c->d >> 29; }
static void sc_mixb(SC* c, const void* p, size_t n) { const unsigned char* b = (const unsigned char*) p; size_t i; for(i = 0; i < n; i++) sc_mix(c, b[i]); sc_mix(c, n + 1000); }
static SC sc_start(uint64_t seed) { SC c; c.s = seed; c.d = 1; sc_next(&c); return c; }
static void sc_bytes(SC* c, unsigned char* p, size_t n) { size_t i; for(i = 0; i < n; i++) p[i] = (unsigned char) sc_next(c); }

#ifdef SC_buffer
#define SC_ARR(c, a, T, n, VAL) do { \
    size_t n_ = array_##n##_size(a), at_ = (size_t) sc_rnd(c, n_ + 1); T v_ = (T) VAL; \
    switch(sc_rnd(c, 9)) { \
        case 0: case 1: sc_mix(c, (uint64_t) array_##n##_append(a, v_)); break; \
        case 2: sc_mix(c, (uint64_t) array_##n##_insert(a, at_, v_)); break; \
        case 3: sc_mix(c, (uint64_t) array_##n##_insert_raw(a, at_)); array_##n##_set(a, at_, v_); break; \
        case 4: if(at_ < n_) array_##n##_remove(a, at_); break; \
        case 5: if(at_ < n_) array_##n##_data(a)[at_] = v_; break; \
        case 6: if(at_ < n_) array_##n##_set(a, at_, v_); break; \
        case 7: sc_mix(c, (uint64_t) !!array_##n##_is_empty(a)); break; \
        default: break; \
    } \
    n_ = array_##n##_size(a); \
    if(n_ > 0) sc_mixb(c, array_##n##_const_data(a), n_ * sizeof(T)); \
    if(n_ > 0) sc_mix(c, (uint64_t) array_##n##_get(a, n_ - 1)); \
} while(0)
SC_C uint64_t SC_F(buffer)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0;
    BUFFER b = BUFFER_INITIALIZER, b2;
    STACK st = STACK_INITIALIZER;
    ARRAY_int8 a1 = ARRAY_int8_INITIALIZER; ARRAY_uint16 a2 = ARRAY_uint16_INITIALIZER; ARRAY_int32 a3 = ARRAY_int32_INITIALIZER; ARRAY_uint64 a4; ARRAY_ptr a5;
    unsigned char data[200]; size_t pushed = 0;
    sc_bytes(c, data, 200);
    buffer_init(&b2); array_uint64_init(&a4); array_ptr_init(&a5);
    while(steps-- > 0) {
        size_t n = (size_t) sc_rnd(c, 150), sz = buffer_size(&b), off = (size_t) sc_rnd(c, sz + 1);
        switch(sc_rnd(c, 9)) {
            case 0: case 1: sc_mix(c, (uint64_t) buffer_insert(&b, off, data, n)); break;
            case 2: { void* p = buffer_append_raw(&b, n + 1); sc_mix(c, p != NULL); if(p) memset(p, (int) n, n + 1); break; }
            case 3: if(off < sz) buffer_remove(&b, off, n); break;
            case 4: sc_mix(c, (uint64_t) buffer_reserve(&b, n)); buffer_shrink(&b); break;
            case 5: buffer_swap(&b, &b2); break;
            case 6: if(sc_rnd(c, 6) == 0) buffer_clear(&b); else sc_mix(c, (uint64_t) buffer_append(&b, data + n, 30)); break;
            case 7: sc_mix(c, (uint64_t) stack_push_int8(&st, (int8_t) (n + 100))); sc_mix(c, (uint64_t) stack_push_uint16(&st, (uint16_t) (n * 500))); sc_mix(c, (uint64_t) stack_push_int32(&st, -(int32_t) n * 100000));
                    sc_mix(c, (uint64_t) stack_push_uint64(&st, sc_next(c))); sc_mix(c, (uint64_t) stack_push(&st, data, n)); sc_mix(c, (uint64_t) stack_push_ptr(&st, NULL)); sc_mix(c, (uint64_t) stack_push_uint8(&st, (uint8_t) n)); pushed++; break;
            default:
                if(!stack_is_empty(&st) && pushed > 2) {
                    unsigned char out[200];
                    size_t k = stack_peek_uint8(&st);
                    sc_mix(c, stack_pop_uint8(&st)); sc_mix(c, stack_pop_ptr(&st) == NULL); stack_pop(&st, out, k); sc_mixb(c, out, k);
                    sc_mix(c, stack_pop_uint64(&st)); sc_mix(c, (uint64_t) stack_pop_int32(&st)); sc_mix(c, stack_pop_uint16(&st)); sc_mix(c, (uint64_t) stack_pop_int8(&st)); pushed--;
                }
                break;
        }
        sc_mixb(c, buffer_size(&b) ? buffer_const_data(&b) : "", buffer_size(&b)); sc_mix(c, (uint64_t) buffer_is_empty(&b));
        sc_mix(c, stack_size(&st) - pushed * sizeof(void*));
        switch(sc_rnd(c, 5)) {
            case 0: SC_ARR(c, &a1, int8_t, int8, n); break;
            case 1: SC_ARR(c, &a2, uint16_t, uint16, (n * 700)); break;
            case 2: SC_ARR(c, &a3, int32_t, int32, (-(int32_t) n * 90000)); break;
            case 3: SC_ARR(c, &a4, uint64_t, uint64, sc_next(c)); break;
            default: { size_t m = array_ptr_size(&a5); if(m < 60) sc_mix(c, (uint64_t) array_ptr_append(&a5, NULL)); else array_ptr_remove(&a5, m / 2); sc_mix(c, array_ptr_size(&a5)); break; }
        }
    }
    { size_t n; void* p = buffer_acquire(&b, &n); sc_mixb(c, p ? p : (void*) data, p ? n : 0); free(p); }
    buffer_fini(&b); buffer_fini(&b2); stack_fini(&st); array_int8_fini(&a1); array_uint16_fini(&a2); array_int32_fini(&a3); array_uint64_fini(&a4); array_ptr_fini(&a5);
    return c->d;
}
#endif

#ifdef SC_htable
typedef struct SC_H { uint32_t tag, key; HTABLE_NODE n; int seen; } SC_H;
static int sc_hcmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { uint32_t x = HTABLE_DATA(a, SC_H, n)->key, y = HTABLE_DATA(b, SC_H, n)->key; return x < y ? -1 : x > y; }
static uint32_t sc_hash(const HTABLE_NODE* a) { return HTABLE_DATA(a, SC_H, n)->key * 0x9E3779B1u; }
static void sc_hdtor(HTABLE_NODE* a) { HTABLE_DATA(a, SC_H, n)->seen++; }
SC_C uint64_t SC_F(htable)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0;
    HTABLE t = HTABLE_INITIALIZER;
    SC_H* x = (SC_H*) calloc(700, sizeof(SC_H)); SC_H k;
    int i;
    for(i = 0; i < 700; i++) { x[i].tag = 7; x[i].key = (uint32_t) i * 3; }
    while(steps-- > 0) {
        HTABLE_NODE* r;
        uint32_t j = (uint32_t) sc_rnd(c, 700); int n = (int) sc_rnd(c, 60);
        k.key = j * 3;
        switch(sc_rnd(c, 4)) {
            case 0: sc_mix(c, (uint64_t) (int64_t) htable_insert(&t, &x[j].n, sc_hcmp, sc_hash)); break;
            case 1: for(i = 0; i < n; i++) sc_mix(c, (uint64_t) (int64_t) htable_insert(&t, &x[(j + (unsigned) i) % 700].n, sc_hcmp, sc_hash)); break;
            case 2: r = htable_lookup(&t, &k.n, sc_hcmp, sc_hash); sc_mix(c, r ? HTABLE_DATA(r, SC_H, n)->key : 1); break;
            default: r = htable_remove(&t, &k.n, sc_hcmp, sc_hash); sc_mix(c, r ? HTABLE_DATA(r, SC_H, n)->key : 1); break;
        }
        sc_mix(c, !!htable_is_empty(&t));
    }
    htable_fini(&t, sc_hdtor);
    for(i = 0; i < 700; i++) sc_mix(c, (uint64_t) x[i].seen);
    htable_init(&t); sc_mix(c, !!htable_is_empty(&t)); htable_fini(&t, NULL);
    free(x);
    return c->d;
}
#endif

#ifdef SC_rbtree
typedef struct SC_R { uint32_t tag, key; RBTREE_NODE n; } SC_R;
static int sc_rcmp(const RBTREE_NODE* a, const RBTREE_NODE* b) { uint32_t x = RBTREE_DATA(a, SC_R, n)->key, y = RBTREE_DATA(b, SC_R, n)->key; return x < y ? -1 : x > y; }
SC_C uint64_t SC_F(rbtree)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0;
    RBTREE t = RBTREE_INITIALIZER;
    SC_R* x = (SC_R*) malloc(400 * sizeof(SC_R)); SC_R k;
    RBTREE_NODE* r; int i; size_t in = 0;
    memset(x, 0x5a, 400 * sizeof(SC_R));
    for(i = 0; i < 400; i++) { x[i].tag = 7; x[i].key = (uint32_t) i; }
    while(steps-- > 0) {
        RBTREE_CURSOR q = RBTREE_CURSOR_INITIALIZER;
        uint32_t j = (uint32_t) sc_rnd(c, 400); int n = (int) sc_rnd(c, 30);
        k.key = j;
        switch(sc_rnd(c, 6)) {
            case 0: if(rbtree_insert(&t, &x[j].n, sc_rcmp) == 0) in++; break;
            case 1: for(i = 0; i < n; i++) if(rbtree_insert(&t, &x[(j + (unsigned) i) % 400].n, sc_rcmp) == 0) in++; break;
            case 2: r = rbtree_lookup(&t, &k.n, sc_rcmp); sc_mix(c, r ? RBTREE_DATA(r, SC_R, n)->key : 999); break;
            case 3: r = rbtree_remove(&t, &k.n, sc_rcmp); sc_mix(c, r ? RBTREE_DATA(r, SC_R, n)->key : 999); if(r) in--; break;
            case 4: r = rbtree_lookup_ex(&t, &k.n, sc_rcmp, &q); for(i = 0; i < n && r; i++) { sc_mix(c, RBTREE_DATA(r, SC_R, n)->key); r = rbtree_next(&q); } break;
            default: if(in > 0) { r = n & 1 ? rbtree_head(&t, &q) : rbtree_tail(&t, &q); for(i = 0; i < n && r; i++) { sc_mix(c, RBTREE_DATA(r, SC_R, n)->key); r = n & 1 ? rbtree_next(&q) : rbtree_prev(&q); } r = rbtree_current(&q); sc_mix(c, r ? RBTREE_DATA(r, SC_R, n)->key : 999); } break;
        }
        sc_mix(c, in); sc_mix(c, !!rbtree_is_empty(&t));
    }
    while((r = rbtree_fini_step(&t)) != NULL) { in--; sc_mix(c, RBTREE_DATA(r, SC_R, n)->tag); }
    sc_mix(c, in);
    free(x);
    return c->d;
}
#endif

#ifdef SC_list
typedef struct SC_L { uint32_t tag, key; LIST_NODE l; SLIST_NODE s; QLIST_NODE q; int in_l, in_s, in_q; } SC_L;
SC_C uint64_t SC_F(list)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0;
    LIST l; SLIST s; QLIST q;
    SC_L x[40]; int i;
    memset(x, 0, sizeof(x));
    for(i = 0; i < 40; i++) x[i].key = (uint32_t) i;
    list_init(&l); slist_init(&s); qlist_init(&q);
    while(steps-- > 0) {
        SC_L* y = &x[sc_rnd(c, 40)]; SC_L* z = &x[sc_rnd(c, 40)];
        switch(sc_rnd(c, 9)) {
            case 0: if(!y->in_l) { list_append(&l, &y->l); y->in_l = 1; } break;
            case 1: if(!y->in_l) { list_prepend(&l, &y->l); y->in_l = 1; } break;
            case 2: if(!y->in_l && z->in_l) { if(sc_rnd(c, 2)) list_insert_after(&l, &z->l, &y->l); else list_insert_before(&l, &z->l, &y->l); y->in_l = 1; } break;
            case 3: if(y->in_l) { list_remove(&l, &y->l); y->in_l = 0; } break;
            case 4: if(!y->in_s) { if(z->in_s) slist_insert_after(&s, &z->s, &y->s); else slist_prepend(&s, &y->s); y->in_s = 1; } break;
            case 5: if(!slist_is_empty(&s)) { SLIST_NODE* h = slist_head(&s); SLIST_DATA(h, SC_L, s)->in_s = 0; slist_remove_head(&s); } break;
            case 6: if(!y->in_q) { if(z->in_q) qlist_insert_after(&q, &z->q, &y->q); else qlist_append(&q, &y->q); y->in_q = 1; } break;
            case 7: if(!y->in_q) { qlist_prepend(&q, &y->q); y->in_q = 1; } break;
            default: if(!qlist_is_empty(&q)) { QLIST_NODE* h = qlist_head(&q); QLIST_DATA(h, SC_L, q)->in_q = 0; qlist_remove_head(&q); } break;
        }
        { LIST_NODE* n; for(n = list_head(&l); n != list_end(&l); n = list_next(n)) sc_mix(c, LIST_DATA(n, SC_L, l)->key); for(n = list_tail(&l); n != list_end(&l); n = list_prev(n)) sc_mix(c, LIST_DATA(n, SC_L, l)->key); }
        { SLIST_NODE* n; for(n = slist_head(&s); n != slist_end(&s); n = slist_next(n)) sc_mix(c, SLIST_DATA(n, SC_L, s)->key); }
        { QLIST_NODE* n; for(n = qlist_head(&q); n != qlist_end(&q); n = qlist_next(n)) sc_mix(c, QLIST_DATA(n, SC_L, q)->key); if(!qlist_is_empty(&q)) sc_mix(c, QLIST_DATA(qlist_tail(&q), SC_L, q)->key); }
        sc_mix(c, (uint64_t) (!!list_is_empty(&l) + 2 * !!slist_is_empty(&s)));
    }
    return c->d;
}
#endif

#ifdef SC_value
static int sc_vcmp(const char* a, size_t la, const char* b, size_t lb) { if(la != lb) return la < lb ? -1 : 1; return memcmp(a, b, la); }
static int sc_visit(const VALUE* k, VALUE* v, void* p) { SC* c = (SC*) p; sc_mixb(c, value_string(k), value_string_length(k)); sc_mix(c, (uint64_t) value_type(v)); return sc_rnd(c, 50) == 0 ? 5 : 0; }
static void sc_number(SC* c, VALUE* v)
{
    switch(sc_rnd(c, 8)) {
        case 0: sc_mix(c, (uint64_t) value_init_int32(v, (int32_t) sc_rnd(c, 2000) - 1000)); break;
        case 1: sc_mix(c, (uint64_t) value_init_uint32(v, (uint32_t) sc_rnd(c, 2000))); break;
        case 2: sc_mix(c, (uint64_t) value_init_int64(v, (int64_t) sc_rnd(c, 200000) - 1000)); break;
        case 3: sc_mix(c, (uint64_t) value_init_uint64(v, sc_rnd(c, 200000))); break;
        case 4: sc_mix(c, (uint64_t) value_init_float(v, (float) sc_rnd(c, 2000) / 16)); break;
        case 5: sc_mix(c, (uint64_t) value_init_double(v, (double) sc_rnd(c, 200000) / 3)); break;
        case 6: sc_mix(c, (uint64_t) value_init_bool(v, (int) sc_rnd(c, 2))); break;
        default: value_init_null(v); break;
    }
}
static void sc_read(SC* c, const VALUE* v)
{
    VALUE_TYPE t = value_type(v); int k;
    sc_mix(c, (uint64_t) t);
    for(k = VALUE_NULL; k <= VALUE_DICT; k++) sc_mix(c, (uint64_t) value_is_compatible(v, (VALUE_TYPE) k));
    if(t >= VALUE_INT32 && t <= VALUE_DOUBLE) {
        float f = value_float(v); double d = value_double(v);
        sc_mixb(c, &f, 4); sc_mixb(c, &d, 8);
        sc_mix(c, (uint64_t) value_int64(v)); sc_mix(c, (uint64_t) value_int32(v)); if(d >= 0) { sc_mix(c, value_uint64(v)); sc_mix(c, value_uint32(v)); }
    } else {
        sc_mix(c, (uint64_t) value_bool(v)); sc_mix(c, (uint64_t) value_int32(v)); sc_mix(c, value_array_size(v)); sc_mix(c, value_dict_size(v));
        if(value_string(v)) sc_mixb(c, value_string(v), value_string_length(v));
    }
}
SC_C uint64_t SC_F(value)(uint64_t seed, unsigned steps)
{
    static const char* const keys[] = { "a", "b", "aa", "foo", "\xc3\xa9t\xc3\xa9", "\xff", "", "zeta", "A", "1", "long-key-number-one", "long-key-number-tw\xf6" };
    static const char* const paths[] = { "list/[]", "list/[]/x", "list/[0]", "deep/er/[]", "deep/er/[-1]", "a/b", "foo/[]/z", "/a//b/", "\xff/x" };
    SC c0 = sc_start(seed); SC* c = &c0;
    VALUE d = VALUE_NULL_INITIALIZER, e = VALUE_NULL_INITIALIZER; VALUE* v;
    static const VALUE all_null[2] = { VALUE_NULL_INITIALIZER, VALUE_NULL_INITIALIZER };
    unsigned char data[300];
    unsigned kind = (unsigned) sc_rnd(c, 4);
    sc_bytes(c, data, 300);
    sc_read(c, &d); sc_read(c, &all_null[1]); sc_mix(c, value_is_new(&e) != 0); value_fini(&e);
    sc_mix(c, (uint64_t) value_init_dict_ex(&d, kind & 1 ? sc_vcmp : NULL, kind & 2 ? VALUE_DICT_MAINTAINORDER : 0));
    sc_mix(c, (uint64_t) value_init_array(&e));
    while(steps-- > 0) {
        const char* k = keys[sc_rnd(c, 12)];
        const char* p = paths[sc_rnd(c, 9)];
        switch(sc_rnd(c, 12)) {
            case 0: v = value_dict_add(&d, k); sc_mix(c, v != NULL); if(v) sc_number(c, v); break;
            case 1: v = value_dict_get_or_add(&d, k); sc_mix(c, (uint64_t) value_is_new(v)); if(value_is_new(v)) sc_mix(c, (uint64_t) value_init_string_(v, (char*) data, (size_t) sc_rnd(c, 300))); break;
            case 2: sc_mix(c, (uint64_t) value_dict_remove(&d, k)); break;
            case 3: sc_read(c, value_dict_get(&d, k)); break;
            case 4: sc_mix(c, (uint64_t) (int64_t) value_dict_walk_sorted(&d, sc_visit, c)); break;
            case 5: sc_mix(c, (uint64_t) (int64_t) value_dict_walk_ordered(&d, sc_visit, c)); break;
            case 6: { const VALUE* b[30]; size_t n = value_dict_keys_sorted(&d, b, 30), i; for(i = 0; i < n && i < 30; i++) sc_mixb(c, value_string(b[i]), value_string_length(b[i])); sc_mix(c, n); break; }
            case 7: v = value_build_path(&d, p); sc_mix(c, v != NULL); if(v && value_is_new(v)) sc_number(c, v); break;
            case 8: sc_read(c, value_path(&d, p)); break;
            case 9: v = value_array_append(&e); sc_mix(c, v != NULL); if(v) sc_number(c, v); break;
            case 10: { size_t n = value_array_size(&e), at = (size_t) sc_rnd(c, n + 2); v = value_array_insert(&e, at); sc_mix(c, v != NULL); if(v) sc_mix(c, (uint64_t) value_init_string(v, k)); sc_read(c, value_array_get(&e, at)); break; }
            default: { size_t n = value_array_size(&e), at = (size_t) sc_rnd(c, n + 1), k2 = (size_t) sc_rnd(c, 4); sc_mix(c, (uint64_t) value_array_remove_range(&e, at, k2)); sc_read(c, value_array_get(&e, n / 2)); if(sc_rnd(c, 30) == 0) value_dict_clean(&d); break; }
        }
        sc_mix(c, value_dict_size(&d)); sc_mix(c, value_dict_flags(&d)); sc_mix(c, value_array_size(&e));
    }
    value_fini(&d); value_fini(&e);
    return c->d;
}
#endif

#ifdef SC_base64
SC_C uint64_t SC_F(base64)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0;
    unsigned char in[200], back[300]; char out[400];
    while(steps-- > 0) {
        BASE64_OPTIONS o; const BASE64_OPTIONS* q = NULL; unsigned n = (unsigned) sc_rnd(c, 200); int r;
        static const char dig[8] = { '+', '-', '\x80', '\xff', '/', '_', '\xc0', '!' };
        switch(sc_rnd(c, 3)) { case 0: break; default: o.ch62 = dig[sc_rnd(c, 4)]; o.ch63 = dig[4 + sc_rnd(c, 4)]; o.pad = sc_rnd(c, 3) ? sc_rnd(c, 2) ? '=' : '\xfe' : 0; q = &o; break; }
        sc_bytes(c, in, n);
        r = base64_encode(in, n, out, sc_rnd(c, 10) ? 400 : n, q);
        sc_mix(c, (uint64_t) (int64_t) r);
        sc_mix(c, (uint64_t) (int64_t) base64_encode(in, n, NULL, 0, q));
        if(r >= 0) {
            sc_mixb(c, out, (size_t) r);
            if(r >= 4 && sc_rnd(c, 3) == 0) {
                /* Every byte in every place of a short text. */
                char t[4]; unsigned at = (unsigned) sc_rnd(c, 4), x;
                memcpy(t, out, 4);
                for(x = 0; x < 256; x++) {
                    int e;
                    t[at] = (char) x; memset(back, 0, 3);
                    e = base64_decode(t, 4, back, 3, q);
                    sc_mix(c, (uint64_t) (int64_t) e);
                    if(e >= 0) sc_mixb(c, back, 3);
                }
                x = (unsigned) sc_rnd(c, (uint64_t) r);
                out[x] = (char) sc_rnd(c, 256);
            }
            r = base64_decode(out, (unsigned) r, back, sizeof(back), q);
            sc_mix(c, (uint64_t) (int64_t) r);
            if(r >= 0) sc_mixb(c, back, (size_t) r);
        }
    }
    return c->d;
}
#endif

#ifdef SC_hex
SC_C uint64_t SC_F(hex)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0;
    unsigned char in[200], back[200]; char out[401];
    while(steps-- > 0) {
        unsigned n = (unsigned) sc_rnd(c, 200), room = sc_rnd(c, 10) ? 401 : n; int r, low = (int) sc_rnd(c, 2);
        sc_bytes(c, in, n);
        r = hex_encode(in, n, out, room, low);
        sc_mix(c, (uint64_t) (int64_t) r); sc_mix(c, (uint64_t) (int64_t) hex_encode(in, n, NULL, 0, 0));
        if(r >= 0) {
            sc_mixb(c, out, (size_t) r);
            if(r > 0 && sc_rnd(c, 2) == 0) {
                /* Every byte in every place of a short text. */
                char t[4]; unsigned at = (unsigned) sc_rnd(c, 4), x;
                memcpy(t, out, (size_t) (r < 4 ? r : 4));
                for(x = 0; r >= 4 && x < 256; x++) {
                    int e;
                    t[at] = (char) x; back[0] = back[1] = 0;
                    e = hex_decode(t, 4, back, 2);
                    sc_mix(c, (uint64_t) (int64_t) e);
                    if(e >= 0) sc_mixb(c, back, 2);
                }
                x = (unsigned) sc_rnd(c, (uint64_t) r);
                out[x] = (char) sc_rnd(c, 256);
            }
            r = hex_decode(out, (unsigned) r, back, sizeof(back));
            sc_mix(c, (uint64_t) (int64_t) r);
            if(r >= 0) sc_mixb(c, back, (size_t) r);
        }
    }
    return c->d;
}
#endif

#ifdef SC_crc32
SC_C uint64_t SC_F(crc32)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0; unsigned char in[300];
    sc_bytes(c, in, 300);
    while(steps-- > 0) { size_t n = (size_t) sc_rnd(c, 250), off = (size_t) sc_rnd(c, 50); sc_mix(c, crc32(in + off, n)); in[off + n / 2] ^= (unsigned char) n; }
    return c->d;
}
#endif

#ifdef SC_fnv1a
SC_C uint64_t SC_F(fnv1a)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0; unsigned char in[300]; uint32_t h = FNV1A_BASE_32; uint64_t g = FNV1A_BASE_64;
    sc_bytes(c, in, 300);
    while(steps-- > 0) { size_t n = (size_t) sc_rnd(c, 250), off = (size_t) sc_rnd(c, 50); h = fnv1a_32(h, in + off, n); g = fnv1a_64(g, in + off, n); sc_mix(c, h); sc_mix(c, g); }
    return c->d;
}
#endif

#ifdef SC_memchunk
SC_C uint64_t SC_F(memchunk)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0; MEMCHUNK m = MEMCHUNK_INITIALIZER(0); unsigned char* p[64]; size_t n[64]; int k = 0, i;
    while(steps-- > 0) {
        if(k == 64) { for(i = 0; i < 64; i++) sc_mixb(c, p[i], n[i]); memchunk_fini(&m); k = 0; memchunk_init(&m, (size_t) sc_rnd(c, 600)); }
        n[k] = (size_t) sc_rnd(c, sc_rnd(c, 5) ? 40 : 1200);
        p[k] = (unsigned char*) memchunk_alloc(&m, n[k]);
        if(p[k] == NULL) { sc_mix(c, 3); continue; }
        memset(p[k], k, n[k]);
        k++;
    }
    for(i = 0; i < k; i++) sc_mixb(c, p[i], n[i]);
    memchunk_fini(&m);
    return c->d;
}
#endif

#ifdef SC_malloca
static uint64_t sc_frame(SC* c, int depth)
{
    size_t n = (size_t) sc_rnd(c, 2600), i; uint64_t s = 0;
    unsigned char* p = (unsigned char*) (sc_rnd(c, 2) ? MALLOCA(n) : MALLOCA_(n, 100));
    if(p == NULL) return 1;
    for(i = 0; i < n; i++) p[i] = (unsigned char) (i * 7 + n);
    if(depth > 0) s = sc_frame(c, depth - 1);
    for(i = 0; i < n; i++) s = s * 31 + p[i];
    FREEA(p);
    return s;
}
SC_C uint64_t SC_F(malloca)(uint64_t seed, unsigned steps) { SC c0 = sc_start(seed); SC* c = &c0; while(steps-- > 0) sc_mix(c, sc_frame(c, (int) sc_rnd(c, 5))); return c->d; }
#endif

#ifdef SC_cmdline
static int sc_opt(int id, const char* arg, void* p) { SC* c = (SC*) p; sc_mix(c, (uint64_t) (int64_t) id); if(arg) sc_mixb(c, arg, strlen(arg)); else sc_mix(c, 77); return sc_rnd(c, 40) == 0 ? 3 : 0; }
SC_C uint64_t SC_F(cmdline)(uint64_t seed, unsigned steps)
{
    static const CMDLINE_OPTION t0[] = { { 'a', "alpha", 1, 0 }, { 'o', "output", 2, CMDLINE_OPTFLAG_REQUIREDARG }, { '\xe4', "level", 3, CMDLINE_OPTFLAG_OPTIONALARG }, { 0, "-I", 4, CMDLINE_OPTFLAG_COMPILERLIKE }, { 'x', NULL, 5, 0 }, { 0 } };
    static const CMDLINE_OPTION t1[] = { { 'a', NULL, 1, 0 }, { 0, "lib:", 6, CMDLINE_OPTFLAG_COMPILERLIKE }, { 'v', "verbose", 2, 0 }, { 0 } };
    static const char* const w[] = { "-a", "-o", "file", "--output", "--output=x", "--level", "--level=3", "-\xe4", "-a\xe4x", "--verbose", "--verbose=1", "-ax", "-aox", "-Iinc", "-I", "lib:m", "lib:", "--", "-", "", "--nope=1", "-q", "-xa", "--a-rather-long-option-which-is-not-there=v" };
    SC c0 = sc_start(seed); SC* c = &c0;
    while(steps-- > 0) {
        char store[8][60]; char* av[10]; int n = (int) sc_rnd(c, 8), i;
        av[0] = (char*) "prog";
        for(i = 0; i < n; i++) { strcpy(store[i], w[sc_rnd(c, 23)]); av[i + 1] = store[i]; }
        av[n + 1] = NULL;
        sc_mix(c, (uint64_t) (int64_t) cmdline_read(sc_rnd(c, 2) ? t0 : t1, n + 1, av, sc_opt, c));
    }
    return c->d;
}
#endif

#ifdef SC_defs
typedef struct SC_D { char a; double b; struct { short x; int y; } in; } SC_D;
/* where the language wants constant expressions */
enum { SC_D_E = MIN3(3, 1, 2) + MAX3(4, 6, 5) + CLAMP(9, 2, 7) };
typedef char SC_D_T[MIN(5, 3) + MAX(4, 2)];
static const int sc_d_init[2] = { ABS(-4), MAX(1, MIN(2, 3)) };
#if MIN(3, 4) != 3 || MAX(2, 5) != 5 || MIN3(4, 2, 9) != 2 || MAX3(4, 8, 2) != 8 || CLAMP(12, 3, 7) != 7 || ABS(-6) != 6
    #error "not usable for the preprocessor"
#endif
enum { SC_D_OFF = OFFSETOF(SC_D, in.y) };
typedef char SC_D_T2[OFFSETOF(SC_D, b) == sizeof(double) || OFFSETOF(SC_D, b) == 4 ? 1 : -1];
struct SC_D_B { char room[SIZEOF_ARRAY(((SC_D_T*) 0)[0])]; unsigned bits : MIN(3, 4); };
SC_C uint64_t SC_F(defs)(uint64_t seed, unsigned steps)
{
    SC c0 = sc_start(seed); SC* c = &c0; SC_D d; int arr[7]; int* py = &d.in.y; SC_D* back;
    sc_mixb(c, STRINGIZE(a.b), strlen(STRINGIZE(a.b)));
    sc_mix(c, SIZEOF_ARRAY(arr)); sc_mix(c, OFFSETOF(SC_D, b) == offsetof(SC_D, b)); sc_mix(c, OFFSETOF(SC_D, in.y) == offsetof(SC_D, in.y));
    sc_mix(c, SC_D_E); sc_mix(c, SC_D_OFF == offsetof(SC_D, in.y)); sc_mix(c, sizeof(SC_D_T2)); sc_mix(c, sizeof(SC_D_T)); sc_mix(c, (uint64_t) sc_d_init[0] * 8 + (uint64_t) sc_d_init[1]); sc_mix(c, sizeof(((struct SC_D_B*) 0)->room));
    switch((int) sc_rnd(c, 8)) { case MAX(2, 3): sc_mix(c, 3); break; case MIN3(2, 1, 5): sc_mix(c, 1); break; case SIZEOF_ARRAY(arr): sc_mix(c, 7); break; default: break; }
    back = CONTAINEROF(py, SC_D, in.y); sc_mix(c, back == &d);
    while(steps-- > 0) {
        int x = (int) sc_rnd(c, 2000) - 1000, y = (int) sc_rnd(c, 2000) - 1000, z = (int) sc_rnd(c, 2000) - 1000;
        sc_mix(c, (uint64_t) (int64_t) MIN(x, y)); sc_mix(c, (uint64_t) (int64_t) MAX(x, y)); sc_mix(c, (uint64_t) (int64_t) MIN3(x, y, z)); sc_mix(c, (uint64_t) (int64_t) MAX3(x, y, z));
        sc_mix(c, (uint64_t) (int64_t) ABS(x)); if(y <= z) sc_mix(c, (uint64_t) (int64_t) CLAMP(x, y, z));
    }
    return c->d;
}
#endif
