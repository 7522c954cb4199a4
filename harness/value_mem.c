/* C46: values take memory in proportion to what they hold, and ask for it rarely. */
#include "pbt.h"
#include "value.h"

const char vf_property[] = VF_PROPERTY;
const char vf_rule[] = "a container of at least 16 items was built, or at least 20 steps of a history were done with a container in it";

#define INLINE  12                      /* strings up to this length are in the value itself */
static size_t str_cost(size_t n) { return n <= INLINE ? 0 : n + 32; }
static size_t array_cost(size_t n) { return 256 + 16 * 8 * n; }
static size_t item_cost(size_t key) { return 192 + str_cost(key); }
static size_t dict_cost(void) { return 256; }

/* What a tree may take at most. */
typedef struct { size_t bytes, blocks, n; } COST;
static int cost_item(const VALUE* k, VALUE* v, void* p);
static void cost(const VALUE* v, COST* c)
{
    c->n++;
    switch(value_type(v)) {
        case VALUE_STRING: { size_t n = value_string_length(v); c->bytes += str_cost(n); c->blocks += n > INLINE; break; }
        case VALUE_ARRAY: { size_t n = value_array_size(v), i; c->bytes += array_cost(n); c->blocks += 2; for(i = 0; i < n; i++) cost(value_array_get(v, i), c); break; }
        case VALUE_DICT: c->bytes += dict_cost(); c->blocks += 1; value_dict_walk_sorted(v, cost_item, c); break;
        default: break;
    }
}
static int cost_item(const VALUE* k, VALUE* v, void* p)
{
    COST* c = (COST*) p;
    size_t n = value_string_length(k);
    c->bytes += item_cost(n);
    c->blocks += 1 + (n > INLINE);
    cost(v, c);
    return 0;
}
static void check_cost(const VALUE* v, const char* when)
{
    COST c = { 0, 0, 0 };
    cost(v, &c);
    CHECK(vf_live_bytes() <= c.bytes, "%s: %zu bytes are held for a tree of %zu values, which ought to take %zu at most", when, vf_live_bytes(), c.n, c.bytes);
    CHECK(vf_live_blocks() <= c.blocks, "%s: %zu blocks are held for a tree of %zu values, which ought to take %zu at most", when, vf_live_blocks(), c.n, c.blocks);
}

static unsigned log2up(size_t n) { unsigned r = 0; while(((size_t) 1 << r) < n) r++; return r; }
static u64 calls0;
static u64 calls(void) { return vf_alloc_calls() - calls0; }
static void reset(void) { calls0 = vf_alloc_calls(); }

static char text[70000];

/* Scalars and short strings: never any allocation, even with a heap which has nothing. */
static void scalar(VALUE* v)
{
    int k = (int) d_below(9), r = 0;
    size_t n = 0;
    u64 c = vf_alloc_calls();
    if(d_bool()) vf_alloc_fail_from(1);
    switch(k) {
        case 0: value_init_null(v); break;
        case 1: r = value_init_bool(v, d_bool()); break;
        case 2: r = value_init_int32(v, (int32_t) d_u64()); break;
        case 3: r = value_init_uint32(v, (u32) d_u64()); break;
        case 4: r = value_init_int64(v, (i64) d_u64()); break;
        case 5: r = value_init_uint64(v, d_u64()); break;
        case 6: r = value_init_float(v, (float) d_u64()); break;
        case 7: r = value_init_double(v, d_double()); break;
        default: n = (size_t) d_below(INLINE + 1); d_fill(text, n); r = value_init_string_(v, text, n); break;
    }
    vf_alloc_fail_none();
    CHECK(r == 0, "making a value of kind %d failed", k);
    CHECK(vf_alloc_calls() == c, "making a small value of kind %d (%zu bytes) allocates", k, n);
}

static void longer(VALUE* v)
{
    size_t n = d_size(d_chance(1, 10) ? sizeof(text) : 200), before = vf_live_bytes();
    u64 c = vf_alloc_calls();
    memset(text, 'x', n);
    CHECK(value_init_string_(v, text, n) == 0, "string of %zu", n);
    CHECK(vf_alloc_calls() - c <= 1, "a string of %zu bytes takes %llu allocations", n, (unsigned long long) (vf_alloc_calls() - c));
    CHECK(vf_live_bytes() - before <= str_cost(n), "a string of %zu bytes takes %zu", n, vf_live_bytes() - before);
}

static void content(VALUE* x, int depth)
{
    switch(D_WEIGHTED(5, 2, 1, 1)) {
        case 0: scalar(x); break;
        case 1: longer(x); break;
        case 2: if(depth < 6) { CHECK(value_init_array(x) == 0, "init"); break; } scalar(x); break;
        default: if(depth < 6) { CHECK(value_init_dict_ex(x, NULL, d_bool() ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init"); break; } scalar(x); break;
    }
}

static size_t mk_key(char* k)
{
    size_t n = d_chance(1, 4) ? (size_t) d_below(60) : (size_t) d_below(14), i;
    u64 r = vf_mix(d_below(400));
    for(i = 0; i < n; i++) k[i] = (char) ('a' + (r >> (i % 60)) % 4);
    return n;
}

/* A history on a tree. */
static void history(void)
{
    VALUE root;
    unsigned avg = vf_profile ? 400 : 80;
    int steps = 0;
    if(d_bool()) value_init_array(&root); else value_init_dict_ex(&root, NULL, d_bool() ? VALUE_DICT_MAINTAINORDER : 0);
    check_cost(&root, "empty");
    while(d_more(avg)) {
        VALUE* v = &root;
        VALUE* x;
        char k[64]; size_t len, n;
        int depth = 0, op;
        steps++;
        while(d_chance(1, 2)) {         /* go down */
            if(value_type(v) == VALUE_ARRAY && value_array_size(v) > 0) x = value_array_get(v, (size_t) d_below(value_array_size(v)));
            else { len = mk_key(k); x = value_dict_get_(v, k, len); }
            if(x == NULL || (value_type(x) != VALUE_ARRAY && value_type(x) != VALUE_DICT)) break;
            v = x; depth++;
        }
        op = D_WEIGHTED(10, 3, 1, 1);
        if(value_type(v) == VALUE_ARRAY) {
            n = value_array_size(v);
            switch(op) {
                case 0: { int i = 1 + (d_chance(1, 6) ? (int) d_below(100) : 0); while(i-- > 0) { x = value_array_insert(v, (size_t) d_below(value_array_size(v) + 1)); CHECK(x != NULL, "insert"); if(i < 10) content(x, depth); } break; }
                case 1: if(n) value_array_remove(v, (size_t) d_below(n)); break;
                case 2: { size_t a = (size_t) d_below(n + 1); value_array_remove_range(v, a, d_bool() ? n - a : (size_t) d_below(n - a + 1)); break; }
                default: if(d_chance(1, 3)) value_array_clean(v); break;
            }
        } else {
            n = value_dict_size(v);
            switch(op) {
                case 0: { int i = 1 + (d_chance(1, 6) ? (int) d_below(60) : 0); while(i-- > 0) { size_t before = vf_live_bytes(); u64 c = vf_alloc_calls(); len = mk_key(k); x = value_dict_add_(v, k, len);
                          if(x == NULL) { CHECK(vf_live_bytes() == before, "a refused addition keeps memory"); continue; }
                          CHECK(vf_alloc_calls() - c <= 2, "adding an item takes %llu allocations", (unsigned long long) (vf_alloc_calls() - c));
                          if(i < 10) content(x, depth); } break; }
                case 1: case 2: { int i = 1 + (d_chance(1, 3) ? (int) d_below(60) : 0); while(i-- > 0) { u64 c = vf_alloc_calls(); len = mk_key(k); value_dict_remove_(v, k, len); CHECK(vf_alloc_calls() == c, "removing an item allocates"); } break; }
                default: if(d_chance(1, 3)) value_dict_clean(v); break;
            }
        }
        check_cost(&root, "in a history");
    }
    vf_label("a history");
    if(steps >= 20) vf_nontrivial();
    value_fini(&root);
    CHECK(vf_live_blocks() == 0, "%zu blocks are left", vf_live_blocks());
}

/* One array: few allocations, and none of them for nothing. */
static void one_array(void)
{
    VALUE v;
    size_t max = vf_profile == 2 ? 3000000 : vf_profile ? 30000 : 3000, n = d_size(max), i, m;
    int where = (int) d_below(3);
    value_init_array(&v);
    if(where && n > 3000) n = 3000;
    reset();
    for(i = 0; i < n; i++) {
        VALUE* x = where == 0 ? value_array_append(&v) : value_array_insert(&v, where == 1 ? 0 : i / 2);
        CHECK(x != NULL, "append");
        value_init_uint32(x, (u32) i);
        if((i & (i - 1)) == 0 || i % 97 == 0) CHECK(vf_live_bytes() <= array_cost(i + 1), "%zu items take %zu bytes", i + 1, vf_live_bytes());
    }
    TRACE("%zu items, %llu allocations, %zu bytes", n, (unsigned long long) calls(), vf_live_bytes());
    CHECK(calls() <= 16 + 8 * log2up(n + 2), "%zu appended items take %llu allocations", n, (unsigned long long) calls());
    if(n >= 64) {                       /* back and forth */
        size_t k, rounds = 3 + (size_t) d_below(20);
        u64 c;
        /* ... at some size between */
        m = (size_t) d_below(n - 63);
        value_array_remove_range(&v, n - m, m);
        n -= m;
        k = 1 + (size_t) d_below(n / 16);
        reset();
        for(i = 0; i < rounds; i++) {
            size_t j;
            for(j = 0; j < k; j++) { VALUE* x = value_array_append(&v); CHECK(x != NULL, "append"); }
            for(j = 0; j < k; j++) value_array_remove(&v, value_array_size(&v) - 1);
        }
        c = calls();
        CHECK(c <= 3, "%zu rounds of adding and removing %zu items at the end of %zu take %llu allocations", rounds, k, n, (unsigned long long) c);
        vf_label("back and forth");
    }
    reset();
    i = 0;
    m = n;
    while(value_array_size(&v) > 0) {
        size_t k = d_chance(1, 12) ? 1 + (size_t) d_below(value_array_size(&v)) : 1, r;
        if(i > 2000) k = value_array_size(&v) / 3 + 1;
        for(r = 0; r < (k == 1 && i > 20 ? 50 : 1) && value_array_size(&v) >= k; r++)
            CHECK(value_array_remove_range(&v, where == 1 ? 0 : value_array_size(&v) - k, k) == 0, "remove");
        i++;
        CHECK(vf_live_bytes() <= array_cost(value_array_size(&v)), "%zu bytes are held for the %zu items left of %zu", vf_live_bytes(), value_array_size(&v), n);
    }
    CHECK(calls() <= 16 + 8 * log2up(m + 2), "removing %zu items takes %llu allocations", m, (unsigned long long) calls());
    value_array_clean(&v);
    value_fini(&v);
    vf_label("an array");
    if(n >= 16) vf_nontrivial();
}

static void one_dict(void)
{
    VALUE v;
    size_t max = vf_profile == 2 ? 200000 : vf_profile ? 3000 : 300, n = d_size(max), i, empty;
    size_t pad = d_chance(1, 3) ? (size_t) d_below(100) : 0;
    u64 s = d_seed();
    unsigned fl = d_bool() ? VALUE_DICT_MAINTAINORDER : 0;
    char key[140];
    int get = d_bool();
    CHECK(value_init_dict_ex(&v, NULL, fl) == 0, "init");
    empty = vf_live_bytes();
    CHECK(empty <= dict_cost(), "an empty dictionary takes %zu bytes", empty);
    memset(key, 'k', sizeof(key));
    for(i = 0; i < n; i++) {
        u32 k = (u32) vf_mix(s + i);
        size_t before = vf_live_bytes();
        VALUE* x;
        memcpy(key, &k, 4); memcpy(key + 4, &i, 4);
        x = get ? value_dict_get_or_add_(&v, key, 8 + pad) : value_dict_add_(&v, key, 8 + pad);
        CHECK(x != NULL, "add");
        value_init_uint32(x, (u32) i);
        CHECK(vf_live_bytes() - before <= item_cost(8 + pad), "an item with a key of %zu bytes takes %zu bytes", 8 + pad, vf_live_bytes() - before);
    }
    { u64 c = vf_alloc_calls(); size_t b = vf_live_bytes();
      for(i = 0; i < n && i < 100; i++) { u32 k = (u32) vf_mix(s + i); memcpy(key, &k, 4); memcpy(key + 4, &i, 4); CHECK(value_dict_get_(&v, key, 8 + pad) != NULL, "get"); value_dict_get_or_add_(&v, key, 8 + pad); CHECK(value_dict_add_(&v, key, 8 + pad) == NULL, "add"); }
      CHECK(vf_live_bytes() == b, "looking up keeps memory"); CHECK(vf_alloc_calls() == c, "looking up %zu items takes %llu allocations", i, (unsigned long long) (vf_alloc_calls() - c)); }
    for(i = 0; i < n; i++) {
        u32 k = (u32) vf_mix(s + i);
        u64 c = vf_alloc_calls();
        memcpy(key, &k, 4); memcpy(key + 4, &i, 4);
        CHECK(value_dict_remove_(&v, key, 8 + pad) == 0, "remove");
        CHECK(vf_alloc_calls() == c, "removing an item allocates");
        CHECK(vf_live_bytes() <= dict_cost() + (n - i - 1) * item_cost(8 + pad), "%zu bytes are held for %zu items", vf_live_bytes(), n - i - 1);
    }
    CHECK(vf_live_bytes() <= dict_cost(), "%zu bytes are held for an empty dictionary", vf_live_bytes());
    value_fini(&v);
    vf_label("a dictionary");
    if(n >= 16) vf_nontrivial();
}

void vf_case(void)
{
    VALUE v;
    vf_alloc_fail_none();
    switch(vf_profile == 2 ? (int) d_below(2) + 2 : D_WEIGHTED(1, 1, 4, 4, 8)) {
        case 0: scalar(&v); value_fini(&v); break;
        case 1: longer(&v); value_fini(&v); break;
        case 2: one_array(); break;
        case 3: one_dict(); break;
        default: history(); break;
    }
}
