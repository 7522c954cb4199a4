/* C50: arguments may be parts of the object itself, or of another object of the library.
 *
 * Keys and strings are passed by pointers into the same dictionary (its keys, its string values), nodes of a table or a tree
 * are looked up and removed by themselves.  The oracle is a model which works on copies: the outcome
 * has to be the one of an argument kept elsewhere.  Sanitizers and the poisoning heap show a late use of the argument. */
#include <strings.h>
#include "pbt.h"
#include "value.h"
#include "htable.h"
#include "rbtree.h"
#include "buffer.h"
#include "hex.h"
#include "base64.h"
#include "crc32.h"
#include "fnv1a.h"

const char vf_property[] = VF_PROPERTY;
const char vf_rule[] = "at least five operations got a part of the object as their argument and at least two of them removed that part";

static int own, removed;

/* ------------------------------------------------------------- dictionaries of strings */
#define MAXK 200
typedef struct { char* key; size_t len; char* val; size_t vlen; } KV;
typedef struct { VALUE v; KV kv[MAXK]; int n; int rev; } DICT;
static DICT dict[2];
static int cmp2(const char* a, size_t la, const char* b, size_t lb) { int c = memcmp(a, b, la < lb ? la : lb); return c ? c : la < lb ? -1 : la > lb; }
static int cmp_rev(const char* a, size_t la, const char* b, size_t lb) { return cmp2(b, lb, a, la); }
static int find(DICT* d, const char* k, size_t n) { int i; for(i = 0; i < d->n; i++) if(d->kv[i].len == n && memcmp(d->kv[i].key, k, n) == 0) return i; return -1; }
static size_t make_text(char* t)
{
    static const char* const stem[] = { "k", "key", "some-longer-text-", "a/b", "x" };
    switch(D_WEIGHTED(6, 1, 1)) {
        case 0: return (size_t) sprintf(t, "%s%u", stem[d_below(5)], (unsigned) d_below(12));
        case 1: { size_t n = (size_t) d_size(300); memset(t, 'l', n); t[n] = 0; return n; }
        default: t[0] = 0; return 0;
    }
}
static void verify(DICT* d)
{
    int i;
    CHECK(value_dict_size(&d->v) == (size_t) d->n, "%zu items instead of %d", value_dict_size(&d->v), d->n);
    for(i = 0; i < d->n; i++) {
        VALUE* v = value_dict_get_(&d->v, d->kv[i].key, d->kv[i].len);
        CHECK(v != NULL, "the key \"%s\" is lost", d->kv[i].key);
        if(d->kv[i].val == NULL) { CHECK(value_type(v) == VALUE_NULL && !value_is_new(v), "the value of \"%s\" is not null", d->kv[i].key); continue; }
        CHECK(value_string(v) != NULL && value_string_length(v) == d->kv[i].vlen && memcmp(value_string(v), d->kv[i].val, d->kv[i].vlen + 1) == 0, "the value of \"%s\" is another one", d->kv[i].key);
    }
}
static void add_model(DICT* d, const char* k, size_t n, const char* s, size_t m)
{
    KV* x = &d->kv[d->n++];
    x->key = (char*) h_dup(k, n + 1); x->len = n; x->key[n] = 0;
    if(s == NULL) { x->val = NULL; x->vlen = 0; return; }
    x->val = (char*) h_malloc(m + 1); memcpy(x->val, s, m); x->val[m] = 0; x->vlen = m;
}
static void del_model(DICT* d, int i)
{
    h_free(d->kv[i].key); h_free(d->kv[i].val);
    memmove(&d->kv[i], &d->kv[i + 1], (size_t) (d->n - 1 - i) * sizeof(KV));
    d->n--;
}
/* A pointer to text within the dictionary: one of its keys, or one of its values (or the end of one). */
static const char* own_text(DICT* d, size_t* n)
{
    static const VALUE* keys[MAXK]; size_t k = value_dict_keys_sorted(&d->v, keys, MAXK); const VALUE* v;
    CHECK(k == (size_t) d->n, "the keys are %zu of %d", k, d->n);
    v = keys[d_below(k)];
    if(d_chance(1, 3) && value_type(value_dict_get_(&d->v, value_string(v), value_string_length(v))) == VALUE_STRING) { v = value_dict_get_(&d->v, value_string(v), value_string_length(v)); CHECK(v != NULL, "a lookup by the stored key fails"); own++; }
    *n = value_string_length(v);
    if(d_chance(1, 8) && *n > 0) { size_t o = (size_t) d_below(*n); *n -= o; return value_string(v) + o; }
    return value_string(v);
}
static void dictionaries(void)
{
    char t[400]; unsigned avg = d_avg(); int i;
    memset(dict, 0, sizeof(dict));
    for(i = 0; i < 2; i++) CHECK(value_init_dict_ex(&dict[i].v, d_chance(1, 3) ? cmp_rev : NULL, d_bool() ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init");
    while(d_more(avg)) {
        int w = d_chance(1, 5); DICT *d = &dict[w], *e = &dict[!w];
        size_t n, m, k; const char *p, *q; VALUE* v; char* copy; int at;
        if(d->n == 0 || (d->n < MAXK - 2 && d_chance(1, 3))) {
            n = make_text(t);
            v = value_dict_add_(&d->v, t, n);
            CHECK((v == NULL) == (find(d, t, n) >= 0), "adding \"%s\"", t);
            if(v != NULL) {
                char s[400]; size_t j = d_bool() ? make_text(s) : (memcpy(s, t, n + 1), n);    /* often the value is the key */
                if(d_chance(1, 4)) { value_init_null(v); add_model(d, t, n, NULL, 0); }
                else { CHECK(value_init_string_(v, s, j) == 0, "init"); add_model(d, t, n, s, j); }
                TRACE("%d: \"%s\" = \"%s\"", w, t, s);
            }
            continue;
        }
        p = own_text(d, &n); own++;
        copy = (char*) h_dup(p, n + 1); at = find(d, copy, n);
        k = strlen(copy);
        switch(D_WEIGHTED(3, 5, 2, 2, 2, 3, 2)) {
            case 0:
                v = k == n && d_bool() ? value_dict_get(&d->v, p) : value_dict_get_(&d->v, p, n);
                CHECK((v != NULL) == (at >= 0), "looking its own text \"%s\" up gives %s", copy, v ? "a value" : "nothing");
                break;
            case 1: {
                int r = k == n && d_bool() ? value_dict_remove(&d->v, p) : value_dict_remove_(&d->v, p, n);
                TRACE("%d: remove its own \"%s\"", w, copy);
                CHECK((r == 0) == (at >= 0), "removing by its own text \"%s\" gives %d", copy, r);
                if(at >= 0) { removed++; del_model(d, at); }
                break;
            }
            case 2:
                v = k == n && d_bool() ? value_dict_add(&d->v, p) : value_dict_add_(&d->v, p, n);
                TRACE("%d: add its own \"%s\"", w, copy);
                CHECK((v == NULL) == (at >= 0), "adding its own text \"%s\" gives %s", copy, v ? "a value" : "nothing");
                if(v) { CHECK(value_is_new(v) && value_init_string_(v, "new", 3) == 0, "init"); add_model(d, copy, n, "new", 3); }
                break;
            case 3:
                v = k == n && d_bool() ? value_dict_get_or_add(&d->v, p) : value_dict_get_or_add_(&d->v, p, n);
                TRACE("%d: get or add its own \"%s\"", w, copy);
                CHECK(v != NULL && value_is_new(v) == (at < 0), "get or add of its own text \"%s\"", copy);
                if(at < 0) { CHECK(value_init_string_(v, "new", 3) == 0, "init"); add_model(d, copy, n, "new", 3); }
                break;
            case 4: { /* as a path, without adding anything */
                if(strpbrk(copy, "/[") || n == 0 || k != n) break;
                v = value_path(&d->v, p);
                CHECK((v != NULL) == (at >= 0), "the path \"%s\" out of the dictionary itself gives %s", copy, v ? "a value" : "nothing");
                if(at >= 0) CHECK(value_build_path(&d->v, p) == v, "the built path \"%s\" gives another value", copy);
                break;
            }
            case 5: /* into the other dictionary, as a key and as content */
                if(e->n >= MAXK - 2 || find(e, copy, n) >= 0) break;
                TRACE("%d: its \"%s\" goes to the other", w, copy);
                v = value_dict_add_(&e->v, p, n);
                CHECK(v != NULL, "adding the key of another dictionary fails");
                q = own_text(d, &m);
                { char* c2 = (char*) h_dup(q, m + 1); CHECK((strlen(c2) == m && d_bool() ? value_init_string(v, q) : value_init_string_(v, q, m)) == 0, "init"); add_model(e, copy, n, c2, m); h_free(c2); }
                break;
            default: { /* new content made of content of the same dictionary */
                VALUE nv; int j = (int) d_below((u64) d->n);
                CHECK(value_init_string_(&nv, p, n) == 0, "init");
                v = value_dict_get_(&d->v, d->kv[j].key, d->kv[j].len);
                CHECK(v != NULL, "a key is lost");
                value_fini(v);
                CHECK(value_init_string_(v, value_string(&nv), value_string_length(&nv)) == 0, "init");
                value_fini(&nv);
                h_free(d->kv[j].val); d->kv[j].val = (char*) h_malloc(n + 1); memcpy(d->kv[j].val, copy, n); d->kv[j].val[n] = 0; d->kv[j].vlen = n;
                TRACE("%d: \"%s\" = its own \"%s\"", w, d->kv[j].key, copy);
            }
        }
        h_free(copy);
        if(d_chance(1, 4)) { verify(d); verify(e); }
    }
    verify(&dict[0]); verify(&dict[1]);
    value_fini(&dict[0].v); value_fini(&dict[1].v);
}

/* ------------------------------------------------------------- nodes as their own keys */
typedef struct { u32 key; HTABLE_NODE h; u32 guard; RBTREE_NODE r; } NODE;
#define HN(p) ((const NODE*) ((const char*) (p) - offsetof(NODE, h)))
#define RN(p) ((const NODE*) ((const char*) (p) - offsetof(NODE, r)))
static u32 modulus;
static int h_cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HN(a)->key < HN(b)->key ? -1 : HN(a)->key > HN(b)->key; }
static u32 h_hash(const HTABLE_NODE* a) { return HN(a)->key % modulus * 2654435761u; }
static int r_cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) { return RN(a)->key < RN(b)->key ? -1 : RN(a)->key > RN(b)->key; }
static void nodes(void)
{
    size_t max = 2 + d_size(vf_profile ? 800 : 120), i; NODE* x = (NODE*) h_calloc(max * sizeof(NODE)); u8* in = (u8*) h_calloc(max);
    HTABLE t[2]; RBTREE r[2]; unsigned avg = d_avg() * 3; size_t count[2] = { 0, 0 };
    modulus = d_chance(1, 4) ? 1 + (u32) d_below(10) : 1000003;
    for(i = 0; i < 2; i++) { htable_init(&t[i]); rbtree_init(&r[i]); }
    for(i = 0; i < max; i++) { x[i].key = (u32) i; x[i].guard = (u32) i * 77; }
    if(d_bool()) for(i = 0; i < max; i++) { CHECK(htable_insert(&t[0], &x[i].h, h_cmp, h_hash) == 0 && rbtree_insert(&r[0], &x[i].r, r_cmp) == 0, "insertion"); in[i] = 1; count[0]++; }
    while(d_more(avg)) {
        NODE* y; int c; RBTREE_CURSOR cur;
        i = (size_t) d_below(max); y = &x[i]; c = in[i] - 1;
        if(c < 0) {
            c = d_bool();
            CHECK(htable_insert(&t[c], &y->h, h_cmp, h_hash) == 0 && rbtree_insert(&r[c], &y->r, r_cmp) == 0, "insertion");
            in[i] = (u8) (c + 1); count[c]++;
            continue;
        }
        own++;
        switch(D_WEIGHTED(2, 4, 1, 2)) {
            case 0: CHECK(htable_lookup(&t[c], &y->h, h_cmp, h_hash) == &y->h && rbtree_lookup(&r[c], &y->r, r_cmp) == &y->r, "node %zu does not find itself", i); break;
            case 1:
                TRACE("node %zu is removed by itself from %d", i, c);
                CHECK(htable_remove(&t[c], &y->h, h_cmp, h_hash) == &y->h, "node %zu is not removed from its table", i);
                CHECK(rbtree_remove(&r[c], &y->r, r_cmp) == &y->r, "node %zu is not removed from its tree", i);
                in[i] = 0; count[c]--; removed++;
                CHECK(htable_lookup(&t[c], &y->h, h_cmp, h_hash) == NULL && rbtree_lookup(&r[c], &y->r, r_cmp) == NULL, "node %zu is still found", i);
                if(d_bool()) { memset(&y->h, 0xEE, sizeof(y->h)); memset(&y->r, 0xEE, sizeof(y->r)); }
                break;
            case 2: CHECK(htable_lookup(&t[!c], &y->h, h_cmp, h_hash) == NULL && rbtree_lookup(&r[!c], &y->r, r_cmp) == NULL && htable_remove(&t[!c], &y->h, h_cmp, h_hash) == NULL && rbtree_remove(&r[!c], &y->r, r_cmp) == NULL, "node %zu is found where it is not", i); break;
            default: {
                size_t j = i + 1;
                CHECK(rbtree_lookup_ex(&r[c], &y->r, r_cmp, &cur) == &y->r && rbtree_current(&cur) == &y->r, "node %zu does not find itself", i);
                while(j < max && in[j] != c + 1) j++;
                CHECK(rbtree_next(&cur) == (j < max ? &x[j].r : NULL), "the node after %zu", i);
            }
        }
    }
    for(i = 0; i < max; i++) {
        int c;
        for(c = 0; c < 2; c++) CHECK(htable_lookup(&t[c], &x[i].h, h_cmp, h_hash) == (in[i] == c + 1 ? &x[i].h : NULL) && rbtree_lookup(&r[c], &x[i].r, r_cmp) == (in[i] == c + 1 ? &x[i].r : NULL), "node %zu at the end", i);
        CHECK(x[i].key == (u32) i && x[i].guard == (u32) i * 77, "the payload of node %zu was written to", i);
    }
    /* each tree is emptied by removing its own nodes as a cursor gives them */
    for(i = 0; i < 2; i++) {
        RBTREE_CURSOR cur; RBTREE_NODE* y;
        while((y = d_bool() ? rbtree_head(&r[i], &cur) : rbtree_tail(&r[i], &cur)) != NULL) {
            NODE* z = (NODE*) RN(y);
            CHECK(count[i] > 0, "too many nodes");
            CHECK(rbtree_remove(&r[i], y, r_cmp) == y && htable_remove(&t[i], &z->h, h_cmp, h_hash) == &z->h, "the node given by a cursor is not removed by itself");
            count[i]--; own++; removed++;
            memset(y, 0xEE, sizeof(*y)); memset(&z->h, 0xEE, sizeof(z->h));
        }
        CHECK(count[i] == 0 && rbtree_is_empty(&r[i]), "nodes are left");
        htable_fini(&t[i], NULL);
    }
    h_free(x); h_free(in);
}

/* ------------------------------------------------------------- content of one object for another */
static void contents(void)
{
    BUFFER b[3] = { BUFFER_INITIALIZER, BUFFER_INITIALIZER, BUFFER_INITIALIZER }; u8* model[3]; size_t n[3]; int i; unsigned avg = d_avg();
    for(i = 0; i < 3; i++) { n[i] = (size_t) d_size(200); model[i] = (u8*) h_malloc(4096); d_fill(model[i], n[i]); CHECK(buffer_append(&b[i], model[i], n[i]) == 0, "append"); }
    while(d_more(avg)) {
        int a = (int) d_below(3), c = (a + 1 + (int) d_below(2)) % 3; size_t off, m, to;
        if(n[c] == 0) continue;
        off = (size_t) d_below(n[c]); m = (size_t) d_below(n[c] - off + 1); to = (size_t) d_below(n[a] + 1);
        own++;
        switch(D_WEIGHTED(3, 2, 2, 2)) {
            case 0: case 1:
                if(n[a] + m > 4000) break;
                if(d_bool()) to = n[a];
                TRACE("%zu bytes of buffer %d go to %d at %zu", m, c, a, to);
                CHECK(buffer_insert(&b[a], to, buffer_const_data_at(&b[c], off), m) == 0, "insert");
                memmove(model[a] + to + m, model[a] + to, n[a] - to); memcpy(model[a] + to, model[c] + off, m); n[a] += m;
                break;
            case 2: m = n[a] - to; buffer_remove(&b[a], to, m); n[a] -= m; removed++; break;
            default: { /* encoded straight into room made in another buffer */
                char* room; int k;
                if(m == 0 || n[a] + m * 2 > 4000) break;
                if(d_bool()) {
                    room = (char*) buffer_append_raw(&b[a], m * 2); CHECK(room != NULL, "append");
                    k = hex_encode(buffer_const_data_at(&b[c], off), (unsigned) m, room, (unsigned) m * 2, 0);
                    CHECK(k == (int) m * 2, "hex");
                    { size_t j; for(j = 0; j < m; j++) { char t[3]; sprintf(t, "%02X", model[c][off + j]); model[a][n[a] + 2 * j] = (u8) room[2 * j]; CHECK(strncasecmp(t, room + 2 * j, 2) == 0, "hex"); } for(j = 0; j < m * 2; j++) model[a][n[a] + j] = (u8) room[j]; }
                    n[a] += m * 2;
                } else {
                    VALUE v;
                    CHECK(value_init_string_(&v, (const char*) buffer_const_data_at(&b[c], off), m) == 0, "init");
                    CHECK(buffer_append(&b[a], value_string(&v), value_string_length(&v)) == 0, "append");
                    value_fini(&v);
                    memcpy(model[a] + n[a], model[c] + off, m); n[a] += m;
                }
                CHECK(crc32(buffer_const_data(&b[a]), n[a]) == crc32(model[a], n[a]) && fnv1a_64(FNV1A_BASE_64, buffer_const_data(&b[a]), n[a]) == fnv1a_64(FNV1A_BASE_64, model[a], n[a]), "hashes differ");
            }
        }
        CHECK(buffer_size(&b[a]) == n[a] && (n[a] == 0 || memcmp(buffer_const_data(&b[a]), model[a], n[a]) == 0), "the content of buffer %d is wrong", a);
        CHECK(buffer_size(&b[c]) == n[c] && (n[c] == 0 || memcmp(buffer_const_data(&b[c]), model[c], n[c]) == 0), "the content of buffer %d is wrong", c);
    }
    for(i = 0; i < 3; i++) { buffer_fini(&b[i]); h_free(model[i]); }
}

void vf_case(void)
{
    own = removed = 0;
    switch(D_WEIGHTED(5, 4, 1)) { case 0: dictionaries(); vf_label("a dictionary"); break; case 1: nodes(); vf_label("tables and trees"); break; default: contents(); vf_label("content of other objects"); }
    if(own >= 5 && removed >= 2) vf_nontrivial();
}
