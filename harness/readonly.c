/* C47: reading an object changes nothing.
 *
 * An object is built with all of its memory (the object itself, its blocks,
 * the nodes, the keys) in one region, which is then write-protected: whatever
 * a reading operation writes there is an error caught in the act, also when it
 * writes what was there already.  The readings have to be the same each time,
 * also with a heap which gives nothing, and in several threads at once. */
#include "pbt.h"
#include <pthread.h>
#include <sched.h>
#include "buffer.h"
#include "htable.h"
#include "rbtree.h"
#include "list.h"
#include "value.h"
#include "base64.h"
#include "hex.h"
#include "crc32.h"
#include "fnv1a.h"
#include "cmdline.h"
#include "memstream.h"

const char vf_property[] = VF_PROPERTY;
const char vf_rule[] = "an object with at least 8 items (bytes, nodes, values, arguments) was read by at least 20 operations";

/* ---- what Windows provides (no resources here) ---- */
const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0, 0xaa, 0, 0x44, 0x77, 0x3d } };
const IID IID_IStream = { 0x0000000c, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
DWORD GetLastError(void) { return ERROR_RESOURCE_NAME_NOT_FOUND; }
void SetLastError(DWORD e) { (void) e; }
HRSRC FindResourceW(HMODULE mod, LPCWSTR name, LPCWSTR type) { return NULL; }
DWORD SizeofResource(HMODULE mod, HRSRC h) { return 0; }
HGLOBAL LoadResource(HMODULE mod, HRSRC h) { return NULL; }
LPVOID LockResource(HGLOBAL g) { return NULL; }
BOOL FreeResource(HGLOBAL g) { return FALSE; }

enum { R_BUFFER, R_STACK, R_ARRAY, R_HTABLE, R_RBTREE, R_LISTS, R_VALUE, R_BYTES, R_CMDLINE, R_STREAM, R_COUNT };
static const char* names[R_COUNT] = { "buffer", "stack", "array", "htable", "rbtree", "lists", "value", "bytes", "cmdline", "memstream" };

typedef struct { u64 key; HTABLE_NODE h; RBTREE_NODE r; LIST_NODE l; SLIST_NODE s; QLIST_NODE q; } NODE;

/* All of it is in the region. */
typedef struct {
    int kind;
    BUFFER buf; STACK stack; ARRAY_int64 arr;
    HTABLE ht; RBTREE rt; LIST list; SLIST slist; QLIST qlist;
    NODE* node; size_t n; u64 space;
    VALUE val;
    u8* data; size_t len; char* text; size_t text_len; char* hexed; BASE64_OPTIONS opt; int own_opt;
    CMDLINE_OPTION* table; char** argv; int argc;
} OBJ;

/* A reader: what of it changes is its own. */
typedef struct {
    const OBJ* o;
    u64 seed, s, d;
    size_t steps;
    RBTREE_CURSOR cur[2]; int cur_ok[2];
    IStream* st;
    int depth, *start;
} RD;

static void mix(RD* t, u64 x) { t->d = vf_mix(t->d ^ x) + 0x1234567; }
static void mixb(RD* t, const void* p, size_t n) { const u8* b = (const u8*) p; size_t i; for(i = 0; i < n; i++) mix(t, b[i]); mix(t, n); }
static u64 rnd(RD* t, u64 n) { return n ? vf_next(&t->s) % n : 0; }

static unsigned hash_mode;
static NODE* nd_h(const HTABLE_NODE* n) { return HTABLE_DATA(n, NODE, h); }
static NODE* nd_r(const RBTREE_NODE* n) { return RBTREE_DATA(n, NODE, r); }
static int hc(const HTABLE_NODE* a, const HTABLE_NODE* b) { u64 x = nd_h(a)->key, y = nd_h(b)->key; return x < y ? -1 : x > y; }
static u32 hh(const HTABLE_NODE* a)
{
    u64 k = nd_h(a)->key;
    switch(hash_mode) { case 0: return (u32) vf_mix(k); case 1: return (u32) k; case 2: return (u32) (k % 3); default: return 7; }
}
static int rc(const RBTREE_NODE* a, const RBTREE_NODE* b) { u64 x = nd_r(a)->key, y = nd_r(b)->key; return x < y ? -1 : x > y; }
static int vc_len(const char* a, size_t la, const char* b, size_t lb) { if(la != lb) return la < lb ? -1 : 1; return memcmp(a, b, la); }
static int vc_rev(const char* a, size_t la, const char* b, size_t lb) { size_t m = la < lb ? la : lb; int r = memcmp(a, b, m); if(r == 0) r = la < lb ? -1 : la > lb; return -r; }

static const BASE64_OPTIONS dialects[] = { { '+', '/', '=' }, { '-', '_', 0 }, { '-', '_', '=' }, { '.', '_', '-' }, { '!', '~', 0 } };
static const CMDLINE_OPTION tab[] = {
    { 'a', "alpha", 1, 0 }, { 'o', "output", 2, CMDLINE_OPTFLAG_REQUIREDARG }, { 'l', "level", 3, CMDLINE_OPTFLAG_OPTIONALARG },
    { 0, "verbose", 4, 0 }, { 'x', NULL, 5, 0 }, { 0, "-I", 6, CMDLINE_OPTFLAG_COMPILERLIKE }, { 0, "lib:", 7, CMDLINE_OPTFLAG_COMPILERLIKE }, { 0 } };
static const char* words[] = { "-a", "-o", "file", "--output", "--output=x", "--level", "--level=3", "-l7", "-l", "--verbose", "--verbose=1", "-ax", "-aox", "-Iinc", "-I", "-DX=1", "lib:m", "lib:", "--", "-", "", "--nope", "-q", "-xa", "--verbose-and-more=very-long-argument" };
#define N_WORDS  (sizeof(words) / sizeof(words[0]))

/* ---- building ---- */
static size_t items;
static size_t amount(size_t max) { return d_chance(1, 3) ? amount(max) : (size_t) d_below(max + 1); }

static size_t mk_key(char* k, u64 r)
{
    static const char* fixed[] = { "a", "b", "aa", "foo", "bar", "key", "", "zeta" };
    size_t n, i;
    if(r % 3) { strcpy(k, fixed[(r >> 8) % 8]); return strlen(k); }
    n = (size_t) (r >> 16) % 30;
    for(i = 0; i < n; i++) k[i] = (char) ('a' + (r >> (20 + i % 30)) % 5);
    k[n] = 0;
    return n;
}

static void build_value(VALUE* v, int depth)
{
    int kind = D_WEIGHTED(1, 1, 2, 1, 1, 1, 1, 1, 5, 5, 9);
    char text[300];
    if(depth >= 4 && kind >= 9) kind = 8;
    if(depth == 0 && d_chance(7, 8)) kind = 9 + (int) d_below(2);
    items++;
    switch(kind) {
        case 0: value_init_null(v); break;
        case 1: value_init_bool(v, d_bool()); break;
        case 2: value_init_int32(v, (int) d_u64()); break;
        case 3: value_init_uint32(v, (u32) d_u64()); break;
        case 4: value_init_int64(v, (i64) d_u64()); break;
        case 5: value_init_uint64(v, d_u64()); break;
        case 6: value_init_float(v, (float) (int) d_irange(-1000, 1000) / 4); break;
        case 7: value_init_double(v, d_double()); break;
        case 8: { size_t n = d_size(sizeof(text)); d_fill(text, n); CHECK(value_init_string_(v, text, n) == 0, "string of %zu", n); break; }
        case 9: {
            size_t n = amount(depth ? 12 : vf_profile ? 400 : 40), i;
            CHECK(value_init_array(v) == 0, "init");
            for(i = 0; i < n; i++) { VALUE* x = value_array_append(v); CHECK(x != NULL, "append"); if(!d_chance(1, 10)) build_value(x, depth + 1 + (n > 50)); }
            if(n > 0 && d_chance(1, 4)) value_array_remove(v, (size_t) d_below(n));
            break;
        }
        default: {
            size_t n = amount(depth ? 10 : vf_profile ? 300 : 30), i;
            char k[40]; size_t len;
            int (*cmp)(const char*, size_t, const char*, size_t) = d_chance(1, 3) ? (d_bool() ? vc_len : vc_rev) : NULL;
            CHECK(value_init_dict_ex(v, cmp, d_bool() ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init");
            for(i = 0; i < n; i++) {
                VALUE* x;
                len = mk_key(k, vf_mix(d_seed()));
                x = value_dict_get_or_add_(v, k, len);
                CHECK(x != NULL, "add");
                if(value_is_new(x) && !d_chance(1, 10)) build_value(x, depth + 1 + (n > 50));
            }
            if(n > 0 && d_chance(1, 4)) { len = mk_key(k, vf_mix(d_seed())); value_dict_remove_(v, k, len); }
        }
    }
}

static OBJ* build(int kind)
{
    OBJ* o = (OBJ*) vf_arena_place(sizeof(OBJ));
    size_t i;
    memset(o, 0, sizeof(OBJ));
    o->kind = kind;
    items = 0;
    switch(kind) {
        case R_BUFFER: {
            u8 tmp[3000];
            size_t n = amount(sizeof(tmp));
            buffer_init(&o->buf);
            d_fill(tmp, n);
            if(d_bool()) buffer_reserve(&o->buf, d_size(100));
            CHECK(buffer_append(&o->buf, tmp, n) == 0, "append");
            if(d_bool() && n > 0) buffer_remove(&o->buf, (size_t) d_below(n), 1);
            items = buffer_size(&o->buf);
            break;
        }
        case R_STACK:
            stack_init(&o->stack);
            for(i = amount(400); i > 0; i--) CHECK(stack_push_uint64(&o->stack, vf_mix(i)) == 0, "push");
            items = stack_size(&o->stack) / 8;
            break;
        case R_ARRAY:
            array_int64_init(&o->arr);
            for(i = amount(600); i > 0; i--) CHECK(array_int64_append(&o->arr, (i64) vf_mix(i)) == 0, "append");
            items = array_int64_size(&o->arr);
            break;
        case R_HTABLE: case R_RBTREE: case R_LISTS: {
            size_t max = vf_profile ? 3000 : 300;
            o->n = amount(max);
            hash_mode = (unsigned) D_WEIGHTED(6, 2, 2, 1);
            if(kind == R_HTABLE && hash_mode >= 2 && o->n > 150) o->n = 150;
            o->space = o->n * (1 + d_below(3)) + 1;
            o->node = (NODE*) vf_arena_place((o->n + 1) * sizeof(NODE));
            memset(o->node, 0, (o->n + 1) * sizeof(NODE));
            htable_init(&o->ht); rbtree_init(&o->rt); list_init(&o->list); slist_init(&o->slist); qlist_init(&o->qlist);
            { u64 s = d_seed(); for(i = 0; i < o->n; i++) {
                NODE* x = &o->node[i];
                x->key = vf_next(&s) % o->space;
                if(kind == R_HTABLE) items += htable_insert(&o->ht, &x->h, hc, hh) == 0;
                else if(kind == R_RBTREE) items += rbtree_insert(&o->rt, &x->r, rc) == 0;
                else { if(x->key & 1) { list_append(&o->list, &x->l); qlist_append(&o->qlist, &x->q); } else { list_prepend(&o->list, &x->l); qlist_prepend(&o->qlist, &x->q); } slist_prepend(&o->slist, &x->s); items++; }
                if(vf_next(&s) % 4 == 0) {
                    NODE k; k.key = vf_next(&s) % o->space;
                    if(kind == R_HTABLE) items -= htable_remove(&o->ht, &k.h, hc, hh) != NULL;
                    else if(kind == R_RBTREE) items -= rbtree_remove(&o->rt, &k.r, rc) != NULL;
                }
            } }
            break;
        }
        case R_VALUE:
            build_value(&o->val, 0);
            break;
        case R_BYTES: {
            int r;
            o->len = amount(1500);
            o->data = (u8*) vf_arena_place(o->len); d_fill(o->data, o->len);
            o->own_opt = d_bool(); o->opt = dialects[d_below(5)];
            r = base64_encode(o->data, (unsigned) o->len, NULL, 0, o->own_opt ? &o->opt : NULL);
            CHECK(r >= 0, "size of the text");
            o->text = (char*) vf_arena_place((size_t) r + 1); o->text_len = (size_t) r;
            base64_encode(o->data, (unsigned) o->len, o->text, (unsigned) r + 1, o->own_opt ? &o->opt : NULL);
            if(r > 0 && d_chance(1, 3)) o->text[d_below((u64) r)] = (char) d_below(256);
            o->hexed = (char*) vf_arena_place(2 * o->len + 1);
            hex_encode(o->data, (unsigned) o->len, o->hexed, (unsigned) (2 * o->len + 1), d_bool());
            items = o->len;
            break;
        }
        case R_CMDLINE:
            o->argc = 1 + (int) d_below(30);
            o->argv = (char**) vf_arena_place(((size_t) o->argc + 1) * sizeof(char*));
            for(i = 0; i < (size_t) o->argc; i++) { const char* w = i ? words[d_below(N_WORDS)] : "prog"; o->argv[i] = (char*) vf_arena_place(strlen(w) + 1); strcpy(o->argv[i], w); }
            o->argv[o->argc] = NULL;
            o->table = (CMDLINE_OPTION*) vf_arena_place(sizeof(tab)); memcpy(o->table, tab, sizeof(tab));
            for(i = 0; o->table[i].shortname || o->table[i].longname; i++) if(o->table[i].longname) { char* c = (char*) vf_arena_place(strlen(o->table[i].longname) + 1); strcpy(c, o->table[i].longname); o->table[i].longname = c; }
            items = (size_t) o->argc;
            break;
        default:
            o->len = amount(1500);
            o->data = (u8*) vf_arena_place(o->len); d_fill(o->data, o->len);
            items = o->len;
            break;
    }
    return o;
}

/* ---- reading ---- */
static int read_cmd(int id, const char* arg, void* p) { RD* t = (RD*) p; mix(t, (u64) (i64) id); if(arg) mixb(t, arg, strlen(arg)); else mix(t, 77); return rnd(t, 30) == 0 ? 3 : 0; }

static void read_value(RD* t, const VALUE* v);
static int visit(const VALUE* k, VALUE* v, void* p)
{
    RD* t = (RD*) p;
    mixb(t, value_string(k), value_string_length(k));
    mix(t, (u64) value_type(v));
    if(t->depth < 3 && rnd(t, 8) == 0) read_value(t, rnd(t, 3) ? v : &t->o->val);
    return rnd(t, 60) == 0 ? 5 : 0;
}

static void read_value(RD* t, const VALUE* v)
{
    char k[40]; size_t len;
    t->depth++;
    mix(t, (u64) value_type(v));
    switch(rnd(t, 15)) {
        case 0: { int i; for(i = VALUE_NULL; i <= VALUE_DICT; i++) mix(t, (u64) value_is_compatible(v, (VALUE_TYPE) i)); mix(t, (u64) value_is_new(v)); break; }
        case 1: mix(t, (u64) value_bool(v)); mix(t, (u64) value_int32(v)); mix(t, value_uint32(v)); mix(t, (u64) value_int64(v)); mix(t, value_uint64(v)); break;
        case 2: { float f = value_float(v); double d = value_double(v); mixb(t, &f, sizeof(f)); mixb(t, &d, sizeof(d)); break; }
        case 3: { const char* s = value_string(v); mix(t, value_string_length(v)); if(s) { mixb(t, s, value_string_length(v)); mix(t, (u8) s[value_string_length(v)]); } break; }
        case 4: { size_t n = value_array_size(v), i = (size_t) rnd(t, n + 2); VALUE* x = value_array_get(v, i); VALUE* all = value_array_get_all(v); mix(t, n); mix(t, x != NULL); if(x) { mix(t, (u64) (x - all)); read_value(t, x); } break; }
        case 5: mix(t, value_dict_size(v)); mix(t, value_dict_flags(v)); break;
        case 6: case 7: case 8: { VALUE* x; len = mk_key(k, vf_next(&t->s)); x = rnd(t, 2) ? value_dict_get(v, k) : value_dict_get_(v, k, len); mix(t, x != NULL); if(x && t->depth < 6) read_value(t, x); break; }
        case 9: mix(t, (u64) (i64) value_dict_walk_sorted(v, visit, t)); break;
        case 10: mix(t, (u64) (i64) value_dict_walk_ordered(v, visit, t)); break;
        case 11: case 12: { const VALUE* b[32]; size_t cap = (size_t) rnd(t, 33), n = rnd(t, 2) ? value_dict_keys_sorted(v, b, cap) : value_dict_keys_ordered(v, b, cap), i; mix(t, n); for(i = 0; i < n && i < cap; i++) mixb(t, value_string(b[i]), value_string_length(b[i])); break; }
        default: {
            static const char* p[] = { "", "a", "foo", "foo/bar", "a/[0]", "[0]", "[-1]", "[1]/a", "[2]/foo/[1]", "a/b/aa", "zeta/[-1]/key", "foo[1]", "[3]/[0]" };
            VALUE* x = value_path((VALUE*) v, p[rnd(t, 13)]);
            mix(t, x != NULL);
            if(x) { mix(t, (u64) value_type(x)); if(t->depth < 6) read_value(t, x); }
        }
    }
    t->depth--;
}

static void rb(RD* t, RBTREE_NODE* r) { if(r) { mix(t, nd_r(r)->key); mix(t, (u64) (nd_r(r) - t->o->node)); } else mix(t, 0x11); }

static void read_step(RD* t)
{
    OBJ* o = (OBJ*) t->o;
    u8 out[2200];
    switch(o->kind) {
        case R_BUFFER: {
            size_t n = buffer_size(&o->buf), off = (size_t) rnd(t, n + 1);
            mix(t, n); mix(t, (u64) buffer_is_empty(&o->buf));
            if(n > 0) mix(t, *(const u8*) buffer_const_data(&o->buf));
            if(off < n) { mix(t, *(const u8*) buffer_const_data_at(&o->buf, off)); mix(t, *(u8*) buffer_data_at(&o->buf, off)); mix(t, *(u8*) buffer_data(&o->buf)); }
            if(rnd(t, 4) == 0) {            /* as the source of another one */
                BUFFER b;
                size_t len = (size_t) rnd(t, n - off + 1);
                buffer_init(&b);
                if(len > 0) { mix(t, (u64) buffer_append(&b, buffer_const_data_at(&o->buf, off), len) != (u64) -1); mixb(t, buffer_const_data(&b), buffer_size(&b)); }
                buffer_fini(&b);
            }
            break;
        }
        case R_STACK: {
            size_t n = stack_size(&o->stack), k = (size_t) rnd(t, n + 1);
            mix(t, n); mix(t, (u64) stack_is_empty(&o->stack));
            if(n >= 8) { mix(t, stack_peek_uint64(&o->stack)); mix(t, (u64) stack_peek_int64(&o->stack)); mix(t, stack_peek_uint32(&o->stack)); mix(t, (u64) stack_peek_int16(&o->stack)); mix(t, (u64) (size_t) stack_peek_ptr(&o->stack)); mix(t, stack_peek_uint8(&o->stack)); }
            if(k > 0) { mixb(t, stack_peek_raw(&o->stack, k), k); if(k <= sizeof(out)) { stack_peek(&o->stack, out, k); mixb(t, out, k); } }
            break;
        }
        case R_ARRAY: {
            size_t n = array_int64_size(&o->arr);
            mix(t, n); mix(t, (u64) array_int64_is_empty(&o->arr));
            if(n) { mix(t, (u64) array_int64_get(&o->arr, (size_t) rnd(t, n))); mix(t, (u64) array_int64_get(&o->arr, n - 1)); }
            break;
        }
        case R_HTABLE: {
            NODE k; HTABLE_NODE* r;
            memset(&k, 0, sizeof(k));
            k.key = rnd(t, o->space + 2);
            r = htable_lookup(&o->ht, o->n && rnd(t, 4) == 0 ? &o->node[rnd(t, o->n)].h : &k.h, hc, hh);
            if(r) { mix(t, nd_h(r)->key); mix(t, (u64) (nd_h(r) - o->node)); } else mix(t, 1);
            mix(t, (u64) !!htable_is_empty(&o->ht));
            break;
        }
        case R_RBTREE: {
            NODE k; int c = (int) rnd(t, 2), i;
            memset(&k, 0, sizeof(k));
            k.key = rnd(t, o->space + 2);
            mix(t, (u64) rbtree_is_empty(&o->rt));
            switch(rnd(t, 6)) {
                case 0: rb(t, rbtree_lookup(&o->rt, &k.r, rc)); break;
                case 1: { RBTREE_NODE* r = rbtree_lookup_ex(&o->rt, &k.r, rc, &t->cur[c]); rb(t, r); break; }
                case 2: if(items) { rb(t, rbtree_head(&o->rt, &t->cur[c])); } break;
                case 3: if(items) { rb(t, rbtree_tail(&o->rt, &t->cur[c])); } break;
                default: for(i = (int) rnd(t, 12); i > 0; i--) rb(t, rnd(t, 3) == 0 ? rbtree_prev(&t->cur[c]) : rbtree_next(&t->cur[c])); rb(t, rbtree_current(&t->cur[c])); break;
            }
            break;
        }
        case R_LISTS: {
            const LIST_NODE* l; const SLIST_NODE* s; const QLIST_NODE* q; size_t lim = (size_t) rnd(t, 40), i;
            mix(t, (u64) list_is_empty(&o->list)); mix(t, (u64) slist_is_empty(&o->slist)); mix(t, (u64) qlist_is_empty(&o->qlist));
            for(i = 0, l = list_head(&o->list); i < lim && l != list_end(&o->list); i++, l = list_next((LIST_NODE*) l)) mix(t, LIST_DATA(l, NODE, l)->key);
            for(i = 0, l = list_tail(&o->list); i < lim && l != list_end(&o->list); i++, l = list_prev((LIST_NODE*) l)) mix(t, LIST_DATA(l, NODE, l)->key);
            for(i = 0, s = slist_head(&o->slist); i < lim && s != slist_end(&o->slist); i++, s = slist_next((SLIST_NODE*) s)) mix(t, SLIST_DATA(s, NODE, s)->key);
            for(i = 0, q = qlist_head(&o->qlist); i < lim && q != qlist_end(&o->qlist); i++, q = qlist_next((QLIST_NODE*) q)) mix(t, QLIST_DATA(q, NODE, q)->key);
            if(!qlist_is_empty(&o->qlist)) mix(t, QLIST_DATA(qlist_tail(&o->qlist), NODE, q)->key);
            break;
        }
        case R_VALUE: t->depth = 0; read_value(t, &o->val); break;
        case R_BYTES: {
            size_t a = (size_t) rnd(t, o->len + 1), n = (size_t) rnd(t, o->len - a + 1);
            const BASE64_OPTIONS* op = o->own_opt ? &o->opt : NULL;
            int r;
            switch(rnd(t, 7)) {
                case 0: mix(t, crc32(o->data + a, n)); break;
                case 1: mix(t, fnv1a_32(0x811c9dc5u, o->data + a, n)); mix(t, fnv1a_64(0xcbf29ce484222325ull, o->data + a, n)); break;
                case 2: r = base64_encode(o->data + a, (unsigned) n, (char*) out, sizeof(out), op); mix(t, (u64) (i64) r); if(r > 0) mixb(t, out, (size_t) r); break;
                case 3: r = base64_decode(o->text, (unsigned) o->text_len, out, sizeof(out), op); mix(t, (u64) (i64) r); if(r > 0) mixb(t, out, (size_t) r); break;
                case 4: if(2 * n + 1 <= sizeof(out)) { r = hex_encode(o->data + a, (unsigned) n, (char*) out, sizeof(out), (int) rnd(t, 2)); mix(t, (u64) (i64) r); if(r > 0) mixb(t, out, (size_t) r); } break;
                case 5: r = hex_decode(o->hexed, (unsigned) (2 * o->len), out, sizeof(out)); mix(t, (u64) (i64) r); if(r > 0) mixb(t, out, (size_t) r); break;
                default: mix(t, (u64) (i64) base64_decode(o->text, (unsigned) o->text_len, NULL, 0, op)); mix(t, (u64) (i64) hex_decode(o->hexed, (unsigned) (2 * a), NULL, 0)); break;
            }
            break;
        }
        case R_CMDLINE: mix(t, (u64) (i64) cmdline_read(o->table, o->argc, o->argv, read_cmd, t)); break;
        default: {
            IStream* s = t->st;
            if(s == NULL) { mix(t, (u64) memstream_create(o->data, (ULONG) o->len, &t->st)); break; }
            switch(rnd(t, 6)) {
                case 0: case 1: case 2: { ULONG got = 0; mix(t, (u64) s->lpVtbl->Read(s, out, (ULONG) rnd(t, 60), &got)); mixb(t, out, got); break; }
                case 3: { LARGE_INTEGER m; ULARGE_INTEGER p; p.QuadPart = 0; m.QuadPart = (i64) rnd(t, 250) - 60; mix(t, (u64) s->lpVtbl->Seek(s, m, (DWORD) rnd(t, 3), &p)); mix(t, p.QuadPart); break; }
                case 4: { ULONG got = 0; mix(t, (u64) s->lpVtbl->Write(s, "xx", 2, &got) != 0); break; }
                default: { STATSTG st; memset(&st, 0, sizeof(st)); mix(t, (u64) s->lpVtbl->Stat(s, &st, STATFLAG_NONAME)); mix(t, st.cbSize.QuadPart); break; }
            }
            break;
        }
    }
}

static void read_all(RD* t)
{
    static const RBTREE_CURSOR c0 = RBTREE_CURSOR_INITIALIZER;
    size_t i;
    t->s = t->seed; t->d = 1; t->cur[0] = t->cur[1] = c0; t->st = NULL;
    for(i = 0; i < t->steps; i++) read_step(t);
    if(t->st) mix(t, t->st->lpVtbl->Release(t->st));
}

static void* lane(void* p)
{
    RD* t = (RD*) p; int go_on;
    while((go_on = __atomic_load_n(t->start, __ATOMIC_ACQUIRE)) == 0) sched_yield();
    if(go_on > 0) read_all(t);
    return NULL;
}

void vf_case(void)
{
    int kind = D_WEIGHTED(2, 1, 1, 5, 6, 2, 10, 3, 3, 2), threads;
    OBJ* o;
    RD t[3];
    u64 want;
    size_t steps, blocks, bytes;
    u8* image; size_t n_image; const void* im;

    memset(t, 0, sizeof(t));
    vf_arena(1);
    o = build(kind);
    steps = d_chance(1, 3) ? 1 + d_size(vf_profile ? 150 : 60) : 20 + (size_t) d_below(vf_profile ? 130 : 40);
    TRACE("a %s of %zu items, %zu readings", names[kind], items, steps);
    t[0].o = o; t[0].seed = d_seed(); t[0].steps = steps;
    im = vf_arena_image(&n_image);
    image = (u8*) h_dup(im, n_image);
    blocks = vf_live_blocks(); bytes = vf_live_bytes();

    /* Nobody may write. */
    vf_arena_protect(1);
    read_all(&t[0]);
    want = t[0].d;
    CHECK(vf_live_blocks() == blocks && vf_live_bytes() == bytes, "reading a %s keeps memory", names[kind]);
    if(kind != R_STREAM && kind != R_BUFFER) vf_alloc_fail_from(1);
    read_all(&t[0]);
    vf_alloc_fail_none();
    CHECK(t[0].d == want, "a %s reads differently the second time%s", names[kind], vf_alloc_failures() ? " (without any memory to be had)" : "");
    if(vf_alloc_failures()) vf_label("reading asked for memory");

#ifdef VF_TSAN
    threads = 1;
#else
    threads = d_chance(1, 40);
#endif
    if(threads) {
        pthread_t th[3];
        u64 d[3];
        int start = 0, n = 2 + (int) d_below(2), k, i, ok = 1;
        for(k = 0; k < n; k++) { t[k].o = o; t[k].steps = steps; t[k].start = &start; if(k) t[k].seed = d_bool() ? t[0].seed : d_seed(); read_all(&t[k]); d[k] = t[k].d; }
#ifdef VF_TSAN
        vf_arena_protect(0);            /* so that a writer is found as a race, too */
#endif
        vf_alloc_pause(1);
        for(k = 0; k < n; k++) if(pthread_create(&th[k], NULL, lane, &t[k]) != 0) { ok = 0; break; }
        __atomic_store_n(&start, ok ? 1 : -1, __ATOMIC_RELEASE);
        for(i = 0; i < k; i++) pthread_join(th[i], NULL);
        vf_alloc_pause(0);
        if(ok) { vf_label("several threads"); for(k = 0; k < n; k++) CHECK(t[k].d == d[k], "a %s reads differently in one of several threads", names[kind]); }
        else vf_label("no threads to be had");
    }
    vf_arena_protect(0);
    CHECK(memcmp(im, image, n_image) == 0, "reading a %s changed it", names[kind]);

    { char b[40]; snprintf(b, sizeof(b), "a %s", names[kind]); vf_label(b); }
    if(items >= 8 && steps >= 20) vf_nontrivial();
    buffer_fini(&o->buf); stack_fini(&o->stack); array_int64_fini(&o->arr);
    if(kind == R_HTABLE) htable_fini(&o->ht, NULL);
    if(kind == R_VALUE) value_fini(&o->val);
}
