/* Tasks: objects of every kind of the library, each with a script of operations drawn from a seed of its
 * own; all what the operations return goes into its digest.  Used by indep.c and around.c. */
#include "pbt.h"
#include <pthread.h>
#include <sched.h>
#include "buffer.h"
#include "htable.h"
#include "rbtree.h"
#include "list.h"
#include "value.h"
#include "base64.h"
#include "hex.h"
#include "crc32.h"
#include "fnv1a.h"
#include "memchunk.h"
#include "malloca.h"
#include "cmdline.h"
#include "memstream.h"


/* ---- what Windows provides (no resources here) ---- */
const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0, 0xaa, 0, 0x44, 0x77, 0x3d } };
const IID IID_IStream = { 0x0000000c, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
DWORD GetLastError(void) { return ERROR_RESOURCE_NAME_NOT_FOUND; }
void SetLastError(DWORD e) { (void) e; }
HRSRC FindResourceW(HMODULE mod, LPCWSTR name, LPCWSTR type) { return NULL; }
DWORD SizeofResource(HMODULE mod, HRSRC h) { return 0; }
HGLOBAL LoadResource(HMODULE mod, HRSRC h) { return NULL; }
LPVOID LockResource(HGLOBAL g) { return NULL; }
BOOL FreeResource(HGLOBAL g) { return FALSE; }

/* ---- tasks ---- */
#define K 64                            /* nodes of a container */
typedef struct { u32 tag, key, in; HTABLE_NODE h; RBTREE_NODE r; LIST_NODE l; SLIST_NODE sl; QLIST_NODE ql; } NODE;

enum { T_BUFFER, T_ARRAY, T_HTABLE, T_RBTREE, T_LIST, T_VALUE, T_BASE64, T_HEX, T_HASH, T_CHUNK, T_CMDLINE, T_STREAM, T_STACK, T_SCALAR, T_QUEUES, T_MALLOCA, T_COUNT };
static const char* t_name[T_COUNT] = { "buffer", "array", "htable", "rbtree", "list", "value", "base64", "hex", "hash", "memchunk", "cmdline", "memstream", "stack", "scalar", "queues", "malloca" };

typedef struct TASK TASK;
struct TASK {
    int kind, busy, drain, flip;        /* flip: the nodes lie in memory the other way round */
    unsigned shift;                     /* where the data begins (0..16) */
    int again, order1;                  /* again: the object is there already (and empty); order1: the order has to be order1 - 1 */
    int fresh;                          /* texts and tables lie at a new place each time; else always at the same one */
    char text[32]; CMDLINE_OPTION table[6];
    u64 seed;                           /* of the whole script */
    u64 s, d;                           /* state of its generator, digest */
    size_t steps, at;
    BUFFER buf;
    ARRAY_uint32 arr;
    HTABLE ht;
    RBTREE rt;
    RBTREE_CURSOR cur;
    LIST list;
    SLIST sl; QLIST ql;
    STACK stack;
    NODE node[K];
    size_t n_in;
    VALUE val;
    int order;
    u64 h;                              /* chained hash */
    MEMCHUNK chunk;
    u8* piece[32]; size_t len[32]; int pieces;
    IStream* st[3];
    u8* data;                           /* 200 bytes */
    u8 store[216];
};

static void mix(TASK* t, u64 x) { t->d = vf_mix(t->d ^ x) + 0x1234567; }
static void mixb(TASK* t, const void* p, size_t n) { const u8* b = (const u8*) p; size_t i; for(i = 0; i < n; i++) mix(t, b[i]); mix(t, n); }
static u64 rnd(TASK* t, u64 n) { return n ? vf_next(&t->s) % n : 0; }

#define NX(t, i)  (&(t)->node[(t)->flip ? K - 1 - (int) (i) : (int) (i)])

/* Called in every callback: another task may go on in there. */
static void (*nested)(void);
static void inner(void) { void (*f)(void) = __atomic_load_n(&nested, __ATOMIC_RELAXED); if(f) f(); }

static NODE* nd_h(const HTABLE_NODE* n) { return HTABLE_DATA(n, NODE, h); }
static NODE* nd_r(const RBTREE_NODE* n) { return RBTREE_DATA(n, NODE, r); }
static int hc(const HTABLE_NODE* a, const HTABLE_NODE* b) { u32 x = nd_h(a)->key, y = nd_h(b)->key; inner(); return x < y ? -1 : x > y; }
static u32 hh(const HTABLE_NODE* a) { inner(); return nd_h(a)->key * 0x9E3779B1u; }
static int rc(const RBTREE_NODE* a, const RBTREE_NODE* b) { u32 x = nd_r(a)->key, y = nd_r(b)->key; inner(); return x < y ? -1 : x > y; }
static int vc_len(const char* a, size_t la, const char* b, size_t lb) { inner(); if(la != lb) return la < lb ? -1 : 1; return memcmp(a, b, la); }
static int vc_rev(const char* a, size_t la, const char* b, size_t lb) { size_t m = la < lb ? la : lb; int r = memcmp(a, b, m); inner(); if(r == 0) r = la < lb ? -1 : la > lb; return -r; }
static int visit(const VALUE* k, VALUE* v, void* p) { TASK* t = (TASK*) p; mixb(t, value_string(k), value_string_length(k)); mix(t, (u64) value_type(v)); inner(); return rnd(t, 40) == 0 ? 5 : 0; }
static int cmd_cb(int id, const char* arg, void* p) { TASK* t = (TASK*) p; mix(t, (u64) (i64) id); if(arg) mixb(t, arg, strlen(arg)); else mix(t, 77); inner(); if(arg) mixb(t, arg, strlen(arg)); return rnd(t, 30) == 0 ? 3 : 0; }

static const CMDLINE_OPTION tab0[] = {
    { 'a', "alpha", 1, 0 }, { 'o', "output", 2, CMDLINE_OPTFLAG_REQUIREDARG }, { 'l', "level", 3, CMDLINE_OPTFLAG_OPTIONALARG },
    { 0, "verbose", 4, 0 }, { 'x', NULL, 5, 0 }, { 0 } };
static const CMDLINE_OPTION tab1[] = {
    { 0, "-I", 1, CMDLINE_OPTFLAG_COMPILERLIKE }, { 0, "-D", 2, CMDLINE_OPTFLAG_COMPILERLIKE | CMDLINE_OPTFLAG_REQUIREDARG }, { 'o', "output", 3, CMDLINE_OPTFLAG_REQUIREDARG }, { 0 } };
static const CMDLINE_OPTION tab2[] = { { 0, "lib:", 1, CMDLINE_OPTFLAG_COMPILERLIKE }, { 'v', NULL, 2, 0 }, { 0 } };
static const char* words[] = { "-a", "-o", "file", "--output", "--output=x", "--level", "--level=3", "-l7", "-l", "--verbose", "--verbose=1", "-ax", "-aox", "-Iinc", "-I", "-DX=1", "lib:m", "lib:", "--", "-", "", "--nope", "-q", "-xa" };

static const BASE64_OPTIONS dialects[] = { { '+', '/', '=' }, { '-', '_', 0 }, { '-', '_', '=' }, { '.', '_', '-' }, { '!', '~', 0 } };

static void t_begin(TASK* t)
{
    int i;
    t->s = t->seed; t->d = t->seed * 7 + (u64) t->kind; t->at = 0; t->busy = 0; t->drain = 0; t->n_in = 0; t->pieces = 0; t->h = 0;
    for(i = 0; i < K; i++) { NODE* x = NX(t, i); x->tag = 0x600d; x->key = (u32) (i * 7 + 3); x->in = 0; }
    t->data = t->store + t->shift;
    for(i = 0; i < 200; i++) t->data[i] = (u8) vf_next(&t->s);
    t->order = (int) rnd(t, 6);
    if(t->order1) t->order = t->order1 - 1;
    if(t->again) { if(t->kind == T_RBTREE) { static const RBTREE_CURSOR c0 = RBTREE_CURSOR_INITIALIZER; t->cur = c0; } if(t->kind == T_VALUE) mix(t, 0); if(t->kind == T_HASH) t->h = 0; return; }
    memset(t->st, 0, sizeof(t->st));
    switch(t->kind) {
        case T_BUFFER: buffer_init(&t->buf); break;
        case T_ARRAY: array_uint32_init(&t->arr); break;
        case T_HTABLE: htable_init(&t->ht); break;
        case T_RBTREE: rbtree_init(&t->rt); { static const RBTREE_CURSOR c0 = RBTREE_CURSOR_INITIALIZER; t->cur = c0; } break;
        case T_LIST: list_init(&t->list); break;
        case T_QUEUES: slist_init(&t->sl); qlist_init(&t->ql); break;
        case T_STACK: stack_init(&t->stack); break;
        case T_VALUE:
            mix(t, (u64) value_init_dict_ex(&t->val, t->order % 3 == 0 ? NULL : t->order % 3 == 1 ? vc_len : vc_rev, t->order >= 3 ? VALUE_DICT_MAINTAINORDER : 0));
            break;
        case T_HASH: t->h = t->order < 3 ? 0x811c9dc5u : 0xcbf29ce484222325ull; break;
        case T_CHUNK: memchunk_init(&t->chunk, (size_t) (t->order * 100)); break;
        case T_STREAM: memstream_create(t->data, 200, &t->st[0]); break;
        default: break;
    }
}

static char* txt(TASK* t, const char* s)
{
    if(t->fresh) return (char*) h_dup(s, strlen(s) + 1);
    return strcpy(t->text, s);
}
static const CMDLINE_OPTION* table(TASK* t, const CMDLINE_OPTION* o)
{
    size_t n = 1;
    while(o[n - 1].id != 0) n++;
    if(t->fresh) return (const CMDLINE_OPTION*) h_dup(o, n * sizeof(*o));
    memcpy(t->table, o, n * sizeof(*o));
    return t->table;
}

static void t_value(TASK* t)
{
    static const char* keys[] = { "a", "b", "aa", "foo", "bar", "key", "", "zeta", "A", "1", "long-key-number-one", "long-key-number-two" };
    const char* k = txt(t, keys[rnd(t, 12)]);
    VALUE* v;
    switch(rnd(t, 12)) {
        case 0: v = value_dict_add(&t->val, k); mix(t, v != NULL); if(v) mix(t, (u64) value_init_int64(v, (i64) rnd(t, 1u << 30) - 1000)); break;
        case 1: v = value_dict_get_or_add(&t->val, k); mix(t, (u64) value_is_new(v)); if(value_is_new(v)) value_init_string_(v, (char*) t->data, (size_t) rnd(t, 200)); break;
        case 2: mix(t, (u64) value_dict_remove(&t->val, k)); break;
        case 3: v = value_dict_get(&t->val, k); mix(t, (u64) value_type(v)); mix(t, (u64) value_int64(v)); mixb(t, value_string(v) ? value_string(v) : "", value_string(v) ? value_string_length(v) : 0); break;
        case 4: mix(t, (u64) (i64) value_dict_walk_sorted(&t->val, visit, t)); break;
        case 5: mix(t, (u64) (i64) value_dict_walk_ordered(&t->val, visit, t)); break;
        case 6: { const VALUE* b[20]; size_t n = t->order >= 3 ? value_dict_keys_ordered(&t->val, b, 20) : value_dict_keys_sorted(&t->val, b, 20), i; mix(t, n); for(i = 0; i < n && i < 20; i++) mixb(t, value_string(b[i]), value_string_length(b[i])); break; }
        case 7: { static const char* p[] = { "list/[]", "list/[]/x", "list/[0]", "deep/er/[]", "deep/er/[-1]", "a/b", "foo/[]/z" }; const char* q = txt(t, p[rnd(t, 7)]); v = value_build_path(&t->val, q); mix(t, v != NULL); if(v && value_is_new(v)) mix(t, (u64) value_init_double(v, (double) rnd(t, 1000) / 8)); break; }
        case 8: { static const char* p[] = { "list/[0]", "list/[-1]/x", "deep/er/[1]", "deep/er/[-1]", "a", "foo/[0]/z" }; v = value_path(&t->val, txt(t, p[rnd(t, 6)])); mix(t, (u64) value_type(v)); { double d = value_double(v); mixb(t, &d, 8); } break; }
        case 9: v = value_dict_get(&t->val, "list"); mix(t, value_array_size(v)); if(value_array_size(v) > 0) { size_t i = (size_t) rnd(t, value_array_size(v)); if(rnd(t, 2)) mix(t, (u64) value_array_remove(v, i)); else { VALUE* x = value_array_insert(v, i); mix(t, x != NULL); if(x) value_init_uint32(x, (u32) rnd(t, 99)); } } break;
        case 10: { static const char* p[] = { "[0]", "[1]", "[-1]", "[2]", "[0]/x", "[9]", "[-2]/x" }; VALUE* l = value_dict_get(&t->val, "list"); int i; for(i = 0; i < 3; i++) { v = value_path(l, txt(t, p[rnd(t, 7)])); mix(t, v != NULL); mix(t, (u64) value_type(v)); mix(t, value_uint32(v)); } break; }
        default: mix(t, value_dict_size(&t->val)); mix(t, value_dict_flags(&t->val)); if(rnd(t, 12) == 0) value_dict_clean(&t->val); break;
    }
}

static void t_step(TASK* t)
{
    NODE* x = NX(t, rnd(t, K));
    u8 out[600], back[600];
    t->at++;
    switch(t->kind) {
        case T_BUFFER: {
            size_t n = (size_t) rnd(t, 150), sz = buffer_size(&t->buf), off = (size_t) rnd(t, sz + 1);
            switch(rnd(t, 6)) {
                case 0: case 1: mix(t, (u64) buffer_insert(&t->buf, off, t->data, n)); break;
                case 2: { u8* p = (u8*) buffer_insert_raw(&t->buf, off, n + 1); mix(t, p != NULL); if(p) memset(p, (int) n, n + 1); break; }
                case 3: if(off < sz) buffer_remove(&t->buf, off, n); break;
                case 4: mix(t, (u64) buffer_reserve(&t->buf, n)); break;
                default: buffer_shrink(&t->buf); break;
            }
            mixb(t, buffer_size(&t->buf) ? buffer_data(&t->buf) : "", buffer_size(&t->buf));
            break;
        }
        case T_ARRAY: {
            size_t n = array_uint32_size(&t->arr);
            switch(rnd(t, 4)) {
                case 0: case 1: mix(t, (u64) array_uint32_append(&t->arr, (u32) rnd(t, 1u << 31))); break;
                case 2: if(n) mix(t, array_uint32_get(&t->arr, (size_t) rnd(t, n))); break;
                default: if(n) array_uint32_remove(&t->arr, (size_t) rnd(t, n)); break;
            }
            mix(t, array_uint32_size(&t->arr));
            break;
        }
        case T_HTABLE:
            switch(rnd(t, 3)) {
                case 0: mix(t, (u64) (i64) htable_insert(&t->ht, &x->h, hc, hh)); x->in = 1; break;
                case 1: { HTABLE_NODE* r = htable_lookup(&t->ht, &x->h, hc, hh); mix(t, r ? nd_h(r)->key : 1u); break; }
                default: { HTABLE_NODE* r = htable_remove(&t->ht, &x->h, hc, hh); mix(t, r ? nd_h(r)->key : 1u); x->in = 0; break; }
            }
            mix(t, (u64) !!htable_is_empty(&t->ht));
            break;
        case T_RBTREE: {
            RBTREE_NODE* r;
            if(t->drain) { r = rbtree_fini_step(&t->rt); if(r) { mix(t, nd_r(r)->tag); nd_r(r)->in = 0; t->n_in--; memset(&nd_r(r)->r, 0x55, sizeof(RBTREE_NODE)); } else { mix(t, t->n_in); t->drain = 0; } break; }
            switch(rnd(t, 8)) {
                case 0: case 1: case 2: if(rbtree_insert(&t->rt, &x->r, rc) == 0) { t->n_in++; mix(t, 9); } { static const RBTREE_CURSOR c0 = RBTREE_CURSOR_INITIALIZER; t->cur = c0; } break;
                case 3: r = rbtree_remove(&t->rt, &x->r, rc); mix(t, r ? nd_r(r)->key : 1u); if(r) t->n_in--; { static const RBTREE_CURSOR c0 = RBTREE_CURSOR_INITIALIZER; t->cur = c0; } break;
                case 4: r = rbtree_lookup_ex(&t->rt, &x->r, rc, &t->cur); mix(t, r ? nd_r(r)->key : 1u); break;
                case 5: if(t->n_in) { r = rnd(t, 2) ? rbtree_head(&t->rt, &t->cur) : rbtree_tail(&t->rt, &t->cur); mix(t, r ? nd_r(r)->key : 1u); } break;
                case 6: { int i; for(i = 0; i < 5; i++) { r = rnd(t, 2) ? rbtree_next(&t->cur) : rbtree_prev(&t->cur); mix(t, r ? nd_r(r)->key : 1u); } break; }
                default: if(rnd(t, 12) == 0) { static const RBTREE_CURSOR c0 = RBTREE_CURSOR_INITIALIZER; t->cur = c0; t->drain = 1; } break;
            }
            break;
        }
        case T_LIST: {
            LIST_NODE* n;
            if(!x->in) { if(rnd(t, 2)) list_append(&t->list, &x->l); else list_prepend(&t->list, &x->l); x->in = 1; }
            else if(rnd(t, 3) == 0) { list_remove(&t->list, &x->l); x->in = 0; }
            for(n = list_head(&t->list); n != list_end(&t->list); n = list_next(n)) mix(t, LIST_DATA(n, NODE, l)->key);
            break;
        }
        case T_VALUE: t_value(t); break;
        case T_BASE64: {
            const BASE64_OPTIONS* o = t->order ? &dialects[t->order - 1] : NULL;
            size_t n = (size_t) rnd(t, 200);
            int r = base64_encode(t->data, (unsigned) n, (char*) out, sizeof(out), o);
            mix(t, (u64) (i64) r);
            if(r >= 0) mixb(t, out, (size_t) r);
            if(r > 0 && rnd(t, 3) == 0) out[rnd(t, (u64) r)] = (u8) rnd(t, 256);
            if(r >= 0) { int q = base64_decode((char*) out, (unsigned) r, back, sizeof(back), o); mix(t, (u64) (i64) q); if(q >= 0) mixb(t, back, (size_t) q); }
            break;
        }
        case T_HEX: {
            size_t n = (size_t) rnd(t, 200);
            int r = hex_encode(t->data, (unsigned) n, (char*) out, sizeof(out), t->order & 1);
            mix(t, (u64) (i64) r);
            if(r >= 0) mixb(t, out, (size_t) r);
            if(r > 0 && rnd(t, 3) == 0) out[rnd(t, (u64) r)] = (u8) rnd(t, 256);
            if(r >= 0) { int q = hex_decode((char*) out, (unsigned) (2 * n), back, sizeof(back)); mix(t, (u64) (i64) q); if(q >= 0) mixb(t, back, (size_t) q); }
            break;
        }
        case T_HASH: {
            size_t n = (size_t) rnd(t, 200), off = (size_t) rnd(t, 200 - n);
            mix(t, crc32(t->data + off, n));
            if(t->order < 3) t->h = fnv1a_32((u32) t->h, t->data + off, n); else t->h = fnv1a_64(t->h, t->data + off, n);
            mix(t, t->h);
            break;
        }
        case T_CHUNK: {
            int k;
            if(t->pieces == 32) {
                for(k = 0; k < 32; k++) mixb(t, t->piece[k], t->len[k]);
                memchunk_fini(&t->chunk);
                t->pieces = 0;
                memchunk_init(&t->chunk, (size_t) rnd(t, 700));
            }
            k = t->pieces++;
            t->len[k] = (size_t) rnd(t, rnd(t, 6) ? 40 : 900);
            t->piece[k] = (u8*) memchunk_alloc(&t->chunk, t->len[k]);
            mix(t, t->piece[k] != NULL);
            if(t->piece[k] == NULL) { t->len[k] = 0; t->piece[k] = t->data; }
            memset(t->piece[k], k, t->len[k]);
            break;
        }
        case T_CMDLINE: {
            char store[8][16]; char* av[10]; int n = (int) rnd(t, 8), i;
            av[0] = (char*) "prog";
            for(i = 0; i < n; i++) { strcpy(store[i], words[rnd(t, 24)]); av[i + 1] = store[i]; }
            av[n + 1] = NULL;
            mix(t, (u64) (i64) cmdline_read(table(t, rnd(t, 3) == 0 ? tab0 : rnd(t, 2) == 0 ? tab1 : tab2), n + 1, av, cmd_cb, t));
            break;
        }
        case T_STREAM: {
            int k = (int) rnd(t, 3);
            IStream* s = t->st[k];
            if(s == NULL) { int j; for(j = 0; j < 3 && t->st[j] == NULL; j++); if(j < 3 && rnd(t, 2)) mix(t, (u64) t->st[j]->lpVtbl->Clone(t->st[j], &t->st[k])); else mix(t, (u64) memstream_create(t->data + k, (ULONG) rnd(t, 190), &t->st[k])); break; }
            switch(rnd(t, 5)) {
                case 0: case 1: { ULONG got = 0; mix(t, (u64) s->lpVtbl->Read(s, out, (ULONG) rnd(t, 60), &got)); mixb(t, out, got); break; }
                case 2: { LARGE_INTEGER m; ULARGE_INTEGER p; p.QuadPart = 0; m.QuadPart = (i64) rnd(t, 250) - 60; mix(t, (u64) s->lpVtbl->Seek(s, m, (DWORD) rnd(t, 3), &p)); mix(t, p.QuadPart); break; }
                case 3: { STATSTG st; memset(&st, 0, sizeof(st)); mix(t, (u64) s->lpVtbl->Stat(s, &st, STATFLAG_NONAME)); mix(t, st.cbSize.QuadPart); break; }
                default: mix(t, s->lpVtbl->Release(s)); t->st[k] = NULL; break;
            }
            break;
        }
        case T_STACK: {
            size_t n = stack_size(&t->stack), m = (size_t) rnd(t, 40);
            switch(rnd(t, 8)) {
                case 0: mix(t, (u64) stack_push_uint32(&t->stack, (u32) rnd(t, 1u << 30))); break;
                case 1: mix(t, (u64) stack_push_int16(&t->stack, (int16_t) rnd(t, 70000))); break;
                case 2: mix(t, (u64) stack_push_uint64(&t->stack, rnd(t, ~(u64) 0))); break;
                case 3: mix(t, (u64) stack_push(&t->stack, t->data, m)); break;
                case 4: if(n >= 4) mix(t, stack_pop_uint32(&t->stack)); break;
                case 5: if(n >= 2) { mix(t, (u64) (i64) stack_peek_int16(&t->stack)); mix(t, (u64) (i64) stack_pop_int16(&t->stack)); } break;
                case 6: if(n >= m) { stack_pop(&t->stack, out, m); mixb(t, out, m); } break;
                default: mix(t, (u64) stack_is_empty(&t->stack)); if(rnd(t, 20) == 0) stack_clear(&t->stack); break;
            }
            mixb(t, stack_size(&t->stack) ? stack_const_data(&t->stack) : "", stack_size(&t->stack));
            break;
        }
        case T_SCALAR: {
            VALUE v; int k; double d; float f; i64 n = (i64) rnd(t, 2000000) - 1000000;
            switch(rnd(t, 8)) {
                case 0: value_init_null(&v); break;
                case 1: value_init_bool(&v, (int) (n & 1)); break;
                case 2: value_init_int32(&v, (int32_t) n); break;
                case 3: value_init_uint32(&v, (uint32_t) (n < 0 ? -n : n)); break;
                case 4: value_init_int64(&v, n * 4000000000ll); break;
                case 5: value_init_uint64(&v, (u64) (n < 0 ? -n : n) << 20); break;
                case 6: value_init_float(&v, (float) n / 8); break;
                default: value_init_double(&v, (double) n / 16); break;
            }
            mix(t, (u64) value_type(&v)); mix(t, (u64) value_is_new(&v)); mix(t, (u64) value_bool(&v));
            for(k = 0; k <= VALUE_DICT; k++) mix(t, (u64) value_is_compatible(&v, (VALUE_TYPE) k));
            if(value_is_compatible(&v, VALUE_INT32)) mix(t, (u64) (i64) value_int32(&v));
            if(value_is_compatible(&v, VALUE_UINT32)) mix(t, value_uint32(&v));
            if(value_is_compatible(&v, VALUE_INT64)) mix(t, (u64) value_int64(&v));
            if(value_is_compatible(&v, VALUE_UINT64)) mix(t, value_uint64(&v));
            d = value_double(&v); mixb(t, &d, 8); f = value_float(&v); mixb(t, &f, 4);
            mix(t, value_string_length(&v)); mix(t, value_array_size(&v)); mix(t, value_dict_size(&v)); mix(t, (u64) (value_array_get(&v, 0) == NULL));
            value_fini(&v); mix(t, (u64) value_type(&v));
            break;
        }
        case T_QUEUES: {
            SLIST_NODE* s; QLIST_NODE* q;
            if(!(x->in & 1)) { if(slist_is_empty(&t->sl) || rnd(t, 2)) slist_prepend(&t->sl, &x->sl); else slist_insert_after(&t->sl, slist_head(&t->sl), &x->sl); x->in |= 1; }
            else if(rnd(t, 2)) { s = slist_head(&t->sl); SLIST_DATA(s, NODE, sl)->in &= ~1u; slist_remove_head(&t->sl); }
            if(!(x->in & 2)) { if(rnd(t, 3)) qlist_append(&t->ql, &x->ql); else qlist_prepend(&t->ql, &x->ql); x->in |= 2; }
            else if(rnd(t, 2)) { q = qlist_head(&t->ql); QLIST_DATA(q, NODE, ql)->in &= ~2u; qlist_remove_head(&t->ql); }
            for(s = slist_head(&t->sl); s != slist_end(&t->sl); s = slist_next(s)) mix(t, SLIST_DATA(s, NODE, sl)->key);
            for(q = qlist_head(&t->ql); q != qlist_end(&t->ql); q = qlist_next(q)) mix(t, QLIST_DATA(q, NODE, ql)->key);
            if(!qlist_is_empty(&t->ql)) mix(t, QLIST_DATA(qlist_tail(&t->ql), NODE, ql)->key);
            break;
        }
        default: {
            size_t n = (size_t) rnd(t, 2600), i;
            u8* p = (u8*) MALLOCA(n);
            mix(t, p != NULL);
            if(p) { for(i = 0; i < n; i++) p[i] = (u8) (i * 7 + n); inner(); for(i = 0; i < n; i += 13) mix(t, p[i]); }
            FREEA(p);
            break;
        }
    }
}

static void t_dtor(HTABLE_NODE* n) { inner(); nd_h(n)->in += 100; }
static void t_end(TASK* t)
{
    int i;
    switch(t->kind) {
        case T_BUFFER: buffer_fini(&t->buf); break;
        case T_ARRAY: array_uint32_fini(&t->arr); break;
        case T_HTABLE: htable_fini(&t->ht, t_dtor); for(i = 0; i < K; i++) mix(t, NX(t, i)->in); break;
        case T_RBTREE: { RBTREE_NODE* r; u64 n = 0; while((r = rbtree_fini_step(&t->rt)) != NULL && n < 2 * K) { mix(t, nd_r(r)->tag); n++; } mix(t, n); break; }
        case T_VALUE: value_fini(&t->val); mix(t, (u64) value_type(&t->val)); break;
        case T_STACK: stack_fini(&t->stack); break;
        case T_CHUNK: for(i = 0; i < t->pieces; i++) mixb(t, t->piece[i], t->len[i]); memchunk_fini(&t->chunk); break;
        case T_STREAM: for(i = 0; i < 3; i++) if(t->st[i]) mix(t, t->st[i]->lpVtbl->Release(t->st[i])); break;
        default: break;
    }
}

