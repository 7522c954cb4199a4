/* C49: what operations cost, as the number of objects grows.  C53: the stack they need (see below).
 *
 * The build "count" counts the basic blocks executed in the code under test (and in this file), the bytes
 * passed through the memory and string functions of libc, and what the heap has to copy: a deterministic measure of the time.
 * Every scenario is run twice, with the same choices, at n and at f*n objects.  For a history of n cheap
 * operations the cost may grow by three times f; for a fixed number of cheap operations on a bigger object
 * it may grow by three times (logarithms and changing shapes included, constant factors of whatever kind do not matter). */
#define COBJMACROS
#include <windows.h>
#include <objidl.h>
#include "pbt.h"
#include "buffer.h"
#include "list.h"
#include "htable.h"
#include "rbtree.h"
#include "value.h"
#include "base64.h"
#include "hex.h"
#include "crc32.h"
#include "fnv1a.h"
#include "malloca.h"
#include "memchunk.h"
#include "cmdline.h"
#include "memstream.h"

const char vf_property[] = VF_PROPERTY;
const char vf_rule[] = "the bigger of the two objects has at least 4000 items";

const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ISequentialStream = { 0x0C733A30, 0x2A1C, 0x11CE, { 0xAD, 0xE5, 0, 0xAA, 0, 0x44, 0x77, 0x3D } };
const IID IID_IStream = { 0xC, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
DWORD GetLastError(void) { return ERROR_RESOURCE_NAME_NOT_FOUND; }
void SetLastError(DWORD e) { }
HRSRC FindResourceW(HMODULE mod, LPCWSTR name, LPCWSTR type) { return NULL; }
DWORD SizeofResource(HMODULE mod, HRSRC res) { return 0; }
HGLOBAL LoadResource(HMODULE mod, HRSRC res) { return NULL; }
LPVOID LockResource(HGLOBAL res) { return NULL; }

/* ------------------------------------------------------------- the measure */
#define NC __attribute__((no_sanitize_coverage))
static u64 cost, budget; static int on;
static const char* what; static char over_text[300];
NC static void over(void) { on = 0; vf_fail("%s", over_text); }
#ifdef VF_C53
/* The deepest stack seen by the hooks, from where begin() was called.  The stack may not grow with the object. */
static char* top; static size_t deepest, stack_limit;
NC static inline void deep(char* sp) { if(on && sp < top && (size_t) (top - sp) > deepest && (deepest = (size_t) (top - sp)) > stack_limit) over(); }
NC void __sanitizer_cov_trace_pc(void) { deep((char*) __builtin_frame_address(0)); }
NC static inline void bytes(size_t n) { deep((char*) __builtin_frame_address(0)); }
#else
NC void __sanitizer_cov_trace_pc(void) { if(on && ++cost > budget) over(); }
NC static inline void bytes(size_t n) { if(on && (cost += 1 + n / 8) > budget) over(); }
#endif
NC static inline u64 copied(void) { return vf_alloc_moved() / 8 + (vf_alloc_calls() + vf_free_calls()) * 4; }
static u64 copied_0;
#ifdef VF_C53
NC __attribute__((noinline)) static void begin(void) { top = (char*) __builtin_frame_address(0); on = 1; }
NC static void end(void) { on = 0; }
#else
NC static void begin(void) { copied_0 = copied(); on = 1; }
NC static void end(void) { if(on) { on = 0; cost += copied() - copied_0; if(cost > budget) over(); } }
#endif

void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*); int __real_strncmp(const char*, const char*, size_t); char* __real_strchr(const char*, int);
char* __real_strcpy(char*, const char*); char* __real_strncpy(char*, const char*, size_t); size_t __real_strnlen(const char*, size_t);
NC void* __wrap_memcpy(void* d, const void* s, size_t n) { bytes(n); return __real_memcpy(d, s, n); }
NC void* __wrap_memmove(void* d, const void* s, size_t n) { bytes(n); return __real_memmove(d, s, n); }
NC void* __wrap_memset(void* d, int c, size_t n) { bytes(n); return __real_memset(d, c, n); }
NC void* __wrap_memchr(const void* s, int c, size_t n) { void* r = __real_memchr(s, c, n); bytes(r ? (size_t) ((char*) r - (char*) s) : n); return r; }
NC static size_t same(const char* a, const char* b, size_t n, int str) { size_t i; for(i = 0; i < n && a[i] == b[i] && !(str && a[i] == 0); i++) ; return i; }
NC int __wrap_memcmp(const void* a, const void* b, size_t n) { if(on) bytes(same((const char*) a, (const char*) b, n, 0)); return __real_memcmp(a, b, n); }
NC size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); bytes(n); return n; }
NC size_t __wrap_strnlen(const char* s, size_t m) { size_t n = __real_strnlen(s, m); bytes(n); return n; }
NC int __wrap_strcmp(const char* a, const char* b) { if(on) bytes(same(a, b, (size_t) -1, 1)); return __real_strcmp(a, b); }
NC int __wrap_strncmp(const char* a, const char* b, size_t n) { if(on) bytes(same(a, b, n, 1)); return __real_strncmp(a, b, n); }
NC char* __wrap_strchr(const char* s, int c) { char* r = __real_strchr(s, c); bytes(r ? (size_t) (r - s) : on ? __real_strlen(s) : 0); return r; }
NC char* __wrap_strcpy(char* d, const char* s) { bytes(on ? __real_strlen(s) : 0); return __real_strcpy(d, s); }
NC char* __wrap_strncpy(char* d, const char* s, size_t n) { bytes(n); return __real_strncpy(d, s, n); }
/* the same for the engine, which is not counted */
NC void* vf_raw_memcpy(void* d, const void* s, size_t n) { return __real_memcpy(d, s, n); }
NC void* vf_raw_memmove(void* d, const void* s, size_t n) { return __real_memmove(d, s, n); }
NC void* vf_raw_memset(void* d, int c, size_t n) { return __real_memset(d, c, n); }

/* ------------------------------------------------------------- choices: drawn once, used in both runs */
static u64 shape_seed; static unsigned sel[16];
static u64 rs;          /* running seed of the present run */
static unsigned pick(unsigned n) { return (unsigned) (vf_next(&rs) % n); }
#define M 1500          /* operations of a scenario with a fixed number of them */
static int order_kind;  /* of keys */
static size_t* perm(size_t n)
{
    size_t i, *p = (size_t*) h_malloc((n + 1) * sizeof(size_t));
    for(i = 0; i < n; i++) p[i] = order_kind == 1 ? n - 1 - i : order_kind == 3 ? (i % 2 ? n - 1 - i / 2 : i / 2) : i;
    if(order_kind == 2) for(i = n; i > 1; i--) { size_t j = (size_t) (vf_next(&rs) % i), t = p[i - 1]; p[i - 1] = p[j]; p[j] = t; }
    if(order_kind == 4) { size_t k = n / 2; for(i = 0; i + k < n; i++) { size_t t = p[i]; p[i] = p[i + k]; p[i + k] = t; } }
    return p;
}

/* ------------------------------------------------------------- buffers, stacks, arrays */
static void lin_buffer(size_t n)
{
    BUFFER b = BUFFER_INITIALIZER; size_t i, p = 1 + sel[0] % 40; char piece[64];
    memset(piece, 'x', sizeof(piece));
    begin();
    for(i = 0; i < n; i++) if(sel[1] % 2) { CHECK(buffer_append(&b, piece, p) == 0, "append"); } else { void* q = buffer_append_raw(&b, p); CHECK(q != NULL, "append"); *(char*) q = 1; }
    for(i = n; i > 0; i--) { if(sel[2] % 3 == 0) buffer_remove(&b, buffer_size(&b) - p, p); else if(buffer_size(&b) == 0) break; }
    buffer_fini(&b);
    end();
}
static void lin_buffer_wobble(size_t n)     /* up and down at a size that may be at the border of a reallocation */
{
    BUFFER b = BUFFER_INITIALIZER; size_t i, d = 1 + sel[0] % 3; char x[4] = "abc";
    for(i = 0; i < n; i++) CHECK(buffer_append(&b, x, 1) == 0, "append");
    begin();
    for(i = 0; i < n; i++) { CHECK(buffer_append(&b, x, d) == 0, "append"); buffer_remove(&b, buffer_size(&b) - d, d); }
    end();
    buffer_fini(&b);
}
static void lin_stack(size_t n)
{
    STACK s = STACK_INITIALIZER; size_t i; unsigned t = sel[0] % 4;
    begin();
    for(i = 0; i < n; i++) CHECK((t == 0 ? stack_push_uint8(&s, 1) : t == 1 ? stack_push_uint32(&s, 7) : t == 2 ? stack_push_uint64(&s, 7) : stack_push_ptr(&s, &s)) == 0, "push");
    for(i = 0; i < n; i++) { if(t == 0) stack_pop_uint8(&s); else if(t == 1) { stack_peek_uint32(&s); stack_pop_uint32(&s); } else if(t == 2) stack_pop_uint64(&s); else stack_pop_ptr(&s); }
    CHECK(stack_is_empty(&s), "stack");
    for(i = 0; i < n; i++) { CHECK(stack_push_uint32(&s, 1) == 0 && stack_push_uint32(&s, 2) == 0, "push"); stack_pop_uint32(&s); }
    stack_fini(&s);
    end();
}
static void lin_arrays(size_t n)
{
    ARRAY_uint32 a = ARRAY_uint32_INITIALIZER; ARRAY_ptr p = ARRAY_ptr_INITIALIZER; ARRAY_int16 h = ARRAY_int16_INITIALIZER; size_t i; u64 x = 0;
    begin();
    for(i = 0; i < n; i++) CHECK(array_uint32_append(&a, (u32) i) == 0 && array_ptr_append(&p, &a) == 0 && array_int16_insert(&h, array_int16_size(&h) - (i > 2 ? sel[0] % 3 : 0), 3) == 0, "append");
    for(i = 0; i < n; i++) { x += array_uint32_get(&a, i); array_int16_set(&h, n - 1 - i, 4); }
    for(i = 0; i < n; i++) { array_uint32_remove(&a, array_uint32_size(&a) - 1); array_ptr_remove(&p, array_ptr_size(&p) - 1); }
    array_uint32_fini(&a); array_ptr_fini(&p); array_int16_fini(&h);
    end();
}
static void one_insert(size_t n)            /* a single operation in the middle of a big one; n bytes move */
{
    BUFFER b = BUFFER_INITIALIZER; size_t k = n * 32;
    CHECK(buffer_append_raw(&b, k) != NULL, "append");
    begin();
    CHECK(buffer_insert_raw(&b, k / 2, 1 + sel[0] % 1000) != NULL, "insert");
    buffer_remove(&b, k / 3, k / 4);
    buffer_shrink(&b);
    buffer_fini(&b);
    end();
}
static void one_piece(size_t n)             /* pieces as big as the object, a few times */
{
    BUFFER b = BUFFER_INITIALIZER; STACK s = STACK_INITIALIZER; ARRAY_uint32 a = ARRAY_uint32_INITIALIZER; ARRAY_ptr p = ARRAY_ptr_INITIALIZER; size_t k = n * 8, i; char* t = (char*) h_malloc(k); VALUE v;
    memset(t, 'x', k);
    begin();
    CHECK(buffer_reserve(&b, sel[0] % 2 ? 0 : k) == 0 && buffer_append(&b, t, k) == 0 && buffer_insert(&b, sel[1] % k, t, k) == 0 && buffer_append_raw(&b, k) != NULL, "piece");
    buffer_remove(&b, sel[2] % k, k); CHECK(buffer_realloc(&b, k / 2) == 0 && buffer_size(&b) == k / 2, "cut");
    CHECK(stack_push(&s, t, k) == 0 && stack_push_raw(&s, k) != NULL, "push"); stack_peek(&s, t, k); stack_pop(&s, t, k); stack_pop(&s, t, k / 2);
    CHECK(array_uint32_append_n(&a, n) == 0 && array_ptr_append_n(&p, n) == 0, "append"); array_uint32_remove_n(&a, sel[3] % n, n / 3); array_ptr_remove_n(&p, 0, n); array_uint32_remove_n(&a, 0, 1);
    CHECK(value_init_array(&v) == 0, "init");
    for(i = 0; i < n; i++) CHECK(value_array_append(&v) != NULL, "append");
    CHECK(value_array_insert(&v, 0) != NULL && value_array_remove_range(&v, n / 4, n / 2) == 0, "range"); value_array_clean(&v);
    value_fini(&v); buffer_fini(&b); stack_fini(&s); array_uint32_fini(&a); array_ptr_fini(&p);
    end();
    h_free(t);
}
static void const_buffer(size_t n)
{
    BUFFER a = BUFFER_INITIALIZER, b = BUFFER_INITIALIZER; STACK s = STACK_INITIALIZER, t = STACK_INITIALIZER; size_t i, k;
    CHECK(buffer_append_raw(&a, n * 16) != NULL && buffer_append_raw(&b, n * 3) != NULL && stack_push_raw(&s, n * 16) != NULL, "append");
    begin();
    for(i = 0; i < M; i++) {
        CHECK(buffer_size(&a) >= n && !buffer_is_empty(&b) && buffer_data(&a) != buffer_const_data(&b), "buffer");
        *(char*) buffer_data_at(&a, i % n) = *(const char*) buffer_const_data_at(&a, i % n + 1);
        buffer_swap(&a, &b); stack_swap(&s, &t); stack_swap(&s, &t);
        stack_peek_uint64(&s); CHECK(stack_size(&s) == n * 16 && stack_data(&s) == stack_const_data(&s), "stack");
    }
    { void* q = buffer_acquire(&a, &k); free(q); q = stack_acquire(&s, &k); free(q); }
    end();
    buffer_fini(&b); stack_fini(&t);
}

/* ------------------------------------------------------------- lists */
typedef struct { LIST_NODE l; SLIST_NODE s; QLIST_NODE q; } LN;
static void lists(size_t n, int fixed)
{
    LN* x = (LN*) h_calloc((n + M) * sizeof(LN)); size_t i, k;
    LIST l; SLIST s; QLIST q; LIST_NODE* p; SLIST_NODE* r; QLIST_NODE* t;
    list_init(&l); slist_init(&s); qlist_init(&q);
    if(!fixed) begin();
    for(i = 0; i < n; i++) {
        if(pick(2)) list_append(&l, &x[i].l); else list_prepend(&l, &x[i].l);
        if(i && pick(2)) slist_insert_after(&s, &x[pick((unsigned) i)].s, &x[i].s); else slist_prepend(&s, &x[i].s);
        if(pick(3)) qlist_append(&q, &x[i].q); else qlist_prepend(&q, &x[i].q);
    }
    if(!fixed) {
        k = 0; for(p = list_head(&l); p != list_end(&l); p = list_next(p)) k++; for(p = list_tail(&l); p != list_end(&l); p = list_prev(p)) k++;
        for(r = slist_head(&s); r != slist_end(&s); r = slist_next(r)) k++; for(t = qlist_head(&q); t != qlist_end(&q); t = qlist_next(t)) k++;
        CHECK(k == 4 * n, "walks");
    } else begin();
    for(i = 0; i < (fixed ? M : n); i++) {
        LN* y = &x[n + i % M];
        CHECK(!list_is_empty(&l) && !slist_is_empty(&s) && !qlist_is_empty(&q), "empty");
        switch(pick(4)) { case 0: list_append(&l, &y->l); break; case 1: list_prepend(&l, &y->l); break; case 2: list_insert_after(&l, &x[pick((unsigned) n)].l, &y->l); break; default: list_insert_before(&l, &x[pick((unsigned) n)].l, &y->l); }
        list_remove(&l, &y->l);
        k = pick((unsigned) n);
        slist_insert_after(&s, &x[k].s, &y->s); slist_remove(&s, &x[k].s, &y->s);
        slist_prepend(&s, &y->s); slist_remove_head(&s);
        switch(pick(3)) { case 0: t = qlist_tail(&q); qlist_append(&q, &y->q); qlist_remove(&q, t, &y->q); CHECK(qlist_tail(&q) == t, "tail"); break; case 1: qlist_prepend(&q, &y->q); qlist_remove_head(&q); break; default: qlist_insert_after(&q, &x[k].q, &y->q); qlist_remove(&q, &x[k].q, &y->q); }
    }
    if(!fixed) { while(!list_is_empty(&l)) { if(pick(2)) list_remove_head(&l); else list_remove_tail(&l); } while(!slist_is_empty(&s)) slist_remove_head(&s); while(!qlist_is_empty(&q)) qlist_remove_head(&q); }
    end();
    h_free(x);
}
static void lin_lists(size_t n) { lists(n, 0); }
static void const_lists(size_t n) { lists(n, 1); }

/* ------------------------------------------------------------- tables and trees */
typedef struct { HTABLE_NODE h; RBTREE_NODE r; u32 key; } NODE;
#define HN(p) ((const NODE*) ((const char*) (p) - offsetof(NODE, h)))
#define RN(p) ((const NODE*) ((const char*) (p) - offsetof(NODE, r)))
static int h_cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HN(a)->key < HN(b)->key ? -1 : HN(a)->key > HN(b)->key; }
static u32 h_hash(const HTABLE_NODE* a) { u32 h = HN(a)->key; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16; }
static int r_cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) { return RN(a)->key < RN(b)->key ? -1 : RN(a)->key > RN(b)->key; }
static size_t handed;
static void dtor(HTABLE_NODE* h) { handed++; ((NODE*) HN(h))->key = 0; }
static void tables(size_t n, int fixed)
{
    NODE *x = (NODE*) h_calloc((n + M) * sizeof(NODE)), k; size_t i, *p = perm(n); HTABLE t = HTABLE_INITIALIZER;
    if(!fixed) begin();
    for(i = 0; i < n; i++) { x[i].key = (u32) p[i]; CHECK((sel[0] % 2 ? htable_insert(&t, &x[i].h, h_cmp, h_hash) : htable_insert_unsafe(&t, &x[i].h, h_cmp, h_hash)) == 0, "insert"); }
    if(fixed) begin();
    for(i = 0; i < (fixed ? M : n); i++) {
        k.key = pick((unsigned) n * 2);
        CHECK((htable_lookup(&t, &k.h, h_cmp, h_hash) != NULL) == (k.key < n), "lookup");
        if(fixed) {
            NODE* y = &x[n + i]; y->key = (u32) (2 * n + i);
            CHECK(htable_insert(&t, &y->h, h_cmp, h_hash) == 0, "insert");
            if(pick(2)) CHECK(htable_remove(&t, &y->h, h_cmp, h_hash) == &y->h, "remove");
        }
    }
    if(fixed) end();
    else if(sel[1] % 2) for(i = 0; i < n; i++) CHECK(htable_remove(&t, &x[i].h, h_cmp, h_hash) == &x[i].h, "remove");
    handed = 0;
    htable_fini(&t, sel[2] % 3 ? dtor : NULL);
    if(!fixed) end();
    h_free(x); h_free(p);
}
static void lin_htable(size_t n) { tables(n, 0); }
static void const_htable(size_t n) { tables(n, 1); }
static void trees(size_t n, int fixed)
{
    NODE *x = (NODE*) h_calloc((n + M) * sizeof(NODE)), k; size_t i, c = 0, *p = perm(n); RBTREE t = RBTREE_INITIALIZER; RBTREE_CURSOR cur; RBTREE_NODE* r;
    if(!fixed) begin();
    for(i = 0; i < n; i++) { x[i].key = (u32) p[i] * 2; CHECK(rbtree_insert(&t, &x[i].r, r_cmp) == 0, "insert"); }
    if(!fixed) {
        if(sel[0] % 2) for(r = rbtree_head(&t, &cur); r != NULL; r = rbtree_next(&cur)) c++; else for(r = rbtree_tail(&t, &cur); r != NULL; r = rbtree_prev(&cur)) c++;
        CHECK(c == n, "walk");
        for(i = 0; i < n; i++) { k.key = pick((unsigned) n * 2); CHECK((rbtree_lookup(&t, &k.r, r_cmp) != NULL) == (k.key % 2 == 0), "lookup"); }
        if(sel[1] % 3 == 0) for(i = 0; i < n / 2; i++) CHECK(rbtree_remove(&t, &x[i].r, r_cmp) == &x[i].r, "remove");
    } else {
        begin();
        for(i = 0; i < M; i++) {
            NODE* y = &x[n + i]; y->key = pick((unsigned) n * 2) | 1;
            k.key = pick((unsigned) n * 2) & ~1u;
            CHECK(!rbtree_is_empty(&t) && rbtree_lookup_ex(&t, &k.r, r_cmp, &cur) != NULL && rbtree_current(&cur) != NULL, "lookup");
            if(pick(2)) rbtree_next(&cur); else rbtree_prev(&cur);
            if(pick(2)) rbtree_head(&t, &cur); else rbtree_tail(&t, &cur);
            if(rbtree_insert(&t, &y->r, r_cmp) == 0 && pick(2)) CHECK(rbtree_remove(&t, &y->r, r_cmp) == &y->r, "remove");
        }
        end();
    }
    if(!fixed) { c = 0; while((r = rbtree_fini_step(&t)) != NULL) c++; end(); }
    h_free(x); h_free(p);
}
static void lin_rbtree(size_t n) { trees(n, 0); }
static void const_rbtree(size_t n) { trees(n, 1); }

/* ------------------------------------------------------------- values */
static void fill(VALUE* v, size_t i)
{
    char t[40];
    CHECK(v != NULL, "no value");
    if(sel[3] % 3 == 0) CHECK(value_init_uint32(v, (u32) i) == 0, "init"); else if(sel[3] % 3 == 1) CHECK(value_init_string_(v, t, (size_t) sprintf(t, "the value number %zu", i)) == 0, "init"); else CHECK(value_init_array(v) == 0, "init");
}
static void lin_varray(size_t n)
{
    VALUE a; size_t i;
    CHECK(value_init_array(&a) == 0, "init");
    begin();
    for(i = 0; i < n; i++) fill(sel[0] % 2 ? value_array_append(&a) : value_array_insert(&a, value_array_size(&a) - (i > 2 ? sel[0] / 2 % 3 : 0)), i);
    for(i = 0; i < n; i++) CHECK(value_array_get(&a, i) != NULL && value_array_size(&a) == n, "get");
    if(sel[1] % 4 == 0) for(i = n; i > 0; i--) CHECK(value_array_remove(&a, i - 1 - (i > 2 ? sel[0] / 6 % 3 : 0)) == 0, "remove");
    else if(sel[1] % 4 == 1) CHECK(value_array_remove_range(&a, n / 4, n / 2) == 0, "remove");
    else if(sel[1] % 4 == 2) value_array_clean(&a);
    value_fini(&a);
    end();
}
static void lin_varray_wobble(size_t n)
{
    VALUE a; size_t i, j, d = 1 + sel[0] % 2;
    CHECK(value_init_array(&a) == 0, "init");
    for(i = 0; i < n; i++) fill(value_array_append(&a), i);
    begin();
    for(i = 0; i < n; i++) { for(j = 0; j < d; j++) CHECK(value_array_append(&a) != NULL, "append"); CHECK(value_array_remove_range(&a, n, d) == 0, "remove"); }
    end();
    value_fini(&a);
}
static int rev(const char* a, size_t la, const char* b, size_t lb) { int c = memcmp(a, b, la < lb ? la : lb); if(c == 0) c = la < lb ? -1 : la > lb; return -c; }
static size_t visits, visit_limit;
static int visit(const VALUE* k, VALUE* v, void* c) { return ++visits >= visit_limit ? 5 : 0; }
static void dicts(size_t n, int fixed)
{
    VALUE d; size_t i, *p = perm(n); char t[64]; int ordered = sel[0] % 2; const VALUE** keys = (const VALUE**) h_malloc((n + 1) * sizeof(VALUE*));
    unsigned prefix = sel[4] % 3 == 0 ? 1 + sel[5] % 30 : 0;
#define KEY(i) sprintf(t, "%.*s%06zu", (int) prefix, "a-prefix-that-all-the-keys-have-in-common", (size_t) (i))
    CHECK(value_init_dict_ex(&d, sel[1] % 3 ? NULL : rev, ordered ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init");
    if(!fixed) begin();
    for(i = 0; i < n; i++) { KEY(p[i]); fill(sel[2] % 2 ? value_dict_add(&d, t) : value_dict_get_or_add(&d, t), i); }
    CHECK(value_dict_size(&d) == n, "size");
    if(!fixed) {
        for(i = 0; i < n; i++) { KEY(pick((unsigned) n)); CHECK((sel[6] % 2 ? value_path(&d, t) : value_dict_get(&d, t)) != NULL, "get"); KEY(900000 + i % 1000); CHECK(value_dict_get(&d, t) == NULL, "get"); }
        visits = 0; visit_limit = (size_t) -1;
        CHECK(value_dict_walk_sorted(&d, visit, NULL) == 0 && visits == n, "walk");
        CHECK(value_dict_keys_sorted(&d, keys, n + 1) == n, "keys");
        if(ordered) { CHECK(value_dict_walk_ordered(&d, visit, NULL) == 0 && visits == 2 * n && value_dict_keys_ordered(&d, keys, n + 1) == n, "walk"); }
        if(sel[7] % 3 == 0) for(i = 0; i < n; i++) { KEY(p[sel[8] % 2 ? i : n - 1 - i]); CHECK(value_dict_remove(&d, t) == 0, "remove"); }
        else if(sel[7] % 3 == 1) value_dict_clean(&d);
        value_fini(&d);
        end();
    } else {
        begin();
        for(i = 0; i < M; i++) {
            VALUE* v;
            KEY(pick((unsigned) n)); CHECK(value_dict_get(&d, t) != NULL && value_path(&d, t) != NULL, "get");
            KEY(500000 + i); v = value_dict_add(&d, t); CHECK(v != NULL, "add");
            if(pick(2)) CHECK(value_dict_remove(&d, t) == 0, "remove");
            CHECK(value_dict_size(&d) >= n && value_dict_flags(&d) == (ordered ? VALUE_DICT_MAINTAINORDER : 0u) && value_type(&d) == VALUE_DICT && !value_is_new(&d) && !value_is_compatible(&d, VALUE_STRING), "queries");
            visits = 0; visit_limit = 3;
            CHECK(value_dict_walk_sorted(&d, visit, NULL) == 5 && value_dict_keys_sorted(&d, keys, 4) == 4, "walk");
            visits = 0;
            if(ordered) CHECK(value_dict_walk_ordered(&d, visit, NULL) == 5 && value_dict_keys_ordered(&d, keys, 4) == 4, "walk");
        }
        end();
        value_fini(&d);
    }
    h_free(p); h_free(keys);
}
static void lin_dict(size_t n) { dicts(n, 0); }
static void const_dict(size_t n) { dicts(n, 1); }
static void const_varray(size_t n)
{
    VALUE a; size_t i; char t[40];
    CHECK(value_init_array(&a) == 0, "init");
    for(i = 0; i < n; i++) fill(value_array_append(&a), i);
    begin();
    for(i = 0; i < M; i++) {
        sprintf(t, "[%u]", pick((unsigned) n));
        CHECK(value_path(&a, t) != NULL && value_build_path(&a, t) != NULL && value_path(&a, "[-1]") == value_array_get(&a, n - 1), "path");
        CHECK(value_array_get(&a, pick((unsigned) n)) != NULL && value_array_get(&a, n) == NULL && value_array_get_all(&a) == value_array_get(&a, 0), "get");
        CHECK(value_array_size(&a) == n && value_type(&a) == VALUE_ARRAY && value_dict_get(&a, "x") == NULL && value_string(&a) == NULL, "queries");
    }
    end();
    value_fini(&a);
}
static void const_string(size_t n)
{
    VALUE v; size_t i; char* s = (char*) h_malloc(n * 8 + 1);
    memset(s, 'z', n * 8); s[n * 8] = 0;
    CHECK(value_init_string_(&v, s, n * 8) == 0, "init");
    begin();
    for(i = 0; i < M; i++) CHECK(value_string_length(&v) == n * 8 && value_string(&v) != NULL && value_type(&v) == VALUE_STRING && value_is_compatible(&v, VALUE_STRING) && !value_is_compatible(&v, VALUE_INT32) && value_array_get(&v, 0) == NULL, "string");
    end();
    value_fini(&v); h_free(s);
}
static void lin_string(size_t n)
{
    VALUE v, d; char* s = (char*) h_malloc(n * 8 + 8); size_t k = n * 8;
    memset(s, 'z', k); s[k] = 0;
    CHECK(value_init_dict(&d) == 0, "init");
    begin();
    CHECK((sel[0] % 2 ? value_init_string_(&v, s, k) : value_init_string(&v, s)) == 0, "init");
    CHECK(value_init_uint32(value_dict_add_(&d, s, k), 3) == 0, "add");
    CHECK(value_dict_get_(&d, s, k) != NULL && value_path(&d, s) != NULL && value_build_path(&d, s) != NULL && value_dict_get_(&d, s, k - 1) == NULL, "get");
    CHECK(value_dict_remove(&d, s) == 0, "remove");
    value_fini(&v); value_fini(&d);
    end();
    h_free(s);
}
static void lin_build(size_t n)             /* n values built by paths of three components */
{
    VALUE d; size_t i; char t[80];
    CHECK(value_init_dict(&d) == 0, "init");
    begin();
    for(i = 0; i < n; i++) { VALUE* v; sprintf(t, sel[0] % 2 ? "k%zu/list/[]/name" : "all/[]/k%zu", i); v = value_build_path(&d, t); CHECK(v != NULL && value_init_uint64(v, i) == 0, "build"); }
    for(i = 0; i < n; i++) { sprintf(t, sel[0] % 2 ? "k%zu/list/[0]/name" : "all/[%zu]", i); CHECK(value_path(&d, t) != NULL, "path"); }
    value_fini(&d);
    end();
}

/* ------------------------------------------------------------- encodings, hashes */
static void lin_encode(size_t n)
{
    size_t k = n * 4; char* in = (char*) h_malloc(k), *out = (char*) h_malloc(k * 2 + 8), *back = (char*) h_malloc(k + 8); int m;
    memset(in, (int) sel[0], k);
    begin();
    switch(sel[1] % 4) {
        case 0: m = base64_encode(in, (unsigned) k, out, (unsigned) k * 2 + 8, NULL); CHECK(m > 0 && base64_decode(out, (unsigned) m, back, (unsigned) k + 8, NULL) == (int) k, "base64"); break;
        case 1: m = hex_encode(in, (unsigned) k, out, (unsigned) k * 2 + 8, 0); CHECK(m == (int) k * 2 && hex_decode(out, (unsigned) m, back, (unsigned) k + 8) == (int) k, "hex"); break;
        case 2: crc32(in, k); crc32(in + 1, k - 3); break;
        default: fnv1a_32(FNV1A_BASE_32, in, k); fnv1a_64(FNV1A_BASE_64, in, k);
    }
    end();
    h_free(in); h_free(out); h_free(back);
}
static void const_encode(size_t n)          /* the announced size does not depend on the content */
{
    size_t i; unsigned k = (unsigned) n * 64; char* in = (char*) h_malloc(k);
    memset(in, '4', k);
    begin();
    for(i = 0; i < M; i++) CHECK(base64_encode(in, k, NULL, 0, NULL) > 0 && hex_encode(in, k, NULL, 0, 0) > 0 && hex_decode(in, k, NULL, 0) > 0, "announced size");
    end();
    h_free(in);
}

/* ------------------------------------------------------------- memory */
static void lin_memchunk(size_t n)
{
    MEMCHUNK c; size_t i, bs = sel[0] % 3 ? 0 : 64u << sel[1] % 8, big = 1 + sel[2] % 40;
    memchunk_init(&c, bs);
    begin();
    for(i = 0; i < n; i++) CHECK(memchunk_alloc(&c, 1 + (sel[3] % 2 ? pick(64) : sel[4] % 64) + (i % big == 0 && sel[5] % 3 == 0 ? 2000 : 0)) != NULL, "alloc");
    memchunk_fini(&c);
    end();
}
static void const_memchunk(size_t n)
{
    MEMCHUNK c; size_t i;
    memchunk_init(&c, sel[0] % 3 ? 0 : 64u << sel[1] % 8);
    for(i = 0; i < n; i++) CHECK(memchunk_alloc(&c, 1 + sel[2] % 64) != NULL, "alloc");
    begin();
    for(i = 0; i < M; i++) CHECK(memchunk_alloc(&c, 1 + pick(64)) != NULL, "alloc");
    end();
    memchunk_fini(&c);
}
static NC size_t malloca_bytes(size_t n) { return sel[0] % 2 ? n * 16 : 1 + sel[1] % 500; }
static void const_malloca(size_t n)
{
    size_t i, k = malloca_bytes(n);
    begin();
    for(i = 0; i < M; i++) { char* p = (char*) MALLOCA(k); CHECK(p != NULL, "malloca"); p[0] = p[k - 1] = 1; FREEA(p); if(i % 64 == 63 && k < 1024) break; }
    end();
}

/* ------------------------------------------------------------- command lines */
static size_t calls, stop_at;
static int opt_call(int id, const char* arg, void* u) { return ++calls >= stop_at ? 9 : 0; }
static const CMDLINE_OPTION some_opts[] = { { 'v', "verbose", 'v', 0 }, { 'o', "output", 'o', CMDLINE_OPTFLAG_REQUIREDARG }, { 0, "long", 'l', CMDLINE_OPTFLAG_OPTIONALARG }, { 0, "-I", 'I', CMDLINE_OPTFLAG_COMPILERLIKE }, { 0 } };
static void command_line(size_t n, int fixed)
{
    static const char* const w[] = { "-v", "--verbose", "-o", "--output=f", "file", "--long", "--long=3", "-Ix", "--unknown", "-vvz", "--verbose=1", "--nothing=7" };
    size_t i; char** argv = (char**) h_malloc((n + 1) * sizeof(char*)); unsigned one = sel[0] % 16;
    for(i = 0; i < n; i++) argv[i] = (char*) (one < 12 ? w[one] : w[pick(12)]);
    if(sel[1] % 4 == 0 && n > 2) argv[2] = (char*) "--";
    argv[n] = NULL;
    calls = 0; stop_at = fixed ? 3 : (size_t) -1;
    begin();
    if(fixed) for(i = 0; i < M / 3; i++) { calls = 0; CHECK(cmdline_read(some_opts, (int) n, argv, opt_call, NULL) == 9, "read"); }
    else CHECK(cmdline_read(some_opts, (int) n, argv, opt_call, NULL) == 0 && calls > 0, "read");
    end();
    h_free(argv);
}
static void lin_cmdline(size_t n) { command_line(n, 0); }
static void const_cmdline(size_t n) { command_line(n, 1); }
static void lin_cmdline_options(size_t n)   /* many options, a few arguments */
{
    CMDLINE_OPTION* o = (CMDLINE_OPTION*) h_calloc((n + 1) * sizeof(CMDLINE_OPTION)); size_t i, k = 8; char* argv[10]; char* names = (char*) h_malloc(n * 12);
    for(i = 0; i < n; i++) { char* s = names + i * 12; sprintf(s, "opt%zu", i); o[i].longname = s; o[i].id = (int) i + 1; o[i].flags = i % 3 == 1 ? CMDLINE_OPTFLAG_REQUIREDARG : 0; }
    o[n].id = 0;
    for(i = 0; i < 9; i++) { argv[i] = (char*) h_malloc(40); sprintf(argv[i], sel[0] % 3 == 0 ? "--opt%zu" : sel[0] % 3 == 1 ? "--opt%zu=x" : "--none%zu", pick(2) ? n - 1 - i : (size_t) pick((unsigned) n)); }
    calls = 0; stop_at = (size_t) -1;
    begin();
    CHECK(cmdline_read(o, 9, argv, opt_call, NULL) == 0 && calls == 8, "read");
    end();
    for(i = 0; i < 9; i++) h_free(argv[i]);
    h_free(o); h_free(names);
}
static void lin_cmdline_text(size_t n)      /* few arguments, but long ones */
{
    char* argv[4]; size_t k = n * 8; int i;
    argv[0] = (char*) "prog";
    for(i = 1; i < 4; i++) { argv[i] = (char*) h_malloc(k + 40); strcpy(argv[i], sel[i] % 6 == 0 ? "--long=" : sel[i] % 6 == 1 ? "-I" : sel[i] % 6 == 2 ? "--unknown=" : sel[i] % 6 == 3 ? "-v" : sel[i] % 6 == 4 ? "--out" : "a"); memset(argv[i] + strlen(argv[i]), 'v', k); argv[i][k] = 0; }
    calls = 0; stop_at = (size_t) -1;
    begin();
    CHECK(cmdline_read(some_opts, 4, argv, opt_call, NULL) == 0 && calls > 0, "read");
    end();
    for(i = 1; i < 4; i++) h_free(argv[i]);
}

/* ------------------------------------------------------------- streams */
static void lin_stream(size_t n)
{
    size_t k = n * 16; BYTE *b = (BYTE*) h_malloc(k), t[64]; IStream* s; ULONG r; size_t got = 0;
    memset(b, 5, k);
    begin();
    CHECK(memstream_create(b, (ULONG) k, &s) == S_OK, "create");
    do { CHECK(SUCCEEDED(IStream_Read(s, t, 1 + sel[0] % 64, &r)), "read"); got += r; } while(r > 0);
    CHECK(got == k, "read");
    IStream_Release(s);
    end();
    h_free(b);
}
static void const_stream(size_t n)
{
    size_t k = n * 64, i; BYTE *b = (BYTE*) h_malloc(k), t[64]; IStream* s; ULONG r; LARGE_INTEGER m; ULARGE_INTEGER pos; STATSTG st;
    memset(b, 5, k);
    CHECK(memstream_create(b, (ULONG) k, &s) == S_OK, "create");
    begin();
    for(i = 0; i < M; i++) {
        m.QuadPart = pick((unsigned) k - 64);
        CHECK(SUCCEEDED(IStream_Seek(s, m, STREAM_SEEK_SET, &pos)) && SUCCEEDED(IStream_Read(s, t, 16, &r)) && r == 16, "read");
        m.QuadPart = -8; CHECK(SUCCEEDED(IStream_Seek(s, m, STREAM_SEEK_CUR, NULL)) && SUCCEEDED(IStream_Stat(s, &st, STATFLAG_NONAME)), "seek");
        m.QuadPart = 0; CHECK(SUCCEEDED(IStream_Seek(s, m, STREAM_SEEK_END, NULL)) && SUCCEEDED(IStream_Read(s, t, 16, &r)) && r == 0, "read");
        { IStream* c; if(SUCCEEDED(IStream_Clone(s, &c))) IStream_Release(c); }
        IStream_AddRef(s); IStream_Release(s);
    }
    end();
    IStream_Release(s); h_free(b);
}
static size_t sunk;
static HRESULT sink_write(IStream* s, const void* b, ULONG n, ULONG* w) { bytes(n); sunk += n; *w = n; return S_OK; }
static HRESULT sink_qi(IStream* s, REFIID i, void** o) { *o = NULL; return E_NOINTERFACE; }
static ULONG sink_ref(IStream* s) { return 1; }
static void lin_copy(size_t n)
{
    size_t k = n * 64; BYTE* b = (BYTE*) h_malloc(k); IStream* s, sink; IStreamVtbl vt; ULARGE_INTEGER m; LARGE_INTEGER z;
    memset(b, 5, k);
    memset(&vt, 0, sizeof(vt)); vt.QueryInterface = sink_qi; vt.AddRef = sink_ref; vt.Release = sink_ref; vt.Write = sink_write; sink.lpVtbl = &vt; sunk = 0;
    begin();
    CHECK(memstream_create(b, (ULONG) k, &s) == S_OK, "create");
    z.QuadPart = (LONGLONG) (sel[0] % 3 ? 0 : k / 3);
    CHECK(SUCCEEDED(IStream_Seek(s, z, STREAM_SEEK_SET, NULL)), "seek");
    m.QuadPart = sel[1] % 2 ? (ULONGLONG) -1 : k / 2;
    CHECK(SUCCEEDED(IStream_CopyTo(s, &sink, m, NULL, NULL)) && sunk >= k / 2, "copy");
    IStream_Release(s);
    end();
    h_free(b);
}
static void lin_deep_path(size_t n)         /* paths of many components */
{
    VALUE d; size_t k = n / 40, i; char* t = (char*) h_malloc(k * 4 + 8), *e = t; VALUE* v;
    for(i = 0; i < k; i++) e += sprintf(e, sel[0] % 3 == 0 ? "/k" : sel[0] % 3 == 1 ? "[]" : i % 2 ? "[]" : "/k");
    CHECK(value_init_dict(&d) == 0, "init");
    if(sel[0] % 3 == 1) { value_fini(&d); CHECK(value_init_array(&d) == 0, "init"); }
#ifndef VF_C53
    begin();
#endif
    v = value_build_path(&d, t);
    CHECK(v != NULL && value_init_string(v, "x") == 0, "build");
    for(e = t; *e; e++) if(e[0] == '[' && e[1] == ']') { memmove(e + 3, e + 1, strlen(e + 1) + 1); e[1] = '-'; e[2] = '1'; }
    CHECK(value_path(&d, t) == v && value_build_path(&d, t) == v, "path");
    end();
    value_fini(&d); h_free(t);
}

/* ------------------------------------------------------------- */
static const struct { void (*run)(size_t); int fixed; const char* name; } scen[] = {
    { lin_buffer, 0, "appending to a buffer and taking it down" }, { lin_buffer_wobble, 0, "a buffer going up and down" }, { lin_stack, 0, "a stack" }, { lin_arrays, 0, "typed arrays" }, { one_insert, 0, "one insertion and removal in a buffer" },
    { one_piece, 0, "pieces as big as the object" }, { const_buffer, 1, "looking at, swapping and acquiring buffers and stacks" }, { lin_lists, 0, "building, walking and taking down lists" }, { const_lists, 1, "insertions and removals in lists" },
    { lin_htable, 0, "filling and taking down a hash table" }, { const_htable, 1, "operations of a hash table" }, { lin_rbtree, 0, "filling, walking and taking down a tree" }, { const_rbtree, 1, "operations of a tree" },
    { lin_varray, 0, "filling and taking down an array value" }, { lin_varray_wobble, 0, "an array value going up and down" }, { const_varray, 1, "lookups in an array value" },
    { lin_dict, 0, "filling, walking and taking down a dictionary" }, { const_dict, 1, "operations of a dictionary" }, { lin_string, 0, "making strings and keys" }, { const_string, 1, "looking at a string value" }, { lin_build, 0, "building by paths" },
    { lin_encode, 0, "encoding, decoding, hashing" }, { const_encode, 1, "announcing sizes" }, { lin_memchunk, 0, "chunk allocations" }, { const_memchunk, 1, "chunk allocations in a big chunk" }, { const_malloca, 1, "malloca" },
    { lin_cmdline, 0, "reading a command line" }, { const_cmdline, 1, "ending the reading of a command line" }, { lin_cmdline_options, 0, "a command line with many options" }, { lin_cmdline_text, 0, "a command line with long arguments" },
    { lin_stream, 0, "reading a stream" }, { const_stream, 1, "operations of a stream" },
    { lin_copy, 0, "copying a stream" }, { lin_deep_path, 0, "paths of many components" } };

void vf_case(void)
{
    static const size_t edges[] = { 256, 512, 1024, 413, 885, 1829, 300, 1000 };
    unsigned s = (unsigned) d_below(sizeof(scen) / sizeof(scen[0])); size_t n, f; u64 c1; int i;
    if(d_bool()) n = edges[d_below(8)] + (size_t) d_below(5) - 2; else n = 250 + (size_t) d_below(1000);
    f = (size_t) 8 << d_below(vf_profile ? 4 : 3);
    order_kind = (int) d_below(5);
    for(i = 0; i < 16; i++) sel[i] = (unsigned) d_below(1u << 16);
    shape_seed = d_seed();
    vf_mem_cap((size_t) 2 << 30);
    TRACE("%s: %zu and %zu, order %d, choices %u %u %u %u %u %u", scen[s].name, n, n * f, order_kind, sel[0], sel[1], sel[2], sel[3], sel[4], sel[5]);
    what = scen[s].name;
#ifdef VF_C53
    {
        size_t first;
        deepest = 0; stack_limit = 64 << 10; rs = shape_seed; on = 0;
        snprintf(over_text, sizeof(over_text), "%s takes more than %zu bytes of stack for %zu", what, stack_limit, n);
        scen[s].run(n);
        first = deepest; deepest = 0; stack_limit = first + (16 << 10); rs = shape_seed;
        snprintf(over_text, sizeof(over_text), "%s takes %zu bytes of stack for %zu and more than %zu for %zu", what, first, n, stack_limit, n * f);
        scen[s].run(n * f);
        TRACE("%zu bytes of stack and %zu", first, deepest);
        if(getenv("VF_COSTS")) { FILE* o_ = fopen("/tmp/costs.txt", "a"); fprintf(o_, "%zu %zu %s n=%zu f=%zu\n", first, deepest, what, n, f); fclose(o_); }
    }
#else
    cost = 0; budget = 40000000; rs = shape_seed; on = 0;
    snprintf(over_text, sizeof(over_text), "%s costs more than %llu steps for only %zu", what, (unsigned long long) budget, n);
    scen[s].run(n);
    c1 = cost;
    cost = 0; budget = 20000 + 3 * c1 * (scen[s].fixed ? 1 : f); rs = shape_seed;
    snprintf(over_text, sizeof(over_text), "%s costs %llu steps for %zu and more than %llu for %zu", what, (unsigned long long) c1, n, (unsigned long long) budget, n * f);
    scen[s].run(n * f);
    TRACE("%llu steps and %llu: %.2f of the bound", (unsigned long long) c1, (unsigned long long) cost, (double) cost / (double) budget);
    if(getenv("VF_COSTS")) { FILE* o_ = fopen("/tmp/costs.txt", "a"); fprintf(o_, "%.2f %s n=%zu f=%zu %llu %llu\n", (double) cost / (double) budget, what, n, f, (unsigned long long) c1, (unsigned long long) cost); fclose(o_); }
#endif
    vf_label(what);
    if(n * f >= 4000) vf_nontrivial();
}
