/* C35: the MALLOCA_(), MALLOCA() and FREEA() macros. */
#include "pbt.h"
#include <malloc.h>
#include <alloca.h>
#include "malloca.h"

const char vf_property[] = "C35";
const char vf_rule[] = "a heap block and a stack block were alive at the same time and at least one heap block was released through FREEA()";

typedef struct BLK { u8* p; size_t n; u64 seed; int heap; int depth; } BLK;
#define MAXB 64
static BLK blk[MAXB];
static int nb;
static size_t on_stack;
static int both, released, ops;

static void put(BLK* b)
{
    u64 s = b->seed; size_t i;
    for(i = 0; i < b->n; i++) b->p[i] = (u8) vf_next(&s);
}
static void verify(const char* when)
{
    int k;
    for(k = 0; k < nb; k++) {
        u64 s = blk[k].seed; size_t i;
        for(i = 0; i < blk[k].n; i++)
            CHECK(blk[k].p[i] == (u8) vf_next(&s), "%s: byte %zu of a live block of %zu bytes changed", when, i, blk[k].n);
    }
}

typedef struct REC { int a; char b[13]; } REC;
static size_t draw_threshold(void)
{
    switch(D_WEIGHTED(4, 3, 2, 2)) {
        case 0: return 1024;
        case 1: return (size_t) d_below(200);
        case 2: return (size_t) d_below(20);
        default: return 1 + (size_t) d_below(20000);
    }
}
static size_t draw_size(size_t t)
{
    switch(D_WEIGHTED(4, 4, 2, 1)) {
        case 0: { size_t lo = t > 24 ? t - 24 : 0; return lo + (size_t) d_below(40); }
        case 1: return (size_t) d_below(t + 1);
        case 2: return (size_t) d_below(64);
        default: return t + (size_t) d_below(5000);
    }
}

/* What is released is a heap block exactly if it was allocated as one. */
#define RELEASE(expr, is_heap, n_) do { \
        u64 f0__ = vf_free_calls(); size_t l0__ = vf_live_blocks(); u8* gone__ = (u8*) (expr); int h__ = (is_heap); \
        TRACE("release %s block of %zu bytes", h__ ? "a heap" : gone__ ? "a stack" : "the NULL", (size_t) (n_)); \
        FREEA(expr); \
        CHECK(vf_live_blocks() + (h__ ? 1 : 0) == l0__, "releasing %s block leaves %zu heap blocks of %zu", h__ ? "a heap" : "a stack", vf_live_blocks(), l0__); \
        if(h__) { CHECK(vf_free_calls() == f0__ + 1, "releasing a heap block makes %llu calls of free()", (unsigned long long) (vf_free_calls() - f0__)); released = 1; } \
    } while(0)

static void forget(int k) { blk[k] = blk[--nb]; }

static void release(int k)
{
    BLK b = blk[k];
    u8* x = b.p; u8* other = NULL;
    u8* v[3] = { NULL, b.p, NULL };
    REC* rec = (REC*) b.p;
    const void* ptr = b.p;
    int* mark = (int*) b.p;
    int one = 1, yes = b.n + 1 > 0;
    struct { u8* m; } st = { b.p }, *ps = &st;
    u8** pp = &x;
    forget(k);
    switch(d_below(10)) {
        case 0: RELEASE(x, b.heap, b.n); break;
        case 1: RELEASE(v[one], b.heap, b.n); break;
        case 2: RELEASE(rec, b.heap, b.n); break;
        case 3: RELEASE(ptr, b.heap, b.n); break;
        case 4: RELEASE(mark, b.heap, b.n); break;
        case 5: RELEASE(yes ? x : other, b.heap, b.n); break;
        case 6: RELEASE(ps->m, b.heap, b.n); break;
        case 7: RELEASE(*pp, b.heap, b.n); break;
        case 8: RELEASE(v[0] == NULL ? rec : NULL, b.heap, b.n); break;
        default: x = b.p - 5; RELEASE(x + 5, b.heap, b.n); break;
    }
    /* as the statement of an if with an else */
    if(yes) FREEA(other); else CHECK(0, "FREEA() is not one statement");
    verify("after a release");
}

/* The allocation at one call site: the expressions differ, the values are sz and th. */
#define SITE(K, MACRO) case K: got = (u8*) MACRO; what = #MACRO; break;

static __attribute__((noinline)) void frame(int depth)
{
    int k;
    volatile u64 canary[2];
    canary[0] = canary[1] = 0x5ca1ab1e00c0ffeeull + (u64) depth;
    while(d_more(5) && ops++ < 400) {
        size_t th = draw_threshold(), sz = draw_size(th), cut, tcut, zero = 0;
        int op = D_WEIGHTED(8, 4, 2, 2, 1);
        if(op == 0 && nb < MAXB) {
            u8* got = NULL; const char* what = "";
            u64 calls, seed; size_t live, bytes;
            int site = (int) d_below(18), refused = d_chance(1, 8), must_heap, must_stack, isheap;
            int c; int sgn, tsgn; u32 u;
            struct { size_t n, t; } s2, *ps;
            if(on_stack + sz > 600000) continue;
            if(site <= 2 || site == 16) th = MALLOCA_THRESHOLD;
            else if(site == 15) { th = 64; }
            else if(site == 13) { sz &= ~(size_t) 1; }
            else if(site == 14) { sz = sizeof(REC) * (sz % 40); }
            else if(site == 17) { th = (size_t) -1; }
            cut = (size_t) d_below(sz + 1); tcut = (size_t) d_below(th ? th : 1); c = d_bool();
            sgn = (int) sz; tsgn = th > 1000000 ? 1000000 : (int) th; u = (u32) sz;
            s2.n = sz; s2.t = th; ps = &s2;
            seed = d_seed();
            calls = vf_alloc_calls(); live = vf_live_blocks(); bytes = vf_live_bytes();
            if(refused) vf_alloc_fail_at(1);
            switch(site) {
                SITE(0, MALLOCA(sz))
                SITE(1, MALLOCA(cut + (sz - cut)))
                SITE(2, MALLOCA(c ? sz : sz + zero))
                SITE(3, MALLOCA_(sz, th))
                SITE(4, MALLOCA_(cut + (sz - cut), th))
                SITE(5, MALLOCA_(sz, tcut + (th - tcut)))
                SITE(6, MALLOCA_(c ? sz : sz - zero, th))
                SITE(7, MALLOCA_(sz, c ? th : th + zero))
                SITE(8, MALLOCA_(sz & ~(size_t) 7 | sz & 7, th))
                SITE(9, MALLOCA_(sz, th & ~(size_t) 7 | th & 7))
                SITE(10, MALLOCA_(sgn, tsgn))
                SITE(11, MALLOCA_(u, (u32) tsgn))
                SITE(12, MALLOCA_(ps->n ^ zero, ps->t ^ zero))
                SITE(13, MALLOCA_(sz >> 1 << 1, th))
                SITE(14, MALLOCA_(sizeof(REC) * (sz / sizeof(REC)), th))
                SITE(15, MALLOCA_(sz, 32 + 32))
                SITE(16, MALLOCA(u))
                SITE(17, MALLOCA_(sz, (size_t) -1))
            }
            refused = refused && vf_alloc_attempts() != 0;
            vf_alloc_fail_none();
            TRACE("depth %d: %s, size %zu, threshold %zu%s: %s", depth, what, sz, th, refused ? ", refused" : "", got ? "a block" : "NULL");
            must_heap = sz >= th; must_stack = sz < th && th - sz > 64;
            isheap = vf_alloc_calls() != calls;
            if(must_heap) CHECK(isheap, "%zu bytes with a threshold of %zu are not allocated on the heap", sz, th);
            if(must_stack) CHECK(!isheap, "%zu bytes with a threshold of %zu are not allocated on the stack", sz, th);
            if(refused) { CHECK(got == NULL, "a block is returned although malloc() failed"); CHECK(vf_live_blocks() == live, "memory is lost when malloc() fails"); vf_label("allocation refused"); RELEASE(got, 0, 0); continue; }
            CHECK(got != NULL, "no block of %zu bytes, threshold %zu", sz, th);
            if(isheap) {
                CHECK(vf_live_blocks() == live + 1, "%zu heap blocks instead of %zu", vf_live_blocks(), live + 1);
                CHECK(vf_live_bytes() - bytes >= sz, "a heap block of %zu bytes for %zu", vf_live_bytes() - bytes, sz);
                CHECK(vf_within(got, sz), "the block of %zu bytes is not within heap memory", sz);
            } else { CHECK(vf_live_blocks() == live, "heap memory for a stack block"); on_stack += sz; vf_label("on the stack"); }
            blk[nb].p = got; blk[nb].n = sz; blk[nb].seed = seed; blk[nb].heap = isheap; blk[nb].depth = depth; nb++;
            put(&blk[nb - 1]);
            verify("after an allocation");
            { int h = 0, s = 0; for(k = 0; k < nb; k++) { if(blk[k].heap) h = 1; else s = 1; } if(h && s) both = 1; }
        } else if(op == 1 && nb > 0) {
            release((int) d_below((u64) nb));
        } else if(op == 2 && depth < 4) {
            frame(depth + 1);
            verify("after a call");
        } else if(op == 3) {
            /* sizes which cannot be had */
            size_t big = d_bool() ? (size_t) -1 - (size_t) d_below(24) : d_bool() ? ((size_t) 1 << 62) + (size_t) d_u64() / 4 : ((size_t) 1 << 31 << d_below(3)) + (size_t) d_below(100);
            size_t live = vf_live_blocks();
            u8* got = NULL;
            th = d_chance(1, 3) ? MALLOCA_THRESHOLD : th;
            switch(d_below(4)) {
                case 0: got = (u8*) MALLOCA(big); break;
                case 1: got = (u8*) MALLOCA_(big, th); break;
                case 2: got = (u8*) MALLOCA_(big - 1 + 1, th); break;
                default: got = (u8*) MALLOCA_(big | 0, th + 0); break;
            }
            TRACE("size %zu, threshold %zu: %s", big, th, got ? "a block" : "NULL");
            CHECK(got == NULL, "a block is returned for the size %zu, threshold %zu", big, th);
            CHECK(vf_live_blocks() == live, "memory is lost for the size %zu", big);
            RELEASE(got, 0, 0);
            vf_label("impossible size");
        } else if(op == 4 && nb > 0) {
            k = (int) d_below((u64) nb);
            blk[k].seed = d_seed();
            put(&blk[k]);
            verify("after writing a block");
        }
    }
    /* the blocks of this frame end with it */
    for(k = nb; k-- > 0; ) if(k < nb && blk[k].depth == depth) {
        if(blk[k].heap || d_bool()) release(k);
        else { forget(k); }
        k = nb;
    }
    CHECK(canary[0] == 0x5ca1ab1e00c0ffeeull + (u64) depth && canary[1] == canary[0], "a variable of the caller was overwritten");
}

void vf_case(void)
{
    nb = 0; on_stack = 0; both = released = 0; ops = 0;
    vf_mem_cap(64 << 20);
    frame(0);
    if(both && released) vf_nontrivial();
}
