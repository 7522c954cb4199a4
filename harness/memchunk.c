/* C36-C37: the chunk allocator. */
#include "pbt.h"
#include "memchunk.h"

const char vf_property[] = VF_PROPERTY;

typedef struct PIECE { u8* p; size_t n; u64 seed; } PIECE;
#define MAXP 6000
static PIECE* pieces; static int np; static size_t total;

static void put(PIECE* q) { u64 s = q->seed; size_t i; for(i = 0; i < q->n; i++) q->p[i] = (u8) vf_next(&s); }
static void verify1(const PIECE* q, const char* when)
{
    u64 s = q->seed; size_t i;
    for(i = 0; i < q->n; i++) CHECK(q->p[i] == (u8) vf_next(&s), "%s: byte %zu of a piece of %zu bytes changed", when, i, q->n);
}
static void verify(const char* when, int from) { int k; for(k = from; k < np; k++) verify1(&pieces[k], when); }
/* A few of the pieces: the newest ones and some of any age; everything when there is little. */
static void verify_some(const char* when)
{
    int k;
    if(np <= 12 || total < 200) { verify(when, 0); return; }
    for(k = np - 4; k < np; k++) if(pieces[k].n <= 4096) verify1(&pieces[k], when);
    for(k = 0; k < 3; k++) verify1(&pieces[d_below((u64) np)], when);
}
static void keep(u8* p, size_t n)
{
    if(np == MAXP) return;
    pieces[np].p = p; pieces[np].n = n; pieces[np].seed = d_seed();
    CHECK(vf_live_blocks() > 60 || n == 0 || vf_within(p, n), "a piece of %zu bytes is not within memory of the allocator", n);
    put(&pieces[np++]);
    total += n;
}
static size_t draw_block_size(void)
{
    switch(D_WEIGHTED(2, 4, 3, 2, 1)) {
        case 0: return 0;
        case 1: return 1 + (size_t) d_below(300);
        case 2: return 1 + (size_t) d_below(4096);
        case 3: return (size_t) 1 << d_below(14);
        default: return 1 + (size_t) d_below(vf_profile ? 300000 : 40000);
    }
}
static size_t draw_size(size_t bs)
{
    switch(D_WEIGHTED(5, 3, 3, 2, 2)) {
        case 0: return (size_t) d_below(24);
        case 1: return (size_t) d_below(bs / 4 + 3);
        case 2: { size_t at = d_bool() ? bs / 4 : bs, off = (size_t) d_below(20); return at + off > 10 ? at + off - 10 : at + off; }
        case 3: return (size_t) d_below(bs + 10);
        default: return bs + (size_t) d_below(bs * 2 + 1);
    }
}

/* Blocks which no memory backs: a piece is refused or it is a good one, and nothing is left behind. */
static size_t hopeless_block_size(void)
{
    switch(D_WEIGHTED(4, 2, 2, 2)) {
        case 0: return (size_t) -1 - (size_t) d_below(40);
        case 1: return (size_t) -1 - (size_t) d_below(5000);
        case 2: return ((size_t) -1 >> d_below(12)) - (size_t) d_below(40);
        default: return ((size_t) 1 << (40 + d_below(24))) + (size_t) d_below(100);
    }
}
static void hopeless_blocks(void)
{
    MEMCHUNK c;
    size_t bs = hopeless_block_size();
    int round, n, k, refused = 0;
    for(round = 0; round < 2; round++) {
        np = 0; total = 0;
        if(round == 0 || d_bool()) { MEMCHUNK t = MEMCHUNK_INITIALIZER(bs); if(d_bool()) memchunk_init(&c, bs); else c = t; }
        TRACE("block size %zu", bs);
        for(n = 1 + (int) d_below(30); n > 0; n--) {
            size_t sz = d_chance(1, 6) ? (size_t) -1 - (size_t) d_below(64) : d_chance(1, 6) ? bs / 4 - 10 + (size_t) d_below(20) : d_chance(1, 6) ? bs - (size_t) d_below(20) : (size_t) d_below(d_bool() ? 40 : 3000);
            size_t live0 = vf_live_blocks();
            u8* p = (u8*) memchunk_alloc(&c, sz);
            TRACE("alloc %zu: %s, %zu blocks", sz, p ? "a piece" : "NULL", vf_live_blocks());
            if(p == NULL) { refused++; CHECK(vf_live_blocks() == live0, "memory is taken by a failed allocation"); continue; }
            CHECK(sz < (size_t) 1 << 39, "a piece of %zu bytes, which no memory backs", sz);
            CHECK(sz == 0 || vf_within(p, sz), "a piece of %zu bytes is not within memory of the allocator, block size %zu", sz, bs);
            for(k = 0; k < np; k++) CHECK(sz == 0 || pieces[k].n == 0 || p + sz <= pieces[k].p || pieces[k].p + pieces[k].n <= p, "pieces of %zu and %zu bytes overlap", sz, pieces[k].n);
            keep(p, sz);
        }
        verify("before the end", 0);
        memchunk_fini(&c);
        CHECK(vf_live_blocks() == 0, "%zu blocks are left after the end", vf_live_blocks());
    }
    vf_label("block size no memory backs");
    if(refused >= 3) vf_nontrivial();
}

#ifdef VF_C36
const char vf_rule[] = "at least 5 pieces of at least two sizes in at least two system blocks were alive at once, or 3 pieces were refused under a block size no memory backs";

static void init(MEMCHUNK* c, size_t bs, int way)
{
    size_t zero = 0;
    memset(c, 0x3d, sizeof(*c));
    switch(way) {
        case 0: memchunk_init(c, bs); break;
        case 1: { MEMCHUNK t = MEMCHUNK_INITIALIZER(bs); *c = t; break; }
        case 2: { MEMCHUNK t = MEMCHUNK_INITIALIZER(bs | zero); *c = t; break; }
        default: { MEMCHUNK t = MEMCHUNK_INITIALIZER(zero ? 1 : bs); *c = t; break; }
    }
}

/* Sizes beyond 32 bits: only the ends of the pieces are touched. */
static void giant(void)
{
    MEMCHUNK c;
    size_t bs = ((size_t) 1 << (31 + d_below(2))) + (size_t) d_below(1000) * 1000, n, k, got = 0;
    int i, j, m = 0;
    vf_mem_cap((size_t) 14 << 30);
    pieces = (PIECE*) h_malloc(MAXP * sizeof(PIECE));
    init(&c, bs, (int) d_below(4));
    TRACE("block size %zu", bs);
    for(i = 0; i < 40; i++) {
        u64 hits = vf_cap_hits();
        u8* p;
        switch(D_WEIGHTED(3, 2, 2, 2)) {
            case 0: n = 1 + (size_t) d_below(5000); break;
            case 1: n = bs / 8 + (size_t) d_below(1000); break;
            case 2: n = bs / 4 - 5 + (size_t) d_below(10); break;
            default: n = ((size_t) 1 << (30 + d_below(3))) + (size_t) d_below(1000);
        }
        p = (u8*) memchunk_alloc(&c, n);
        TRACE("alloc %zu: %s, %zu blocks", n, p ? "a piece" : "NULL", vf_live_blocks());
        if(vf_cap_hits() != hits) { CHECK(p == NULL, "a piece although memory was refused"); continue; }
        CHECK(p != NULL, "no piece of %zu bytes", n);
        CHECK(vf_within(p, n), "a piece of %zu bytes is not within memory of the allocator", n);
        for(j = 0; j < m; j++) CHECK(p + n <= pieces[j].p || pieces[j].p + pieces[j].n <= p, "pieces of %zu and %zu bytes overlap", n, pieces[j].n);
        for(k = 0; k < 8 && k < n; k++) p[k] = p[n - 1 - k] = (u8) m;
        pieces[m].p = p; pieces[m++].n = n;
        got += n;
    }
    for(j = 0; j < m; j++) CHECK(pieces[j].p[0] == (u8) j && pieces[j].p[pieces[j].n - 1] == (u8) j, "a piece changed");
    memchunk_fini(&c);
    CHECK(vf_live_blocks() == 0, "%zu blocks are left after the end", vf_live_blocks());
    vf_label("gigabytes");
    if(got >> 32) vf_nontrivial();
}

void vf_case(void)
{
    MEMCHUNK c, twin;
    size_t bs = draw_block_size(), real = bs ? bs : 1024, prev_n = 0;
    int way = (int) d_below(4), twinned = d_chance(1, 3), rounds = 0, good = 0;
    unsigned avg = d_avg();
    if(vf_profile == 2) { giant(); return; }
    pieces = (PIECE*) h_malloc(MAXP * sizeof(PIECE)); np = 0; total = 0;
    if(d_chance(1, 12)) { hopeless_blocks(); return; }
    init(&c, bs, way);
    /* another allocator, set up in another way: it asks the system for the same */
    init(&twin, bs ? bs : d_bool() ? 1024 : 0, (int) d_below(4));
    TRACE("block size %zu, set up in way %d%s", bs, way, twinned ? ", with a twin" : "");
    do {
        int n = 0, kinds = 0;
        np = 0; total = 0;
        while(d_more(avg) && n++ < (vf_profile ? 3000 : 800) && total < (vf_profile ? 500000u : 100000u)) {
            size_t sz = draw_size(real), calls0 = vf_alloc_calls(), bytes0 = vf_live_bytes(), calls1, bytes1;
            int rep = d_chance(1, 8) ? 1 + (int) d_below(40) : 1;
            while(rep-- > 0 && np < MAXP) {
                u8* p;
                calls0 = vf_alloc_calls(); bytes0 = vf_live_bytes();
                p = (u8*) memchunk_alloc(&c, sz);
                TRACE("alloc %zu: %s, %zu blocks", sz, p ? "a piece" : "NULL", vf_live_blocks());
                CHECK(p != NULL, "no piece of %zu bytes", sz);
                calls1 = vf_alloc_calls() - calls0; bytes1 = vf_live_bytes() - bytes0;
                keep(p, sz);
                if(twinned) {
                    calls0 = vf_alloc_calls(); bytes0 = vf_live_bytes();
                    p = (u8*) memchunk_alloc(&twin, sz);
                    CHECK(p != NULL, "no piece of %zu bytes", sz);
                    CHECK(vf_alloc_calls() - calls0 == calls1 && vf_live_bytes() - bytes0 == bytes1,
                          "two allocators of block size %zu, set up in two ways, take different memory for a piece of %zu bytes", bs, sz);
                    keep(p, sz);
                }
                if(np > 1 && sz != prev_n) kinds = 1;
                prev_n = sz;
            }
            verify_some("later");
            if(d_chance(1, 10) && np) { PIECE* q = &pieces[d_below((u64) np)]; q->seed = d_seed(); put(q); }
        }
        verify("before the end", 0);
        if(np >= 5 && kinds && vf_live_blocks() >= 2) good = 1;
        if(vf_live_blocks() >= 30) vf_label("30 system blocks and more");
        if(d_bool() || !twinned) {
            memchunk_fini(&c);
            if(twinned) { int k, j = 0; for(k = 1; k < np; k += 2) pieces[j++] = pieces[k]; np = j; verify("after the end of the twin", 0); memchunk_fini(&twin); }
        } else {
            memchunk_fini(&twin);
            { int k, j = 0; for(k = 0; k < np; k += 2) pieces[j++] = pieces[k]; np = j; verify("after the end of the twin", 0); }
            memchunk_fini(&c);
        }
        CHECK(vf_live_blocks() == 0, "%zu blocks are left after the end", vf_live_blocks());
        TRACE("end");
        if(d_chance(1, 4)) { memchunk_fini(&c); CHECK(vf_live_blocks() == 0, "ending twice"); }
        if(rounds) vf_label("used again after the end");
        if(d_chance(1, 5)) { init(&c, bs, way); init(&twin, bs, way); }
    } while(rounds++ < 4 && d_chance(1, 3));
    if(good) vf_nontrivial();
}

#else /* VF_C37 */
const char vf_rule[] = "at least 20 pieces much smaller than the block were allocated, and an allocation failed and one succeeded afterwards, or 3 pieces were refused under a block size no memory backs";

void vf_case(void)
{
    MEMCHUNK c;
    size_t bs = draw_block_size(), real = bs ? bs : 1024, small_total = 0;
    int mode = D_WEIGHTED(3, 3, 3), small = 0, failed = 0, recovered = 0, n = 0;
    unsigned avg = d_avg();
    u64 sys = 0;
    pieces = (PIECE*) h_malloc(MAXP * sizeof(PIECE)); np = 0; total = 0;
    if(d_chance(1, 12)) { hopeless_blocks(); return; }
    memchunk_init(&c, bs);
    TRACE("block size %zu", bs);
    while(d_more(avg) && n++ < 1500 && total < (vf_profile ? 600000 : 100000)) {
        size_t lim = real / 16, sz, live0, rep = d_chance(1, 4) ? 1 + (size_t) d_below(60) : 1;
        int pure = mode == 0 || (mode == 1 && d_chance(3, 4));
        sz = pure ? (d_bool() ? (size_t) d_below(lim + 1) : (size_t) d_below(lim < 16 ? lim + 1 : 16)) : draw_size(real);
        if(mode == 2 && d_chance(1, 10)) { /* impossible or hopeless sizes */
            sz = d_bool() ? (size_t) -1 - (size_t) d_below(40) : d_bool() ? (size_t) -1 - (size_t) d_below(4 * real + 64) : ((size_t) 1 << 40) + (size_t) d_u64() / 4;
            rep = 1;
        }
        while(rep-- > 0 && np < MAXP) {
            u8* p;
            u64 f0 = vf_alloc_failures(), c0 = vf_alloc_calls();
            int hopeless = sz > (size_t) 1 << 39;
            if(mode == 2) switch(D_WEIGHTED(8, 2, 1)) {
                case 1: vf_alloc_fail_at(1 + d_below(2)); break;
                case 2: vf_alloc_fail_from(1); break;
                default: break;
            }
            live0 = vf_live_blocks();
            p = (u8*) memchunk_alloc(&c, sz);
            vf_alloc_fail_none();
            sys += vf_alloc_calls() - c0;
            TRACE("alloc %zu: %s, %zu blocks, %llu bytes held", sz, p ? "a piece" : "NULL", vf_live_blocks(), (unsigned long long) vf_live_bytes());
            if(hopeless || vf_alloc_failures() != f0) {
                CHECK(p == NULL, "a piece of %zu bytes is returned although the memory was refused", sz);
                CHECK(vf_live_blocks() == live0, "memory is taken by a failed allocation");
                failed = 1; recovered = 0;
                vf_label(hopeless ? "hopeless size" : "refused");
                verify_some("after a failure");
            } else {
                CHECK(p != NULL, "no piece of %zu bytes although no memory was refused", sz);
                if(sz <= real / 16) { small++; small_total += sz; }
                keep(p, sz);
                if(failed) recovered = 1;
                CHECK(vf_live_bytes() <= 2 * total + 2 * real + 16 * (size_t) np + 64, "%zu bytes are held for %zu bytes in %d pieces, block size %zu", vf_live_bytes(), total, np, real);
                if(mode == 0 && real >= 64) /* only pieces of up to 1/16 of a block */
                    CHECK(sys <= 1 + (2 * (u64) small_total) / real, "%llu system allocations for %d pieces of %zu bytes together, block size %zu",
                          (unsigned long long) sys, small, small_total, real);
            }
        }
        verify_some("later");
    }
    verify("before the end", 0);
    memchunk_fini(&c);
    CHECK(vf_live_blocks() == 0, "%zu blocks are left after the end", vf_live_blocks());
    if(small >= 20 && (recovered || mode != 2)) vf_nontrivial();
    if(failed && recovered) vf_label("worked again after a failure");
}
#endif
