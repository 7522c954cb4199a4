/* C33-C34: checksums. */
#include "pbt.h"
#include "crc32.h"
#include "fnv1a.h"
#include "huge.h"

const char vf_property[] = VF_PROPERTY;

static size_t draw_n(void)
{
    switch(D_WEIGHTED(5, 4, 2)) {
        case 0: return (size_t) d_below(40);
        case 1: return (size_t) d_below(600);
        default: return d_size(vf_profile ? 200000 : 5000);
    }
}
/* A block at any alignment; its end is the end of the heap block, and what is before it varies. */
static u8* draw_block(size_t n, u8** base)
{
    size_t off = (size_t) d_below(17);
    u8* b = (u8*) h_malloc(n + off ? n + off : 1);
    memset(b, (int) d_below(256), off);
    if(n <= 24) d_fill(b + off, n);
    else { u64 s = d_seed(); size_t i; int way = (int) d_below(4); u8 c = (u8) d_below(256);
        for(i = 0; i < n; i++) b[off + i] = way < 2 ? (u8) vf_next(&s) : way == 2 ? c : (u8) (c + i); }
    *base = b;
    return b + off;
}

#ifdef VF_C33
const char vf_rule[] = "a block of at least 8 bytes was checked, with a second copy of it elsewhere";

static u32 bitwise(u32 reg, const u8* p, size_t n)
{
    int k;
    while(n-- > 0) { reg ^= *p++; for(k = 0; k < 8; k++) reg = reg & 1 ? reg >> 1 ^ 0xEDB88320u : reg >> 1; }
    return reg;
}
/* The register after n zero bytes: a linear map, applied by repeated squaring. */
static u32 mat_apply(const u32* m, u32 x) { u32 r = 0; int i; for(i = 0; i < 32; i++) if(x >> i & 1) r ^= m[i]; return r; }
static u32 zeros(u32 reg, u64 n)
{
    u32 m[32], t[32];
    int i;
    static const u8 z = 0;
    for(i = 0; i < 32; i++) m[i] = bitwise(1u << i, &z, 1);
    for(; n; n >>= 1) {
        if(n & 1) reg = mat_apply(m, reg);
        for(i = 0; i < 32; i++) t[i] = mat_apply(m, m[i]);
        memcpy(m, t, sizeof(m));
    }
    return reg;
}

static void giant(void)
{
    size_t n = ((size_t) 1 << (d_chance(1, 4) ? 31 : 32)) + (size_t) d_below(64), at[6], i, pos = 0;
    u8* p = (u8*) huge(n);
    u32 reg = 0xFFFFFFFFu, got;
    for(i = 0; i < 6; i++) at[i] = n / 6 * i + (size_t) d_below(n / 6);
    at[5] = n - 1;
    for(i = 0; i < 6; i++) { p[at[i]] = 1 + (u8) d_below(255); reg = zeros(reg, at[i] - pos); reg = bitwise(reg, p + at[i], 1); pos = at[i] + 1; }
    reg = zeros(reg, n - pos);
    TRACE("a block of %zu bytes", n);
    got = crc32(p, n);
    CHECK(got == ~reg, "the crc of %zu bytes is %08x and should be %08x", n, got, ~reg);
    munmap(p, n);
    vf_label(n >> 32 ? "4 GB and more" : "2 GB and more");
    vf_nontrivial();
}

void vf_case(void)
{
    int done = 0;
    if(vf_profile == 2) { giant(); return; }
    do {
        size_t n = draw_n();
        u8* base, *base2;
        u8* p = draw_block(n, &base), *q, *copy = (u8*) h_dup(p, n);
        u32 want = ~bitwise(0xFFFFFFFFu, p, n), got = crc32(p, n);
        size_t off = (size_t) d_below(17);
        TRACE("%zu bytes %s: %08x", n, vf_hex(p, n), got);
        CHECK(got == want, "the crc of %zu bytes %s is %08x and should be %08x", n, vf_hex(p, n), got, want);
        CHECK(memcmp(p, copy, n) == 0, "the data were modified");
        base2 = (u8*) h_malloc(n + off ? n + off : 1);
        memset(base2, 0xA7, n + off);
        q = base2 + off;
        memcpy(q, copy, n);
        CHECK(crc32(q, n) == want, "the crc of %zu bytes depends on where they are", n);
        if(n >= 8) done = 1;
        h_free(base); h_free(base2); h_free(copy);
    } while(d_more(3));
    if(done) vf_nontrivial();
}

#else /* VF_C34 */
const char vf_rule[] = "a block of at least 8 bytes was hashed in one and in several pieces";

static u32 ref32(u32 h, const u8* p, size_t n) { while(n-- > 0) h = (u32) ((u64) (h ^ *p++) * 16777619u); return h; }
static u64 ref64(u64 h, const u8* p, size_t n) { while(n-- > 0) h = (h ^ *p++) * 1099511628211ull; return h; }
static u64 ipow(u64 b, u64 e) { u64 r = 1; for(; e; e >>= 1) { if(e & 1) r *= b; b *= b; } return r; }

static void giant(void)
{
    size_t n = ((size_t) 1 << (d_chance(1, 4) ? 31 : 32)) + (size_t) d_below(64), at[6], i, pos = 0;
    u8* p = (u8*) huge(n);
    u64 h32 = FNV1A_BASE_32, h64 = FNV1A_BASE_64;
    for(i = 0; i < 6; i++) at[i] = n / 6 * i + (size_t) d_below(n / 6);
    at[5] = n - 1;
    for(i = 0; i < 6; i++) {
        p[at[i]] = 1 + (u8) d_below(255);
        h32 = (u32) (h32 * ipow(16777619u, at[i] - pos)); h32 = (u32) ((h32 ^ p[at[i]]) * 16777619u);
        h64 = h64 * ipow(1099511628211ull, at[i] - pos); h64 = (h64 ^ p[at[i]]) * 1099511628211ull;
        pos = at[i] + 1;
    }
    TRACE("a block of %zu bytes", n);
    CHECK(fnv1a_32(FNV1A_BASE_32, p, n) == (u32) h32, "the 32-bit hash of %zu bytes is wrong", n);
    CHECK(fnv1a_64(FNV1A_BASE_64, p, n) == h64, "the 64-bit hash of %zu bytes is wrong", n);
    munmap(p, n);
    vf_label(n >> 32 ? "4 GB and more" : "2 GB and more");
    vf_nontrivial();
}

void vf_case(void)
{
    int done = 0;
    if(vf_profile == 2) { giant(); return; }
    CHECK(FNV1A_BASE_32 == 2166136261u && FNV1A_BASE_64 == 14695981039346656037ull, "the initial states are not the standard ones");
    do {
        size_t n = draw_n(), pos = 0;
        u8* base;
        u8* p = draw_block(n, &base), *copy = (u8*) h_dup(p, n);
        u32 s32 = d_chance(1, 3) ? FNV1A_BASE_32 : (u32) d_u64(), w32 = ref32(s32, p, n), g32 = fnv1a_32(s32, p, n), h32 = s32;
        u64 s64 = d_chance(1, 3) ? FNV1A_BASE_64 : d_u64(), w64 = ref64(s64, p, n), g64 = fnv1a_64(s64, p, n), h64 = s64;
        int pieces = 0;
        TRACE("%zu bytes %s from %08x, %016llx", n, vf_hex(p, n), s32, (unsigned long long) s64);
        CHECK(g32 == w32, "the 32-bit hash of %zu bytes %s from %08x is %08x and should be %08x", n, vf_hex(p, n), s32, g32, w32);
        CHECK(g64 == w64, "the 64-bit hash of %zu bytes %s from %016llx is %016llx and should be %016llx", n, vf_hex(p, n), (unsigned long long) s64, (unsigned long long) g64, (unsigned long long) w64);
        CHECK(memcmp(p, copy, n) == 0, "the data were modified");
        CHECK(fnv1a_32(s32, p, 0) == s32 && fnv1a_64(s64, p, 0) == s64, "an empty block changes the state");
        while(pos < n && pieces < 30) {
            size_t k = d_bool() ? (size_t) d_below(9) : (size_t) d_below(n - pos + 1);
            u8* piece;
            if(k > n - pos) k = n - pos;
            piece = (u8*) h_dup(p + pos, k);
            h32 = fnv1a_32(h32, piece, k); h64 = fnv1a_64(h64, piece, k);
            h_free(piece);
            pos += k; pieces++;
        }
        h32 = fnv1a_32(h32, p + pos, n - pos); h64 = fnv1a_64(h64, p + pos, n - pos);
        CHECK(h32 == w32 && h64 == w64, "hashing %zu bytes in pieces gives another hash", n);
        if(n >= 8 && pieces >= 2) done = 1;
        h_free(base); h_free(copy);
    } while(d_more(3));
    if(done) vf_nontrivial();
}
#endif
