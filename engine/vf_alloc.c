/* The heap as the code under test sees it.  Linked with
 *   -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,...
 * Every block handed out is registered, so that leaks, foreign frees, memory
 * bounds and allocation failures are all observable and controllable. */
#define _GNU_SOURCE
#include "pbt.h"
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void  __real_free(void*);

void* __wrap_malloc(size_t);
void* __wrap_calloc(size_t, size_t);
void* __wrap_realloc(void*, size_t);
void* __wrap_reallocarray(void*, size_t, size_t);
void  __wrap_free(void*);
char* __wrap_strdup(const char*);
char* __wrap_strndup(const char*, size_t);
void* __wrap_aligned_alloc(size_t, size_t);
int   __wrap_posix_memalign(void**, size_t, size_t);

void vf_alloc_case_begin(u64 key);
const char* vf_alloc_case_end(void);

typedef struct { void* p; size_t n; } ENT;
static ENT* tab; static size_t cap, cnt;
static int active;
static size_t live_bytes, peak_bytes, mem_cap;
static u64 moved, calls, frees, failures, attempts_, cap_hits;
static u64 fail_at, fail_from; static size_t fail_over = (size_t) -1;
static u8 fill_byte;

#define DEFAULT_CAP  ((size_t) 1 << 30)

static size_t slot(const void* p) { return (size_t) (vf_mix((u64) (uintptr_t) p) & (cap - 1)); }

static void reg(void* p, size_t n)
{
    size_t i;
    if((cnt + 1) * 2 > cap) {
        size_t oc = cap, j; ENT* old = tab;
        cap = cap ? cap * 2 : 1024;
        tab = (ENT*) __real_calloc(cap, sizeof(ENT));
        for(j = 0; j < oc; j++) if(old[j].p) {
            i = slot(old[j].p);
            while(tab[i].p) i = (i + 1) & (cap - 1);
            tab[i] = old[j];
        }
        __real_free(old);
    }
    i = slot(p);
    while(tab[i].p) i = (i + 1) & (cap - 1);
    tab[i].p = p;
    tab[i].n = n;
    cnt++;
    live_bytes += n;
    if(live_bytes > peak_bytes) peak_bytes = live_bytes;
}

static ENT* find(const void* p)
{
    size_t i;
    if(cap == 0 || cnt == 0) return NULL;
    i = slot(p);
    while(tab[i].p) {
        if(tab[i].p == p) return &tab[i];
        i = (i + 1) & (cap - 1);
    }
    return NULL;
}

static void unreg(ENT* e)
{
    size_t i = (size_t) (e - tab), j;
    live_bytes -= e->n;
    tab[i].p = NULL;
    cnt--;
    for(j = (i + 1) & (cap - 1); tab[j].p; j = (j + 1) & (cap - 1)) {
        ENT m = tab[j];
        size_t k = slot(m.p);
        tab[j].p = NULL;
        while(tab[k].p) k = (k + 1) & (cap - 1);
        tab[k] = m;
    }
}

/* Whether this allocation is to be refused. */
static int refuse(size_t n, size_t releasing)
{
    calls++;
    attempts_++;
    if((fail_at != 0 && attempts_ == fail_at) || (fail_from != 0 && attempts_ >= fail_from) || n > fail_over) {
        failures++;
        errno = ENOMEM;
        return 1;
    }
    if(n > mem_cap || live_bytes - releasing > mem_cap - n) {
        failures++;
        cap_hits++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

/* Without a sanitizer, a few bytes behind each block show a write past its end. */
#define GUARD  16
static const u8 guard_bytes[GUARD] = { 0xB1, 0x7E, 0xC3, 0x5D, 0x99, 0x2A, 0xE7, 0x41, 0xB1, 0x7E, 0xC3, 0x5D, 0x99, 0x2A, 0xE7, 0x41 };
static void guard_set(void* p, size_t n) { if(!vf_sanitized) memcpy((u8*) p + n, guard_bytes, GUARD); }
static void guard_check(const ENT* e)
{
    if(!vf_sanitized && memcmp((const u8*) e->p + e->n, guard_bytes, GUARD) != 0)
        vf_fail("memory behind the end of a heap block of %zu bytes was overwritten", e->n);
}
static size_t padded(size_t n) { return vf_sanitized ? (n ? n : 1) : n + GUARD; }

/* Optionally all blocks lie in one region, which can be write-protected as a whole. */
#define ARENA  ((size_t) 24 << 20)
static char* arena; static size_t arena_off; static int arena_on, arena_ro;
static int in_arena(const void* p) { return arena != NULL && (const char*) p >= arena && (const char*) p < arena + ARENA; }
static void* arena_get(size_t n)
{
    void* p;
    n = (n + 15) & ~(size_t) 15;
    if(n > ARENA - arena_off) return NULL;
    p = arena + arena_off;
    arena_off += n;
    return p;
}
static void release(void* p) { if(!in_arena(p)) __real_free(p); }

/* Blocks in no particular order: one of a few of the same size is taken. */
static u64 scatter; static int scatter_on;
static void* scattered(size_t n)
{
    void* c[4]; unsigned k, m = 1 + (unsigned) (vf_next(&scatter) % 4), pick;
    for(k = 0; k < m; k++) if((c[k] = __real_malloc(padded(n) + (size_t) (vf_next(&scatter) % 3) * 16)) == NULL) break;
    if(k == 0) return NULL;
    pick = (unsigned) (vf_next(&scatter) % k);
    while(k-- > 0) if(k != pick) __real_free(c[k]);
    return c[pick];
}

/* Big pages for huge blocks: the test is over sooner. */
static void big_pages(void* p, size_t n)
{
    if(p != NULL && n > ((size_t) 256 << 20)) {
        uintptr_t a = ((uintptr_t) p + 4095) & ~(uintptr_t) 4095, e = ((uintptr_t) p + n) & ~(uintptr_t) 4095;
        int keep = errno;
        madvise((void*) a, e - a, MADV_HUGEPAGE);
        errno = keep;
    }
}

static void* get(size_t n, int zero)
{
    int here = arena_on && !arena_ro;
    void* p = here ? arena_get(padded(n)) : zero ? __real_calloc(padded(n), 1) : scatter_on && n <= 4096 ? scattered(n) : __real_malloc(padded(n));
    if(here && zero && p != NULL) memset(p, 0, n);
    if(p == NULL) {
        failures++;
        cap_hits++;
        return NULL;
    }
    big_pages(p, n);
    guard_set(p, n);
#ifndef VF_MSAN
    if(!zero && n <= (1u << 16))
        memset(p, fill_byte, n);
#endif
    reg(p, n);
    return p;
}

void* __wrap_malloc(size_t n)
{
    if(!active) return __real_malloc(n);
    if(refuse(n, 0)) return NULL;
    return get(n, 0);
}

void* __wrap_calloc(size_t a, size_t b)
{
    size_t n;
    if(!active) return __real_calloc(a, b);
    if(__builtin_mul_overflow(a, b, &n)) { calls++; attempts_++; failures++; errno = ENOMEM; return NULL; }
    if(refuse(n, 0)) return NULL;
    moved += n;
    return get(n, 1);
}

void __wrap_free(void* p)
{
    ENT* e;
    if(!active || p == NULL) { __real_free(p); return; }
    frees++;
    e = find(p);
    if(e == NULL) {
        /* Not ours: the sanitizer (or libc) judges it. */
        if(!vf_sanitized)
            vf_fail("free() of %p, which is not a live heap block of the code under test", p);
        __real_free(p);
        return;
    }
    guard_check(e);
    if(!vf_sanitized && e->n <= (1u << 16))
        memset(p, 0xDD, e->n);
    unreg(e);
    release(p);
}

void* __wrap_realloc(void* p, size_t n)
{
    ENT* e;
    size_t old;
    void* q;
    if(!active) return __real_realloc(p, n);
    if(p == NULL) return __wrap_malloc(n);
    e = find(p);
    if(e == NULL) {
        if(!vf_sanitized)
            vf_fail("realloc() of %p, which is not a live heap block of the code under test", p);
        return __real_realloc(p, n);
    }
    old = e->n;
    if(n == 0) {
        /* as glibc */
        calls++; attempts_++;
        __wrap_free(p);
        return NULL;
    }
    if(refuse(n, old)) return NULL;
    moved += old < n ? old : n;
    if(old > (1u << 20) && !in_arena(p)) {
        guard_check(e);
        q = __real_realloc(p, padded(n));
        if(q == NULL) { failures++; cap_hits++; return NULL; }
        if(n > old) big_pages(q, n);
        guard_set(q, n);
        e = find(p);
        if(e) unreg(e);
        reg(q, n);
        return q;
    }
    /* always move, so that stale pointers are stale */
    q = get(n, 0);
    if(q == NULL) return NULL;
    memcpy(q, p, old < n ? old : n);
    e = find(p);
    if(e) guard_check(e);
    if(!vf_sanitized && old <= (1u << 16)) memset(p, 0xDD, old);
    if(e) unreg(e);
    release(p);
    return q;
}

void* __wrap_reallocarray(void* p, size_t a, size_t b)
{
    size_t n;
    if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return __wrap_realloc(p, n);
}

char* __wrap_strdup(const char* s)
{
    size_t n = strlen(s) + 1;
    char* p = (char*) __wrap_malloc(n);
    if(p) memcpy(p, s, n);
    return p;
}

char* __wrap_strndup(const char* s, size_t m)
{
    size_t n = strnlen(s, m);
    char* p = (char*) __wrap_malloc(n + 1);
    if(p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}

int __wrap_posix_memalign(void** out, size_t al, size_t n)
{
    void* p;
    (void) al;
    p = __wrap_malloc(n);
    if(p == NULL) return ENOMEM;
    *out = p;
    return 0;
}

void* __wrap_aligned_alloc(size_t al, size_t n) { (void) al; return __wrap_malloc(n); }

void vf_tracked_free(void* p) { __wrap_free(p); }

void vf_alloc_case_begin(u64 key)
{
    static const u8 fills[4] = { 0xA5, 0x00, 0xFF, 0x5A };
    (void) key;
    if(cnt != 0 || cap > 65536) {
        __real_free(tab);
        tab = NULL; cap = cnt = 0;
    }
    if(arena_on) vf_arena(0);
    live_bytes = peak_bytes = 0;
    scatter_on = 0;
    moved = calls = frees = failures = attempts_ = cap_hits = 0;
    fail_at = fail_from = 0;
    fail_over = (size_t) -1;
    mem_cap = DEFAULT_CAP;
    active = 1;
    fill_byte = fills[d_below(4)];
}

const char* vf_alloc_case_end(void)
{
    static char msg[160];
    active = 0;
    if(cnt == 0)
        return NULL;
    snprintf(msg, sizeof(msg), "memory leak: %zu blocks (%zu bytes) are still allocated after everything was released", cnt, live_bytes);
    return msg;
}

/* For several threads at once: blocks are not tracked meanwhile (all of them have to be freed meanwhile). */
void vf_alloc_pause(int on) { active = !on; }

void vf_arena(int on)
{
    if(on && arena == NULL) {
        arena = (char*) mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(arena == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(3); }
    }
    if(arena != NULL) vf_arena_protect(0);
    arena_on = on;
    arena_off = 0;
}
void* vf_arena_place(size_t n)
{
    void* p = arena_get(n ? n : 1);
    if(p == NULL) vf_fail("the region is full");
    return p;
}
void vf_arena_protect(int on)
{
    if(mprotect(arena, ARENA, on ? PROT_READ : PROT_READ | PROT_WRITE) != 0) { fprintf(stderr, "mprotect\n"); exit(3); }
    arena_ro = on;
}
const void* vf_arena_image(size_t* n) { *n = arena_off; return arena; }

size_t vf_live_blocks(void) { return cnt; }
size_t vf_live_bytes(void) { return live_bytes; }
size_t vf_peak_bytes(void) { return peak_bytes; }
void   vf_peak_reset(void) { peak_bytes = live_bytes; }
u64    vf_alloc_calls(void) { return calls; }
u64    vf_free_calls(void) { return frees; }
void   vf_alloc_fill(u8 byte) { fill_byte = byte; }
void   vf_alloc_scatter(u64 seed) { scatter = seed; scatter_on = seed != 0; }
u64    vf_alloc_moved(void) { return moved; }
size_t vf_block_size(const void* p) { ENT* e = find(p); return e ? e->n : (size_t) -1; }
int vf_within(const void* p, size_t n)
{
    size_t i;
    for(i = 0; i < cap; i++)
        if(tab[i].p && (const char*) p >= (char*) tab[i].p && (size_t) ((const char*) p - (char*) tab[i].p) <= tab[i].n && n <= tab[i].n - (size_t) ((const char*) p - (char*) tab[i].p)) return 1;
    return 0;
}
void   vf_alloc_fail_at(u64 k) { fail_at = k; fail_from = 0; attempts_ = 0; }
void   vf_alloc_fail_from(u64 k) { fail_from = k; fail_at = 0; attempts_ = 0; }
void   vf_alloc_fail_over(size_t n) { fail_over = n; attempts_ = 0; }
void   vf_alloc_fail_none(void) { fail_at = fail_from = 0; fail_over = (size_t) -1; attempts_ = 0; }
u64    vf_alloc_failures(void) { return failures; }
u64    vf_alloc_attempts(void) { return attempts_; }
void   vf_mem_cap(size_t n) { mem_cap = n; }
u64    vf_cap_hits(void) { return cap_hits; }
