/* A small property-based-testing engine.
 *
 * Every random decision of a case goes through the d_*() functions and is
 * recorded as a sequence of 64-bit choices.  A case is therefore a pure
 * function of that sequence: it can be replayed, and it is shrunk by deleting
 * and lowering choices (an exhausted sequence yields zeros, so simpler
 * sequences mean simpler cases).
 */
#ifndef VF_PBT_H
#define VF_PBT_H

#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

typedef uint64_t u64;
typedef int64_t  i64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t  u8;

/* ---- what a harness provides ---- */
extern const char vf_property[];       /* property id */
extern const char vf_rule[];           /* what makes a case non-trivial */
void vf_case(void);

/* ---- profile of the run: 0 normal, 1 deep (bigger cases), 2 giant ---- */
extern int vf_profile;
extern int vf_sanitized;               /* 1 in address-sanitizer builds */

/* ---- draws ---- */
u64  d_below(u64 n);                   /* 0 .. n-1 (n == 0 is treated as 1) */
u64  d_bits(void);                     /* any 64-bit value, uniform */
u64  d_range(u64 lo, u64 hi);          /* lo .. hi inclusive, shrinks to lo */
i64  d_irange(i64 lo, i64 hi);
int  d_bool(void);
int  d_chance(unsigned num, unsigned den);   /* true with p = num/den; shrinks to false */
int  d_more(unsigned avg);             /* loop guard: about avg iterations on average */
size_t d_size(size_t max);             /* 0 .. max, biased to boundaries */
u64  d_u64(void);                      /* any 64-bit, biased to boundaries */
int  d_weighted(const unsigned* w, int n);
#define D_WEIGHTED(...) d_weighted((const unsigned[]){__VA_ARGS__}, (int)(sizeof((const unsigned[]){__VA_ARGS__}) / sizeof(unsigned)))
unsigned d_avg(void);                  /* an average length for an operation history */
void d_fill(void* p, size_t n);        /* content of a block */
u64  d_seed(void);                     /* a 32-bit seed for content derived by mix() */
double d_double(void);                 /* any finite double, biased to boundaries */

u64 vf_mix(u64 x);                     /* stateless hash, for derived content */
static inline u64 vf_next(u64* s) { *s += 0x9E3779B97F4A7C15ull; return vf_mix(*s); }

/* ---- verdicts and observations ---- */
void vf_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define CHECK(cond, ...) do { if(!(cond)) vf_fail_at(__FILE__, __LINE__, #cond, __VA_ARGS__); } while(0)
void vf_fail_at(const char* file, int line, const char* cond, const char* fmt, ...)
        __attribute__((format(printf, 4, 5), noreturn));
void vf_label(const char* name);       /* classify the case (counted once per case) */
void vf_nontrivial(void);              /* the case is non-trivial by vf_rule */
extern int vf_tracing;
void vf_trace_(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define TRACE(...) do { if(vf_tracing) vf_trace_(__VA_ARGS__); } while(0)
const char* vf_hex(const void* p, size_t n);    /* short printable rendering (rotating static buffers) */

/* ---- memory of the harness itself: released at the end of the case ---- */
void* h_malloc(size_t n);
void* h_calloc(size_t n);
void* h_realloc(void* p, size_t n);
void  h_free(void* p);
void* h_dup(const void* p, size_t n);  /* exact-size copy (n == 0: a valid 1-byte block) */

/* ---- the heap the code under test sees (linked with -Wl,--wrap=malloc ...) ---- */
size_t vf_live_blocks(void);
size_t vf_live_bytes(void);
size_t vf_peak_bytes(void);
void   vf_peak_reset(void);
u64    vf_alloc_calls(void);           /* malloc + calloc + realloc calls so far in the case */
u64    vf_free_calls(void);
u64    vf_alloc_moved(void);           /* bytes that realloc() had to copy or calloc() to clear */
size_t vf_block_size(const void* p);   /* (size_t)-1: not a live block */
int    vf_within(const void* p, size_t n);     /* [p, p+n) lies in one live block (slow) */
void   vf_alloc_fail_at(u64 k);        /* the k-th allocation from now (1-based) fails, once */
void   vf_alloc_fail_from(u64 k);      /* it and every later one fail */
void   vf_alloc_fail_over(size_t n);   /* any request larger than n bytes fails; (size_t)-1: none */
void   vf_alloc_fail_none(void);
u64    vf_alloc_failures(void);        /* how many allocations were refused in this case */
u64    vf_alloc_attempts(void);        /* like vf_alloc_calls, since the last vf_alloc_fail_*() */
void   vf_mem_cap(size_t bytes);       /* live bytes beyond which requests are refused (per case) */
u64    vf_cap_hits(void);              /* requests refused because of that cap */
void   vf_tracked_free(void* p);       /* free() as the code under test sees it */

void   vf_alloc_fill(u8 byte);         /* what new blocks are filled with */
void   vf_alloc_scatter(u64 seed);     /* addresses of new blocks in no particular order; 0: as usual */
void   vf_alloc_pause(int on);         /* while other threads run: nothing is tracked */

/* While it is on, all blocks lie in one region (until the case ends). */
void   vf_arena(int on);
void*  vf_arena_place(size_t n);       /* an object of the harness in there; not tracked, never released */
void   vf_arena_protect(int on);       /* the region is read-only; new blocks lie elsewhere */
const void* vf_arena_image(size_t* n); /* what of it is in use */

#endif
