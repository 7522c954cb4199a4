/* C51: results depend on nothing but the arguments.
 *
 * A task (see tasks.h) is run once, and then again under other surroundings:
 * what fresh memory and the stack contain, where blocks and nodes lie, how
 * data is aligned, what errno is, what the C library thinks of non-ASCII
 * letters, what the process did before, and when it is.  The digest of all
 * results must come out the same.  In addition, the library must not print,
 * read the environment or the clock, nor touch process-wide settings. */
#include "tasks.h"
#include <errno.h>
#include <ctype.h>
#include <stdarg.h>
#include <time.h>
#include <fenv.h>
#include <signal.h>

const char vf_property[] = VF_PROPERTY;
const char vf_rule[] = "a task with at least ten operations was run again with at least two of the surroundings changed";

/* ---- what the library has no business with ---- */
static int in_lib; static const char* impure;
#define NOTE(what) do { if(in_lib && impure == NULL) impure = what; } while(0)
int __real_puts(const char* s); int __wrap_puts(const char* s) { NOTE("puts"); return __real_puts(s); }
int __real_putchar(int c); int __wrap_putchar(int c) { NOTE("putchar"); return __real_putchar(c); }
int __real_fputs(const char* s, FILE* f); int __wrap_fputs(const char* s, FILE* f) { NOTE("fputs"); return __real_fputs(s, f); }
int __real_fputc(int c, FILE* f); int __wrap_fputc(int c, FILE* f) { NOTE("fputc"); return __real_fputc(c, f); }
int __real_putc(int c, FILE* f); int __wrap_putc(int c, FILE* f) { NOTE("putc"); return __real_putc(c, f); }
size_t __real_fwrite(const void* p, size_t a, size_t b, FILE* f); size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) { NOTE("fwrite"); return __real_fwrite(p, a, b, f); }
void __real_perror(const char* s); void __wrap_perror(const char* s) { NOTE("perror"); __real_perror(s); }
int __wrap_printf(const char* f, ...) { va_list a; int r; NOTE("printf"); va_start(a, f); r = vprintf(f, a); va_end(a); return r; }
int __wrap_fprintf(FILE* o, const char* f, ...) { va_list a; int r; NOTE("fprintf"); va_start(a, f); r = vfprintf(o, f, a); va_end(a); return r; }
int __wrap___printf_chk(int l, const char* f, ...) { va_list a; int r; NOTE("printf"); va_start(a, f); r = vprintf(f, a); va_end(a); return r; }
int __wrap___fprintf_chk(FILE* o, int l, const char* f, ...) { va_list a; int r; NOTE("fprintf"); va_start(a, f); r = vfprintf(o, f, a); va_end(a); return r; }
ssize_t __real_write(int fd, const void* p, size_t n); ssize_t __wrap_write(int fd, const void* p, size_t n) { NOTE("write"); return __real_write(fd, p, n); }
char* __real_getenv(const char* n); char* __wrap_getenv(const char* n) { NOTE("getenv"); return __real_getenv(n); }
char* __real_secure_getenv(const char* n); char* __wrap_secure_getenv(const char* n) { NOTE("secure_getenv"); return __real_secure_getenv(n); }
time_t __real_time(time_t* t); time_t __wrap_time(time_t* t) { NOTE("time"); return __real_time(t); }
clock_t __real_clock(void); clock_t __wrap_clock(void) { NOTE("clock"); return __real_clock(); }
int __real_clock_gettime(clockid_t c, struct timespec* t); int __wrap_clock_gettime(clockid_t c, struct timespec* t) { NOTE("clock_gettime"); return __real_clock_gettime(c, t); }
int __real_rand(void); int __wrap_rand(void) { NOTE("rand"); return __real_rand(); }
void __real_srand(unsigned n); void __wrap_srand(unsigned n) { NOTE("srand"); __real_srand(n); }
long __real_random(void); long __wrap_random(void) { NOTE("random"); return __real_random(); }
char* __real_setlocale(int c, const char* l); char* __wrap_setlocale(int c, const char* l) { NOTE("setlocale"); return __real_setlocale(c, l); }
void* __real_localeconv(void); void* __wrap_localeconv(void) { NOTE("localeconv"); return __real_localeconv(); }
FILE* __real_fopen(const char* n, const char* m); FILE* __wrap_fopen(const char* n, const char* m) { NOTE("fopen"); return __real_fopen(n, m); }
int __wrap_system(const char* c) { NOTE("system"); return -1; }
void* __real_signal(int n, void* h); void* __wrap_signal(int n, void* h) { NOTE("signal"); return __real_signal(n, h); }
char* __real_strtok(char* s, const char* d); char* __wrap_strtok(char* s, const char* d) { NOTE("strtok (which keeps a state for the whole process)"); return __real_strtok(s, d); }
void __real_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { if(in_lib) { in_lib = 0; vf_fail("the library ends the process"); } __real_exit(c); }

/* ---- a C library of another country: bytes above 127 are letters (the
 * classes overlap, as in real 8-bit locales), I and i are no pair ---- */
static unsigned short odd_b[384]; static int32_t odd_lo[384], odd_up[384]; static int odd_on;
static const unsigned short* odd_pb = odd_b + 128; static const int32_t *odd_plo = odd_lo + 128, *odd_pup = odd_up + 128;
const unsigned short** __real___ctype_b_loc(void); const int32_t** __real___ctype_tolower_loc(void); const int32_t** __real___ctype_toupper_loc(void);
const unsigned short** __wrap___ctype_b_loc(void) { return odd_on && in_lib ? &odd_pb : __real___ctype_b_loc(); }
const int32_t** __wrap___ctype_tolower_loc(void) { return odd_on && in_lib ? &odd_plo : __real___ctype_tolower_loc(); }
const int32_t** __wrap___ctype_toupper_loc(void) { return odd_on && in_lib ? &odd_pup : __real___ctype_toupper_loc(); }
static void odd_init(void)
{
    const unsigned short* b = *__real___ctype_b_loc(); const int32_t *lo = *__real___ctype_tolower_loc(), *up = *__real___ctype_toupper_loc();
    int c;
    for(c = -128; c < 256; c++) { odd_b[c + 128] = b[c]; odd_lo[c + 128] = lo[c]; odd_up[c + 128] = up[c]; }
    for(c = 128; c < 256; c++) {
        int u = c >= 0xC0 && c < 0xE0, l = c >= 0xE0, k;
        unsigned short m = (unsigned short) (c == 0xA0 ? _ISspace : c < 0xC0 ? _ISpunct | _ISprint | _ISgraph : _ISalpha | _ISalnum | _ISprint | _ISgraph | (u ? _ISupper : _ISlower));
        for(k = 0; k < 2; k++) { int i = k ? c : c - 256; if(i == -1) continue; odd_b[i + 128] = m; odd_lo[i + 128] = u ? c + 32 : c; odd_up[i + 128] = l ? c - 32 : c; }
    }
    odd_lo['I' + 128] = 0xFD; odd_up['i' + 128] = 0xDD;
}

/* ---- surroundings ---- */
static struct { u64 s; int stack, stackfill, err, before; TASK* other; } env;
static __attribute__((noinline)) void dirt(int byte)
{
    volatile u8 a[6000];
    size_t i;
    for(i = 0; i < sizeof(a); i++) a[i] = (u8) byte;
#ifdef VF_MSAN
    { extern void __msan_allocated_memory(const volatile void*, size_t); __msan_allocated_memory(a, sizeof(a)); }
#endif
}
static void disturb(void)
{
    static const int e[] = { 0, ERANGE, ENOMEM, EINVAL, EINTR, EDOM, 9999, -1 };
    if(env.stack) dirt(env.stackfill);
    if(env.err) errno = e[vf_next(&env.s) % 8];
}
/* In a callback: of the harness, not of the library. */
static void within(void) { int k = in_lib; in_lib = 0; disturb(); in_lib = k; }

static void run(TASK* t)
{
    fenv_t fe;
    int round = fegetround();
    disturb(); in_lib = 1; t_begin(t); in_lib = 0;
    while(t->at < t->steps) {
        disturb();
        in_lib = 1; t_step(t); in_lib = 0;
        if(env.other && env.other->at < env.other->steps) { in_lib = 1; t_step(env.other); in_lib = 0; }
        if(impure) break;
    }
    in_lib = 1; t_end(t); in_lib = 0;
    CHECK(impure == NULL, "the library calls %s (in a %s)", impure, t_name[t->kind]);
    CHECK(fegetround() == round, "the rounding mode is another one afterwards");
    (void) fe;
}

void vf_case(void)
{
    static int ready;
    int i, rounds, kind = (int) d_below(T_COUNT);
    TASK* t; TASK* o;
    u64 seed = d_seed(), want;
    size_t steps = (size_t) d_below(d_chance(1, 4) ? 200 : 40);
    char b[60];
    if(!ready) { odd_init(); ready = 1; }
    in_lib = 0; impure = NULL; odd_on = 0; nested = NULL; memset(&env, 0, sizeof(env));
    t = (TASK*) h_calloc(sizeof(TASK));
    t->kind = kind; t->seed = seed; t->steps = steps;
    TRACE("%s, seed %llu, %zu steps", t_name[kind], (unsigned long long) seed, steps);
    nested = within;
    run(t);
    want = t->d;
    rounds = 1 + (int) d_below(2);
    for(i = 0; i < rounds; i++) {
        int changed = 0;
        size_t gap = 0;
        memset(&env, 0, sizeof(env));
        env.s = seed ^ (u64) i; o = NULL;
        if(d_bool()) { u8 f = (u8) d_below(256); vf_alloc_fill(f); changed++; TRACE("fresh memory is filled with %02x", f); }
        if(d_bool()) { env.stack = 1; env.stackfill = (int) d_below(256); changed++; TRACE("the stack is filled with %02x", env.stackfill); }
        if(d_bool()) { vf_alloc_scatter(1 + d_seed()); changed++; TRACE("blocks are scattered"); } else vf_alloc_scatter(0);
        if(d_bool()) { env.err = 1; changed++; TRACE("errno varies"); }
        odd_on = d_bool(); if(odd_on) { changed++; TRACE("letters beyond ASCII"); }
        gap = d_bool() ? (size_t) d_below(5000) : 0;
        if(gap) h_malloc(gap);
        t = (TASK*) h_calloc(sizeof(TASK));
        t->kind = kind; t->seed = seed; t->steps = steps;
        t->flip = d_bool(); if(t->flip) { changed++; TRACE("nodes in the opposite order"); }
        t->fresh = d_bool(); if(t->fresh) { changed++; TRACE("texts and tables at new places"); }
        t->shift = d_bool() ? (unsigned) d_below(17) : 0; if(t->shift) { changed++; TRACE("data is %u bytes further on", t->shift); }
        if(d_chance(1, 3)) {
            o = (TASK*) h_calloc(sizeof(TASK));
            o->kind = d_bool() ? kind : (int) d_below(T_COUNT); o->seed = d_seed(); o->steps = (size_t) d_below(60);
            TRACE("with a %s before and between, seed %llu, %zu steps", t_name[o->kind], (unsigned long long) o->seed, o->steps);
            in_lib = 1; t_begin(o); while(o->at < o->steps / 2) t_step(o); in_lib = 0;
            env.other = o; changed++;
        }
        run(t);
        if(o) { in_lib = 1; t_end(o); in_lib = 0; }
        CHECK(t->d == want, "the same operations on a %s give other results under other surroundings (seed %llu, %zu steps)", t_name[kind], (unsigned long long) seed, steps);
        if(changed >= 2 && steps >= 10) vf_nontrivial();
    }
    snprintf(b, sizeof(b), "a %s", t_name[kind]);
    vf_label(b);
}
