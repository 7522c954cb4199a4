#define _GNU_SOURCE
#include "pbt.h"
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
extern const u64* const vf_dict;        /* generated: literals of the code under test */
extern const int vf_dict_n;

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void  __real_free(void*);

void vf_alloc_case_begin(u64 key);
const char* vf_alloc_case_end(void);

int vf_profile = 0;
int vf_tracing = 0;
int vf_sanitized = VF_SAN;

/***************** shared state *****************/

#define MAXCH      (1u << 18)
#define MAXLABEL   96
#define LABELLEN   56
#define TRACELEN   (1u << 16)
#define MAXNT      32

typedef struct SHM {
    volatile u64 cur;            /* index of the case being run */
    volatile u64 done;           /* cases finished */
    volatile int stop;
    u32 nch;
    u64 ch[MAXCH];
    char msg[2048];
    char labels[MAXLABEL][LABELLEN];
    u64 label_n[MAXLABEL];
    int nlabels;
    u64 nontriv;
    u64 distinct;
    u64 nt_idx[MAXNT];           /* some non-trivial cases, for samples */
    int nt_n;
    u32 tracelen;
    char trace[TRACELEN];
    int nt_flag;
} SHM;

static SHM* S;                   /* of the running process */

/***************** sources of choices *****************/

enum { SRC_RNG, SRC_REPLAY, SRC_BYTES };
static int src;
static u64 rng_s[2];
static const u64* rep; static size_t rep_n, rep_i;
static const u8* byt; static size_t byt_n, byt_i;

u64 vf_mix(u64 x)
{
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 27; x *= 0x94D049BB133111EBull;
    x ^= x >> 31;
    return x;
}

static u64 rng_next(void)
{
    u64 a = rng_s[0], b = rng_s[1], r = a + b;
    b ^= a;
    rng_s[0] = ((a << 55) | (a >> 9)) ^ b ^ (b << 14);
    rng_s[1] = (b << 36) | (b >> 28);
    return vf_mix(r);
}

static inline u64 record(u64 v)
{
    if(S->nch >= MAXCH)
        return 0;                /* out of room: same as an exhausted replay */
    S->ch[S->nch++] = v;
    return v;
}

u64 d_below(u64 n)
{
    u64 v = 0;
    if(n <= 1)
        return 0;
    if(S->nch >= MAXCH)
        return 0;
    switch(src) {
        case SRC_RNG:
            v = (n <= 0xffffffffull) ? (u64) (((rng_next() >> 32) * n) >> 32)
                                     : rng_next() % n;
            break;
        case SRC_REPLAY:
            v = (rep_i < rep_n) ? rep[rep_i++] % n : 0;
            break;
        case SRC_BYTES: {
            u64 m = n - 1;
            while(m > 0) {
                v = (v << 8) | (byt_i < byt_n ? byt[byt_i++] : 0);
                m >>= 8;
            }
            v %= n;
            break;
        }
    }
    return record(v);
}

u64 d_bits(void)
{
    u64 v = 0;
    if(S->nch >= MAXCH)
        return 0;
    switch(src) {
        case SRC_RNG: v = rng_next(); break;
        case SRC_REPLAY: v = (rep_i < rep_n) ? rep[rep_i++] : 0; break;
        case SRC_BYTES: {
            int i;
            for(i = 0; i < 8; i++)
                v = (v << 8) | (byt_i < byt_n ? byt[byt_i++] : 0);
            break;
        }
    }
    return record(v);
}

u64 d_range(u64 lo, u64 hi)
{
    if(hi <= lo) return lo;
    if(lo == 0 && hi == UINT64_MAX) return d_bits();
    return lo + d_below(hi - lo + 1);
}

i64 d_irange(i64 lo, i64 hi)
{
    return (i64) ((u64) lo + d_range(0, (u64) hi - (u64) lo));
}

int d_bool(void) { return (int) d_below(2); }

int d_chance(unsigned num, unsigned den)
{
    /* shrinks towards false */
    return d_below(den) >= den - num;
}

int d_more(unsigned avg)
{
    u64 v = 0;
    if(S->nch >= MAXCH)
        return 0;
    switch(src) {
        case SRC_RNG: v = (rng_next() >> 33) % (avg + 1u) != 0; break;
        case SRC_REPLAY: v = (rep_i < rep_n) ? (rep[rep_i++] & 1) : 0; break;
        case SRC_BYTES: v = (byt_i < byt_n) ? (byt[byt_i++] != 0) : 0; break;
    }
    return (int) record(v);
}

int d_weighted(const unsigned* w, int n)
{
    u64 sum = 0, v;
    int i;
    for(i = 0; i < n; i++) sum += w[i];
    v = d_below(sum);
    for(i = 0; i < n; i++) {
        if(v < w[i]) return i;
        v -= w[i];
    }
    return n - 1;
}

static u64 dict_value(void)
{
    u64 v = vf_dict[d_below((u64) vf_dict_n)];
    switch(d_below(6)) {
        case 0: case 1: return v;
        case 2: return v - 1;
        case 3: return v + 1;
        case 4: return v * 2 + d_below(3) - 1;
        default: return v / 2 + d_below(3) - 1;
    }
}

size_t d_size(size_t max)
{
    u64 v;
    int k, bits = 0;
    while(bits < 64 && (bits == 63 ? (max >> 63) : (max >> bits)) != 0) bits++;
    switch(d_weighted((const unsigned[]){5, 4, 3, 3, 3, 2, 1}, 7)) {
        case 0: v = d_below(9); break;
        case 1: v = d_below(65); break;
        case 2:
            k = (int) d_below((u64) bits + 1);
            v = (k >= 64 ? 0 : (1ull << k)) + d_below(5) - 2;
            break;
        case 3: v = dict_value(); break;
        case 4:
            k = (int) d_below((u64) bits + 1);
            v = d_below(k >= 64 ? UINT64_MAX : (1ull << k) + 1);
            break;
        case 5: v = d_range(0, max); break;
        default: v = max - d_below(9); break;
    }
    if(v > max)
        v = (max == SIZE_MAX) ? v : v % ((u64) max + 1);
    return (size_t) v;
}

u64 d_u64(void)
{
    u64 v;
    switch(d_weighted((const unsigned[]){4, 4, 4, 3, 4}, 5)) {
        case 0: v = d_below(17); break;
        case 1: v = (1ull << d_below(64)) + d_below(5) - 2; break;
        case 2: v = 0 - (1ull << d_below(64)) + d_below(5) - 2; break;
        case 3: v = dict_value(); break;
        default: v = d_bits(); break;
    }
    return v;
}

double d_double(void)
{
    union { u64 u; double d; } x;
    double v;
    switch(d_weighted((const unsigned[]){3, 4, 4, 4, 3, 2}, 6)) {
        case 0: v = (double) (i64) d_below(33) - 16.0; break;
        case 1: v = ((double) (i64) d_below(4001) - 2000.0) / 4.0; break;
        case 2: /* near powers of two */
            v = ldexp(1.0, (int) d_below(70));
            v += ((double) (i64) d_below(9) - 4.0) * (d_bool() ? 0.5 : 1.0);
            if(d_bool()) v = -v;
            break;
        case 3: /* an integer-ish value, nudged by ulps */
            v = (double) (i64) d_u64() + (d_bool() ? 0.5 : 0.0);
            x.d = v; x.u += d_below(5); x.u -= 2; v = x.d;
            break;
        case 4: v = (double) (i64) d_bits() / 4294967296.0; break;
        default: x.u = d_bits(); v = x.d; break;
    }
    if(!isfinite(v))
        v = 0.0;
    return v;
}

unsigned d_avg(void)
{
    switch(d_weighted((const unsigned[]){6, 6, 3, 1}, 4)) {
        case 0: return 6;
        case 1: return 25;
        case 2: return 90;
        default: return vf_profile >= 1 ? 1500 : 300;
    }
}

u64 d_seed(void) { return d_below(1ull << 32); }

void d_fill(void* p, size_t n)
{
    u8* b = (u8*) p;
    size_t i;
    u64 s;
    static const u8 alpha[] = { 0x00, 'a', 0xff, 0x80, 0x7f, '=', '\n', 'A' };

    if(n == 0)
        return;
    switch(d_weighted((const unsigned[]){2, 2, 3, 2, 2, 1}, 6)) {
        case 0:
            if(n <= 24) {
                for(i = 0; i < n; i++) b[i] = (u8) d_below(256);
            } else {
                u8 c = (u8) d_below(256);
                memset(b, c, n);
            }
            break;
        case 1:
            s = d_seed();
            for(i = 0; i < n; i++) b[i] = (u8) (s + i);
            break;
        case 2:
            s = d_seed();
            for(i = 0; i < n; i++) b[i] = (u8) (vf_next(&s) >> 17);
            break;
        case 3:
            s = d_seed();
            for(i = 0; i < n; i++) b[i] = alpha[(vf_next(&s) >> 17) & 7];
            break;
        case 4:
            s = d_seed();
            for(i = 0; i < n; i++) b[i] = (u8) (0x80 | (vf_next(&s) >> 17));
            break;
        default:
            s = d_seed();
            for(i = 0; i < n; i++) b[i] = (u8) (32 + (vf_next(&s) >> 17) % 95);
            break;
    }
}

/***************** verdicts *****************/

static int fuzz_mode = 0;

static void die_fail(void)
{
    if(fuzz_mode) {
        fprintf(stderr, "VF-FAIL: %s\n", S->msg);
        abort();
    }
    _exit(77);
}

void vf_fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    TRACE("FAILED: %s", S->msg);
    die_fail();
    abort();
}

void vf_fail_at(const char* file, int line, const char* cond, const char* fmt, ...)
{
    va_list ap;
    int n;
    const char* s = strrchr(file, '/');
    va_start(ap, fmt);
    n = vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    if(n < 0) n = 0;
    if((size_t) n < sizeof(S->msg))
        snprintf(S->msg + n, sizeof(S->msg) - (size_t) n, "  [%s:%d: !(%s)]", s ? s + 1 : file, line, cond);
    TRACE("FAILED: %s", S->msg);
    die_fail();
    abort();
}

static u64 case_labels[2];

void vf_label(const char* name)
{
    int i;
    static const char* last_name; static int last_i;
    if(name == last_name) {
        i = last_i;
    } else {
        for(i = 0; i < S->nlabels; i++)
            if(strncmp(S->labels[i], name, LABELLEN - 1) == 0)
                break;
        if(i == S->nlabels) {
            if(i >= MAXLABEL)
                return;
            strncpy(S->labels[i], name, LABELLEN - 1);
            S->nlabels++;
        }
        last_name = name; last_i = i;
    }
    case_labels[i >> 6] |= 1ull << (i & 63);
}

void vf_nontrivial(void) { S->nt_flag = 1; }

void vf_trace_(const char* fmt, ...)
{
    va_list ap;
    int n;
    if(S->tracelen + 512 >= TRACELEN)
        return;
    va_start(ap, fmt);
    n = vsnprintf(S->trace + S->tracelen, 480, fmt, ap);
    va_end(ap);
    if(n < 0) n = 0;
    if(n > 479) n = 479;
    S->tracelen += (u32) n;
    S->trace[S->tracelen++] = '\n';
    S->trace[S->tracelen] = 0;
}

const char* vf_hex(const void* p, size_t n)
{
    static char buf[4][128];
    static int k;
    char* o = buf[k = (k + 1) & 3];
    const u8* b = (const u8*) p;
    size_t i, j = 0, m = n > 24 ? 20 : n;
    int printable = (n > 0);
    for(i = 0; i < m; i++) if(b[i] < 32 || b[i] > 126) printable = 0;
    if(printable) {
        o[j++] = '"';
        for(i = 0; i < m; i++) o[j++] = (char) b[i];
        o[j++] = '"';
        o[j] = 0;
    } else {
        for(i = 0; i < m; i++) j += (size_t) sprintf(o + j, "%02x", b[i]);
        o[j] = 0;
    }
    if(n > m) sprintf(o + j, "..(%zu)", n);
    return o;
}

/***************** the harness's own memory *****************/

typedef struct HBLK { struct HBLK* prev; struct HBLK* next; } HBLK;
static HBLK hroot = { &hroot, &hroot };

/* Header and payload are separate, so that the sanitizer sees the exact size. */
typedef struct HENT { HBLK link; void* p; size_t n; } HENT;
static HENT** htab; static size_t htab_cap, htab_n;

static size_t hslot(const void* p) { return (size_t) (vf_mix((u64) (uintptr_t) p) & (htab_cap - 1)); }

static void hinsert(HENT* e)
{
    size_t i;
    if((htab_n + 1) * 2 > htab_cap) {
        size_t ncap = htab_cap ? htab_cap * 2 : 256, j;
        HENT** old = htab; size_t oc = htab_cap;
        htab = (HENT**) __real_calloc(ncap, sizeof(HENT*));
        htab_cap = ncap;
        for(j = 0; j < oc; j++) if(old[j]) {
            i = hslot(old[j]->p);
            while(htab[i]) i = (i + 1) & (htab_cap - 1);
            htab[i] = old[j];
        }
        __real_free(old);
    }
    i = hslot(e->p);
    while(htab[i]) i = (i + 1) & (htab_cap - 1);
    htab[i] = e;
    htab_n++;
}

static HENT* hremove(void* p)
{
    size_t i, j;
    HENT* e;
    if(htab_cap == 0) return NULL;
    i = hslot(p);
    while(htab[i] && htab[i]->p != p) i = (i + 1) & (htab_cap - 1);
    e = htab[i];
    if(e == NULL) return NULL;
    htab[i] = NULL;
    htab_n--;
    for(j = (i + 1) & (htab_cap - 1); htab[j]; j = (j + 1) & (htab_cap - 1)) {
        HENT* m = htab[j];
        size_t k = hslot(m->p);
        htab[j] = NULL;
        while(htab[k]) k = (k + 1) & (htab_cap - 1);
        htab[k] = m;
    }
    return e;
}

void* h_malloc(size_t n)
{
    HENT* e = (HENT*) __real_malloc(sizeof(HENT));
    e->p = __real_malloc(n ? n : 1);
    if(e->p == NULL) { fprintf(stderr, "harness out of memory (%zu)\n", n); _exit(99); }
    e->n = n;
    e->link.prev = &hroot; e->link.next = hroot.next;
    hroot.next->prev = &e->link; hroot.next = &e->link;
    hinsert(e);
    return e->p;
}

void* h_calloc(size_t n) { void* p = h_malloc(n); memset(p, 0, n); return p; }

void h_free(void* p)
{
    HENT* e;
    if(p == NULL) return;
    e = hremove(p);
    if(e == NULL) { fprintf(stderr, "h_free: unknown block\n"); _exit(99); }
    e->link.prev->next = e->link.next;
    e->link.next->prev = e->link.prev;
    __real_free(e->p);
    __real_free(e);
}

void* h_realloc(void* p, size_t n)
{
    HENT* e;
    void* q;
    if(p == NULL) return h_malloc(n);
    e = hremove(p);
    if(e == NULL) { fprintf(stderr, "h_realloc: unknown block\n"); _exit(99); }
    q = __real_realloc(p, n ? n : 1);
    if(q == NULL) _exit(99);
    e->p = q;
    e->n = n;
    hinsert(e);
    return q;
}

void* h_dup(const void* p, size_t n) { void* q = h_malloc(n); if(n) memcpy(q, p, n); return q; }

static void h_free_all(void)
{
    while(hroot.next != &hroot) {
        HENT* e = (HENT*) hroot.next;
        e->link.prev->next = e->link.next;
        e->link.next->prev = e->link.prev;
        __real_free(e->p);
        __real_free(e);
    }
    if(htab_cap > 65536) {
        __real_free(htab);
        htab = NULL; htab_cap = 0; htab_n = 0;
    } else if(htab_n > 0) {
        memset(htab, 0, htab_cap * sizeof(HENT*));
        htab_n = 0;
    }
}

/***************** running one case *****************/

static u64 hash_choices(void)
{
    u64 h = 0x1234567ull ^ S->nch;
    u32 i;
    for(i = 0; i < S->nch; i++)
        h = vf_mix(h ^ S->ch[i]) + 0x9E3779B97F4A7C15ull;
    return h;
}

static void run_case(u64 key)
{
    const char* leak;
    S->nch = 0;
    S->nt_flag = 0;
    case_labels[0] = case_labels[1] = 0;
    vf_alloc_case_begin(key);
    vf_case();
    leak = vf_alloc_case_end();
    if(leak != NULL)
        vf_fail("%s", leak);
    h_free_all();
}

static u64 base_seed; static u64 stage_hash; static int cpu_limit = 20;
static long n_cases = 1000; static int n_workers = 8;

static void seed_case(u64 idx)
{
    u64 h = vf_mix(base_seed * 0x9E3779B97F4A7C15ull + 0x1357) ^ stage_hash;
    h = vf_mix(h + idx * 0xD1342543DE82EF95ull);
    rng_s[0] = vf_mix(h + 1);
    rng_s[1] = vf_mix(h + 2) | 1;
    src = SRC_RNG;
}

/***************** processes *****************/

static void on_prof(int sig) { (void) sig; _exit(79); }

static void arm_timer(int secs)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, NULL);
}

static void child_init(const char* errpath)
{
    struct sigaction sa;
    struct rlimit rl = { 0, 0 };
    int fd;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setrlimit(RLIMIT_CORE, &rl);
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = on_prof;
    sigaction(SIGPROF, &sa, NULL);
    fd = open(errpath ? errpath : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if(fd >= 0) { dup2(fd, 2); close(fd); }
}

static SHM* new_shm(void)
{
    SHM* s = (SHM*) mmap(NULL, sizeof(SHM), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(s == MAP_FAILED) { perror("mmap"); exit(2); }
    return s;
}

/* hash set of the worker */
static u64* hs; static size_t hs_cap, hs_n;
static int hs_add(u64 h)
{
    size_t i;
    if(h == 0) h = 1;
    if((hs_n + 1) * 2 > hs_cap) {
        size_t oc = hs_cap, j; u64* old = hs;
        hs_cap = hs_cap ? hs_cap * 2 : 4096;
        hs = (u64*) __real_calloc(hs_cap, sizeof(u64));
        for(j = 0; j < oc; j++) if(old[j]) {
            i = (size_t) (old[j] & (hs_cap - 1));
            while(hs[i]) i = (i + 1) & (hs_cap - 1);
            hs[i] = old[j];
        }
        __real_free(old);
    }
    i = (size_t) (h & (hs_cap - 1));
    while(hs[i]) { if(hs[i] == h) return 0; i = (i + 1) & (hs_cap - 1); }
    hs[i] = h;
    hs_n++;
    return 1;
}

static const char* workdir = "/tmp";
static double run_until;            /* no further cases after this moment, if not 0 */
static double now(void);

static void worker_loop(int w, SHM* shm, u64 upto, int collect)
{
    u64 idx;
    int i;
    S = shm;
    for(idx = (u64) w; idx < (u64) n_cases && idx <= upto; idx += (u64) n_workers) {
        if(S->stop || (collect && run_until > 0 && idx != (u64) w && now() > run_until))
            break;
        S->cur = idx;
        arm_timer(cpu_limit);
        seed_case(idx);
        run_case(idx);
        S->done++;
        if(!collect)
            continue;
        for(i = 0; i < S->nlabels; i++)
            if(case_labels[i >> 6] & (1ull << (i & 63)))
                S->label_n[i]++;
        if(S->nt_flag) {
            S->nontriv++;
            hs_add(hash_choices());
            if(S->nt_n < MAXNT && (S->nt_n < 4 || (S->nontriv & (S->nontriv - 1)) == 0))
                S->nt_idx[S->nt_n++] = idx;
        }
    }
    S->distinct = hs_n;
}

static const char* exit_kind(int st, char* buf, size_t n)
{
    if(WIFEXITED(st)) {
        switch(WEXITSTATUS(st)) {
            case 0: return NULL;
            case 77: return "check";
            case 78: return "sanitizer";
            case 79: return "hang";
            case 99: return "harness";
            default: snprintf(buf, n, "exit%d", WEXITSTATUS(st)); return buf;
        }
    }
    if(WIFSIGNALED(st)) {
        snprintf(buf, n, "signal%d", WTERMSIG(st));
        return buf;
    }
    return "unknown";
}

/* Summary line of a sanitizer report. */
static void err_summary(const char* path, char* out, size_t n)
{
    FILE* f = fopen(path, "r");
    char line[1024];
    out[0] = 0;
    if(!f) return;
    while(fgets(line, sizeof(line), f)) {
        if(strstr(line, "runtime error") || strstr(line, "ERROR: AddressSanitizer") || strstr(line, "SUMMARY:")
           || strstr(line, "harness") || strstr(line, "h_free") || strstr(line, "glibc") || strstr(line, "free()") || strstr(line, "corrupt")) {
            size_t l = strlen(out);
            line[strcspn(line, "\n")] = 0;
            snprintf(out + l, n - l, "%s%s", l ? " | " : "", line);
            if(strlen(out) > n - 200) break;
        }
    }
    fclose(f);
}

typedef struct RES { int failed; char kind[24]; char msg[2400]; } RES;

static SHM* replay_shm;
static char errfile[512];

/* Run one case in a child.  mode 0: choices, 1: seed index, 2: bytes, 3: worker batch up to idx */
static RES run_child(int mode, const u64* ch, size_t n, u64 idx, const u8* bytes, size_t nbytes, int trace, int w)
{
    RES r;
    pid_t pid;
    int st;
    char kb[24];
    const char* k;

    memset(&r, 0, sizeof(r));
    if(replay_shm == NULL)
        replay_shm = new_shm();
    replay_shm->msg[0] = 0;
    replay_shm->tracelen = 0;
    replay_shm->trace[0] = 0;
    replay_shm->nch = 0;
    replay_shm->stop = 0;
    fflush(NULL);
    pid = fork();
    if(pid < 0) { perror("fork"); exit(2); }
    if(pid == 0) {
        child_init(errfile);
        S = replay_shm;
        vf_tracing = trace;
        arm_timer(cpu_limit);
        switch(mode) {
            case 0: src = SRC_REPLAY; rep = ch; rep_n = n; rep_i = 0; run_case(0); break;
            case 1: seed_case(idx); run_case(idx); break;
            case 2: src = SRC_BYTES; byt = bytes; byt_n = nbytes; byt_i = 0; run_case(0); break;
            case 3: worker_loop(w, replay_shm, idx, 0); break;
        }
        _exit(0);
    }
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    k = exit_kind(st, kb, sizeof(kb));
    if(k != NULL) {
        r.failed = 1;
        snprintf(r.kind, sizeof(r.kind), "%s", k);
        if(strcmp(k, "check") == 0) {
            snprintf(r.msg, sizeof(r.msg), "%s", replay_shm->msg);
        } else {
            err_summary(errfile, r.msg, sizeof(r.msg));
            if(r.msg[0] == 0)
                snprintf(r.msg, sizeof(r.msg), strcmp(k, "hang") == 0 ? "the case does not end (more than %d s of CPU)" : "the process died", cpu_limit);
        }
    }
    return r;
}

static double now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

/***************** shrinking *****************/

static u64* best; static size_t best_n; static RES best_res;
static int attempts, max_attempts = 2500; static double shrink_deadline;

static int try_choices(const u64* c, size_t n)
{
    RES r;
    if(attempts >= max_attempts || now() > shrink_deadline)
        return 0;
    attempts++;
    r = run_child(0, c, n, 0, NULL, 0, 0, 0);
    if(!r.failed || strcmp(r.kind, "harness") == 0)
        return 0;
    if(strcmp(r.kind, "hang") == 0 || strcmp(r.kind, "signal9") == 0)
        return 0;
    /* canonical form: what was really consumed */
    if(replay_shm->nch <= n) {
        size_t m = replay_shm->nch;
        int ident = (m == n);
        (void) ident;
        memmove(best, replay_shm->ch, m * sizeof(u64));
        best_n = m;
    } else {
        memmove(best, c, n * sizeof(u64));
        best_n = n;
    }
    while(best_n > 0 && best[best_n - 1] == 0)
        best_n--;
    best_res = r;
    return 1;
}

static void shrink(void)
{
    u64* t = (u64*) __real_malloc((size_t) MAXCH * sizeof(u64));
    int improved = 1;
    size_t i, k;

    while(improved && attempts < max_attempts && now() < shrink_deadline) {
        improved = 0;
        /* truncate */
        for(k = best_n / 2; k > 0; k /= 2) {
            while(best_n > k) {
                size_t n = best_n - k;
                memcpy(t, best, n * sizeof(u64));
                if(!try_choices(t, n)) break;
                improved = 1;
            }
        }
        /* delete chunks */
        for(k = best_n / 2 > 0 ? best_n / 2 : 1; k > 0; k = (k > 8 ? k / 2 : k - 1)) {
            i = best_n;
            while(i > 0) {
                size_t at = i > k ? i - k : 0;
                size_t len = (at + k <= best_n) ? k : best_n - at;
                if(len == 0) { i = at; continue; }
                memcpy(t, best, at * sizeof(u64));
                memcpy(t + at, best + at + len, (best_n - at - len) * sizeof(u64));
                if(try_choices(t, best_n - len)) {
                    improved = 1;
                    if(i > best_n) i = best_n;
                } else {
                    i = at;
                }
                if(attempts >= max_attempts || now() > shrink_deadline) break;
            }
            if(k == 1) break;
        }
        /* lower the values */
        for(i = 0; i < best_n; i++) {
            u64 lo = 0, v = best[i];
            if(v == 0) continue;
            memcpy(t, best, best_n * sizeof(u64));
            t[i] = 0;
            if(try_choices(t, best_n)) { improved = 1; continue; }
            /* smallest failing value by bisection (not monotone in general: a heuristic) */
            lo = 0;
            while(i < best_n && best[i] - lo > 1) {
                u64 mid = lo + (best[i] - lo) / 2;
                u64 cur = best[i];
                memcpy(t, best, best_n * sizeof(u64));
                t[i] = mid;
                if(try_choices(t, best_n)) {
                    improved = 1;
                    if(i >= best_n || best[i] >= cur) break;
                } else {
                    lo = mid;
                }
                if(attempts >= max_attempts || now() > shrink_deadline) break;
            }
        }
    }
    __real_free(t);
}

/***************** output *****************/

static void js(FILE* f, const char* s)
{
    fputc('"', f);
    for(; *s; s++) {
        unsigned char c = (unsigned char) *s;
        if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if(c == '\n') fputs("\\n", f);
        else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static const char* build_name = "san";

static void write_replay(const char* path, const char* mode, u64 idx, int w, const RES* r, const char* stage)
{
    FILE* f = fopen(path, "w");
    size_t i;
    if(!f) { perror(path); exit(2); }
    fprintf(f, "property %s\nbuild %s\nprofile %d\nmode %s\n", vf_property, build_name, vf_profile, mode);
    fprintf(f, "kind %s\n", r->kind);
    fprintf(f, "message ");
    for(i = 0; r->msg[i]; i++) fputc(r->msg[i] == '\n' ? ' ' : r->msg[i], f);
    fprintf(f, "\nstage %s seed %llu cases %ld workers %d idx %llu worker %d cpu %d\n", stage,
            (unsigned long long) base_seed, n_cases, n_workers, (unsigned long long) idx, w, cpu_limit);
    if(strcmp(mode, "choices") == 0) {
        fprintf(f, "choices");
        for(i = 0; i < best_n; i++) fprintf(f, " %llu", (unsigned long long) best[i]);
        fputc('\n', f);
    }
    fprintf(f, "trace\n%s", replay_shm ? replay_shm->trace : "");
    fclose(f);
}

static u64 str_hash(const char* s)
{
    u64 h = 1469598103934665603ull;
    while(*s) { h ^= (u8) *s++; h *= 1099511628211ull; }
    return vf_mix(h);
}

#ifndef VF_LIBFUZZER

static int load_replay(const char* path, char* mode, size_t modelen, char* stage, size_t stagelen, u64* idx, int* w)
{
    FILE* f = fopen(path, "r");
    static char line[1 << 20];
    if(!f) { perror(path); return -1; }
    mode[0] = 0;
    best_n = 0;
    while(fgets(line, sizeof(line), f)) {
        if(strncmp(line, "mode ", 5) == 0) {
            sscanf(line + 5, "%15s", mode);
        } else if(strncmp(line, "profile ", 8) == 0) {
            vf_profile = atoi(line + 8);
        } else if(strncmp(line, "stage ", 6) == 0) {
            unsigned long long sd = 0, ix = 0; long nc = 0; int nw = 1, ww = 0, cpu = 20;
            char sg[64] = "";
            sscanf(line, "stage %63s seed %llu cases %ld workers %d idx %llu worker %d cpu %d", sg, &sd, &nc, &nw, &ix, &ww, &cpu);
            base_seed = sd; n_cases = nc; n_workers = nw; *idx = ix; *w = ww; cpu_limit = cpu;
            snprintf(stage, stagelen, "%s", sg);
        } else if(strncmp(line, "choices", 7) == 0 && (line[7] == ' ' || line[7] == '\n')) {
            char* p = line + 7;
            for(;;) {
                char* e;
                unsigned long long v = strtoull(p, &e, 10);
                if(e == p) break;
                if(best_n < MAXCH) best[best_n++] = v;
                p = e;
            }
        } else if(strncmp(line, "trace", 5) == 0) {
            break;
        }
    }
    fclose(f);
    (void) modelen;
    return 0;
}

int main(int argc, char** argv)
{
    const char* stage = "main"; const char* out = NULL; const char* hashes = NULL;
    const char* replay = NULL; const char* bytesf = NULL; const char* replay_out = NULL;
    int i, w, samples = 4;
    SHM** sh;
    pid_t* pids;
    int* sts;
    double t0 = now();
    FILE* f;
    int fail_w = -1;
    int unreproducible = 0;

    for(i = 1; i < argc; i++) {
        #define ARG(name) (strcmp(argv[i], name) == 0 && i + 1 < argc)
        if(ARG("--seed")) base_seed = strtoull(argv[++i], NULL, 10);
        else if(ARG("--stage")) stage = argv[++i];
        else if(ARG("--cases")) n_cases = atol(argv[++i]);
        else if(ARG("--workers")) n_workers = atoi(argv[++i]);
        else if(ARG("--profile")) vf_profile = atoi(argv[++i]);
        else if(ARG("--seconds")) run_until = now() + atof(argv[++i]);
        else if(ARG("--cpu")) cpu_limit = atoi(argv[++i]);
        else if(ARG("--out")) out = argv[++i];
        else if(ARG("--hashes")) hashes = argv[++i];
        else if(ARG("--samples")) samples = atoi(argv[++i]);
        else if(ARG("--replay")) replay = argv[++i];
        else if(ARG("--bytes")) bytesf = argv[++i];
        else if(ARG("--replay-out")) replay_out = argv[++i];
        else if(ARG("--work")) workdir = argv[++i];
        else if(ARG("--build")) build_name = argv[++i];
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
    }
    stage_hash = str_hash(stage);
    snprintf(errfile, sizeof(errfile), "%s/err.replay.%d", workdir, (int) getpid());
    best = (u64*) __real_malloc((size_t) MAXCH * sizeof(u64));
    if(n_workers > n_cases) n_workers = (int) n_cases;
    if(n_workers < 1) n_workers = 1;

    if(replay != NULL) {
        char mode[16], sg[64] = "main"; u64 idx = 0; int rw = 0;
        RES r;
        if(load_replay(replay, mode, sizeof(mode), sg, sizeof(sg), &idx, &rw) != 0) return 2;
        stage_hash = str_hash(sg);
        if(strcmp(mode, "batch") == 0) r = run_child(3, NULL, 0, idx, NULL, 0, 1, rw);
        else if(strcmp(mode, "index") == 0) r = run_child(1, NULL, 0, idx, NULL, 0, 1, rw);
        else r = run_child(0, best, best_n, 0, NULL, 0, 1, 0);
        fputs(replay_shm->trace, stdout);
        if(r.failed) printf("REPLAY: fails (%s): %s\n", r.kind, r.msg);
        else printf("REPLAY: passes\n");
        unlink(errfile);
        return r.failed ? 1 : 0;
    }

    if(bytesf != NULL) {
        /* confirm an input found by the coverage-guided fuzzer, and turn it into a choice sequence */
        static u8 data[1 << 20];
        size_t n = 0; RES r; int rep3;
        f = fopen(bytesf, "rb");
        if(!f) { perror(bytesf); return 2; }
        n = fread(data, 1, sizeof(data), f);
        fclose(f);
        r = run_child(2, NULL, 0, 0, data, n, 0, 0);
        if(!r.failed) { printf("BYTES: passes\n"); unlink(errfile); return 0; }
        best_n = replay_shm->nch;
        memcpy(best, replay_shm->ch, best_n * sizeof(u64));
        best_res = r;
        for(rep3 = 0; rep3 < (strcmp(r.kind, "hang") == 0 ? 1 : 2); rep3++) {
            RES q = run_child(0, best, best_n, 0, NULL, 0, 0, 0);
            if(!q.failed) { printf("BYTES: not reproducible\n"); unlink(errfile); return 0; }
        }
        shrink_deadline = now() + 40;
        if(strcmp(r.kind, "hang") != 0) shrink();
        r = run_child(0, best, best_n, 0, NULL, 0, 1, 0);
        if(!r.failed) r = best_res;
        if(replay_out) write_replay(replay_out, "choices", 0, 0, &r, "fuzz");
        printf("BYTES: fails (%s): %s\n", r.kind, r.msg);
        unlink(errfile);
        return 1;
    }

    sh = (SHM**) __real_calloc((size_t) n_workers, sizeof(SHM*));
    pids = (pid_t*) __real_calloc((size_t) n_workers, sizeof(pid_t));
    sts = (int*) __real_calloc((size_t) n_workers, sizeof(int));
    for(w = 0; w < n_workers; w++) sh[w] = new_shm();
    fflush(NULL);
    for(w = 0; w < n_workers; w++) {
        pids[w] = fork();
        if(pids[w] < 0) { perror("fork"); return 2; }
        if(pids[w] == 0) {
            char ep[512];
            snprintf(ep, sizeof(ep), "%s/err.w%d.%d", workdir, w, (int) getppid());
            child_init(ep);
            worker_loop(w, sh[w], UINT64_MAX, 1);
            if(hashes) {
                char hp[512];
                FILE* hf;
                size_t j;
                snprintf(hp, sizeof(hp), "%s.%d", hashes, w);
                hf = fopen(hp, "wb");
                if(hf) {
                    for(j = 0; j < hs_cap; j++) if(hs[j]) fwrite(&hs[j], 8, 1, hf);
                    fclose(hf);
                }
            }
            _exit(0);
        }
    }
    for(i = 0; i < n_workers; i++) {
        int st; pid_t p;
        do { p = waitpid(-1, &st, 0); } while(p < 0 && errno == EINTR);
        if(p < 0) break;
        for(w = 0; w < n_workers; w++) if(pids[w] == p) {
            sts[w] = st;
            if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                int v;
                for(v = 0; v < n_workers; v++) sh[v]->stop = 1;
            }
        }
    }
    for(w = 0; w < n_workers; w++) {
        char ep[512];
        if(!(WIFEXITED(sts[w]) && WEXITSTATUS(sts[w]) == 0))
            if(fail_w < 0 || sh[w]->cur < sh[fail_w]->cur)
                fail_w = w;
        snprintf(ep, sizeof(ep), "%s/err.w%d.%d", workdir, w, (int) getpid());
        if(WIFEXITED(sts[w]) && WEXITSTATUS(sts[w]) == 0) unlink(ep);
    }

    {
        int have_fail = 0;
        char fmode[16] = "choices";
        RES fr;
        u64 fidx = 0;
        memset(&fr, 0, sizeof(fr));
        if(fail_w >= 0) {
            char kb[24], ep[512];
            const char* k = exit_kind(sts[fail_w], kb, sizeof(kb));
            RES orig;
            memset(&orig, 0, sizeof(orig));
            fidx = sh[fail_w]->cur;
            snprintf(orig.kind, sizeof(orig.kind), "%s", k);
            snprintf(ep, sizeof(ep), "%s/err.w%d.%d", workdir, fail_w, (int) getpid());
            if(strcmp(k, "check") == 0) snprintf(orig.msg, sizeof(orig.msg), "%s", sh[fail_w]->msg);
            else err_summary(ep, orig.msg, sizeof(orig.msg));
            /* alone? */
            fr = run_child(1, NULL, 0, fidx, NULL, 0, strcmp(k, "hang") == 0, 0);
            if(fr.failed && strcmp(fr.kind, "hang") == 0) { /* slow as it is: neither run again nor shrunk */
                have_fail = 1;
                snprintf(fmode, sizeof(fmode), "index");
            } else if(fr.failed) {
                best_n = replay_shm->nch;
                memcpy(best, replay_shm->ch, best_n * sizeof(u64));
                best_res = fr;
                {
                    RES q = run_child(0, best, best_n, 0, NULL, 0, 0, 0);
                    RES q2 = run_child(0, best, best_n, 0, NULL, 0, 0, 0);
                    if(q.failed && q2.failed) {
                        have_fail = 1;
                        shrink_deadline = now() + 40;
                        if(strcmp(fr.kind, "hang") != 0 && strcmp(fr.kind, "signal9") != 0)
                            shrink();
                        q = run_child(0, best, best_n, 0, NULL, 0, 1, 0);
                        fr = q.failed ? q : best_res;
                    } else {
                        have_fail = 1;
                        snprintf(fmode, sizeof(fmode), "index");
                        fr = run_child(1, NULL, 0, fidx, NULL, 0, 1, 0);
                        if(!fr.failed) fr = orig;
                    }
                }
            } else {
                fr = run_child(3, NULL, 0, fidx, NULL, 0, 0, fail_w);
                if(fr.failed) {
                    have_fail = 1;
                    snprintf(fmode, sizeof(fmode), "batch");
                } else if(strcmp(k, "check") == 0 || strcmp(k, "sanitizer") == 0
                          || strcmp(k, "signal11") == 0 || strcmp(k, "signal6") == 0 || strcmp(k, "signal7") == 0) {
                    /* seen, but it depends on the memory layout of that process */
                    have_fail = 1;
                    snprintf(fmode, sizeof(fmode), "batch");
                    fr = orig;
                } else {
                    unreproducible++;
                    fprintf(stderr, "not reproducible: %s %s\n", orig.kind, orig.msg);
                }
            }
            unlink(ep);
        }
        if(have_fail && (strcmp(fr.kind, "harness") == 0 || strcmp(fr.kind, "exit99") == 0)) {
            fprintf(stderr, "harness error: %s\n", fr.msg);
            return 2;
        }
        if(have_fail && replay_out)
            write_replay(replay_out, fmode, fidx, fail_w, &fr, stage);

        if(out) {
            u64 done = 0, nont = 0, dist = 0;
            static char lname[256][LABELLEN]; static u64 lcount[256]; int nl = 0, j, k2;
            for(w = 0; w < n_workers; w++) {
                done += sh[w]->done; nont += sh[w]->nontriv; dist += sh[w]->distinct;
                for(j = 0; j < sh[w]->nlabels; j++) {
                    for(k2 = 0; k2 < nl; k2++) if(strcmp(lname[k2], sh[w]->labels[j]) == 0) break;
                    if(k2 == nl && nl < 256) { strcpy(lname[nl], sh[w]->labels[j]); nl++; }
                    if(k2 < nl) lcount[k2] += sh[w]->label_n[j];
                }
            }
            f = fopen(out, "w");
            if(!f) { perror(out); return 2; }
            fprintf(f, "{\"property\":"); js(f, vf_property);
            fprintf(f, ",\"stage\":"); js(f, stage);
            fprintf(f, ",\"rule\":"); js(f, vf_rule);
            fprintf(f, ",\"seed\":%llu,\"cases_planned\":%ld,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_in_stage\":%llu,\"unreproducible\":%d",
                    (unsigned long long) base_seed, n_cases, (unsigned long long) done, (unsigned long long) nont, (unsigned long long) dist, unreproducible);
            fprintf(f, ",\"labels\":{");
            for(j = 0; j < nl; j++) { if(j) fputc(',', f); js(f, lname[j]); fprintf(f, ":%llu", (unsigned long long) lcount[j]); }
            fprintf(f, "},\"samples\":[");
            if(!have_fail) {
                int first = 1, taken = 0, r;
                for(r = 0; r < MAXNT && taken < samples; r++) for(w = 0; w < n_workers && taken < samples; w++) {
                    if(r >= sh[w]->nt_n) continue;
                    run_child(1, NULL, 0, sh[w]->nt_idx[r], NULL, 0, 1, 0);
                    if(replay_shm->tracelen == 0) continue;
                    if(replay_shm->tracelen > 1800) strcpy(replay_shm->trace + 1780, " ...");
                    if(!first) fputc(',', f);
                    first = 0;
                    fprintf(f, "{\"case\":%llu,\"trace\":", (unsigned long long) sh[w]->nt_idx[r]);
                    js(f, replay_shm->trace);
                    fputc('}', f);
                    taken++;
                }
            }
            fprintf(f, "],\"wall_s\":%.2f", now() - t0);
            if(have_fail) {
                fprintf(f, ",\"failure\":{\"kind\":"); js(f, fr.kind);
                fprintf(f, ",\"mode\":"); js(f, fmode);
                fprintf(f, ",\"case\":%llu,\"shrink_attempts\":%d,\"message\":", (unsigned long long) fidx, attempts);
                js(f, fr.msg);
                fputc('}', f);
            }
            fprintf(f, "}\n");
            fclose(f);
        }
        unlink(errfile);
        if(have_fail) {
            printf("FAIL %s (%s): %s\n", vf_property, fr.kind, fr.msg);
            return 1;
        }
        if(unreproducible)
            return 3;
    }
    return 0;
}

#else  /* VF_LIBFUZZER */

int LLVMFuzzerTestOneInput(const u8* data, size_t n);
int LLVMFuzzerInitialize(int* argc, char*** argv);
int LLVMFuzzerInitialize(int* argc, char*** argv)
{
    (void) argc; (void) argv;
    S = new_shm();
    fuzz_mode = 1;
    return 0;
}

int LLVMFuzzerTestOneInput(const u8* data, size_t n)
{
    src = SRC_BYTES;
    byt = data; byt_n = n; byt_i = 0;
    run_case(0);
    return 0;
}

#endif
