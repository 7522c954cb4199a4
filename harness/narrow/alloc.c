/* The memory of the program: the same rules on both systems.  Nothing above a limit; new memory is filled with
 * a pattern; the end of a block (and what is before it) is watched; on the 32-bit system every third block ends at a page nobody may touch. */
#include <stddef.h>
#include <stdint.h>
#define _GNU_SOURCE
#include <string.h>
#include "narrow.h"
#ifdef NW_32
void* nw_map(size_t n); int nw_unmap(void* p, size_t n); int nw_protect(void* p, size_t n, int prot); void* nw_remap(void* q, size_t n, size_t to);
#else
#include <sys/mman.h>
void* nw_map(size_t n) { void* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return p == MAP_FAILED ? NULL : p; }
int nw_unmap(void* p, size_t n) { return munmap(p, n); }
int nw_protect(void* p, size_t n, int prot) { return mprotect(p, n, prot); }
void* nw_remap(void* q, size_t n, size_t to) { void* p = mremap(q, n, to, MREMAP_MAYMOVE); return p == MAP_FAILED ? NULL : p; }
#endif
size_t nw_limit = (size_t) 64 << 20;
#define BIG ((size_t) 1 << 20)
#define MAGIC 0x5ca1ab1eu
#define CANARY 0x7e
typedef struct HEAD { size_t size, maps; unsigned char* map; struct HEAD* next; uint32_t magic; unsigned char before[12]; } HEAD;
size_t nw_live, nw_calls;
static HEAD* bins[40];
static unsigned char* arena; static size_t arena_left;
static int bin_of(size_t n, size_t* room) { int b = 5; while(((size_t) 1 << b) < n) b++; *room = (size_t) 1 << b; return b; }
static size_t up(size_t n, size_t a) { return (n + a - 1) / a * a; }
void* nw_malloc(size_t n)
{
    HEAD* h; size_t all, room; unsigned char* p; size_t i;
    nw_calls++;
    if(n > nw_limit) return NULL;
    if(n > BIG) {
        size_t maps = up(n + 16, 4096) + 4096;
        unsigned char* m = nw_map(maps);
        if(m == NULL) return NULL;
        h = (HEAD*) (void*) (m + 4096) - 1; h->size = n; h->maps = maps; h->map = m; h->magic = MAGIC; memset(h->before, CANARY, sizeof(h->before));
        p = m + 4096; memset(p + n, CANARY, 16);
        nw_live++;
        return p;
    }
    all = sizeof(HEAD) + up(n, 16) + 16;
    if(NW_GUARD && nw_calls % 3 == 0) {
        size_t maps = up(all, 4096) + 4096;
        unsigned char* m = nw_map(maps);
        if(m == NULL) return NULL;
        nw_protect(m + maps - 4096, 4096, 0);
        p = m + maps - 4096 - up(n, 16);
        h = (HEAD*) (void*) (p - sizeof(HEAD));
        h->maps = maps; h->map = m;
        for(i = n; i < up(n, 16); i++) p[i] = CANARY;
    } else {
        int b = bin_of(all, &room);
        if(bins[b] != NULL) { h = bins[b]; bins[b] = h->next; }
        else {
            if(arena_left < room) { arena = nw_map(8 << 20); if(arena == NULL) { arena_left = 0; return NULL; } arena_left = 8 << 20; }
            h = (HEAD*) (void*) arena; arena += room; arena_left -= room;
        }
        h->maps = 0; h->map = NULL;
        p = (unsigned char*) (h + 1);
        for(i = n; i < up(n, 16) + 16; i++) p[i] = CANARY;
    }
    h->size = n; h->magic = MAGIC; memset(h->before, CANARY, sizeof(h->before));
    memset(p, 0xa5, n);
    nw_live++;
    return p;
}
void nw_free(void* q)
{
    HEAD* h; unsigned char* p = q; size_t i, end;
    if(q == NULL) return;
    h = (HEAD*) q - 1;
    if(h->magic != MAGIC) nw_fail("a block is released which is not one (or twice)");
    end = h->size > BIG ? h->size + 16 : up(h->size, 16) + (h->maps ? 0 : 16);
    for(i = 0; i < sizeof(h->before); i++) if(h->before[i] != CANARY) nw_fail("memory before a block was written");
    for(i = h->size; i < end; i++) if(p[i] != CANARY) nw_fail("memory after a block was written");
    h->magic = 0;
    nw_live--;
    if(h->size > BIG) { nw_unmap(h->map, h->maps); return; }
    memset(p, 0xdd, h->size);
    if(h->maps) nw_unmap(h->map, h->maps);
    else { size_t room; int b = bin_of(sizeof(HEAD) + up(h->size, 16) + 16, &room); h->next = bins[b]; bins[b] = h; }
}
void* nw_calloc(size_t n, size_t w) { void* p; if(w != 0 && n > (size_t) -1 / w) return NULL; p = nw_malloc(n * w); if(p != NULL) memset(p, 0, n * w); return p; }
void* nw_realloc(void* q, size_t n)
{
    void* p; HEAD* h;
    if(q == NULL) return nw_malloc(n);
    if(n == 0) { nw_free(q); return NULL; }
    h = (HEAD*) q - 1;
    if(h->magic != MAGIC) nw_fail("a block is reallocated which is not one");
    if(n > BIG && h->size > BIG) {
        size_t maps = up(n + 16, 4096) + 4096, i; unsigned char* m;
        nw_calls++;
        if(n > nw_limit) return NULL;
        for(i = 0; i < 16; i++) if(((unsigned char*) q)[h->size + i] != CANARY) nw_fail("memory after a block was written");
        m = nw_remap(h->map, h->maps, maps);
        if(m == NULL) return NULL;
        h = (HEAD*) (void*) (m + 4096) - 1; h->size = n; h->maps = maps; h->map = m;
        memset(m + 4096 + n, CANARY, 16);
        return m + 4096;
    }
    p = nw_malloc(n);
    if(p == NULL) return NULL;
    memcpy(p, q, h->size < n ? h->size : n);
    nw_free(q);
    return p;
}
void* nw_reallocarray(void* q, size_t n, size_t w) { if(w != 0 && n > (size_t) -1 / w) return NULL; return nw_realloc(q, n * w); }
char* nw_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = nw_malloc(n); if(p) memcpy(p, s, n); return p; }
char* nw_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = nw_malloc(n + 1); if(p) { memcpy(p, s, n); p[n] = 0; } return p; }
