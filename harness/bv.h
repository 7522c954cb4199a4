/* Reference byte sequence. */
#ifndef VF_BV_H
#define VF_BV_H
#include "pbt.h"
typedef struct BV { u8* p; size_t n, cap; } BV;
static inline void bv_room(BV* b, size_t n)
{
    if(b->n + n > b->cap) {
        b->cap = (b->n + n) * 2 + 16;
        b->p = (u8*) h_realloc(b->p, b->cap);
    }
}
static inline void bv_insert(BV* b, size_t off, const void* d, size_t n)
{
    if(n == 0) return;
    bv_room(b, n);
    memmove(b->p + off + n, b->p + off, b->n - off);
    memcpy(b->p + off, d, n);
    b->n += n;
}
static inline void bv_append(BV* b, const void* d, size_t n) { bv_insert(b, b->n, d, n); }
static inline void bv_remove(BV* b, size_t off, size_t n)
{
    if(n > b->n - off) n = b->n - off;
    if(n == 0) return;
    memmove(b->p + off, b->p + off + n, b->n - off - n);
    b->n -= n;
}
static inline void bv_truncate(BV* b, size_t n) { if(n < b->n) b->n = n; }
#endif
