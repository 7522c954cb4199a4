/* A huge sequence, as runs of equal items (c < 0: not known). */
#ifndef VF_SPARSE_H
#define VF_SPARSE_H
#include "pbt.h"
#include "huge.h"
#define SP_MAX 600
typedef struct { size_t len; int c; } RUN;
typedef struct { RUN r[SP_MAX]; int n; size_t size; } SP;
/* A run begins at off (off <= size); its index is given back. */
static int sp_cut(SP* s, size_t off)
{
    int i = 0;
    while(i < s->n && off >= s->r[i].len) off -= s->r[i++].len;
    if(off > 0) {
        memmove(&s->r[i + 1], &s->r[i], (size_t) (s->n - i) * sizeof(RUN));
        s->n++;
        s->r[i].len = off; s->r[i + 1].len -= off;
        i++;
    }
    return i;
}
static void sp_insert(SP* s, size_t off, size_t len, int c)
{
    int i;
    if(len == 0 || s->n > SP_MAX - 4) return;
    i = sp_cut(s, off);
    memmove(&s->r[i + 1], &s->r[i], (size_t) (s->n - i) * sizeof(RUN));
    s->r[i].len = len; s->r[i].c = c;
    s->n++; s->size += len;
}
static void sp_remove(SP* s, size_t off, size_t len)
{
    int i, j;
    if(len > s->size - off) len = s->size - off;
    if(len == 0) return;
    i = sp_cut(s, off); j = sp_cut(s, off + len);
    memmove(&s->r[i], &s->r[j], (size_t) (s->n - j) * sizeof(RUN));
    s->n -= j - i; s->size -= len;
}
static void sp_set(SP* s, size_t off, size_t len, int c) { if(len > s->size - off) len = s->size - off; sp_remove(s, off, len); sp_insert(s, off, len, c); }
static void sp_check(const SP* s, int (*at)(const void* o, size_t i), const void* o, const char* op)
{
    size_t base = 0, k;
    u64 rs = s->size;
    int i;
    for(i = 0; i < s->n; i++) {
        const RUN* r = &s->r[i];
        if(r->c >= 0) {
            for(k = 0; k < r->len; k++) {
                int c = at(o, base + k);
                CHECK(c == r->c, "after %s item %zu of %zu is %d instead of %d", op, base + k, s->size, c, r->c);
                if(r->len > 40 && k == 20) k = r->len - 20;
            }
            for(k = 0; k < (r->len > 40 ? 100 : 0); k++) {
                size_t x = (size_t) (vf_next(&rs) % r->len);
                int c = at(o, base + x);
                CHECK(c == r->c, "after %s item %zu of %zu is %d instead of %d", op, base + x, s->size, c, r->c);
            }
        }
        base += r->len;
    }
}
/* A place in a huge sequence of n items. */
static size_t sp_place(size_t n)
{
    size_t x;
    switch(d_below(9)) {
        case 0: case 7: case 8: x = d_size(20); break;
        case 1: x = n - d_size(20); break;
        case 2: x = ((size_t) 1 << 31) - 20 + d_size(40); break;
        case 3: x = ((size_t) 1 << 32) - 20 + d_size(40); break;
        case 4: x = n / 2 - 20 + d_size(40); break;
        case 5: x = n - ((size_t) 1 << 32) - 20 + d_size(40); break;
        default: x = (size_t) d_below(n); break;
    }
    return x <= n ? x : (size_t) d_below(n + 1);
}
static size_t sp_amount(void)
{
    switch(d_below(5)) {
        case 0: return ((size_t) 1 << 31) - 20 + d_size(40);
        case 1: case 2: return ((size_t) 1 << 32) - 20 + d_size(40);
        case 3: return ((size_t) 1 << 32) + (size_t) d_below((u64) 1 << 30);
        default: return (size_t) d_below((u64) 3 << 31);
    }
}
#endif
