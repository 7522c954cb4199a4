/* C14-C16: the three kinds of linked lists. */
#include "pbt.h"
#include "list.h"

const char vf_property[] = VF_PROPERTY;

#if defined VF_C14
    #define N(x) list_##x
    #define T LIST
    #define TN LIST_NODE
    #define TDATA LIST_DATA
    #define HAS_PREV 1
    #define HAS_TAIL 1
    #define HAS_APPEND 1
const char vf_rule[] = "at least 4 nodes were in a list at once, with an insertion next to a node in the middle and a removal";
#elif defined VF_C15
    #define N(x) slist_##x
    #define T SLIST
    #define TN SLIST_NODE
    #define TDATA SLIST_DATA
    #define HAS_PREV 0
    #define HAS_TAIL 0
    #define HAS_APPEND 0
const char vf_rule[] = "at least 4 nodes were in a list at once, with an insertion after a node in the middle and a removal";
#else
    #define N(x) qlist_##x
    #define T QLIST
    #define TN QLIST_NODE
    #define TDATA QLIST_DATA
    #define HAS_PREV 0
    #define HAS_TAIL 1
    #define HAS_APPEND 1
const char vf_rule[] = "at least 4 nodes were in a list at once, with an insertion after a node in the middle, a removal, and an append after the last node was removed";
#endif

typedef struct NODE { u64 magic; char pad; TN link; u32 id; } NODE;
#define MAGIC 0x115715157ull

typedef struct { NODE** a; size_t n; } MODEL;

static void m_insert(MODEL* m, size_t at, NODE* x) { memmove(m->a + at + 1, m->a + at, (m->n - at) * sizeof(NODE*)); m->a[at] = x; m->n++; }
static NODE* m_remove(MODEL* m, size_t at) { NODE* x = m->a[at]; memmove(m->a + at, m->a + at + 1, (m->n - at - 1) * sizeof(NODE*)); m->n--; return x; }

static void same(T* l, MODEL* m, const char* op)
{
    TN* x;
    size_t i;
    CHECK(!!N(is_empty)(l) == (m->n == 0), "after %s is_empty is wrong with %zu nodes", op, m->n);
    x = N(head)(l);
    for(i = 0; i < m->n; i++) {
        CHECK(x != N(end)(l), "after %s the list ends after %zu of %zu nodes", op, i, m->n);
        CHECK(x == &m->a[i]->link, "after %s node %zu of %zu is another one", op, i, m->n);
        CHECK(TDATA(x, NODE, link) == m->a[i] && m->a[i]->magic == MAGIC, "after %s the payload of node %zu is wrong", op, i);
        x = N(next)(x);
    }
    CHECK(x == N(end)(l), "after %s the list goes on after %zu nodes", op, m->n);
#if HAS_TAIL
    if(m->n > 0) CHECK(N(tail)(l) == &m->a[m->n - 1]->link, "after %s the tail of %zu nodes is wrong", op, m->n);
    else CHECK(N(tail)(l) == N(end)(l), "after %s the tail of an empty list is not the end", op);
#endif
#if HAS_PREV
    x = N(tail)(l);
    for(i = m->n; i-- > 0; ) {
        CHECK(x != N(end)(l), "after %s the backward walk ends early, at %zu of %zu", op, i, m->n);
        CHECK(x == &m->a[i]->link, "after %s the backward walk finds another node at %zu of %zu", op, i, m->n);
        x = N(prev)(x);
    }
    CHECK(x == N(end)(l), "after %s the backward walk goes on", op);
#endif
}

/* The payload around a node, wherever in its structure the node is. */
#define PACKED __attribute__((packed))
typedef struct PACKED P1 { char c; TN link; char end[3]; } P1;
typedef struct PACKED P5 { char c[5]; TN link; } P5;
typedef struct PACKED P0 { TN link; u16 a; TN two[2]; } P0;
typedef struct BIG { char c[70001]; union { u64 a; struct { char b; TN link[3]; } in; } u; } BIG;
static void payloads(void)
{
    static P1 a; static P5 b[3]; static P0 c; static BIG d[2];
    size_t i = (size_t) d_below(2), k = (size_t) d_below(3);
    const TN* q = &b[k].link;
    CHECK(TDATA(&a.link, P1, link) == &a, "the payload of a node at offset 1 is wrong");
    CHECK(TDATA(q, P5, link) == &b[k] && TDATA(&b[k].link, P5, link)->c == b[k].c, "the payload of a node at offset 5 is wrong");
    CHECK(TDATA(&c.link, P0, link) == &c, "the payload of a node at offset 0 is wrong");
    CHECK(TDATA(i ? &c.two[0] : &c.two[0], P0, two[0]) == &c && TDATA(&c.two[1], P0, two[1]) == &c, "the payload of a node of an array is wrong");
    CHECK(TDATA(d[i].u.in.link + 2, BIG, u.in.link[2]) == d + i, "the payload of a node far inside of a structure is wrong");
}

#define POOL 64
void vf_case(void)
{
    T l[2];
    MODEL m[2];
    size_t npool = 1 + d_below(d_bool() ? 6 : POOL), nfree;
    NODE** pool = (NODE**) h_malloc(npool * sizeof(NODE*));
    unsigned avg = d_avg();
    int ops = 0, mid = 0, rem = 0, most = 0, emptied[2] = { 0, 0 }, again = 0;
    size_t i;

    if(d_chance(1, 16)) payloads();
    for(i = 0; i < npool; i++) { pool[i] = (NODE*) h_malloc(sizeof(NODE)); memset(pool[i], 0xCC, sizeof(NODE)); pool[i]->magic = MAGIC; pool[i]->id = (u32) i; }
    nfree = npool;
    for(i = 0; i < 2; i++) {
        m[i].a = (NODE**) h_malloc((npool + 1) * sizeof(NODE*)); m[i].n = 0;
        memset(&l[i], 0x5d, sizeof(T));
        N(init)(&l[i]);
        same(&l[i], &m[i], "init");
    }
    while(d_more(avg) && ops++ < 3000) {
        int k = d_chance(1, 4);
        T* x = &l[k]; MODEL* y = &m[k];
        const char* op = "?";
        int kind = D_WEIGHTED(3, 3, 4, 3, 2, 3, 2, 2);
        NODE* fresh = NULL;
        size_t at;
        if(kind < 4) {
            if(nfree == 0) kind = 5;
            else {
                at = d_below(nfree);
                fresh = pool[at];
                pool[at] = pool[--nfree];
                memset(&fresh->link, 0xBB, sizeof(fresh->link));
            }
        }
        switch(kind) {
            case 0:
#if HAS_APPEND
                op = "append"; TRACE("list%d append %u", k, fresh->id);
                N(append)(x, &fresh->link);
                m_insert(y, y->n, fresh);
                if(emptied[k]) again = 1;
                break;
#endif
            case 1:
                op = "prepend"; TRACE("list%d prepend %u", k, fresh->id);
                N(prepend)(x, &fresh->link);
                m_insert(y, 0, fresh);
                break;
            case 2: /* after a node, or after the end position, which is the front */
                if(y->n == 0 || d_chance(1, 10)) {
                    op = "insert_after the end position"; TRACE("list%d insert_after end: %u", k, fresh->id);
                    N(insert_after)(x, (TN*) N(end)(x), &fresh->link);
                    m_insert(y, 0, fresh);
                } else {
                    at = d_size(y->n - 1);
                    op = "insert_after"; TRACE("list%d insert_after %zu of %zu: %u", k, at, y->n, fresh->id);
                    N(insert_after)(x, &y->a[at]->link, &fresh->link);
                    if(at + 1 < y->n) mid = 1;
                    m_insert(y, at + 1, fresh);
                }
                break;
            case 3:
#if HAS_PREV
                if(y->n == 0 || d_chance(1, 10)) {
                    op = "insert_before the end position"; TRACE("list%d insert_before end: %u", k, fresh->id);
                    N(insert_before)(x, (TN*) N(end)(x), &fresh->link);
                    m_insert(y, y->n, fresh);
                } else {
                    at = d_size(y->n - 1);
                    op = "insert_before"; TRACE("list%d insert_before %zu of %zu: %u", k, at, y->n, fresh->id);
                    N(insert_before)(x, &y->a[at]->link, &fresh->link);
                    if(at > 0) mid = 1;
                    m_insert(y, at, fresh);
                }
                break;
#else
                op = "insert_after the last"; TRACE("list%d insert_after the last: %u", k, fresh->id);
                N(insert_after)(x, y->n ? &y->a[y->n - 1]->link : (TN*) N(end)(x), &fresh->link);
                m_insert(y, y->n, fresh);
                break;
#endif
            case 4: /* move to the other list, or to another place */
                if(y->n == 0) break;
                at = d_size(y->n - 1);
                op = "move"; TRACE("list%d move %zu of %zu", k, at, y->n);
#if HAS_PREV
                N(remove)(x, &y->a[at]->link);
#else
                N(remove)(x, at ? &y->a[at - 1]->link : (TN*) N(end)(x), &y->a[at]->link);
#endif
                fresh = m_remove(y, at);
                if(y->n == 0) emptied[k] = 1;
                k = (int) d_below(2);
                N(prepend)(&l[k], &fresh->link);
                m_insert(&m[k], 0, fresh);
                rem = 1;
                break;
            case 5:
                if(y->n == 0) break;
                at = d_size(y->n - 1);
                op = "remove"; TRACE("list%d remove %zu of %zu", k, at, y->n);
#if HAS_PREV
                N(remove)(x, &y->a[at]->link);
#else
                N(remove)(x, at ? &y->a[at - 1]->link : (TN*) N(end)(x), &y->a[at]->link);
#endif
                pool[nfree++] = m_remove(y, at);
                memset(&pool[nfree - 1]->link, 0xDD, sizeof(TN));
                if(y->n == 0) emptied[k] = 1;
                rem = 1;
                break;
            case 6:
                if(y->n == 0) break;
                op = "remove_head"; TRACE("list%d remove_head of %zu", k, y->n);
                N(remove_head)(x);
                pool[nfree++] = m_remove(y, 0);
                memset(&pool[nfree - 1]->link, 0xDD, sizeof(TN));
                if(y->n == 0) emptied[k] = 1;
                rem = 1;
                break;
            case 7:
                if(y->n == 0) break;
#if HAS_PREV
                op = "remove_tail"; TRACE("list%d remove_tail of %zu", k, y->n);
                N(remove_tail)(x);
#else
                op = "removal of the last"; TRACE("list%d remove the last of %zu", k, y->n);
                at = y->n - 1;
                N(remove)(x, at ? &y->a[at - 1]->link : (TN*) N(end)(x), &y->a[at]->link);
#endif
                pool[nfree++] = m_remove(y, y->n - 1);
                memset(&pool[nfree - 1]->link, 0xDD, sizeof(TN));
                if(y->n == 0) emptied[k] = 1;
                rem = 1;
                break;
        }
        if(y->n >= 4) most = 1;
        same(&l[0], &m[0], op);
        same(&l[1], &m[1], op);
    }
    if(mid) vf_label("insertion in the middle");
    if(rem) vf_label("removal");
    if(again) vf_label("append to a list which was emptied");
    if(ops > 100) vf_label("more than 100 operations");
#if defined VF_C16
    if(mid && rem && most && again) vf_nontrivial();
#else
    if(mid && rem && most) vf_nontrivial();
#endif
}
