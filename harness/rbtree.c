/* C10-C13: the red-black tree. */
#include "pbt.h"
#include "rbtree.h"

const char vf_property[] = VF_PROPERTY;

typedef struct NODE {
    u32 magic;
    u32 key;
    RBTREE_NODE link;
    u32 id, tail;
} NODE;
#define MAGIC 0x7eeb1e55u
#define DATA(n) RBTREE_DATA(n, NODE, link)

static u64 n_cmp;
static int mag;

static int c(const RBTREE_NODE* a, const RBTREE_NODE* b)
{
    u32 x, y;
    int r;
    n_cmp++;
    CHECK(DATA(a)->magic == MAGIC && DATA(b)->magic == MAGIC, "the comparator got something that is no node of the tree");
    x = DATA(a)->key; y = DATA(b)->key;
    if(x == y) return 0;
    r = x < y ? -1 : 1;
    switch(mag) {
        case 0: return r;
        case 1: return r < 0 ? INT_MIN : INT_MAX;
        case 2: return r * (1 + (int) ((x ^ y) % 1000));
        case 3: return r * 65536;
        default: return (x + y) % 2 ? r * 256 : r * 0x40000000;
    }
}

static u32 opno;
static RBTREE_NODE* mkkey(NODE* k, u32 key) { memset(k, 0xEE, sizeof(*k)); k->magic = MAGIC; k->key = key; return &k->link; }

typedef struct { NODE** node; size_t n; u32 space; } MODEL;

extern int vf_rbv(RBTREE*) __asm__("rbtree_verify") __attribute__((weak));

static unsigned lim(size_t n) { unsigned k = 0; double x = 1, want = (double) n + 1; want *= want; while(x * 2 <= want) { x *= 2; k++; } return k; }   /* floor(2 * log2(n + 1)) */
static int verify_it, cost_checked;

static void cost(size_t n, u64 used, const char* op, unsigned passes)
{
    if(!verify_it) return;
    CHECK(used <= passes * (lim(n) + 2) - (passes == 1 ? 2 : 0), "%s among %zu nodes makes %llu comparisons (a balanced tree of that size has a height of at most %u)", op, n, (unsigned long long) used, lim(n));
    cost_checked = 1;
}

static void structure(RBTREE* t, const char* when)
{
    if(verify_it && vf_rbv) CHECK(vf_rbv(t) == 0, "%s: the tree breaks the rules of red-black trees", when);
}

static void check_lookup(RBTREE* t, MODEL* m, u32 key, const char* when)
{
    NODE k;
    u64 c0 = n_cmp;
    RBTREE_NODE* r = rbtree_lookup(t, m->node[key] && (opno++ & 1) ? &m->node[key]->link : mkkey(&k, key), c);
    if(m->node[key] == NULL) CHECK(r == NULL, "%s: lookup of absent key %u finds a node", when, key);
    else CHECK(r == &m->node[key]->link, "%s: lookup of key %u finds %s", when, key, r ? "another node" : "nothing");
    cost(m->n, n_cmp - c0, "lookup", 1);
}

static void check_walk(RBTREE* t, MODEL* m, const char* when)
{
    RBTREE_CURSOR cur;
    RBTREE_NODE* r;
    u32 k;
    size_t i = 0;
    CHECK(!!rbtree_is_empty(t) == (m->n == 0), "%s: is_empty is wrong with %zu nodes", when, m->n);
    r = rbtree_head(t, &cur);
    for(k = 0; k < m->space; k++) if(m->node[k]) {
        CHECK(r != NULL, "%s: the walk ends after %zu of %zu nodes", when, i, m->n);
        CHECK(r == &m->node[k]->link, "%s: node %zu of the walk is not the one with key %u", when, i, k);
        i++;
        r = rbtree_next(&cur);
    }
    CHECK(r == NULL, "%s: the walk goes on after %zu nodes", when, i);
    r = rbtree_tail(t, &cur);
    i = 0;
    for(k = m->space; k-- > 0; ) if(m->node[k]) {
        CHECK(r != NULL, "%s: the backward walk ends after %zu of %zu nodes", when, i, m->n);
        CHECK(r == &m->node[k]->link, "%s: node %zu of the backward walk is not the one with key %u", when, i, k);
        i++;
        r = rbtree_prev(&cur);
    }
    CHECK(r == NULL, "%s: the backward walk goes on after %zu nodes", when, i);
}

static void do_insert(RBTREE* t, MODEL* m, u32 key)
{
    NODE* x = (NODE*) h_malloc(sizeof(NODE));
    u64 c0 = n_cmp;
    int r;
    memset(x, d_chance(1, 2) ? 0xFF : 0x00, sizeof(*x));
    x->magic = MAGIC; x->key = key;
    if(m->node[key] != NULL && (opno++ & 3) == 0) { /* the very node which is in the tree */
        int r2 = rbtree_insert(t, &m->node[key]->link, c);
        CHECK(r2 == -1, "insertion of a node that is in the tree already returns %d", r2);
        c0 = n_cmp;
    }
    r = rbtree_insert(t, &x->link, c);
    cost(m->n, n_cmp - c0, "insertion", 2);
    if(m->node[key] != NULL) {
        CHECK(r == -1, "insertion of present key %u returns %d", key, r);
        memset(x, 0xDD, sizeof(*x));
        h_free(x);
    } else {
        CHECK(r == 0, "insertion of absent key %u returns %d", key, r);
        m->node[key] = x;
        m->n++;
    }
}

static void do_remove(RBTREE* t, MODEL* m, u32 key)
{
    NODE k;
    u64 c0 = n_cmp;
    NODE* x = m->node[key];
    RBTREE_NODE* r = rbtree_remove(t, x && (opno++ & 1) ? &x->link : mkkey(&k, key), c);
    cost(m->n, n_cmp - c0, "removal", 2);
    if(x == NULL) CHECK(r == NULL, "removal of absent key %u returns a node", key);
    else {
        CHECK(r == &x->link, "removal of key %u returns %s", key, r ? "another node" : "nothing");
        CHECK(x->magic == MAGIC && x->key == key, "the removed node was overwritten");
        m->node[key] = NULL;
        m->n--;
        memset(x, 0xDD, sizeof(*x));
        h_free(x);
    }
}

static void init_model(MODEL* m, u32 space) { m->space = space; m->n = 0; m->node = (NODE**) h_calloc(space * sizeof(NODE*)); }
static void init_tree(RBTREE* t)
{
    static const RBTREE init = RBTREE_INITIALIZER;
    if(d_bool()) *t = init;
    else { memset(t, 0x6b, sizeof(*t)); rbtree_init(t); }
}
static u32 draw_space(void)
{
    if(vf_profile == 2) return 100000 + (u32) d_below(400000);
    switch(D_WEIGHTED(4, 5, 3, 1)) {
        case 0: return 1 + (u32) d_below(12);
        case 1: return 1 + (u32) d_below(60);
        case 2: return 1 + (u32) d_below(500);
        default: return 1 + (u32) d_below(vf_profile ? 8000 : 2000);
    }
}
static u32 gcd1(u32 stride, u32 space) { while(space % stride == 0 && stride > 1) stride--; return stride; }

static int did_ins, did_rem, did_dup;

/* One step of a history; returns a measure of its cost. */
static size_t step(RBTREE* t, MODEL* m)
{
    size_t i, k;
    u32 key, stride;
    switch(vf_profile == 2 && m->n < 50000 ? 3 : D_WEIGHTED(7, 6, 2, 2, 2)) {
        case 0:
            key = (u32) d_below(m->space);
            if(m->node[key]) did_dup = 1; else did_ins = 1;
            TRACE("insert %u", key);
            do_insert(t, m, key);
            check_lookup(t, m, key, "after an insertion");
            structure(t, "after an insertion");
            return 1;
        case 1:
            key = (u32) d_below(m->space);
            if(m->node[key]) did_rem = 1;
            TRACE("remove %u", key);
            do_remove(t, m, key);
            check_lookup(t, m, key, "after a removal");
            structure(t, "after a removal");
            return 1;
        case 2:
            key = (u32) d_below(m->space);
            TRACE("lookup %u", key);
            check_lookup(t, m, key, "lookup");
            return 1;
        default: {
            int ins = d_chance(3, 5) || (vf_profile == 2 && m->n < 1000);
            u64 s = 0;
            int kind = (int) d_below(4);
            k = vf_profile == 2 && m->n < 50000 ? m->space / 2 + (size_t) d_below(m->space / 2) : d_size(m->space); key = (u32) d_below(m->space);
            stride = kind == 2 ? 1 + (u32) d_below(m->space) : 1;
            if(kind == 3) s = d_seed();
            TRACE("%s %zu keys from %u, order %d/%u (of %zu present)", ins ? "insert" : "remove", k, key, kind, stride, m->n);
            for(i = 0; i < k; i++) {
                u32 y = kind == 0 ? (u32) ((key + i) % m->space) : kind == 1 ? (u32) ((key + m->space - i % m->space) % m->space)
                      : kind == 2 ? (u32) ((key + i * stride) % m->space) : (u32) (vf_next(&s) % m->space);
                if(ins) do_insert(t, m, y); else do_remove(t, m, y);
                if(k < 40 || i % (vf_profile == 2 ? 50000 : 64) == 0) structure(t, "in a run");
            }
            structure(t, "after a run");
            if(k) { if(ins) did_ins = 1; else did_rem = 1; }
            return k;
        }
    }
}

/* A second tree, worked on in between. */
static RBTREE T2;
static MODEL M2;
static int have2, drain2;

static void other_init(void)
{
    have2 = vf_profile < 2 && d_chance(1, 4);
    drain2 = 0;
    if(have2) { init_tree(&T2); init_model(&M2, 1 + (u32) d_below(60)); TRACE("there is a second tree"); vf_label("a second tree in between"); }
}
static void other_drain(int steps)
{
    drain2 = 1;
    while(steps-- > 0) {
        RBTREE_NODE* r = rbtree_fini_step(&T2);
        NODE* x;
        if(M2.n == 0) { CHECK(r == NULL, "second tree: the clean-up returns too many nodes"); drain2 = 0; break; }
        CHECK(r != NULL, "second tree: the clean-up ends with %zu nodes left", M2.n);
        x = DATA(r);
        CHECK(x->magic == MAGIC && x->key < M2.space && M2.node[x->key] == x, "second tree: the clean-up returns something that is no node of it, or a node again");
        M2.node[x->key] = NULL; M2.n--;
        memset(x, 0xDD, sizeof(*x)); h_free(x);
    }
}
static void other(unsigned den)
{
    int k;
    if(!have2 || !d_chance(1, den)) return;
    for(k = 1 + (int) d_below(3); k > 0; k--) {
        u32 key = (u32) d_below(M2.space);
        int what = drain2 ? 4 : (int) D_WEIGHTED(5, 2, 1, 1, 1);
        TRACE("second tree: %s %u", what == 0 ? "insert" : what == 1 ? "remove" : what == 2 ? "lookup" : what == 3 ? "walk" : "clean-up", key);
        switch(what) {
            case 0: do_insert(&T2, &M2, key); break;
            case 1: do_remove(&T2, &M2, key); break;
            case 2: check_lookup(&T2, &M2, key, "second tree"); break;
            case 3: check_walk(&T2, &M2, "second tree"); break;
            default: other_drain(1 + (int) d_below(4)); break;
        }
    }
}
static void other_end(void)
{
    if(!have2) return;
    if(!drain2) check_walk(&T2, &M2, "second tree, at the end");
    other_drain((int) M2.n + 1);
}

static void drop(MODEL* m) { u32 k; for(k = 0; k < m->space; k++) if(m->node[k]) { h_free(m->node[k]); m->node[k] = NULL; } m->n = 0; }

#if defined VF_C10 || defined VF_C11

#ifdef VF_C10
const char vf_rule[] = "nodes were inserted and removed, and at least 8 nodes were in the tree at once";
#else
const char vf_rule[] = "nodes were inserted and removed, at least 8 nodes were in the tree at once, and comparisons were counted";
#endif

void vf_case(void)
{
    RBTREE t;
    MODEL m;
    unsigned avg = d_avg();
    size_t work = 0, most = 0;
    int n = 0;
    did_ins = did_rem = did_dup = cost_checked = 0;
#ifdef VF_C11
    verify_it = 1;
#else
    verify_it = 0;
#endif
    mag = (int) d_below(5);
    opno = (u32) d_below(4);
    init_tree(&t);
    init_model(&m, draw_space());
    other_init();
    if(vf_profile == 2) work += step(&t, &m);
    while(d_more(avg) && work < (vf_profile == 2 ? 1000000u : vf_profile ? 50000u : 12000u)) {
        work += step(&t, &m);
        other(3);
        if(m.n > most) most = m.n;
#ifdef VF_C10
        if(m.space <= 60 || ++n % 16 == 0) { check_walk(&t, &m, "in the history"); work += m.space / 8; }
#endif
    }
    (void) n;
#ifdef VF_C10
    { u32 k; check_walk(&t, &m, "at the end"); for(k = 0; k < m.space; k++) check_lookup(&t, &m, k, "at the end"); }
#else
    { u32 k; structure(&t, "at the end"); for(k = 0; k < m.space; k++) check_lookup(&t, &m, k, "at the end"); }
#endif
    if(d_bool()) { /* take everything out */
        u32 k, stride = gcd1(1 + (u32) d_below(m.space), m.space), i;
        for(i = 0; i < m.space; i++) { do_remove(&t, &m, (u32) (((u64) i * stride) % m.space)); if(m.space < 300) structure(&t, "while emptying"); }
        for(k = 0; k < m.space; k++) do_remove(&t, &m, k);
        check_walk(&t, &m, "emptied");
    }
    if(did_dup) vf_label("present key inserted again");
    if(did_rem) vf_label("removals");
    if(most >= 100) vf_label("100 nodes and more");
    if(did_ins && did_rem && most >= 8) vf_nontrivial();
    other_end();
    drop(&m);
}

#elif defined VF_C12

const char vf_rule[] = "a cursor was moved at least 8 times, in both directions, in a tree of at least 4 nodes";

void vf_case(void)
{
    static const RBTREE_CURSOR init = RBTREE_CURSOR_INITIALIZER;
    RBTREE t;
    MODEL m;
    RBTREE_CURSOR cur[2];
    int rounds = 1 + (int) d_below(4), round, moves = 0, fwd = 0, back = 0, miss = 0, edge = 0, big = 0;
    mag = (int) d_below(5);
    opno = (u32) d_below(4);
    verify_it = 0;
    did_ins = did_rem = did_dup = 0;
    init_tree(&t);
    init_model(&m, draw_space());
    other_init();
    for(round = 0; round < rounds; round++) {
        unsigned avg = d_avg(), wavg = 4 + (unsigned) d_below(60);
        size_t work = vf_profile == 2 ? step(&t, &m) : 0;
        NODE** seq;
        i64 pos[2] = { -1, -1 };     /* -1: the cursor points nowhere */
        size_t n = 0, i;
        u32 k;
        while(d_more(avg) && work < (vf_profile == 2 ? 600000u : 8000u)) work += step(&t, &m);
        seq = (NODE**) h_malloc((m.n + 1) * sizeof(NODE*));
        for(k = 0; k < m.space; k++) if(m.node[k]) seq[n++] = m.node[k];
        if(n >= 4) big = 1;
        cur[0] = cur[1] = init;
        CHECK(rbtree_current(&cur[0]) == NULL, "an initialised cursor designates a node");
        i = 0;
        while(d_more(wavg) && i++ < 4000) {
            int w = (int) d_below(2);
            RBTREE_CURSOR* q = &cur[w];
            RBTREE_NODE* r;
            NODE kk;
            other(6);
            switch(D_WEIGHTED(8, 8, 2, 2, 3)) {
                case 0:
                    r = rbtree_next(q);
                    TRACE("cursor %d at %lld of %zu: next", w, (long long) pos[w], n);
                    if(pos[w] < 0) CHECK(r == NULL, "next from nowhere gives a node");
                    else if((size_t) pos[w] + 1 >= n) { CHECK(r == NULL, "next of the last of %zu nodes gives a node", n); edge = 1; }
                    else { pos[w]++; CHECK(r == &seq[pos[w]]->link, "next of node %lld of %zu gives %s", (long long) pos[w] - 1, n, r ? "another node than the successor" : "NULL"); moves++; fwd = 1; }
                    break;
                case 1:
                    r = rbtree_prev(q);
                    TRACE("cursor %d at %lld of %zu: prev", w, (long long) pos[w], n);
                    if(pos[w] < 0) CHECK(r == NULL, "prev from nowhere gives a node");
                    else if(pos[w] == 0) { CHECK(r == NULL, "prev of the first of %zu nodes gives a node", n); edge = 1; }
                    else { pos[w]--; CHECK(r == &seq[pos[w]]->link, "prev of node %lld of %zu gives %s", (long long) pos[w] + 1, n, r ? "another node than the predecessor" : "NULL"); moves++; back = 1; }
                    break;
                case 2:
                    if(n == 0 && pos[w] >= 0) break;
                    TRACE("cursor %d: head", w);
                    if(n > 0 && d_bool()) memset(q, 0xAB, sizeof(*q));
                    r = rbtree_head(&t, q);
                    CHECK(r == (n ? &seq[0]->link : NULL), "head of %zu nodes is wrong", n);
                    pos[w] = n ? 0 : -1;
                    break;
                case 3:
                    if(n == 0 && pos[w] >= 0) break;
                    TRACE("cursor %d: tail", w);
                    if(n > 0 && d_bool()) memset(q, 0xAB, sizeof(*q));
                    r = rbtree_tail(&t, q);
                    CHECK(r == (n ? &seq[n - 1]->link : NULL), "tail of %zu nodes is wrong", n);
                    pos[w] = n ? (i64) n - 1 : -1;
                    break;
                default: {
                    u32 key = n > 0 && d_bool() ? seq[d_below(n)]->key : (u32) d_below(m.space);
                    TRACE("cursor %d: lookup_ex %u", w, key);
                    if(d_bool()) memset(q, 0xAB, sizeof(*q));
                    r = rbtree_lookup_ex(&t, mkkey(&kk, key), c, q);
                    CHECK(r == (m.node[key] ? &m.node[key]->link : NULL), "lookup with a cursor of key %u gives a wrong result", key);
                    if(m.node[key] == NULL) { pos[w] = -1; miss = 1; }
                    else { size_t lo = 0, hi = n; while(hi - lo > 1) { size_t mid = (lo + hi) / 2; if(seq[mid]->key <= key) lo = mid; else hi = mid; } pos[w] = (i64) lo; }
                    break;
                }
            }
            { int z; for(z = 0; z < 2; z++) {
                r = rbtree_current(&cur[z]);
                CHECK(r == (pos[z] < 0 ? NULL : &seq[pos[z]]->link), "the cursor designates %s node at position %lld of %zu", r ? "another" : "no", (long long) pos[z], n);
            } }
        }
        check_walk(&t, &m, "after cursor moves");
        h_free(seq);
    }
    if(miss) vf_label("lookup of an absent key");
    if(edge) vf_label("stopped at an end");
    if(moves > 50) vf_label("more than 50 moves");
    if(moves >= 8 && fwd && back && big) vf_nontrivial();
    other_end();
    drop(&m);
}

#elif defined VF_C13

const char vf_rule[] = "a tree of at least 8 nodes, built by insertions and removals, was cleaned up and used again";

void vf_case(void)
{
    RBTREE t;
    MODEL m;
    int rounds = 2 + (int) d_below(2), round, big = 0, rem = 0;
    mag = (int) d_below(5);
    opno = (u32) d_below(4);
    verify_it = 0;
    init_tree(&t);
    init_model(&m, draw_space());
    other_init();
    for(round = 0; round < rounds; round++) {
        unsigned avg = d_avg();
        size_t work = vf_profile == 2 ? step(&t, &m) : 0, n, i;
        int how = (int) d_below(3);
        u32 k;
        did_ins = did_rem = did_dup = 0;
        while(d_more(avg) && work < (vf_profile == 2 ? 600000u : 8000u)) { work += step(&t, &m); other(2); }
        if(did_rem) rem = 1;
        n = m.n;
        if(n >= 8 && did_rem && round + 1 < rounds) big = 1;
        TRACE("clean-up of %zu nodes", n);
        for(i = 0; i < n; i++) {
            RBTREE_NODE* r;
            NODE* x;
            other(3);
            r = rbtree_fini_step(&t);
            CHECK(r != NULL, "the clean-up ends after %zu of %zu nodes", i, n);
            x = DATA(r);
            CHECK(x->magic == MAGIC && x->key < m.space && m.node[x->key] == x, "the clean-up returns something that is no node of the tree, or a node again");
            m.node[x->key] = NULL;
            m.n--;
            if(how == 0) { memset(x, 0xDD, sizeof(*x)); h_free(x); }
            else if(how == 1) { memset(&x->link, 0xDD, sizeof(x->link)); x->magic = 0; }
            else { x->magic = 0; }
            if(i + 1 < n) CHECK(!rbtree_is_empty(&t), "the tree is empty after %zu of %zu nodes", i + 1, n);
        }
        CHECK(rbtree_fini_step(&t) == NULL, "the clean-up returns more than %zu nodes", n);
        CHECK(rbtree_fini_step(&t) == NULL, "the clean-up starts again");
        CHECK(rbtree_is_empty(&t), "the tree is not empty after the clean-up");
        check_walk(&t, &m, "after the clean-up");
        for(k = 0; k < m.space && k < 20; k++) check_lookup(&t, &m, k, "after the clean-up");
    }
    if(big) vf_label("8 nodes and more");
    if(rem) vf_label("after removals");
    if(big) vf_nontrivial();
    other_end();
    drop(&m);
}
#endif
