/* C06-C09: the hash table. */
#include "pbt.h"
#include "htable.h"

const char vf_property[] = VF_PROPERTY;

typedef struct NODE {
    u32 magic;
    u32 key;
    HTABLE_NODE link;
    u32 id;
    int in;             /* in the table */
    int seen;
} NODE;
#define MAGIC 0x1badb002u
#define DATA(n) HTABLE_DATA(n, NODE, link)

static int hash_kind;
static u32 hash_salt;
static u64 n_cmp, n_hash;

static u32 hash_of(u32 key)
{
    switch(hash_kind) {
        case 0: return (u32) vf_mix(key + ((u64) hash_salt << 32));
        case 1: return key;
        case 2: return hash_salt;                       /* constant */
        case 3: return (key & 3) + hash_salt;           /* four values */
        case 4: return key * 59u;
        case 5: return key * (59u << (hash_salt % 8));
        case 6: return key << 20;
        case 7: return 0xffffffffu - key;
        case 8: return (u32) vf_mix(key / 8 + hash_salt);  /* clusters */
        default: return (key & 1) ? (u32) vf_mix(key) : 17;
    }
}
static u32 h(const HTABLE_NODE* n) { n_hash++; CHECK(DATA(n)->magic == MAGIC, "the hash function got something that is no node"); return hash_of(DATA(n)->key); }
static int c(const HTABLE_NODE* a, const HTABLE_NODE* b)
{
    static const int diff[6] = { 1, -1, INT_MAX, INT_MIN, 256, 65536 };
    n_cmp++;
    CHECK(DATA(a)->magic == MAGIC && DATA(b)->magic == MAGIC, "the comparator got something that is no node");
    if(DATA(a)->key == DATA(b)->key) return 0;
    return diff[(DATA(a)->key ^ DATA(b)->key) % 6];
}

static u32 opno;
static HTABLE_NODE* mkkey(NODE* k, u32 key) { memset(k, 0xEE, sizeof(*k)); k->magic = MAGIC; k->key = key; return &k->link; }

/* ---- the model: nodes by key ---- */
typedef struct { NODE** node; size_t cap, n; u32 space; } MODEL;   /* node[key]: the node in the table, or NULL */

static NODE* newnode(u32 key, u32 id)
{
    NODE* x = (NODE*) h_malloc(sizeof(NODE));
    memset(x, 0xCD, sizeof(*x));
    x->magic = MAGIC; x->key = key; x->id = id; x->in = 0; x->seen = 0;
    return x;
}

static void check_lookup(HTABLE* t, u32 key, NODE* want, const char* when)
{
    NODE k;
    HTABLE_NODE* r = htable_lookup(t, want && (opno++ & 1) ? &want->link : mkkey(&k, key), c, h);
    if(want == NULL) CHECK(r == NULL, "%s: lookup of absent key %u finds a node", when, key);
    else {
        CHECK(r != NULL, "%s: lookup of present key %u finds nothing", when, key);
        CHECK(r == &want->link, "%s: lookup of key %u finds another node than the one inserted", when, key);
    }
}

static void check_all(HTABLE* t, MODEL* m, const char* when)
{
    u32 k;
    CHECK(!!htable_is_empty(t) == (m->n == 0), "%s: is_empty is wrong with %zu nodes", when, m->n);
    for(k = 0; k < m->space; k++)
        check_lookup(t, k, m->node[k], when);
}

static void do_insert(HTABLE* t, MODEL* m, u32 key, int unsafe)
{
    NODE* x = newnode(key, 0);
    int r = unsafe && m->node[key] == NULL ? htable_insert_unsafe(t, &x->link, c, h) : htable_insert(t, &x->link, c, h);
    if(m->node[key] != NULL) {
        CHECK(r == -1, "insertion of present key %u returns %d", key, r);
        if((opno++ & 3) == 0) { /* the very node which is in the table */
            r = htable_insert(t, &m->node[key]->link, c, h);
            CHECK(r == -1, "insertion of a node that is in the table already returns %d", r);
        }
        memset(x, 0xDD, sizeof(*x));
        h_free(x);
    } else {
        CHECK(r == 0, "insertion of absent key %u returns %d", key, r);
        m->node[key] = x;
        x->in = 1;
        m->n++;
    }
}

static void do_remove(HTABLE* t, MODEL* m, u32 key)
{
    NODE k;
    NODE* x = m->node[key];
    HTABLE_NODE* r = htable_remove(t, x && (opno++ & 1) ? &x->link : mkkey(&k, key), c, h);
    if(x == NULL) CHECK(r == NULL, "removal of absent key %u returns a node", key);
    else {
        CHECK(r == &x->link, "removal of key %u returns %s", key, r ? "another node" : "nothing");
        CHECK(x->magic == MAGIC && x->key == key, "the removed node was overwritten");
        m->node[key] = NULL;
        m->n--;
        memset(x, 0xDD, sizeof(*x));
        h_free(x);
    }
}

static void init_model(MODEL* m, u32 space) { m->space = space; m->n = 0; m->node = (NODE**) h_calloc(space * sizeof(NODE*)); }

static u32 draw_space(void)
{
    if(vf_profile == 2) { static const int good[3] = { 0, 1, 7 }; hash_kind = good[d_below(3)]; return 100000 + (u32) d_below(400000); }
    switch(D_WEIGHTED(4, 4, 3, 1)) {
        case 0: return 1 + (u32) d_below(40);
        case 1: return 1 + (u32) d_below(300);
        case 2: return 1 + (u32) d_below(1200);
        default: return 1 + (u32) d_below(vf_profile ? 9000 : 2500);
    }
}

static void init_table(HTABLE* t)
{
    static const HTABLE init = HTABLE_INITIALIZER;
    if(d_bool()) *t = init;
    else { memset(t, 0x6b, sizeof(*t)); htable_init(t); }
}

/* One step of a history; returns a label of what it did. */
static size_t step(HTABLE* t, MODEL* m, int* grew, int* removed, int* dup)
{
    size_t i, k, n0 = m->n;
    u32 key, stride;
    NODE q;
    (void) n0;
    switch(vf_profile == 2 && m->n < 50000 ? 3 : D_WEIGHTED(6, 4, 3, 2, 2, 1)) {
        case 0:
            key = (u32) d_below(m->space);
            if(m->node[key]) *dup = 1;
            TRACE("insert %u", key);
            do_insert(t, m, key, d_chance(1, 4));
            check_lookup(t, key, m->node[key], "after an insertion");
            return 1;
        case 1:
            key = (u32) d_below(m->space);
            if(m->node[key]) *removed = 1;
            TRACE("remove %u", key);
            do_remove(t, m, key);
            check_lookup(t, key, NULL, "after a removal");
            return 1;
        case 2:
            key = (u32) d_below(m->space);
            TRACE("lookup %u", key);
            check_lookup(t, key, m->node[key], "lookup");
            (void) q;
            return 1;
        case 3: /* a run of insertions */
            k = vf_profile == 2 && m->n < 50000 ? m->space / 2 + (size_t) d_below(m->space / 2) : d_size(m->space); key = (u32) d_below(m->space); stride = 1 + (u32) d_below(7);
            TRACE("insert %zu keys from %u step %u (of %zu present)", k, key, stride, m->n);
            for(i = 0; i < k; i++) { u32 y = (u32) ((key + i * stride) % m->space); do_insert(t, m, y, i % 3 == 0); }
            if(m->n > 59) *grew = 1;
            return k;
        case 4: /* a run of removals */
            k = d_size(m->space); key = (u32) d_below(m->space); stride = 1 + (u32) d_below(7);
            TRACE("remove %zu keys from %u step %u (of %zu present)", k, key, stride, m->n);
            for(i = 0; i < k; i++) { u32 y = (u32) ((key + i * stride) % m->space); do_remove(t, m, y); }
            if(k) *removed = 1;
            return k;
        default:
            check_all(t, m, "full check");
            return m->space;
    }
}

/* A second table, worked on in between. */
static HTABLE T2;
static MODEL M2;
static int have2;

static void other_init(void)
{
    have2 = vf_profile < 2 && d_chance(1, 4);
    if(have2) { init_table(&T2); init_model(&M2, 1 + (u32) d_below(d_bool() ? 300 : 12)); TRACE("there is a second table"); vf_label("a second table in between"); }
}
static void other(unsigned den)
{
    int k;
    if(!have2 || !d_chance(1, den)) return;
    for(k = 1 + (int) d_below(3); k > 0; k--) {
        u32 key = (u32) d_below(M2.space), i;
        int what = (int) D_WEIGHTED(5, 2, 1, 1, 1);
        TRACE("second table: %s %u", what == 0 ? "insert" : what == 1 ? "remove" : what == 2 ? "lookup" : what == 3 ? "insertions from" : "clean-up", key);
        switch(what) {
            case 0: do_insert(&T2, &M2, key, 0); break;
            case 1: do_remove(&T2, &M2, key); break;
            case 2: check_lookup(&T2, key, M2.node[key], "second table"); break;
            case 3: for(i = 0; i < 70; i++) do_insert(&T2, &M2, (key + i) % M2.space, (int) (i & 1)); break;
            default:
                htable_fini(&T2, NULL);
                for(i = 0; i < M2.space; i++) if(M2.node[i]) { h_free(M2.node[i]); M2.node[i] = NULL; }
                M2.n = 0;
                break;
        }
    }
}
static void other_end(void)
{
    u32 i;
    if(!have2) return;
    check_all(&T2, &M2, "second table, at the end");
    htable_fini(&T2, NULL);
    for(i = 0; i < M2.space; i++) if(M2.node[i]) { h_free(M2.node[i]); M2.node[i] = NULL; }
    have2 = 0;
}

/* ---- destructor ---- */
static int dtor_frees;
static size_t dtor_calls;
static void dtor(HTABLE_NODE* n)
{
    NODE* x = DATA(n);
    dtor_calls++;
    other(4);
    CHECK(x->magic == MAGIC, "the destructor got something that is no node in the table (or a node again)");
    CHECK(x->in == 1, "the destructor got a node which is not in the table");
    CHECK(x->seen == 0, "the destructor got a node twice");
    x->seen = 1;
    if(dtor_frees) { memset(x, 0xDD, sizeof(*x)); h_free(x); }
    else memset(&x->link, 0x99, sizeof(x->link));
}

/* ------------------------------------------------------------------ */
#if defined VF_C06

const char vf_rule[] = "more than 59 nodes were in the table at once, nodes were removed, and a present key was inserted again; or duplicates were inserted without the check";

static void duplicates(void)
{
    HTABLE t;
    u32 space = 1 + (u32) d_below(d_bool() ? 6 : 60), key;
    NODE*** nodes = (NODE***) h_calloc(space * sizeof(NODE**));
    size_t* cnt = (size_t*) h_calloc(space * sizeof(size_t));
    size_t total = 0, most = 0;
    unsigned avg = d_avg();
    int ops = 0;
    NODE q;
    init_table(&t);
    while(d_more(avg) && ops++ < 2000) {
        size_t times = d_chance(1, 8) ? d_size(200) : 1;
        key = (u32) d_below(space);
        if(d_chance(2, 3)) {
            TRACE("insert_unsafe %u x %zu", key, times);
            while(times--) {
                NODE* x = newnode(key, 0);
                CHECK(htable_insert_unsafe(&t, &x->link, c, h) == 0, "insert_unsafe failed");
                x->in = 1;
                nodes[key] = (NODE**) h_realloc(nodes[key], (cnt[key] + 1) * sizeof(NODE*));
                nodes[key][cnt[key]++] = x;
                total++;
                if(cnt[key] > most) most = cnt[key];
            }
        } else {
            TRACE("remove %u x %zu", key, times);
            while(times--) {
                HTABLE_NODE* r = htable_remove(&t, mkkey(&q, key), c, h);
                size_t i;
                if(cnt[key] == 0) { CHECK(r == NULL, "removal of an absent key returns a node"); break; }
                CHECK(r != NULL, "removal of a key with %zu nodes returns nothing", cnt[key]);
                for(i = 0; i < cnt[key] && &nodes[key][i]->link != r; i++);
                CHECK(i < cnt[key], "removal returns a node of another key or one not in the table");
                h_free(nodes[key][i]);
                nodes[key][i] = nodes[key][--cnt[key]];
                total--;
            }
        }
        CHECK(!!htable_is_empty(&t) == (total == 0), "is_empty is wrong with %zu nodes", total);
        { HTABLE_NODE* r; size_t i;
          key = (u32) d_below(space);
          r = htable_lookup(&t, mkkey(&q, key), c, h);
          CHECK((r != NULL) == (cnt[key] > 0), "lookup of a key with %zu nodes finds %s", cnt[key], r ? "one" : "none");
          for(i = 0; i < cnt[key] && &nodes[key][i]->link != r; i++);
          CHECK(r == NULL || i < cnt[key], "lookup finds a node not in the table"); }
        { NODE* x = newnode(key, 0);
          if(cnt[key] > 0) CHECK(htable_insert(&t, &x->link, c, h) == -1, "insertion of a present key succeeds");
          h_free(x); }
    }
    for(key = 0; key < space; key++) {
        while(cnt[key] > 0) {
            HTABLE_NODE* r = htable_remove(&t, mkkey(&q, key), c, h);
            size_t i;
            CHECK(r != NULL, "only some of the nodes with an equal key can be removed");
            for(i = 0; i < cnt[key] && &nodes[key][i]->link != r; i++);
            CHECK(i < cnt[key], "removal returns a node of another key or one not in the table");
            h_free(nodes[key][i]);
            nodes[key][i] = nodes[key][--cnt[key]];
        }
        CHECK(htable_remove(&t, mkkey(&q, key), c, h) == NULL, "more nodes were removed than inserted");
    }
    CHECK(htable_is_empty(&t), "not empty after all nodes were removed");
    vf_label("duplicates");
    if(most >= 2 && ops >= 3) vf_nontrivial();
    htable_fini(&t, NULL);
}

void vf_case(void)
{
    HTABLE t;
    MODEL m;
    int grew = 0, removed = 0, dup = 0;
    unsigned avg = d_avg();
    size_t work = 0;
    hash_kind = (int) d_below(10);
    opno = (u32) d_below(4);
    hash_salt = (u32) d_below(d_bool() ? 1000 : 1ull << 32);
    if(vf_profile < 2 && d_chance(1, 6)) { duplicates(); return; }
    init_table(&t);
    init_model(&m, draw_space());
    other_init();
    if((hash_kind == 2 || hash_kind == 3 || hash_kind == 9) && m.space > 400) m.space = 400;
    if((hash_kind >= 4 && hash_kind <= 7) && m.space > 1500 && vf_profile < 2) m.space = 1500;
    TRACE("hash %d/%u, %u keys", hash_kind, hash_salt, m.space);
    while(d_more(avg) && work < (vf_profile == 2 ? 1000000u : vf_profile ? 60000u : 20000u)) { work += step(&t, &m, &grew, &removed, &dup); other(3); }
    check_all(&t, &m, "at the end");
    if(grew) vf_label("more than one level");
    if(m.n > 413) vf_label("more than three levels at the end");
    if(dup) vf_label("present key inserted again");
    if(grew && removed) vf_nontrivial();
    if(d_bool()) { /* empty it by removals */
        u32 k;
        for(k = 0; k < m.space; k++) { do_remove(&t, &m, k); if(k < 8 || k % 64 == 0) check_lookup(&t, m.space - 1, m.node[m.space - 1], "while emptying"); }
        CHECK(htable_is_empty(&t), "not empty after all nodes were removed");
    }
    other_end();
    htable_fini(&t, NULL);
}

#elif defined VF_C07

const char vf_rule[] = "the table held more than 59 nodes at its first clean-up, and was used again after it";

void vf_case(void)
{
    HTABLE t;
    MODEL m;
    int grew = 0, removed = 0, dup = 0, round, rounds = 1 + (int) d_below(3), big = 0;
    hash_kind = (int) d_below(10);
    opno = (u32) d_below(4);
    hash_salt = (u32) d_below(1000);
    init_table(&t);
    init_model(&m, draw_space());
    other_init();
    if((hash_kind == 2 || hash_kind == 3 || hash_kind == 9) && m.space > 300) m.space = 300;
    if((hash_kind >= 4 && hash_kind <= 7) && m.space > 1000 && vf_profile < 2) m.space = 1000;
    for(round = 0; round <= rounds; round++) {
        unsigned avg = d_avg();
        size_t work = 0, n;
        u32 k;
        int use_dtor;
        while(d_more(avg) && work < (vf_profile == 2 ? 600000u : 15000u)) { work += step(&t, &m, &grew, &removed, &dup); other(3); }
        n = m.n;
        if(n > 59 && round == 0) big = 1;
        dtor_calls = 0;
        dtor_frees = d_bool();
        use_dtor = d_chance(4, 5);
        TRACE("fini of %zu nodes (%s)", n, use_dtor ? dtor_frees ? "freeing" : "not freeing" : "no destructor");
        htable_fini(&t, use_dtor ? dtor : NULL);
        if(use_dtor) CHECK(dtor_calls == n, "the destructor was called %zu times for %zu nodes", dtor_calls, n);
        if(!have2) CHECK(vf_live_bytes() == 0, "%zu bytes are still held after the clean-up", vf_live_bytes());
        CHECK(htable_is_empty(&t), "not empty after the clean-up");
        for(k = 0; k < m.space; k++) {
            if(m.node[k] != NULL && !(use_dtor && dtor_frees)) {
                if(use_dtor) CHECK(m.node[k]->seen == 1, "a node was not given to the destructor");
                h_free(m.node[k]);
            }
            m.node[k] = NULL;
        }
        m.n = 0;
        if(d_bool()) check_all(&t, &m, "after the clean-up");
        if(d_chance(1, 4)) {
            dtor_calls = 0;
            htable_fini(&t, dtor);
            CHECK(dtor_calls == 0, "a second clean-up calls the destructor");
        }
    }
    if(big) vf_label("more than 59 nodes cleaned");
    if(removed) vf_label("removals before the clean-up");
    if(big && rounds > 0) vf_nontrivial();
    other_end();
}

#elif defined VF_C08

const char vf_rule[] = "the cost of at least 200 lookups was measured in a table of more than 177 nodes";

static double lg(double x) { double r = 0; while(x >= 2) { x /= 2; r += 1; } return r + (x - 1); }

static void measure(HTABLE* t, MODEL* m, const char* when)
{
    u64 c0 = n_cmp;
    size_t i, k = m->space < 400 ? m->space : 400;
    u64 s = d_seed();
    NODE q;
    double avg, bound = 3 * (lg(m->n / 59.0 + 1) + 2) + 1;
    CHECK(vf_live_bytes() <= 64 * m->n + 4096, "%s: a table of %zu nodes holds %zu bytes", when, m->n, vf_live_bytes());
    if(k < 100) return;
    for(i = 0; i < k; i++) {
        u32 key = (u32) (vf_next(&s) % m->space);
        HTABLE_NODE* r = htable_lookup(t, mkkey(&q, key), c, h);
        CHECK(r == (m->node[key] ? &m->node[key]->link : NULL), "%s: lookup of key %u is wrong", when, key);
    }
    avg = (double) (n_cmp - c0) / (double) k;
    CHECK(avg <= bound, "%s: lookups in a table of %zu nodes compare %.1f nodes on average (at most %.1f expected)", when, m->n, avg, bound);
    if(m->n > 177 && k >= 200) vf_nontrivial();
    if(m->n > 177) vf_label("measured beyond 177 nodes");
    if(m->n > 2000) vf_label("measured beyond 2000 nodes");
}

void vf_case(void)
{
    HTABLE t;
    MODEL m;
    int grew = 0, removed = 0, dup = 0, i;
    unsigned avg = 1 + (unsigned) d_below(8);
    size_t work = 0;
    u32 space = d_chance(1, 3) ? 200 + (u32) d_below(600) : 200 + (u32) d_below(vf_profile == 2 ? 2500000 : vf_profile ? 60000 : 8000);
    n_cmp = 0;
    hash_kind = 0;
    opno = (u32) d_below(4);
    hash_salt = (u32) d_below(1000000);
    init_table(&t);
    init_model(&m, space);
    if(vf_profile == 2 && d_chance(3, 4)) {
        u32 j, most = space - (u32) d_below(space / 4);
        TRACE("insert %u keys", most);
        for(j = 0; j < most; j++) { do_insert(&t, &m, j, 1); if((j & (j - 1)) == 0) measure(&t, &m, "in a run of insertions"); }
        measure(&t, &m, "after a run of insertions");
        if(d_bool()) { for(j = 0; j < most; j++) { do_remove(&t, &m, j); if(j % 100000 == 0 || (most - j) % 60000 == 0) measure(&t, &m, "in a run of removals"); } measure(&t, &m, "after a run of removals"); }
    }
    for(i = 0; i < 200 && d_more(avg) && work < (vf_profile == 2 ? 4000000u : 200000u); i++) {
        switch(D_WEIGHTED(4, 2, 2, 1)) {
            case 0: case 1: { /* a run of insertions or removals */
                size_t k = d_size(space), j;
                u32 key = (u32) d_below(space), stride = 1 + (u32) d_below(5);
                int ins = !d_chance(1, 3);
                TRACE("%s %zu keys from %u step %u (of %zu)", ins ? "insert" : "remove", k, key, stride, m.n);
                for(j = 0; j < k; j++) { u32 y = (u32) ((key + j * stride) % space); if(ins) do_insert(&t, &m, y, 1); else do_remove(&t, &m, y); }
                work += k;
                break;
            }
            case 2: { /* churn: the oldest goes, a new one comes */
                size_t k = d_size(space), j;
                u64 s = d_seed();
                TRACE("churn %zu", k);
                for(j = 0; j < k; j++) {
                    u32 y = (u32) (vf_next(&s) % space);
                    if(m.node[y]) { do_remove(&t, &m, y); y = (u32) (vf_next(&s) % space); }
                    do_insert(&t, &m, y, 0);
                }
                work += k;
                break;
            }
            default: work += step(&t, &m, &grew, &removed, &dup); break;
        }
        measure(&t, &m, "in the history");
    }
    htable_fini(&t, NULL);
}

#elif defined VF_C09

const char vf_rule[] = "an insertion into a non-empty table met a refused allocation";

void vf_case(void)
{
    HTABLE t;
    MODEL m;
    unsigned avg = d_avg();
    size_t work = 0;
    int grew = 0, removed = 0, dup = 0, refused = 0, failed = 0, lasting = 0;
    hash_kind = (int) d_below(10);
    opno = (u32) d_below(4);
    hash_salt = (u32) d_below(1000);
    init_table(&t);
    init_model(&m, draw_space());
    if((hash_kind >= 2 && hash_kind <= 9 && hash_kind != 8) && m.space > 500) m.space = 500;
    while(d_more(avg) && work < 15000) {
        if(d_chance(1, 3)) { /* an ordinary stretch */
            if(lasting) { lasting = 0; vf_alloc_fail_none(); TRACE("memory is available again"); }
            vf_alloc_fail_none();
            work += step(&t, &m, &grew, &removed, &dup);
        } else { /* insertions or removals with refusals */
            size_t k = d_bool() ? d_size(130) : d_size(m.space), i;
            u32 key = (u32) d_below(m.space), stride = 1 + (u32) d_below(5);
            int ins = !d_chance(1, 4), unsafe = d_bool();
            if(!lasting) switch(d_below(3)) {
                case 0: { u64 at = 1 + d_below(4); vf_alloc_fail_at(at); TRACE("allocation %llu is refused", (unsigned long long) at); break; }
                case 1: { u64 at = 1 + d_below(4); vf_alloc_fail_from(at); lasting = d_bool(); TRACE("allocations from %llu on are refused", (unsigned long long) at); break; }
                case 2: { size_t sz = d_size(8000); vf_alloc_fail_over(sz); lasting = d_bool(); TRACE("allocations over %zu are refused", sz); break; }
            }
            TRACE("%s %zu keys from %u step %u (of %zu)", ins ? "insert" : "remove", k, key, stride, m.n);
            work += k;
            for(i = 0; i < k; i++) {
                u32 y = (u32) ((key + i * stride) % m.space);
                u64 f = vf_alloc_failures();
                if(!ins) { do_remove(&t, &m, y); continue; }
                { NODE* x = newnode(y, 0);
                  int present = m.node[y] != NULL, r;
                  r = unsafe && !present ? htable_insert_unsafe(&t, &x->link, c, h) : htable_insert(&t, &x->link, c, h);
                  if(vf_alloc_failures() != f && m.n > 0) refused = 1;
                  if(present) { CHECK(r == -1, "insertion of a present key returns %d", r); h_free(x); continue; }
                  CHECK(r == 0 || r == -1, "insertion returns %d", r);
                  if(r == 0) { m.node[y] = x; x->in = 1; m.n++; }
                  else {
                      CHECK(vf_alloc_failures() != f, "insertion of an absent key fails though no allocation was refused");
                      failed = 1;
                      memset(x, 0xDD, sizeof(*x));
                      h_free(x);
                      check_lookup(&t, y, NULL, "after a failed insertion");
                      CHECK(!!htable_is_empty(&t) == (m.n == 0), "is_empty is wrong after a failed insertion");
                      if(d_chance(1, 8)) {
                          u64 hh = n_hash; (void) hh;
                          vf_alloc_fail_none();
                          lasting = 0;
                          do_insert(&t, &m, y, 0);
                          CHECK(m.node[y] != NULL, "insertion fails though memory is available again");
                      }
                  } }
            }
            if(!lasting) vf_alloc_fail_none();
            check_all(&t, &m, "after refusals");
        }
    }
    vf_alloc_fail_none();
    check_all(&t, &m, "at the end");
    { u32 k; for(k = 0; k < m.space && k < 300; k++) do_insert(&t, &m, k, 0); }
    check_all(&t, &m, "after more insertions");
    if(refused) vf_label("refused with a non-empty table");
    if(failed) vf_label("an insertion failed");
    if(m.n > 413) vf_label("more than 413 nodes");
    if(refused) vf_nontrivial();
    dtor_frees = 1; dtor_calls = 0;
    { size_t n = m.n; htable_fini(&t, dtor); CHECK(dtor_calls == n, "the destructor was called %zu times for %zu nodes", dtor_calls, n); }
}
#endif
