/* C48: callbacks may use the object they are called for.
 *
 * The oracle is differential: what a walk, a lookup or the reading of a command line reports when
 * its callback keeps to itself is recorded first (and compared with the script); then the same is
 * run with callbacks which look things up in the same object, walk it in turn, read another
 * command line, change the value they were given and so on.  Outer and inner operation have to
 * report exactly the same as when they run alone. */
#include "pbt.h"
#include "value.h"
#include "htable.h"
#include "rbtree.h"
#include "cmdline.h"

const char vf_property[] = VF_PROPERTY;
const char vf_rule[] = "callbacks made at least ten further calls for the object they were called for, at least three of them at depth two or more or changing a value";

#define MAXDEPTH 3
static int nested, deep, changed, depth_now;

/* ------------------------------------------------------------- dictionaries */
typedef struct { char key[40]; size_t len; int kind; u64 serial; size_t count; VALUE* at; } IT;
#define MAXIT 300
static IT it[MAXIT]; static int n_it;
static int by_key[MAXIT], by_order[MAXIT];
static VALUE dict; static int has_order, own_cmp;
static u64 serials;
static u64 cmp_seed; static int cmp_armed, in_cmp;

static int plain(const char* a, size_t la, const char* b, size_t lb)
{
    int c = memcmp(a, b, la < lb ? la : lb);
    return c ? c : la < lb ? -1 : la > lb;
}
static void check_item(const VALUE* v, const IT* x, const char* when);
static int cmp_own(const char* a, size_t la, const char* b, size_t lb)
{
    if(cmp_armed && !in_cmp && n_it > 0 && vf_next(&cmp_seed) % 4 == 0) {
        IT* x = &it[vf_next(&cmp_seed) % (u64) n_it];
        VALUE* v;
        in_cmp = 1;
        v = value_dict_get_(&dict, x->key, x->len);
        CHECK(v == x->at, "a lookup out of the comparator gives another value");
        check_item(v, x, "a lookup out of the comparator");
        CHECK(value_dict_get_(&dict, "absent", 6) == NULL, "a lookup out of the comparator finds an absent key");
        CHECK(value_dict_size(&dict) == (size_t) n_it, "the size seen by the comparator is wrong");
        nested++;
        in_cmp = 0;
    }
    return plain(a, la, b, lb);
}
static void fill(VALUE* v, IT* x)
{
    char t[80]; size_t i;
    x->serial = ++serials * 1000;
    x->kind = (int) d_below(6);
    x->count = x->kind >= 4 ? (size_t) d_below(5) : 0;
    switch(x->kind) {
        case 0: value_init_null(v); break;
        case 1: CHECK(value_init_uint64(v, x->serial) == 0, "init"); break;
        case 2: CHECK(value_init_string_(v, t, (size_t) sprintf(t, "s%llu", (unsigned long long) x->serial)) == 0, "init"); break;
        case 3: CHECK(value_init_string_(v, t, (size_t) sprintf(t, "a longer string of %llu, kept elsewhere", (unsigned long long) x->serial)) == 0, "init"); break;
        case 4: CHECK(value_init_array(v) == 0, "init"); for(i = 0; i < x->count; i++) CHECK(value_init_uint64(value_array_append(v), x->serial + i) == 0, "init"); break;
        default: CHECK(value_init_dict(v) == 0, "init");
            for(i = 0; i < x->count; i++) { sprintf(t, "n%zu", i); CHECK(value_init_uint64(value_dict_add(v, t), x->serial + i) == 0, "init"); }
    }
}
static void check_item(const VALUE* v, const IT* x, const char* when)
{
    char t[80]; size_t i, n;
    CHECK(v != NULL, "%s: no value", when);
    switch(x->kind) {
        case 0: CHECK(value_type(v) == VALUE_NULL && !value_is_new(v), "%s: the value is not null", when); break;
        case 1: CHECK(value_type(v) == VALUE_UINT64 && value_uint64(v) == x->serial, "%s: the value is another one", when); break;
        case 2: case 3:
            n = (size_t) sprintf(t, x->kind == 2 ? "s%llu" : "a longer string of %llu, kept elsewhere", (unsigned long long) x->serial);
            CHECK(value_type(v) == VALUE_STRING && value_string_length(v) == n && memcmp(value_string(v), t, n + 1) == 0, "%s: the string is another one", when);
            break;
        case 4:
            CHECK(value_type(v) == VALUE_ARRAY && value_array_size(v) == x->count, "%s: the array is another one", when);
            for(i = 0; i < x->count; i++) CHECK(value_uint64(value_array_get(v, i)) == x->serial + i, "%s: an item of the array is another one", when);
            break;
        default:
            CHECK(value_type(v) == VALUE_DICT && value_dict_size(v) == x->count, "%s: the inner dictionary is another one", when);
            for(i = 0; i < x->count; i++) { sprintf(t, "n%zu", i); CHECK(value_uint64(value_dict_get(v, t)) == x->serial + i, "%s: an item of the inner dictionary is another one", when); }
    }
}

typedef struct { const int* order; int pos, abort_at, abort_with, quiet; } WALK;
static void act(int cur);
static int visit(const VALUE* key, VALUE* v, void* ctx)
{
    WALK* w = (WALK*) ctx;
    IT* x;
    CHECK(w->pos < n_it && w->pos <= w->abort_at, "a walk at depth %d goes on after %d of %d items", depth_now, w->pos, n_it);
    x = &it[w->order[w->pos]];
    CHECK(value_string_length(key) == x->len && memcmp(value_string(key), x->key, x->len) == 0, "a walk at depth %d visits '%s' as item %d", depth_now, value_string(key), w->pos);
    CHECK(v == x->at, "a walk at depth %d passes another value than a lookup", depth_now);
    check_item(v, x, "a walk");
    if(!w->quiet) { depth_now++; act(w->order[w->pos]); depth_now--; check_item(v, x, "after nested calls"); }
    return w->pos++ == w->abort_at ? w->abort_with : 0;
}
static void walk(int ordered, int quiet)
{
    WALK w;
    int r;
    w.order = ordered ? by_order : by_key; w.pos = 0; w.quiet = quiet;
    w.abort_at = n_it && d_chance(1, 3) ? (int) d_below((u64) n_it) : INT_MAX; w.abort_with = 1 + (int) d_below(1000);
    TRACE("%*swalk %s%s", depth_now * 2, "", ordered ? "in order of insertion" : "sorted", w.abort_at == INT_MAX ? "" : ", to be ended");
    r = ordered ? value_dict_walk_ordered(&dict, visit, &w) : value_dict_walk_sorted(&dict, visit, &w);
    if(w.abort_at == INT_MAX) CHECK(r == 0 && w.pos == n_it, "a walk at depth %d gives %d after %d of %d items", depth_now, r, w.pos, n_it);
    else CHECK(r == w.abort_with && w.pos == w.abort_at + 1, "a walk ended with %d after %d items gives %d after %d", w.abort_with, w.abort_at + 1, r, w.pos);
}
static void act(int cur)
{
    int k = d_chance(1, 2) ? 1 : (int) d_below(3);
    while(k-- > 0) {
        int other = (int) d_below((u64) n_it);
        IT* x = &it[d_chance(2, 3) ? cur : other];
        nested++;
        if(depth_now >= 2) deep++;
        switch(D_WEIGHTED(4, 3, 4, 2, 2, 3, 1)) {
            case 0:
                CHECK(value_dict_get_(&dict, x->key, x->len) == x->at, "a lookup within a walk gives another value");
                CHECK(value_dict_get(&dict, "absent") == NULL && value_dict_size(&dict) == (size_t) n_it, "a lookup within a walk finds an absent key");
                CHECK(value_path(&dict, x->key) == x->at, "a path followed within a walk gives another value");
                break;
            case 1: if(depth_now <= MAXDEPTH && n_it * depth_now < 400) walk(has_order && d_bool(), depth_now >= 2 && !d_chance(1, 4)); break;
            case 2: TRACE("%*snew content of '%s'", depth_now * 2, "", x->key); value_fini(x->at); fill(x->at, x); changed++; break;
            case 3: {
                const VALUE* b[MAXIT]; size_t i, n = has_order && d_bool() ? value_dict_keys_ordered(&dict, b, MAXIT) + (1u << 20) : value_dict_keys_sorted(&dict, b, MAXIT);
                const int* o = n >> 20 ? by_order : by_key;
                n &= (1u << 20) - 1;
                CHECK(n == (size_t) n_it, "the keys within a walk are %zu of %d", n, n_it);
                for(i = 0; i < n; i++) CHECK(strcmp(value_string(b[i]), it[o[i]].key) == 0, "the keys within a walk are in another order");
                break;
            }
            case 4: if(x->kind == 4 && x->count < 200) { /* the array grows */
                size_t n = 1 + (size_t) d_below(d_chance(1, 8) ? 100 : 3);
                while(n-- > 0) { CHECK(value_init_uint64(value_array_append(x->at), x->serial + x->count) == 0, "init"); x->count++; }
                changed++;
            } else if(x->kind == 4) { CHECK(value_array_remove_range(x->at, 10, x->count - 10) == 0, "removal"); x->count = 10; changed++; }
                break;
            case 5: if(x->kind == 5 && x->count < 300) { /* the inner dictionary grows */
                char t[100]; VALUE* v;
                if(d_bool()) { sprintf(t, "%s/n%zu", x->key, x->count); v = value_build_path(&dict, t); }
                else { sprintf(t, "n%zu", x->count); v = value_dict_add(x->at, t); }
                CHECK(v != NULL && value_init_uint64(v, x->serial + x->count) == 0, "adding to an inner dictionary fails");
                x->count++; changed++;
            } else if(x->kind == 5) { char t[20]; sprintf(t, "n%zu", --x->count); CHECK(value_dict_remove(x->at, t) == 0, "removal"); changed++; }
                break;
            default: if(x->kind == 5) { value_dict_clean(x->at); x->count = 0; changed++; } else if(x->kind == 4) { value_array_clean(x->at); x->count = 0; changed++; }
        }
    }
}
static int less_key(const void* a, const void* b) { const IT *x = &it[*(const int*) a], *y = &it[*(const int*) b]; return plain(x->key, x->len, y->key, y->len); }
static void dictionaries(void)
{
    int k, want = (int) d_size(vf_profile ? MAXIT : 40), tries = 0;
    has_order = d_bool(); own_cmp = d_bool();
    n_it = 0; serials = 0; depth_now = 0; cmp_armed = in_cmp = 0; cmp_seed = d_seed();
    CHECK(value_init_dict_ex(&dict, own_cmp ? cmp_own : NULL, has_order ? VALUE_DICT_MAINTAINORDER : 0) == 0, "init");
    while(n_it < want && tries++ < 3 * want) {
        IT* x = &it[n_it];
        VALUE* v;
        x->len = (size_t) sprintf(x->key, d_chance(1, 6) ? "a-rather-long-key-number-%u" : "k%u", (unsigned) d_below((u64) want * 2));
        v = value_dict_add_(&dict, x->key, x->len);
        if(v == NULL) continue;
        x->at = v; fill(v, x);
        by_order[n_it] = by_key[n_it] = n_it;
        n_it++;
        if(d_chance(1, 12)) { /* some are removed again */
            int j = (int) d_below((u64) n_it);
            CHECK(value_dict_remove(&dict, it[j].key) == 0, "removal");
            memmove(&it[j], &it[j + 1], (size_t) (n_it - j - 1) * sizeof(IT));
            n_it--;
        }
    }
    for(k = 0; k < n_it; k++) { it[k].at = value_dict_get_(&dict, it[k].key, it[k].len); CHECK(it[k].at != NULL, "a key is not found"); by_order[k] = by_key[k] = k; }
    qsort(by_key, (size_t) n_it, sizeof(int), less_key);
    cmp_armed = own_cmp && d_bool();
    TRACE("%d keys%s%s", n_it, has_order ? ", keeping the order" : "", cmp_armed ? ", a comparator which looks keys up" : "");
    walk(0, 1);
    if(has_order) walk(1, 1);
    for(k = 1 + (int) d_below(3); k > 0; k--) walk(has_order && d_bool(), 0);
    for(k = 0; k < n_it; k++) { CHECK(value_dict_get_(&dict, it[k].key, it[k].len) == it[k].at, "a key is lost"); check_item(it[k].at, &it[k], "at the end"); }
    cmp_armed = 0;
    value_fini(&dict);
}

/* ------------------------------------------------------------- tables and trees */
typedef struct { HTABLE_NODE h; RBTREE_NODE r; u32 key, tag; } NODE;
#define MAXN 600
static NODE node[MAXN]; static int n_node, present[MAXN], sorted_[MAXN], n_sorted;
static HTABLE table, table2; static RBTREE tree, tree2;
static u64 node_seed; static int armed, level;
static void look(int depth);
static void maybe_look(void)
{
    if(armed && level < 2 && vf_next(&node_seed) % (level ? 9 : 3) == 0) { level++; nested++; if(level >= 2) deep++; look(level); level--; }
}
static int h_cmp(const HTABLE_NODE* a, const HTABLE_NODE* b)
{
    const NODE *x = (const NODE*) ((const char*) a - offsetof(NODE, h)), *y = (const NODE*) ((const char*) b - offsetof(NODE, h));
    maybe_look();
    return x->key < y->key ? -1 : x->key > y->key;
}
static u32 h_hash(const HTABLE_NODE* a)
{
    const NODE* x = (const NODE*) ((const char*) a - offsetof(NODE, h));
    maybe_look();
    return x->key % 97 * 2654435761u;
}
static int r_cmp(const RBTREE_NODE* a, const RBTREE_NODE* b)
{
    const NODE *x = (const NODE*) ((const char*) a - offsetof(NODE, r)), *y = (const NODE*) ((const char*) b - offsetof(NODE, r));
    maybe_look();
    return x->key < y->key ? -1 : x->key > y->key;
}
static void look(int depth)
{
    u32 i = (u32) (vf_next(&node_seed) % (u64) n_node);
    NODE q; RBTREE_CURSOR cur; RBTREE_NODE* r;
    q.key = i; q.tag = 0;
    switch(vf_next(&node_seed) % 4) {
        case 0: CHECK(htable_lookup(&table, &q.h, h_cmp, h_hash) == (present[i] ? &node[i].h : NULL), "a lookup in the table, at depth %d, is wrong", depth); break;
        case 1: CHECK(rbtree_lookup(&tree, &q.r, r_cmp) == (present[i] ? &node[i].r : NULL), "a lookup in the tree, at depth %d, is wrong", depth); break;
        case 2:
            r = rbtree_lookup_ex(&tree, &q.r, r_cmp, &cur);
            CHECK(r == (present[i] ? &node[i].r : NULL), "a lookup with a cursor, at depth %d, is wrong", depth);
            if(r) { u32 j = i + 1; while(j < (u32) n_node && !present[j]) j++; CHECK(rbtree_next(&cur) == (j < (u32) n_node ? &node[j].r : NULL), "the node after key %u, at depth %d, is wrong", i, depth); }
            break;
        default: {
            u32 j = 0, n = 0;
            for(r = rbtree_head(&tree, &cur); r != NULL && n < 12; r = rbtree_next(&cur), n++) {
                while(j < (u32) n_node && !present[j]) j++;
                CHECK(j < (u32) n_node && r == &node[j].r, "a walk through the tree, at depth %d, is wrong at node %u", depth, n);
                j++;
            }
        }
    }
}
static int moved;
static void take_over(HTABLE_NODE* h)
{
    CHECK(htable_insert(&table2, h, h_cmp, h_hash) == 0, "inserting a node handed out by the clean-up into another table fails");
    moved++;
}
static void containers(void)
{
    int k, j, n = 0;
    n_node = 1 + (int) d_size((vf_profile ? MAXN : 100) - 1);
    node_seed = d_seed(); armed = level = 0; depth_now = 0;
    memset(present, 0, sizeof(present));
    htable_init(&table); rbtree_init(&tree); htable_init(&table2); rbtree_init(&tree2);
    for(k = 0; k < n_node; k++) { node[k].key = (u32) k; node[k].tag = ~(u32) k; }
    for(k = 0; k < n_node + n_node / 2; k++) {
        j = (int) (vf_next(&node_seed) % (u64) n_node);
        if(!present[j]) { CHECK(htable_insert(&table, &node[j].h, h_cmp, h_hash) == 0 && rbtree_insert(&tree, &node[j].r, r_cmp) == 0, "insertion fails"); present[j] = 1; n++; }
        else if(k % 3 == 0) { NODE q; q.key = (u32) j; CHECK(htable_remove(&table, &q.h, h_cmp, h_hash) == &node[j].h && rbtree_remove(&tree, &q.r, r_cmp) == &node[j].r, "removal fails"); present[j] = 0; n--; }
    }
    TRACE("%d of %d nodes in a table and a tree", n, n_node);
    armed = 1;
    for(k = 4 + (int) d_below(20); k > 0; k--) { look(0); }
    armed = 0;
    /* what is handed out by a clean-up goes elsewhere at once */
    moved = 0;
    htable_fini(&table, take_over);
    CHECK(moved == n, "the clean-up hands out %d of %d nodes", moved, n);
    { RBTREE_NODE* r; int m = 0; while((r = rbtree_fini_step(&tree)) != NULL) { CHECK(rbtree_insert(&tree2, r, r_cmp) == 0, "inserting a node handed out by the clean-up into another tree fails"); CHECK(m++ < n, "the clean-up of the tree does not end"); } CHECK(m == n, "the clean-up of the tree hands out %d of %d nodes", m, n); }
    for(k = 0; k < n_node; k++) {
        NODE q; q.key = (u32) k;
        CHECK(htable_lookup(&table2, &q.h, h_cmp, h_hash) == (present[k] ? &node[k].h : NULL), "node %d is not in the other table", k);
        CHECK(rbtree_lookup(&tree2, &q.r, r_cmp) == (present[k] ? &node[k].r : NULL), "node %d is not in the other tree", k);
        CHECK(node[k].key == (u32) k && node[k].tag == ~(u32) k, "the payload of node %d was written to", k);
    }
    htable_fini(&table2, NULL);
    if(n) changed++;
}

/* ------------------------------------------------------------- command lines */
typedef struct { int id; char* arg; } EV;
typedef struct { int argc; char** argv; EV ev[200]; int n; } LINE;
#define MAXL 4
static LINE line[MAXL]; static int n_line; static const CMDLINE_OPTION* table_of_opts;
static int record(int id, const char* arg, void* u)
{
    LINE* l = (LINE*) u;
    CHECK(l->n < 200, "too many calls");
    l->ev[l->n].id = id; l->ev[l->n].arg = arg ? (char*) h_dup(arg, strlen(arg) + 1) : NULL; l->n++;
    return 0;
}
typedef struct { LINE* l; int pos, abort_at; } READ;
static void read_line(LINE* l, int quiet);
static int within_quiet;
static int replay(int id, const char* arg, void* u)
{
    READ* r = (READ*) u;
    EV* e = &r->l->ev[r->pos];
    int q = within_quiet;
    CHECK(r->pos < r->l->n, "a reading at depth %d makes more calls than alone", depth_now);
    CHECK(id == e->id && !arg == !e->arg && (!arg || strcmp(arg, e->arg) == 0), "a reading at depth %d reports %d \"%s\" and alone %d \"%s\"", depth_now, id, arg ? arg : "(null)", e->id, e->arg ? e->arg : "(null)");
    if(!q && depth_now < MAXDEPTH && d_chance(1, 2)) {
        depth_now++; nested++; if(depth_now >= 2) deep++;
        read_line(&line[d_below((u64) n_line)], d_chance(1, 3));
        depth_now--;
        within_quiet = q;
        CHECK(!arg || strcmp(arg, e->arg) == 0, "the argument \"%s\" became \"%s\" by a further reading", e->arg, arg);
    }
    return r->pos++ == r->abort_at ? 77 : 0;
}
static void read_line(LINE* l, int quiet)
{
    READ r;
    int res;
    r.l = l; r.pos = 0; r.abort_at = l->n && d_chance(1, 4) ? (int) d_below((u64) l->n) : INT_MAX;
    within_quiet = quiet;
    TRACE("%*sread line %d", depth_now * 2, "", (int) (l - line));
    res = cmdline_read(table_of_opts, l->argc, l->argv, replay, &r);
    if(r.abort_at == INT_MAX) CHECK(res == 0 && r.pos == l->n, "a reading at depth %d gives %d after %d calls, alone %d", depth_now, res, r.pos, l->n);
    else CHECK(res == 77 && r.pos == r.abort_at + 1, "a reading ended at call %d gives %d after %d", r.abort_at + 1, res, r.pos);
}
static void command_lines(void)
{
    static const CMDLINE_OPTION opts[] = {
        { 'v', "verbose", 'v', 0 }, { 'o', "output", 'o', CMDLINE_OPTFLAG_REQUIREDARG }, { 0, "opt-with-a-very-long-name-which-does-not-fit", 'l', 0 }, { 'c', "color", 'c', CMDLINE_OPTFLAG_OPTIONALARG },
        { 0, "--std=", 's', CMDLINE_OPTFLAG_COMPILERLIKE }, { 0, "-I", 'I', CMDLINE_OPTFLAG_COMPILERLIKE }, { 'x', NULL, 'x', 0 }, { 'q', "quiet", 'q', 0 }, { 0 } };
    static const char* words[] = { "-v", "--verbose", "--verbose=3", "--unknown=17", "--another-unknown-option=4", "-o", "--output", "--output=f", "-ofile", "-vxq", "-vzq", "-xvo", "file", "-", "--", "--color", "--color=red", "--colour",
        "-c", "--std=c99", "--std=", "-I", "-Idir", "@file", "--opt-with-a-very-long-name-which-does-not-fit=1", "--opt-with-a-very-long-name-which-does-not-fit", "--a-very-long-and-unknown-name-of-an-option=1", "-zz", "", "--quiet=", "-q" };
    int k, j;
    table_of_opts = opts;
    depth_now = 0;
    n_line = 1 + (int) d_below(MAXL);
    for(k = 0; k < n_line; k++) {
        LINE* l = &line[k];
        l->n = 0;
        l->argc = 1 + (int) d_below(9);
        l->argv = (char**) h_malloc((size_t) l->argc * sizeof(char*));
        for(j = 0; j < l->argc; j++) { const char* w = words[d_below(sizeof(words) / sizeof(words[0]))]; l->argv[j] = (char*) h_dup(w, strlen(w) + 1); TRACE("line %d: %s", k, w); }
        CHECK(cmdline_read(opts, l->argc, l->argv, record, l) == 0, "a reading fails");
    }
    for(k = 1 + (int) d_below(3); k > 0; k--) read_line(&line[d_below((u64) n_line)], 0);
}

void vf_case(void)
{
    int k;
    nested = deep = changed = depth_now = 0;
    memset(line, 0, sizeof(line));
    k = D_WEIGHTED(5, 2, 2);
    switch(k) { case 0: dictionaries(); break; case 1: containers(); break; default: command_lines(); }
    vf_label(k == 0 ? "a dictionary" : k == 1 ? "a table and a tree" : "command lines");
    if(nested >= 10 && deep + changed >= 3) vf_nontrivial();
}
