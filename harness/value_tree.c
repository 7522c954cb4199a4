/* C21, C25-C28: trees of values. */
#include "vmodel.h"

const char vf_property[] = VF_PROPERTY;

/* ---- going down the tree ---- */
typedef struct { VALUE* v; MV* m; int depth; } POS;
static size_t n_children(MV* m) { return m->type == VALUE_ARRAY || m->type == VALUE_DICT ? m->n : 0; }
static POS child(POS p, size_t i)
{
    POS c;
    c.depth = p.depth + 1;
    if(p.m->type == VALUE_ARRAY) { c.m = p.m->it[i]; c.v = value_array_get(p.v, i); CHECK(c.v != NULL, "item %zu of %zu is NULL", i, p.m->n); }
    else { c.m = p.m->e[i].val; c.v = value_dict_get_(p.v, p.m->e[i].key, p.m->e[i].len); CHECK(c.v != NULL, "key %s is not found", vf_hex(p.m->e[i].key, p.m->e[i].len)); }
    return c;
}
/* some container of the tree; with leaf also any other value */
static POS pick(VALUE* v, MV* m, int leaf)
{
    POS p = { v, m, 0 };
    while(n_children(p.m) && d_chance(3, 5)) {
        POS c = child(p, (size_t) d_below(n_children(p.m)));
        if(!leaf && c.m->type != VALUE_ARRAY && c.m->type != VALUE_DICT) {
            size_t i = 0;   /* the first container below, if any */
            while(i < p.m->n) { MV* x = p.m->type == VALUE_ARRAY ? p.m->it[i] : p.m->e[i].val; if(x->type == VALUE_ARRAY || x->type == VALUE_DICT) break; i++; }
            if(i == p.m->n) break;
            c = child(p, i);
        }
        p = c;
    }
    return p;
}
static size_t mv_count(MV* m)
{
    size_t i, c = 1;
    if(m->type == VALUE_ARRAY) for(i = 0; i < m->n; i++) c += mv_count(m->it[i]);
    if(m->type == VALUE_DICT) for(i = 0; i < m->n; i++) c += mv_count(m->e[i].val);
    return c;
}

static int did_mid, did_range, did_oob, did_nested, did_clean;

static size_t gen_into(POS p)
{
    size_t w;
    mv_touch(p.m);
    w = v_gen(p.v, p.m, p.depth < 3 ? 3 - p.depth : 0);
    if(w > 2) did_nested = 1;
    return w;
}

/* One step on an array. */
static size_t array_step(POS p)
{
    MV* m = p.m;
    VALUE* x;
    size_t i, k, w = 1;
    int r;
    switch(D_WEIGHTED(4, 4, 3, 3, 3, 2, 1, 2)) {
        case 0: case 1:
            i = d_chance(1, 3) ? m->n : (size_t) d_below(m->n + 1);
            if(i == m->n && d_bool()) { TRACE("append to %zu", m->n); x = value_array_append(p.v); }
            else { TRACE("insert at %zu of %zu", i, m->n); x = value_array_insert(p.v, i); if(i < m->n) did_mid = 1; }
            CHECK(x != NULL, "insertion at %zu of %zu fails", i, m->n);
            CHECK(x == value_array_get(p.v, i), "insertion at %zu of %zu gives another item", i, m->n);
            { POS c = { x, mv_insert(m, i), p.depth + 1 };
              v_check(x, c.m, "the new item");
              if(d_chance(7, 8)) w += gen_into(c); }
            break;
        case 2:
            if(m->n == 0) break;
            i = (size_t) d_below(m->n);
            TRACE("remove %zu of %zu", i, m->n);
            r = value_array_remove(p.v, i);
            CHECK(r == 0, "removal of item %zu of %zu gives %d", i, m->n, r);
            mv_remove(m, i, 1);
            break;
        case 3:
            i = (size_t) d_below(m->n + 1);
            k = d_chance(1, 4) ? m->n - i : (size_t) d_below(m->n - i + 1);
            TRACE("remove %zu items from %zu of %zu", k, i, m->n);
            r = value_array_remove_range(p.v, i, k);
            CHECK(r == 0, "removal of %zu items from %zu of %zu gives %d", k, i, m->n, r);
            mv_remove(m, i, k);
            if(k > 1) did_range = 1;
            w += k;
            break;
        case 4: { /* out of bounds */
            size_t far = d_chance(1, 2) ? (size_t) d_u64() : m->n + (size_t) d_below(4);
            did_oob = 1;
            TRACE("out of bounds, %zu of %zu", far, m->n);
            if(far >= m->n) {
                CHECK(value_array_get(p.v, far) == NULL, "item %zu of %zu is found", far, m->n);
                CHECK(value_array_remove(p.v, far) == -1, "removal of item %zu of %zu succeeds", far, m->n);
                if(far > m->n) CHECK(value_array_insert(p.v, far) == NULL, "insertion at %zu of %zu succeeds", far, m->n);
            }
            i = (size_t) d_below(m->n + 2);
            k = d_chance(1, 2) ? (size_t) d_u64() : d_chance(1, 2) ? (size_t) 0 - i + (size_t) d_below(3) : m->n - i + 1 + (size_t) d_below(3);
            if(i > m->n || k > m->n - i)
                CHECK(value_array_remove_range(p.v, i, k) == -1, "removal of %zu items from %zu of %zu succeeds", k, i, m->n);
            break;
        }
        case 5: /* another content */
            if(m->n == 0) break;
            i = (size_t) d_below(m->n);
            { POS c = child(p, i);
              TRACE("item %zu gets another content", i);
              value_fini(c.v); mv_reset(c.m);
              v_check(c.v, c.m, "a finalised item");
              if(d_chance(7, 8)) w += gen_into(c); }
            break;
        case 6:
            TRACE("clean %zu items", m->n);
            if(!d_chance(1, 3)) break;
            w += m->n;
            value_array_clean(p.v);
            mv_clean(m);
            did_clean = 1;
            break;
        default: { /* many */
            u64 s = d_seed();
            int way = (int) d_below(4), ends = 0;
            if(vf_profile == 2 && p.depth == 0) { ends = 1; if(way == 2) way = 0; }
            k = d_size(vf_profile == 2 ? 2000000 : vf_profile ? 3000 : 400);
            if(p.depth > 0) k /= 50;
            TRACE("%s %zu items", way < 2 ? "append" : way == 2 ? "insert" : "remove", k);
            for(i = 0; i < k; i++) {
                size_t at = ends && way == 3 ? m->n - (m->n > 0) : way < 2 ? m->n : (size_t) (vf_next(&s) % (m->n + 1));
                if(way < 3) {
                    MV* c;
                    x = value_array_insert(p.v, at);
                    CHECK(x != NULL, "insertion at %zu of %zu fails", at, m->n);
                    c = mv_insert(m, at);
                    if(vf_next(&s) % 4) { u64 y = vf_next(&s); CHECK(value_init_uint64(x, y) == 0, "init fails"); c->type = VALUE_UINT64; c->bits = y; c->isnew = 0; }
                } else {
                    if(m->n == 0) break;
                    at = at < m->n ? at : 0;
                    CHECK(value_array_remove(p.v, at) == 0, "removal of item %zu of %zu fails", at, m->n);
                    mv_remove(m, at, 1);
                }
            }
            w += k;
        }
    }
    return w;
}

static size_t dict_step(POS p)
{
    MV* m = p.m;
    size_t len, w = 1;
    char* key;
    ENT* e;
    switch(D_WEIGHTED(6, 3, 1, 2)) {
        case 0: {
            int op = d_bool() ? K_ADD : K_GETADD;
            VALUE* x;
            key = v_draw_key(&len);
            e = mv_find(m, key, len);
            TRACE("%s %s to %zu", op == K_ADD ? "add" : "get or add", vf_hex(key, len), m->n);
            x = v_dict_op(p.v, op, key, len);
            if(e && op == K_ADD) CHECK(x == NULL, "adding a present key succeeds");
            else if(e) CHECK(x != NULL && x == value_dict_get_(p.v, key, len), "get-or-add of a present key does not give its value");
            else {
                POS c = { x, mv_add(m, key, len), p.depth + 1 };
                CHECK(x != NULL, "adding an absent key fails");
                v_check(x, c.m, "the new value");
                if(d_chance(7, 8)) w += gen_into(c);
            }
            h_free(key);
            break;
        }
        case 1:
            if(m->n && d_chance(4, 5)) {
                size_t i = (size_t) d_below(m->n);
                len = m->e[i].len; key = (char*) h_dup(m->e[i].key, len);
            } else key = v_draw_key(&len);
            e = mv_find(m, key, len);
            TRACE("remove %s of %zu", vf_hex(key, len), m->n);
            { int r = v_dict_del(p.v, key, len); CHECK(r == (e ? 0 : -1), "removal of %s key gives %d", e ? "a present" : "an absent", r); }
            if(e) mv_del(m, e);
            h_free(key);
            break;
        case 2:
            TRACE("clean %zu keys", m->n);
            if(!d_chance(1, 2)) break;
            value_dict_clean(p.v); mv_clean(m);
            did_clean = 1;
            break;
        default:
            if(m->n == 0) break;
            { POS c = child(p, (size_t) d_below(m->n));
              TRACE("a value gets another content");
              value_fini(c.v); mv_reset(c.m);
              v_check(c.v, c.m, "a finalised value");
              if(d_chance(7, 8)) w += gen_into(c); }
    }
    return w;
}

static VALUE* new_root(void) { VALUE* v = (VALUE*) h_malloc(sizeof(VALUE)); memset(v, d_chance(1, 2) ? 0xFF : 0x35, sizeof(VALUE)); return v; }

/* ------------------------------------------------------------------ C21 */
#if defined VF_C21
const char vf_rule[] = "items were inserted before others and removed as a range, in an array of at least 4 items with nested content";

void vf_case(void)
{
    VALUE* root = new_root();
    MV* m = mv_new(NULL, 0);
    unsigned avg = d_avg();
    size_t work = 0, most = 0, blocks = vf_live_blocks();
    did_mid = did_range = did_oob = did_nested = did_clean = 0;
    mv_clock = 0;
    CHECK(value_init_array(root) == 0, "no array");
    mv_set_array(m);
    v_check(root, m, "an empty array");
    while(d_more(avg) && work < (vf_profile == 2 ? 1u << 22 : vf_profile ? 40000u : 8000u)) {
        POS p = { root, m, 0 };
        if(d_chance(1, 4)) p = pick(root, m, 0);
        work += p.m->type == VALUE_DICT ? dict_step(p) : array_step(p);
        if(m->n > most) most = m->n;
        if(m->n < 40 || d_chance(1, 16)) { v_check(root, m, "in the history"); work += m->n / 8; }
    }
    v_check(root, m, "at the end");
    value_fini(root);
    CHECK(value_type(root) == VALUE_NULL, "a finalised array is a %s", v_name(value_type(root)));
    CHECK(vf_live_blocks() == blocks, "a finalised array leaves %zu blocks", vf_live_blocks() - blocks);
    if(did_oob) vf_label("out of bounds");
    if(did_clean) vf_label("cleaned");
    if(most >= 100) vf_label("100 items and more");
    if(did_mid && did_range && did_nested && most >= 4) vf_nontrivial();
}
#endif

/* ------------------------------------------------------------------ paths */
#if defined VF_C25 || defined VF_C26 || defined VF_C28
enum { P_KEY, P_IDX, P_NEG, P_APP };
typedef struct { int kind; char* key; size_t len; u64 idx; int oob; } COMP;
#define MAXC 7

static int path_char_ok(const char* s, size_t n)
{
    size_t i;
    if(n == 0) return 0;
    for(i = 0; i < n; i++) if(s[i] == 0 || s[i] == '/' || s[i] == '[' || s[i] == ']') return 0;
    return 1;
}
/* A path along existing values for the most part. */
static int draw_path(MV* m, COMP* c, int building)
{
    int n = 0, max = (int) d_range(0, MAXC - 1);
    while(n < max) {
        COMP* x = &c[n++];
        int as_array = m ? m->type == VALUE_ARRAY : d_bool();
        memset(x, 0, sizeof(*x));
        if(m && m->type != VALUE_ARRAY && m->type != VALUE_DICT && !m->isnew && !d_chance(1, 6)) { n--; break; }
        if(m && m->isnew) as_array = d_bool();
        if(d_chance(1, 14)) as_array = !as_array;
        if(as_array) {
            size_t size = m && m->type == VALUE_ARRAY ? m->n : 0;
            switch(building ? D_WEIGHTED(6, 4, 1, 5) : D_WEIGHTED(8, 5, 2, 1)) {
                case 0: x->kind = P_IDX; x->idx = size && !d_chance(1, building ? 20 : 10) ? d_below(size) : d_bool() ? size : size + d_below(4); break;
                case 1: x->kind = P_NEG; x->idx = 1 + (size && !d_chance(1, 10) ? d_below(size) : d_bool() ? size : size + d_below(3)); break;
                case 2: x->kind = d_bool() ? P_IDX : P_NEG;
                    if(d_bool()) { x->idx = d_u64(); if(x->kind == P_NEG && x->idx == 0) x->idx = 1; }
                    else { x->oob = 1; x->idx = d_below(4); }
                    break;
                default: x->kind = P_APP;
            }
        } else {
            x->kind = P_KEY;
            if(m && m->type == VALUE_DICT && m->n && !d_chance(1, building ? 3 : 6)) {
                ENT* e = &m->e[d_below(m->n)];
                if(path_char_ok(e->key, e->len)) { x->key = (char*) h_dup(e->key, e->len); x->len = e->len; }
            }
            if(x->key == NULL) do { x->key = v_draw_key(&x->len); } while(!path_char_ok(x->key, x->len) && (h_free(x->key), x->key = (char*) h_dup("x", 1), x->len = 1, 0));
        }
        /* what it leads to */
        if(m) switch(x->kind) {
            case P_KEY: { ENT* e = m->type == VALUE_DICT ? mv_find(m, x->key, x->len) : NULL; m = e ? e->val : NULL; break; }
            case P_IDX: m = m->type == VALUE_ARRAY && !x->oob && x->idx < m->n ? m->it[x->idx] : NULL; break;
            case P_NEG: m = m->type == VALUE_ARRAY && !x->oob && x->idx <= m->n ? m->it[m->n - x->idx] : NULL; break;
            default: m = NULL;
        }
        if(!building && !m && d_chance(2, 3)) break;
    }
    return n;
}
static char* render(COMP* c, int n)
{
    size_t cap = 64, len = 0;
    int i, k;
    char* s;
    for(i = 0; i < n; i++) cap += c[i].len + 80;
    s = (char*) h_malloc(cap);
    for(i = 0; i < n; i++) {
        int sl = i == 0 ? d_chance(1, 8) : c[i].kind == P_KEY ? 1 : d_chance(1, 3);
        if(sl && d_chance(1, 12)) sl += 1 + (int) d_below(2);
        while(sl-- > 0) s[len++] = '/';
        if(c[i].kind == P_KEY) { memcpy(s + len, c[i].key, c[i].len); len += c[i].len; continue; }
        s[len++] = '[';
        if(c[i].kind != P_APP) {
            if(c[i].kind == P_NEG) s[len++] = '-';
            if(d_chance(1, 12)) for(k = (int) d_below(30); k > 0; k--) s[len++] = '0';
            if(c[i].oob) {
                static const char* huge[] = { "1844674407370955161", "3689348814741910323", "99999999999999999999", "1844674407370955161600000000000" };
                /* 2^64 + i, 2 * 2^64 + i, and more */
                static const int base[] = { 6, 2, 0, 0 };
                k = (int) d_below(4);
                len += (size_t) sprintf(s + len, "%s%d", huge[k], base[k] + (int) c[i].idx % 4);
            } else len += (size_t) sprintf(s + len, "%llu", (unsigned long long) c[i].idx);
        }
        s[len++] = ']';
    }
    s[len++] = 0;
    { char* e = (char*) h_dup(s, len); h_free(s); return e; }
}
static void free_path(COMP* c, int n, char* s) { int i; for(i = 0; i < n; i++) if(c[i].key) h_free(c[i].key); h_free(s); }
#endif

#if defined VF_C25 || defined VF_C26
#include "huge.h"
/* A path with one component of more than 2 or 4 GiB, towards short keys of the same letter and
 * a short array: a lookup, or a build which lacks the memory for a key of that length. */
static void huge_path(int build)
{
    VALUE root, *d, *a, *v, *leaf;
    const size_t len = D_WEIGHTED(3, 2) == 0 ? ((size_t) 1 << 32) + (size_t) d_below(40) : ((size_t) 1 << 31) + (size_t) d_below(40);
    int i, isnum = len < (size_t) 1 << 32 ? d_bool() : d_chance(1, 5), neg = d_bool(), sub = d_bool(), no = (int) d_below(13), n = 1 + (int) d_below(40), bad = 0;
    char pre[16], post[24], key[64];
    void* base; size_t total, map;
    char* path, *end;
    memset(key, 'a', sizeof(key));
    CHECK(value_init_dict(&root) == 0 && (d = value_dict_add(&root, "d")) != NULL && value_init_dict(d) == 0 && (a = value_dict_add(&root, "l")) != NULL && value_init_array(a) == 0, "setting up fails");
    for(i = 0; i < n; i++) {
        CHECK((v = value_dict_add_(d, key, (size_t) i)) != NULL && value_init_dict(v) == 0 && (leaf = value_dict_add(v, "y")) != NULL && value_init_int32(leaf, i) == 0, "setting up fails");
        CHECK((v = value_array_append(a)) != NULL && value_init_dict(v) == 0 && (leaf = value_dict_add(v, "y")) != NULL && value_init_int32(leaf, i) == 0, "setting up fails");
    }
    sprintf(pre, "%s%s", d_bool() ? "/" : "", isnum ? neg ? "l[-" : "l[" : "d/");
    if(isnum) { bad = d_chance(1, 4); sprintf(post, "%d%s]%s", no, bad ? "x" : "", sub ? "/y" : ""); } else sprintf(post, "%s", sub ? "/y" : "");
    map = len + 8192;
    end = huge_view(map, isnum ? '0' : 'a', &base, &total) + map;
    if(mmap(end - 4096, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(3); }
    memset(end - 4096, isnum ? '0' : 'a', 4096);
    memcpy(end - strlen(post) - 1, post, strlen(post) + 1);
    path = end - strlen(post) - 1 - len - strlen(pre);
    {   /* the pages in which the path begins are of its own, too */
        char* at = (char*) ((uintptr_t) path & ~(uintptr_t) 4095);
        if(mmap(at, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(3); }
        memset(at, isnum ? '0' : 'a', 8192);
        memcpy(path, pre, strlen(pre));
    }
    TRACE("%s '%s', %zu times '%c', '%s'; %d keys and items", build ? "build" : "path", pre, len, isnum ? '0' : 'a', post, n);
    if(build) vf_alloc_fail_over((size_t) 1 << 30);
    v = build ? value_build_path(&root, path) : value_path(&root, path);
    vf_alloc_fail_none();
    {
        int at = neg ? n - no : no;
        VALUE* want = isnum && !bad && at >= 0 && at < n ? value_array_get(a, (size_t) at) : NULL;
        if(want && sub) want = value_dict_get(want, "y");
        if(want == NULL) CHECK(v == NULL, "a path of %zu bytes which leads to nothing gives a value%s", strlen(path), build ? ", without the memory for it" : "");
        else CHECK(v == want, "a path of %zu bytes gives %s, and not item %d", strlen(path), v ? "another value" : "nothing", at);
    }
    CHECK(value_dict_size(&root) == 2 && value_dict_size(d) == (size_t) n && value_array_size(a) == (size_t) n, "the tree has changed");
    for(i = 0; i < n; i++) {
        v = value_dict_get_(d, key, (size_t) i);
        CHECK(v != NULL && value_dict_size(v) == 1 && value_int32(value_dict_get(v, "y")) == i, "key %d has changed", i);
        v = value_array_get(a, (size_t) i);
        CHECK(v != NULL && value_dict_size(v) == 1 && value_int32(value_dict_get(v, "y")) == i, "item %d has changed", i);
    }
    munmap(base, total);
    value_fini(&root);
    vf_label("a path of more than 2 GB");
    vf_nontrivial();
}
#endif

#if defined VF_C25
const char vf_rule[] = "at least two paths of two components or more led to a value and one did not, with a negative index among them";

void vf_case(void)
{
    VALUE* root = new_root();
    MV* m = mv_new(NULL, 0);
    int k, found = 0, missed = 0, neg = 0;
    size_t work = 0;
    mv_clock = 0;
    if(vf_profile == 2 && d_chance(1, 6)) { h_free(root); mv_free(m); huge_path(0); return; }
    if(d_chance(1, 10)) v_gen(root, m, 1);
    else {
        POS p = { root, m, 0 };
        if(d_bool()) { CHECK(value_init_array(root) == 0, "init"); mv_set_array(m); } else CHECK(v_init_dict(root, m) == 0, "init");
        if(vf_profile == 2 && m->type == VALUE_ARRAY) {
            size_t i, many = 32000 + (size_t) d_below(200000);
            TRACE("append %zu items", many);
            for(i = 0; i < many; i++) {
                VALUE* x = value_array_append(root);
                MV* y = mv_insert(m, i);
                CHECK(x != NULL && value_init_uint64(x, i) == 0, "appending fails");
                y->type = VALUE_UINT64; y->bits = i; y->isnew = 0;
            }
        }
        for(k = 2 + (int) d_below(vf_profile ? 30 : 10); k > 0 && work < 500; k--) {
            POS q = d_bool() ? p : pick(root, m, 0);
            work += q.m->type == VALUE_DICT ? dict_step(q) : array_step(q);
        }
    }
    v_check(root, m, "before");
    for(k = (vf_profile == 2 ? 100 : 6) + (int) d_below(16); k > 0; k--) {
        COMP c[MAXC];
        int n = draw_path(m, c, 0), i;
        char* s = render(c, n);
        POS p = { root, m, 0 };
        VALUE* r;
        u64 calls = vf_alloc_calls();
        r = value_path(root, s);
        CHECK(vf_alloc_calls() == calls, "a lookup of a path allocates");
        for(i = 0; i < n && p.v; i++) {
            size_t j = (size_t) -1;
            switch(c[i].kind) {
                case P_KEY: { ENT* e = p.m->type == VALUE_DICT ? mv_find(p.m, c[i].key, c[i].len) : NULL; if(e) j = (size_t) (e - p.m->e); break; }
                case P_IDX: if(p.m->type == VALUE_ARRAY && !c[i].oob && c[i].idx < p.m->n) j = (size_t) c[i].idx; break;
                case P_NEG: if(p.m->type == VALUE_ARRAY && !c[i].oob && c[i].idx <= p.m->n) j = p.m->n - (size_t) c[i].idx; if(j != (size_t) -1) neg = 1; break;
                default: break;
            }
            if(j == (size_t) -1) p.v = NULL; else p = child(p, j);
        }
        TRACE("path '%s': %s", s, p.v ? v_name(p.m->type) : "none");
        if(p.v == NULL) CHECK(r == NULL, "path '%s' leads to nothing but is found", s);
        else CHECK(r == p.v, "path '%s' is %s", s, r ? "found, but gives another value" : "not found");
        if(p.v) { v_check(r, p.m, "the found value"); if(n >= 2) found++; } else missed++;
        free_path(c, n, s);
    }
    v_check(root, m, "after");
    value_fini(root);
    if(neg) vf_label("negative index");
    if(missed) vf_label("no such path");
    if(found >= 2 && missed && neg) vf_nontrivial();
}
#endif

#if defined VF_C26 || defined VF_C28
/* Builds a path in the model, in at most limit steps (creations and conversions);
 * *steps is their number, and *done tells whether the whole path was there. */
static MV* build(MV* m, COMP* c, int n, int limit, int* steps, int* done)
{
    int i;
    *steps = 0; *done = 0;
    for(i = 0; i < n; i++) {
        if(m->isnew) {
            if((*steps)++ >= limit) return NULL;
            if(c[i].kind == P_KEY) mv_set_dict(m, 0, 0); else mv_set_array(m);
        }
        if(m->type != (c[i].kind == P_KEY ? VALUE_DICT : VALUE_ARRAY)) return NULL;
        switch(c[i].kind) {
            case P_KEY: {
                ENT* e = mv_find(m, c[i].key, c[i].len);
                if(e) { m = e->val; break; }
                if((*steps)++ >= limit) return NULL;
                m = mv_add(m, c[i].key, c[i].len);
                break;
            }
            case P_IDX: if(c[i].oob || c[i].idx >= m->n) return NULL; m = m->it[c[i].idx]; break;
            case P_NEG: if(c[i].oob || c[i].idx > m->n) return NULL; m = m->it[m->n - c[i].idx]; break;
            default: if((*steps)++ >= limit) return NULL; m = mv_insert(m, m->n);
        }
    }
    *done = 1;
    return m;
}
/* The value itself, found step by step ([] meaning the last item). */
static VALUE* find(VALUE* v, COMP* c, int n)
{
    int i;
    for(i = 0; i < n && v; i++) switch(c[i].kind) {
        case P_KEY: v = value_dict_get_(v, c[i].key, c[i].len); break;
        case P_IDX: v = value_array_get(v, (size_t) c[i].idx); break;
        case P_NEG: v = value_array_get(v, value_array_size(v) - (size_t) c[i].idx); break;
        default: v = value_array_get(v, value_array_size(v) - 1);
    }
    return v;
}
static int built_new, built_deep, built_null;

/* One build; returns 1 when it succeeded. may_fail: memory may have been refused. */
static int do_build(VALUE* root, MV** pm, COMP* c, int n, const char* s, int may_fail, MV** res, VALUE** out)
{
    int steps, done, k, x;
    MV* after = mv_clone(*pm, NULL);
    MV* last = build(after, c, n, 1000, &steps, &done);
    VALUE* r = value_build_path(root, s);
    u64 refused = vf_alloc_failures();
    if(may_fail) vf_alloc_fail_none();
    *out = r;
    TRACE("build '%s': %s, %d steps", s, r ? "done" : "NULL", steps);
    if(r != NULL) {
        CHECK(done, "building '%s' gives a value where none is possible", s);
        v_check(root, after, "after building a path");
        CHECK(r == find(root, c, n), "building '%s' gives another value than a lookup", s);
        v_check(r, last, "the built value");
        if(last->isnew && steps > 0) built_new = 1;
        if(steps >= 3) built_deep = 1;
        mv_free(*pm);
        *pm = after;
        *res = last;
        return 1;
    }
    CHECK(!done || (may_fail && refused > 0), "building '%s' gives NULL", s);
    if(!done) built_null = 1;
    /* what was created before it failed may stay */
    for(k = steps; ; k--) {
        const char* d = v_diff(root, after);
        if(d == NULL) break;
        CHECK(k > 0, "after a build of '%s' which failed: %s", s, d);
        mv_free(after);
        after = mv_clone(*pm, NULL);
        build(after, c, n, k - 1, &x, &x);
    }
    mv_free(*pm);
    *pm = after;
    return 0;
}
#endif

#if defined VF_C26
const char vf_rule[] = "new values were built below existing ones, three or more creations in one path, and a build gave NULL";

void vf_case(void)
{
    VALUE holder;
    VALUE* root;
    MV* m;
    int k;
    unsigned avg = d_avg();
    size_t work = 0;
    built_new = built_deep = built_null = 0;
    mv_clock = 0;
    if(vf_profile == 2 && d_chance(1, 6)) { huge_path(1); return; }
    CHECK(value_init_array(&holder) == 0, "init");
    root = value_array_append(&holder);
    m = mv_new(NULL, 1);
    switch(D_WEIGHTED(4, 4, 2, 1)) {
        case 0: CHECK(v_init_dict(root, m) == 0, "init"); break;
        case 1: CHECK(value_init_array(root) == 0, "init"); mv_set_array(m); break;
        case 2: break;                       /* new */
        default: v_gen(root, m, 2);
    }
    while(d_more(avg) && work < (vf_profile ? 20000u : 5000u)) {
        COMP c[MAXC];
        int n = draw_path(m, c, 1), ok;
        char* s = render(c, n);
        MV* res = NULL;
        VALUE* out;
        ok = do_build(root, &m, c, n, s, 0, &res, &out);
        if(ok && (res->isnew ? d_chance(3, 5) : d_chance(1, 20))) {
            POS p = { out, res, n };
            value_fini(out); mv_reset(res);
            TRACE("the result is given a content");
            gen_into(p);
            v_check(root, m, "after initialising the built value");
        } else if(ok && res->isnew && d_chance(1, 4)) { value_init_null(out); res->isnew = 0; mv_touch(res); v_check(root, m, "after initialising the built value as null"); }
        if(ok) { /* building again finds the same value when nothing is to be appended */
            for(k = 0; k < n && c[k].kind != P_APP; k++) ;
            if(k == n) {
                CHECK(value_path(root, s) == out, "path '%s' is not found after it was built", s);
                CHECK(value_build_path(root, s) == out, "building '%s' again gives another value", s);
                v_check(root, m, "after building a path again");
            }
        }
        work += 5 + mv_count(m);
        free_path(c, n, s);
    }
    v_check(root, m, "at the end");
    value_fini(&holder);
    if(built_null) vf_label("NULL");
    if(built_deep) vf_label("three creations and more");
    if(built_new && built_deep && built_null) vf_nontrivial();
}
#endif

/* ------------------------------------------------------------------ C27 */
#if defined VF_C27
const char vf_rule[] = "nested content was released in parts, and pointers were checked after changes elsewhere";

#define NW 24
typedef struct { int used, kind; const void* p; MV* m; MV* chain[16]; u64 ver[16]; int nchain; size_t klen; char* key; } WATCH;
static WATCH w_[NW];
static int w_checked;

/* kind 0: the value's address; 1: its string; 2: the key of a dictionary item; 3: all items of an array */
static void watch(POS p, MV* parent, int kind, const void* ptr, const char* key, size_t klen)
{
    WATCH* w = &w_[d_below(NW)];
    MV* a;
    if(w->key) h_free(w->key);
    memset(w, 0, sizeof(*w));
    w->used = 1; w->kind = kind; w->p = ptr; w->m = p.m;
    if(kind == 1 || kind == 3) { w->chain[0] = p.m; w->ver[0] = p.m->ver; w->nchain = 1; }
    for(a = parent; a && w->nchain < 16; a = a->parent) { w->chain[w->nchain] = a; w->ver[w->nchain++] = a->ver; }
    if(key) { w->key = (char*) h_dup(key, klen); w->klen = klen; }
    TRACE("watch %d of a %s", kind, v_name(p.m->type));
}
static void check_watches(void)
{
    int i, j;
    for(i = 0; i < NW; i++) {
        WATCH* w = &w_[i];
        if(!w->used) continue;
        /* from the root down: a released container is never looked at, as its parent has changed */
        for(j = w->nchain - 1; j >= 0; j--) if(w->chain[j]->ver != w->ver[j]) break;
        if(j >= 0) { w->used = 0; continue; }
        switch(w->kind) {
            case 0: v_check((const VALUE*) w->p, w->m, "a value returned before"); break;
            case 1: CHECK(memcmp(w->p, w->m->str, w->m->len) == 0 && ((const char*) w->p)[w->m->len] == 0, "a string returned before has changed"); break;
            case 2: { const VALUE* k = (const VALUE*) w->p; CHECK(value_type(k) == VALUE_STRING && value_string_length(k) == w->klen && memcmp(value_string(k), w->key, w->klen) == 0, "a key returned before has changed"); break; }
            default: { size_t k; for(k = 0; k < w->m->n; k++) v_check((const VALUE*) w->p + k, w->m->it[k], "an item of an array returned before"); }
        }
        w_checked++;
    }
}

void vf_case(void)
{
    size_t outer = vf_live_blocks();
    VALUE* root = new_root();
    MV* m = mv_new(NULL, 0);
    unsigned avg = d_avg();
    size_t work = 0;
    int parts = 0;
    did_mid = did_range = did_oob = did_nested = did_clean = 0;
    w_checked = 0;
    mv_clock = 0;
    memset(w_, 0, sizeof(w_));
    if(d_bool()) { CHECK(value_init_array(root) == 0, "init"); mv_set_array(m); } else CHECK(v_init_dict(root, m) == 0, "init");
    while(d_more(avg) && work < (vf_profile ? 12000u : 4000u)) {
        POS p;
        switch(D_WEIGHTED(6, 4, 3)) {
            case 0:
                p = d_chance(1, 3) ? (POS) { root, m, 0 } : pick(root, m, 0);
                work += p.m->type == VALUE_DICT ? dict_step(p) : array_step(p);
                break;
            case 1: { /* remember something returned */
                POS q = pick(root, m, 0), c;
                size_t i;
                if(q.m->n == 0) break;
                i = (size_t) d_below(q.m->n);
                c = child(q, i);
                switch(d_below(4)) {
                    case 0: watch(c, q.m, 0, c.v, NULL, 0); break;
                    case 1: if(c.m->type == VALUE_STRING) watch(c, q.m, 1, value_string(c.v), NULL, 0); break;
                    case 2: if(q.m->type == VALUE_DICT) {
                        const VALUE** keys = (const VALUE**) h_malloc(q.m->n * sizeof(VALUE*));
                        CHECK(value_dict_keys_sorted(q.v, keys, q.m->n) == q.m->n, "not all keys are given");
                        watch(c, q.m, 2, keys[i], value_string(keys[i]), value_string_length(keys[i]));
                        h_free(keys);
                        break;
                    }
                    break;
                    default: if(q.m->type == VALUE_ARRAY) watch(q, q.m->parent, 3, value_array_get_all(q.v), NULL, 0);
                }
                break;
            }
            default: { /* fill a value, release it again: everything is back, and nothing else */
                POS q = pick(root, m, 1);
                size_t blocks, bytes;
                if(q.m == m) { if(!d_chance(1, 4)) break; }
                value_fini(q.v); mv_reset(q.m);
                v_check(q.v, q.m, "a finalised value");
                blocks = vf_live_blocks(); bytes = vf_live_bytes();
                work += gen_into(q);
                TRACE("a value of %zu parts is filled and released", mv_count(q.m));
                if(q.m != m && d_chance(1, 3)) break;
                if(q.m->type == VALUE_ARRAY && d_bool()) value_array_clean(q.v), mv_clean(q.m), v_check(q.v, q.m, "a cleaned array");
                if(q.m->type == VALUE_DICT && d_bool()) value_dict_clean(q.v), mv_clean(q.m), v_check(q.v, q.m, "a cleaned dictionary");
                if(mv_count(q.m) > 3) parts++;
                value_fini(q.v); mv_reset(q.m);
                v_check(q.v, q.m, "a finalised value");
                CHECK(vf_live_blocks() == blocks && vf_live_bytes() == bytes, "a value that was finalised left %zd blocks and %zd bytes", (ssize_t) (vf_live_blocks() - blocks), (ssize_t) (vf_live_bytes() - bytes));
                if(d_bool()) { value_fini(q.v); v_check(q.v, q.m, "a value finalised twice"); }
                if(q.m == m) { if(d_bool()) { CHECK(value_init_array(root) == 0, "init"); mv_set_array(m); } else CHECK(v_init_dict(root, m) == 0, "init"); }
            }
        }
        check_watches();
        work += 2;
    }
    v_check(root, m, "at the end");
    value_fini(root);
    CHECK(vf_live_blocks() == outer, "after everything was finalised %zd blocks are held", (ssize_t) (vf_live_blocks() - outer));
    CHECK(value_type(root) == VALUE_NULL && !value_is_new(root), "a finalised value is no plain null");
    value_fini(root);
    value_fini(NULL);
    if(did_clean) vf_label("cleaned");
    if(w_checked) vf_label("pointers checked");
    if(parts && w_checked >= 3 && did_nested) vf_nontrivial();
}
#endif

/* ------------------------------------------------------------------ C28 */
#if defined VF_C28
const char vf_rule[] = "at least two operations failed because memory was refused, of two kinds";

static u64 refused0;
static void arm(void)
{
    refused0 = vf_alloc_failures();
    switch(D_WEIGHTED(2, 4, 3)) {
        case 0: vf_alloc_fail_none(); break;
        case 1: vf_alloc_fail_at(1 + d_below(4)); break;
        default: vf_alloc_fail_from(1 + d_below(4)); break;
    }
}
static int refused(void) { int r = vf_alloc_failures() > refused0; vf_alloc_fail_none(); return r; }

void vf_case(void)
{
    VALUE* root = new_root();
    MV* m = mv_new(NULL, 0);
    unsigned avg = d_avg(), kinds = 0;
    size_t work = 0, outer = vf_live_blocks();
    int failures = 0;
    mv_clock = 0;
    if(d_bool()) { CHECK(value_init_array(root) == 0, "init"); mv_set_array(m); } else CHECK(v_init_dict(root, m) == 0, "init");
    if(d_chance(3, 4)) { int k; for(k = (int) d_below(20); k > 0; k--) { POS p = pick(root, m, 0); work += p.m->type == VALUE_DICT ? dict_step(p) : array_step(p); } }
    work = 0;
    v_check(root, m, "before");
    while(d_more(avg) && work < (vf_profile ? 30000u : 8000u)) {
        int op = D_WEIGHTED(4, 4, 4, 3, 4, 1), failed = 0, was, tries;
        POS p;
        switch(op) {
            case 0: { /* another content of a value */
                int t = D_WEIGHTED(4, 3, 3, 1);
                size_t len = 0;
                char* s = NULL;
                int cmp = 0, ordered = 0, own = 0;
                MV want;
                p = pick(root, m, 1);
                if(p.m == m) break;
                value_fini(p.v); mv_reset(p.m);
                if(t == 0) { len = v_draw_len(); s = v_draw_bytes(len); }
                if(t == 2) { ordered = d_bool(); cmp = d_chance(1, 3) ? (int) d_below(N_CMP) : 0; own = cmp != 0; }
                (void) want;
                for(tries = 0; tries < 2; tries++) {
                    int r;
                    if(tries == 0) arm();
                    switch(t) {
                        case 0: r = value_init_string_(p.v, s, len); break;
                        case 1: r = value_init_array(p.v); break;
                        case 2: r = value_init_dict_ex(p.v, own ? k_funcs[cmp] : NULL, ordered ? VALUE_DICT_MAINTAINORDER : 0); break;
                        default: r = value_init_uint64(p.v, 77);
                    }
                    was = refused();
                    TRACE("init kind %d: %d%s", t, r, was ? " (refused)" : "");
                    if(r == 0) {
                        if(t == 0) mv_set_string(p.m, s, len); else if(t == 1) mv_set_array(p.m); else if(t == 2) mv_set_dict(p.m, ordered, cmp);
                        else { mv_reset(p.m); p.m->type = VALUE_UINT64; p.m->bits = 77; }
                        break;
                    }
                    CHECK(r == -1, "an initialiser returns %d", r);
                    CHECK(was && tries == 0, "initialising fails although memory was available");
                    failed = 1;
                    v_check(root, m, "after a failed initialisation");
                }
                if(s) h_free(s);
                break;
            }
            case 1: { /* insertion */
                size_t i;
                p = pick(root, m, 0);
                if(p.m->type != VALUE_ARRAY) break;
                i = d_bool() ? p.m->n : (size_t) d_below(p.m->n + 1);
                for(tries = 0; tries < 2; tries++) {
                    VALUE* x;
                    if(tries == 0) arm();
                    x = i == p.m->n && tries == 0 ? value_array_append(p.v) : value_array_insert(p.v, i);
                    was = refused();
                    TRACE("insert at %zu of %zu: %s%s", i, p.m->n, x ? "done" : "failed", was ? " (refused)" : "");
                    if(x) { MV* c = mv_insert(p.m, i); CHECK(value_init_uint32(x, (u32) work) == 0, "init"); c->isnew = 0; c->type = VALUE_UINT32; c->bits = (u32) work; break; }
                    CHECK(was && tries == 0, "an insertion at %zu of %zu fails although memory was available", i, p.m->n);
                    failed = 1;
                    v_check(root, m, "after a failed insertion");
                }
                break;
            }
            case 2: { /* a key */
                size_t len;
                char* key;
                ENT* e;
                p = pick(root, m, 0);
                if(p.m->type != VALUE_DICT) break;
                key = v_draw_key(&len);
                if(d_chance(1, 3)) { h_free(key); len = 10 + (size_t) d_below(10); key = v_draw_bytes(len); }
                e = mv_find(p.m, key, len);
                for(tries = 0; tries < 2; tries++) {
                    VALUE* x;
                    int how = d_bool() ? K_ADD : K_GETADD;
                    if(tries == 0) arm();
                    x = v_dict_op(p.v, how, key, len);
                    was = refused();
                    TRACE("%s %s: %s%s", how == K_ADD ? "add" : "get or add", vf_hex(key, len), x ? "done" : "failed", was ? " (refused)" : "");
                    if(e) { CHECK((x != NULL) == (how == K_GETADD), "%s of a present key %s", how == K_ADD ? "add" : "get-or-add", x ? "succeeds" : "fails"); break; }
                    if(x) { mv_add(p.m, key, len); break; }
                    CHECK(was && tries == 0, "adding a key fails although memory was available");
                    failed = 1;
                    CHECK(v_dict_op(p.v, K_GET, key, len) == NULL, "a key is found although adding it failed");
                    v_check(root, m, "after a failed addition");
                }
                h_free(key);
                break;
            }
            case 3: /* removals work without memory */
                p = pick(root, m, 0);
                if(p.m->n == 0) break;
                arm();
                if(p.m->type == VALUE_ARRAY) {
                    size_t i = (size_t) d_below(p.m->n), k = 1 + (size_t) d_below(p.m->n - i);
                    int r = value_array_remove_range(p.v, i, k);
                    refused();
                    TRACE("remove %zu from %zu of %zu", k, i, p.m->n);
                    CHECK(r == 0, "removal of %zu items from %zu of %zu gives %d", k, i, p.m->n, r);
                    mv_remove(p.m, i, k);
                } else {
                    ENT* e = &p.m->e[d_below(p.m->n)];
                    int r = v_dict_del(p.v, e->key, e->len);
                    refused();
                    TRACE("remove %s", vf_hex(e->key, e->len));
                    CHECK(r == 0, "removal of a present key gives %d", r);
                    mv_del(p.m, e);
                }
                break;
            case 4: { /* a path */
                COMP c[MAXC];
                int n = draw_path(m, c, 1), ok, k, app = 0;
                char* s = render(c, n);
                MV* res = NULL;
                VALUE* out;
                u64 f0 = vf_alloc_failures();
                for(k = 0; k < n; k++) app |= c[k].kind == P_APP;
                arm();
                ok = do_build(root, &m, c, n, s, 1, &res, &out);
                if(!ok && vf_alloc_failures() > f0) {
                    failed = 1;
                    do_build(root, &m, c, n, s, 0, &res, &out);
                }
                (void) app;
                free_path(c, n, s);
                break;
            }
            default: /* many appends, then many removals: growing and shrinking */
                p = (POS) { root, m, 0 };
                if(m->type != VALUE_ARRAY) break;
                { size_t k = 20 + (size_t) d_below(200), i;
                  for(i = 0; i < k; i++) {
                    VALUE* x = value_array_append(root); MV* c;
                    CHECK(x != NULL, "append fails");
                    c = mv_insert(m, m->n); value_init_uint32(x, (u32) i); c->isnew = 0; c->type = VALUE_UINT32; c->bits = (u32) i;
                  }
                  work += k; }
        }
        if(failed) { failures++; kinds |= 1u << op; }
        v_check(root, m, "after an operation");
        work += mv_count(m);
    }
    v_check(root, m, "at the end");
    value_fini(root);
    CHECK(vf_live_blocks() == outer, "%zd blocks are still held at the end", (ssize_t) (vf_live_blocks() - outer));
    if(kinds & 1) vf_label("refused: initialisation");
    if(kinds & 2) vf_label("refused: insertion");
    if(kinds & 4) vf_label("refused: key");
    if(kinds & 16) vf_label("refused: path");
    if(failures >= 2 && (kinds & (kinds - 1))) vf_nontrivial();
}
#endif
