/* C22-C24: dictionaries with many keys. */
#include "vmodel.h"
#include "huge.h"

const char vf_property[] = VF_PROPERTY;

extern int vf_dv(VALUE*) __asm__("value_dict_verify") __attribute__((weak));

/* Key number i of a family; all are different, also without regard to case. */
enum { F_DEC, F_RUN, F_BE, F_LONG, F_BITS, F_LETTERS, N_FAM };
static int family;
static size_t prefix_len;

static size_t key_len_max(void) { return 80 + prefix_len + (family == F_RUN ? 400 : 0); }
static size_t key_make(char* s, u32 i)
{
    size_t n = 0;
    switch(family) {
        case F_DEC: return (size_t) sprintf(s, "%u", i);
        case F_RUN: n = i % 400; memset(s, 'a', n); if(i >= 400) n += (size_t) sprintf(s + n, "b%u", i / 400); return n;
        case F_BE: s[0] = (char) (i >> 24); s[1] = (char) (i >> 16); s[2] = (char) (i >> 8); s[3] = (char) i; return 4;
        case F_LONG: memset(s, 'p', prefix_len); return prefix_len + (size_t) sprintf(s + prefix_len, "%u", i);
        case F_BITS: { u32 x = i + 1; int k = 31; while(!(x >> k)) k--; while(k-- > 0) s[n++] = (x >> k) & 1 ? (char) 0xff : 0; return n; }
        default: { u32 x = i; do { s[n++] = (char) ('a' + x % 26); x /= 26; } while(x); return n; }
    }
}
/* another spelling of the same key, for orders that do not distinguish case */
static void respell(char* s, size_t n, u64 seed)
{
    size_t i;
    for(i = 0; i < n; i++) if(s[i] >= 'a' && s[i] <= 'z' && (vf_next(&seed) & 1)) s[i] -= 32;
}

typedef struct SLOT { int present, kind; u32 serial; char* key; size_t len; u32 prev, next; } SLOT;   /* prev and next: order of addition */
#define NONE 0xffffffffu
typedef struct { VALUE v; SLOT* slot; u32 space; size_t n; int ordered, cmp, own; u32 head, tail, serial; u32* sorted; } D;

static void d_init(D* d, u32 space)
{
    memset(d, 0, sizeof(*d));
    d->space = space;
    d->slot = (SLOT*) h_calloc(space * sizeof(SLOT));
    d->head = d->tail = NONE;
    d->ordered = d_bool();
    d->cmp = d_chance(1, 2) ? (int) d_below(N_CMP) : 0;
#ifdef VF_C24
    d->own = !d_chance(1, 6) || d->cmp != 0;
#else
    d->own = d->cmp != 0 || d_chance(1, 4);
#endif
    if(d->cmp == 3 && family == F_BE) family = F_LETTERS;    /* keys must differ without regard to case */
    memset(&d->v, 0xCC, sizeof(VALUE));
    CHECK((!d->own && !d->ordered && d_bool() ? value_init_dict(&d->v)
          : value_init_dict_ex(&d->v, d->own ? k_funcs[d->cmp] : NULL, d->ordered ? VALUE_DICT_MAINTAINORDER : 0)) == 0, "initialising a dictionary fails");
    CHECK(value_dict_flags(&d->v) == (d->ordered ? VALUE_DICT_MAINTAINORDER : 0u), "flags are %#x", value_dict_flags(&d->v));
    TRACE("a dictionary, %s, order %d%s, keys of family %d", d->ordered ? "keeping the order" : "plain", d->cmp, d->own ? " (own)" : "", family);
}

static char* spell(D* d, u32 k, size_t* len)
{
    char* s = (char*) h_malloc(key_len_max());
    *len = key_make(s, k);
    if(d->cmp == 3 && d_bool()) respell(s, *len, d_seed());
    return s;
}

/* ---- cost ---- */
static int count_it, counted;
static unsigned lim(size_t n) { unsigned k = 0; double x = 1, want = (double) n + 1; want *= want; while(x * 2 <= want) { x *= 2; k++; } return k; }
/* passes: how often an operation may go down the tree. An addition that looks the key up first, and then
 * goes down again to add it, still is as cheap as promised. */
static void cost(D* d, u64 before, const char* op, unsigned passes)
{
    u64 used = k_calls - before;
    unsigned most = passes * (lim(d->n) + 2);
    if(!count_it || !d->own) return;
    counted = 1;
    CHECK(used <= most, "%s among %zu keys compares %llu keys (at most %u are expected of a balanced tree)", op, d->n, (unsigned long long) used, most);
}
static void structure(D* d, const char* when)
{
    if(count_it && vf_dv) CHECK(vf_dv(&d->v) == 0, "%s: the tree breaks the rules of red-black trees", when);
}

/* ---- content of a slot's value, made from its kind and serial ---- */
static void fill_value(VALUE* x, SLOT* s)
{
    char t[64];
    int n;
    switch(s->kind) {
        case 0: break;                                   /* left new */
        case 1: value_init_null(x); break;
        case 2: CHECK(value_init_uint32(x, s->serial) == 0, "init fails"); break;
        case 3: n = sprintf(t, "%u", s->serial); CHECK(value_init_string_(x, t, (size_t) n) == 0, "init fails"); break;
        case 4: n = sprintf(t, "a much longer string, number %u", s->serial); CHECK(value_init_string_(x, t, (size_t) n) == 0, "init fails"); break;
        default: CHECK(value_init_array(x) == 0 && value_init_uint32(value_array_append(x), s->serial) == 0, "init fails");
    }
}
static void check_content(const VALUE* x, const SLOT* s, const char* when, u32 k)
{
    char t[64];
    int n;
    CHECK(!!value_is_new(x) == (s->kind == 0), "%s: the value of key %u is %s", when, k, value_is_new(x) ? "marked new" : "not marked new");
    switch(s->kind) {
        case 0: case 1: CHECK(value_type(x) == VALUE_NULL, "%s: the value of key %u is not null", when, k); break;
        case 2: CHECK(value_type(x) == VALUE_UINT32 && value_uint32(x) == s->serial, "%s: key %u has another value", when, k); break;
        case 3: case 4:
            n = s->kind == 3 ? sprintf(t, "%u", s->serial) : sprintf(t, "a much longer string, number %u", s->serial);
            CHECK(value_type(x) == VALUE_STRING && value_string_length(x) == (size_t) n && memcmp(value_string(x), t, (size_t) n + 1) == 0, "%s: key %u has another value", when, k);
            break;
        default: CHECK(value_type(x) == VALUE_ARRAY && value_array_size(x) == 1 && value_uint32(value_array_get(x, 0)) == s->serial, "%s: key %u has another value", when, k);
    }
}

static void do_get(D* d, u32 k, const char* when)
{
    size_t len;
    char* s = spell(d, k, &len);
    u64 c0 = k_calls;
    VALUE* x = d->own || len || !d_chance(1, 4) ? v_dict_op(&d->v, K_GET, s, len) : value_dict_get(&d->v, NULL);
    cost(d, c0, "a lookup", 1);
    if(!d->slot[k].present) CHECK(x == NULL, "%s: absent key %u (%s) is found", when, k, vf_hex(s, len));
    else { CHECK(x != NULL, "%s: key %u (%s) is not found", when, k, vf_hex(s, len)); check_content(x, &d->slot[k], when, k); }
    h_free(s);
}

static void do_add(D* d, u32 k, int op)
{
    size_t len;
    char* s = spell(d, k, &len);
    SLOT* t = &d->slot[k];
    u64 c0 = k_calls;
    VALUE* x = v_dict_op(&d->v, op, s, len);
    cost(d, c0, "an addition", 2);
    if(t->present) {
        if(op == K_ADD) CHECK(x == NULL, "adding present key %u (%s) succeeds", k, vf_hex(s, len));
        else { CHECK(x != NULL, "get-or-add of present key %u (%s) gives NULL", k, vf_hex(s, len)); check_content(x, t, "get-or-add", k); }
        h_free(s);
    } else {
        CHECK(x != NULL, "adding absent key %u (%s) fails", k, vf_hex(s, len));
        CHECK(value_type(x) == VALUE_NULL && value_is_new(x), "the value of the added key %u is not a null marked new", k);
        t->present = 1; t->key = s; t->len = len; t->serial = d->serial++; t->kind = (int) (vf_mix(t->serial) % 6);
        t->prev = d->tail; t->next = NONE;
        if(d->tail != NONE) d->slot[d->tail].next = k; else d->head = k;
        d->tail = k;
        d->n++;
        fill_value(x, t);
    }
    CHECK(value_dict_size(&d->v) == d->n, "after an addition: size is %zu and should be %zu", value_dict_size(&d->v), d->n);
}

static void do_remove(D* d, u32 k)
{
    size_t len;
    char* s = spell(d, k, &len);
    SLOT* t = &d->slot[k];
    u64 c0 = k_calls;
    int r = v_dict_del(&d->v, s, len);
    cost(d, c0, "a removal", 2);
    if(!t->present) CHECK(r == -1, "removing absent key %u (%s) gives %d", k, vf_hex(s, len), r);
    else {
        CHECK(r == 0, "removing key %u (%s) gives %d", k, vf_hex(s, len), r);
        if(t->prev != NONE) d->slot[t->prev].next = t->next; else d->head = t->next;
        if(t->next != NONE) d->slot[t->next].prev = t->prev; else d->tail = t->prev;
        h_free(t->key);
        memset(t, 0, sizeof(*t));
        d->n--;
    }
    h_free(s);
    CHECK(value_dict_size(&d->v) == d->n, "after a removal: size is %zu and should be %zu", value_dict_size(&d->v), d->n);
}

static void d_forget(D* d) { u32 k; for(k = 0; k < d->space; k++) if(d->slot[k].present) { h_free(d->slot[k].key); memset(&d->slot[k], 0, sizeof(SLOT)); } d->n = 0; d->head = d->tail = NONE; }

static void check_all(D* d, const char* when)
{
    u32 k;
    CHECK(value_dict_size(&d->v) == d->n, "%s: size is %zu and should be %zu", when, value_dict_size(&d->v), d->n);
    for(k = 0; k < d->space; k++) do_get(d, k, when);
}

static u32 draw_space(void)
{
    if(vf_profile == 2) return 60000 + (u32) d_below(100000);
    switch(D_WEIGHTED(4, 5, 3, 1)) {
        case 0: return 1 + (u32) d_below(12);
        case 1: return 1 + (u32) d_below(60);
        case 2: return 1 + (u32) d_below(500);
        default: return 1 + (u32) d_below(vf_profile ? 8000 : 2000);
    }
}
static void setup_keys(void)
{
    family = (int) d_below(N_FAM);
    prefix_len = family == F_LONG ? (d_chance(1, 8) ? (d_chance(1, 4) ? 65530 : 16380) + (size_t) d_below(8) : 100 + (size_t) d_below(60)) : 0;
}
static u32 space_for_family(u32 space) { return prefix_len > 1000 && space > 40 ? 1 + space % 40 : space; }

static int did_add, did_rem, did_dup;

static size_t step(D* d)
{
    u32 k = (u32) d_below(d->space), i;
    int big = vf_profile == 2;
    switch(big && d->n < 20000 ? 3 : D_WEIGHTED(7, 6, 2, 3, 1)) {
        case 0: { int op = d_bool() ? K_ADD : K_GETADD; TRACE("%s %u", op == K_ADD ? "add" : "get or add", k);
            if(d->slot[k].present) did_dup = 1; else did_add = 1;
            do_add(d, k, op); do_get(d, k, "after an addition"); structure(d, "after an addition"); return 1; }
        case 1: TRACE("remove %u", k); if(d->slot[k].present) did_rem = 1;
            do_remove(d, k); do_get(d, k, "after a removal"); structure(d, "after a removal"); return 1;
        case 2: TRACE("get %u", k); do_get(d, k, "lookup"); return 1;
        case 3: {
            int ins = d_chance(3, 5) || (big && d->n < 1000), kind = (int) d_below(4);
            u32 c = big && d->n < 20000 ? d->space / 2 + (u32) d_below(d->space / 2) : (u32) d_size(d->space), stride = kind == 2 ? 1 + (u32) d_below(d->space) : 1;
            u64 s = kind == 3 ? d_seed() : 0;
            TRACE("%s %u keys from %u, way %d/%u (of %zu present)", ins ? "add" : "remove", c, k, kind, stride, d->n);
            for(i = 0; i < c; i++) {
                u32 y = kind == 0 ? (u32) (((u64) k + i) % d->space) : kind == 1 ? (u32) (((u64) k + d->space - i % d->space) % d->space)
                      : kind == 2 ? (u32) ((k + (u64) i * stride) % d->space) : (u32) (vf_next(&s) % d->space);
                if(ins) do_add(d, y, K_GETADD); else do_remove(d, y);
                if(c < 40 || i % (big ? 20000 : 64) == 0) structure(d, "in a run");
            }
            structure(d, "after a run");
            if(c) { if(ins) did_add = 1; else did_rem = 1; }
            return c * (prefix_len > 1000 ? 100 : 1);
        }
        default:
            if(!d_chance(1, 4)) return 1;
            TRACE("clean (%zu present)", d->n);
            value_dict_clean(&d->v);
            CHECK(value_type(&d->v) == VALUE_DICT && value_dict_size(&d->v) == 0, "a cleaned dictionary is not an empty dictionary");
            CHECK(value_dict_flags(&d->v) == (d->ordered ? VALUE_DICT_MAINTAINORDER : 0u), "flags of a cleaned dictionary are %#x", value_dict_flags(&d->v));
            d_forget(d);
            return 1;
    }
}

/* ---- keys of some GiB: 'a' repeated; the dictionary holds many short ones and at most one of more than 2^31 bytes ---- */
#if defined VF_C22 || defined VF_C23
static size_t a_len[400]; static int a_no;
static size_t draw_len(void)
{
    static const u64 mids[] = { (u64) 1 << 31, (u64) 1 << 32, (u64) 1 << 31, (u64) 1 << 32, (u64) 3 << 31 };
    size_t few = d_size(300);
    return d_bool() ? few : d_chance(1, 4) ? (size_t) mids[d_below(4)] - 1 - few : (size_t) mids[d_below(5)] + few;
}
static int a_visit(const VALUE* k, VALUE* v, void* p)
{
    int* at = (int*) p;
    CHECK(*at < a_no && value_string_length(k) == a_len[*at], "a walk gives a key of %zu bytes as number %d of %d, where one of %zu is expected", value_string_length(k), *at, a_no, *at < a_no ? a_len[*at] : 0);
    CHECK(value_int64(v) == (int64_t) a_len[*at], "the value of the key of %zu bytes is another one", a_len[*at]);
    (*at)++;
    return 0;
}
static int a_find(size_t len) { int i = 0; while(i < a_no && a_len[i] < len) i++; return i; }
static void huge_keys(void)
{
    void* base; size_t total; int i, ops = 10 + (int) d_below(60), giant_adds = 0, seen = 0;
    const size_t most = (size_t) 7 << 30;
    char* end = huge_view(most, 'a', &base, &total) + most;
    VALUE d, *v;
    u64 fails;
    /* the last page is one of its own */
    if(mmap(end - 4096, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(3); }
    memset(end - 4096, 'a', 4096);
    a_no = 0;
    vf_mem_cap((size_t) 6 << 30);
    CHECK(value_init_dict(&d) == 0, "initialising a dictionary fails");
    while(ops-- > 0) {
        size_t len = draw_len();
        int at = a_find(len), have = at < a_no && a_len[at] == len, big = len >= (size_t) 1 << 30, op = D_WEIGHTED(4, 6, 2), refuse = 0;
        if(big) seen = 1;
        if(op == 0 && big && !have && (giant_adds > 1 || (a_no && a_len[a_no - 1] >= (size_t) 1 << 30))) refuse = 1;
        if(op == 0 && a_no > 350) op = 1;
        TRACE("%s a key of %zu bytes (of %d keys)%s", op == 0 ? "add" : op == 1 ? "get" : "remove", len, a_no, refuse ? ", no memory" : "");
        switch(op) {
            case 0:
                if(refuse) vf_alloc_fail_over((size_t) 1 << 30);
                fails = vf_alloc_failures();
                v = have || d_bool() ? value_dict_get_or_add_(&d, end - len, len) : value_dict_add_(&d, end - len, len);
                vf_alloc_fail_none();
                if(refuse) { CHECK(v == NULL, "without memory, a key of %zu bytes is added or found, though it is not there", len); break; }
                if(v == NULL && vf_alloc_failures() > fails && big) { vf_label("refused by the system"); break; }
                CHECK(v != NULL, "adding a key of %zu bytes fails", len);
                CHECK(!!value_is_new(v) == !have, "adding a key of %zu bytes, which is %s, gives a%s value", len, have ? "there" : "not there", have ? " new" : "n old");
                if(have) { CHECK(value_int64(v) == (int64_t) len, "the value of the key of %zu bytes is another one", len); break; }
                value_init_int64(v, (int64_t) len);
                memmove(&a_len[at + 1], &a_len[at], (size_t) (a_no - at) * sizeof(size_t)); a_len[at] = len; a_no++;
                if(big) { giant_adds++; vf_label("a key of more than 2 GB added"); }
                break;
            case 1:
                if(a_no && d_bool()) { at = d_bool() ? a_no - 1 : (int) d_below((u64) a_no); len = a_len[at]; have = 1; }
                if(len > 0 && d_bool()) { /* as long as one that is there, but another one */
                    end[-1] = d_bool() ? 'b' : '@';
                    v = value_dict_get_(&d, end - len, len);
                    end[-1] = 'a';
                    CHECK(v == NULL, "a key of %zu bytes that differs in the last byte is found", len);
                }
                v = value_dict_get_(&d, end - len, len);
                CHECK((v != NULL) == have, "a key of %zu bytes, which is %s, is %s", len, have ? "there" : "not there", v ? "found" : "not found");
                if(v) CHECK(value_int64(v) == (int64_t) len, "the value of the key of %zu bytes is another one", len);
                break;
            default:
                if(!have && a_no && d_bool()) { at = (int) d_below((u64) a_no); len = a_len[at]; have = 1; }
                CHECK((value_dict_remove_(&d, end - len, len) == 0) == have, "the removal of a key of %zu bytes, which is %s, %s", len, have ? "there" : "not there", have ? "fails" : "succeeds");
                if(have) { a_no--; memmove(&a_len[at], &a_len[at + 1], (size_t) (a_no - at) * sizeof(size_t)); }
                break;
        }
        CHECK(value_dict_size(&d) == (size_t) a_no, "the size is %zu instead of %d", value_dict_size(&d), a_no);
        i = 0;
        CHECK(value_dict_walk_sorted(&d, a_visit, &i) == 0 && i == a_no, "a walk ends after %d of %d keys", i, a_no);
    }
    value_fini(&d);
    munmap(base, total);
    if(seen) { vf_label("keys of more than 2 GB"); vf_nontrivial(); }
}
#endif

#if defined VF_C22 || defined VF_C24

#ifdef VF_C22
const char vf_rule[] = "keys were added and removed, and at least 8 were in the dictionary at once";
#else
const char vf_rule[] = "keys were added and removed, at least 8 were in the dictionary at once, and comparisons were counted";
#endif

void vf_case(void)
{
    D d;
    unsigned avg = d_avg();
    size_t work = 0, most = 0, blocks = vf_live_blocks();
    u32 k, i;
    int n = 0, own;
    did_add = did_rem = did_dup = counted = 0;
#ifdef VF_C22
    if(vf_profile == 2 && d_bool()) { huge_keys(); return; }
#endif
#ifdef VF_C24
    count_it = 1;
#endif
    setup_keys();
    d_init(&d, space_for_family(draw_space()));
    own = d.own;
    if(vf_profile == 2) work += step(&d);
    while(d_more(avg) && work < (vf_profile == 2 ? 300000u : vf_profile ? 30000u : 6000u)) {
        work += step(&d);
        if(d.n > most) most = d.n;
#ifdef VF_C22
        if(d.space <= 60 || ++n % 16 == 0) { check_all(&d, "in the history"); work += d.space * (prefix_len > 1000 ? 60 : 1); }
#endif
    }
    (void) n;
    check_all(&d, "at the end");
    structure(&d, "at the end");
    if(d_bool()) {
        u32 stride = 1 + (u32) d_below(d.space);
        for(i = 0; i < d.space; i++) { do_remove(&d, (u32) (((u64) i * stride) % d.space)); if(d.space < 300) structure(&d, "while emptying"); }
        for(k = 0; k < d.space; k++) do_remove(&d, k);
        check_all(&d, "emptied");
    }
    value_fini(&d.v);
    CHECK(vf_live_blocks() == blocks, "a finalised dictionary leaves %zu blocks", vf_live_blocks() - blocks);
    if(did_dup) vf_label("present key added again");
    if(did_rem) vf_label("removals");
    if(d.ordered) vf_label("order kept");
    if(own) vf_label("own key order");
    if(most >= 100) vf_label("100 keys and more");
    if(did_add && did_rem && most >= 8 && (!count_it || counted)) vf_nontrivial();
}

#else /* VF_C23 */

const char vf_rule[] = "walks over at least 4 keys, after removals, were done, among them one that was aborted";

typedef struct { D* d; u32 at; size_t i, stop; int ret; void* self; const char* when; int ordered; int write; } WALK;
static int aborted, full;

static void check_item(D* d, u32 k, const VALUE* key, const char* when, size_t i)
{
    SLOT* s = &d->slot[k];
    CHECK(value_type(key) == VALUE_STRING && value_string_length(key) == s->len && memcmp(value_string(key), s->key, s->len) == 0 && value_string(key)[s->len] == 0,
          "%s: key %zu is %s and should be %s", when, i, vf_hex(value_string(key), value_string_length(key)), vf_hex(s->key, s->len));
}

static int visit(const VALUE* key, VALUE* val, void* p)
{
    WALK* w = (WALK*) p;
    D* d = w->d;
    u32 k;
    CHECK(w->self == p, "%s: the callback got another context", w->when);
    CHECK(w->i < d->n, "%s: the walk goes on after %zu items", w->when, w->i);
    CHECK(w->i <= w->stop, "%s: the walk goes on after the callback asked to stop", w->when);
    k = w->ordered ? w->at : d->sorted[w->i];
    check_item(d, k, key, w->when, w->i);
    check_content(val, &d->slot[k], w->when, k);
    if(w->write) {
        SLOT* s = &d->slot[k];
        value_fini(val);
        s->serial = d->serial++; s->kind = 1 + (int) (vf_mix(s->serial) % 5);
        fill_value(val, s);
    }
    if(w->ordered) w->at = d->slot[k].next;
    return w->i++ == w->stop ? w->ret : 0;
}

static D* sort_d;
static int by_key(const void* a, const void* b)
{
    SLOT* x = &sort_d->slot[*(const u32*) a], *y = &sort_d->slot[*(const u32*) b];
    return k_order(sort_d->cmp, x->key, x->len, y->key, y->len);
}
static size_t sort_keys(D* d)
{
    u32 k;
    size_t n = 0;
    d->sorted = (u32*) h_malloc((d->n + 1) * sizeof(u32));
    for(k = 0; k < d->space; k++) if(d->slot[k].present) d->sorted[n++] = k;
    sort_d = d;
    qsort(d->sorted, n, sizeof(u32), by_key);
    return n;
}

static void one_walk(D* d, int ordered)
{
    WALK w;
    int r, want;
    memset(&w, 0, sizeof(w));
    w.d = d; w.self = &w; w.ordered = ordered; w.at = d->head; w.when = ordered ? "ordered walk" : "sorted walk";
    w.stop = d_bool() ? (size_t) -1 : (size_t) d_below(d->n + 1);
    w.ret = d_chance(1, 6) ? (int) d_irange(INT_MIN, INT_MAX) : (int) d_irange(-2, 2);
    if(w.ret == 0) w.ret = 7;
    w.write = d_chance(1, 6);
    r = ordered ? value_dict_walk_ordered(&d->v, visit, &w) : value_dict_walk_sorted(&d->v, visit, &w);
    want = w.stop < d->n ? w.ret : 0;
    CHECK(r == want, "a %s of %zu items, the callback stopping at %zu, returns %d and should return %d", w.when, d->n, w.stop, r, want);
    CHECK(w.i == (w.stop < d->n ? w.stop + 1 : d->n), "a %s visits %zu of %zu items", w.when, w.i, d->n);
    if(d->n >= 4 && w.stop < d->n - 1) aborted = 1;
    if(d->n >= 4 && w.stop >= d->n) full = 1;
}

static void one_keys(D* d, int ordered)
{
    size_t size = d_chance(1, 3) ? d->n : (size_t) d_below(d->n + 4), i, r, want = size < d->n ? size : d->n;
    const VALUE** buf = (const VALUE**) h_malloc(size ? size * sizeof(VALUE*) : 1);
    u32 at = d->head;
    const char* when = ordered ? "ordered keys" : "sorted keys";
    memset(buf, 0, size * sizeof(VALUE*));
    r = ordered ? value_dict_keys_ordered(&d->v, buf, size) : value_dict_keys_sorted(&d->v, buf, size);
    CHECK(r == want, "%s of %zu into a buffer for %zu: %zu and should be %zu", when, d->n, size, r, want);
    for(i = 0; i < want; i++) {
        u32 k = ordered ? at : d->sorted[i];
        check_item(d, k, buf[i], when, i);
        if(ordered) at = d->slot[at].next;
    }
    for(; i < size; i++) CHECK(buf[i] == NULL, "%s: an entry after the last key was written", when);
    h_free(buf);
}

static int never(const VALUE* k, VALUE* v, void* c) { vf_fail("an ordered walk over a dictionary not keeping the order visits something"); }

void vf_case(void)
{
    D d;
    unsigned avg = d_avg();
    size_t work = 0;
    int walks = 0;
    aborted = full = did_add = did_rem = did_dup = 0;
    if(vf_profile == 2 && d_chance(1, 3)) { huge_keys(); return; }
    setup_keys();
    d_init(&d, space_for_family(draw_space()));
    if(vf_profile == 2) work += step(&d);
    do {
        while(d_more(avg) && work < (vf_profile == 2 ? 300000u : vf_profile ? 30000u : 6000u)) {
            work += step(&d);
            if(d_chance(1, 3)) break;
        }
        sort_keys(&d);
        one_walk(&d, 0);
        one_keys(&d, 0);
        if(d.ordered) { one_walk(&d, 1); one_keys(&d, 1); }
        else {
            const VALUE* b[2] = { NULL, NULL };
            CHECK(value_dict_walk_ordered(&d.v, never, NULL) == -1, "an ordered walk over a dictionary not keeping the order does not fail");
            CHECK(value_dict_keys_ordered(&d.v, b, 2) == 0 && !b[0] && !b[1], "a dictionary not keeping the order gives ordered keys");
        }
        h_free(d.sorted);
        work += d.n * (prefix_len > 1000 ? 100 : 2);
        walks++;
    } while(d_more(vf_profile == 2 ? 3 : 6) && work < (vf_profile ? 60000u : 9000u));
    value_fini(&d.v);
    if(did_rem) vf_label("removals");
    if(d.ordered) vf_label("order kept");
    if(d.own) vf_label("own key order");
    if(aborted) vf_label("aborted walk");
    if(aborted && full && did_rem) vf_nontrivial();
}
#endif
