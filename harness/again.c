/* C54: an emptied object is as good as a new one.
 *
 * A script of operations (see tasks.h) on a new object gives a digest of all
 * results.  Then another object goes through other scripts first, and is emptied
 * in one of the ways there are; the same script must give the same digest again,
 * with about as many allocations and as much memory. */
#include "tasks.h"

const char vf_property[] = VF_PROPERTY;
const char vf_rule[] = "the object held something before it was emptied, and the script has at least ten operations";

/* One more kind: an array value. */
#define T_LISTVAL T_COUNT
static const char* name_of(int kind) { return kind == T_LISTVAL ? "array value" : t_name[kind]; }

static void fill_value(TASK* t, VALUE* v)
{
    switch(rnd(t, 6)) {
        case 0: value_init_int32(v, (int32_t) rnd(t, 5000)); break;
        case 1: value_init_string_(v, (char*) t->data, (size_t) rnd(t, 60)); break;
        case 2: { VALUE* x; mix(t, (u64) value_init_array(v)); x = value_array_append(v); mix(t, x != NULL); if(x) value_init_string(x, "inner"); break; }
        case 3: { VALUE* x; mix(t, (u64) value_init_dict(v)); x = value_dict_add(v, "key"); mix(t, x != NULL); if(x) value_init_uint64(x, 7); break; }
        default: break;
    }
}
static void look_value(TASK* t, VALUE* v)
{
    mix(t, (u64) value_type(v)); mix(t, (u64) value_is_new(v)); mix(t, value_string_length(v)); mix(t, value_array_size(v)); mix(t, value_dict_size(v));
    if(value_type(v) == VALUE_INT32) mix(t, (u64) value_int32(v));
    if(value_type(v) == VALUE_STRING) mixb(t, value_string(v), value_string_length(v));
}
static void list_step(TASK* t)
{
    size_t n = value_array_size(&t->val), i = (size_t) rnd(t, n + 1), k;
    VALUE* v;
    t->at++;
    switch(rnd(t, 9)) {
        case 0: case 1: case 2: v = value_array_append(&t->val); mix(t, v != NULL); if(v) { mix(t, (u64) value_is_new(v)); fill_value(t, v); } break;
        case 3: v = value_array_insert(&t->val, i); mix(t, v != NULL); if(v) fill_value(t, v); break;
        case 4: mix(t, (u64) value_array_remove(&t->val, i)); break;
        case 5: k = (size_t) rnd(t, 8); mix(t, (u64) value_array_remove_range(&t->val, i, k)); break;
        case 6: v = value_build_path(&t->val, rnd(t, 2) ? txt(t, "[]/x/[]") : txt(t, "[]")); mix(t, v != NULL); break;
        case 7: if(rnd(t, 30) == 0) value_array_clean(&t->val); break;
        default: mix(t, value_array_size(&t->val)); for(k = 0; k < value_array_size(&t->val); k++) look_value(t, value_array_get(&t->val, k)); break;
    }
}

static void begin(TASK* t)
{
    if(t->kind == T_LISTVAL) {
        t->kind = T_SCALAR; t_begin(t); t->kind = T_LISTVAL;
        if(!t->again) mix(t, (u64) value_init_array(&t->val)); else mix(t, 0);
    } else
        t_begin(t);
}
static void steps(TASK* t) { while(t->at < t->steps) if(t->kind == T_LISTVAL) list_step(t); else t_step(t); }
static void end(TASK* t)
{
    if(t->kind == T_LISTVAL) { size_t k; for(k = 0; k < value_array_size(&t->val); k++) look_value(t, value_array_get(&t->val, k)); value_fini(&t->val); mix(t, (u64) value_type(&t->val)); }
    else t_end(t);
}

static size_t handed;
static void dtor(HTABLE_NODE* n) { handed++; memset(n, 0x55, sizeof(*n)); }

/* How much the object holds. */
static size_t held(TASK* t)
{
    switch(t->kind) {
        case T_BUFFER: return buffer_size(&t->buf);
        case T_ARRAY: return array_uint32_size(&t->arr);
        case T_STACK: return stack_size(&t->stack);
        case T_HTABLE: return (size_t) !htable_is_empty(&t->ht);
        case T_RBTREE: return (size_t) !rbtree_is_empty(&t->rt);
        case T_LIST: return (size_t) !list_is_empty(&t->list);
        case T_QUEUES: return (size_t) (!slist_is_empty(&t->sl) + !qlist_is_empty(&t->ql));
        case T_VALUE: return value_dict_size(&t->val);
        case T_LISTVAL: return value_array_size(&t->val);
        case T_CHUNK: return (size_t) t->pieces;
        default: return 0;
    }
}

/* Empties the object; returns 0 if it has to be initialized again. */
static int empty(TASK* t)
{
    size_t i, n;
    int how = (int) d_below(5);
    u64 s = d_seed();
    TRACE("emptied in way %d", how);
    switch(t->kind) {
        case T_BUFFER:
            switch(how) {
                case 0: buffer_fini(&t->buf); return 0;
                case 1: buffer_clear(&t->buf); break;
                case 2: while((n = buffer_size(&t->buf)) > 0) { i = (size_t) (vf_next(&s) % n); buffer_remove(&t->buf, i, 1 + (size_t) (vf_next(&s) % (n - i))); } break;
                case 3: free(buffer_acquire(&t->buf, NULL)); break;
                default: { BUFFER other; buffer_init(&other); buffer_swap(&t->buf, &other); buffer_fini(&other); break; }
            }
            CHECK(buffer_is_empty(&t->buf) && buffer_size(&t->buf) == 0, "the emptied buffer is not empty");
            break;
        case T_ARRAY:
            switch(how) {
                case 0: array_uint32_fini(&t->arr); return 0;
                case 1: n = array_uint32_size(&t->arr); array_uint32_remove_n(&t->arr, 0, n); break;
                case 2: while((n = array_uint32_size(&t->arr)) > 0) array_uint32_remove(&t->arr, (size_t) (vf_next(&s) % n)); break;
                case 3: free(array_uint32_acquire(&t->arr, NULL)); break;
                default: n = array_uint32_size(&t->arr); array_uint32_remove_n(&t->arr, n / 2, n - n / 2); array_uint32_remove_n(&t->arr, 0, n / 2); break;
            }
            CHECK(array_uint32_is_empty(&t->arr) && array_uint32_size(&t->arr) == 0, "the emptied array is not empty");
            break;
        case T_STACK: {
            u8 x[64];
            switch(how) {
                case 0: stack_fini(&t->stack); return 0;
                case 1: case 2: stack_clear(&t->stack); break;
                default: while((n = stack_size(&t->stack)) > 0) { i = 1 + (size_t) (vf_next(&s) % 64); stack_pop(&t->stack, x, i < n ? i : n); } break;
            }
            CHECK(stack_is_empty(&t->stack) && stack_size(&t->stack) == 0, "the emptied stack is not empty");
            break;
        }
        case T_HTABLE:
            switch(how) {
                case 0: htable_fini(&t->ht, dtor); return 0;
                case 1: htable_fini(&t->ht, NULL); return 0;
                default: n = (size_t) (vf_next(&s) % K); for(i = 0; i < K; i++) htable_remove(&t->ht, &t->node[how == 2 ? i : how == 3 ? K - 1 - i : (i * 13 + n) % K].h, hc, hh); break;
            }
            CHECK(htable_is_empty(&t->ht), "the emptied table is not empty");
            break;
        case T_RBTREE: {
            RBTREE_NODE* r;
            switch(how) {
                case 0: while((r = rbtree_fini_step(&t->rt)) != NULL) memset(r, 0x55, sizeof(*r)); break;
                case 1: while((r = rbtree_fini_step(&t->rt)) != NULL) ; return 0;
                default:
                    if(!t->drain) { n = (size_t) (vf_next(&s) % K); for(i = 0; i < K; i++) rbtree_remove(&t->rt, &t->node[how == 2 ? i : how == 3 ? K - 1 - i : (i * 13 + n) % K].r, rc); }
                    else while(rbtree_fini_step(&t->rt) != NULL) ;
                    break;
            }
            CHECK(rbtree_is_empty(&t->rt) && rbtree_fini_step(&t->rt) == NULL, "the emptied tree is not empty");
            break;
        }
        case T_LIST:
            switch(how) {
                case 0: return 0;
                case 1: list_init(&t->list); break;
                case 2: while(!list_is_empty(&t->list)) list_remove_head(&t->list); break;
                case 3: while(!list_is_empty(&t->list)) list_remove_tail(&t->list); break;
                default: while(!list_is_empty(&t->list)) { LIST_NODE* x = list_head(&t->list); for(i = (size_t) (vf_next(&s) % 5); i > 0 && list_next(x) != list_end(&t->list); i--) x = list_next(x); list_remove(&t->list, x); memset(x, 0x55, sizeof(*x)); } break;
            }
            break;
        case T_QUEUES:
            if(how == 0) return 0;
            while(!slist_is_empty(&t->sl)) {
                SLIST_NODE* x = slist_head(&t->sl);
                if(how == 1 || slist_next(x) == slist_end(&t->sl)) slist_remove_head(&t->sl); else { x = slist_next(x); slist_remove(&t->sl, slist_head(&t->sl), x); }
                memset(x, 0x55, sizeof(*x));
            }
            while(!qlist_is_empty(&t->ql)) {
                QLIST_NODE* x = qlist_head(&t->ql);
                if(how == 1 || qlist_next(x) == qlist_end(&t->ql)) qlist_remove_head(&t->ql); else { x = qlist_next(x); qlist_remove(&t->ql, qlist_head(&t->ql), x); }
                memset(x, 0x55, sizeof(*x));
            }
            break;
        case T_VALUE:
            switch(how) {
                case 0: value_fini(&t->val); return 0;
                case 1: value_dict_clean(&t->val); break;
                default:
                    while((n = value_dict_size(&t->val)) > 0) {
                        const VALUE* k[64]; size_t m = value_dict_keys_sorted(&t->val, k, 64);
                        CHECK(m > 0, "no keys in a dictionary of size %zu", n);
                        i = how == 2 ? 0 : how == 3 ? m - 1 : (size_t) (vf_next(&s) % m);
                        CHECK(value_dict_remove_(&t->val, value_string(k[i]), value_string_length(k[i])) == 0, "a key listed cannot be removed");
                    }
                    break;
            }
            CHECK(value_dict_size(&t->val) == 0, "the emptied dictionary is not empty");
            break;
        case T_LISTVAL:
            switch(how) {
                case 0: value_fini(&t->val); return 0;
                case 1: value_array_clean(&t->val); break;
                case 2: CHECK(value_array_remove_range(&t->val, 0, value_array_size(&t->val)) == 0, "the whole range of an array cannot be removed"); break;
                default: while((n = value_array_size(&t->val)) > 0) value_array_remove(&t->val, how == 3 ? n - 1 : (size_t) (vf_next(&s) % n)); break;
            }
            CHECK(value_array_size(&t->val) == 0, "the emptied array is not empty");
            break;
        case T_CHUNK: memchunk_fini(&t->chunk); t->pieces = 0; return 0;
        default: return 0;
    }
    return 1;
}

void vf_case(void)
{
    static const int kinds[] = { T_BUFFER, T_ARRAY, T_STACK, T_HTABLE, T_RBTREE, T_LIST, T_QUEUES, T_VALUE, T_LISTVAL, T_CHUNK };
    int kind = kinds[d_below(sizeof(kinds) / sizeof(kinds[0]))], rounds = 1 + (int) d_below(4), r, was = 0, again = 0, order = (int) d_below(6);
    u64 seed = d_seed(), c0, calls, calls2;
    size_t n = (size_t) d_below(d_chance(1, 4) ? 300 : 50), base, live, live2;
    TASK* t; u64 want; char b[60];
    nested = NULL; handed = 0;
    TRACE("%s, seed %llu, %zu steps", name_of(kind), (unsigned long long) seed, n);

    /* new */
    t = (TASK*) h_calloc(sizeof(TASK));
    base = vf_live_bytes();
    t->kind = kind; t->seed = seed; t->steps = n; t->order1 = order + 1;
    c0 = vf_alloc_calls(); begin(t); steps(t); calls = vf_alloc_calls() - c0; live = vf_live_bytes() - base; end(t);
    want = t->d;
    CHECK(vf_live_bytes() == base, "%s: %zu bytes are left", name_of(kind), vf_live_bytes() - base);

    /* emptied */
    t = (TASK*) h_calloc(sizeof(TASK));
    base = vf_live_bytes();
    t->kind = kind;
    for(r = 0; r < rounds; r++) {
        t->seed = d_seed(); t->steps = (size_t) d_below(d_chance(1, 4) ? 300 : 50); t->again = again;
        t->order1 = again || kind == T_VALUE ? order + 1 : 0;
        TRACE("before: seed %llu, %zu steps", (unsigned long long) t->seed, t->steps);
        begin(t); steps(t);
        if(held(t)) was = 1;
        again = empty(t);
        CHECK(vf_live_bytes() - base <= 1024, "an emptied %s holds %zu bytes", name_of(kind), vf_live_bytes() - base);
        if(!again) CHECK(vf_live_bytes() == base, "a finished %s holds %zu bytes", name_of(kind), vf_live_bytes() - base);
        /* also one of another sort, once finished */
        if(!again && kind == T_VALUE && d_bool()) { value_init_string_(&t->val, (char*) t->data, (size_t) d_below(200)); value_fini(&t->val); }
    }
    t->seed = seed; t->steps = n; t->again = again; t->order1 = order + 1;
    c0 = vf_alloc_calls(); begin(t); steps(t); calls2 = vf_alloc_calls() - c0; live2 = vf_live_bytes() - base; end(t);
    CHECK(t->d == want, "the same operations give other results on an emptied %s than on a new one (seed %llu, %zu steps)", name_of(kind), (unsigned long long) seed, n);
    CHECK(calls2 <= calls * 2 + 16, "%llu allocations by an emptied %s, %llu by a new one", (unsigned long long) calls2, name_of(kind), (unsigned long long) calls);
    CHECK(live2 <= live * 2 + 1024, "%zu bytes are held by an emptied %s, %zu by a new one", live2, name_of(kind), live);
    CHECK(vf_live_bytes() == base, "%s: %zu bytes are left", name_of(kind), vf_live_bytes() - base);
    if(was && n >= 10) vf_nontrivial();
    snprintf(b, sizeof(b), "a %s", name_of(kind)); vf_label(b);
    if(again) vf_label("emptied, not initialized again");
}
