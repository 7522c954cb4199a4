/* C44: objects of the library do not know of each other.
 *
 * A task is one object (buffer, tree, value, chunk allocator, ...) with a
 * script of operations drawn from a seed of its own; all what the operations
 * return goes into its digest.  Each task is run alone first.  Then all of
 * them are run anew: one operation of this, one of that, in a drawn order,
 * and also from inside of callbacks; or in several threads at once.  The
 * digests must be the same again. */
#include "tasks.h"

const char vf_property[] = VF_PROPERTY;
const char vf_rule[] = "at least two tasks with at least ten operations each were run in turn, with at least ten changes from one to another, or in at least two threads";

/* ---- the three ways to run ---- */
#define MAXT 12
static TASK* task; static int n_task; static u64 want[MAXT]; static u64 switches; static int did_nest, depth; static unsigned nest_den;

static TASK* pick(void)
{
    int i = (int) d_below((u64) n_task), k;
    for(k = 0; k < n_task; k++, i = (i + 1) % n_task) if(!task[i].busy && task[i].at < task[i].steps) return &task[i];
    return NULL;
}
static void go(TASK* t) { t->busy = 1; t_step(t); t->busy = 0; switches++; }
static void nest(void)
{
    TASK* t;
    if(depth >= 3 || !d_chance(1, nest_den)) return;
    t = pick();
    if(t == NULL) return;
    depth++;
    did_nest = 1;
    go(t);
    depth--;
}

typedef struct { TASK* t; int n; u64 s; int* start; } LANE;
static void* lane(void* p)
{
    LANE* l = (LANE*) p;
    int i, left = 1, go_on;
    while((go_on = __atomic_load_n(l->start, __ATOMIC_ACQUIRE)) == 0) sched_yield();
    if(go_on < 0) return NULL;
    for(i = 0; i < l->n; i++) t_begin(&l->t[i]);
    while(left) {
        left = 0;
        for(i = 0; i < l->n; i++) if(l->t[i].at < l->t[i].steps) { left = 1; if(vf_next(&l->s) % 2) t_step(&l->t[i]); }
    }
    for(i = 0; i < l->n; i++) t_end(&l->t[i]);
    return NULL;
}

void vf_alloc_pause(int on);

void vf_case(void)
{
    int i, threads = 0, same = d_bool(), many = 0;
    int kind = (int) d_below(T_COUNT);
    nested = NULL; depth = 0; switches = 0; did_nest = 0;
    n_task = 2 + (int) d_below(vf_profile ? 7 : 4);
    task = (TASK*) h_calloc((size_t) n_task * sizeof(TASK));
    for(i = 0; i < n_task; i++) {
        task[i].kind = same || (i > 0 && d_bool()) ? kind : (int) d_below(T_COUNT);
        task[i].seed = d_seed();
        task[i].steps = (size_t) d_below(d_chance(1, 4) ? 200 : 40);
        if(task[i].steps >= 10) many++;
        TRACE("task %d: %s, seed %llu, %zu steps", i, t_name[task[i].kind], (unsigned long long) task[i].seed, task[i].steps);
    }
#ifdef VF_TSAN
    threads = 1;
#else
    threads = d_chance(1, 12);
#endif
    for(i = 0; i < n_task; i++) {
        t_begin(&task[i]);
        while(task[i].at < task[i].steps) t_step(&task[i]);
        t_end(&task[i]);
        want[i] = task[i].d;
    }
    if(threads) {
        pthread_t th[4];
        LANE l[4];
        int start = 0, n = 2 + (int) d_below(n_task < 4 ? (u64) n_task - 1 : 3), k, ok = 1, at = 0;
        for(k = 0; k < n; k++) {
            l[k].t = &task[at]; l[k].n = k == n - 1 ? n_task - at : 1 + (n_task - at - (n - k)) / 2; at += l[k].n;
            l[k].s = d_seed(); l[k].start = &start;
        }
        TRACE("in %d threads", n);
        vf_alloc_pause(1);
        for(k = 0; k < n; k++) if(pthread_create(&th[k], NULL, lane, &l[k]) != 0) { ok = 0; break; }
        __atomic_store_n(&start, ok ? 1 : -1, __ATOMIC_RELEASE);
        while(k-- > 0) pthread_join(th[k], NULL);
        vf_alloc_pause(0);
        if(!ok) { vf_label("no threads to be had"); return; }
        vf_label("threads");
        if(many >= 2) vf_nontrivial();
    } else {
        int run = d_chance(1, 3);
        TASK* t = NULL;
        nest_den = d_bool() ? 1 + (unsigned) d_below(60) : 1000000;
        for(i = 0; i < n_task; i++) t_begin(&task[i]);
        nested = nest;
        for(;;) {
            if(t == NULL || t->at >= t->steps || !run || d_chance(1, 6)) t = pick();
            if(t == NULL) break;
            TRACE("step %zu of task %d", t->at, (int) (t - task));
            go(t);
        }
        nested = NULL;
        for(i = 0; i < n_task; i++) t_end(&task[i]);
        if(did_nest) vf_label("operations within callbacks");
        if(many >= 2 && switches >= 10) vf_nontrivial();
    }
    for(i = 0; i < n_task; i++) {
        char b[60];
        CHECK(task[i].d == want[i], "a %s gives other results %s than alone (task %d of %d, seed %llu, %zu steps)", t_name[task[i].kind],
              threads ? "in one of several threads" : "in turn with other objects", i, n_task, (unsigned long long) task[i].seed, task[i].steps);
        snprintf(b, sizeof(b), "has a %s", t_name[task[i].kind]);
        vf_label(b);
    }
    if(same) vf_label("all of one kind");
}
