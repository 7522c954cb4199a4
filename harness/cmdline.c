/* C38-C40: reading of the command line, against an independent reader. */
#include "pbt.h"
#include "cmdline.h"

const char vf_property[] = VF_PROPERTY;

#ifdef VF_C38
const char vf_rule[] = "a long option with an argument, a group or a short option with an argument, and a positional argument were read";
#elif defined VF_C39
const char vf_rule[] = "a compiler-like option took an attached and one a following argument, next to an ordinary option";
#else
const char vf_rule[] = "at least two kinds of errors were reported, and a callback ended the reading";
#endif

#define MAXO 14
#define MAXA 40
static CMDLINE_OPTION* opts; static int n_opts;
static char** args; static char** kept; static int n_args;

/* ---------------- what should be reported ---------------- */
enum { EXACT, PREFIX };
typedef struct EV { int id; const char* arg; size_t len; int how; const char* full; } EV;
static EV* want; static int n_want;
static int saw_long_arg, saw_short, saw_group, saw_pos, saw_att, saw_foll, saw_ord, errs;

static void emit(int id, const char* arg, size_t len)
{
    EV* e = &want[n_want++];
    e->id = id; e->how = EXACT; e->arg = NULL; e->len = len; e->full = NULL;
    if(arg) { char* s = (char*) h_malloc(len + 1); memcpy(s, arg, len); s[len] = 0; e->arg = s; }
    if(id == CMDLINE_OPTID_UNKNOWN) errs |= 1; else if(id == CMDLINE_OPTID_MISSINGARG) errs |= 2; else if(id == CMDLINE_OPTID_BOGUSARG) errs |= 4;
    else if(id == CMDLINE_OPTID_NONE) saw_pos = 1;
}
static void emit_s(int id, const char* s) { emit(id, s, strlen(s)); }
/* A name which may be reported cut when it is long. */
static void emit_name(int id, const char* dashes, const char* name, size_t len, const char* token)
{
    char* s = (char*) h_malloc(len + 8);
    size_t d = strlen(dashes);
    memcpy(s, dashes, d); memcpy(s + d, name, len); s[d + len] = 0;
    emit(id, s, d + len);
    if(d + len > 30) { want[n_want - 1].how = PREFIX; want[n_want - 1].full = token ? token : want[n_want - 1].arg; }
    h_free(s);
}
static int is_cl(const CMDLINE_OPTION* o) { return (o->flags & CMDLINE_OPTFLAG_COMPILERLIKE) != 0; }
static const CMDLINE_OPTION* by_short(char c)
{
    int k;
    for(k = 0; k < n_opts; k++) if(!is_cl(&opts[k]) && opts[k].shortname == c && c != 0) return &opts[k];
    return NULL;
}
static const CMDLINE_OPTION* matching(const char* t)
{
    int k;
    for(k = 0; k < n_opts; k++) {
        const CMDLINE_OPTION* o = &opts[k];
        if(is_cl(o)) {
            if(strlen(t) >= strlen(o->longname) && memcmp(t, o->longname, strlen(o->longname)) == 0) return o;
        } else if(t[0] == '-' && t[1] == '-') {
            const char* eq = strchr(t, '=');
            size_t len = eq ? (size_t) (eq - t) - 2 : strlen(t) - 2;
            if(o->longname && strlen(o->longname) == len && memcmp(o->longname, t + 2, len) == 0) return o;
        } else if(t[0] == '-') {
            if(o->shortname && t[1] == o->shortname) return o;
        }
    }
    return NULL;
}
static void model(void)
{
    int i, rest = 0;
    n_want = 0;
    for(i = 1; i < n_args; i++) {
        const char* t = args[i];
        const CMDLINE_OPTION* o;
        if(rest || strcmp(t, "-") == 0) { emit_s(CMDLINE_OPTID_NONE, t); continue; }
        if(strcmp(t, "--") == 0) { rest = 1; continue; }
        o = matching(t);
        if(o == NULL) {
            if(t[0] != '-') emit_s(CMDLINE_OPTID_NONE, t);
            else if(t[1] == '-' && strchr(t, '=')) emit_name(CMDLINE_OPTID_UNKNOWN, "", t, (size_t) (strchr(t, '=') - t), t);
            else emit_s(CMDLINE_OPTID_UNKNOWN, t);
        } else if(is_cl(o)) {
            size_t len = strlen(o->longname);
            if(t[len]) { emit_s(o->id, t + len); saw_att = 1; }
            else if(i + 1 < n_args) { emit_s(o->id, args[++i]); saw_foll = 1; }
            else emit_s(CMDLINE_OPTID_MISSINGARG, o->longname);
        } else if(t[1] == '-') {
            const char* eq = strchr(t, '=');
            if(eq == NULL) {
                if(o->flags & CMDLINE_OPTFLAG_REQUIREDARG) emit_s(CMDLINE_OPTID_MISSINGARG, t);
                else emit(o->id, NULL, 0);
            } else if(o->flags & (CMDLINE_OPTFLAG_REQUIREDARG | CMDLINE_OPTFLAG_OPTIONALARG)) { emit_s(o->id, eq + 1); saw_long_arg = 1; }
            else emit_name(CMDLINE_OPTID_BOGUSARG, "--", o->longname, strlen(o->longname), NULL);
            saw_ord = 1;
        } else {
            saw_ord = 1;
            if(o->flags & CMDLINE_OPTFLAG_REQUIREDARG) {
                saw_short = 1;
                if(t[2]) emit_s(o->id, t + 2);
                else if(i + 1 < n_args) emit_s(o->id, args[++i]);
                else emit_s(CMDLINE_OPTID_MISSINGARG, t);
            } else {
                const char* g;
                emit(o->id, NULL, 0);
                for(g = t + 2; *g; g++) {
                    char bad[3] = { '-', *g, 0 };
                    const CMDLINE_OPTION* q = by_short(*g);
                    saw_group = 1;
                    if(q == NULL) emit_s(CMDLINE_OPTID_UNKNOWN, bad);
                    else if(q->flags & CMDLINE_OPTFLAG_REQUIREDARG) emit_s(CMDLINE_OPTID_MISSINGARG, bad);
                    else emit(q->id, NULL, 0);
                }
            }
        }
    }
}

/* ---------------- what is reported ---------------- */
static int seen, abort_at, abort_with, userdata;
static const char** seen_arg;

static int on_option(int id, const char* arg, void* ud)
{
    EV* e;
    TRACE("  callback %d \"%s\"", id, arg ? arg : "(null)");
    CHECK(ud == (void*) &userdata, "the userdata is another one");
    CHECK(seen <= abort_at, "the callback is called again after it returned %d", abort_with);
    CHECK(seen < n_want, "call %d of the callback is one too many: %d \"%s\"", seen, id, arg ? arg : "(null)");
    e = &want[seen];
    CHECK(id == e->id, "call %d of the callback reports %d and should report %d (\"%s\")", seen, id, e->id, e->arg ? e->arg : "(null)");
    if(e->arg == NULL) CHECK(arg == NULL, "call %d of the callback, for %d, has the argument \"%s\" and should have none", seen, id, arg);
    else {
        CHECK(arg != NULL, "call %d of the callback, for %d, has no argument and should have \"%s\"", seen, id, e->arg);
        if(e->how == EXACT) CHECK(strcmp(arg, e->arg) == 0, "call %d of the callback, for %d, has the argument \"%s\" and should have \"%s\"", seen, id, arg, e->arg);
        else CHECK(strcmp(arg, e->full) == 0 || (strlen(arg) >= 30 && strlen(arg) <= e->len && memcmp(arg, e->arg, strlen(arg)) == 0),
                   "call %d of the callback, for %d, has the argument \"%s\" and should have \"%s\"", seen, id, arg, e->arg);
    }
    seen_arg[seen] = arg;
    return seen++ == abort_at ? abort_with : 0;
}

/* ---------------- generation ---------------- */
static const char* exact(const char* s) { return (const char*) h_dup(s, strlen(s) + 1); }
static char draw_letter(void)
{
    static const char l[] = "abcfoxAB1=,.\xe9?";
    return l[d_below(sizeof(l) - 1)];
}
static const char* draw_word(void)
{
    static const char* const w[] = { "foo", "foobar", "f", "fo", "b", "bar", "barfoo", "foo-bar", "x", "out", "o", "a", "no-foo", "long-option-name-of-31-characters",
                                     "an-option-with-a-really-long-name", "a-name-of-just-the-size-30-abc", "Foo", "a.b", "include", "i" };
    char b[120]; size_t n, i;
    if(d_chance(4, 5)) return w[d_below(sizeof(w) / sizeof(w[0]))];
    n = 1 + (size_t) (d_chance(1, 3) ? 24 + d_below(40) : d_below(6));
    for(i = 0; i < n; i++) { b[i] = draw_letter(); if(b[i] == '=') b[i] = 'e'; }
    b[n] = 0;
    return exact(b);
}
static const char* draw_cl_name(void)
{
    static const char* const w[] = { "-D", "-I", "-i", "-isystem", "-l", "-W", "-Wl,", "--param", "--p", "--foo", "-f", "-foo", "-fo", "@", "D", "foo", "f", "+", "/I", "-o", "-a", "--foo=", "-D=", "x" };
    return w[d_below(sizeof(w) / sizeof(w[0]))];
}
static int draw_id(void)
{
    int id;
    do id = d_chance(3, 4) ? (int) (1 + d_below(20)) : d_bool() ? (int) d_irange(INT_MIN, INT_MAX) : d_bool() ? INT_MIN : -1;
    while(id == 0 || id == CMDLINE_OPTID_UNKNOWN || id == CMDLINE_OPTID_MISSINGARG || id == CMDLINE_OPTID_BOGUSARG);
    return id;
}
static void draw_table(int cl)
{
    int n = 0, lim = (int) d_below(MAXO), tries = 0, k;
    CMDLINE_OPTION t[MAXO + 1];
    while(n < lim && tries++ < 30) {
        CMDLINE_OPTION* o = &t[n];
        memset(o, 0, sizeof(*o));
        o->id = draw_id();
        if(cl && d_chance(1, 2)) {
            o->flags = CMDLINE_OPTFLAG_COMPILERLIKE | (d_bool() ? 0 : (unsigned) d_below(4));
            o->longname = exact(draw_cl_name());
            if(d_bool()) o->shortname = draw_letter();
            n++;
            continue;
        }
        o->flags = (unsigned) D_WEIGHTED(4, 3, 3, 1);
        if(d_chance(2, 3)) o->longname = exact(draw_word());
        if(o->longname == NULL || d_chance(1, 2)) o->shortname = draw_letter();
        for(k = 0; k < n; k++) if(!is_cl(&t[k])) {
            if(o->longname && t[k].longname && strcmp(o->longname, t[k].longname) == 0) break;
            if(o->shortname && o->shortname == t[k].shortname) break;
        }
        if(k == n) n++;
    }
    /* the end of the table, which looks like an option otherwise */
    t[n].id = 0; t[n].shortname = 'a'; t[n].longname = "foo"; t[n].flags = d_bool() ? 0 : (unsigned) d_below(8);
    if(d_chance(1, 500)) { /* many others in between */
        int more = 100 + (int) d_below(400), at = (int) d_below((u64) n + 1);
        CMDLINE_OPTION* x = (CMDLINE_OPTION*) h_malloc((size_t) (n + 1 + more) * sizeof(*t));
        memcpy(x, t, (size_t) at * sizeof(*t)); memcpy(x + at + more, t + at, (size_t) (n + 1 - at) * sizeof(*t));
        for(k = 0; k < more; k++) { char w[40]; sprintf(w, "filler-%d", k); memset(&x[at + k], 0, sizeof(*x)); x[at + k].id = 100000 + k; x[at + k].longname = exact(w); x[at + k].flags = (unsigned) k & 3; }
        opts = x; n += more;
        vf_label("a long table");
    } else opts = (CMDLINE_OPTION*) h_dup(t, (size_t) (n + 1) * sizeof(*t));
    n_opts = n;
    if(n < 30)
    for(k = 0; k < n; k++) TRACE("option -%c --%s id %d flags %u", t[k].shortname ? t[k].shortname : ' ', t[k].longname ? t[k].longname : "(null)", t[k].id, t[k].flags);
}
static const char* draw_arg(void)
{
    static const char* const w[] = { "", "arg", "-", "--", "-a", "--foo", "=", "x=y", "value", "file.c", "--foo=bar", "=x", "a=b=c", "-f", "-=", "--=x", "---", "--=" };
    /* what other command lines give a meaning to */
    static const char* const signs[] = { "@file", "@", "-1", "-9.5", "\"a b\"", "'a'", " a", "a ", " -a", "+a", "/a", "/?", "?", "-?", "\\", "a\\", "*", "--no-foo", "--FOO", "-h", "--help", "--version", "-v", "~", "$HOME", "%PATH%",
        "-a=b", "--foo:bar", "#", "--foo ", "no", "--no-", "-\t", "\xe2\x80\x93" "foo", "--\0x", "-a b", "--foo bar", "&&", ";", "-- ", " --", "----", "--foo==", "==" };
    if(d_chance(1, 8)) return draw_word();
    if(d_chance(1, 8)) return signs[d_below(sizeof(signs) / sizeof(signs[0]))];
    return w[d_below(sizeof(w) / sizeof(w[0]))];
}
static char* draw_token(void)
{
    char b[1200]; const CMDLINE_OPTION* o; int k, n;
    size_t len;
    b[0] = 0;
    switch(D_WEIGHTED(6, 6, 5, 3, 2, 4)) {
        case 0: /* long option */
            o = n_opts ? &opts[d_below((u64) n_opts)] : NULL;
            strcpy(b, "--");
            strncat(b, o && o->longname && d_chance(5, 6) ? o->longname : draw_word(), 120);
            if(d_chance(2, 5)) { strcat(b, "="); strncat(b, draw_arg(), 100); }
            break;
        case 1: /* short option or a group */
            strcpy(b, "-");
            n = d_chance(1, 2) ? 1 : 1 + (int) d_below(6);
            for(k = 0; k < n; k++) {
                char c[2] = { 0, 0 };
                o = n_opts ? &opts[d_below((u64) n_opts)] : NULL;
                c[0] = o && o->shortname && d_chance(5, 6) ? o->shortname : d_chance(1, 8) ? '-' : draw_letter();
                strcat(b, c);
            }
            if(d_chance(1, 300)) { size_t m = strlen(b) - 1, goal = 200 + (size_t) d_below(700), i; for(i = m + 1; i < goal; i++) b[i] = b[i - m]; b[goal > m ? goal : m + 1] = 0; vf_label("a long group"); }
            if(d_chance(1, 6)) strncat(b, draw_arg(), 100);
            break;
        case 2: if(d_chance(1, 4000)) { size_t m = 60000 + (size_t) d_below(20000); char* t = (char*) h_malloc(m + 1); memset(t, 'x', m); t[m] = 0; if(d_bool()) memcpy(t, "--foo=", 6); vf_label("a long argument"); return t; }
            strcpy(b, d_chance(1, 6) ? draw_word() : draw_arg()); break;
        case 3: strcpy(b, d_bool() ? "-" : "--"); break;
        case 4: strncat(b, draw_cl_name(), 100); if(d_bool()) strncat(b, draw_arg(), 100); break;
        default: /* the name of a compiler-like option, or of any */
            o = n_opts ? &opts[d_below((u64) n_opts)] : NULL;
            for(k = 0; k < 4 && o && !is_cl(o); k++) o = &opts[d_below((u64) n_opts)];
            strncat(b, o && o->longname ? o->longname : draw_word(), 120);
            if(d_bool()) strncat(b, draw_arg(), 100);
    }
    len = strlen(b);
    if(d_chance(1, 8)) switch(d_below(4)) { /* somewhat different */
        case 0: if(len) b[len - 1] = 0; break;
        case 1: if(len) b[d_below(len)] = draw_letter(); break;
        case 2: b[len] = draw_letter(); b[len + 1] = 0; break;
        default: memmove(b + 1, b, len + 1); b[0] = '-';
    }
    return (char*) exact(b);
}

static void one(int cl)
{
    int k, r, total = 1;
    const CMDLINE_OPTION* copy;
    draw_table(cl);
    copy = (const CMDLINE_OPTION*) h_dup(opts, (size_t) (n_opts + 1) * sizeof(*opts));
    { char* v0[MAXA + 1], **v = v0; unsigned avg = 1 + (unsigned) d_below(10);
      n_args = 0;
      v[n_args++] = (char*) exact(d_chance(1, 4) ? "--foo=x" : "prog");
      while(n_args < MAXA && d_more(avg)) v[n_args++] = draw_token();
      if(n_args == 1 && d_chance(1, 4)) n_args = 0;
      if(n_args > 1 && d_chance(1, 6000)) { /* all of them again and again */
          int goal = (d_bool() ? 32500 : 65300) + (int) d_below(600), m = n_args - 1;
          v = (char**) h_malloc((size_t) goal * sizeof(*v));
          memcpy(v, v0, (size_t) n_args * sizeof(*v));
          for(k = n_args; k < goal; k++) v[k] = strlen(v[k - m]) < 40 ? v[k - m] : (char*) "word";
          n_args = goal;
          vf_label("many arguments");
      }
      args = (char**) h_dup(v, (size_t) n_args * sizeof(*v));      /* no room for anything behind */
      kept = (char**) h_malloc((size_t) (n_args + 1) * sizeof(*v));
      for(k = 0; k < n_args; k++) { if(k < 60) TRACE("argv[%d] = \"%s\"", k, args[k]); kept[k] = (char*) exact(args[k]); total += (int) strlen(args[k]) + 2; } }
    want = (EV*) h_malloc((size_t) total * sizeof(EV));
    model();
    seen_arg = (const char**) h_calloc((size_t) (n_want + 1) * sizeof(*seen_arg));
    seen = 0; abort_at = INT_MAX; abort_with = 0;
#ifdef VF_C40
    if(n_want && d_chance(1, 2)) {
        abort_at = (int) d_below((u64) n_want);
        do abort_with = d_bool() ? (d_bool() ? 1 : -1) : (int) d_irange(INT_MIN, INT_MAX); while(abort_with == 0);
        if(d_chance(1, 8)) abort_with = d_bool() ? 256 : INT_MIN;
        TRACE("call %d of the callback returns %d", abort_at, abort_with);
    }
#endif
    r = cmdline_read(opts, n_args, args, on_option, &userdata);
    if(abort_at == INT_MAX) {
        CHECK(r == 0, "the result is %d and should be 0", r);
        CHECK(seen == n_want, "the callback is called %d times and should be %d times; the next is %d \"%s\"", seen, n_want, want[seen].id, want[seen].arg ? want[seen].arg : "(null)");
    } else {
        CHECK(r == abort_with, "the result is %d although the callback returned %d", r, abort_with);
        CHECK(seen == abort_at + 1, "the callback is called %d times and should be %d times", seen, abort_at + 1);
        vf_label("ended by a callback");
    }
    CHECK(memcmp(copy, opts, (size_t) (n_opts + 1) * sizeof(*opts)) == 0, "the table of options was modified");
    for(k = 0; k < n_args; k++) CHECK(strcmp(args[k], kept[k]) == 0, "argument %d was modified", k);
    /* what was reported for an option or a plain argument is still there */
    for(k = 0; k < seen; k++) if(want[k].arg && want[k].id != CMDLINE_OPTID_UNKNOWN && want[k].id != CMDLINE_OPTID_MISSINGARG && want[k].id != CMDLINE_OPTID_BOGUSARG)
        CHECK(strcmp(seen_arg[k], want[k].arg) == 0, "the argument reported by call %d does not last", k);
    if(errs & 1) vf_label("unknown option"); if(errs & 2) vf_label("missing argument"); if(errs & 4) vf_label("unexpected argument");
    if(saw_group) vf_label("group"); if(saw_att) vf_label("compiler-like, attached"); if(saw_foll) vf_label("compiler-like, following");
}

void vf_case(void)
{
    int ended = 0, n = 0;
    saw_long_arg = saw_short = saw_group = saw_pos = saw_att = saw_foll = saw_ord = errs = 0;
    do {
#ifdef VF_C38
        one(0);
#elif defined VF_C39
        one(1);
#else
        one(d_bool());
        if(abort_at != INT_MAX) ended = 1;
#endif
    } while(n++ < 20 && d_more(2));
#ifdef VF_C38
    if(saw_long_arg && (saw_short || saw_group) && saw_pos) vf_nontrivial();
#elif defined VF_C39
    if(saw_att && saw_foll && saw_ord) vf_nontrivial();
#else
    if(ended && __builtin_popcount((unsigned) errs) >= 2) vf_nontrivial();
#endif
}
