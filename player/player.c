// Interpreter of workload scripts. Linked with the library built from /repo.
//
//   player SCRIPT RESULTS STATUS [check...]
//
// SCRIPT   commands, one per line, tab separated (see DESIGN.md)
// RESULTS  one line per failed expectation, then one STAT line
// STATUS   8 bytes, the case in progress (read by the runner after a crash)
// check    which monitors are on: leak counters struct
//
// The player performs the calls of a case, compares every answer with the one
// the script demands, and reports differences. It keeps its own data out of
// malloc so that allocation accounting sees the library alone.
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <float.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include "betree.h"

#ifdef WITH_HELPER
void add_variable_from_string(struct betree* betree, const char* line);
void empty_tree(struct betree* betree);
#endif
#ifdef WITH_STRUCT
#include "verify.h"
#endif

// ---------------------------------------------------------------- allocation
static volatile int track = 0;
static long live = 0;
static long live_bytes = 0;
static long mark_live, mark_bytes;
static unsigned long allocs = 0;
#ifdef WITH_HOOKS
#define MAXLIVE (1 << 16)
int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
size_t __sanitizer_get_allocated_size(const volatile void* p);
#ifdef WITH_ASAN
size_t __asan_get_alloc_stack(void* addr, void** trace, size_t size, int* thread_id);
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t size);
#endif
static const volatile void* livetab[MAXLIVE];
static size_t livesize[MAXLIVE];
static void on_malloc(const volatile void* p, size_t n)
{
    if(!track || p == NULL) return;
    live++;
    live_bytes += (long)n;
    allocs++;
    size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
    for(size_t i = 0; i < 64; i++) {
        size_t k = (h + i) & (MAXLIVE - 1);
        if(livetab[k] == NULL) {
            livetab[k] = p;
            livesize[k] = n;
            break;
        }
    }
}
static void on_free(const volatile void* p)
{
    if(!track || p == NULL) return;
    live--;
    live_bytes -= (long)__sanitizer_get_allocated_size(p);
    size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
    for(size_t i = 0; i < 64; i++) {
        size_t k = (h + i) & (MAXLIVE - 1);
        if(livetab[k] == p) {
            livetab[k] = NULL;
            break;
        }
    }
}
#endif

// ------------------------------------------------------------------- results
static FILE* out;
static pthread_mutex_t out_lock = PTHREAD_MUTEX_INITIALIZER;
static long cur_case = -1;
static unsigned long nfail = 0;
static bool chk_leak, chk_counters, chk_struct;

struct stats {
    unsigned long cases, trees, inserts_ok, inserts_refused, searches, exists, matches, empty_results,
        refused_searches, evaluated, shorted, memoized, struct_walks, struct_cdirs, struct_max_depth,
        thread_blocks, thread_cmds, leak_checked, growth_checked, reused, boundary_calls, defs, twins;
};
static struct stats total;

struct ctx {
    struct stats st;
    unsigned rng;
    bool in_thread;
};

static void fail(const char* kind, int line, const char* fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for(char* c = buf; *c; c++) {
        if(*c == '\n' || *c == '\t') *c = ' ';
    }
    pthread_mutex_lock(&out_lock);
    nfail++;
    fprintf(out, "FAIL\t%ld\t%d\t%s\t%s\n", cur_case, line, kind, buf);
    fflush(out);
    pthread_mutex_unlock(&out_lock);
}

// --------------------------------------------------------------------- state
#define MAXTREE 64
#define MAXSUB (1 << 16)
#define MAXEV 4096
#define MAXF (1 << 19)

struct cmd {
    int line;
    int nf;
    char** f;
};

static struct betree* trees[MAXTREE];
static struct betree inited[MAXTREE];
static bool is_inited[MAXTREE];
static size_t tree_count_subs[MAXTREE];
static const struct betree_sub* subs[MAXSUB];
static const struct cmd* ev_text[MAXEV]; // EV command
static const struct cmd* ev_spec[MAXEV]; // EO command
static struct betree_event* ev_obj[MAXEV];

static _Noreturn void die(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(out, "HARNESS\t");
    vfprintf(out, fmt, ap);
    fprintf(out, "\n");
    fflush(out);
    va_end(ap);
    _exit(3);
}

static int64_t I(const char* s) { return (int64_t)strtoll(s, NULL, 10); }
static double F(const char* s) { return strtod(s, NULL); }

// elements are added in an order that depends on 'how': forwards, backwards, or from the middle
static int at(int i, int n, unsigned how) { return how % 3 == 0 ? i : how % 3 == 1 ? n - 1 - i : (i + n / 2) % n; }

static struct betree_variable* make_var(const char* type, const char* name, char** f, int* used, unsigned how, int only_value)
{
    *used = 1;
    if(!strcmp(type, "b")) return betree_make_boolean_variable(name, f[0][0] == '1');
    if(!strcmp(type, "i") || !strcmp(type, "ie")) return betree_make_integer_variable(name, I(f[0]));
    if(!strcmp(type, "f")) return betree_make_float_variable(name, F(f[0]));
    if(!strcmp(type, "s")) return betree_make_string_variable(name, f[0]);
    int n = (int)I(f[0]);
    if(!strcmp(type, "il")) {
        struct betree_integer_list* l = betree_make_integer_list(n);
        for(int k = 0; k < n; k++) {
            int i = at(k, n, how);
            betree_add_integer(l, i, I(f[1 + i]));
        }
        *used = 1 + n;
        if(only_value) return betree_free_integer_list(l), NULL;
        return betree_make_integer_list_variable(name, l);
    }
    if(!strcmp(type, "sl")) {
        struct betree_string_list* l = betree_make_string_list(n);
        for(int k = 0; k < n; k++) {
            int i = at(k, n, how);
            betree_add_string(l, i, f[1 + i]);
        }
        *used = 1 + n;
        if(only_value) return betree_free_string_list(l), NULL;
        return betree_make_string_list_variable(name, l);
    }
    if(!strcmp(type, "seg")) {
        struct betree_segments* l = betree_make_segments(n);
        for(int k = 0; k < n; k++) {
            int i = at(k, n, how);
            if(only_value) betree_free_segment(betree_make_segment(I(f[1 + 2 * i]), I(f[2 + 2 * i])));
            betree_add_segment(l, i, betree_make_segment(I(f[1 + 2 * i]), I(f[2 + 2 * i])));
        }
        *used = 1 + 2 * n;
        if(only_value) return betree_free_segments(l), NULL;
        return betree_make_segments_variable(name, l);
    }
    if(!strcmp(type, "fc")) {
        struct betree_frequency_caps* l = betree_make_frequency_caps(n);
        for(int k = 0; k < n; k++) {
            int i = at(k, n, how);
            char** g = f + 1 + 5 * i;
            if(only_value) betree_free_frequency_cap(betree_make_frequency_cap(g[0], 1, g[2], true, 1, 1));
            struct betree_frequency_cap* c = betree_make_frequency_cap(g[0], (uint32_t)I(g[1]), g[2],
                g[3][0] != '-' || g[3][1] != 0, g[3][0] == '-' && !g[3][1] ? 0 : I(g[3]), (uint32_t)I(g[4]));
            if(c == NULL) fail("answer", 0, "frequency cap of type '%s' refused", g[0]);
            betree_add_frequency_cap(l, i, c);
        }
        *used = 1 + 5 * n;
        if(only_value) return betree_free_frequency_caps(l), NULL;
        return betree_make_frequency_caps_variable(name, l);
    }
    die("type %s", type);
}

// EO slot tree n [type name value...]*
static struct betree_event* build_event(const struct cmd* c, struct betree* tree)
{
    struct betree_event* e = betree_make_event(tree);
    int n = (int)I(c->f[3]);
    int k = 4;
    for(int i = 0; i < n; i++) {
        int used;
        size_t index = (size_t)I(c->f[k]);
        unsigned how = (unsigned)(c->line + i);
        // now and then the value, or the variable, is also made for nothing and released by itself
        if(how % 7 == 3) betree_free_variable(make_var(c->f[k + 1], c->f[k + 2], c->f + k + 3, &used, how + 1, 0));
        if(how % 11 == 5) {
            struct betree_variable* v = make_var(c->f[k + 1], c->f[k + 2], c->f + k + 3, &used, how, 1);
            if(v) betree_free_variable(v);
        }
        struct betree_variable* v = make_var(c->f[k + 1], c->f[k + 2], c->f + k + 3, &used, how / 2, 0);
        betree_set_variable(e, index, v);
        k += 3 + used;
    }
    return e;
}

static int used_by(const char* type, char** f)
{
    if(!strcmp(type, "il") || !strcmp(type, "sl")) return 1 + (int)I(f[0]);
    if(!strcmp(type, "seg")) return 1 + 2 * (int)I(f[0]);
    if(!strcmp(type, "fc")) return 1 + 5 * (int)I(f[0]);
    return 1;
}

// where the value of an attribute begins in an EO command, 0 for none
static int spec_of(const struct cmd* c, size_t index, int* used)
{
    int n = (int)I(c->f[3]);
    for(int i = 0, k = 4; i < n; i++) {
        *used = used_by(c->f[k + 1], c->f + k + 3);
        if((size_t)I(c->f[k]) == index) return k;
        k += 3 + *used;
    }
    return 0;
}

// the object of one event becomes that of another: only what differs is replaced
static void change_event(int to, int from, int line)
{
    struct betree_event* e = ev_obj[from];
    const struct cmd *a = ev_spec[from], *b = ev_spec[to];
    for(size_t i = 0; i < e->variable_count; i++) {
        int ua = 0, ub = 0, ka = spec_of(a, i, &ua), kb = spec_of(b, i, &ub);
        bool same = (ka != 0) == (kb != 0) && (!ka || ua == ub);
        for(int j = 3; same && ka && j < 3 + ua; j++) same = !strcmp(a->f[ka + j], b->f[kb + j]);
        if(same) continue;
        struct betree_variable* old = e->variables[i];
        betree_set_variable(e, i, kb ? make_var(b->f[kb + 1], b->f[kb + 2], b->f + kb + 3, &ub, (unsigned)(line + i), 0) : NULL);
        if(old) betree_free_variable(old);
    }
    ev_obj[from] = NULL;
    ev_obj[to] = e;
}

static int cmp_u64(const void* a, const void* b)
{
    uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b;
    return x < y ? -1 : x > y;
}

#define IGNORE_IDS 0xA5A5A5A500000000ull

static void describe(char* buf, size_t n, const uint64_t* ids, size_t count)
{
    size_t k = 0;
    buf[0] = 0;
    for(size_t i = 0; i < count && k + 24 < n; i++) k += snprintf(buf + k, n - k, "%s%" PRIu64, i ? "," : "", ids[i]);
}

// Q tree kind ev ok ids [e<=N] [m>=N] [S=e]
#ifdef WITH_STRUCT
static void struct_check(struct ctx* x, const struct cmd* c, int slot);
static bool unwalked[MAXTREE];
// after an insertion: a large tree is walked after some of them, and before the next query
static void struct_grown(struct ctx* x, const struct cmd* c, int slot)
{
    size_t n = tree_count_subs[slot];
    bool edge = false; // next to a power of two
    for(size_t p = 4096; p < n + 4; p *= 2) edge |= n + 2 >= p && n <= p + 2;
    unwalked[slot] = n > 3000 && n % 1009 && !edge;
    if(!unwalked[slot]) struct_check(x, c, slot);
}
#endif

static void do_query(struct ctx* x, const struct cmd* c)
{
    int slot = (int)I(c->f[1]);
    struct betree* tree = trees[slot];
    char kind = c->f[2][0];
    int ev = (int)I(c->f[3]);
    bool want_ok = c->f[4][0] == '1';
    const char* want = c->f[5];
    static _Thread_local uint64_t exp[MAXSUB * 4], got[MAXSUB * 4];
    size_t nexp = 0, ngot = 0;
    for(const char* p = want; *p;) {
        char* end;
        exp[nexp++] = strtoull(p, &end, 10);
        p = *end == ',' ? end + 1 : end;
        if(nexp >= MAXSUB * 4) die("too many ids");
    }
#ifdef WITH_STRUCT
    if(chk_struct && unwalked[slot]) {
        unwalked[slot] = false;
        struct_check(x, c, slot);
    }
#endif
    // the expectation of an existence query is derived from that of the search
    if(kind == 'X' || kind == 'x' || kind == 'y') {
        bool r;
        bool expect = want_ok && nexp > 0;
        if(kind == 'X') r = betree_exists(tree, ev_text[ev]->f[2]);
        else if(kind == 'y') r = betree_exists_with_event(tree, ev_obj[ev]);
        else {
            struct betree_event* e = build_event(ev_spec[ev], tree);
            r = betree_exists_with_event(tree, e);
            betree_free_event(e);
        }
        x->st.exists++;
        if(r != expect) fail("exists", c->line, "existence query %s answered %d, search must give %zu ids (ok=%d)", c->f[2], r, nexp, want_ok);
        return;
    }
    struct report* report = make_report();
    bool ok;
    if(kind == 'S') ok = betree_search(tree, ev_text[ev]->f[2], report);
    else if(kind == 'r') ok = betree_search_with_event(tree, ev_obj[ev], report);
    else if(kind == 's') {
        struct betree_event* e = build_event(ev_spec[ev], tree);
        ok = betree_search_with_event(tree, e, report);
        betree_free_event(e);
    }
    else die("query kind %c", kind);
    x->st.searches++;
    if(!ok) x->st.refused_searches++;
    x->st.matches += report->matched;
    if(ok && report->matched == 0) x->st.empty_results++;
    x->st.evaluated += report->evaluated;
    x->st.shorted += report->shorted;
    x->st.memoized += report->memoized;
    if(ok != want_ok) fail("ok", c->line, "search (%s) returned %d, must return %d", c->f[2], ok, want_ok);
    if(!ok && report->matched != 0) fail("ok", c->line, "refused search reports %zu ids", report->matched);
    for(size_t i = 0; i < report->matched; i++) {
        if(report->subs[i] - IGNORE_IDS < 1ull << 32) continue;
        if(ngot >= MAXSUB * 4) { fail("answer", c->line, "too many ids"); break; }
        got[ngot++] = report->subs[i];
    }
    qsort(got, ngot, sizeof *got, cmp_u64);
    if(ok == want_ok && (ngot != nexp || memcmp(got, exp, ngot * sizeof *got) != 0)) {
        char a[1500], b[1500];
        describe(a, sizeof a, got, ngot);
        describe(b, sizeof b, exp, nexp);
        fail("answer", c->line, "search (%s) got [%s] must be [%s]", c->f[2], a, b);
    }
    if(chk_counters) {
        if((report->matched > 0) != (report->subs != NULL)) fail("counters", c->line, "matched=%zu but id array %s", report->matched, report->subs ? "present" : "absent");
        if(report->matched > report->evaluated) fail("counters", c->line, "matched=%zu > evaluated=%zu", report->matched, report->evaluated);
        if(report->shorted > report->evaluated) fail("counters", c->line, "shorted=%zu > evaluated=%zu", report->shorted, report->evaluated);
        if(report->evaluated > tree_count_subs[slot]) fail("counters", c->line, "evaluated=%zu > stored=%zu", report->evaluated, tree_count_subs[slot]);
        if(!ok && (report->evaluated || report->shorted || report->memoized)) fail("counters", c->line, "refused search counted evaluations");
        for(int i = 6; i < c->nf; i++) {
            const char* s = c->f[i];
            if(!strcmp(s, "S=e")) {
                if(ok && report->shorted != report->evaluated) fail("effect", c->line, "shorted=%zu, must equal evaluated=%zu: every expression is decided by an undefined attribute", report->shorted, report->evaluated);
                continue;
            }
            size_t v = (size_t)I(s + 3);
            size_t have = s[0] == 'e' ? report->evaluated : s[0] == 's' ? report->shorted : s[0] == 'm' ? report->memoized : 0;
            const char* nm = s[0] == 'e' ? "evaluated" : s[0] == 's' ? "shorted" : "memoized";
            if(s[1] == '<' && have > v) fail("effect", c->line, "%s=%zu, must be at most %zu (stored %zu)", nm, have, v, tree_count_subs[slot]);
            if(s[1] == '>' && have < v) fail("effect", c->line, "%s=%zu, must be at least %zu (stored %zu)", nm, have, v, tree_count_subs[slot]);
        }
    }
    // the same search into the same report: its ids are added to, or replace, the ones already there
    if(c->line % 8 == 0 && (kind == 'S' || kind == 'r') && report->matched < 5000) {
        size_t m = report->matched;
        bool ok2 = kind == 'S' ? betree_search(tree, ev_text[ev]->f[2], report) : betree_search_with_event(tree, ev_obj[ev], report);
        x->st.reused++;
        if(ok2 != ok) fail("reuse", c->line, "the same search again returned %d after %d", ok2, ok);
        if(report->matched != m && (!ok || report->matched != 2 * m)) fail("reuse", c->line, "%zu ids after one search, %zu after two", m, report->matched);
        for(size_t k = 0; ok && m > 0 && k + m <= report->matched; k += m) {
            size_t n2 = 0;
            for(size_t i = k; i < k + m; i++)
                if(report->subs[i] - IGNORE_IDS >= 1ull << 32 && n2 < MAXSUB * 4) got[n2++] = report->subs[i];
            qsort(got, n2, sizeof *got, cmp_u64);
            if(ok == want_ok && (n2 != nexp || memcmp(got, exp, n2 * sizeof *got) != 0)) fail("reuse", c->line, "ids %zu to %zu of a report used twice are not the matches", k, k + m - 1);
        }
    }
    free_report(report);
}


static struct betree_constant* constants_of(char** f, int i)
{
    return betree_make_integer_constant(f[2 * i], I(f[2 * i + 1]));
}

static void expect_insert(struct ctx* x, const struct cmd* c, const char* exp, bool got, const char* expr)
{
    if(got) x->st.inserts_ok++;
    else x->st.inserts_refused++;
    if(exp[0] == '?') return;
    if((exp[0] == '1') != got) fail("accept", c->line, "expression %s, must be %s: %s", got ? "accepted" : "refused", exp[0] == '1' ? "accepted" : "refused", expr);
}

static void exec(struct ctx* x, const struct cmd* c)
{
    const char* op = c->f[0];
    char** f = c->f;
    if(x->in_thread) {
        x->st.thread_cmds++;
        x->rng = x->rng * 1664525u + 1013904223u;
        if((x->rng >> 24) % 7 == 0) sched_yield();
    }
    if(!strcmp(op, "Q")) {
        do_query(x, c);
    }
    else if(!strcmp(op, "MK")) {
        int s = (int)I(f[1]);
        if(f[2][0] == '-') trees[s] = betree_make();
        else if(f[2][0] == 'i') {
            betree_init(&inited[s]);
            is_inited[s] = true;
            trees[s] = &inited[s];
        }
        else trees[s] = betree_make_with_parameters(strtoull(f[2], NULL, 10), strtoull(f[3], NULL, 10));
        tree_count_subs[s] = 0;
        x->st.trees++;
    }
    else if(!strcmp(op, "VAR")) {
        struct betree* t = trees[I(f[1])];
        const char* ty = f[2];
        const char* name = f[3];
        bool allow = f[4][0] == '1';
        bool hasmin = c->nf > 5 && f[5][0] != '*', hasmax = c->nf > 6 && f[6][0] != '*';
        if(!strcmp(ty, "b")) betree_add_boolean_variable(t, name, allow);
        else if(!strcmp(ty, "i")) betree_add_integer_variable(t, name, allow, hasmin ? I(f[5]) : INT64_MIN, hasmax ? I(f[6]) : INT64_MAX);
        else if(!strcmp(ty, "il")) betree_add_integer_list_variable(t, name, allow, hasmin ? I(f[5]) : INT64_MIN, hasmax ? I(f[6]) : INT64_MAX);
        else if(!strcmp(ty, "f")) betree_add_float_variable(t, name, allow, hasmin ? F(f[5]) : -DBL_MAX, hasmax ? F(f[6]) : DBL_MAX);
        else if(!strcmp(ty, "s")) betree_add_string_variable(t, name, allow, hasmin ? (size_t)I(f[5]) : SIZE_MAX);
        else if(!strcmp(ty, "sl")) betree_add_string_list_variable(t, name, allow, hasmin ? (size_t)I(f[5]) : SIZE_MAX);
        else if(!strcmp(ty, "ie")) betree_add_integer_enum_variable(t, name, allow, hasmin ? (size_t)I(f[5]) : SIZE_MAX);
        else if(!strcmp(ty, "seg")) betree_add_segments_variable(t, name, allow);
        else if(!strcmp(ty, "fc")) betree_add_frequency_caps_variable(t, name, allow);
        else die("var type %s", ty);
    }
#ifdef WITH_HELPER
    else if(!strcmp(op, "VARL")) {
        add_variable_from_string(trees[I(f[1])], f[2]);
    }
    else if(!strcmp(op, "EMPTY")) {
        empty_tree(trees[I(f[1])]);
        tree_count_subs[I(f[1])] = 0;
    }
#endif
    else if(!strcmp(op, "DEF")) {
        static const char* names[] = { "b", "i", "f", "s", "il", "sl", "seg", "fc", "ie" };
        static const enum betree_value_type_e types[] = { BETREE_BOOLEAN, BETREE_INTEGER, BETREE_FLOAT, BETREE_STRING,
            BETREE_INTEGER_LIST, BETREE_STRING_LIST, BETREE_SEGMENTS, BETREE_FREQUENCY_CAPS, BETREE_INTEGER_ENUM };
        struct betree_variable_definition d = betree_get_variable_definition(trees[I(f[1])], (size_t)I(f[2]));
        x->st.defs++;
        const char* ty = "?";
        for(int i = 0; i < 9; i++) if(types[i] == d.type) ty = names[i];
        if(strcmp(d.name, f[3]) || strcmp(ty, f[4])) fail("definition", c->line, "attribute %s is (%s,%s), must be (%s,%s)", f[2], d.name, ty, f[3], f[4]);
    }
    else if(!strcmp(op, "TWIN")) {
        // TWIN event tree tree: two trees that were told the same, one by lines and one by calls, behave the same
        struct report* ra = make_report();
        struct report* rb = make_report();
        const char* text = ev_text[I(f[1])]->f[2];
        bool a = betree_search(trees[I(f[2])], text, ra), b = betree_search(trees[I(f[3])], text, rb);
        x->st.twins++;
        if(a != b || ra->matched != rb->matched || ra->evaluated != rb->evaluated || ra->shorted != rb->shorted || ra->memoized != rb->memoized)
            fail("twin", c->line, "the tree declared by calls: ok=%d matched=%zu evaluated=%zu shorted=%zu memoized=%zu, by lines: ok=%d matched=%zu evaluated=%zu shorted=%zu memoized=%zu",
                a, ra->matched, ra->evaluated, ra->shorted, ra->memoized, b, rb->matched, rb->evaluated, rb->shorted, rb->memoized);
        free_report(ra);
        free_report(rb);
    }
    else if(!strcmp(op, "BND")) {
        bool r = betree_change_boundaries(trees[I(f[1])], f[3]);
        x->st.boundary_calls++;
        if(f[2][0] != '?' && r != (f[2][0] == '1')) fail("accept", c->line, "boundary change returned %d, must return %c: %s", r, f[2][0], f[3]);
    }
    else if(!strcmp(op, "INS") || !strcmp(op, "SUB")) {
        // INS tree id exp nconst (name value)* expr ; SUB tree subslot id exp nconst ...
        bool sub = op[0] == 'S';
        char** g = f + (sub ? 3 : 2);
        int slot = (int)I(f[1]);
        struct betree* t = trees[slot];
        uint64_t id = strtoull(g[0], NULL, 10);
        int n = (int)I(g[2]);
        struct betree_constant* cs[16];
        const struct betree_constant* ccs[16];
        if(n > 16) die("constants");
        for(int i = 0; i < n; i++) ccs[i] = cs[i] = constants_of(g + 3, i);
        const char* expr = g[3 + 2 * n];
        bool r;
        if(sub) {
            const struct betree_sub* s = betree_make_sub(t, id, n, n ? ccs : NULL, expr);
            subs[I(f[2])] = s;
            r = s != NULL;
        }
        else if(n == 0) r = betree_insert(t, id, expr);
        else r = betree_insert_with_constants(t, id, n, ccs, expr);
        if(c->line % 3) betree_free_constants(n, cs);
        else for(int i = 0; i < n; i++) betree_free_constant(cs[i]);
        expect_insert(x, c, g[1], r, expr);
        if(!sub && r) {
            tree_count_subs[slot]++;
#ifdef WITH_STRUCT
            if(chk_struct) struct_grown(x, c, slot);
#endif
        }
    }
    else if(!strcmp(op, "PUT")) {
        int slot = (int)I(f[1]);
        const struct betree_sub* s = subs[I(f[2])];
        if(s != NULL) {
            subs[I(f[2])] = NULL;
            if(!betree_insert_sub(trees[slot], s)) fail("accept", c->line, "prepared expression refused");
            tree_count_subs[slot]++;
#ifdef WITH_STRUCT
            if(chk_struct) struct_grown(x, c, slot);
#endif
        }
    }
    else if(!strcmp(op, "EV")) {
        ev_text[I(f[1])] = c;
    }
    else if(!strcmp(op, "EO")) {
        ev_spec[I(f[1])] = c;
    }
    else if(!strcmp(op, "OBJ")) { // keep an event object for re-use
        int e = (int)I(f[1]);
        ev_obj[e] = build_event(ev_spec[e], trees[I(f[2])]);
    }
    else if(!strcmp(op, "SETV")) {
        if(ev_obj[I(f[1])]) betree_free_event(ev_obj[I(f[1])]);
        change_event((int)I(f[1]), (int)I(f[2]), c->line);
    }
    else if(!strcmp(op, "FREEOBJ")) {
        int e = (int)I(f[1]);
        betree_free_event(ev_obj[e]);
        ev_obj[e] = NULL;
    }
    else if(!strcmp(op, "FREE")) {
        int s = (int)I(f[1]);
        if(is_inited[s]) betree_deinit(trees[s]);
        else betree_free(trees[s]);
        trees[s] = NULL;
        is_inited[s] = false;
    }
    else if(!strcmp(op, "MEM")) { // memory in use: remember (0), or compare with what was remembered (1)
        if(!chk_leak) return;
        if(I(f[1]) == 0) mark_live = live, mark_bytes = live_bytes;
        else {
            long slack = I(f[2]);
            x->st.growth_checked++;
            if(live_bytes - mark_bytes > slack)
                fail("growth", c->line, "%ld bytes in %ld allocations more in use after queries", live_bytes - mark_bytes, live - mark_live);
        }
    }
    else die("command %s", op);
}

#ifdef WITH_STRUCT
// The walk reports nodes in pre-order; the invariants are decided here.
#define MAXN (1 << 18)
struct seen { uint64_t key; };
static uint64_t* seen_subs;
static size_t nseen;
struct walk { struct ctx* x; const struct cmd* c; size_t subs; const char* err; size_t cdirs, maxdepth; };
static void on_sub(void* u, const void* sub)
{
    (void)u;
    if(nseen < MAXN) seen_subs[nseen++] = (uint64_t)(uintptr_t)sub;
}
static void on_violation(void* u, const char* what)
{
    struct walk* w = u;
    fail("structure", w->c->line, "%s", what);
}
static void struct_check(struct ctx* x, const struct cmd* c, int slot)
{
    if(!seen_subs) seen_subs = mmap(NULL, MAXN * sizeof *seen_subs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    struct walk w = { .x = x, .c = c };
    nseen = 0;
    struct betree_verify_result r = { 0 };
    betree_verify_walk(trees[slot], on_sub, on_violation, &w, &r);
    if(!r.walked) return;
    x->st.struct_walks++;
    x->st.struct_cdirs += r.cdirs;
    if(r.max_depth > x->st.struct_max_depth) x->st.struct_max_depth = r.max_depth;
    qsort(seen_subs, nseen, sizeof *seen_subs, cmp_u64);
    for(size_t i = 1; i < nseen; i++) {
        if(seen_subs[i] == seen_subs[i - 1]) fail("structure", c->line, "an expression is stored in two places");
    }
    if(nseen != tree_count_subs[slot]) fail("structure", c->line, "%zu expressions stored, %zu inserted", nseen, tree_count_subs[slot]);
}
#endif

// ------------------------------------------------------------------- threads
struct job {
    struct ctx x;
    struct cmd* cmds;
    size_t n;
    int rounds;
    pthread_barrier_t* bar;
};

static void* job_main(void* p)
{
    struct job* j = p;
    pthread_barrier_wait(j->bar);
    for(int r = 0; r < j->rounds; r++) {
        for(size_t i = 0; i < j->n; i++) exec(&j->x, &j->cmds[i]);
    }
    return NULL;
}

static void add_stats(struct stats* a, const struct stats* b)
{
    unsigned long* x = (unsigned long*)a;
    const unsigned long* y = (const unsigned long*)b;
    unsigned long md = a->struct_max_depth > b->struct_max_depth ? a->struct_max_depth : b->struct_max_depth;
    for(size_t i = 0; i < sizeof *a / sizeof *x; i++) x[i] += y[i];
    a->struct_max_depth = md;
}

static void run_par(struct ctx* x, struct cmd* cmds, size_t n, int rounds)
{
    // cmds: T ... T ... (up to 16 sections)
    struct job jobs[16];
    pthread_t th[16];
    size_t nj = 0;
    memset(jobs, 0, sizeof jobs);
    for(size_t i = 0; i < n; i++) {
        if(!strcmp(cmds[i].f[0], "T")) {
            if(nj == 16) die("too many threads");
            jobs[nj].cmds = &cmds[i + 1];
            jobs[nj].x.in_thread = true;
            jobs[nj].x.rng = (unsigned)(cur_case * 31 + (long)nj);
            jobs[nj].rounds = rounds;
            nj++;
        }
        else jobs[nj - 1].n++;
    }
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, (unsigned)nj);
    for(size_t i = 0; i < nj; i++) {
        jobs[i].bar = &bar;
        if(pthread_create(&th[i], NULL, job_main, &jobs[i])) die("pthread_create");
    }
    for(size_t i = 0; i < nj; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&bar);
    for(size_t i = 0; i < nj; i++) add_stats(&x->st, &jobs[i].x.st);
    x->st.thread_blocks++;
}

// --------------------------------------------------------------------- cases
static void end_case(struct ctx* x, int line)
{
    for(int i = 0; i < MAXEV; i++) {
        if(ev_obj[i]) betree_free_event(ev_obj[i]);
        ev_obj[i] = NULL;
        ev_text[i] = ev_spec[i] = NULL;
    }
    for(int i = 0; i < MAXTREE; i++) {
        if(trees[i]) {
            // prepared but never inserted expressions have no destructor in the
            // interface: hand them to the tree so that they are destroyed with it
            if(is_inited[i]) betree_deinit(trees[i]);
            else betree_free(trees[i]);
        }
        trees[i] = NULL;
        is_inited[i] = false;
    }
    memset(subs, 0, sizeof subs);
#ifdef WITH_HOOKS
    if(chk_leak) {
        track = 0;
        x->st.leak_checked++;
        if(live != 0) {
            char buf[3000] = "";
            size_t k = 0;
            int shown = 0;
            for(size_t i = 0; i < MAXLIVE; i++) {
                if(livetab[i] == NULL) continue;
#ifdef WITH_ASAN
                if(shown < 3) {
                    void* tr[12];
                    int tid;
                    size_t n = __asan_get_alloc_stack((void*)livetab[i], tr, 12, &tid);
                    k += snprintf(buf + k, sizeof buf - k, " | %zu bytes:", livesize[i]);
                    for(size_t j = 1; j < n && j < 7 && k + 300 < sizeof buf; j++) {
                        char fn[200];
                        __sanitizer_symbolize_pc(tr[j], "%f", fn, sizeof fn);
                        k += snprintf(buf + k, sizeof buf - k, " %s", fn);
                    }
                    shown++;
                }
#endif
                livetab[i] = NULL;
            }
            fail("leak", line, "%ld allocations not released%s", live, buf);
        }
        memset((void*)livetab, 0, sizeof livetab);
        live = live_bytes = 0;
    }
#endif
    (void)x;
    (void)line;
}

static char* unescape(char* s)
{
    char* w = s;
    for(char* r = s; *r; r++) {
        if(*r == '\\') {
            r++;
            *w++ = *r == 't' ? '\t' : *r == 'n' ? '\n' : *r == 'r' ? '\r' : *r;
        }
        else *w++ = *r;
    }
    *w = 0;
    return s;
}

int main(int argc, char** argv)
{
    if(argc < 4) return 3;
    out = fopen(argv[2], "a");
    if(!out) return 3;
    setvbuf(out, malloc(1 << 16), _IOFBF, 1 << 16);
    for(int i = 4; i < argc; i++) {
        if(!strcmp(argv[i], "leak")) chk_leak = true;
        else if(!strcmp(argv[i], "counters")) chk_counters = true;
        else if(!strcmp(argv[i], "struct")) chk_struct = true;
        else die("option %s", argv[i]);
    }
    (void)chk_struct;
    int sfd = open(argv[3], O_RDWR | O_CREAT, 0600);
    if(sfd < 0 || ftruncate(sfd, 64)) die("status");
    volatile long* status = mmap(NULL, 64, PROT_READ | PROT_WRITE, MAP_SHARED, sfd, 0);
    int fd = open(argv[1], O_RDONLY);
    struct stat sb;
    if(fd < 0 || fstat(fd, &sb)) die("script");
    char* text = mmap(NULL, (size_t)sb.st_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for(ssize_t got, off = 0; (got = read(fd, text + off, (size_t)(sb.st_size - off))) > 0;) off += got;
    // pools
    size_t ncmd_max = (size_t)sb.st_size / 2 + 16;
    struct cmd* cmds = mmap(NULL, ncmd_max * sizeof *cmds, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t fmax = (size_t)sb.st_size + 4096;
    char** fields = mmap(NULL, fmax * sizeof *fields, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(cmds == MAP_FAILED || fields == MAP_FAILED) die("mmap");
    size_t nc = 0, nf = 0;
    int line = 0;
    for(char* p = text; p < text + sb.st_size;) {
        char* nl = memchr(p, '\n', (size_t)(text + sb.st_size - p));
        if(!nl) nl = text + sb.st_size;
        *nl = 0;
        line++;
        struct cmd* c = &cmds[nc];
        c->line = line;
        c->f = &fields[nf];
        c->nf = 0;
        if(*p && *p != '#') {
            for(char* q = p;;) {
                char* t = strchr(q, '\t');
                if(t) *t = 0;
                fields[nf++] = unescape(q);
                c->nf++;
                if(!t) break;
                q = t + 1;
            }
            nc++;
        }
        p = nl + 1;
    }
    // let stdio and locale initialise themselves before accounting starts
    printf("%.2f %s\n", 1.5, "warm");
    fprintf(stderr, "%.2f %s\n", 1.5, "warm");
    fflush(NULL);
#ifdef WITH_HOOKS
    if(chk_leak) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    struct ctx x;
    memset(&x, 0, sizeof x);
    for(size_t i = 0; i < nc;) {
        struct cmd* c = &cmds[i];
        if(strcmp(c->f[0], "CASE")) die("CASE expected at line %d", c->line);
        size_t j = i + 1;
        cur_case = I(c->f[1]);
        status[0] = cur_case;
        status[1]++;
        track = chk_leak;
        int base = c->line;
        (void)base;
        while(j < nc && strcmp(cmds[j].f[0], "CASE")) {
            status[2] = cmds[j].line;
            if(!strcmp(cmds[j].f[0], "PAR")) {
                size_t k = j + 1;
                while(k < nc && strcmp(cmds[k].f[0], "ENDPAR")) k++;
                run_par(&x, &cmds[j + 1], k - j - 1, (int)I(cmds[j].f[1]));
                j = k + 1;
            }
            else {
                exec(&x, &cmds[j]);
                j++;
            }
        }
        end_case(&x, (int)status[2]);
        x.st.cases++;
        i = j;
    }
    status[0] = -1;
    add_stats(&total, &x.st);
    fprintf(out, "STAT\t{");
    static const char* names[] = { "cases", "trees", "inserts_ok", "inserts_refused", "searches", "exists", "matches", "empty_results",
        "refused_searches", "evaluated", "shorted", "memoized", "struct_walks", "struct_cdirs", "struct_max_depth",
        "thread_blocks", "thread_cmds", "leak_checked", "growth_checked", "reused", "boundary_calls", "defs", "twins" };
    for(size_t i = 0; i < sizeof names / sizeof *names; i++) fprintf(out, "%s\"%s\":%lu", i ? "," : "", names[i], ((unsigned long*)&total)[i]);
    fprintf(out, ",\"allocs\":%lu}\n", allocs);
    fclose(out);
    return 0;
}
