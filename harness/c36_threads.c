/* Threads: generated trees of threads under generated schedules. */
#include "pbt.h"
#include "schedule.h"
#include "acct.h"
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "libcork/core.h"
#include "libcork/threads.h"
const char *pbt_rule = "a case builds a tree of up to 9 threads (libcork threads and plain pthreads, started and joined by the main thread or by one another, some never started, some whose creation the system refuses), each running a generated body that looks at its identity, sets, checks and clears errors, uses thread-local variables, makes and collects cyclic garbage and starts and joins its own children, in a fresh process under a recorded schedule that can switch at every memory access, and then exits normally; non-trivial: at least two threads were alive at once, at least 4 switches happened and a thread failed or a child thread was started by a child";

#define STILL __attribute__((no_sanitize("thread"), noinline))     /* the harness's own books: no switch inside */
#define MAXN 9
enum { R_FINE, R_ERROR, R_PLAIN, R_CLEARED, R_LEFT, NRES };
enum { O_IDENT, O_SET, O_LOOK, O_CLEAR, O_TLS, O_PREFIX, O_GC, O_START, O_JOIN, NOPS };
struct op { int kind, arg; uint32_t code; const char *msg; };
struct est { uint32_t code; char msg[1200]; };
struct node {
    int idx, parent; bool cork, start, main_joins, has_free, null_ud, refuse;
    const char *name; int result; uint32_t code; const char *msg; int rc;
    struct op ops[64]; int nops;
    /* while running */
    struct cork_thread *t; pthread_t p; unsigned id; volatile int runs, frees, done, started, freed, joined;
    volatile int tls_touched, gc_live; struct est e;
};
static struct node N[MAXN + 1]; static int n;      /* N[0] is the main thread */
static unsigned seen_id[64]; static int seen_who[64], nseen; static unsigned ids;
static volatile int running, most; static int exit_code; static bool in_case; static size_t base;
static volatile int tls_made, tls_gone;

struct small { int v; char pad[3]; };
struct big { char a[300]; long v; };
STILL static void made(void) { tls_made++; }
static struct small *sm_new(void) { made(); return cork_calloc(1, sizeof(struct small)); }
static void sm_free(void *p) { __sync_fetch_and_add(&tls_gone, 1); cork_cfree(p, 1, sizeof(struct small)); }
#if CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS
#define KEYS 0
#else
#define KEYS 1
#endif
cork_tls_with_alloc(struct small, tls_small, sm_new, sm_free);
cork_tls(struct big, tls_big);

static bool all(const void *v, size_t k, char c) { const char *p = v; while (k--) if (*p++ != c) return false; return true; }
STILL static void note_id(unsigned id, int who, const char *what)
{
    CHECK(id != CORK_THREAD_NONE, "thread %d: %s is CORK_THREAD_NONE", who, what);
    for (int i = 0; i < nseen; i++) if (seen_id[i] == id) {
        CHECK(seen_who[i] == who, "threads %d and %d both have the identifier %u (%s)", seen_who[i], who, id, what); return; }
        else CHECK(seen_who[i] != who, "thread %d: identifier %u, but %s is %u", who, seen_id[i], what, id);
    if (nseen < 64) { seen_id[nseen] = id; seen_who[nseen++] = who; }
}
static void look(struct node *s, const char *when)
{
    CHECK(cork_error_occurred() == (s->e.code != 0), "thread %d, %s: cork_error_occurred says %d, this thread's error is %u", s->idx, when, cork_error_occurred(), s->e.code);
    CHECK(cork_error_code() == s->e.code, "thread %d, %s: error code %u, expected %u", s->idx, when, cork_error_code(), s->e.code);
    if (s->e.code) CHECK(strcmp(cork_error_message(), s->e.msg) == 0, "thread %d, %s: error message %s, expected %s", s->idx, when,
                         pbt_quote(cork_error_message(), strlen(cork_error_message())), pbt_quote(s->e.msg, strlen(s->e.msg)));
}
static void seterr(struct node *s, uint32_t code, const char *msg, int how)
{
    if (how & 1) cork_error_set_string(code, msg); else cork_error_set_printf(code, "%s", msg);
    s->e.code = code; snprintf(s->e.msg, sizeof s->e.msg, "%s", msg);
}
static void ident(struct node *s)
{
    struct cork_thread *c = cork_current_thread_get();
    if (s->cork) {
        CHECK(c == s->t, "thread %d: cork_current_thread_get returns %p, the thread is %p", s->idx, (void *) c, (void *) s->t);
        CHECK(strcmp(cork_thread_get_name(c), s->name) == 0, "thread %d: its name is %s, expected %s", s->idx, pbt_quote(cork_thread_get_name(c), strlen(cork_thread_get_name(c))), pbt_quote(s->name, strlen(s->name)));
        note_id(cork_thread_get_id(c), s->idx, "cork_thread_get_id");
    } else CHECK(c == NULL, "thread %d was not made by libcork, but cork_current_thread_get returns %p", s->idx, (void *) c);
    note_id(cork_current_thread_get_id(), s->idx, "cork_current_thread_get_id");
}
static void tls(struct node *s)
{
    struct small *a = tls_small_get(); struct big *b = tls_big_get();
    CHECK(a == tls_small_get() && b == tls_big_get(), "thread %d: a thread-local variable moved", s->idx);
    if (!s->tls_touched) {
        CHECK(all(a, sizeof *a, 0) && all(b, sizeof *b, 0), "thread %d: a thread-local variable is not zero-filled at its first use", s->idx);
        s->tls_touched = 1;
    } else {
        CHECK(a->v == s->idx + 1 && all(b->a, sizeof b->a, (char) (s->idx + 1)) && b->v == s->idx + 1, "thread %d: its thread-local variables changed (%d, %ld)", s->idx, a->v, b->v);
    }
    a->v = s->idx + 1; memset(b->a, s->idx + 1, sizeof b->a); b->v = s->idx + 1;
}
struct gobj { struct node *owner; struct gobj *to; };
static void g_free(void *v) { struct gobj *g = v; CHECK(g->owner->gc_live > 0 && sched_self() >= 0, "a garbage-collected object is freed once too often"); g->owner->gc_live--; }
static void g_recurse(struct cork_gc *gc, void *v, cork_gc_recurser r, void *ud) { struct gobj *g = v; r(gc, g->to, ud); }
static struct cork_gc_obj_iface g_iface = { g_free, g_recurse };
static void gc_round(struct node *s, int keep)
{
    struct gobj *a = cork_gc_new_iface(struct gobj, &g_iface), *b = cork_gc_new_iface(struct gobj, &g_iface);
    s->gc_live = s->gc_live + 2; a->owner = b->owner = s; a->to = cork_gc_incref(b); b->to = cork_gc_incref(a);
    cork_gc_decref(a); cork_gc_decref(b);       /* a cycle that nothing refers to */
    if (keep) return;
    cork_gc_done();
    CHECK(s->gc_live == 0, "thread %d: %d objects of its garbage cycles are left after cork_gc_done", s->idx, s->gc_live);
}
static void free_ud(void *v)
{
    struct node *s = v;
    CHECK(s >= N && s < N + MAXN + 1 && s->has_free, "free_user_data received %p, which is no user data of this kind", v);
    CHECK(!s->started || s->done, "thread %d: user data freed before its body is done", s->idx);
    CHECK(s->frees == 0, "thread %d: user data freed twice", s->idx);
    s->frees++;
}
static int body(void *v);
static void *raw_body(void *v) { body(v); return NULL; }
static void make(struct node *c)
{
    char tmp[100]; snprintf(tmp, sizeof tmp, "%s", c->name);
    c->t = cork_thread_new(tmp, c->null_ud ? NULL : c, c->has_free ? free_ud : NULL, body);
    memset(tmp, 'X', sizeof tmp - 1);
    note_id(cork_thread_get_id(c->t), c->idx, "cork_thread_get_id after cork_thread_new");
    CHECK(strcmp(cork_thread_get_name(c->t), c->name) == 0, "thread %d: name %s after creation, expected %s", c->idx, cork_thread_get_name(c->t), c->name);
    CHECK(c->runs == 0 && c->frees == 0, "thread %d runs before it is started", c->idx);
}
static void release(struct node *s, struct node *c)
{
    struct cork_thread *t = c->t;
    cork_thread_free(t);
    CHECK(c->runs == 0, "thread %d ran, but was never started", c->idx);
    CHECK(c->frees == (c->has_free ? 1 : 0), "thread %d: freed without being started, its user data was freed %d times", c->idx, c->frees);
    look(s, "after cork_thread_free");
}
static void start(struct node *s, struct node *c)
{
    pbt_label(c->cork ? "libcork thread" : "plain pthread");
    if (!c->cork) { c->started = 1; if (pthread_create(&c->p, NULL, raw_body, c) != 0) _exit(103); return; }
    make(c);
    if (!c->start) { pbt_label("never started"); release(s, c); c->freed = 1; return; }
    unsigned long before = sched_creates;
    (void) before;
    c->started = c->refuse ? 0 : 1;
    if (c->refuse) {
        pbt_label("creation refused");
        sched_create_fail = EAGAIN; int rc = cork_thread_start(c->t); sched_create_fail = 0;
        CHECK(rc == -1, "thread %d: the system refused to create it, but cork_thread_start returns %d", c->idx, rc);
        CHECK(cork_error_code() == EAGAIN, "thread %d: the system refused to create it with EAGAIN, the error is %u", c->idx, cork_error_code());
        s->e.code = EAGAIN; snprintf(s->e.msg, sizeof s->e.msg, "%s", cork_error_message());
        CHECK(strstr(s->e.msg, strerror(EAGAIN)), "thread %d: message %s for a refused creation", c->idx, s->e.msg);
        release(s, c); c->freed = 1; return;
    }
    int rc = cork_thread_start(c->t);
    CHECK(rc == 0, "thread %d: cork_thread_start returns %d", c->idx, rc);
    look(s, "after cork_thread_start");
    c->started = 2;
}
static void join(struct node *s, struct node *c)
{
    if (c->freed) return;
    if (!c->cork) { pthread_join(c->p, NULL); CHECK(c->done, "harness"); return; }
    struct cork_thread *t = c->t;
    int rc = cork_thread_join(t);
    c->joined = 1;
    CHECK(c->runs == 1 && c->done, "thread %d: joined, but its body ran %d times and %s", c->idx, c->runs, c->done ? "is done" : "is not done");
    CHECK(c->frees == (c->has_free ? 1 : 0), "thread %d: joined, and its user data was freed %d times", c->idx, c->frees);
    if (c->result == R_ERROR || c->result == R_PLAIN) {
        pbt_label(c->result == R_ERROR ? "body failed with an error" : "body failed without an error");
        CHECK(rc == -1, "thread %d: its body failed, but cork_thread_join returns %d", c->idx, rc);
        uint32_t want = c->result == R_ERROR ? c->code : CORK_UNKNOWN_ERROR;
        CHECK(cork_error_occurred() && cork_error_code() == want, "thread %d: joined with error %u, its body's error was %u", c->idx, cork_error_code(), want);
        const char *m = cork_error_message();
        if (c->result == R_ERROR) CHECK(strstr(m, c->msg), "thread %d: joined with the message %s, its body's was %s", c->idx, pbt_quote(m, strlen(m)), pbt_quote(c->msg, strlen(c->msg)));
        s->e.code = want; snprintf(s->e.msg, sizeof s->e.msg, "%s", m);
    } else CHECK(rc == 0, "thread %d: its body succeeded, but cork_thread_join returns %d (%s)", c->idx, rc, cork_error_message());
    look(s, "after cork_thread_join");
}
static void run(struct node *s)
{
    for (int i = 0; i < s->nops; i++) {
        struct op *o = &s->ops[i];
        switch (o->kind) {
            case O_IDENT: ident(s); break;
            case O_SET: seterr(s, o->code, o->msg, o->arg); break;
            case O_LOOK: look(s, "later"); break;
            case O_CLEAR: cork_error_clear(); s->e.code = 0; break;
            case O_TLS: tls(s); break;
            case O_PREFIX: if (s->e.code) { char t[1200]; cork_error_prefix_printf("%s: ", o->msg); snprintf(t, sizeof t, "%s: %s", o->msg, s->e.msg); memcpy(s->e.msg, t, sizeof t); } break;
            case O_GC: gc_round(s, o->arg); break;
            case O_START: start(s, &N[o->arg]); break;
            case O_JOIN: join(s, &N[o->arg]); break;
        }
    }
}
STILL static void enter(struct node *s) { s->runs++; running++; if (running > most) most = running; }
STILL static void leave(struct node *s) { running--; s->done = 1; }
static int body(void *v)
{
    struct node *s = v;
    if (!v) for (int i = 1; i < n; i++) if (N[i].cork && N[i].null_ud && N[i].t == cork_current_thread_get()) s = &N[i];
    CHECK(s >= N + 1 && s < N + n, "the body of a thread received %p, which is not its user data", v);
    CHECK(!s->cork || (s->null_ud ? v == NULL : v == (void *) s), "thread %d: user data %p", s->idx, v);
    CHECK(s->started, "thread %d runs before it is started", s->idx);
    CHECK(s->runs == 0, "thread %d runs its body twice", s->idx);
    enter(s);
    ident(s); look(s, "at its start");
    run(s);
    if (s->gc_live) gc_round(s, 0);
    look(s, "at its end"); ident(s);
    if (s->tls_touched) tls(s);
    int rc = 0;
    switch (s->result) {
        case R_ERROR: seterr(s, s->code, s->msg, s->rc & 1); rc = s->rc; break;
        case R_PLAIN: cork_error_clear(); rc = s->rc; break;
        case R_CLEARED: seterr(s, s->code, s->msg, s->rc & 1); cork_error_clear(); break;
        case R_LEFT: seterr(s, s->code, s->msg, s->rc & 1); break;
        default: cork_error_clear(); break;
    }
    leave(s);
    return rc;
}
static const char *message(void)
{
    if (pbt_chance(1, 8)) { size_t k = 1 + pbt_size(0, 900); char *s = malloc(k + 1); memset(s, 'm', k); s[k] = 0; s[0] = (char) ('a' + pbt_pick(26)); return s; }
    return strdup(pbt_str(1, 30, "abcXYZ: %"));
}
static uint32_t code(void) { return pbt_chance(1, 3) ? (uint32_t) pbt_uniform(1, 40) : (uint32_t) pbt_u64(1, UINT32_MAX); }
static struct op *push(struct node *s, int kind, int arg) { if (s->nops == 64) return NULL; struct op *o = &s->ops[s->nops++]; o->kind = kind; o->arg = arg; return o; }
static void some_ops(struct node *s, unsigned max)
{
    unsigned st = 0;
    while (pbt_more(&st, 2, max) && s->nops < 14) {
        int k = (int) pbt_uniform(0, 6); struct op *o = push(s, k, (int) pbt_uniform(0, 1));
        if (k == O_SET) { o->code = code(); o->msg = message(); } else if (k == O_PREFIX) o->msg = strdup(pbt_str(0, 10, "pqr%"));
    }
}
static void gen(void)
{
    memset(N, 0, sizeof N);
    n = 2 + (int) pbt_size(0, MAXN - 2);
    for (int i = 1; i < n; i++) {
        struct node *s = &N[i]; s->idx = i; pbt_mark();
        s->parent = pbt_chance(1, 3) ? (int) pbt_uniform(0, i - 1) : 0;
        s->cork = !pbt_chance(1, 5); s->start = !s->cork || !pbt_chance(1, 8);
        s->refuse = s->cork && s->start && pbt_chance(1, 10);
        s->main_joins = pbt_chance(1, 4);
        s->has_free = s->cork && pbt_chance(1, 2); s->null_ud = s->cork && !s->has_free && pbt_chance(1, 4);
        s->name = strdup(pbt_str(0, 40, "abcd-/% \xc3"));
        s->result = s->cork ? (int) pbt_uniform(0, NRES - 1) : R_FINE;
        s->code = code(); s->msg = message(); s->rc = pbt_chance(1, 2) ? -1 : (int) pbt_uniform(1, 3);
        pbt_trace("thread %d: %s%s, name %s, parent %d, joined by %s, result %d (code %u), %s%s", i, s->cork ? "libcork" : "pthread", s->start ? (s->refuse ? " (refused)" : "") : " (never started)",
                  pbt_quote(s->name, strlen(s->name)), s->parent, s->main_joins ? "main" : "its parent", s->result, s->code, s->has_free ? "frees its user data" : "keeps its user data", s->null_ud ? " (NULL)" : "");
    }
    for (int i = 0; i < n; i++) {
        struct node *s = &N[i]; s->cork = i && s->cork;
        some_ops(s, 4);
        int pend[MAXN], np = 0;
        for (int c = i + 1; c < n; c++) if (N[c].parent == i) {
            push(s, O_START, c); if (!N[c].main_joins || i == 0) pend[np++] = c;
            some_ops(s, 1);
            if (np && pbt_chance(1, 4)) { int k = (int) pbt_uniform(0, np - 1); push(s, O_JOIN, pend[k]); pend[k] = pend[--np]; }
        }
        some_ops(s, 2);
        while (np) { int k = (int) pbt_uniform(0, np - 1); struct op *o = push(s, O_JOIN, pend[k]); if (!o) break; pend[k] = pend[--np]; }
        while (np) { N[pend[np - 1]].main_joins = true; np--; }     /* no room: main does it */
        if (s->nops == 64) for (int c = i + 1; c < n; c++) { bool st = false; for (int k = 0; k < 64; k++) st |= s->ops[k].kind == O_START && s->ops[k].arg == c; if (N[c].parent == i && !st) _exit(103); }
    }
}
static void last(void)
{
    if (!in_case) return;
#if !KEYS
    if (acct_live() != base) { acct_live(); pbt_fail("after the process's cleanup, %zu blocks of the library are still allocated", acct_live() - base); }
#endif
    _exit(exit_code);
}
static void child(void *v)
{
    unsigned style = *(unsigned *) v;
    in_case = true;
    sched_begin(style);
    ident(&N[0]);
    run(&N[0]);
    for (int i = 1; i < n; i++) if (N[i].main_joins && N[i].parent != 0) {
        while (!(N[i].freed || (N[i].cork ? N[i].started == 2 : N[i].p != 0))) {
            /* its starter may have been refused itself, or never reached it */
            bool dead = false; for (int p = N[i].parent; p > 0; p = N[p].parent) dead |= N[p].freed || (N[p].done && !N[i].started && !N[i].freed);
            if (dead) goto skip;
            sched_yield_now();
        }
        if (N[i].cork || N[i].p) join(&N[0], &N[i]);
        skip:;
    }
    if (N[0].gc_live) gc_round(&N[0], 0);
    look(&N[0], "at the end"); ident(&N[0]);
    if (N[0].tls_touched) tls(&N[0]);
    sched_end();
    bool nest = false, failed = false;
    for (int i = 1; i < n; i++) { if (N[i].started && N[i].parent > 0) nest = true; failed |= N[i].joined && (N[i].result == R_ERROR || N[i].result == R_PLAIN); 
        size_t sz; if (N[i].t && (N[i].freed || N[i].joined) && !acct_live()) (void) sz; }
#if KEYS
    int want = 0; for (int i = 1; i < n; i++) want += N[i].tls_touched;
    CHECK(tls_made == want + N[0].tls_touched, "%d instances of a thread-local variable were allocated, %d threads used it", tls_made, want + N[0].tls_touched);
    CHECK(tls_gone == want, "%d threads that used a thread-local variable have finished, but %d instances were freed", want, tls_gone);
#endif
    if (nest) pbt_label("started by another thread");
    if (most > 1) pbt_label("several at once");
    exit_code = (most > 1 && sched_switches >= 4 && (nest || failed)) ? 7 : 0;
    pbt_count("switches", sched_switches); pbt_count("scheduling points", sched_points);
    exit(exit_code);
}
void pbt_init(void) { acct_install(); acct_check_leaks = false; base = acct_live(); atexit(last); }
void pbt_case(void)
{
    gen();
    unsigned style = (unsigned) pbt_uniform(0, SCHED_STYLES - 1);
    int st = pbt_in_child(child, &style, false);
    CHECK(WIFEXITED(st), "the process was killed by signal %d", WTERMSIG(st));
    CHECK(WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7, "the process exits with status %d", WEXITSTATUS(st));
    if (WEXITSTATUS(st) == 7) pbt_nontrivial();
    for (int i = 0; i < n; i++) { free((void *) N[i].name); free((void *) N[i].msg); for (int k = 0; k < N[i].nops; k++) free((void *) N[i].ops[k].msg); }
}
