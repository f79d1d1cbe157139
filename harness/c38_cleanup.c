/* Cleanup functions: generated registrations in a fresh process that then exits. */
#include "pbt.h"
#include "acct.h"
#include <limits.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/ds.h"
#include "libcork/os.h"
#include "libcork/threads.h"
const char *pbt_rule = "a case is a fresh process that registers up to 40 cleanup functions (of 16, so that some are registered several times) with priorities over the whole int range and many equal ones, by either way of registering, from the main thread, from other threads, from an exit handler or from inside a cleanup function, uses the library's error state in between or inside the functions, and then exits from the main or from another thread; non-trivial: at least 3 registrations with at least 2 different priorities";
#define NF 16
#define NR 3000
struct reg { int fn, prio, how; bool late, done; } R[NR + NF]; static int nr, planned;
static struct { int nest, nest_prio; bool error, alloc, nested; } P[NF];
enum { BY_MAIN, BY_THREAD, BY_EXIT_HANDLER };
static int calls, exit_code; static bool in_case, exiting, error_late; static size_t base; static int hist[4000];
static void reg(int fn, int prio, bool macro, bool late);
static void ran(int i)
{
    CHECK(exiting, "cleanup function %d runs before the process exits", i);
    CHECK(calls < 4000, "the cleanup functions run without end"); hist[calls++] = i;
    /* due now: the registrations of the smallest priority that have not run (those made while cleaning up may come at any time) */
    bool any = false; int min = 0; struct reg *hit = NULL, *some = NULL;
    for (int k = 0; k < nr; k++) if (!R[k].done) { if (R[k].fn == i) some = &R[k]; if (!R[k].late && (!any || R[k].prio < min)) { any = true; min = R[k].prio; } }
    CHECK(some, "cleanup function %d runs more often than it was registered", i);
    for (int k = 0; k < nr; k++) if (!R[k].done && R[k].fn == i && (R[k].late || R[k].prio == min)) { if (!hit || hit->late) hit = &R[k]; }
    CHECK(hit, "cleanup function %d (priority %d) runs while a function with priority %d is still waiting", i, some->prio, min);
    hit->done = true;
    if (P[i].error) { error_late = true; cork_error_set_printf(77, "cleanup %d", i); CHECK(cork_error_code() == 77, "error code in a cleanup function"); cork_error_clear(); CHECK(!cork_error_occurred(), "error cleared in a cleanup function"); }
    if (P[i].alloc) { struct cork_buffer b = CORK_BUFFER_INIT(); cork_buffer_append_printf(&b, "%d", i); cork_buffer_done(&b); }
    if (P[i].nest >= 0 && !P[i].nested) { P[i].nested = true; reg(P[i].nest, P[i].nest_prio, false, true); }
}
#define F(n) static void f##n(void) { ran(n); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15)
static void (*const fns[NF])(void) = { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15 };
static void reg(int fn, int prio, bool macro, bool late)
{
    R[nr++] = (struct reg) { fn, prio, 0, late, false };
    if (macro) { void (*function)(void) = fns[fn]; cork_cleanup_at_exit(prio, function); }
    else { char name[20]; snprintf(name, sizeof name, "cleanup %d", fn); cork_cleanup_at_exit_named(name, prio, fns[fn]); memset(name, 'x', sizeof name); }
}
struct plan { int fn, prio, how; bool macro, err; } PL[NR];
static int step(void *v) { struct plan *p = v; if (p->err) { cork_error_set_string(5, "early"); cork_error_clear(); } reg(p->fn, p->prio, p->macro, false); return 0; }
static void at_exit(void) { exiting = true; for (int k = 0; k < planned; k++) if (PL[k].how == BY_EXIT_HANDLER) step(&PL[k]); }
static int leave(void *v) { exit(exit_code); }
static void last(void)
{
    if (!in_case) return;
    for (int k = 0; k < nr; k++) CHECK(R[k].done, "cleanup function %d (priority %d%s) was registered %s but not called for it (%d calls in all)", R[k].fn, R[k].prio, R[k].late ? ", from a cleanup function" : "", R[k].late ? "late" : "in time", calls);
    if (!error_late) CHECK(acct_live() <= base, "after the cleanup, %zu blocks of the library are still allocated", acct_live() - base);
    _exit(exit_code);
}
static bool elsewhere;
static void child(void *v)
{
    in_case = true;
    if (elsewhere) base += 2;       /* the thread that exits is never joined */
    bool handler = false;
    for (int k = 0; k < planned; k++) {
        if (PL[k].how == BY_EXIT_HANDLER) { handler = true; continue; }
        if (PL[k].how == BY_MAIN) { step(&PL[k]); continue; }
        struct cork_thread *t = cork_thread_new("r", &PL[k], NULL, step); if (cork_thread_start(t) != 0 || cork_thread_join(t) != 0) _exit(103);
    }
    if (handler) atexit(at_exit);
    CHECK(calls == 0, "cleanup functions ran early"); exiting = true;
    if (elsewhere) { struct cork_thread *t = cork_thread_new("x", NULL, NULL, leave); if (cork_thread_start(t) != 0) _exit(103); for (;;) pause(); }
    exit(exit_code);
}
static int prio(void)
{
    switch (pbt_uniform(0, 5)) { case 0: return (int) pbt_uniform(0, 3); case 1: return -(int) pbt_uniform(0, 3); case 2: return (int) pbt_uniform(0, 100);
        case 3: return INT_MAX - (int) pbt_uniform(0, 1); case 4: return INT_MIN + (int) pbt_uniform(0, 1); default: return (int) (uint32_t) pbt_u64(0, UINT32_MAX); }
}
void pbt_init(void) { acct_install(); acct_check_leaks = false; base = acct_live(); atexit(last); }
void pbt_case(void)
{
    memset(R, 0, sizeof R); nr = 0; planned = 0; unsigned st = 0; calls = 0; error_late = false;
    int few = 1 + (int) pbt_uniform(0, NF - 1); exit_code = (int) pbt_uniform(0, 9); elsewhere = pbt_chance(1, 6);
    uint64_t errs = pbt_chance(1, 3) ? pbt_uniform(0, (1 << NF) - 1) & pbt_uniform(0, (1 << NF) - 1) : 0; bool early = pbt_chance(1, 3), mixed = pbt_chance(1, 3), nests = pbt_chance(1, 4);
    int narrow = pbt_chance(1, 2); bool diff = false;
    for (int i = 0; i < NF; i++) { P[i].error = errs >> i & 1; P[i].alloc = i & 1; P[i].nested = false; P[i].nest = -1; if (nests && pbt_chance(1, 4)) { P[i].nest = (int) pbt_uniform(0, NF - 1); P[i].nest_prio = prio(); } }
    size_t more = pbt_large(250) ? pbt_u64(40, NR - 60) : 0; if (more) pbt_label("thousands of functions");
    while (planned < (int) more || pbt_more(&st, 8, 40)) {
        if (planned && planned < (int) more) { PL[planned] = PL[planned - 1]; PL[planned].fn = (PL[planned].fn * 5 + 3) % few; PL[planned].prio = (int) ((unsigned) PL[planned].prio * 1103515245u + 12345u); if (narrow) PL[planned].prio = (PL[planned].prio >> 16) % 5; planned++; diff = true; continue; }
        struct plan *p = &PL[planned++]; p->fn = (int) pbt_uniform(0, few - 1); p->prio = narrow ? (int) pbt_uniform(0, 4) - 2 : prio();
        p->how = mixed ? (int) pbt_uniform(0, 2) : BY_MAIN; p->macro = pbt_chance(1, 2); p->err = early && pbt_chance(1, 4);
        pbt_trace("register function %d, priority %d, %s%s", p->fn, p->prio, (const char *[]) { "main thread", "another thread", "exit handler" }[p->how], p->err ? " (after using the error state)" : "");
        if (p->prio != PL[0].prio) diff = true;
        if (p->how) pbt_label(p->how == BY_THREAD ? "registered by another thread" : "registered by an exit handler");
    }
    for (int i = 0; i < NF; i++) { if (P[i].error) pbt_trace("function %d uses the error state", i); if (P[i].nest >= 0) { pbt_trace("function %d registers function %d, priority %d", i, P[i].nest, P[i].nest_prio); pbt_label("registers another"); } }
    if (errs) pbt_label("uses the error state"); if (elsewhere) pbt_label("exits from another thread");
    int s = pbt_in_child(child, NULL, !pbt_tracing);
    CHECK(WIFEXITED(s), "the process was killed by signal %d", WTERMSIG(s));
    CHECK(WEXITSTATUS(s) == exit_code, "the process exits with status %d, expected %d", WEXITSTATUS(s), exit_code);
    if (planned >= 3 && diff) pbt_nontrivial();
}
