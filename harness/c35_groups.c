/* Groups of subprocesses: concurrency, stdin, end of file, aborting, failing consumers and failing starts. */
const char *pbt_rule = "a case is a group of up to six children (functions and programs with generated output, stdin and exit status, maybe all waiting for each other), or programs started one by one, driven by a generated plan of writing to and closing their stdin, draining, polling, waiting for single children and aborting, with generated short reads and writes, interruptions, late exits, failing reads, consumers, pipes and forks; non-trivial: at least two children, or a stdin that was written to";
#include "subproc.h"
static struct cork_subprocess_group *G;
static size_t fins(void) { size_t f = 0; for (size_t i = 0; i < N; i++) f += cork_subprocess_is_finished(S_[i].sp); return f; }
static bool draing(void)
{
    if (!G) { bool p = false; for (size_t i = 0; i < N; i++) { p |= drain1(&S_[i]); if (cork_error_occurred()) break; } return p; }
    unsigned long before = activity; size_t f = fins(); CHECK(cork_subprocess_group_is_finished(G) == (f == N), "the group is %sfinished with %zu of %zu finished children", f == N ? "not " : "", f, N);
    bool p = cork_subprocess_group_drain(G); if (p) pbt_trace(" drain: progress"); if (cork_error_occurred()) return p;
    if (f == N) CHECK(!p && activity == before, "draining a finished group does something"); else if (activity != before || fins() != f) CHECK(p, "a drain that delivered something reports no progress"); return p;
}
static bool onebyone;
static bool fin(void) { return G ? cork_subprocess_group_is_finished(G) : fins() == N; }
static void pump(struct sub *s, size_t n) { s->echo ? (void) drain1(s) : (void) 0; if (!cork_error_occurred()) send(s, n); }
static int waitall(void) { if (G) return cork_subprocess_group_wait(G); for (size_t i = 0; i < N; i++) { int rc = cork_subprocess_wait(S_[i].sp); if (rc) return rc; } return 0; }
/* after an error or an abort: nothing runs any more, and what was delivered is a beginning */
static void dead(const char *how)
{
    CHECK(gone(), "a child process is left after %s", how);
}
void pbt_case(void)
{
    setup(); unsigned st = 0; int fds = fsx_open_fds(); bool group = !pbt_chance(1, 5); N = group ? pbt_size(0, 5) + pbt_pick(2) : 1 + pbt_size(0, 3); if (pbt_large(40)) { N = pbt_uniform(7, MAXS); pbt_label("many children"); } if (N > MAXS) N = MAXS; faults_gen(pbt_chance(1, 3));
    unsigned mode = (unsigned) pbt_pick(10); /* 0-5 complete, 6-7 abort, 8 a failing consumer or read, 9 a failing start */ bool barrier = group && mode <= 5 && N >= 2 && pbt_chance(1, N > 6 ? 2 : 4); latebar = barrier && pbt_chance(1, 2);
    pbt_trace("%zu children, %s", N, group ? "a group" : "started one by one"); G = group ? cork_subprocess_group_new() : NULL; bool anyin = false;
    for (size_t i = 0; i < N; i++) { gen(&S_[i], (int) i, true, barrier, mode == 6 || mode == 7 || (mode == 8 && pbt_chance(1, 2))); if (!group && S_[i].fn) { S_[i].fn = false; if (S_[i].want == 1 && S_[i].wantany) { S_[i].want = 0; S_[i].wantany = S_[i].errloose = false; } } S_[i].early = false; make(&S_[i]); if (G) cork_subprocess_group_add(G, S_[i].sp); anyin |= S_[i].takes && S_[i].ilen; }
    if (mode == 8 && N) { cons_err = 0x30000 + 7; struct sub *s = &S_[pbt_pick(N)]; int i = pbt_chance(1, 3); if (pbt_chance(1, 3)) { static const int e[] = { EIO, EBADF, EINVAL }; read_err = e[pbt_pick(3)]; read_err_at = 1 + pbt_size(0, 10); pbt_trace("read %zu fails", read_err_at); } else if (s->has[i]) { s->log[i].fail_at = 1 + (long) pbt_size(0, 6); pbt_trace("the %s consumer of child %d fails at call %ld", i ? "stderr" : "stdout", s->k, s->log[i].fail_at); } }
    size_t npipes = N; for (size_t i = 0; i < N; i++) npipes += S_[i].has[0] + S_[i].has[1]; if (mode == 9 && N) { if (pbt_chance(1, 2)) { pipe_fail = 1 + (long) pbt_pick(npipes); pipe_errno = pbt_chance(1, 2) ? EMFILE : ENFILE; } else fork_fail = 1 + (long) pbt_pick(N); pbt_trace("%s %ld fails", pipe_fail ? "pipe" : "fork", pipe_fail ? pipe_fail : fork_fail); }
    int want_start = pipe_fail ? pipe_errno : fork_fail ? EAGAIN : 0; bool stop = false; size_t started = N;
    CHECK(!cork_error_occurred(), "an error is set"); redirect(); inject = true; int rc = 0;
    if (G) rc = cork_subprocess_group_start(G); else for (started = 0; started < N && rc == 0; started++) rc = cork_subprocess_start(S_[started].sp);
    if (want_start) {
        CHECK(rc == -1, "starting returned %d although a pipe or fork failed", rc); CHECK(cork_error_occurred() && cork_error_code() == (cork_error) want_start, "starting failed with %s, expected error %d", cork_error_occurred() ? cork_error_message() : "no error", want_start); cork_error_clear();
        if (!G) for (size_t i = 0; i + 1 < started; i++) CHECK(cork_subprocess_abort(S_[i].sp) == 0, "aborting failed: %s", cork_error_message());
        dead("a failed start"); pbt_label("failed start"); stop = true;
    } else CHECK(rc == 0, "starting failed: %s", cork_error_message());
    bool error = false; onebyone = false;
    if (!stop) {
        unsigned steps = mode == 6 || mode == 7 ? 6 : 12; /* the plan */
        while (pbt_more(&st, steps, 60) && !error) {
            pbt_mark(); struct sub *s = N ? &S_[pbt_pick(N)] : NULL;
            unsigned lastop = (unsigned) pbt_pick(7); switch (lastop) {
                case 0: draing(); break;
                case 1: if (s) drain1(s); break;
                case 2: case 3: if (s && !s->forever && !barrier) pump(s, pbt_chance(1, 4) ? pbt_uniform(1, 20000) : pbt_size(1, 2000)); else if (s && s->isent < 3000) pump(s, pbt_size(1, 500)); break;
                case 4: __real_usleep((useconds_t) pbt_uniform(0, 2000)); break;
                case 5: fin(); break;
                case 6: if (s && mode <= 5 && !barrier && pbt_chance(1, 2)) { /* finish this child before the others get any further */
                    while (s->takes && s->isent < s->ilen && !s->ieof) { pump(s, 1 + pbt_uniform(0, 9000)); } seof(s); pbt_trace(" until child %d is finished", s->k); for (int i = 0; !cork_subprocess_is_finished(s->sp); i++) { CHECK(i < 25000, "child %d, which has all it needs, does not finish", s->k); bool p = drain1(s); CHECK(!cork_error_occurred(), "draining failed: %s", cork_error_message()); if (!p) __real_usleep(300); } pbt_label("one child finished before the others"); }
            }
            error = cork_error_occurred(); if (error) onebyone = lastop != 0;
        }
        if (mode <= 5 || mode == 8) {
            for (size_t i = 0; i < N && !error; i++) { struct sub *s = &S_[i]; if (s->forever && mode == 8) continue; while (s->takes && s->isent < s->ilen && !s->ieof && !error) { if (s->echo) { drain1(s); onebyone = true; } else if (pbt_chance(1, 4)) { draing(); onebyone = false; } error = cork_error_occurred(); if (!error) send(s, pbt_chance(1, 2) ? 30000 : pbt_size(1, 5000)); } if (!error && (s->needeof || pbt_chance(1, 2))) seof(s); }
            bool fails = mode == 8; bool hang = false; for (size_t i = 0; i < N; i++) hang |= S_[i].forever;
            if (!error) {
                onebyone = false; unsigned how = (unsigned) pbt_pick(3); if (hang) how = 1; if (how == 0) rc = waitall();
                else for (int i = 0; !fin() && rc == 0; i++) { bool p = draing(); if (cork_error_occurred()) rc = -1; if (!p) __real_usleep(100); if (hang && i > 100 && !cons_failed && !(read_err && reads >= read_err_at)) break; if (rc == 0 && how == 2 && i > 10 && !hang) { rc = waitall(); break; } }
                error = cork_error_occurred(); CHECK((rc != 0) == error, "collecting returned %d, with %s", rc, error ? cork_error_message() : "no error");
            }
            if (error) {
                CHECK(fails, "collecting failed: %s", cork_error_message()); bool rf = read_err && reads >= read_err_at; CHECK(cons_failed || rf, "collecting failed: %s", cork_error_message());
                CHECK((cons_failed && cork_error_code() == cons_err) || (rf && cork_error_code() == (cork_error) read_err), "the error is %u (%s)", (unsigned) cork_error_code(), cork_error_message()); cork_error_clear(); read_err = 0;
                if (G && onebyone) cork_subprocess_group_abort(G); if (!G) for (size_t i = 0; i < N; i++) cork_subprocess_abort(S_[i].sp); dead("an error"); pbt_label("failing consumer or read");
            } else {
                CHECK(!cons_failed, "a consumer's failure is not reported"); CHECK(!(read_err && reads >= read_err_at), "a failed read is not reported");
                if (fin()) { for (size_t i = 0; i < N; i++) complete(&S_[i], "collecting"); inherited(); dead("collecting"); pbt_label("complete"); if (barrier) pbt_label("children that wait for each other"); unsigned long before = activity; CHECK(waitall() == 0 && !draing() && activity == before, "a finished group is collected again"); if (G) CHECK(cork_subprocess_group_abort(G) == 0, "aborting a finished group failed"); }
                else { CHECK(hang, "the group is not finished"); goto abrt; }
            }
        } else {
abrt:       error = cork_error_occurred(); CHECK(!error, "an error is set: %s", cork_error_message());
            if (G) rc = cork_subprocess_group_abort(G); else for (size_t i = 0; i < N; i++) if ((rc = cork_subprocess_abort(S_[i].sp)) != 0) break;
            CHECK(rc == 0 && !cork_error_occurred(), "aborting failed: %s", cork_error_message()); dead("aborting"); pbt_label("aborted");
            CHECK(G ? cork_subprocess_group_abort(G) == 0 : true, "aborting again failed");
            if (mode != 8 && pbt_chance(1, 2)) { pbt_trace(" wait after the abort"); CHECK(waitall() == 0, "waiting after the abort failed: %s", cork_error_message()); CHECK(fin(), "the group is not finished after aborting and waiting"); for (size_t i = 0; i < N; i++) for (int f = 0; f < 2; f++) if (S_[i].has[f]) CHECK(S_[i].log[f].eof, "child %zu: no end of file after aborting and waiting", i); }
        }
    }
    inject = false; restore(); if (G) cork_subprocess_group_free(G); else for (size_t i = 0; i < N; i++) cork_subprocess_free(S_[i].sp);
    for (size_t i = 0; i < N; i++) CHECK(!S_[i].fn || S_[i].frees == 1, "the user data of child %zu is freed %u times", i, S_[i].frees); CHECK(fsx_open_fds() == fds, "%d descriptors are left open", fsx_open_fds() - fds); CHECK(gone(), "a child process is left");
    pbt_label(group ? "group" : "one by one"); if (faults) pbt_label("faults"); bool w = false; for (size_t i = 0; i < N; i++) w |= S_[i].isent > 0; if (w) pbt_label("stdin written"); if (N >= 2 || w) pbt_nontrivial();
}
