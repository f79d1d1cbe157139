/* One subprocess at a time: output, end of file and exit code, however it is collected. */
const char *pbt_rule = "a case is a child (a function or a program, with generated writes to stdout and stderr of up to 400000 bytes, sleeps, early closes, stdin and exit status) collected by waiting, draining, polling or a mixture, with generated short reads, interruptions and late exits; non-trivial: the child wrote something that was collected";
#include "subproc.h"
void pbt_case(void)
{
    setup(); N = 1; unsigned st = 0; struct sub *s = &S_[0]; int fds = fsx_open_fds(); faults_gen(pbt_chance(1, 2)); gen(s, 0, false, false, false); make(s); s->log[0].fail_at = s->log[1].fail_at = 0; bool fails = false;
    if (!s->takes && !s->early && pbt_chance(1, 5)) { /* a failing consumer or read: reported, and nothing is left running */
        fails = true; cons_err = 0x30000 + 7; int i = pbt_chance(1, 3); if (pbt_chance(1, 4)) { static const int e[] = { EIO, EBADF, EINVAL }; read_err = e[pbt_pick(3)]; read_err_at = 1 + pbt_size(0, 6); pbt_trace("read %zu fails", read_err_at); } else if (s->has[i]) { s->log[i].fail_at = 1 + (long) pbt_size(0, 3); pbt_trace("the %s consumer fails at call %ld", i ? "stderr" : "stdout", s->log[i].fail_at); } }
    CHECK(!cork_error_occurred(), "an error is set"); redirect(); inject = true; int rc = cork_subprocess_start(s->sp); CHECK(rc == 0, "starting failed: %s", cork_error_message());
    if (s->early) { pbt_trace(" end of file on stdout is awaited before the child's input is sent"); for (int i = 0; !s->log[0].eof; i++) { CHECK(i < 20000, "no end of file arrives for stdout, which the child has closed"); bool p = drain1(s); if (!p) __real_usleep(300); CHECK(!cork_error_occurred(), "draining failed: %s", cork_error_message()); } pbt_label("stdout closed early"); }
    /* what goes to its stdin comes first, drained in between */
    while (s->takes && !s->ieof && s->isent < s->ilen) { drain1(s); size_t n = pbt_chance(1, 3) ? 1 + pbt_uniform(0, 30000) : 1 + pbt_size(0, 5000); send(s, n); if (s->ilen - s->isent > 60000) send(s, 20000); }
    if (s->needeof || pbt_chance(1, 2)) { if (!s->ieof) { pbt_trace(" end of file to the child"); CHECK(cork_stream_consumer_eof(cork_subprocess_stdin(s->sp)) == 0, "end of file failed: %s", cork_error_message()); s->ieof = true; } }
    unsigned how = (unsigned) pbt_pick(4); static const char *const hn[] = { "waiting", "draining", "polling", "draining and waiting" }; pbt_trace("collected by %s", hn[how]);
    if (fails) {
        pbt_label("failing consumer or read"); for (int i = 0; ; i++) { if (how == 0 || (how == 3 && i > 5)) { rc = cork_subprocess_wait(s->sp); CHECK((rc != 0) == cork_error_occurred(), "waiting returned %d, with %s", rc, cork_error_occurred() ? cork_error_message() : "no error"); break; } if (cork_subprocess_is_finished(s->sp)) break; bool p = drain1(s); if (cork_error_occurred()) { rc = -1; break; } if (!p && how == 1) __real_usleep(100); }
        bool rf = read_err && reads >= read_err_at;
        if (rc == 0) { CHECK(!cons_failed, "a consumer's failure is not reported"); CHECK(!rf, "a failed read is not reported"); complete(s, hn[how]); }
        else { CHECK(rc == -1 && (cons_failed || rf), "%s failed: %s", hn[how], cork_error_message()); CHECK((cons_failed && cork_error_code() == cons_err) || (rf && cork_error_code() == (cork_error) read_err), "the error is %u (%s)", (unsigned) cork_error_code(), cork_error_message()); cork_error_clear(); pbt_nontrivial(); }
        read_err = 0; CHECK(gone(), "a child process is left after %s", rc ? "an error" : hn[how]); inject = false; restore(); cork_subprocess_free(s->sp); CHECK(!s->fn || s->frees == 1, "the user data is freed %u times", s->frees); CHECK(fsx_open_fds() == fds, "%d descriptors are left open", fsx_open_fds() - fds); return;
    }
    if (how == 3) while (pbt_more(&st, 3, 12)) { drain1(s); if (pbt_chance(1, 3)) __real_usleep((useconds_t) pbt_uniform(0, 1500)); CHECK(!cork_error_occurred(), "draining failed: %s", cork_error_message()); }
    if (how == 0 || how == 3) rc = cork_subprocess_wait(s->sp);
    else while (!cork_subprocess_is_finished(s->sp)) { bool p = drain1(s); if (cork_error_occurred()) { rc = -1; break; } if (!p && how == 1) __real_usleep(100); }
    CHECK(rc == 0, "%s failed: %s", hn[how], cork_error_message()); CHECK(!cork_error_occurred(), "an error is set: %s", cork_error_message());
    CHECK(cork_subprocess_is_finished(s->sp), "the subprocess is not finished after %s", hn[how]); CHECK(gone(), "a child process is left after %s", hn[how]); complete(s, hn[how]);
    unsigned long before = activity; int code = s->code; CHECK(cork_subprocess_wait(s->sp) == 0, "waiting again failed"); CHECK(!cork_subprocess_drain(s->sp), "draining a finished subprocess reports progress"); CHECK(cork_subprocess_abort(s->sp) == 0, "aborting a finished subprocess failed"); CHECK(activity == before && s->code == code, "a finished subprocess is collected again");
    inject = false; restore(); inherited(); cork_subprocess_free(s->sp); CHECK(!s->fn || s->frees == 1, "the user data is freed %u times", s->frees); CHECK(fsx_open_fds() == fds, "%d descriptors are left open", fsx_open_fds() - fds);
    pbt_label(s->fn ? "function" : "program"); pbt_label(hn[how]); if (faults) pbt_label("faults"); if (s->log[0].n > 65536) pbt_label("over 64 KiB"); if (s->log[0].n + s->log[1].n) pbt_nontrivial();
}
