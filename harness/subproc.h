/* Subprocesses: generated children, collected in generated ways, with faults in the system calls.  C34 and C35 include this. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "pbt.h"
#include "acct.h"
#include "fsx.h"
#include "util.h"
extern ssize_t __real_read(int, void *, size_t), __real_write(int, const void *, size_t); extern int __real_pipe(int *), __real_pipe2(int *, int), __real_usleep(useconds_t); extern pid_t __real_fork(void), __real_waitpid(pid_t, int *, int);
#define KID_READ __real_read
#define KID_WRITE __real_write
#define KID_SLEEP __real_usleep
#include "kid_actions.h"
#include "libcork/core.h"
#include "libcork/os.h"
#define MAXS 40
#define MAXA 60
static pid_t parent; static pid_t pids[64]; static size_t npids; static bool inject, isread[1024], iswrite[1024];
static struct { unsigned char act; unsigned n; } rs[128], ws[64]; static size_t nrs, ars, nws, aws; static unsigned notyet; static int read_err; static size_t read_err_at, reads; static long pipe_fail, fork_fail; static unsigned faults; static int pipe_errno; static bool quick_sleep;
enum { FULL, SHORT, INTR, AGAIN };
static void newpipe(int *p) { for (int i = 0; i < 2; i++) if (p[i] >= 0 && p[i] < 1024) { isread[p[i]] = i == 0; iswrite[p[i]] = i == 1; } }
int __wrap_pipe(int *p) { if (inject && getpid() == parent && pipe_fail > 0 && --pipe_fail == 0) { errno = pipe_errno; faults++; return -1; } int r = __real_pipe(p); if (inject && r == 0) newpipe(p); return r; }
int __wrap_pipe2(int *p, int f) { if (inject && getpid() == parent && pipe_fail > 0 && --pipe_fail == 0) { errno = pipe_errno; faults++; return -1; } int r = __real_pipe2(p, f); if (inject && r == 0) newpipe(p); return r; }
pid_t __wrap_fork(void) { if (inject && getpid() == parent && fork_fail > 0 && --fork_fail == 0) { errno = EAGAIN; faults++; return -1; } pid_t p = __real_fork(); if (inject && p > 0 && npids < 64) pids[npids++] = p; return p; }
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!inject || getpid() != parent || fd < 0 || fd >= 1024 || !isread[fd]) return __real_read(fd, b, n);
    if (read_err && ++reads >= read_err_at) { errno = read_err; return -1; }
    if (ars < nrs) { size_t i = ars++; if (rs[i].act == SHORT && rs[i].n < n) { faults++; n = rs[i].n; } else if (rs[i].act == INTR) { faults++; errno = EINTR; return -1; } else if (rs[i].act == AGAIN) { faults++; errno = EAGAIN; return -1; } }
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!inject || getpid() != parent || fd < 0 || fd >= 1024 || !iswrite[fd]) return __real_write(fd, b, n);
    if (aws < nws) { size_t i = aws++; if (ws[i].act == SHORT && ws[i].n < n) { faults++; n = ws[i].n; } else if (ws[i].act == INTR) { faults++; errno = EINTR; return -1; } }
    return __real_write(fd, b, n);
}
pid_t __wrap_waitpid(pid_t p, int *s, int f) { if (inject && getpid() == parent && f & WNOHANG && notyet) { notyet--; return 0; } return __real_waitpid(p, s, f); }
int __wrap_usleep(useconds_t u) { if (inject && getpid() == parent && quick_sleep && u > 300) u = 300; return __real_usleep(u); }
/* children and their consumers */
struct log { struct cork_stream_consumer c; struct sub *s; int fd; size_t n, alloc; uint8_t *b; long calls, fail_at; bool eof, failed, first; };
static struct sub {
    int k; bool fn, missing; struct act a[MAXA]; size_t na; struct log log[2]; bool has[2], hascode; int code, want; bool wantany; struct cork_subprocess *sp; unsigned frees; bool freed;
    uint8_t *out[2]; size_t on[2], oa[2]; unsigned oseed[2], iseed; size_t ilen, isent; bool ieof, needeof, takes, echo, broken, forever, needsall, early; const char *err; bool errloose;
} S_[MAXS];
static size_t N; static bool latebar; static cork_error cons_err; static bool cons_failed, tearing; static unsigned long activity;
static void lgrow(struct log *l, size_t n) { if (l->n + n > l->alloc) { l->alloc = (l->n + n) * 2; l->b = raw_realloc(l->b, l->alloc); } }
static int end(struct log *l) { activity++; if (++l->calls == l->fail_at) { l->failed = cons_failed = true; cork_error_set_printf(cons_err, "the consumer of child %d fails", l->s->k); return -1; } return 0; }
static int l_data(struct cork_stream_consumer *c, const void *b, size_t n, bool first)
{
    struct log *l = (struct log *) c; const char *w = l->fd == 1 ? "stdout" : "stderr"; int k = l->s->k; CHECK(getpid() == parent, "a consumer is called in another process");
    CHECK(!l->eof, "child %d: data on %s after end of file", k, w); CHECK(!l->failed, "child %d: data on %s after the consumer failed", k, w); CHECK(n > 0, "child %d: an empty chunk on %s", k, w); CHECK(first == !l->first, "child %d: a chunk of %s is %smarked first", k, w, first ? "" : "not "); l->first = true;
    struct sub *s = l->s; int i = l->fd - 1; size_t m = l->n + n <= s->on[i] ? n : s->on[i] > l->n ? s->on[i] - l->n : 0; if (m < n && !s->errloose) pbt_fail("child %d: %s has %zu bytes, expected %zu", k, w, l->n + n, s->on[i]);
    if (m && memcmp(b, s->out[i] + l->n, m)) { size_t j; for (j = 0; ((const uint8_t *) b)[j] == s->out[i][l->n + j]; j++) { } pbt_fail("child %d: byte %zu of %s is 0x%02x, expected 0x%02x", k, l->n + j, w, ((const uint8_t *) b)[j], s->out[i][l->n + j]); }
    lgrow(l, n); memcpy(l->b + l->n, b, n); l->n += n; return end(l);
}
static int l_eof(struct cork_stream_consumer *c) { struct log *l = (struct log *) c; CHECK(!l->eof, "child %d: end of file on %s twice", l->s->k, l->fd == 1 ? "stdout" : "stderr"); CHECK(!l->failed, "child %d: end of file on %s after the consumer failed", l->s->k, l->fd == 1 ? "stdout" : "stderr"); l->eof = true; return end(l); }
static void l_free(struct cork_stream_consumer *c) { (void) c; pbt_fail("a consumer of the caller's is freed"); }
static char rdv[700], kidpath[4200];
static int fn_run(void *u) { struct sub *s = u; kid_run(s->a, s->na, rdv); if (s->want != 0) { cork_error_set_printf(0x20001, "child %d fails", s->k); return pbt_tracing || s->k & 1 ? -1 : 1; } return 0; }
static void fn_free(void *u) { struct sub *s = u; CHECK(getpid() == parent, "user data is freed in another process"); s->frees++; }
static void oput(struct sub *s, int i, const void *b, size_t n) { if (s->on[i] + n > s->oa[i]) { s->oa[i] = (s->on[i] + n) * 2; s->out[i] = raw_realloc(s->out[i], s->oa[i]); } memcpy(s->out[i] + s->on[i], b, n); s->on[i] += n; }
static size_t opos[2];
static void owrite(struct sub *s, int i, size_t n) { for (size_t j = 0; j < n; j++) { uint8_t c = kid_byte(s->oseed[i], opos[i]++); oput(s, i, &c, 1); } }
static struct act *act(struct sub *s, char op, unsigned n, unsigned seed, unsigned chunk) { struct act *a = &s->a[s->na++]; a->op = op; a->n = n; a->seed = seed; a->chunk = chunk; return a; }
/* generates what child k does and what it should produce */
static void gen(struct sub *s, int k, bool group, bool barrier, bool allow_forever)
{
    uint8_t *keep[4] = { s->out[0], s->out[1], s->log[0].b, s->log[1].b }; size_t ka[4] = { s->oa[0], s->oa[1], s->log[0].alloc, s->log[1].alloc };
    memset(s, 0, sizeof *s); s->out[0] = keep[0]; s->out[1] = keep[1]; s->oa[0] = ka[0]; s->oa[1] = ka[1]; s->k = k; s->code = -12345; opos[0] = opos[1] = 0;
    for (int i = 0; i < 2; i++) { struct log *l = &s->log[i]; l->c.data = l_data; l->c.eof = l_eof; l->c.free = l_free; l->s = s; l->fd = i + 1; l->b = keep[2 + i]; l->alloc = ka[2 + i]; s->has[i] = !pbt_chance(1, 6); }
    s->hascode = !pbt_chance(1, 8); s->fn = pbt_chance(1, 2); s->oseed[0] = 1 + (unsigned) pbt_pick(200); s->oseed[1] = s->oseed[0] + 17; s->iseed = s->oseed[0] + 5; unsigned st = 0;
    if (!s->fn && !barrier && pbt_chance(1, 12)) { s->missing = true; s->wantany = true; s->errloose = true; pbt_trace("child %d: a program that does not exist", k); pbt_label("missing program"); return; }
    pbt_trace("child %d: %s%s%s%s", k, s->fn ? "function" : "program", s->has[0] ? "" : ", stdout inherited", s->has[1] ? "" : ", stderr inherited", s->hascode ? "" : ", exit code not wanted");
    bool late = barrier && latebar; if (late && pbt_chance(1, 2)) { /* a lot to say before it waits for the others: whoever waits for them all must listen to it meanwhile */
        int i = pbt_chance(1, 3); size_t n = pbt_chance(1, 2) ? pbt_uniform(60000, 200000) : pbt_size(0, 5000); act(s, i ? 'e' : 'o', (unsigned) n, s->oseed[i], 8192); owrite(s, i, n); pbt_label("output before waiting for the others"); }
    if (barrier) act(s, 'b', (unsigned) N, 0, 0);
    /* its stdin */
    unsigned in = group || pbt_chance(1, 3) ? (unsigned) pbt_pick(6) : 0; bool big = pbt_chance(1, 6); size_t early = big ? 12000 : 3000; bool huge = N <= MAXS / 6 && pbt_large(100); if (huge) pbt_label("megabytes");
    if (s->has[0] && pbt_chance(1, 8)) { in = 2; s->early = s->takes = true; s->ilen = 1; } else if (in >= 2) { s->takes = true; s->ilen = pbt_chance(1, 5) && !late ? pbt_uniform(0, 150000) : pbt_size(0, 3000); }
    bool hug = s->takes ? false : big;
    while (pbt_more(&st, 3, 10)) {
        switch (pbt_pick(5)) {
            case 0: act(s, 's', (unsigned) pbt_uniform(1, 30), 0, 0); break;
            case 1: case 2: case 3: case 4: { int i = pbt_chance(1, 3); size_t n = hug ? pbt_uniform(0, 120000) : pbt_size(0, early); static const size_t ed[] = { 4095, 4096, 4097, 8192, 65536, 65537, 1 }; if (pbt_chance(1, 6)) n = ed[pbt_pick(s->takes ? 3 : 7)]; if (huge && !s->takes) n = pbt_uniform(0, 3000000); if (s->on[i] + n > (s->takes ? 30000 : huge ? 8000000 : 400000)) break;
                unsigned ch = (unsigned) pbt_uniform(0, 3) == 0 ? 1 + (unsigned) pbt_pick(300) : 8192; if (n > 20000) ch = 8192; act(s, i ? 'e' : 'o', (unsigned) n, s->oseed[i], ch); owrite(s, i, n); break; }
        }
    }
    if (s->takes) {
        if (s->early) { act(s, 'O', 0, 0, 0); act(s, 'r', 1, s->iseed, 0); s->needsall = true; }
        else if (in == 2) { unsigned n = (unsigned) pbt_uniform(0, s->ilen); if (pbt_chance(1, 2)) n = (unsigned) s->ilen; if (n) act(s, 'r', n, s->iseed, 0); s->needsall = n > 0; s->broken = n < s->ilen; }
        else if (in == 3 || in == 4) { act(s, 'R', 0, s->iseed, pbt_chance(1, 3) ? 1 + (unsigned) pbt_pick(5000) : 8192); char b[60]; int l = snprintf(b, sizeof b, "[%zu bytes, right]", s->ilen); oput(s, 0, b, (size_t) l); s->needeof = true; }
        else { if (s->ilen > 40000 && (nrs || !s->has[0])) s->ilen = 40000; act(s, 'E', 0, s->iseed, pbt_chance(1, 3) ? 1 + (unsigned) pbt_pick(5000) : 8192); for (size_t j = 0; j < s->ilen; j++) { uint8_t c = kid_byte(s->iseed, j); oput(s, 0, &c, 1); } s->needeof = s->echo = true; }
        if (pbt_chance(1, 2)) { size_t n = pbt_size(0, 3000); act(s, 'e', (unsigned) n, s->oseed[1], 8192); owrite(s, 1, n); }
    } else if (pbt_chance(1, 6)) act(s, 'I', 0, 0, 0);
    if (!s->early && pbt_chance(1, 8)) { act(s, 'O', 0, 0, 0); if (pbt_chance(1, 2)) act(s, 's', 20, 0, 0); if (pbt_chance(1, 2)) { act(s, 'e', 100, s->oseed[1], 8192); owrite(s, 1, 100); } }
    if (pbt_chance(1, 10)) { act(s, '2', 0, 0, 0); s->errloose = false; }
    if (allow_forever && pbt_chance(1, 2)) { s->forever = true; act(s, 'f', 0, 0, 0); }
    else if (s->fn && pbt_chance(1, 3)) { s->want = 1; s->wantany = true; s->errloose = true; }
    else if (pbt_chance(1, 2)) { s->want = (int) pbt_u64(0, 240); act(s, 'x', (unsigned) s->want, 0, 0); }
    for (size_t i = 0; i < s->na; i++) pbt_trace("   %c %u", s->a[i].op, s->a[i].n);
    if (s->takes) pbt_trace("   stdin: %zu bytes%s", s->ilen, s->needeof ? " and end of file" : "");
}
static void make(struct sub *s)
{
    struct cork_stream_consumer *o = s->has[0] ? &s->log[0].c : NULL, *e = s->has[1] ? &s->log[1].c : NULL; int *c = s->hascode ? &s->code : NULL;
    if (s->fn) { s->sp = cork_subprocess_new(s, fn_free, fn_run, o, e, c); return; }
    struct cork_exec *x; if (s->missing) x = cork_exec_new_with_params("/no/such/program", "x", NULL);
    else { x = cork_exec_new(kidpath); cork_exec_add_param(x, kidpath); cork_exec_add_param(x, rdv); for (size_t i = 0; i < s->na; i++) { char t[80]; snprintf(t, sizeof t, "%c:%u:%u:%u", s->a[i].op, s->a[i].n, s->a[i].seed, s->a[i].chunk); cork_exec_add_param(x, t); } }
    s->sp = cork_subprocess_new_exec(x, o, e, c);
}
static bool gone(void) { int st; return __real_waitpid(-1, &st, WNOHANG) == -1 && errno == ECHILD; }
/* the complete outcome of a child that has been collected */
static void complete(struct sub *s, const char *how)
{
    for (int i = 0; i < 2; i++) {
        struct log *l = &s->log[i]; const char *w = i ? "stderr" : "stdout"; if (!s->has[i]) { CHECK(l->calls == 0, "child %d: a consumer that was not given is called", s->k); continue; }
        CHECK(l->eof, "child %d: no end of file on %s after %s", s->k, w, how); bool loose = i == 1 && s->errloose;
        CHECK(loose ? l->n >= s->on[i] : l->n == s->on[i], "child %d: %zu bytes of %s after %s, expected %zu", s->k, l->n, w, how, s->on[i]);
    }
    if (s->hascode) { if (s->wantany) CHECK(s->code > 0 && s->code < 256, "child %d: the exit code is %d after %s, the child failed", s->k, s->code, how); else CHECK(s->code == s->want, "child %d: the exit code is %d after %s, expected %d", s->k, s->code, how, s->want); }
    else CHECK(s->code == -12345, "the exit code is stored");
}
static int save1 = -1, save2 = -1;
static void redirect(void)
{
    fflush(stdout); fflush(stderr); save1 = fcntl(1, F_DUPFD_CLOEXEC, 500); save2 = fcntl(2, F_DUPFD_CLOEXEC, 500); int o = open("inherited1", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600), e = open("inherited2", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); if (o < 0 || e < 0) _exit(103);
    bool n2 = false, n1 = false; for (size_t i = 0; i < N; i++) { n1 |= !S_[i].has[0]; n2 |= !S_[i].has[1]; } if (n1) dup2(o, 1); if (n2) dup2(e, 2); close(o); close(e);
}
static void restore(void) { if (save1 >= 0) { dup2(save1, 1); close(save1); } if (save2 >= 0) { dup2(save2, 2); close(save2); } save1 = save2 = -1; }
static void inherited(void)
{
    for (int i = 0; i < 2; i++) {
        size_t want = 0, who = 0, cnt = 0; bool loose = false; for (size_t k = 0; k < N; k++) if (!S_[k].has[i]) { want += S_[k].on[i]; who = k; cnt++; loose |= i == 1 && S_[k].errloose; }
        if (!cnt) continue; pbt_label("inherited stream"); struct stat sb; const char *f = i ? "inherited2" : "inherited1"; if (stat(f, &sb)) _exit(103);
        CHECK(loose ? (size_t) sb.st_size >= want : (size_t) sb.st_size == want, "%lld bytes are written to the inherited %s, expected %zu", (long long) sb.st_size, i ? "stderr" : "stdout", want);
        if (cnt == 1) { uint8_t *b = raw_malloc(want + 1); int fd = open(f, O_RDONLY); if (__real_read(fd, b, want) != (ssize_t) want) _exit(103); close(fd); CHECK(!memcmp(b, S_[who].out[i], want), "what child %zu wrote to the inherited %s is wrong", who, i ? "stderr" : "stdout"); raw_free(b); }
    }
}
/* drains one child, checking what the call says about its progress */
static bool drain1(struct sub *s)
{
    unsigned long before = activity; bool fin = cork_subprocess_is_finished(s->sp); bool p = cork_subprocess_drain(s->sp); if (p) pbt_trace(" drain child %d: progress", s->k);
    if (cork_error_occurred()) return p;
    if (fin) { CHECK(activity == before, "draining a finished subprocess calls a consumer"); CHECK(!p, "draining a finished subprocess reports progress"); } else { if (activity != before) CHECK(p, "a drain that delivered something reports no progress"); if (cork_subprocess_is_finished(s->sp)) CHECK(p, "the drain that finished a subprocess reports no progress"); }
    return p;
}
static void send(struct sub *s, size_t n)
{
    if (!s->takes || s->ieof) return; if (n > s->ilen - s->isent) n = s->ilen - s->isent; if (s->echo && n > 16000) n = 16000; if (n == 0) return;
    uint8_t *b = raw_malloc(n); for (size_t i = 0; i < n; i++) b[i] = kid_byte(s->iseed, s->isent + i); pbt_trace(" %zu bytes to child %d", n, s->k);
    int rc = cork_stream_consumer_data(cork_subprocess_stdin(s->sp), b, n, s->isent == 0); memset(b, 0, n); raw_free(b);
    if (rc != 0) { CHECK(cork_error_occurred(), "writing to stdin failed without an error"); CHECK(s->broken && cork_error_code() == EPIPE, "writing to child %d's stdin failed: %s", s->k, cork_error_message()); cork_error_clear(); s->ieof = true; s->isent = s->ilen; pbt_label("stdin closed by the child"); return; }
    CHECK(!cork_error_occurred(), "an error is set"); s->isent += n;
}
static void seof(struct sub *s) { if (!s->takes || s->needeof ? s->ieof : false) return; if (s->ieof) return; pbt_trace(" end of file to child %d", s->k); int rc = cork_stream_consumer_eof(cork_subprocess_stdin(s->sp)); CHECK(rc == 0, "end of file to child %d failed: %s", s->k, cork_error_message()); s->ieof = true; }
static void faults_gen(bool f)
{
    unsigned st = 0; nrs = ars = nws = aws = 0; notyet = 0; read_err = 0; reads = 0; pipe_fail = fork_fail = 0; faults = 0; if (!f) return;
    while (nrs < 120 && pbt_more(&st, 6, 100)) { static const unsigned char a[] = { FULL, FULL, SHORT, SHORT, INTR, AGAIN }; rs[nrs].act = a[pbt_pick(6)]; rs[nrs].n = 1 + (unsigned) pbt_size(0, 4000); nrs++; }
    st = 0; while (nws < 60 && pbt_more(&st, 4, 50)) { static const unsigned char a[] = { FULL, SHORT, INTR }; ws[nws].act = a[pbt_pick(3)]; ws[nws].n = 1 + (unsigned) pbt_size(0, 4000); nws++; }
    if (pbt_chance(1, 3)) notyet = (unsigned) pbt_size(0, 20);
}
void pbt_init(void)
{
    signal(SIGPIPE, SIG_IGN); snprintf(kidpath, sizeof kidpath, "%s/kid", pbt_scratch()); const char *k = util_tool("kid"); int i = open(k, O_RDONLY), o = open(kidpath, O_WRONLY | O_CREAT | O_TRUNC, 0755); char b[65536]; ssize_t n; if (i < 0 || o < 0) _exit(103); while ((n = __real_read(i, b, sizeof b)) > 0) if (__real_write(o, b, (size_t) n) != n) _exit(103); close(i); close(o); chmod(kidpath, 0755);
    acct_install(); fsx_init(); cork_error_set_string(1000, "first"); errno = ENOENT; cork_system_error_set(); cork_error_clear(); snprintf(rdv, sizeof rdv, "%s/rendezvous", pbt_scratch());
}
static void setup(void)
{
    int st; parent = getpid(); inject = false; npids = 0; memset(isread, 0, sizeof isread); memset(iswrite, 0, sizeof iswrite); cons_err = 0x30000; cons_failed = false; cork_error_clear(); fsx_fresh("c"); while (__real_waitpid(-1, &st, WNOHANG) > 0) { }
    int fd = open(rdv, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) _exit(103); close(fd); pbt_set_timeout(15); quick_sleep = true;
}
