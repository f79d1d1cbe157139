/* Execution specs: a forked child runs the generated spec, whose program reports how it was started. */
#include "pbt.h"
#include "acct.h"
#include "fsx.h"
#include "util.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/os.h"
const char *pbt_rule = "a case is an execution spec (a program given absolutely, relatively or by name, 1 to 300 parameters, none or a new or cloned environment, none or a working directory) built by one of the three constructors, read back, and run in a forked child; the program reports its arguments, environment, directory and executable; non-trivial: the program ran with at least two parameters, an environment or a directory, or running it had to fail";
extern char **environ;
#define MAXP 6000
static char SC[600], BIN[640]; static char *par[MAXP]; static size_t npar; static char *envv[6000]; static size_t nenv; /* what the program should get */
static char prog[900], want_exe[900], want_cwd[900]; static int want_errno; static bool other_errno;
static struct cork_exec *X; static struct cork_env *E; static const char *cwd; static char cwdbuf[900];
static size_t base_live;
static char *sdup(const char *s) { size_t n = strlen(s) + 1; char *p = raw_malloc(n); memcpy(p, s, n); return p; }
static void copy(const char *from, const char *to, int mode)
{ char b[65536]; ssize_t n; int i = open(from, O_RDONLY), o = open(to, O_WRONLY | O_CREAT | O_TRUNC, 0700); if (i < 0 || o < 0) { perror(to); _exit(103); } while ((n = read(i, b, sizeof b)) > 0) if (write(o, b, (size_t) n) != n) _exit(103); close(i); close(o); chmod(to, (mode_t) mode); }
void pbt_init(void)
{
    acct_install(); const char *rep = util_tool("rep"); char r[4096]; snprintf(r, sizeof r, "%s", rep); snprintf(SC, sizeof SC, "%s", pbt_scratch()); char p[900];
    snprintf(BIN, sizeof BIN, "%s/bin", SC); mkdir(BIN, 0755); const char *d[] = { "p1", "p2", "p3" };
    for (int i = 0; i < 3; i++) { snprintf(p, sizeof p, "%s/%s", BIN, d[i]); mkdir(p, 0755); snprintf(p, sizeof p, "%s/%s/everywhere", BIN, d[i]); copy(r, p, 0755); }
    snprintf(p, sizeof p, "%s/p1/one", BIN); copy(r, p, 0755); snprintf(p, sizeof p, "%s/p2/two", BIN); copy(r, p, 0755); snprintf(p, sizeof p, "%s/p3/with space", BIN); copy(r, p, 0755);
    snprintf(p, sizeof p, "%s/p1/late", BIN); copy(r, p, 0644); snprintf(p, sizeof p, "%s/p3/late", BIN); copy(r, p, 0755); snprintf(p, sizeof p, "%s/p2/dir", BIN); mkdir(p, 0755); snprintf(p, sizeof p, "%s/p3/dir", BIN); copy(r, p, 0755);
    snprintf(p, sizeof p, "%s/p1/never", BIN); copy(r, p, 0644); snprintf(p, sizeof p, "%s/wd/sub", SC); char q[900]; snprintf(q, sizeof q, "%s/wd", SC); mkdir(q, 0755); mkdir(p, 0755); snprintf(p, sizeof p, "%s/wd/sub dir", SC); mkdir(p, 0755); snprintf(p, sizeof p, "%s/wd/link", SC); if (symlink("sub", p)) { }
    snprintf(p, sizeof p, "%s/wd/closed", SC); mkdir(p, 0755); chmod(p, 0); snprintf(p, sizeof p, "%s/wd/rep", SC); copy(r, p, 0755);
    fsx_init(); cork_error_set_string(1000, "first"); errno = ENOENT; cork_system_error_set(); cork_error_clear();
}
static void back(const char *when)
{
    CHECK(!strcmp(cork_exec_program(X), prog), "%s: the program is %s, expected %s", when, cork_exec_program(X), prog); size_t n = cork_exec_param_count(X); CHECK(n == npar, "%s: there are %zu parameters, expected %zu", when, n, npar);
    size_t dl = strlen(prog); for (size_t i = 0; i < npar; i++) { const char *q = cork_exec_param(X, i); CHECK(q && !strcmp(q, par[i]), "%s: parameter %zu is %s, expected %s", when, i, q ? pbt_quote(q, strlen(q)) : "missing", pbt_quote(par[i], strlen(par[i]))); if (i) dl += 1 + strlen(par[i]); }
    CHECK(cork_exec_env(X) == E, "%s: the environment is another one", when); const char *c = cork_exec_cwd(X); CHECK((c == NULL) == (cwd == NULL) && (!c || !strcmp(c, cwd)), "%s: the directory is %s, expected %s", when, c ? c : "none", cwd ? cwd : "none");
    const char *ds = cork_exec_description(X), *s = ds; CHECK(strlen(s) == dl, "%s: the description %s is wrong", when, pbt_quote(ds, strlen(ds))); CHECK(!strncmp(s, prog, strlen(prog)), "%s: the description %s is wrong", when, pbt_quote(ds, strlen(ds))); s += strlen(prog);
    for (size_t i = 1; i < npar; i++) { CHECK(*s == ' ' && !strncmp(s + 1, par[i], strlen(par[i])), "%s: the description %s is wrong", when, pbt_quote(ds, strlen(ds))); s += 1 + strlen(par[i]); }
}
static void child(void *u)
{
    (void) u; int fd = open("out", O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) _exit(103); dup2(fd, 1); close(fd); char d[900]; snprintf(d, sizeof d, "%s/wd", SC); if (chdir(d)) _exit(103);
    int rc = cork_exec_run(X);
    CHECK(rc == -1, "a run that failed returned %d", rc); CHECK(cork_error_occurred(), "the run failed without an error"); cork_error code = cork_error_code();
    CHECK(want_errno || other_errno, "the run failed: %s", cork_error_message()); if (!other_errno) CHECK(code == (cork_error) want_errno, "the run failed with error %u (%s), expected %d", (unsigned) code, cork_error_message(), want_errno); cork_error_clear();
    back("after the failed run"); cork_exec_free(X); CHECK(acct_live() == base_live, "%zu blocks are left allocated after a failed run, expected %zu", acct_live(), base_live); _exit(77);
}
static uint8_t rep[1 << 20]; static size_t rn, rp;
static const char *item(uint32_t *n) { CHECK(rp + 4 <= rn, "the report is cut short"); memcpy(n, rep + rp, 4); rp += 4; CHECK(rp + *n <= rn, "the report is cut short"); const char *s = (const char *) rep + rp; rp += *n; return s; }
static uint32_t num(void) { uint32_t n; CHECK(rp + 4 <= rn, "the report is cut short"); memcpy(&n, rep + rp, 4); rp += 4; return n; }
static void add(const char *s) { char *t = raw_malloc(strlen(s) + 1); strcpy(t, s); cork_exec_add_param(X, t); memset(t, 'z', strlen(t)); raw_free(t); par[npar++] = sdup(s); }
static const char *ptext(void)
{
    static char big[70001];
    switch (pbt_pick(6)) { case 0: return ""; case 1: { static const char *const w[] = { "-n", "--", "a b", "\"", "$HOME", "*", "\\", "\xff\x01", "a=b", "\n", ";" }; return w[pbt_pick(11)]; }
        case 2: if (pbt_uniform(0, 19) == 7) { size_t n = pbt_uniform(1000, 70000); memset(big, 'p', n); big[n] = 0; return big; } /* fall through */
        default: return pbt_str(1, 6, "ab -=%"); }
}
void pbt_case(void)
{
    unsigned st = 0; for (size_t i = 0; i < npar; i++) raw_free(par[i]); for (size_t i = 0; i < nenv; i++) raw_free(envv[i]); npar = nenv = 0; cork_error_clear(); base_live = acct_live(); if (chdir(SC)) _exit(103);
    want_errno = 0; other_errno = false; E = NULL; cwd = NULL; snprintf(want_cwd, sizeof want_cwd, "%s/wd", SC);
    /* the path: the three directories in some order, maybe with others between */
    static const char *const ord[] = { "123", "132", "213", "231", "312", "321" }; const char *o = ord[pbt_pick(6)]; char path[4000], e[6000]; size_t pl = 0; int order[3];
    for (int i = 0; i < 3; i++) { order[i] = o[i] - '0'; if (pbt_chance(1, 4)) pl += (size_t) sprintf(path + pl, "%s%s/missing", i ? ":" : "", SC), pl += (size_t) sprintf(path + pl, ":%s/p%d", BIN, order[i]); else pl += (size_t) sprintf(path + pl, "%s%s/p%d", i ? ":" : "", BIN, order[i]); }
    unsigned kind = (unsigned) pbt_pick(10); bool bare = false; static const char *const nm[] = { "one", "two", "everywhere", "late", "dir", "with space" };
    const char *name = nm[pbt_pick(6)]; int at = 0; want_exe[0] = 0;
    for (int i = 0; i < 3 && !at; i++) { int d = order[i]; if (!strcmp(name, "everywhere") || (d == 1 && !strcmp(name, "one")) || (d == 2 && !strcmp(name, "two")) || (d == 3 && strcmp(name, "one") && strcmp(name, "two"))) at = d; }
    if (kind <= 3) { snprintf(prog, sizeof prog, "%s/p%d/%s", BIN, at, name); strcpy(want_exe, prog); pbt_label("absolute program"); }
    else if (kind <= 7) { snprintf(prog, sizeof prog, "%s", name); snprintf(want_exe, sizeof want_exe, "%s/p%d/%s", BIN, at, name); bare = true; pbt_label("program in the path"); }
    else if (kind == 8) { static const char *const rel[] = { "./rep", "sub/../rep", "../wd/rep" }; strcpy(prog, rel[pbt_pick(3)]); snprintf(want_exe, sizeof want_exe, "%s/wd/rep", SC); pbt_label("relative program"); }
    else switch (pbt_pick(5)) { case 0: snprintf(prog, sizeof prog, "%s/p1/missing", BIN); want_errno = ENOENT; break; case 1: strcpy(prog, "no-such-program"); want_errno = ENOENT; bare = true; break; case 2: snprintf(prog, sizeof prog, "%s/p1/never", BIN); want_errno = EACCES; break; case 3: snprintf(prog, sizeof prog, "%s/p2/dir", BIN); want_errno = EACCES; break; default: strcpy(prog, "never"); want_errno = EACCES; bare = true; }
    pbt_trace("program %s, PATH=%s", prog, path); char pb[900]; strcpy(pb, prog);
    /* the process environment */
    clearenv(); setenv("PATH", path, 1); size_t pe = pbt_pick(4); for (size_t i = 0; i < pe; i++) { char n[20]; snprintf(n, sizeof n, "P%zu", i); setenv(n, pbt_str(0, 5, "ab=% "), 1); }
    unsigned how = (unsigned) pbt_pick(3);
    if (how == 0) { X = cork_exec_new(pb); memset(pb, 'z', strlen(pb)); add(pbt_chance(1, 2) ? prog : ptext()); }
    else if (how == 1) { const char *a[4] = { NULL, NULL, NULL, NULL }; size_t k = pbt_pick(5); char t[4][80]; for (size_t i = 0; i < k; i++) { snprintf(t[i], sizeof t[i], "%.70s", ptext()); a[i] = t[i]; }
        X = k == 0 ? cork_exec_new_with_params(pb, NULL) : k == 1 ? cork_exec_new_with_params(pb, a[0], NULL) : k == 2 ? cork_exec_new_with_params(pb, a[0], a[1], NULL) : k == 3 ? cork_exec_new_with_params(pb, a[0], a[1], a[2], NULL) : cork_exec_new_with_params(pb, a[0], a[1], a[2], a[3], NULL);
        memset(pb, 'z', strlen(pb)); par[npar++] = sdup(prog); for (size_t i = 0; i < k; i++) { par[npar++] = sdup(t[i]); memset(t[i], 'z', strlen(t[i])); } }
    else { char *a[20]; size_t k = 1 + pbt_size(0, 18); for (size_t i = 0; i < k; i++) { const char *t = ptext(); a[i] = sdup(t); par[npar++] = sdup(t); } a[k] = NULL; X = cork_exec_new_with_param_array(pb, a); memset(pb, 'z', strlen(pb)); for (size_t i = 0; i < k; i++) { memset(a[i], 'z', strlen(a[i])); raw_free(a[i]); } }
    pbt_trace("%s, %zu parameters", how == 0 ? "new" : how == 1 ? "new with params" : "new with array", npar); back("after creation");
    bool many = pbt_uniform(0, 29) == 13; if (pbt_large(60)) { size_t k = pbt_uniform(300, 5500); pbt_label("thousands of parameters"); pbt_trace("%zu more parameters", k); for (size_t i = 0; i < k; i++) { char t[24]; snprintf(t, sizeof t, "%zu", i * 7919 % 100003); add(t); } many = true; }
    while (npar < (many ? 300 : 40) && pbt_more(&st, many ? 100 : 3, 260)) { pbt_mark(); add(ptext()); }
    for (size_t i = 0; i < npar && i < 30; i++) pbt_trace("  parameter %zu: %s", i, pbt_quote(par[i], strlen(par[i]) > 60 ? 60 : strlen(par[i])));
    for (int round = 0; round < 2; round++) { /* set the environment and directory, maybe again */
        if (pbt_chance(1, 2)) {
            for (size_t i = 0; i < nenv; i++) raw_free(envv[i]); nenv = 0; E = pbt_chance(1, 2) ? cork_env_new() : cork_env_clone_current(); cork_exec_set_env(X, E);
            bool clone = cork_env_get(E, "PATH") != NULL; pbt_trace("%s environment", clone ? "a cloned" : "a new"); if (clone) for (char **q = environ; *q; q++) envv[nenv++] = sdup(*q);
            else { cork_env_add(E, "PATH", path); snprintf(e, sizeof e, "PATH=%s", path); envv[nenv++] = sdup(e); }
            size_t k = pbt_large(60) ? pbt_uniform(12, 3000) : pbt_size(0, 12); if (k > 12) pbt_label("thousands of variables"); for (size_t i = 0; i < k; i++) { char n[24]; snprintf(n, sizeof n, "E%zu", i); const char *v = pbt_str(0, 5, "ab=% "); cork_env_add(E, n, v); snprintf(e, sizeof e, "%s=%s", n, v); envv[nenv++] = sdup(e); pbt_trace("  %s", e); }
            if (pe && clone && pbt_chance(1, 3)) { cork_env_remove(E, "P0"); for (size_t i = 0; i < nenv; i++) if (!strncmp(envv[i], "P0=", 3)) { raw_free(envv[i]); envv[i] = envv[--nenv]; } }
        }
        if (pbt_chance(1, 2)) {
            char c[900]; int ce = 0;
            switch (pbt_pick(9)) { case 0: snprintf(c, sizeof c, "%s/wd/sub", SC); break; case 1: strcpy(c, "sub"); break; case 2: strcpy(c, "sub dir"); break; case 3: strcpy(c, ".."); break; case 4: strcpy(c, "."); break; case 5: strcpy(c, "/"); break; case 6: strcpy(c, "link"); break;
                case 7: strcpy(c, "sub/../.."); break; default: { static const char *const b[] = { "missing", "rep", "closed", "" }; static const int be[] = { ENOENT, ENOTDIR, EACCES, ENOENT }; size_t k = pbt_pick(4); strcpy(c, b[k]); ce = be[k]; } }
            strcpy(cwdbuf, c); cork_exec_set_cwd(X, c); cwd = cwdbuf; pbt_trace("directory %s", c);
            if (pbt_chance(1, 8)) cork_exec_set_cwd(X, cork_exec_cwd(X));
            memset(c, 'z', strlen(c));
        }
    }
    int ce = 0;
    if (cwd) {
        char full[1600]; if (cwd[0] == '/') strcpy(full, cwd); else snprintf(full, sizeof full, "%s/wd/%s", SC, cwd);
        if (!*cwd || !strcmp(cwd, "missing")) ce = ENOENT; else if (!strcmp(cwd, "rep")) ce = ENOTDIR; else if (!strcmp(cwd, "closed")) ce = EACCES;
        else { char *r = realpath(full, NULL); if (!r) _exit(103); strcpy(want_cwd, r); free(r); }
        if (kind == 8) { /* whether a relative program is found before or after changing directory is not specified */ strcpy(cwdbuf, "."); cork_exec_set_cwd(X, "."); ce = 0; snprintf(want_cwd, sizeof want_cwd, "%s/wd", SC); }
    }
    if (ce) { if (want_errno && want_errno != ce) other_errno = true; want_errno = ce; }
    (void) bare; back("before running"); bool fails = want_errno != 0 || other_errno;
    if (pbt_chance(1, 8)) { pbt_trace("not run"); cork_exec_free(X); return; }
    int s = pbt_in_child(child, NULL, true); if (chdir(SC)) _exit(103);
    if (WIFEXITED(s) && WEXITSTATUS(s) == 103) _exit(103);
    if (fails) { CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 77, "a spec that cannot be run ended with status %#x", (unsigned) s); pbt_label("cannot run"); pbt_nontrivial(); }
    else {
        CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 42, "the run ended with status %#x", (unsigned) s); char po[900]; snprintf(po, sizeof po, "%s/out", SC); int fd = open(po, O_RDONLY); ssize_t n = fd < 0 ? -1 : read(fd, rep, sizeof rep); if (fd >= 0) close(fd); CHECK(n >= 8 && !memcmp(rep, "REP1", 4), "no report"); rn = (size_t) n; rp = 4;
        uint32_t c = num(), l; CHECK(c == npar, "the program got %u arguments, expected %zu", c, npar);
        for (uint32_t i = 0; i < c; i++) { const char *a = item(&l); CHECK(l == strlen(par[i]) && !memcmp(a, par[i], l), "argument %u is %s, expected %s", i, pbt_quote(a, l), pbt_quote(par[i], strlen(par[i]))); }
        if (!E) for (char **q = environ; *q; q++) envv[nenv++] = sdup(*q);
        c = num(); CHECK(c == nenv, "the program got %u variables, expected %zu", c, nenv);
        for (uint32_t i = 0; i < c; i++) { const char *a = item(&l); bool ok = false; for (size_t j = 0; j < nenv; j++) ok |= strlen(envv[j]) == l && !memcmp(envv[j], a, l); CHECK(ok, "the program got the variable %s", pbt_quote(a, l)); }
        const char *a = item(&l); CHECK(l == strlen(want_cwd) && !memcmp(a, want_cwd, l), "the program ran in %s, expected %s", pbt_quote(a, l), want_cwd); a = item(&l); CHECK(l == strlen(want_exe) && !memcmp(a, want_exe, l), "the program %s ran, expected %s", pbt_quote(a, l), want_exe);
        CHECK(rp + 4 == rn && !memcmp(rep + rp, "DONE", 4), "the report goes on");
        if (E) pbt_label("environment set"); if (cwd) pbt_label("directory set"); if (npar >= 2 || E || cwd) pbt_nontrivial();
    }
    back("after running in a child"); cork_exec_free(X);
}
