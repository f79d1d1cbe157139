/* Command lines: generated command trees and argument vectors against a reference dispatcher. */
#include "pbt.h"
#include "acct.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libcork/cli.h"
#include "libcork/core.h"
const char *pbt_rule = "a case is a tree of up to 14 command sets and leaf commands (names that are prefixes of one another, equal names, names like help, NULL or present descriptions with percent signs, with or without option parsers) and an argument vector grown from the tree (command names at every level, options, help requests, unknown names, stray arguments), dispatched in a fresh process; compared with a reference dispatcher: which parsers and which body ran, with which arguments, what was printed (spaces apart) and the exit status; non-trivial: at least one argument and two commands";
#define NC 64
#define NA 120
static struct cork_command *C[NC]; static int nc; static struct cork_command *sets[NC][NC + 1]; static int nsub[NC]; static int leafdo[NC];
static char *av[NA + 2]; static int ac;
enum { PARSE, BODY };
struct log { int n; struct { int what, cmd, argc, first; } e[400]; int bad; };
static struct log *L, want;
static int fd_out; static size_t base; static bool in_case; static int status_;
static void record(int what, int cmd, int argc, char **argv)
{
    if (L->n >= 400) { L->bad = 1; _exit(90); }
    int first = -1;
    for (int i = 0; i <= ac; i++) if (argv == av + i) first = i;
    if (first < 0 || first + argc != ac) {       /* another vector with the same content is as good */
        L->bad = 1; if (argc >= 0 && argc <= ac) { L->bad = 0; for (int i = 0; i < argc; i++) if (!argv[i] || strcmp(argv[i], av[ac - argc + i]) != 0) L->bad = 1; first = ac - argc; } }
    L->e[L->n].what = what; L->e[L->n].cmd = cmd; L->e[L->n].argc = argc; L->e[L->n++].first = first;
}
static int leading(int argc, char **argv)     /* an option parser's rule: argv[0], then options; "--value" takes the argument after it, "--" ends the options */
{
    int i = 1; if (argc == 0) return 0;
    while (i < argc && argv[i][0] == '-' && strcmp(argv[i], "--stop") != 0) {
        const char *o = argv[i++];
        if (strcmp(o, "--") == 0) break;
        if (strcmp(o, "--value") == 0 && i < argc) i++;
    }
    return i;
}
static void bad_option(int i) { cork_command_show_help(C[i], "Bad option 100%."); exit(EXIT_FAILURE); }
static int parse(int i, int argc, char **argv)
{ record(PARSE, i, argc, argv); int k = leading(argc, argv); for (int j = 1; j < k; j++) if (strcmp(argv[j], "--bad") == 0) bad_option(i); return k; }
static void body(int i, int argc, char **argv)
{
    record(BODY, i, argc, argv);
    if (leafdo[i] == 1) exit(7);
    if (leafdo[i] == 2 && argc < 1) { cork_command_show_help(C[i], "Missing %s."); exit(EXIT_FAILURE); }
    if (leafdo[i] == 3) cork_command_show_help(C[i], NULL);
}
#define F(n) static int p##n(int c, char **v) { return parse(n, c, v); } static void b##n(int c, char **v) { body(n, c, v); }
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47) X(48) X(49) X(50) X(51) X(52) X(53) X(54) X(55) X(56) X(57) X(58) X(59) X(60) X(61) X(62) X(63)
ALL(F)
#define P_(n) p##n,
#define B_(n) b##n,
static int (*const pf[NC])(int, char **) = { ALL(P_) };
static void (*const bf[NC])(int, char **) = { ALL(B_) };

/*---- the reference ----*/
static char expect[200000]; static size_t elen; static char crumbs[60000];
static void out(const char *s) { size_t n = strlen(s); if (elen + n + 1 > sizeof expect) _exit(103); memcpy(expect + elen, s, n + 1); elen += n; }
static int idx(struct cork_command *c) { for (int i = 0; i < nc; i++) if (C[i] == c) return i; return -1; }
static int verbatim = -1, listed = -1;
static void ref_help(int c, const char *msg)
{
    if (msg) { out(msg); out("\n"); }
    out("Usage:"); out(crumbs);
    if (C[c]->type == CORK_COMMAND_SET) {
        listed = c;
        out(" <command> [<options>]\n\nAvailable commands:\n");
        for (int k = 0; k < nsub[c]; k++) { out("  "); out(sets[c][k]->name); if (sets[c][k]->short_desc) { out("  "); out(sets[c][k]->short_desc); } out("\n"); }
    } else {
        if (C[c]->usage_suffix) { out(" "); out(C[c]->usage_suffix); }
        if (C[c]->full_help) { out("\n\n"); out(C[c]->full_help); verbatim = c; } else out("\n");
    }
}
static void ref_unknown(const char *n) { out("Unknown command \""); out(n); out("\".\nUsage:"); out(crumbs); out(" <command> [<options>]\n"); }
static int ref_find(int c, const char *n) { for (int k = 0; k < nsub[c]; k++) if (strcmp(sets[c][k]->name, n) == 0) return idx(sets[c][k]); return -1; }
static void crumb(int c) { strcat(strcat(crumbs, " "), C[c]->name); }
static void ref_log(int what, int cmd, int first) { want.e[want.n].what = what; want.e[want.n].cmd = cmd; want.e[want.n].argc = ac - first; want.e[want.n++].first = first; }
static int ref_run(void)
{
    int c = 0, at = 0;
    for (;;) {
        crumb(c);
        if (at + 1 < ac && (strcmp(av[at + 1], "--help") == 0 || strcmp(av[at + 1], "-h") == 0)) { pbt_label("help option"); ref_help(c, NULL); return 0; }
        if (C[c]->parse_options) {
            ref_log(PARSE, c, at); int k = leading(ac - at, av + at);
            for (int j = 1; j < k; j++) if (strcmp(av[at + j], "--bad") == 0) { pbt_label("bad option"); ref_help(c, "Bad option 100%."); return EXIT_FAILURE; }
            at += k;
        } else at++;
        if (C[c]->type == CORK_LEAF_COMMAND) {
            ref_log(BODY, c, at); pbt_label("leaf command runs");
            if (leafdo[c] == 1) return 7;
            if (leafdo[c] == 2 && ac - at < 1) { ref_help(c, "Missing %s."); return EXIT_FAILURE; }
            if (leafdo[c] == 3) ref_help(c, NULL);
            return 0;
        }
        if (at >= ac) { pbt_label("no command given"); out("No command given.\n"); ref_help(c, NULL); return EXIT_FAILURE; }
        if (strcmp(av[at], "help") == 0) {
            pbt_label("help command");
            for (at++; at < ac && C[c]->type == CORK_COMMAND_SET; at++) {
                int s = ref_find(c, av[at]); if (s < 0) { pbt_label("help for an unknown command"); ref_unknown(av[at]); return EXIT_FAILURE; }
                crumb(s); c = s;
            }
            ref_help(c, NULL); return 0;
        }
        int s = ref_find(c, av[at]);
        if (s < 0) { pbt_label("unknown command"); ref_unknown(av[at]); return EXIT_FAILURE; }
        c = s;
    }
}
static void squeeze(char *s)
{
    char *b = s, *o = s; bool sp = true;
    for (; *s; s++) { if (*s == ' ' || *s == '\n' || *s == '\t') { if (!sp) *o++ = ' '; sp = true; } else { *o++ = *s; sp = false; } }
    if (o > b && o[-1] == ' ') o--;
    *o = 0;
}
static void last(void)
{
    if (!in_case) return;
    fflush(stdout);
    if (acct_live() > base) pbt_fail("after the exit handlers, %zu blocks of the library are still allocated", acct_live() - base);
    _exit(status_);
}
static void note_status(int st, void *arg) { status_ = st; }
static void child(void *v)
{
    in_case = true; dup2(fd_out, 1); on_exit(note_status, NULL);
    exit(cork_command_main(C[0], ac, av));
}
static const char *text(bool multi)
{
    static const char *const t[] = { "<file>", "Prints 100% of it", "a %s b %d", "x", "Adds an element to a set" };
    if (pbt_chance(1, 5)) return NULL;
    if (!multi) return t[pbt_pick(5)];
    static const char *const m[] = { "Full help.\n", "First line,\n  second line with 5% and %n.\n", "One\nTwo\n\nThree\n" };
    return m[pbt_pick(3)];
}
static const char *name(void)
{
    static const char *const names[] = { "a", "ab", "abc", "b", "add", "addx", "print", "avro", "help", "x%s", "-o", "list-long-command-name" };
    if (pbt_chance(1, 60)) { static char lng[4][700]; static int k; char *o = lng[k = (k + 1) & 3]; size_t n = pbt_uniform(30, 600); if (*o) return o; memset(o, 'n', n); o[n] = 0; return o; }
    return names[pbt_pick(pbt_chance(1, 6) ? 12 : 8)];
}
void pbt_init(void)
{
    acct_install(); acct_check_leaks = false; base = acct_live();
    L = mmap(NULL, sizeof *L, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fd_out = memfd_create("out", 0);
    if (L == MAP_FAILED || fd_out < 0) _exit(103);
    atexit(last);
}
void pbt_case(void)
{
    static struct cork_command store[NC];
    bool large = pbt_large(25), deep = large && pbt_chance(1, 2); nc = large ? (int) pbt_uniform(15, NC) : 1 + (int) pbt_size(0, 13); if (large) pbt_label("large tree"); memset(nsub, 0, sizeof nsub);
    for (int i = 0; i < nc; i++) {
        bool set = i == 0 ? !pbt_chance(1, 15) : deep ? pbt_chance(9, 10) : pbt_chance(2, 5);
        if (i == 0 && nc == 1 && pbt_chance(1, 2)) set = false;
        const char *nm = i == 0 ? "root" : name(), *sd = text(false), *us = text(false), *fh = text(true); bool po = pbt_chance(2, 5);
        leafdo[i] = (int) pbt_uniform(0, 3); C[i] = &store[i];
        struct cork_command s = cork_command_set(nm, sd, po ? pf[i] : NULL, sets[i]), l = cork_leaf_command(nm, sd, us, fh, po ? pf[i] : NULL, bf[i]);
        store[i] = set ? s : l;
        int par = -1;
        if (i > 0) {
            int cand[NC], n = 0; for (int k = 0; k < i; k++) if (C[k]->type == CORK_COMMAND_SET) cand[n++] = k;
            if (n) { par = cand[pbt_chance(1, deep ? 12 : 2) ? pbt_pick(n) : n - 1 - pbt_pick(n < 2 ? n : 2)]; sets[par][nsub[par]++] = C[i]; }
        }
        pbt_trace("command %d: %s %s, in %d, %s, short %s, usage %s, full %s", i, set ? "set" : "leaf", nm, par, po ? "with option parser" : "no options", sd ? sd : "NULL", us ? us : "NULL", fh ? fh : "NULL");
    }
    for (int i = 0; i < nc; i++) sets[i][nsub[i]] = NULL;
    static const char *const extra[] = { "--help", "-h", "help", "--opt1", "-v", "--stop", "--bad", "zzz", "", "-", "file", "%d", "help", "--help", "--", "--value", "--" };
    ac = 0; av[ac++] = "prog"; int at = 0; unsigned st = 0;
    if (pbt_chance(1, 200)) ac = 0;
    while (ac > 0 && pbt_more(&st, large ? 40 : 4, large ? NA : 14)) {
        pbt_mark();
        unsigned k = (unsigned) pbt_uniform(0, 10);
        if (k < 6 && nsub[at]) { int s = idx(sets[at][pbt_pick(nsub[at])]); av[ac++] = (char *) C[s]->name; at = s; }
        else if (k < 7) av[ac++] = (char *) name();
        else if (k < 8) av[ac++] = (char *) C[pbt_pick(nc)]->name;
        else av[ac++] = (char *) extra[pbt_pick(17)];
    }
    av[ac] = NULL;
    for (int i = 0; i < ac; i++) pbt_trace("argv[%d] = %s", i, pbt_quote(av[i], strlen(av[i])));
    if (ac == 0 && C[0]->type == CORK_LEAF_COMMAND) { av[0] = "prog"; av[1] = NULL; ac = 1; }
    if (ac == 0) { av[0] = "prog"; av[1] = NULL; ac = 1; }
    elen = 0; expect[0] = 0; crumbs[0] = 0; memset(&want, 0, sizeof want); memset(L, 0, sizeof *L); verbatim = listed = -1;
    int rc = ref_run();
    if (ftruncate(fd_out, 0) != 0) _exit(103); lseek(fd_out, 0, SEEK_SET);
    int ws = pbt_in_child(child, NULL, !pbt_tracing);
    CHECK(WIFEXITED(ws), "the process was killed by signal %d", WTERMSIG(ws));
    CHECK(!L->bad, "a parser or a body received arguments that are not those of the command line");
    for (int i = 0; i < want.n || i < L->n; i++) {
        if (i >= want.n) pbt_fail("the %s of command %d ran, and nothing should have run any more", L->e[i].what == BODY ? "body" : "option parser", L->e[i].cmd);
        if (i >= L->n) pbt_fail("the %s of command %d should have run with %d arguments, but did not", want.e[i].what == BODY ? "body" : "option parser", want.e[i].cmd, want.e[i].argc);
        CHECK(L->e[i].what == want.e[i].what && L->e[i].cmd == want.e[i].cmd, "step %d: the %s of command %d ran, expected the %s of command %d", i, L->e[i].what == BODY ? "body" : "option parser", L->e[i].cmd, want.e[i].what == BODY ? "body" : "option parser", want.e[i].cmd);
        CHECK(L->e[i].argc == want.e[i].argc && L->e[i].first == want.e[i].first, "the %s of command %d received %d arguments from argv[%d], expected %d from argv[%d]", L->e[i].what == BODY ? "body" : "option parser", L->e[i].cmd, L->e[i].argc, L->e[i].first, want.e[i].argc, want.e[i].first);
    }
    CHECK(WEXITSTATUS(ws) == rc, "the process exits with status %d, expected %d", WEXITSTATUS(ws), rc);
    static char got[200000], g2[200000]; ssize_t n = pread(fd_out, got, sizeof got - 1, 0); if (n < 0) n = 0; got[n] = 0;
    CHECK((size_t) n == strlen(got), "a NUL byte in the output");
    strcpy(g2, got); squeeze(g2); squeeze(expect);
    CHECK(strcmp(g2, expect) == 0, "printed %s, expected (spaces apart) %s", pbt_quote(got, strlen(got)), pbt_quote(expect, strlen(expect)));
    if (verbatim >= 0) CHECK(strstr(got, C[verbatim]->full_help), "the full help of command %d is not printed as given: %s", verbatim, pbt_quote(got, strlen(got)));
    if (listed >= 0 && nsub[listed]) {           /* the list: one line per command, descriptions in one column */
        const char *p = strstr(got, "Available commands:"); int col = -1;
        CHECK(p, "no list of commands"); p = strchr(p, '\n'); CHECK(p, "no list of commands"); p++;
        for (int k = 0; k < nsub[listed]; k++) {
            const char *e = strchr(p, '\n'), *s = p; CHECK(e, "the list of commands ends early");
            while (*s == ' ') s++;
            size_t nl = strlen(sets[listed][k]->name);
            CHECK((size_t) (e - s) >= nl && strncmp(s, sets[listed][k]->name, nl) == 0, "line %d of the list of commands does not start with the command's name: %s", k, pbt_quote(p, (size_t) (e - p)));
            if (sets[listed][k]->short_desc && sets[listed][k]->short_desc[0]) {
                const char *d = s + nl; CHECK(*d == ' ', "no space after the name of a command"); while (*d == ' ') d++;
                CHECK(strncmp(d, sets[listed][k]->short_desc, strlen(sets[listed][k]->short_desc)) == 0, "line %d of the list of commands: no description", k);
                CHECK(col < 0 || col == (int) (d - p), "the descriptions of the commands are not in one column"); col = (int) (d - p);
            }
            p = e + 1;
        }
    }
    if (ac > 1 && nc > 1) pbt_nontrivial();
}
