/* Path objects against reference string functions. */
#include "pbt.h"
#include "acct.h"
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/os.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is a history over four paths (new, clone, set, cwd, absolute, join, append, basename, dirname; copying and in-place forms; strings with repeated, leading and trailing slashes, current directory changing and sometimes removed), every path compared with a reference string after every operation; non-trivial: at least four operations and one path with a slash";
#define MAXL 3000
static struct cork_path *P[4]; static char M[4][MAXL * 2 + 8];
static char cwd[600]; static bool cwd_ok;
static const char *gen(void)
{
    static char *ring[8]; static int k; char *o = ring[k = (k + 1) & 7]; if (!o) o = ring[k] = raw_malloc(MAXL + 1);
    size_t n = 0; o[0] = 0;
    switch (pbt_pick(4)) {
        case 0: { unsigned st = 0; if (pbt_chance(1, 4)) o[n++] = '/'; while (pbt_more(&st, 3, 12) && n < 400) { static const char *const c[] = { "a", "bc", "..", ".", "", "a.txt", "dir name", "\xc3\xa9", "b" }; if (n && o[n - 1] != '/') o[n++] = '/'; if (pbt_chance(1, 8)) o[n++] = '/'; const char *s = c[pbt_pick(9)]; memcpy(o + n, s, strlen(s)); n += strlen(s); } if (pbt_chance(1, 5)) o[n++] = '/'; break; }
        case 1: { const char *s = pbt_str(0, 12, "/a/b"); n = strlen(s); memcpy(o, s, n); break; }
        case 2: { const char *s = pbt_str(0, 40, NULL); n = strlen(s); memcpy(o, s, n); break; }
        default: n = pbt_size(0, 600); if (n > MAXL) n = MAXL; memset(o, 'x', n); if (n && pbt_chance(1, 2)) o[pbt_uniform(0, n - 1)] = '/'; if (n && pbt_chance(1, 2)) o[pbt_uniform(0, n - 1)] = '/'; break;
    }
    o[n] = 0; return o;
}
static void r_append(char *d, const char *m)
{ if (!m || !*m) return; if (*m == '/') { memmove(d, m, strlen(m) + 1); return; } size_t l = strlen(d); if (l && d[l - 1] != '/') d[l++] = '/'; memmove(d + l, m, strlen(m) + 1); }
static void r_base(char *d) { char *s = strrchr(d, '/'); if (s) memmove(d, s + 1, strlen(s + 1) + 1); }
static void r_dir(char *d) { char *s = strrchr(d, '/'); if (!s) d[0] = 0; else if (s == d) d[1] = 0; else *s = 0; }
static void r_abs(char *d, const char *got)
{
    if (d[0] == '/') return;
    char t[sizeof M[0] + 700]; if (!strcmp(cwd, "/") && got && got[0] == '/' && !strcmp(got + 1, d)) snprintf(t, sizeof t, "/%s", d); else snprintf(t, sizeof t, "%s/%s", cwd, d);
    snprintf(d, sizeof M[0], "%s", t);
}
static void cmp(const struct cork_path *p, const char *want, const char *what)
{
    const char *g = cork_path_get(p);
    CHECK(g != NULL, "%s: cork_path_get is NULL, expected %s", what, pbt_quote(want, strlen(want)));
    CHECK(!strcmp(g, want), "%s: the path is %s, expected %s", what, pbt_quote(g, strlen(g)), pbt_quote(want, strlen(want)));
}
static void put(int i, struct cork_path *p, const char *s, const char *what)
{
    CHECK(p != NULL, "%s returned no path", what); CHECK(!cork_error_occurred(), "%s left an error behind: %s", what, cork_error_message());
    cork_path_free(P[i]); P[i] = p; memmove(M[i], s, strlen(s) + 1); cmp(p, s, what);
}
static void bad_cwd(bool failed, const char *what)
{ CHECK(failed, "%s succeeded although the current directory does not exist", what); CHECK(cork_error_occurred(), "%s failed without an error", what); cork_error_clear(); pbt_label("no current directory"); }
/* Paths of many kilobytes; no such path can exist, but the strings are computed all the same. */
static void big_case(void)
{
    size_t n = pbt_uniform(3000, 300000), m = pbt_u64(0, 300000); char *a = raw_malloc(n + 1), *b = raw_malloc(m + 1), *w = raw_malloc(n + m + 700); unsigned den = (unsigned) pbt_uniform(2, 100000); pbt_label("long paths");
    for (size_t i = 0; i < n; i++) a[i] = (i * 7919 + 13) % den == 0 ? '/' : (char) ('a' + i % 26); for (size_t i = 0; i < m; i++) b[i] = (i * 104729 + 5) % den == 0 ? '/' : (char) ('A' + i % 26);
    if (pbt_chance(1, 4)) a[0] = '/'; if (pbt_chance(1, 3)) a[n - 1] = '/'; if (m && pbt_chance(1, 4)) b[0] = '/'; if (pbt_chance(1, 3)) a[pbt_uniform(0, n - 1)] = '/'; a[n] = b[m] = 0;
    pbt_trace("paths of %zu and %zu bytes, slashes one in %u", n, m, den);
    struct cork_path *p = cork_path_new(a), *q = pbt_chance(1, 2) ? cork_path_new("x") : cork_path_clone(p), *r; cmp(p, a, "cork_path_new"); cork_path_set(q, b); cmp(q, b, "cork_path_set");
    strcpy(w, a); r_append(w, b); r = cork_path_join(p, b); cmp(r, w, "cork_path_join"); cork_path_free(r); r = cork_path_join_path(p, q); cmp(r, w, "cork_path_join_path"); cork_path_free(r);
    strcpy(w, a); r_base(w); r = cork_path_basename(p); cmp(r, w, "cork_path_basename"); cork_path_free(r); strcpy(w, a); r_dir(w); r = cork_path_dirname(p); cmp(r, w, "cork_path_dirname"); cork_path_free(r);
    r = cork_path_clone(p); cmp(r, a, "cork_path_clone"); strcpy(w, a);
    if (pbt_chance(1, 2)) { cork_path_append(r, b); r_append(w, b); } else { cork_path_append_path(r, q); r_append(w, b); } cmp(r, w, "cork_path_append");
    if (pbt_chance(1, 2)) { cork_path_set_basename(r); r_base(w); cmp(r, w, "cork_path_set_basename"); } else { cork_path_set_dirname(r); r_dir(w); cmp(r, w, "cork_path_set_dirname"); }
    if (w[0] != '/') { char *v = raw_malloc(strlen(w) + 700); sprintf(v, "%s/%s", cwd, w); if (pbt_chance(1, 2)) { struct cork_path *t = cork_path_absolute(r); CHECK(t, "no absolute path: %s", cork_error_message()); cmp(t, v, "cork_path_absolute"); cork_path_free(t); } else { CHECK(cork_path_set_absolute(r) == 0, "no absolute path: %s", cork_error_message()); cmp(r, v, "cork_path_set_absolute"); } raw_free(v); }
    cork_path_free(r); cork_path_free(p); cork_path_free(q); raw_free(a); raw_free(b); raw_free(w); pbt_nontrivial();
}
void pbt_init(void) { acct_install(); pbt_drop_privileges(); cork_error_clear(); }
void pbt_case(void)
{
    enum { NEW, CLONE, SET, CWD, SETCWD, ABS, SETABS, APPEND, APPENDP, JOIN, JOINP, BASE, SETBASE, DIR, SETDIR, CHDIR, N };
    unsigned st = 0, ops = 0; bool slash = false; const char *sc = pbt_scratch(); char real[600];
    cork_error_clear();
    if (chdir(sc) != 0 || !getcwd(real, sizeof real)) { perror("scratch"); _exit(103); }
    snprintf(cwd, sizeof cwd, "%s", real); cwd_ok = true;
    if (pbt_large(200)) { big_case(); return; }
    for (int i = 0; i < 4; i++) { P[i] = cork_path_new(i ? "a/b" : ""); strcpy(M[i], i ? "a/b" : ""); }
    uint64_t mask = pbt_swarm(N, 1 << NEW | 1 << APPEND);
    while (pbt_more(&st, 15, 120)) {
        int i = (int) pbt_pick(4), j = (int) pbt_pick(4); unsigned op = pbt_op(mask, N); ops++; char t[sizeof M[0]], what[64];
        if (strlen(M[i]) > MAXL / 2 || strlen(M[j]) > MAXL / 2) { op = SET; if (strlen(M[i]) <= MAXL / 2) i = j; }
        static const char *const nm[] = { "new", "clone", "set", "cwd", "set_cwd", "absolute", "set_absolute", "append", "append_path", "join", "join_path", "basename", "set_basename", "dirname", "set_dirname", "chdir" };
        snprintf(what, sizeof what, "cork_path_%s", nm[op]); pbt_trace("%s: %d=%s, %d=%s", nm[op], i, pbt_quote(M[i], strlen(M[i])), j, pbt_quote(M[j], strlen(M[j])));
        strcpy(t, M[j]);
        switch (op) {
            case NEW: { if (pbt_chance(1, 20)) { pbt_trace("  with NULL"); put(i, cork_path_new(NULL), "", what); break; } const char *s = gen(); pbt_trace("  with %s", pbt_quote(s, strlen(s))); put(i, cork_path_new(s), s, what); break; }
            case SET: { if (pbt_chance(1, 20)) { pbt_trace("  with NULL"); cork_path_set(P[i], NULL); strcpy(M[i], ""); break; } const char *s = gen(); pbt_trace("  with %s", pbt_quote(s, strlen(s))); cork_path_set(P[i], s); strcpy(M[i], s); break; }
            case CLONE: put(i, cork_path_clone(P[j]), t, what); break;
            case CWD: { struct cork_path *p = cork_path_cwd(); if (!cwd_ok) { bad_cwd(p == NULL, what); break; } put(i, p, cwd, what); break; }
            case SETCWD: { int rc = cork_path_set_cwd(P[i]); if (!cwd_ok) { bad_cwd(rc != 0, what); cork_path_set(P[i], "q"); strcpy(M[i], "q"); break; } CHECK(rc == 0, "%s failed: %s", what, cork_error_message()); strcpy(M[i], cwd); break; }
            case ABS: { struct cork_path *p = cork_path_absolute(P[j]); if (!cwd_ok && t[0] != '/') { bad_cwd(p == NULL, what); break; } r_abs(t, p ? cork_path_get(p) : NULL); put(i, p, t, what); break; }
            case SETABS: { int rc = cork_path_set_absolute(P[i]); if (!cwd_ok && M[i][0] != '/') { bad_cwd(rc != 0, what); cork_path_set(P[i], "q"); strcpy(M[i], "q"); break; } CHECK(rc == 0, "%s failed: %s", what, cork_error_message()); r_abs(M[i], cork_path_get(P[i])); break; }
            case APPEND: { const char *s = pbt_chance(1, 12) ? NULL : gen(); pbt_trace("  with %s", s ? pbt_quote(s, strlen(s)) : "NULL"); cork_path_append(P[i], s); r_append(M[i], s); break; }
            case APPENDP: cork_path_append_path(P[i], P[j]); r_append(M[i], t); break;
            case JOIN: { const char *s = pbt_chance(1, 12) ? NULL : gen(); pbt_trace("  with %s", s ? pbt_quote(s, strlen(s)) : "NULL"); r_append(t, s); put(i, cork_path_join(P[j], s), t, what); break; }
            case JOINP: { char u[sizeof t]; strcpy(u, M[i]); r_append(t, u); put(i, cork_path_join_path(P[j], P[i]), t, what); break; }
            case BASE: r_base(t); put(i, cork_path_basename(P[j]), t, what); break;
            case SETBASE: cork_path_set_basename(P[i]); r_base(M[i]); break;
            case DIR: r_dir(t); put(i, cork_path_dirname(P[j]), t, what); break;
            case SETDIR: cork_path_set_dirname(P[i]); r_dir(M[i]); break;
            case CHDIR: {
                unsigned k = (unsigned) pbt_pick(3); char d[700]; if (chdir(sc) != 0) _exit(103);
                if (k == 0) { if (chdir("/") != 0) _exit(103); strcpy(cwd, "/"); cwd_ok = true; }
                else { snprintf(d, sizeof d, "%s/d%u", sc, (unsigned) pbt_pick(3)); if (mkdir(d, 0755) != 0 && errno != EEXIST) _exit(103); if (chdir(d) != 0 || !getcwd(cwd, sizeof cwd)) _exit(103); cwd_ok = true;
                    if (k == 2 && pbt_chance(1, 2)) { if (rmdir(d) != 0) _exit(103); cwd_ok = false; } }
                break; }
        }
        CHECK(!cork_error_occurred(), "%s left an error behind: %s", what, cork_error_message());
        for (int k = 0; k < 4; k++) { cmp(P[k], M[k], what); if (strchr(M[k], '/')) slash = true; }
        pbt_label(nm[op]);
    }
    for (int k = 0; k < 4; k++) cork_path_free(P[k]);
    if (chdir(sc) != 0) { }
    if (ops >= 4 && slash) pbt_nontrivial();
}
