/* Path lists, searches and standard directories. */
#include "pbt.h"
#include "acct.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/os.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is (1) a colon-separated list, split and extended, compared element by element and printed back, (2) a directory tree of generated files, directories, links and unreadable directories searched through a generated list for the first match and for all matches, or (3) a generated environment from which the home, configuration, data, cache and runtime directories are derived; non-trivial: a list of at least two entries, a search over at least two entries one of which matches, or an environment with at least one variable set";
static char SC[600];
static void q_list(const struct cork_path_list *l, char (*w)[900], size_t n, const char *what)
{
    static char all[64 * 900]; size_t k = 0;
    CHECK(cork_path_list_size(l) == n, "%s: the list has %zu entries, expected %zu", what, cork_path_list_size(l), n);
    all[0] = 0;
    for (size_t i = 0; i < n; i++) { const char *g = cork_path_get(cork_path_list_get(l, i)); CHECK(g && !strcmp(g, w[i]), "%s: entry %zu is %s, expected %s", what, i, g ? pbt_quote(g, strlen(g)) : "NULL", pbt_quote(w[i], strlen(w[i]))); k += sprintf(all + k, "%s%s", i ? ":" : "", w[i]); }
    const char *s = cork_path_list_to_string(l);
    CHECK(s != NULL, "%s: printing the list gives NULL, expected %s", what, pbt_quote(all, k));
    CHECK(!strcmp(s, all), "%s: printing the list gives %s, expected %s", what, pbt_quote(s, strlen(s)), pbt_quote(all, k));
}
static size_t split(const char *s, char (*w)[900], size_t n)
{ for (;;) { const char *e = strchr(s, ':'); size_t l = e ? (size_t) (e - s) : strlen(s); memcpy(w[n], s, l); w[n++][l] = 0; if (!e) return n; s = e + 1; } }
static char W[64][900]; static char S_[20000];

/* A list of very many, or very long, entries. */
static void case_longlist(void)
{
    size_t cap = 3000000, n = pbt_u64(1, 60000), at = 0, k = 0, longest = 0; char *s = raw_malloc(cap + 1), *c = raw_malloc(cap + 1); size_t *off = raw_malloc((n + 2) * sizeof *off); pbt_label("long list");
    uint64_t x = pbt_u64(1, 1000); bool longe = pbt_chance(1, 3); if (longe && n > 30) n = 30;
    for (k = 0; k < n; k++) { x = x * 6364136223846793005ull + 1442695040888963407ull; size_t l = longe ? (size_t) (x >> 33) % 90000 : (size_t) (x >> 33) % 12; if (at + l + 1 > cap) break; if (k) s[at++] = ':'; off[k] = at; memset(s + at, 'a' + (int) (k % 23), l); if (l > 2) s[at + (x >> 20) % l] = '/'; at += l; if (l > longest) longest = l; }
    n = k; s[at] = 0; off[n] = at + 1; memcpy(c, s, at + 1); pbt_trace("list of %zu entries, %zu bytes, longest entry %zu", n, at, longest);
    struct cork_path_list *l = cork_path_list_new(c); memset(c, 'Z', at);
    CHECK(cork_path_list_size(l) == n, "the list has %zu entries, expected %zu", cork_path_list_size(l), n);
    for (k = 0; k < n; k++) { const char *g = cork_path_get(cork_path_list_get(l, k)); size_t el = off[k + 1] - 1 - off[k]; CHECK(g && strlen(g) == el && !memcmp(g, s + off[k], el), "entry %zu of %zu is wrong (%zu bytes, expected %zu)", k, n, g ? strlen(g) : 0, el); }
    const char *t = cork_path_list_to_string(l); CHECK(t && !strcmp(t, s), "printing the list gives %zu bytes, or other ones than the %zu expected", t ? strlen(t) : 0, at);
    cork_path_list_free(l); raw_free(s); raw_free(c); raw_free(off); CHECK(!cork_error_occurred(), "an error was left behind: %s", cork_error_message()); if (n >= 2) pbt_nontrivial();
}
static void case_list(void)
{
    size_t n = 0; struct cork_path_list *l; unsigned st = 0; static char comp[900];
    pbt_label("list");
    if (pbt_chance(1, 8)) { l = cork_path_list_new_empty(); q_list(l, W, 0, "new empty list"); pbt_label("empty list"); }
    else {
        const char *s = pbt_chance(1, 2) ? pbt_str(0, 30, "a:/b:") : pbt_chance(1, 2) ? pbt_str(0, 200, "abcdefg/:") : pbt_str(0, 40, NULL);
        size_t c = 0; for (const char *p = s; *p; p++) c += *p == ':'; if (c > 40) return;
        snprintf(S_, sizeof S_, "%s", s); pbt_trace("list %s", pbt_quote(s, strlen(s)));
        l = cork_path_list_new(S_); memset(S_, 'Z', strlen(S_)); n = split(s, W, 0); q_list(l, W, n, "new list");
    }
    while (pbt_more(&st, 3, 12)) {
        size_t len = pbt_size(0, 300); pbt_fill(comp, len, 0); comp[len] = 0; for (size_t i = 0; i < len; i += 1 + pbt_size(0, 20)) comp[i] = "ab/."[pbt_pick(4)];
        pbt_trace("add %s", pbt_quote(comp, len));
        struct cork_path *p = cork_path_new(comp);
        cork_path_list_add(l, p); strcpy(W[n++], comp); q_list(l, W, n, "after adding a path"); pbt_label("path added");
    }
    if (n >= 2) pbt_nontrivial();
    /* the list of files has the same entries */
    if (pbt_chance(1, 3)) {
        struct cork_file_list *fl = cork_file_list_new(l); CHECK(cork_file_list_size(fl) == n, "the file list has %zu entries, expected %zu", cork_file_list_size(fl), n);
        if (pbt_chance(1, 2)) { cork_file_list_add(fl, cork_file_new("extra/one")); strcpy(W[n++], "extra/one"); }
        cork_path_list_free(l);
        for (size_t i = 0; i < n; i++) { const char *g = cork_path_get(cork_file_path(cork_file_list_get(fl, i))); CHECK(g && !strcmp(g, W[i]), "file %zu is %s, expected %s", i, g ? g : "NULL", W[i]); }
        CHECK(cork_file_list_size(fl) == n, "the file list has %zu entries, expected %zu", cork_file_list_size(fl), n);
        cork_file_list_free(fl); pbt_label("file list");
    } else cork_path_list_free(l);
    CHECK(!cork_error_occurred(), "an error was left behind: %s", cork_error_message());
}
static int rm1(const char *p, const struct stat *s, int t, struct FTW *f) { (void) s; (void) f; if (t == FTW_DP || t == FTW_D) rmdir(p); else unlink(p); return 0; }
static void mk(const char *p) { int fd = open(p, O_WRONLY | O_CREAT, 0644); if (fd >= 0) close(fd); }

static void case_search(void)
{
    enum { ND = 5 }; static const char *const rel[] = { "f", "sub/f", "sub", "none", "g.conf", "f/x", "./f" };
    char base[700], p[900], list[4000]; size_t n = 0; bool unread[ND]; memset(unread, 0, sizeof unread);
    pbt_label("search"); snprintf(base, sizeof base, "%s/s", SC); if (mkdir(base, 0755) != 0 || chdir(base) != 0) _exit(103);
    for (int d = 0; d < ND; d++) {
        unsigned what = (unsigned) pbt_uniform(0, 63); snprintf(p, sizeof p, "%s/p%d", base, d);
        if (pbt_chance(1, 8)) { pbt_trace("p%d missing", d); continue; }
        if (pbt_chance(1, 12)) { mk(p); pbt_trace("p%d is a file", d); continue; }
        mkdir(p, 0755); pbt_trace("p%d has%s%s%s", d, what & 1 ? " f" : "", what & 2 ? " sub" : "", what & 4 ? " sub/f" : "");
        if (what & 1) { snprintf(p, sizeof p, "%s/p%d/f", base, d); if (what & 8) mkdir(p, 0755); else if (what & 16) { if (symlink(base, p) != 0) { } } else mk(p); }
        if (what & 6) { snprintf(p, sizeof p, "%s/p%d/sub", base, d); mkdir(p, 0755); }
        if (what & 4) { snprintf(p, sizeof p, "%s/p%d/sub/f", base, d); mk(p); }
        if (what & 32) { snprintf(p, sizeof p, "%s/p%d/g.conf", base, d); unsigned k = pbt_chance(1, 3) ? 1 + (unsigned) pbt_pick(3) : 0; if (k == 1) { if (mkfifo(p, 0644)) _exit(103); } else if (k == 2) { if (mknod(p, S_IFSOCK | 0644, 0)) _exit(103); } else if (k == 3) { if (symlink("/dev/null", p)) _exit(103); } else mk(p); if (k) { pbt_trace("p%d/g.conf is %s", d, k == 1 ? "a fifo" : k == 2 ? "a socket" : "a link to a device"); pbt_label("something else than a file or directory"); } }
        if (pbt_chance(1, 16)) { snprintf(p, sizeof p, "%s/p%d", base, d); chmod(p, 0); unread[d] = true; pbt_trace("p%d cannot be read", d); }
    }
    if (pbt_chance(1, 6)) { snprintf(p, sizeof p, "%s/f", base); mk(p); }
    size_t cnt = pbt_size(0, 8); list[0] = 0; bool empty = cnt == 0;
    for (size_t i = 0; i < cnt; i++) {
        unsigned d = (unsigned) pbt_pick(ND); char *o = list + strlen(list); if (i) *o++ = ':';
        switch (pbt_pick(6)) { case 0: sprintf(o, "%s/p%u", base, d); break; case 1: sprintf(o, "p%u/", d); break; case 2: if (pbt_chance(1, 2)) { o[0] = 0; break; } /* fall through */ case 3: sprintf(o, "../s/p%u", d); break; default: sprintf(o, "p%u", d); }
    }
    const char *r = rel[pbt_pick(7)]; char ra[800]; if (pbt_chance(1, 12)) { snprintf(ra, sizeof ra, "%s/p%u/%s", base, (unsigned) pbt_pick(ND), rel[pbt_pick(3)]); r = ra; }
    static char lng[400]; if (pbt_chance(1, 12)) { memset(lng, 'a', 399); if (pbt_chance(1, 3)) memcpy(lng, "sub/", 4); lng[255 + pbt_size(0, 5)] = 0; lng[399] = 0; r = lng; }
    pbt_trace("search %s for %s", pbt_quote(list, strlen(list)), r);
    struct cork_path_list *l = empty ? cork_path_list_new_empty() : cork_path_list_new(list);
    if (!empty) n = split(list, W, 0);
    static char cand[64][900]; static bool hit[64]; size_t nh = 0; long first = -1, err = -1; int errcode = 0;
    for (size_t i = 0; i < n; i++) {
        struct stat sb; size_t len = strlen(W[i]);
        if (r[0] == '/') strcpy(cand[i], r); else snprintf(cand[i], sizeof cand[i], "%s%s%s", W[i], len && W[i][len - 1] != '/' ? "/" : "", r);
        hit[i] = stat(cand[i], &sb) == 0; if (!hit[i] && errno != ENOENT && errno != ENOTDIR && err < 0) { errcode = errno; err = (long) i; }
        if (hit[i]) { nh++; if (first < 0) first = (long) i; }
    }
    struct cork_file *f = cork_path_list_find_file(l, r);
    if (f == NULL) {
        CHECK(cork_error_occurred(), "the search for %s found nothing and set no error", r);
        if (err < 0) CHECK(cork_error_code() == ENOENT, "the search for %s found nothing with error code %u instead of ENOENT: %s", r, (unsigned) cork_error_code(), cork_error_message());
        CHECK(first < 0 || (err >= 0 && err < first), "the search for %s found nothing (%s), expected %s", r, cork_error_message(), cand[first]);
        if (err >= 0) CHECK(cork_error_code() == (cork_error) errcode, "looking up %s fails with errno %d, but the search for it reports %s", cand[err], errcode, cork_error_message());
        cork_error_clear();
    } else {
        const char *g = cork_path_get(cork_file_path(f)); bool ex = false; CHECK(!cork_error_occurred(), "the search left an error behind: %s", cork_error_message());
        CHECK(first >= 0, "the search for %s found %s, expected nothing", r, g);
        CHECK(err < 0 || err > first, "looking up %s fails with errno %d, but the search for %s reports no error", cand[err], errcode, r); CHECK(!strcmp(g, cand[first]), "the search for %s found %s, expected %s", r, g, cand[first]);
        CHECK(cork_file_exists(f, &ex) == 0 && ex, "the file found is said not to exist"); cork_file_free(f); pbt_label("found");
    }
    struct cork_file_list *fl = cork_path_list_find_files(l, r);
    if (fl == NULL) { CHECK(err >= 0, "the search for all %s failed: %s", r, cork_error_message()); CHECK(cork_error_occurred(), "the search for all %s failed without an error", r); cork_error_clear(); pbt_label("unreadable directory"); }
    else {
        CHECK(!cork_error_occurred(), "the search left an error behind: %s", cork_error_message());
        CHECK(err < 0, "looking up %s fails with errno %d, but the search for all %s reports no error", cand[err], errcode, r);
        CHECK(cork_file_list_size(fl) == nh, "the search for all %s found %zu files, expected %zu", r, cork_file_list_size(fl), nh);
        for (size_t i = 0, k = 0; i < n; i++) if (hit[i]) { const char *g = cork_path_get(cork_file_path(cork_file_list_get(fl, k))); CHECK(!strcmp(g, cand[i]), "match %zu of %s is %s, expected %s", k, r, g, cand[i]); k++; }
        cork_file_list_free(fl); if (nh > 1) pbt_label("several found");
    }
    cork_path_list_free(l);
    if (n >= 2 && nh) pbt_nontrivial();
    for (int d = 0; d < ND; d++) { snprintf(p, sizeof p, "%s/p%d", base, d); chmod(p, unread[d] ? 0755 : 0755); }
    if (chdir(SC) != 0) _exit(103); nftw(base, rm1, 16, FTW_PHYS | FTW_DEPTH);
}
static const char *const VAR[] = { "HOME", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "XDG_DATA_DIRS", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR" };
static const char *val[7]; static bool have(int i) { return val[i] && *val[i]; }
static void one_path(struct cork_path *p, int var, int home, const char *sub, const char *what)
{
    char w[1000]; bool ok = true;
    if (have(var)) snprintf(w, sizeof w, "%s", val[var]); else if (home && have(0)) { size_t l = strlen(val[0]); snprintf(w, sizeof w, "%s%s%s", val[0], *sub && val[0][l - 1] != '/' ? "/" : "", sub); } else ok = false;
    if (!ok) { CHECK(p == NULL, "%s is %s although it cannot be determined", what, cork_path_get(p)); CHECK(cork_error_occurred(), "%s failed without an error", what); cork_error_clear(); pbt_label("undetermined directory"); return; }
    CHECK(p != NULL, "%s failed: %s", what, cork_error_message()); CHECK(!cork_error_occurred(), "%s left an error behind: %s", what, cork_error_message());
    CHECK(!strcmp(cork_path_get(p), w), "%s is %s, expected %s", what, pbt_quote(cork_path_get(p), strlen(cork_path_get(p))), pbt_quote(w, strlen(w))); cork_path_free(p);
}
static void one_list(struct cork_path_list *l, int hv, int dv, const char *sub, const char *def, const char *what)
{
    size_t n = 1;
    if (have(hv)) strcpy(W[0], val[hv]);
    else if (have(0)) { size_t k = strlen(val[0]); snprintf(W[0], sizeof W[0], "%s%s%s", val[0], val[0][k - 1] != '/' ? "/" : "", sub); }
    else { CHECK(l == NULL, "%s gave a list although the home directory cannot be determined", what); CHECK(cork_error_occurred(), "%s failed without an error", what); cork_error_clear(); pbt_label("undetermined directory"); return; }
    CHECK(l != NULL, "%s failed: %s", what, cork_error_message()); CHECK(!cork_error_occurred(), "%s left an error behind: %s", what, cork_error_message());
    n = split(have(dv) ? val[dv] : def, W, 1); 
    q_list(l, W, n, what); cork_path_list_free(l);
}
static void case_env(void)
{
    bool any = false; pbt_label("environment"); if (chdir(SC) != 0) _exit(103);
    for (int i = 0; i < 7; i++) {
        val[i] = NULL;
        switch (pbt_pick(5)) {
            case 0: break; case 1: val[i] = ""; break;
            case 2: val[i] = pbt_str(1, 30, "ab/:"); break; case 3: { static const char *const v[] = { "/home/u", "/root/", "relative/x", "/a:/b/c:d", "/", "::", "." }; val[i] = v[pbt_pick(7)]; break; }
            default: { static char *big[7]; size_t n = 1 + pbt_size(0, 500); if (!big[i]) big[i] = raw_malloc(600); memset(big[i], 'h', n); big[i][0] = '/'; big[i][n] = 0; val[i] = big[i]; }
        }
        if (val[i]) setenv(VAR[i], val[i], 1); else unsetenv(VAR[i]);
        if (have(i)) any = true;
        pbt_trace("%s=%s", VAR[i], val[i] ? pbt_quote(val[i], strlen(val[i])) : "(unset)");
    }
    for (int k = 0; k < 1 + (int) pbt_pick(2); k++) {
    one_path(cork_path_home(), 0, 1, "", "the home directory");
    one_list(cork_path_config_paths(), 1, 2, ".config", "/etc/xdg", "the configuration directories");
    one_list(cork_path_data_paths(), 3, 4, ".local/share", "/usr/local/share:/usr/share", "the data directories");
    one_path(cork_path_user_cache_path(), 5, 1, ".cache", "the cache directory");
    one_path(cork_path_user_runtime_path(), 6, 0, "", "the runtime directory"); }
    for (int i = 0; i < 7; i++) { const char *g = getenv(VAR[i]); CHECK(val[i] ? g && !strcmp(g, val[i]) : !g, "%s has changed to %s", VAR[i], g ? g : "(unset)"); }
    if (any) pbt_nontrivial();
}
void pbt_init(void) { acct_install(); pbt_drop_privileges(); snprintf(SC, sizeof SC, "%s", pbt_scratch()); umask(022); cork_error_clear(); }
void pbt_case(void)
{
    cork_error_clear(); { char b[700]; snprintf(b, sizeof b, "%s/s", SC); if (access(b, F_OK) == 0) { for (int d = 0; d < 5; d++) { char p[720]; snprintf(p, sizeof p, "%s/p%d", b, d); chmod(p, 0755); } nftw(b, rm1, 16, FTW_PHYS | FTW_DEPTH); } }
    if (pbt_large(100)) { case_longlist(); return; }
    switch (pbt_pick(3)) { case 0: case_list(); break; case 1: case_search(); break; default: case_env(); }
}
