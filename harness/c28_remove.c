/* Removal of files and trees: exactly what is named, links never followed. */
#include "pbt.h"
#include "acct.h"
#include "fsx.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/os.h"
const char *pbt_rule = "a case is a generated tree with links (to its own files and directories, outside, dangling, looping), fifos, unreadable and unwritable directories, and a history of removals of entries, subtrees or missing names with every flag combination, through fresh, reused and already queried file objects, some with a failing unlink, rmdir or readdir; the listings before and after are compared; non-trivial: a directory with content, or a link, is named";
static char SC[600], T[700];
extern int __real_unlink(const char *), __real_rmdir(const char *); extern struct dirent *__real_readdir(DIR *);
static int fail_at, fail_n, fail_errno, injected; static unsigned fail_what;
static int after_fail;
static bool inject(unsigned w) { if (injected && w < 2) after_fail++; if (fail_at && w == fail_what && ++fail_n == fail_at) { injected++; errno = fail_errno; return true; } return false; }
int __wrap_unlink(const char *p) { return inject(0) ? -1 : __real_unlink(p); }
int __wrap_rmdir(const char *p) { return inject(1) ? -1 : __real_rmdir(p); }
struct dirent *__wrap_readdir(DIR *d) { return inject(2) ? NULL : __real_readdir(d); }

/* entries of a listing */
typedef struct { const char *line, *tab, *end; } ent; static ent E1[8000], E2[8000];
static size_t parse(const char *l, ent *e) { size_t n = 0; while (*l && n < 8000) { e[n].line = l; e[n].tab = strchr(l, '\t'); e[n].end = strchr(l, '\n'); l = e[n++].end + 1; } return n; }
static bool below(const ent *e, const char *p) { size_t l = strlen(p), k = (size_t) (e->tab - e->line); return l == 0 || (k >= l && !memcmp(e->line, p, l) && (k == l || e->line[l] == '/')); }
static bool same(const ent *a, const ent *b) { return a->end - a->line == b->end - b->line && !memcmp(a->line, b->line, (size_t) (a->end - a->line)); }
static bool same_path(const ent *a, const ent *b) { return a->tab - a->line == b->tab - b->line && !memcmp(a->line, b->line, (size_t) (a->tab - a->line)); }
static unsigned mode_of(const ent *e) { const char *s = strchr(e->tab, ' '); return (unsigned) strtoul(s, NULL, 8); }
static bool is_dir(const ent *e) { return !strncmp(e->tab + 1, "dir ", 4); }
static bool is_link(const ent *e) { return !strncmp(e->tab + 1, "link ", 5); }

void pbt_init(void) { acct_install(); fsx_init(); snprintf(SC, sizeof SC, "%s", pbt_scratch()); cork_error_clear(); }
void pbt_case(void)
{
    unsigned st = 0; int fds; char p[1400]; struct cork_file *keep = NULL; char keep_path[1400];
    cork_error_clear(); umask(022); fail_at = 0;
    fsx_fresh("outside"); { if (mkdir("kept", 0755) != 0) _exit(103); int fd = open("kept/file", O_WRONLY | O_CREAT, 0644); close(fd); fd = open("file", O_WRONLY | O_CREAT, 0644); close(fd); }
    char outp[700]; snprintf(outp, sizeof outp, "%s/outside", SC);
    fsx_fresh("w"); if (mkdir("t", 0755) != 0) _exit(103); snprintf(T, sizeof T, "%s/w", SC);
    unsigned kinds = FSX_LINKS | FSX_DANGLING | FSX_LOOPS | FSX_OUTLINKS | FSX_FIFO | FSX_BIG; if (pbt_chance(1, 4)) kinds |= FSX_MODES;
    { const char *r[1] = { T }; fsx_objects = 0; fsx_grow(r, 1, "t", 4, kinds); }
    if (pbt_large(300)) { char deep[1600] = "t"; int d = 20 + (int) pbt_uniform(0, 180); for (int i = 0; i < d; i++) { strcat(deep, i % 7 ? "/d" : "/e"); if (mkdir(deep, 0755) != 0 && errno != EEXIST) break; if (i % 50 == 49 || i == d - 1) { char ff[1700]; snprintf(ff, sizeof ff, "%s/f", deep); int o = open(ff, O_WRONLY | O_CREAT, 0644); if (o >= 0) close(o); } } pbt_label("many levels"); }
    fds = fsx_open_fds();
    while (pbt_more(&st, 5, 30)) {
        if (chdir(T) != 0) _exit(103);
        const char *before = fsx_list(T), *out0 = fsx_list(outp); size_t n = parse(before, E1); char rel[1300]; bool odd = false;
        if (pbt_chance(1, 6) || n == 0) strcpy(rel, "t"); else { const ent *e = &E1[pbt_pick(n)]; size_t l = (size_t) (e->tab - e->line); if (l > 1200) continue; memcpy(rel, e->line, l); rel[l] = 0; }
        if (keep && pbt_chance(1, 4)) strcpy(rel, keep_path);
        else if (pbt_chance(1, 8)) { strcat(rel, pbt_chance(1, 2) ? "/nothing" : "-nothing"); }
        bool rec = pbt_chance(1, 2), perm = pbt_chance(1, 2); struct stat s; int exist = lstat(rel, &s) == 0 ? 1 : errno == ENOENT || errno == ENOTDIR ? 0 : -1; bool dir = exist == 1 && S_ISDIR(s.st_mode), lnk = exist == 1 && S_ISLNK(s.st_mode);
        snprintf(p, sizeof p, "%s%s%s", pbt_chance(1, 4) ? T : "", "", ""); if (*p) strcat(p, "/"); strcat(p, rel); if (dir && pbt_chance(1, 8)) strcat(p, "/");
        /* what the entry is made of */
        size_t inside = 0; bool plain = true; for (size_t i = 0; i < n; i++) if (below(&E1[i], rel)) { inside++; if (is_dir(&E1[i]) && (mode_of(&E1[i]) & 0700) != 0700) plain = false; if (is_link(&E1[i])) odd = true; }
        { char par[1300]; strcpy(par, rel); char *sl = strrchr(par, '/'); if (sl) *sl = 0; else strcpy(par, "."); if (exist == 1 && access(par, W_OK | X_OK) != 0) plain = false; }
        struct cork_file *f; bool reuse = false;
        if (keep && !strcmp(keep_path, rel)) { f = keep; reuse = true; strcpy(p, cork_path_get(cork_file_path(f))); if (lnk && p[strlen(p) - 1] == '/') { cork_file_free(keep); keep = NULL; continue; } }
        else { f = cork_file_new(p); }
        if (pbt_chance(1, 4)) { bool ex; if (cork_file_exists(f, &ex) != 0) cork_error_clear(); }
        /* another object takes its place between the query and the removal */
        if (dir && inside == 1 && pbt_chance(1, 10) && rmdir(rel) == 0) {
            if (symlink(outp, rel) != 0) _exit(103); pbt_trace("outside: %s becomes a link to the outside directory", rel);
            before = fsx_list(T); n = parse(before, E1); dir = false; lnk = true; plain = true; if (p[strlen(p) - 1] == '/') { if (!reuse) cork_file_free(f); else { cork_file_free(keep); keep = NULL; } continue; } pbt_label("replaced after query");
        }
        fail_n = injected = after_fail = 0; fail_at = 0; if (pbt_chance(1, 6)) { fail_what = (unsigned) pbt_pick(3); fail_at = 1 + (int) pbt_size(0, 8); fail_errno = fail_what == 2 ? EIO : pbt_chance(1, 2) ? EBUSY : EIO; }
        int fa = fail_at;
        pbt_trace("remove %s%s%s%s%s", pbt_quote(p, strlen(p)), rec ? " recursive" : "", perm ? " permissive" : "", reuse ? " (same object as before)" : "", fa ? fail_what == 0 ? ", an unlink fails" : fail_what == 1 ? ", a rmdir fails" : ", a readdir fails" : "");
        int rc = cork_file_remove(f, (rec ? CORK_FILE_RECURSIVE : 0) | (perm ? CORK_FILE_PERMISSIVE : 0)); fail_at = 0;
        const char *after = fsx_list(T), *out1 = fsx_list(outp), *d; size_t m = parse(after, E2);
        bool err = cork_error_occurred(); unsigned ecode = err ? (unsigned) cork_error_code() : 0; char emsg[600]; snprintf(emsg, sizeof emsg, "%s", err ? cork_error_message() : "no error"); cork_error_clear();
        d = fsx_diff(out0, out1, "the directory outside the tree before", "after"); CHECK(!d, "removing %s changed something outside it: %s", pbt_quote(p, strlen(p)), d);
        CHECK(rc == 0 || rc == -1, "removing %s returned %d", p, rc);
        CHECK((rc != 0) == err, "removing %s %s, but %s", pbt_quote(p, strlen(p)), rc ? "failed" : "succeeded", err ? emsg : "no error was set");
        /* nothing new, nothing else touched */
        size_t i = 0; size_t gone = 0;
        for (size_t j = 0; j < m; j++) {
            while (i < n && !same_path(&E1[i], &E2[j])) { CHECK(below(&E1[i], rel), "removing %s also removed %.*s", pbt_quote(p, strlen(p)), (int) (E1[i].tab - E1[i].line), E1[i].line); gone++; i++; }
            CHECK(i < n, "removing %s made %.*s appear", pbt_quote(p, strlen(p)), (int) (E2[j].tab - E2[j].line), E2[j].line);
            CHECK(same(&E1[i], &E2[j]), "removing %s changed %.*s into %.*s", pbt_quote(p, strlen(p)), (int) (E1[i].end - E1[i].line), E1[i].line, (int) (E2[j].end - E2[j].line), E2[j].line); i++;
        }
        for (; i < n; i++) { CHECK(below(&E1[i], rel), "removing %s also removed %.*s", pbt_quote(p, strlen(p)), (int) (E1[i].tab - E1[i].line), E1[i].line); gone++; }
        bool still = lstat(rel, &s) == 0; if (exist == 1) CHECK((rc == 0) == !still, "removing %s %s, but it is %s", pbt_quote(p, strlen(p)), rc ? "failed" : "succeeded", still ? "still there" : "gone");
        if (exist == 0) { CHECK((rc == 0) == perm, "removing %s, which does not exist, %s", pbt_quote(p, strlen(p)), rc ? "failed although permissive" : "succeeded"); pbt_label("missing"); }
        else if (exist < 0) CHECK(rc != 0, "removing %s, which cannot be reached, succeeded", p);
        else if (dir && !rec) { CHECK(rc != 0 || inside == 1, "removing the non-empty directory %s succeeded", p); CHECK(rc != 0 || gone == 1, "removing the empty directory %s removed %zu objects", p, gone); if (rc) CHECK(gone == 0, "a failed removal of %s removed %zu objects", p, gone); if (inside == 1 && plain && !injected) CHECK(rc == 0, "removing the empty directory %s failed: %s", pbt_quote(p, strlen(p)), emsg); pbt_label(inside == 1 ? "empty directory" : "non-empty directory, not recursive"); }
        else if (plain && !injected) CHECK(rc == 0, "removing %s failed: %s", pbt_quote(p, strlen(p)), emsg);
        if (injected && rc == 0 && exist == 1) { CHECK(gone == inside, "a failure was ignored"); pbt_label("injected failure overcome"); }
        if (injected && rc != 0) { CHECK(ecode == (unsigned) fail_errno, "an operation failed with errno %d, the removal reports error %u: %s", fail_errno, ecode, emsg); CHECK(after_fail == 0, "after the failure of one entry the removal went on to %d others", after_fail); }
        if (rc == 0 && exist == 1) CHECK(gone == (lnk || !dir ? 1 : inside), "removing %s removed %zu objects, expected %zu", p, gone, dir ? inside : 1);
        if (rc == 0 && dir && rec && inside > 1) { pbt_label("tree removed"); pbt_nontrivial(); if (odd) pbt_label("tree with links removed"); if (inside > 800) pbt_label("large directory removed"); }
        if (lnk) { pbt_label("link"); pbt_nontrivial(); } else if (exist == 1 && !dir) pbt_label("file");
        if (rc && exist == 1 && !(dir && !rec)) pbt_label(injected ? "failure injected" : "failure from permissions");
        /* the object knows what it has done */
        if (rc == 0) { bool ex = true; CHECK(cork_file_exists(f, &ex) == 0 && !ex, "%s is said to exist after it has been removed", p); }
        if (rc == 0 && exist == 1 && pbt_chance(1, 3)) {
            pbt_trace("make it again: mkdir %s", p); if (cork_file_mkdir(f, 0755, 0) == 0) { bool ex = false; CHECK(lstat(rel, &s) == 0 && S_ISDIR(s.st_mode), "mkdir %s succeeded without making it", p); CHECK(cork_file_exists(f, &ex) == 0 && ex, "%s is said not to exist after mkdir", p); pbt_label("made again"); } else cork_error_clear(); }
        if (reuse) { if (pbt_chance(1, 3)) { cork_file_free(keep); keep = NULL; } }
        else if (!keep && pbt_chance(1, 3)) { keep = f; strcpy(keep_path, rel); }
        else cork_file_free(f);
    }
    if (keep) cork_file_free(keep);
    CHECK(fsx_open_fds() == fds, "a file descriptor was left open");
    if (chdir(SC) != 0) { }
}
