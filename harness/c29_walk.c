/* Directory iteration and walking against a listing made by the harness. */
#include "pbt.h"
#include "acct.h"
#include "fsx.h"
#include <dirent.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/os.h"
const char *pbt_rule = "a case is a generated tree (nested and large directories, odd names, links to files and directories inside and outside, fifos), iterated and walked through relative, absolute, slash-ended and root paths with callbacks whose answers (continue, skip, stop with a generated value, at a generated point) are part of the case, now and then with another traversal inside a callback, or with a failing readdir; the log of calls is compared with the tree; non-trivial: at least one directory with entries is entered";
static char SC[600], T[700];
extern struct dirent *__real_readdir(DIR *); extern DIR *__real_opendir(const char *); extern int __real_closedir(DIR *);
static int fail_at, fail_n, injected; static int dirs_open; static bool watching;
struct dirent *__wrap_readdir(DIR *d) { if (fail_at && ++fail_n == fail_at) { injected++; errno = EIO; return NULL; } return __real_readdir(d); }
DIR *__wrap_opendir(const char *p) { DIR *d = __real_opendir(p); if (d && watching) dirs_open++; return d; }
int __wrap_closedir(DIR *d) { if (watching) dirs_open--; return __real_closedir(d); }

/* the tree as the walk should see it */
typedef struct node { char *name; char type; bool optional, seen, entered, left; struct node *kid; size_t nkid; bool broken; bool noread; } node;
static node *pool[20000]; static size_t npool; static bool any_broken, any_noread; static size_t total_files, total_dirs;
static node *mk(const char *name) { node *n = raw_malloc(sizeof *n); memset(n, 0, sizeof *n); size_t l = strlen(name); n->name = raw_malloc(l + 1); memcpy(n->name, name, l + 1); return n; }
static void scan(node *n, const char *path, int depth)
{
    DIR *d = __real_opendir(path); struct dirent *e; size_t cap = 0;
    if (!d) { n->noread = true; any_noread = true; return; }
    while ((e = __real_readdir(d)) != NULL) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        if (n->nkid == cap) { cap = cap ? cap * 2 : 8; n->kid = raw_realloc(n->kid, cap * sizeof *n->kid); }
        node *t = mk(e->d_name); n->kid[n->nkid++] = *t; raw_free(t);
    }
    __real_closedir(d);
    for (size_t i = 0; i < n->nkid; i++) {
        node *k = &n->kid[i]; char p[5000]; struct stat s, l; snprintf(p, sizeof p, "%s/%s", path, k->name);
        if (lstat(p, &l) != 0) { k->type = '?'; k->broken = true; any_broken = true; continue; }
        k->optional = S_ISLNK(l.st_mode);
        if (stat(p, &s) != 0) { k->type = '?'; k->broken = true; any_broken = true; continue; }
        k->type = S_ISREG(s.st_mode) ? 'f' : S_ISDIR(s.st_mode) ? 'd' : '?';
        if (k->type == 'f' && !k->optional) total_files++;
        if (k->type == 'd') { if (!k->optional) total_dirs++; if (depth < 650) scan(k, p, depth + 1); }
    }
}
static void drop(node *n) { for (size_t i = 0; i < n->nkid; i++) { drop(&n->kid[i]); raw_free(n->kid[i].name); } raw_free(n->kid); }

/* the walk as it happens */
struct walker { struct cork_dir_walker w; node *stack[700]; int depth; char base[900]; bool base_any; long calls, stop_at; int stop_value; bool stopped, skip_some, nested, rootwalk; uint64_t skip_seed; };
static node *child(node *n, const char *name) { for (size_t i = 0; i < n->nkid; i++) if (!strcmp(n->kid[i].name, name)) return &n->kid[i]; return NULL; }
static void names(struct walker *w, const char *full, const char *rel, const char *base, const char *what)
{
    char r[5000]; size_t n = 0; for (int i = 1; i <= w->depth; i++) n += sprintf(r + n, "%s/", w->stack[i]->name); sprintf(r + n, "%s", base);
    CHECK(full && rel && base && *base, "%s: a name is missing", what); CHECK(!strchr(base, '/'), "%s: the base name is %s", what, base);
    CHECK(!strcmp(rel, r), "%s: the relative path is %s, expected %s", what, pbt_quote(rel, strlen(rel)), pbt_quote(r, strlen(r)));
    size_t fl = strlen(full), rl = strlen(rel); CHECK(fl > rl && !strcmp(full + fl - rl, rel) && full[fl - rl - 1] == '/', "%s: the full path is %s for the relative path %s", what, full, rel);
    size_t pl = fl - rl, bl = strlen(w->base); if (w->base[strspn(w->base, "/")]) CHECK(!(pl > 1 && full[pl - 2] == '/'), "%s: more than one slash joins the full path %s", what, pbt_quote(full, fl)); while (pl && full[pl - 1] == '/') pl--; while (bl && w->base[bl - 1] == '/') bl--;
    CHECK(pl == bl && !memcmp(full, w->base, pl), "%s: the full path is %s, which does not start with %s", what, pbt_quote(full, fl), pbt_quote(w->base, strlen(w->base)));
}
/* another traversal from inside a callback */
static long inner_at; static bool inner_walk; static int inner_seen;
struct inner { struct cork_dir_walker w; int files, in, out; };
static int in_file(struct cork_dir_walker *c, const char *full, const char *rel, const char *base) { ((struct inner *) c)->files++; CHECK(!strcmp(rel, "file") && !strcmp(base, "file"), "a walk inside a callback visits %s", rel); return 0; }
static int in_enter(struct cork_dir_walker *c, const char *full, const char *rel, const char *base) { ((struct inner *) c)->in++; CHECK(!strcmp(rel, "deep") && !strcmp(base, "deep"), "a walk inside a callback enters %s", rel); return 0; }
static int in_leave(struct cork_dir_walker *c, const char *full, const char *rel, const char *base) { ((struct inner *) c)->out++; CHECK(!strcmp(rel, "deep"), "a walk inside a callback leaves %s", rel); return 0; }
static int in_child(struct cork_file *f, const char *name, void *ud) { int *n = ud; ++*n; CHECK(!strcmp(name, "file") || !strcmp(name, "deep"), "an iteration inside a callback gives %s", name); enum cork_file_type t; CHECK(cork_file_type(f, &t) == 0 && t == (name[0] == 'f' ? CORK_FILE_REGULAR : CORK_FILE_DIRECTORY), "an iteration inside a callback: wrong type of %s", name); return 0; }
static void inner(const char *a, const char *b, const char *c)
{
    if (!inner_at || ++inner_seen != inner_at) return;
    char p[700], k[3][5000]; snprintf(p, sizeof p, "%s/outside/kept", SC); snprintf(k[0], 5000, "%s", a); snprintf(k[1], 5000, "%s", b); snprintf(k[2], 5000, "%s", c); int f = fail_at, o = dirs_open; fail_at = 0; pbt_trace("  %s inside the callback", inner_walk ? "walk" : "iterate"); pbt_label("traversal inside a callback");
    if (inner_walk) { struct inner w = { { in_enter, in_file, in_leave }, 0, 0, 0 }; int rc = cork_walk_directory(p, &w.w); CHECK(rc == 0 && w.files == 1 && w.in == 1 && w.out == 1, "a walk inside a callback returned %d after visiting %d files, entering %d directories and leaving %d, expected one each", rc, w.files, w.in, w.out); }
    else { int n = 0; struct cork_file *fl = cork_file_new(p); int rc = cork_file_iterate_directory(fl, in_child, &n); CHECK(rc == 0 && n == 2, "an iteration inside a callback returned %d after %d entries, expected 2", rc, n); cork_file_free(fl); }
    fail_at = f; CHECK(dirs_open == o, "a traversal inside a callback leaves a directory open"); CHECK(!strcmp(k[0], a) && !strcmp(k[1], b) && !strcmp(k[2], c), "the names given to a callback change while another traversal runs");
}
static int answer(struct walker *w) { CHECK(!w->stopped, "the walk went on after a callback stopped it"); if (++w->calls == w->stop_at) { w->stopped = true; return w->stop_value; } return 0; }
static int on_file(struct cork_dir_walker *cw, const char *full, const char *rel, const char *base)
{
    struct walker *w = (struct walker *) cw; char what[80]; snprintf(what, sizeof what, "file call %ld", w->calls + 1); pbt_trace("  file %s", pbt_quote(rel, strlen(rel)));
    names(w, full, rel, base, what); inner(full, rel, base); node *k = child(w->stack[w->depth], base);
    CHECK(k != NULL, "%s: there is no entry %s", what, pbt_quote(rel, strlen(rel))); CHECK(k->type == 'f', "%s: %s is not a regular file", what, rel); CHECK(!k->seen, "%s: %s comes twice", what, pbt_quote(rel, strlen(rel))); k->seen = true;
    return answer(w);
}
static int on_enter(struct cork_dir_walker *cw, const char *full, const char *rel, const char *base)
{
    struct walker *w = (struct walker *) cw; char what[80]; snprintf(what, sizeof what, "enter call %ld", w->calls + 1); pbt_trace("  enter %s", pbt_quote(rel, strlen(rel)));
    names(w, full, rel, base, what); inner(full, rel, base); node *k = child(w->stack[w->depth], base);
    CHECK(k != NULL, "%s: there is no entry %s", what, pbt_quote(rel, strlen(rel))); CHECK(k->type == 'd', "%s: %s is not a directory", what, rel); CHECK(!k->seen, "%s: %s is entered twice", what, pbt_quote(rel, strlen(rel))); k->seen = true;
    int a = answer(w); if (a == CORK_SKIP_DIRECTORY) { w->stopped = false; pbt_label("skipped"); } if (a) return a;
    if (w->rootwalk) return CORK_SKIP_DIRECTORY;
    if (w->skip_some) { uint64_t h = w->skip_seed; for (const char *p = base; *p; p++) h = (h ^ (unsigned char) *p) * 0x100000001b3ull; if (h >> 20 & 1) { pbt_trace("  skip"); pbt_label("skipped"); return CORK_SKIP_DIRECTORY; } }
    k->entered = true; if (k->nkid) w->nested = true; CHECK(w->depth < 690, "too deep"); w->stack[++w->depth] = k; return 0;
}
static void full_visit(node *n, const char *name)
{
    for (size_t i = 0; i < n->nkid; i++) { node *k = &n->kid[i]; if ((k->type == 'f' || k->type == 'd') && !k->optional) CHECK(k->seen, "%s in %s is not visited", pbt_quote(k->name, strlen(k->name)), name); if (k->entered) CHECK(k->left, "%s in %s is entered but not left", k->name, name); }
}
static int on_leave(struct cork_dir_walker *cw, const char *full, const char *rel, const char *base)
{
    struct walker *w = (struct walker *) cw; char what[80]; snprintf(what, sizeof what, "leave call %ld", w->calls + 1); pbt_trace("  leave %s", pbt_quote(rel, strlen(rel)));
    CHECK(w->depth > 0, "%s: %s is left although nothing is entered", what, rel); node *k = w->stack[w->depth--];
    CHECK(!strcmp(k->name, base), "%s: %s is left while inside %s", what, base, k->name); names(w, full, rel, base, what); CHECK(!k->left, "%s is left twice", base); k->left = true; inner(full, rel, base); full_visit(k, pbt_quote(rel, strlen(rel)));
    return answer(w);
}
/* iteration */
struct iter { node *n; const char *dir; long calls, stop_at; int stop_value; bool stopped; bool query; };
static int on_child(struct cork_file *f, const char *name, void *ud)
{
    struct iter *it = ud; pbt_trace("  child %s", pbt_quote(name, strlen(name)));
    CHECK(!it->stopped, "the iteration went on after it was stopped"); node *k = child(it->n, name); CHECK(k, "there is no entry %s", pbt_quote(name, strlen(name))); CHECK(!k->seen, "%s comes twice", pbt_quote(name, strlen(name))); k->seen = true; inner(cork_path_get(cork_file_path(f)), name, name);
    char want[2000]; size_t l = strlen(it->dir); snprintf(want, sizeof want, "%s%s%s", it->dir, l && it->dir[l - 1] == '/' ? "" : "/", name); const char *g = cork_path_get(cork_file_path(f)); CHECK(!strcmp(g, want), "the path of the entry is %s, expected %s", pbt_quote(g, strlen(g)), pbt_quote(want, strlen(want)));
    if (it->query && !k->broken) { enum cork_file_type t; CHECK(cork_file_type(f, &t) == 0, "the type of %s cannot be queried: %s", g, cork_error_message()); bool ok = k->type == 'f' ? t == CORK_FILE_REGULAR : k->type == 'd' ? t == CORK_FILE_DIRECTORY : t == CORK_FILE_UNKNOWN; CHECK(ok || (k->optional && t == CORK_FILE_SYMLINK), "the type of %s is reported as %u", g, (unsigned) t); }
    if (++it->calls == it->stop_at) { it->stopped = true; return it->stop_value; } return 0;
}
static int stop_value(void) { static const int v[] = { -1, 2, 3, -7, 42, INT32_MAX, INT32_MIN, 255 }; return v[pbt_pick(8)]; }
void pbt_init(void) { acct_install(); fsx_init(); snprintf(SC, sizeof SC, "%s", pbt_scratch()); cork_error_clear(); }
void pbt_case(void)
{
    char path[900]; int fds; node root; memset(&root, 0, sizeof root); bool rootwalk = pbt_uniform(0, 149) == 77, missing = false, nontriv = false;
    cork_error_clear(); umask(022); fail_at = 0; any_broken = any_noread = false; total_files = total_dirs = 0; (void) pool; (void) npool;
    fsx_fresh("outside"); if (mkdir("kept", 0755) != 0 || mkdir("kept/deep", 0755) != 0) _exit(103); { FILE *f = fopen("kept/file", "w"); fclose(f); }
    fsx_fresh("w"); if (mkdir("t", 0755) != 0 || mkdir("t/in", 0755) != 0) _exit(103); snprintf(T, sizeof T, "%s/w", SC);
    unsigned kinds = FSX_FIFO | FSX_BIG; if (pbt_chance(1, 3)) kinds |= FSX_OUTLINKS; if (pbt_chance(1, 4)) kinds |= FSX_DANGLING; if (pbt_chance(1, 8)) kinds |= FSX_MODES;
    { const char *r[1] = { T }; fsx_grow(r, 1, "t", 4, kinds); }
    if (pbt_uniform(0, 39) == 23) { char deep[1200] = "t/in"; int d = 5 + (int) pbt_pick(25); for (int i = 0; i < d && i < 11; i++) { strcat(deep, "/deeper-and-deeper-and-deeper-still"); if (mkdir(deep, 0755) != 0) break; } pbt_label("deep"); }
    if (pbt_large(400)) { char deep[1600] = "t"; int d = 20 + (int) pbt_u64(0, 450); for (int i = 0; i < d; i++) { strcat(deep, i % 7 ? "/d" : "/e"); if (mkdir(deep, 0755) != 0 && errno != EEXIST) break; if (i % 50 == 49 || i == d - 1) { char ff[1700]; snprintf(ff, sizeof ff, "%s/f", deep); FILE *o = fopen(ff, "w"); if (o) fclose(o); } } pbt_label("hundreds of levels"); }
    if (chdir(T) != 0) _exit(103);
    static const char *const forms[] = { "t", "t/", "t//", "./t", "t/../t", "." };
    if (rootwalk) { strcpy(path, pbt_chance(1, 2) ? "/" : "//"); pbt_label("root"); }
    else if (pbt_chance(1, 12)) { static const char *const m[] = { "nothing", "", "t/nothing", "t/nothing/" }; strcpy(path, m[pbt_pick(4)]); missing = true; }
    else if (pbt_chance(1, 4)) snprintf(path, sizeof path, "%s/%s", T, forms[pbt_pick(3)]);
    else { strcpy(path, forms[pbt_pick(6)]); if (!strcmp(path, ".") && chdir("t") != 0) _exit(103); }
    if (!missing) { if (rootwalk) { DIR *d = __real_opendir("/"); struct dirent *e; size_t cap = 0; while ((e = __real_readdir(d)) != NULL) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; if (root.nkid == cap) { cap = cap ? cap * 2 : 8; root.kid = raw_realloc(root.kid, cap * sizeof *root.kid); } node *t = mk(e->d_name); char p[300]; struct stat s, l; snprintf(p, sizeof p, "/%s", e->d_name); t->optional = lstat(p, &l) != 0 || S_ISLNK(l.st_mode); if (stat(p, &s) != 0) { t->broken = any_broken = true; t->type = '?'; } else t->type = S_ISREG(s.st_mode) ? 'f' : S_ISDIR(s.st_mode) ? 'd' : '?'; root.kid[root.nkid++] = *t; raw_free(t); } __real_closedir(d); } else scan(&root, path, 0); }
    fds = fsx_open_fds(); dirs_open = 0;
    bool walk = pbt_chance(2, 3); long stop_at = pbt_chance(1, 3) ? 1 + (long) pbt_size(0, 30) : 0; int sv = stop_value(); if (walk && pbt_chance(1, 10)) sv = CORK_SKIP_DIRECTORY; fail_n = injected = 0; int fa = pbt_chance(1, 8) ? 1 + (int) pbt_size(0, 20) : 0;
    inner_at = pbt_chance(1, 8) ? 1 + (long) pbt_size(0, 12) : 0; inner_walk = pbt_chance(1, 2); inner_seen = 0;
    int rc; bool stopped; const char *what; long calls;
    pbt_trace("%s %s%s", walk ? "walk" : "iterate", pbt_quote(path, strlen(path)), fa ? ", a readdir fails" : ""); if (stop_at) pbt_trace(" stop with %d at call %ld", sv, stop_at);
    if (walk) {
        static struct walker w; memset(&w, 0, sizeof w); w.w.enter_directory = on_enter; w.w.file = on_file; w.w.leave_directory = on_leave; w.stack[0] = &root; strcpy(w.base, path); w.stop_at = stop_at; w.stop_value = sv; w.rootwalk = rootwalk; w.skip_some = pbt_chance(1, 3); w.skip_seed = pbt_u64(0, 1u << 20);
        what = "the walk"; watching = true; fail_at = fa; rc = cork_walk_directory(path, &w.w); fail_at = 0; watching = false; stopped = w.stopped;
        if (stopped && sv == CORK_SKIP_DIRECTORY) pbt_label("stop value is the skip value");
        calls = w.calls; nontriv = w.nested; if (rc == 0 && !stopped) { CHECK(w.depth == 0, "the walk ended inside %s", w.stack[w.depth]->name); full_visit(&root, path); }
        if (!strcmp(path, "") == 0 && stopped) pbt_label("walk stopped");
    } else {
        struct iter it = { &root, path, 0, stop_at, sv, false, pbt_chance(1, 2) }; if (it.stop_value == 0) it.stop_value = 1; struct cork_file *f = cork_file_new(path);
        what = "the iteration"; watching = true; fail_at = fa; rc = cork_file_iterate_directory(f, on_child, &it); fail_at = 0; watching = false; stopped = it.stopped; calls = it.calls; nontriv = root.nkid > 1;
        if (rc == 0 && !stopped) for (size_t i = 0; i < root.nkid; i++) CHECK(root.kid[i].seen, "entry %s is missing from the iteration", pbt_quote(root.kid[i].name, strlen(root.kid[i].name)));
        cork_file_free(f); if (stopped) pbt_label("iteration stopped");
    }
    bool err = cork_error_occurred(); char em[600]; snprintf(em, sizeof em, "%s", err ? cork_error_message() : "no error"); cork_error_clear();
    if (stopped) CHECK(rc == sv, "%s returned %d, but the callback had stopped it with %d", what, rc, sv);
    else if (missing) { CHECK(rc == -1 && err, "%s of a directory that does not exist returned %d with %s", what, rc, em); pbt_label("missing"); }
    else if (rc != 0) { CHECK(rc == -1 && err, "%s returned %d with %s", what, rc, em); CHECK(injected || (any_broken && walk) || any_noread, "%s of %s failed: %s", what, path, em); pbt_label(injected ? "readdir failed" : "unreadable entry"); }
    else { CHECK(!err, "%s left an error behind: %s", what, em); CHECK(!injected, "%s succeeded although reading the directory failed", what); CHECK(!(any_noread && walk && !rootwalk && root.noread), "unreadable root"); pbt_label(walk ? "complete walk" : "complete iteration"); if (kinds & FSX_OUTLINKS) pbt_label("with links"); }
    (void) calls;
    CHECK(dirs_open == 0, "%d directories are still open after %s", dirs_open, what); CHECK(fsx_open_fds() == fds, "a file descriptor was left open by %s", what);
    drop(&root); if (nontriv && !rootwalk) pbt_nontrivial();
    if (chdir(SC) != 0) { }
}
