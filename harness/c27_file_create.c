/* File queries and directory creation, against the system calls on a twin tree. */
#include "pbt.h"
#include "acct.h"
#include "fsx.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/os.h"
const char *pbt_rule = "a case is a generated tree (directories, files, links of all kinds, fifos, odd modes), built twice, and a history over three file objects of queries, mkdir with every combination of flags, modes and masks (sometimes racing with another creator), and outside changes; the first tree is handled by libcork, the second by plain system calls, results and trees are compared after every operation; non-trivial: at least one directory asked for through a path of two or more components";
static char A[720], B[720], AT[700], BT[700], SC[600];
static struct { struct cork_file *f; char path[1200]; unsigned seen; } F[3];
extern int __real_mkdir(const char *, mode_t);
static int race_at, race_n; static bool raced;
int __wrap_mkdir(const char *p, mode_t m)
{ if (race_at && ++race_n == race_at) { if (__real_mkdir(p, m) == 0) { raced = true; errno = EEXIST; } return -1; } return __real_mkdir(p, m); }

enum { ERR = 31 };
/* every answer that agrees with the file system now, as a bit set over enum cork_file_type and ERR */
static unsigned kind(const struct stat *s) { return 1u << (S_ISREG(s->st_mode) ? CORK_FILE_REGULAR : S_ISDIR(s->st_mode) ? CORK_FILE_DIRECTORY : S_ISLNK(s->st_mode) ? CORK_FILE_SYMLINK : CORK_FILE_UNKNOWN); }
static unsigned look(const char *p)
{
    struct stat s; unsigned r = 0;
    for (int l = 0; l < 2; l++) {
        if ((l ? lstat(p, &s) : stat(p, &s)) == 0) r |= kind(&s);
        else if (errno == ENOENT || errno == ENOTDIR) r |= 1u << CORK_FILE_MISSING;
        else if (errno == ELOOP || errno == ENAMETOOLONG) r |= 1u << CORK_FILE_MISSING | 1u << ERR;
        else r |= 1u << ERR;
    }
    return r;
}
static bool isdir(const char *p) { struct stat s; return stat(p, &s) == 0 && S_ISDIR(s.st_mode); }
/* mkdir -p and friends by plain system calls; 0 on success */
static int ref_mkdir(const char *path, mode_t mode, bool rec, bool perm)
{
    char p[1300]; struct stat s; strcpy(p, path);
    if (stat(p, &s) == 0) return S_ISDIR(s.st_mode) && perm ? 0 : -1;
    if (rec) {
        size_t l = strlen(p); while (l > 1 && p[l - 1] == '/') p[--l] = 0;
        for (size_t i = 1; i < l; i++) if (p[i] == '/' && p[i - 1] != '/') { p[i] = 0; if (!isdir(p) && mkdir(p, mode) != 0 && !isdir(p)) return -1; p[i] = '/'; }
    }
    if (mkdir(p, mode) == 0) return 0;
    return perm && isdir(p) ? 0 : -1;
}
static const char *gen_path(unsigned *comps)
{
    static char o[1200]; size_t n = 0; unsigned st = 0, c = 0; bool hang = false;
    if (pbt_uniform(0, 24) == 7) { o[0] = 0; *comps = 0; return o; }
    if (pbt_chance(1, 6)) { n = sprintf(o, "%s/", A); }
    do {
        const char *s = pbt_chance(1, 14) ? ".." : pbt_chance(1, 14) ? "." : fsx_name(); if (n + strlen(s) > 900) break;
        if (c) { o[n++] = '/'; if (pbt_chance(1, 10)) o[n++] = '/'; }
        strcpy(o + n, s); n += strlen(s); c++; hang = s[0] == '.' && (s[1] == 0 || (s[1] == '.' && s[2] == 0));
    } while (pbt_more(&st, 3, 6));
    /* climbing above the tree is of no use */
    int d = 0; char t[1200]; strcpy(t, o[0] == '/' ? o + strlen(A) : o); for (char *k = strtok(t, "/"); k; k = strtok(NULL, "/")) { if (!strcmp(k, "..")) d--; else if (strcmp(k, ".")) d++; if (d < 0) { strcpy(o, "a"); n = 1; c = 1; hang = false; break; } }
    (void) hang;
    if (pbt_chance(1, 8)) { o[n++] = '/'; o[n] = 0; if (pbt_chance(1, 4)) { o[n++] = '/'; o[n] = 0; } }
    *comps = c; return o;
}
static const char *twin(const char *p)   /* the same path in B */
{ static char o[1400]; if (p[0] == '/') snprintf(o, sizeof o, "%s%s", B, p + strlen(A)); else snprintf(o, sizeof o, "%s", p); return o; }
static bool ends_in_dots(const char *p)
{ size_t l = strlen(p); while (l && p[l - 1] == '/') l--; size_t s = l; while (s && p[s - 1] != '/') s--; return (l - s == 1 && p[s] == '.') || (l - s == 2 && p[s] == '.' && p[s + 1] == '.'); }
static void outside(unsigned what, const char *p, int m)
{
    struct stat s; if (lstat(p, &s) != 0) memset(&s, 0, sizeof s); int fd;
    switch (what) {
        case 0: fd = open(p, O_WRONLY | O_CREAT | O_EXCL, 0644); if (fd >= 0) close(fd); break;
        case 1: if (mkdir(p, 0755) != 0) { } break;
        case 2: if (unlink(p) != 0 && rmdir(p) != 0) { } break;
        case 3: if (symlink("a", p) != 0) { } break;
        default: if (S_ISDIR(s.st_mode) || S_ISREG(s.st_mode)) chmod(p, (mode_t) m); break;
    }
}
void pbt_init(void) { acct_install(); fsx_init(); snprintf(SC, sizeof SC, "%s", pbt_scratch()); cork_error_clear(); }
void pbt_case(void)
{
    static const mode_t masks[] = { 022, 0, 077, 027 }, modes[] = { 0755, 0750, 0700, 0777, 0711, 0500, 0, 01777, 0600 };
    unsigned st = 0; bool deep = false; int fds;
    cork_error_clear(); umask(022); race_at = 0;
    /* some levels further down, so that links to ".." stay inside */
    fsx_fresh("t1"); if (!getcwd(AT, sizeof AT) || mkdir("1", 0755) != 0 || mkdir("1/2", 0755) != 0 || mkdir("1/2/3", 0755) != 0) _exit(103);
    fsx_fresh("t2"); if (!getcwd(BT, sizeof BT) || mkdir("1", 0755) != 0 || mkdir("1/2", 0755) != 0 || mkdir("1/2/3", 0755) != 0) _exit(103);
    snprintf(A, sizeof A, "%s/1/2/3", AT); snprintf(B, sizeof B, "%s/1/2/3", BT);
    { const char *r[2] = { A, B }; fsx_objects = 0; fsx_grow(r, 2, "", 3, FSX_LINKS | FSX_DANGLING | FSX_LOOPS | FSX_FIFO | FSX_MODES); }
    memset(F, 0, sizeof F); mode_t mask = masks[pbt_pick(4)]; umask(mask); fds = fsx_open_fds();
    while (pbt_more(&st, 8, 40)) {
        unsigned k = (unsigned) pbt_pick(3), op = (unsigned) pbt_pick(10); unsigned comps;
        if (!F[k].f || pbt_chance(1, 4)) {
            if (F[k].f) cork_file_free(F[k].f);
            strcpy(F[k].path, gen_path(&comps)); F[k].seen = 0; if (comps > 1) deep = true;
            if (pbt_chance(1, 2)) F[k].f = cork_file_new(F[k].path); else F[k].f = cork_file_new_from_path(cork_path_new(F[k].path));
            CHECK(!strcmp(cork_path_get(cork_file_path(F[k].f)), F[k].path), "the path of the file is %s, expected %s", cork_path_get(cork_file_path(F[k].f)), F[k].path);
        }
        const char *p = F[k].path; if (chdir(A) != 0) _exit(103);
        if (op < 3) {
            bool ex = 7; enum cork_file_type ty = 99; unsigned now = look(p), may = now | F[k].seen; bool first = pbt_chance(1, 2); int r1 = 0, r2;
            pbt_trace("query %s", pbt_quote(p, strlen(p))); if (first) r1 = cork_file_exists(F[k].f, &ex);
            CHECK(r1 == 0 || cork_error_occurred(), "the query of %s failed without an error", p); if (r1) cork_error_clear(); else CHECK(!cork_error_occurred(), "the query of %s left an error behind", p);
            r2 = cork_file_type(F[k].f, &ty);
            if (r2) { CHECK(cork_error_occurred(), "the query of %s failed without an error", p); CHECK(may >> ERR & 1, "the type of %s cannot be queried: %s", pbt_quote(p, strlen(p)), cork_error_message()); cork_error_clear(); if (first) CHECK(r1 != 0 || (F[k].seen && !(now >> ERR & 1)), "existence of %s is known, but not its type", p); F[k].seen |= 1u << ERR; pbt_label("query error"); }
            else {
                CHECK(!cork_error_occurred(), "the query of %s left an error behind", p); CHECK((unsigned) ty < 5, "the type of %s is %u", p, (unsigned) ty);
                CHECK(may >> ty & 1, "the type of %s is reported as %u, expected %s%s%s%s%s%s", pbt_quote(p, strlen(p)), (unsigned) ty, may & 1 ? "missing " : "", may & 2 ? "regular " : "", may & 4 ? "directory " : "", may & 8 ? "link " : "", may & 16 ? "other " : "", may >> ERR & 1 ? "error" : "");
                if (first && r1 == 0) CHECK(ex == (ty != CORK_FILE_MISSING), "%s is said %s, with type %u", pbt_quote(p, strlen(p)), ex ? "to exist" : "not to exist", (unsigned) ty);
                if (!first) { ex = 7; CHECK(cork_file_exists(F[k].f, &ex) == 0, "existence of %s cannot be queried: %s", p, cork_error_message()); CHECK(ex == (ty != CORK_FILE_MISSING), "%s is said %s, with type %u", pbt_quote(p, strlen(p)), ex ? "to exist" : "not to exist", (unsigned) ty); }
                F[k].seen |= 1u << ty; static const char *const nm[] = { "type missing", "type regular", "type directory", "type link", "type unknown" }; pbt_label(nm[ty]);
            }
        } else if (op < 8) {
            bool rec = pbt_chance(1, 2), perm = pbt_chance(1, 2); mode_t mode = modes[pbt_chance(2, 3) ? 0 : pbt_pick(9)]; unsigned now = look(p);
            if (ends_in_dots(p) && !isdir(p)) continue;     /* whether "new/." is one directory or an error is not settled */
            if (isdir(p) && !perm && pbt_chance(1, 2)) perm = true;
            const char *before = fsx_list(AT); race_n = 0; raced = false; race_at = perm && pbt_chance(1, 10) ? 1 + (int) pbt_pick(3) : 0;
            pbt_trace("mkdir %s mode %04o mask %04o%s%s%s", pbt_quote(p, strlen(p)), (unsigned) mode, (unsigned) mask, rec ? " recursive" : "", perm ? " permissive" : "", race_at ? " racing" : "");
            int rc = cork_file_mkdir(F[k].f, mode, (rec ? CORK_FILE_RECURSIVE : 0) | (perm ? CORK_FILE_PERMISSIVE : 0));
            race_at = 0; if (chdir(B) != 0) _exit(103);
            int want = ref_mkdir(twin(p), mode, rec, perm); const char *a = fsx_list(AT), *b = fsx_list(BT), *d;
            if (rc != 0) CHECK(cork_error_occurred(), "mkdir %s failed without an error", pbt_quote(p, strlen(p))); else CHECK(!cork_error_occurred(), "mkdir %s left an error behind: %s", p, cork_error_message());
            CHECK((rc == 0) == (want == 0), "mkdir %s %s%s, expected it to %s", pbt_quote(p, strlen(p)), rc == 0 ? "succeeded" : "failed: ", rc ? cork_error_message() : "", want == 0 ? "succeed" : "fail");
            CHECK(rc == 0 || rc == -1, "mkdir returned %d", rc); cork_error_clear();
            d = fsx_diff(a, b, "the tree after libcork", "the tree after mkdir(2)");
            if (d && rc != 0 && !strcmp(a, before)) { pbt_label("failed without trace"); break; }
            if (d) pbt_fail("mkdir %s (%s): %s", pbt_quote(p, strlen(p)), rc == 0 ? "successful" : "failed", d);
            if (rc == 0) F[k].seen = strcmp(a, before) ? 0 : F[k].seen | now; else F[k].seen |= now;
            pbt_label(rc ? "mkdir failed" : strcmp(a, before) ? "mkdir created" : "mkdir found it there"); if (raced) pbt_label("mkdir raced"); if (rec && rc == 0 && strcmp(a, before)) pbt_label("recursive mkdir created");
        } else {
            unsigned w = (unsigned) pbt_pick(5); unsigned q = (unsigned) pbt_pick(3); static const int m[] = { 0755, 0, 0555, 0333 }; int md = m[pbt_pick(4)]; const char *pp = F[q].f ? F[q].path : p; if (!*pp || ends_in_dots(pp) || pp[strlen(pp) - 1] == '/') continue;
            pbt_trace("outside: %s %s", w == 0 ? "touch" : w == 1 ? "mkdir" : w == 2 ? "rm" : w == 3 ? "link" : "chmod", pbt_quote(pp, strlen(pp)));
            umask(022); outside(w, pp, md); if (chdir(B) != 0) _exit(103); outside(w, twin(pp), md); umask(mask);
            const char *d = fsx_diff(fsx_list(AT), fsx_list(BT), "1", "2"); if (d) { fprintf(stderr, "twins: %s\n", d); _exit(103); } pbt_label("outside change");
        }
    }
    for (int k = 0; k < 3; k++) if (F[k].f) cork_file_free(F[k].f);
    CHECK(fsx_open_fds() == fds, "a file descriptor was left open");
    if (deep) pbt_nontrivial();
    umask(022); if (chdir(SC) != 0) { }
}
