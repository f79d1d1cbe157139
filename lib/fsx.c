#include "fsx.h"
#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

unsigned fsx_objects;
static char SC[600];
void fsx_init(void) { pbt_drop_privileges(); umask(022); snprintf(SC, sizeof SC, "%s", pbt_scratch()); }
static int open1(const char *p, const struct stat *s, int t, struct FTW *f) { (void) s; (void) f; if (t == FTW_D || t == FTW_DNR) chmod(p, 0700); return 0; }
static int rm1(const char *p, const struct stat *s, int t, struct FTW *f) { (void) s; (void) f; if (t == FTW_DP || t == FTW_D || t == FTW_DNR) rmdir(p); else unlink(p); return 0; }
void fsx_fresh(const char *dir)
{
    char p[700]; struct stat sb; if (chdir(SC) != 0) { perror("scratch"); _exit(103); }
    snprintf(p, sizeof p, "%s/%s", SC, dir);
    /* only ever below the scratch directory, and never through a link */
    for (int i = 0; i < 40 && lstat(p, &sb) == 0; i++) { nftw(p, open1, 32, FTW_PHYS); nftw(p, rm1, 32, FTW_PHYS | FTW_DEPTH); }
    if (mkdir(p, 0700) != 0 || chmod(p, 0755) != 0 || chdir(p) != 0) { perror(p); _exit(103); }
}
const char *fsx_name(void)
{
    static char ring[16][260]; static int k; char *o = ring[k = (k + 1) & 15];
    switch (pbt_pick(8)) {
        case 0: { size_t n = 1 + pbt_pick(3); for (size_t i = 0; i < n; i++) o[i] = "ab.-_ ~*"[pbt_pick(8)]; o[n] = 0; if (!strcmp(o, ".") || !strcmp(o, "..")) o[n - 1] = 'x'; break; }
        case 1: { static const char *const s[] = { "...", ".hidden", "..a", "x.txt", "with space", "\xc3\xa9", "-r" }; strcpy(o, s[pbt_pick(7)]); break; }
        case 2: if (pbt_uniform(0, 19) == 11) { size_t n = pbt_uniform(200, 255); memset(o, 'n', n); o[n] = 0; break; } /* fall through */
        default: o[0] = "abcdefgh"[pbt_pick(8)]; o[1] = 0;
    }
    return o;
}
static void put(const char *p, const char *s) { int fd = open(p, O_WRONLY | O_CREAT | O_EXCL, 0644); if (fd >= 0) { if (write(fd, s, strlen(s)) < 0) { } close(fd); } }
void fsx_grow(const char *const *roots, int n, const char *rel, int depth, unsigned kinds)
{
    unsigned st = 0; size_t big = kinds & FSX_BIG && pbt_uniform(0, 199) == 133 ? 900 + pbt_pick(1500) : 0;
    char p[4200], sub[2000];
    for (size_t i = 0; i < big; i++) for (int r = 0; r < n; r++) { snprintf(p, sizeof p, "%s/%s/entry-number-%zu", roots[r], rel, i); put(p, ""); }
    if (big) { fsx_objects += big; pbt_trace("%s: %zu small files", rel, big); }
    while (strlen(rel) < 1200 && pbt_more(&st, 3, 12)) {
        const char *nm = fsx_name(); unsigned t = (unsigned) pbt_pick(10); snprintf(sub, sizeof sub, "%s%s%s", rel, *rel ? "/" : "", nm);
        char tgt[300]; tgt[0] = 0; const char *kind = "file"; int mode = -1;
        if (t < 4 && depth > 0) { kind = "dir"; }
        else if (t == 4 && kinds & FSX_LINKS) { kind = "link"; static const char *const c[] = { "a", "b", "../a", "../b", "c/a", "./d" }; strcpy(tgt, c[pbt_pick(6)]); }
        else if (t == 5 && kinds & FSX_DANGLING) { kind = "link"; strcpy(tgt, pbt_chance(1, 2) ? "no-such-thing" : "no/such/thing"); }
        else if (t == 6 && kinds & FSX_LOOPS) { kind = "link"; if (pbt_chance(1, 2)) snprintf(tgt, sizeof tgt, "%s", nm); else strcpy(tgt, pbt_chance(1, 2) ? "." : ".."); }
        else if (t == 7 && kinds & FSX_OUTLINKS) { kind = "outlink"; strcpy(tgt, pbt_chance(1, 2) ? "outside" : "outside/kept"); }
        else if (t == 8 && kinds & FSX_FIFO) { static const char *const k[] = { "fifo", "fifo", "socket", "device" }; kind = k[pbt_pick(4)]; if (*kind == 'd') { kind = "link"; strcpy(tgt, "/dev/null"); } }
        bool made = false;
        for (int r = 0; r < n; r++) {
            snprintf(p, sizeof p, "%s/%s", roots[r], sub); struct stat sb; if (lstat(p, &sb) == 0) continue; made = true;
            if (!strcmp(kind, "dir")) { if (mkdir(p, 0755) != 0) { perror(p); _exit(103); } }
            else if (!strcmp(kind, "link")) { if (symlink(tgt, p) != 0) { perror(p); _exit(103); } }
            else if (!strcmp(kind, "outlink")) { char t2[700]; snprintf(t2, sizeof t2, "%s/%s", SC, tgt); if (symlink(t2, p) != 0) { perror(p); _exit(103); } }
            else if (!strcmp(kind, "fifo")) { if (mkfifo(p, 0644) != 0) { perror(p); _exit(103); } }
            else if (!strcmp(kind, "socket")) { if (mknod(p, S_IFSOCK | 0644, 0) != 0) { perror(p); _exit(103); } }
            else put(p, sub);
        }
        if (!made) continue;
        fsx_objects++; pbt_trace("made %s %s%s%s", kind, pbt_quote(sub, strlen(sub)), *tgt ? " -> " : "", tgt);
        if (!strcmp(kind, "dir")) fsx_grow(roots, n, sub, depth - 1, kinds);
        if (kinds & FSX_MODES && !strstr(kind, "link") && pbt_chance(1, 10)) {
            static const int m[] = { 0, 0555, 0333, 0111, 0700, 0444 }; mode = m[pbt_pick(6)]; pbt_trace("  with mode %04o", mode);
            for (int r = 0; r < n; r++) { snprintf(p, sizeof p, "%s/%s", roots[r], sub); chmod(p, mode); }
        }
    }
}
struct buf { char *b; size_t n, cap; };
static void add(struct buf *o, const char *s) { size_t l = strlen(s); if (o->n + l + 1 > o->cap) { o->cap = (o->n + l + 1) * 2; o->b = raw_realloc(o->b, o->cap); } memcpy(o->b + o->n, s, l + 1); o->n += l; }
static int by(const void *a, const void *b) { return strcmp(*(char *const *) a, *(char *const *) b); }
static void listdir(struct buf *o, const char *dir, const char *rel, int depth)
{
    struct stat d; char p[6000], line[8000]; char **nm = NULL; size_t n = 0, cap = 0; struct dirent *e;
    if (depth > 220 || lstat(dir, &d) != 0 || !S_ISDIR(d.st_mode)) return;
    if ((d.st_mode & 0700) != 0700) chmod(dir, 0700);
    DIR *D = opendir(dir); if (!D) { add(o, "?unreadable\n"); return; }
    while ((e = readdir(D)) != NULL) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; if (n == cap) { cap = cap ? cap * 2 : 16; nm = raw_realloc(nm, cap * sizeof *nm); } size_t l = strlen(e->d_name); nm[n] = raw_malloc(l + 1); memcpy(nm[n++], e->d_name, l + 1); }
    closedir(D);
    qsort(nm, n, sizeof *nm, by);
    for (size_t i = 0; i < n; i++) {
        struct stat s; char rl[3000]; snprintf(p, sizeof p, "%s/%s", dir, nm[i]); snprintf(rl, sizeof rl, "%s%s%s", rel, *rel ? "/" : "", nm[i]);
        if (lstat(p, &s) != 0) continue;
        char extra[1300] = "";
        if (S_ISLNK(s.st_mode)) { ssize_t k = readlink(p, extra, 1200); extra[k > 0 ? k : 0] = 0; }
        else if (S_ISREG(s.st_mode)) { if ((s.st_mode & 0400) == 0) chmod(p, 0400); int fd = open(p, O_RDONLY); if (fd >= 0) { ssize_t k = read(fd, extra, 1200); extra[k > 0 ? k : 0] = 0; close(fd); } if ((s.st_mode & 0400) == 0) chmod(p, s.st_mode & 07777); }
        snprintf(line, sizeof line, "%s\t%s %04o %s\n", rl, S_ISDIR(s.st_mode) ? "dir" : S_ISLNK(s.st_mode) ? "link" : S_ISREG(s.st_mode) ? "file" : S_ISFIFO(s.st_mode) ? "fifo" : S_ISSOCK(s.st_mode) ? "socket" : "other", (unsigned) (s.st_mode & 07777), extra);
        add(o, line);
        if (S_ISDIR(s.st_mode)) listdir(o, p, rl, depth + 1);
        raw_free(nm[i]);
    }
    raw_free(nm);
    if ((d.st_mode & 0700) != 0700) chmod(dir, d.st_mode & 07777);
}
const char *fsx_list(const char *dir)
{ static struct buf ring[6]; static int k; struct buf *o = &ring[k = (k + 1) % 6]; o->n = 0; add(o, ""); listdir(o, dir, "", 0); return o->b; }
const char *fsx_diff(const char *a, const char *b, const char *na, const char *nb)
{
    static char msg[3000]; if (!strcmp(a, b)) return NULL;
    while (*a && *b) { const char *ea = strchr(a, '\n'), *eb = strchr(b, '\n'); if (!ea || !eb) break; size_t la = (size_t) (ea - a), lb = (size_t) (eb - b); if (la != lb || memcmp(a, b, la) != 0) break; a = ea + 1; b = eb + 1; }
    const char *ea = strchr(a, '\n'), *eb = strchr(b, '\n'); int la = ea ? (int) (ea - a) : (int) strlen(a), lb = eb ? (int) (eb - b) : (int) strlen(b);
    snprintf(msg, sizeof msg, "%s has \"%.*s\" where %s has \"%.*s\"", na, la > 1000 ? 1000 : la, a, nb, lb > 1000 ? 1000 : lb, b); return msg;
}
int fsx_open_fds(void)
{ int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) { for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; } while (readdir(d)) n++; closedir(d); return n; }
