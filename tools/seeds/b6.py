exec(open("/verif/tools/seeds/pre.py").read())
PAR=PRE+'''
#include <libcork/os.h>
#include <libcork/threads.h>
#include <libcork/helpers/gc.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#define T 4
#define FAILS(cond) do { if (cond) _exit(1); } while (0)
static void one(int t, int i);
static void *body(void *v) { for (int i = 0; i < ROUNDS; i++) one((int) (long) v, i); return NULL; }
int main(void) { setenv("TZ", "Europe/Paris", 1); tzset(); pthread_t p[T]; for (long t = 0; t < T; t++) pthread_create(&p[t], NULL, body, (void *) t); for (int t = 0; t < T; t++) pthread_join(p[t], NULL); return 0; }
'''
def par(rounds, code): return "#define ROUNDS %d\n" % rounds + PAR.replace("#include <libcork/os.h>","#include <time.h>\n#include <libcork/os.h>") + code
BUGS=[
dict(id="par-localtime", prop="C40", edits=[("src/libcork/core/timestamp.c",'''    struct tm  tm;
    clock = cork_timestamp_sec(ts);
    localtime_r(&clock, &tm);
    return cork_timestamp_format_parts(ts, &tm, format, dest);''','''    struct tm  *tm;
    clock = cork_timestamp_sec(ts);
    tm = localtime(&clock);
    return cork_timestamp_format_parts(ts, tm, format, dest);''')],
 needs="two threads formatting local times at once", breaks="one gets the other's time",
 demo=par(60000,'''
static void one(int t, int i) { cork_timestamp ts; struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp_init_sec(&ts, 1000000000u + (unsigned) t * 100000000u); cork_timestamp_format_local(ts, "%Y-%m-%d %H:%M:%S", &b);
static const char *const w[] = { "2001-09-09 03:46:40", "2004-11-09 12:33:20", "2008-01-10 22:20:00", "2011-03-13 08:06:40" }; FAILS(strcmp(b.buf, w[t])); cork_buffer_done(&b); }''')),
dict(id="par-hex-static", prop="C40", edits=[("src/libcork/ds/buffer.c","    char  hex[3 * 16];\n    char  print[16];","    static char  hex[3 * 16];\n    static char  print[16];")],
 needs="two threads making hex dumps at once", breaks="the lines mix",
 demo=par(20000,'''
static void one(int t, int i) { struct cork_buffer b = CORK_BUFFER_INIT(), w = CORK_BUFFER_INIT(); char d[40]; memset(d, 'a' + t, 40); cork_buffer_append_hex_dump(&b, 0, d, 40); int n = 0; for (size_t k = 0; k < b.size; k++) { char c = b.buf ? ((char *) b.buf)[k] : 0; n += c == 'a' + t && (k % 68) > 48; if (c >= 'g' && c <= 'z') FAILS(1); FAILS((k % 68) > 49 && c >= 'a' && c <= 'd' && c != 'a' + t); } cork_buffer_done(&b); }''')),
dict(id="par-consume-static", prop="C40", edits=[("src/libcork/ds/file-stream.c",'''    char  buf[BUFFER_SIZE];
    ssize_t  bytes_read;''','''    static char  buf[BUFFER_SIZE];
    ssize_t  bytes_read;''')],
 needs="two threads reading files at once", breaks="a thread gets the other one's bytes",
 demo=par(50,'''
static __thread char mine; static int dt(struct cork_stream_consumer *c, const void *b, size_t n, bool f) { usleep(500); const char *s = b; for (size_t i = 0; i < n; i++) FAILS(s[i] != mine); return 0; }
static int ef(struct cork_stream_consumer *c) { return 0; }
static void one(int t, int i) { int fd[2]; char d[4000]; mine = 'a' + t; memset(d, mine, 4000); pipe(fd); write(fd[1], d, 4000); close(fd[1]); struct cork_stream_consumer c = { dt, ef, NULL }; FAILS(cork_consume_fd(&c, fd[0])); close(fd[0]); }''')),
dict(id="par-walk-static", prop="C40", edits=[("src/libcork/posix/directory-walker.c","    while ((entry = readdir(dir)) != NULL) {\n        struct stat  info;","    while ((entry = readdir(dir)) != NULL) {\n        static struct stat  info;")],
 needs="two threads walking directories with different kinds of entries at once", breaks="a file is taken for a directory, or the other way round",
 demo=par(1500,'''
struct wk { struct cork_dir_walker p; int f, d, l; };
static int en(struct cork_dir_walker *w, const char *a, const char *b, const char *c) { ((struct wk *) w)->d++; return 0; }
static int fi(struct cork_dir_walker *w, const char *a, const char *b, const char *c) { ((struct wk *) w)->f++; return 0; }
static int le(struct cork_dir_walker *w, const char *a, const char *b, const char *c) { ((struct wk *) w)->l++; return 0; }
static void one(int t, int i) { char n[40], m[60]; sprintf(n, "t%d", t); mkdir(n, 0755); for (int k = 0; k < 6; k++) { sprintf(m, "t%d/x%d", t, k); if (t & 1) mkdir(m, 0755); else close(open(m, O_CREAT | O_WRONLY, 0644)); }
struct wk w = { { en, fi, le }, 0, 0, 0 }; FAILS(cork_walk_directory(n, &w.p)); FAILS(w.d != (t & 1 ? 6 : 0) || w.f != (t & 1 ? 0 : 6)); }''')),
dict(id="par-gc-global", prop="C40", edits=[("src/libcork/core/gc.c","cork_tls(struct cork_gc, cork_gc);","static struct cork_gc  cork_gc__global;\n#define cork_gc_get()  (&cork_gc__global)")],
 needs="two threads collecting garbage at once", breaks="one thread's collection handles the other's objects",
 demo=par(20000,'''
struct nd { struct nd *k; int t; }; static __thread int freed, bad; static __thread int self = -1;
_free_(nd) { struct nd *s = obj; if (s->t != self) FAILS(1); freed++; } _recurse_(nd) { struct nd *s = obj; recurse(gc, s->k, ud); } _gc_(nd);
static void one(int t, int i) { self = t; freed = 0; for (int k = 0; k < 50; k++) { struct nd *a = cork_gc_new(nd), *b = cork_gc_new(nd); a->t = b->t = t; a->k = b; b->k = cork_gc_incref(a); cork_gc_decref(a); } cork_gc_done(); FAILS(freed != 100); }''')),
dict(id="par-walk-buffer", prop="C40", edits=[("src/libcork/posix/directory-walker.c","    struct cork_buffer  buf = CORK_BUFFER_INIT();","    static struct cork_buffer  buf = CORK_BUFFER_INIT();")],
 needs="two walks at once, in different threads or one within the other", breaks="the walks share their path", also=["C29"],
 demo=par(1,'''
static int en(struct cork_dir_walker *w, const char *a, const char *b, const char *c) { return 0; } static int depth;
static int fi(struct cork_dir_walker *w, const char *a, const char *b, const char *c) { FAILS(strncmp(a, "o/f", 3)); return 0; }
static int fi2(struct cork_dir_walker *w, const char *a, const char *b, const char *c) { struct cork_dir_walker i = { en, fi, en }; FAILS(strncmp(a, "outer/f", 7)); FAILS(cork_walk_directory("o", &i)); FAILS(strncmp(a, "outer/f", 7)); return 0; }
static void one(int t, int i) { if (t) return; mkdir("o", 0755); mkdir("outer", 0755); char m[60]; for (int k = 0; k < 3; k++) { sprintf(m, "o/f%d", k); close(open(m, O_CREAT | O_WRONLY, 0644)); sprintf(m, "outer/f%d", k); close(open(m, O_CREAT | O_WRONLY, 0644)); } struct cork_dir_walker w = { en, fi2, en }; FAILS(cork_walk_directory("outer", &w)); }''')),
dict(id="par-find-static", prop="C40", edits=[("src/libcork/posix/files.c","""    struct cork_file  child_file;""","""    static struct cork_file  child_file;""")],
 needs="two directories iterated at once, in different threads or one within the other", breaks="the iterations share their entry", also=["C29"],
 demo=par(1,'''
static int in(struct cork_file *f, const char *r, void *u) { return 0; }
static int out(struct cork_file *f, const char *r, void *u) { struct cork_file *g = cork_file_new("o"); FAILS(cork_file_iterate_directory(g, in, NULL)); cork_file_free(g); enum cork_file_type ty; FAILS(cork_file_type(f, &ty)); FAILS(ty != CORK_FILE_REGULAR); FAILS(strncmp(cork_path_get(cork_file_path(f)), "outer/f", 7)); return 0; }
static void one(int t, int i) { if (t) return; mkdir("o", 0755); mkdir("outer", 0755); char m[60]; for (int k = 0; k < 3; k++) { sprintf(m, "o/f%d", k); mkdir(m, 0755); sprintf(m, "outer/f%d", k); close(open(m, O_CREAT | O_WRONLY, 0644)); } struct cork_file *f = cork_file_new("outer"); FAILS(cork_file_iterate_directory(f, out, NULL)); cork_file_free(f); }''')),
dict(id="par-list-static", prop="C40", edits=[("src/libcork/posix/files.c",'''    struct cork_path  *path;
    const char  *curr = str;
    const char  *next;
''','''    static struct cork_path  *path;
    const char  *curr = str;
    const char  *next;
''')], needs="two threads building path lists at once", breaks="a path lands in the other thread's list",
 demo=par(30000,'''
static void one(int t, int i) { char s[60]; sprintf(s, "%c:%c:%c:%c", 'a' + t, 'a' + t, 'a' + t, 'a' + t); struct cork_path_list *l = cork_path_list_new(s); FAILS(strcmp(cork_path_list_to_string(l), s)); for (int k = 0; k < 4; k++) FAILS(cork_path_get(cork_path_list_get(l, k))[0] != 'a' + t); cork_path_list_free(l); }''')),
]
