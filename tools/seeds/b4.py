exec(open("/verif/tools/seeds/pre.py").read())
F="src/libcork/posix/files.c"; W="src/libcork/posix/directory-walker.c"; S="src/libcork/ds/file-stream.c"
PRE=PRE+'''
#include <libcork/os.h>
#include <libcork/helpers/errors.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
'''
BUGS=[
dict(id="pa-cwd-stale-size", prop="C25", edits=[(F,'''    rip_check_posix(getcwd(path->given.buf, PATH_MAX));
    path->given.size = strlen(path->given.buf);''','''    rip_check_posix(getcwd(path->given.buf, PATH_MAX));
    if (path->given.size < strlen(path->given.buf)) {
        path->given.size = strlen(path->given.buf);
    }''')],
 needs="setting a path that was longer than the current directory's to it, and then appending to it",
 breaks="the appended part is lost behind a NUL byte",
 demo=PRE+'''
int main(void) {
    char w[4096]; struct cork_path *p; char big[4096]; memset(big, 'x', 4000); big[4000] = 0;
    p = cork_path_new(big); CHECK(cork_path_set_cwd(p) == 0); cork_path_append(p, "a"); getcwd(w, 4000); strcat(w, "/a");
    CHECK(strcmp(cork_path_get(p), w) == 0);
    return 0;
}'''),
dict(id="pa-absolute-empty", prop="C25", edits=[(F,'''    if (path->given.size > 0 &&
        cork_buffer_char(&path->given, 0) == '/') {
        /* The path''','''    if (path->given.size == 0 ||
        cork_buffer_char(&path->given, 0) == '/') {
        /* The path''')],
 needs="making an empty path absolute", breaks="it stays empty, which is not absolute",
 demo=PRE+'''
int main(void) {
    struct cork_path *p = cork_path_new(""); CHECK(cork_path_set_absolute(p) == 0); CHECK(cork_path_get(p)[0] == '/');
    return 0;
}'''),
dict(id="pa-dirname-root", prop="C25", edits=[(F,'''        if (offset == 0) {
            /* A special''','''        if (offset == 0 && path->given.size > 1) {
            /* A special''')],
 needs="the directory name of the root directory", breaks="it is empty",
 demo=PRE+'''
int main(void) {
    struct cork_path *p = cork_path_new("/"); cork_path_set_dirname(p); CHECK(strcmp(cork_path_get(p), "/") == 0);
    return 0;
}'''),
dict(id="pl-empty-first", prop="C26", edits=[(F,"    if (cork_array_size(&list->array) > 1) {\n        cork_buffer_append","    if (list->string.size > 0) {\n        cork_buffer_append")],
 needs="a list whose first entries are empty", breaks="its string form lacks a colon",
 demo=PRE+'''
int main(void) {
    struct cork_path_list *l = cork_path_list_new("::a"); CHECK(strcmp(cork_path_list_to_string(l), "::a") == 0);
    return 0;
}'''),
dict(id="pl-find-files-error", prop="C26", edits=[(F,'''        ei_check(cork_file_exists(file, &exists));
        if (exists) {
            cork_file_list_add(list, file);''','''        exists = false;
        if (cork_file_exists(file, &exists) == -1) {
            cork_error_clear();
        }
        if (exists) {
            cork_file_list_add(list, file);'''),(F,'''    return list;

error:
    cork_file_list_free(list);
    cork_file_free(file);
    return NULL;''','''    return list;''')],
 needs="searching a list for all files of a name, with a directory that cannot be searched", breaks="the error is dropped and an incomplete list returned",
 demo=PRE+'''
int main(void) {
    /* a name that is too long cannot be looked up: that is an error, not an absence */
    char n[400]; memset(n, 'a', 399); n[399] = 0;
    struct cork_path_list *l = cork_path_list_new("."); CHECK(cork_path_list_find_files(l, n) == NULL); CHECK(cork_error_occurred());
    return 0;
}'''),
dict(id="pl-empty-env", prop="C26", edits=[(F,'''    var = cork_env_get(NULL, "XDG_DATA_DIRS");
    if (empty_string(var)) {''','''    var = cork_env_get(NULL, "XDG_DATA_DIRS");
    if (var == NULL) {''')],
 needs="XDG_DATA_DIRS set to the empty string", breaks="the defaults are not used",
 demo=PRE+'''
int main(void) {
    setenv("HOME", "/h", 1); unsetenv("XDG_DATA_HOME"); setenv("XDG_DATA_DIRS", "", 1);
    struct cork_path_list *l = cork_path_data_paths(); CHECK(strcmp(cork_path_list_to_string(l), "/h/.local/share:/usr/local/share:/usr/share") == 0);
    return 0;
}'''),
dict(id="fi-permissive-file", prop="C27", edits=[(F,'''        DEBUG("  Exists and not a directory!\\n");
        cork_system_error_set_explicit(EEXIST);
        return -1;''','''        DEBUG("  Exists and not a directory!\\n");
        if (flags & CORK_FILE_PERMISSIVE) {
            return 0;
        }
        cork_system_error_set_explicit(EEXIST);
        return -1;''')],
 needs="a permissive mkdir where a file is", breaks="it succeeds, but there is no directory",
 demo=PRE+'''
int main(void) {
    close(open("f", O_CREAT | O_WRONLY, 0644)); struct cork_file *f = cork_file_new("f");
    CHECK(cork_file_mkdir(f, 0755, CORK_FILE_PERMISSIVE) != 0);
    return 0;
}'''),
dict(id="fi-parent-mode", prop="C27", edits=[(F,"                (&parent_file, mode, flags | CORK_FILE_PERMISSIVE);","                (&parent_file, mode | 0755, flags | CORK_FILE_PERMISSIVE);")],
 needs="a recursive mkdir with a private mode", breaks="the parents are readable by everyone",
 demo=PRE+'''
int main(void) {
    struct stat s; umask(0); struct cork_file *f = cork_file_new("a/b"); CHECK(cork_file_mkdir(f, 0700, CORK_FILE_RECURSIVE) == 0);
    CHECK(stat("a", &s) == 0 && (s.st_mode & 07777) == 0700);
    return 0;
}'''),
dict(id="fi-stat-stale", prop="C27", edits=[(F,'''        rc = stat(cork_path_get(file->path), &file->stat);

        if (rc == -1) {''','''        rc = stat(cork_path_get(file->path), &file->stat);
        file->has_stat = true;

        if (rc == -1) {''')],
 needs="querying a file that cannot be looked up twice", breaks="the second query succeeds with an undefined answer",
 demo=PRE+'''
int main(void) {
    char n[400]; memset(n, 'a', 399); n[399] = 0; struct cork_file *f = cork_file_new(n); bool ex;
    CHECK(cork_file_exists(f, &ex) != 0); cork_error_clear(); CHECK(cork_file_exists(f, &ex) != 0);
    return 0;
}'''),
dict(id="rm-dotdot-names", prop="C28", edits=[(F,'''            strcmp(entry->d_name, "..") == 0) {''','''            strncmp(entry->d_name, "..", 2) == 0) {''')], also=["C29"],
 needs="a directory with a name that starts with two dots", breaks="it is not removed",
 demo=PRE+'''
int main(void) {
    mkdir("d", 0755); close(open("d/..a", O_CREAT | O_WRONLY, 0644)); struct cork_file *f = cork_file_new("d");
    CHECK(cork_file_remove(f, CORK_FILE_RECURSIVE) == 0);
    return 0;
}'''),
dict(id="rm-iterator-flags", prop="C28", edits=[(F,"    return cork_file_remove(file, *flags);","    return cork_file_remove(file, *flags | ((rel_name[0] == '.')? 0: CORK_FILE_PERMISSIVE)) &\n        ((*flags & CORK_FILE_PERMISSIVE)? 0: -1);")],
 needs="a recursive permissive removal of a tree in which something cannot be removed", breaks="the failure of an entry is ignored, and the removal goes on to others",
 demo=PRE+'''
extern int __real_unlink(const char *); int fail; int __wrap_unlink(const char *p) { if (fail++ == 0) { errno = EIO; return -1; } return __real_unlink(p); }
int main(void) {
    mkdir("d", 0755); for (int i = 0; i < 8; i++) { char n[20]; sprintf(n, "d/%d", i); close(open(n, O_CREAT | O_WRONLY, 0644)); } struct cork_file *f = cork_file_new("d");
    CHECK(cork_file_remove(f, CORK_FILE_RECURSIVE | CORK_FILE_PERMISSIVE) != 0); CHECK(cork_error_code() == EIO);
    return 0;
}''', cflags="-Wl,--wrap=unlink"),
dict(id="rm-rmdir-gone", prop="C28", edits=[(F,"        rii_check_posix(rmdir(cork_path_get(file->path)));","        if (rmdir(cork_path_get(file->path)) == -1 &&\n            !(flags & CORK_FILE_PERMISSIVE)) {\n            cork_system_error_set();\n            return -1;\n        }")],
 needs="a permissive removal of a directory that cannot be removed", breaks="success is reported",
 demo=PRE+'''
int main(void) {
    mkdir("d", 0755); mkdir("d/e", 0755); struct cork_file *f = cork_file_new("d");
    CHECK(cork_file_remove(f, CORK_FILE_PERMISSIVE) != 0);
    return 0;
}'''),
dict(id="it-stale-stat", prop="C29", edits=[(F,'''        cork_path_truncate(child_path, dir_path_size);
        cork_file_reset(&child_file);''','''        cork_path_truncate(child_path, dir_path_size);''')], also=["C28"],
 needs="querying the entries in an iteration over a directory with different kinds of entries", breaks="the answer for the first entry is given for all",
 demo=PRE+'''
static int cb(struct cork_file *f, const char *n, void *u) { enum cork_file_type t; CHECK(cork_file_type(f, &t) == 0); CHECK(t == (n[0] == 'd'? CORK_FILE_DIRECTORY: CORK_FILE_REGULAR)); return 0; }
int main(void) {
    mkdir("t", 0755); mkdir("t/d", 0755); close(open("t/f", O_CREAT | O_WRONLY, 0644)); struct cork_file *f = cork_file_new("t");
    CHECK(cork_file_iterate_directory(f, cb, NULL) == 0);
    return 0;
}'''),
dict(id="it-errno", prop="C29", edits=[(F,'''    /* Check errno immediately after the while loop terminates */
    if (CORK_UNLIKELY(errno != 0)) {
        cork_system_error_set();
        rc = -1;''','''    /* Check errno immediately after the while loop terminates */
    if (CORK_UNLIKELY(errno != 0 && errno != EIO)) {
        cork_system_error_set();
        rc = -1;''')],
 needs="an I/O error while a directory is read", breaks="the iteration ends early and reports success",
 demo=PRE+'''
#include <dirent.h>
extern struct dirent *__real_readdir(DIR *); struct dirent *__wrap_readdir(DIR *d) { errno = EIO; return NULL; }
static int cb(struct cork_file *f, const char *n, void *u) { return 0; }
int main(void) {
    mkdir("t", 0755); mkdir("t/d", 0755); struct cork_file *f = cork_file_new("t");
    CHECK(cork_file_iterate_directory(f, cb, NULL) != 0);
    return 0;
}''', cflags="-Wl,--wrap=readdir"),
dict(id="wk-buffer-prefix", prop="C29", edits=[(W,"    rc = cork_walk_one_directory(w, &buf, buf.size + 1);","    rc = cork_walk_one_directory(w, &buf, strlen(path) + 1);")],
 needs="walking a directory whose path is given with a trailing slash", breaks="the relative paths lack their first characters",
 demo=PRE+'''
struct w { struct cork_dir_walker p; };
static int file(struct cork_dir_walker *w, const char *full, const char *rel, const char *base) { CHECK(strcmp(rel, "file") == 0); return 0; }
static int dir(struct cork_dir_walker *w, const char *full, const char *rel, const char *base) { return 0; }
int main(void) {
    mkdir("t", 0755); close(open("t/file", O_CREAT | O_WRONLY, 0644)); struct cork_dir_walker w = { file, file, file }; w.enter_directory = dir; w.leave_directory = dir; w.file = file;
    CHECK(cork_walk_directory("t/", &w) == 0);
    return 0;
}'''),
dict(id="wk-close-twice", prop="C29", edits=[(W,'''    /* Remove the trailing '/' from the path buffer. */
    cork_buffer_truncate(path, dir_path_size - 1);
    rii_check_posix(closedir(dir));''','''    /* Remove the trailing '/' from the path buffer. */
    cork_buffer_truncate(path, dir_path_size - 1);
    if (dir_path_size != root_path_size) {
        rii_check_posix(closedir(dir));
    }''')],
 needs="counting the open descriptors after a walk", breaks="the top directory stays open",
 demo=PRE+'''
static int cb(struct cork_dir_walker *w, const char *full, const char *rel, const char *base) { return 0; }
int main(void) {
    mkdir("t", 0755); struct cork_dir_walker w; w.enter_directory = w.leave_directory = w.file = cb; int a = dup(0); close(a);
    CHECK(cork_walk_directory("t", &w) == 0); int b = dup(0); CHECK(a == b);
    return 0;
}'''),
dict(id="st-first-again", prop="C30", edits=[(S,'''int
cork_consume_fd(struct cork_stream_consumer *consumer, int fd)
{
    char  buf[BUFFER_SIZE];
    ssize_t  bytes_read;
    bool  first = true;

    while (true) {
''','''int
cork_consume_fd(struct cork_stream_consumer *consumer, int fd)
{
    char  buf[BUFFER_SIZE];
    ssize_t  bytes_read;
    bool  first;

    while (true) {
        first = true;
''')],
 needs="a read that is interrupted after data has been delivered", breaks="a later chunk is marked as the first",
 demo=PRE+'''
static int n; extern ssize_t __real_read(int, void *, size_t); ssize_t __wrap_read(int f, void *b, size_t s) { if (++n == 2) { errno = EINTR; return -1; } return __real_read(f, b, s); }
static int chunks; static int data(struct cork_stream_consumer *c, const void *b, size_t s, bool first) { CHECK(first == (chunks++ == 0)); return 0; }
static int eof(struct cork_stream_consumer *c) { return 0; }
int main(void) {
    int fd = open("f", O_CREAT | O_RDWR, 0644); char b[9000] = {0}; write(fd, b, 9000); lseek(fd, 0, SEEK_SET); struct cork_stream_consumer c = { data, eof, NULL };
    CHECK(cork_consume_fd(&c, fd) == 0); CHECK(chunks == 3);
    return 0;
}''', cflags="-Wl,--wrap=read"),
dict(id="st-eof-result", prop="C30", edits=[(S,'''        if (feof(fp)) {
            return cork_stream_consumer_eof(consumer);''','''        if (feof(fp)) {
            cork_stream_consumer_eof(consumer);
            return 0;''')],
 needs="a consumer that fails at the end of a stdio stream", breaks="its failure is not returned",
 demo=PRE+'''
static int data(struct cork_stream_consumer *c, const void *b, size_t s, bool first) { return 0; }
static int eof(struct cork_stream_consumer *c) { cork_error_set_string(77777, "no"); return -1; }
int main(void) {
    FILE *f = fopen("f", "w+"); struct cork_stream_consumer c = { data, eof, NULL };
    CHECK(cork_consume_file(&c, f) == -1);
    return 0;
}'''),
dict(id="st-short-ends", prop="C30", edits=[(S,'''        while ((bytes_read = fread(buf, 1, BUFFER_SIZE, fp)) > 0) {
            rii_check(cork_stream_consumer_data
                      (consumer, buf, bytes_read, first));
            first = false;
        }

        if (feof(fp)) {''','''        while ((bytes_read = fread(buf, 1, BUFFER_SIZE, fp)) > 0) {
            rii_check(cork_stream_consumer_data
                      (consumer, buf, bytes_read, first));
            first = false;
            if (bytes_read < BUFFER_SIZE) {
                break;
            }
        }

        if (feof(fp) || bytes_read != 0) {''')],
 needs="a read error in the middle of a stdio stream, after part of a block", breaks="it is taken for the end of the file",
 demo=PRE+'''
static int n; static ssize_t rd(void *c, char *b, size_t s) { if (n++ == 0) { memset(b, 'x', 10); return 10; } errno = EIO; return -1; }
static int data(struct cork_stream_consumer *c, const void *b, size_t s, bool first) { return 0; }
static int eof(struct cork_stream_consumer *c) { return 0; }
int main(void) {
    cookie_io_functions_t io = { rd, NULL, NULL, NULL }; FILE *f = fopencookie(NULL, "r", io); struct cork_stream_consumer c = { data, eof, NULL };
    CHECK(cork_consume_file(&c, f) == -1);
    return 0;
}'''),
dict(id="st-partial-restart", prop="C31", edits=[(S,'''            bytes_left -= rc;
            buf += rc;''','''            buf += (bytes_left > 4096)? rc: 0;
            bytes_left -= rc;''')],
 needs="a partial write of a small rest", breaks="its first bytes are written again",
 demo=PRE+'''
extern ssize_t __real_write(int, const void *, size_t); ssize_t __wrap_write(int f, const void *b, size_t s) { return __real_write(f, b, (s > 3)? 3: s); }
int main(void) {
    int fd = open("f", O_CREAT | O_RDWR, 0644); struct cork_stream_consumer *c = cork_fd_consumer_new(fd); char b[20] = {0};
    CHECK(cork_stream_consumer_data(c, "abcdefghij", 10, true) == 0); CHECK(pread(fd, b, 20, 0) == 10 && memcmp(b, "abcdefghij", 10) == 0);
    return 0;
}''', cflags="-Wl,--wrap=write"),
dict(id="st-eagain", prop="C31", edits=[(S,'''    if (bytes_written == size) {
        return 0;''','''    if (bytes_written == size || (bytes_written > 0 && errno == EINTR)) {
        return 0;''')],
 needs="a stdio stream that takes part of a chunk and is interrupted", breaks="success is reported although data is missing",
 demo=PRE+'''
static int n; static ssize_t wr(void *c, const char *b, size_t s) { if (n++ == 0) return 5; errno = EINTR; return 0; }
int main(void) {
    cookie_io_functions_t io = { NULL, wr, NULL, NULL }; FILE *f = fopencookie(NULL, "w", io); setvbuf(f, NULL, _IONBF, 0); struct cork_stream_consumer *c = cork_file_consumer_new(f); char b[100] = {0};
    CHECK(cork_stream_consumer_data(c, b, 100, true) != 0);
    return 0;
}'''),
dict(id="st-fd-eof", prop="C31", edits=[(S,'''    /* We don't want to close fd, so we reuse file_consumer's eof method */
    self->parent.eof = cork_file_consumer__eof;
    self->parent.free = cork_fd_consumer__free;''','''    /* We don't want to close fd, so we reuse file_consumer's eof method */
    self->parent.eof = cork_file_consumer__eof;
    self->parent.free =
        (fd > 9)? cork_fd_consumer__free_close: cork_fd_consumer__free;''')],
 needs="a descriptor above 9", breaks="the caller's descriptor is closed with the consumer",
 demo=PRE+'''
int main(void) {
    int fd = open("f", O_CREAT | O_RDWR, 0644), hi = fcntl(fd, F_DUPFD, 20); struct cork_stream_consumer *c = cork_fd_consumer_new(hi); cork_stream_consumer_free(c);
    CHECK(fcntl(hi, F_GETFD) != -1);
    return 0;
}'''),
]
