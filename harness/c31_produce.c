/* Writing through stream consumers, with scripted partial writes, interruptions and errors. */
#include "pbt.h"
#include "acct.h"
#include "fsx.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is a sequence of chunks written through a descriptor, stdio or path consumer (with generated open flags, over a missing or existing file), with a script of partial writes, interruptions and errors for the calls to write and close; what the file then holds is compared with the chunks; non-trivial: at least two chunks, or a fault, or a file that existed before";
enum { FULL, SHORT, INTR, FAIL };
static struct { unsigned act; size_t n; int err; } script[400]; static size_t nscript, at; static int watched = -1; static size_t stored; static bool wfailed; static int werr; static size_t faults, intr;
static int close_err; static bool watch_open; static bool close_failed;
extern ssize_t __real_write(int, const void *, size_t); extern int __real_open(const char *, int, ...), __real_close(int);
ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
    if (fd != watched || n == 0) return __real_write(fd, buf, n);
    size_t m = n;
    if (at < nscript) { size_t i = at++; if (script[i].act == SHORT && script[i].n < n) { m = script[i].n; faults++; } else if (script[i].act == INTR) { faults++; intr++; errno = EINTR; return -1; } else if (script[i].act == FAIL) { wfailed = true; werr = script[i].err; errno = werr; return -1; } }
    errno = EINTR; ssize_t r = __real_write(fd, buf, m); if (r > 0) stored += (size_t) r; return r;
}
int __wrap_open(const char *p, int fl, ...)
{ va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); int fd = __real_open(p, fl, m); if (watch_open && fd >= 0) watched = fd; return fd; }
int __wrap_close(int fd) { int r = __real_close(fd); if (fd == watched && close_err) { errno = close_err; close_err = 0; close_failed = true; return -1; } return r; }
static ssize_t ck_write(void *c, const char *buf, size_t n);
static uint8_t sink[9000000]; static size_t nsink;
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
    (void) c; if (at < nscript) { size_t i = at++; if (script[i].act == FAIL) { wfailed = true; werr = script[i].err; errno = werr; return 0; } }
    if (n > sizeof sink - nsink) return 0; memcpy(sink + nsink, buf, n); nsink += n; return (ssize_t) n;
}
static uint8_t expect[9000000]; static size_t nexp;
static void same(const uint8_t *g, size_t n, size_t want, const char *what)
{
    CHECK(n == want, "%s has %zu bytes, expected %zu", what, n, want);
    if (memcmp(g, expect, n)) { size_t i; for (i = 0; g[i] == expect[i]; i++) { } pbt_fail("byte %zu of %zu of %s is 0x%02x, expected 0x%02x", i, n, what, g[i], expect[i]); }
}
void pbt_init(void) { acct_install(); fsx_init(); cork_error_clear(); }
void pbt_case(void)
{
    enum { FD, STDIO, COOKIE, PATH, NK }; unsigned kind = (unsigned) pbt_pick(NK); unsigned st = 0; size_t old = 0; static uint8_t olddata[3000];
    cork_error_clear(); fsx_fresh("c"); static const mode_t um[] = { 022, 0, 077, 027 }; mode_t mask = um[pbt_pick(4)]; umask(mask); watched = -1; at = nscript = stored = faults = intr = nsink = nexp = 0; wfailed = watch_open = close_failed = false; werr = close_err = 0;
    unsigned flt = (unsigned) pbt_pick(4);
    while (flt && nscript < 390 && pbt_more(&st, 8, 300)) {
        script[nscript].act = FULL; unsigned a = (unsigned) pbt_pick(6); if (a <= 1) { script[nscript].act = SHORT; script[nscript].n = 1 + pbt_size(0, 5000); } else if (a <= 3 && flt != 2) script[nscript].act = INTR;
        else if (a == 4 && flt == 3 && pbt_chance(1, 2)) { static const int e[] = { ENOSPC, EIO, EPIPE, EAGAIN, EBADF, EFBIG }; script[nscript].act = FAIL; script[nscript].err = e[pbt_pick(6)]; }
        nscript++;
    }
    static const char *const kn[] = { "file descriptor", "stdio stream", "scripted stream", "path" };
    int fds = fsx_open_fds(), fd = -1, stdin_away = -1; FILE *f = NULL; struct cork_stream_consumer *c; bool exist = pbt_chance(1, 2), append = false; size_t offset = 0;
    if (exist && kind != COOKIE) { old = pbt_size(0, 2500); pbt_fill(olddata, old, 99); int d = __real_open("data", O_WRONLY | O_CREAT, 0644); if (d < 0 || write(d, olddata, old) != (ssize_t) old) _exit(103); __real_close(d); memcpy(expect, olddata, old); nexp = old; }
    else exist = false;
    if (kind == PATH) {
        static const int acc[] = { O_WRONLY, O_RDWR }; int fl = acc[pbt_pick(2)]; if (pbt_chance(2, 3)) fl |= O_CREAT; if (pbt_chance(1, 3)) fl |= O_TRUNC; if (pbt_chance(1, 3)) fl |= O_APPEND; if (fl & O_CREAT && pbt_chance(1, 4)) fl |= O_EXCL;
        const char *path = "data"; int want = 0; if (pbt_chance(1, 12)) { path = pbt_chance(1, 2) ? "no/such/dir" : "."; want = path[0] == '.' ? EISDIR : ENOENT; if (path[0] == '.' && (fl & O_EXCL)) want = EEXIST; }
        else if (!exist && !(fl & O_CREAT)) want = ENOENT; else if (exist && (fl & O_EXCL)) want = EEXIST;
        pbt_trace("path %s, flags %#o, %s (%zu bytes)", path, fl, exist ? "existing" : "missing", old);
        if (pbt_chance(1, 10)) { stdin_away = fcntl(0, F_DUPFD_CLOEXEC, 1100); if (stdin_away >= 0) { __real_close(0); pbt_label("standard input closed"); } }
        watch_open = true; c = cork_file_from_path_consumer_new(path, fl); watch_open = false; if (stdin_away >= 0 && !c) { dup2(stdin_away, 0); __real_close(stdin_away); }
        if (want) { CHECK(c == NULL, "the file %s is opened although it cannot be", path); CHECK(cork_error_occurred() && cork_error_code() == (cork_error) want, "opening %s failed with %s, expected error %d", path, cork_error_occurred() ? cork_error_message() : "no error", want); cork_error_clear(); CHECK(fsx_open_fds() == fds, "a descriptor is left open"); pbt_label("cannot be opened"); return; }
        CHECK(c != NULL, "opening %s failed: %s", path, cork_error_message());
        if (exist && fl & O_TRUNC) nexp = old = 0;
        append = fl & O_APPEND; if (append) offset = old;
        if (!exist) { struct stat s; CHECK(lstat(path, &s) == 0, "the file is not created"); CHECK((s.st_mode & 07777) == (0666 & ~mask), "the file is created with mode %04o under the mask %03o", (unsigned) s.st_mode & 07777, (unsigned) mask); pbt_label("created"); }
        if (pbt_chance(1, 10)) close_err = pbt_chance(1, 2) ? EIO : ENOSPC;
    } else if (kind == FD) {
        fd = __real_open("data", O_WRONLY | O_CREAT | (pbt_chance(1, 3) ? O_APPEND : 0), 0644); if (fd < 0) _exit(103); offset = old; lseek(fd, 0, SEEK_END);
        if (pbt_chance(1, 3)) { int hi = fcntl(fd, F_DUPFD, pbt_chance(1, 3) ? 0 : (int) pbt_uniform(10, 1000)); if (hi >= 0) { __real_close(fd); fd = hi; pbt_label(fd ? "high descriptor" : "descriptor 0"); } }
        watched = fd; c = cork_fd_consumer_new(fd);
    } else {
        if (kind == STDIO) { f = fopen("data", "a"); offset = old; } else { cookie_io_functions_t io = { NULL, ck_write, NULL, NULL }; f = fopencookie(NULL, "w", io); offset = 0; }
        if (!f) _exit(103); if (pbt_chance(1, 3)) setvbuf(f, NULL, _IONBF, 0); c = cork_file_consumer_new(f);
    }
    pbt_trace("%s, %zu scripted writes", kn[kind], nscript); for (size_t i = 0; i < nscript; i++) pbt_trace("  write %zu: %s %zu", i + 1, script[i].act == FULL ? "full" : script[i].act == SHORT ? "short" : script[i].act == INTR ? "interrupted" : "fails", script[i].act == SHORT ? script[i].n : (size_t) script[i].err);
    CHECK(!cork_error_occurred(), "an error is left behind"); size_t given = 0, chunks = 0; bool broke = false; st = 0;
    bool large = pbt_large(60); if (large) pbt_label("megabytes");
    while (pbt_more(&st, large ? 8 : 4, large ? 1000 : 25) && !broke) {
        size_t n = large ? pbt_u64(0, 3000000) : pbt_chance(1, 6) ? pbt_uniform(0, 12000) : pbt_size(0, 9000); uint8_t *b = raw_malloc(n + 1); pbt_fill(b, n, pbt_u64(1, 1u << 20)); pbt_trace(" chunk of %zu bytes", n);
        size_t pos = offset + given; memcpy(expect + pos, b, n); if (pos + n > nexp) nexp = pos + n; 
        int rc = cork_stream_consumer_data(c, b, n, chunks == 0); memset(b, 0xEE, n); raw_free(b); chunks++;
        bool err = cork_error_occurred(); CHECK((rc != 0) == err, "writing a chunk returned %d, with %s", rc, err ? cork_error_message() : "no error");
        if (rc) {
            CHECK(wfailed, "writing a chunk failed: %s", cork_error_message()); CHECK(rc == -1 && cork_error_code() == (cork_error) werr, "the error is %u (%s), the write's was %d", (unsigned) cork_error_code(), cork_error_message(), werr); cork_error_clear(); broke = true; pbt_label("write error");
        } else { given += n; if (kind != COOKIE) CHECK(!wfailed, "a failed write is not reported"); if (kind == FD || kind == PATH) CHECK(stored == given, "%zu bytes of %zu are written, and success is reported", stored, given); }
        if (given > (large ? 5000000 : 150000)) break;
    }
    bool eof = !broke || pbt_chance(1, 2); if (!broke && pbt_chance(1, 8)) eof = false; int other = -1;
    if (eof) {
        int rc = cork_stream_consumer_eof(c); bool err = cork_error_occurred(); CHECK((rc != 0) == err, "end of file returned %d, with %s", rc, err ? cork_error_message() : "no error");
        if (rc) { CHECK(close_failed, "end of file failed: %s", cork_error_message()); cork_error_clear(); pbt_label("close error"); } else CHECK(!close_failed, "a failed close is not reported");
        if (kind == PATH) { watched = -1; other = __real_open("other", O_RDWR | O_CREAT, 0644); }
    }
    cork_stream_consumer_free(c); cork_error_clear(); watched = -1; close_err = 0;
    if (other >= 0) { CHECK(fcntl(other, F_GETFD) != -1, "freeing the consumer closed a descriptor that was not its own any more"); __real_close(other); }
    if (fd >= 0) { CHECK(fcntl(fd, F_GETFD) != -1, "the descriptor has been closed"); __real_close(fd); }
    if (f) { CHECK(fileno(f) == -1 || fcntl(fileno(f), F_GETFD) != -1, "the stream has been closed"); if (wfailed) clearerr(f); size_t sn = nscript; if (kind == COOKIE && broke) at = sn; fclose(f); }
    if (stdin_away >= 0) { CHECK(fcntl(0, F_GETFD) == -1, "descriptor 0 is left open after the consumer is freed"); dup2(stdin_away, 0); __real_close(stdin_away); }
    CHECK(fsx_open_fds() == fds, "a descriptor is left open after the consumer is freed");
    if (kind == COOKIE) { if (!broke && !wfailed) same(sink, nsink, given, "the stream's content"); }
    else {
        static uint8_t got[9000000]; int d = __real_open("data", O_RDONLY, 0); ssize_t n = d < 0 ? -1 : read(d, got, sizeof got); if (d >= 0) __real_close(d); CHECK(n >= 0, "the file is missing");
        if (!broke) { size_t want = offset + given > old ? offset + given : old; same(got, (size_t) n, want, "the file"); }
        else if (kind != STDIO) { size_t end = offset + stored; size_t want = end > old ? end : old; CHECK((size_t) n == want, "after an error the file has %zu bytes, expected %zu", (size_t) n, want); CHECK(!memcmp(got, expect, end), "the bytes before the error are wrong"); }
    }
    pbt_label(kn[kind]); if (faults) pbt_label("partial or interrupted writes"); if (!broke) pbt_label("complete");
    if (chunks >= 2 || faults || wfailed || exist) pbt_nontrivial();
}
