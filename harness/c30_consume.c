/* Reading through a stream consumer, with scripted short reads, interruptions, errors and failing consumers. */
#include "pbt.h"
#include "acct.h"
#include "fsx.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is a content of 0 to 30000 bytes read from a file, a pipe, a buffered or unbuffered stdio stream or a path with generated open flags, with a script of short reads, interruptions and read errors for the calls to read, and a consumer that fails at a generated call; the consumer's log is compared with the content; non-trivial: some content, and a fault, a failing consumer or more than one chunk";
enum { FULL, SHORT, INTR, FAIL };
static struct { unsigned act; size_t n; int err; } script[400]; static size_t nscript, at; static int watched = -1; static size_t served, faults; static bool failed_read; static int failed_errno;
extern ssize_t __real_read(int, void *, size_t);
static uint8_t content[9000000]; static size_t clen, cpos;
/* what the next read may do */
static unsigned step(size_t *n)
{
    if (failed_read) return FAIL;
    if (at >= nscript) return FULL;
    unsigned a = script[at].act; if (a == SHORT && script[at].n < *n) { *n = script[at].n; faults++; }
    if (a == INTR) { faults++; } if (a == FAIL) { failed_errno = script[at].err; failed_read = true; faults++; }
    at++; return a;
}
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    if (fd != watched) return __real_read(fd, buf, n);
    size_t m = n; unsigned a = step(&m);
    if (a == INTR) { errno = EINTR; return -1; }
    if (a == FAIL) { errno = failed_errno; failed_read = false; if (at < nscript) nscript = at; return -1; }
    ssize_t r = __real_read(fd, buf, m); if (r > 0) served += (size_t) r; return r;
}
static int opened = -1; static bool watch_open;
extern int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{ va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); int fd = __real_open(p, fl, m); if (watch_open && fd >= 0) watched = opened = fd; return fd; }
static ssize_t ck_read(void *c, char *buf, size_t n)
{
    (void) c; size_t m = n; unsigned a = step(&m); if (a == INTR) { errno = EINTR; return -1; } if (a == FAIL) { errno = failed_errno; return -1; }
    if (m > clen - cpos) m = clen - cpos; memcpy(buf, content + cpos, m); cpos += m; served += m; return (ssize_t) m;
}
/* the consumer */
static struct rec { struct cork_stream_consumer c; size_t got; long calls, fail_at; int fail_rc; cork_error err; bool stopped, eof; long chunks; } R;
static int r_end(struct rec *r)
{ if (++r->calls == r->fail_at) { r->stopped = true; if (r->err == CORK_ERROR_NONE) return r->fail_rc; cork_error_set_printf(r->err, "the consumer fails"); return r->fail_rc; } return 0; }
static int r_data(struct cork_stream_consumer *c, const void *buf, size_t n, bool first)
{
    struct rec *r = (struct rec *) c; pbt_trace("  data %zu bytes%s", n, first ? ", first" : "");
    CHECK(!r->stopped, "data comes after the consumer failed"); CHECK(!r->eof, "data comes after end of file"); CHECK(n > 0, "an empty chunk"); CHECK(buf != NULL, "no buffer");
    CHECK(first == (r->chunks == 0), "chunk %ld is %smarked first", r->chunks + 1, first ? "" : "not "); r->chunks++;
    CHECK(n <= clen - r->got, "%zu bytes after %zu of %zu", n, r->got, clen); if (memcmp(buf, content + r->got, n)) { size_t i; for (i = 0; ((const uint8_t *) buf)[i] == content[r->got + i]; i++) { } pbt_fail("byte %zu of the content is 0x%02x, expected 0x%02x", r->got + i, ((const uint8_t *) buf)[i], content[r->got + i]); }
    r->got += n; errno = 0; int e[] = { 0, EINTR, EAGAIN, ENOENT }; errno = e[(r->calls + (long) n) & 3]; return r_end(r);
}
static int r_eof(struct cork_stream_consumer *c)
{ struct rec *r = (struct rec *) c; pbt_trace("  end of file"); CHECK(!r->stopped, "end of file comes after the consumer failed"); CHECK(!r->eof, "end of file comes twice"); r->eof = true; return r_end(r); }
static void r_free(struct cork_stream_consumer *c) { (void) c; pbt_fail("the producer freed the consumer"); }

void pbt_init(void) { acct_install(); fsx_init(); cork_error_clear(); }
void pbt_case(void)
{
    enum { FD, PIPE, STDIO, COOKIE, PATH, BADPATH, NK }; unsigned kind = (unsigned) pbt_pick(NK - 1); if (kind == PATH && pbt_chance(1, 4)) kind = BADPATH;
    unsigned st = 0; cork_error_clear(); fsx_fresh("c"); watched = opened = -1; at = nscript = served = faults = cpos = 0; failed_errno = 0; failed_read = watch_open = false;
    clen = pbt_chance(1, 4) ? pbt_uniform(0, 30000) : pbt_size(0, 30000); if (pbt_chance(1, 5)) { static const size_t edge[] = { 4095, 4096, 4097, 8192, 8191, 1, 0, 12288 }; clen = edge[pbt_pick(8)]; } if (kind != PIPE && pbt_large(60)) { clen = pbt_u64(100000, 8000000); pbt_label("megabytes"); } pbt_fill(content, clen, pbt_u64(1, 1u << 20));
    unsigned flt = (unsigned) pbt_pick(4);
    while (flt && nscript < 390 && pbt_more(&st, 8, 300)) {
        script[nscript].act = FULL; unsigned a = (unsigned) pbt_pick(6); if (a <= 1) { script[nscript].act = SHORT; script[nscript].n = 1 + pbt_size(0, 5000); } else if (a <= 3 && flt != 2) script[nscript].act = INTR;
        else if (a == 4 && flt == 3 && pbt_chance(1, 2)) { static const int e[] = { EIO, EAGAIN, EBADF, EISDIR, ENOMEM }; script[nscript].act = FAIL; script[nscript].err = e[pbt_pick(5)]; }
        nscript++;
    }
    memset(&R, 0, sizeof R); R.c.data = r_data; R.c.eof = r_eof; R.c.free = r_free; R.fail_rc = -1; if (pbt_chance(1, 4)) { R.fail_at = 1 + (long) pbt_size(0, 12); R.err = 0x10000u + 77 + (cork_error) pbt_pick(3); }
    static const char *const kn[] = { "file descriptor", "pipe", "stdio stream", "scripted stream", "path", "path that cannot be used" };
    pbt_trace("%s, %zu bytes, %zu scripted reads, consumer fails at call %ld", kn[kind], clen, nscript, R.fail_at); for (size_t i = 0; i < nscript; i++) pbt_trace("  read %zu: %s %zu", i + 1, script[i].act == FULL ? "full" : script[i].act == SHORT ? "short" : script[i].act == INTR ? "interrupted" : "fails", script[i].act == SHORT ? script[i].n : (size_t) script[i].err);
    int rc = 0; int fds = fsx_open_fds(); int want_errno = 0; size_t pre = 0;
    if (kind != COOKIE) { int fd = __real_open("data", O_WRONLY | O_CREAT | O_TRUNC, 0644); if (kind <= STDIO && kind != PIPE && pbt_chance(1, 4)) pre = 1 + pbt_size(0, 5000); static uint8_t junk[6000]; memset(junk, 0xA5, pre); if (fd < 0 || write(fd, junk, pre) != (ssize_t) pre || write(fd, content, clen) != (ssize_t) clen) _exit(103); close(fd); if (pre) pbt_label("from the middle of a file"); }
    if (kind == FD || kind == PIPE) {
        int fd, p[2]; if (kind == FD) fd = __real_open("data", O_RDONLY, 0); else { if (clen > 60000 || pipe(p) != 0) _exit(103); if (write(p[1], content, clen) != (ssize_t) clen) _exit(103); close(p[1]); fd = p[0]; }
        if (pre) lseek(fd, (off_t) pre, SEEK_SET);
        if (pbt_chance(1, 4)) { int hi = fcntl(fd, F_DUPFD, pbt_chance(1, 3) ? 0 : (int) pbt_uniform(10, 1000)); if (hi >= 0) { close(fd); fd = hi; } }
        watched = fd; rc = cork_consume_fd(&R.c, fd); watched = -1;
        CHECK(fcntl(fd, F_GETFD) != -1, "the descriptor has been closed"); if (kind == FD && rc == 0) CHECK(lseek(fd, 0, SEEK_CUR) == (off_t) (pre + clen), "the descriptor is not at the end"); close(fd);
    } else if (kind == STDIO || kind == COOKIE) {
        FILE *f; if (kind == STDIO) f = fopen("data", "r"); else { cookie_io_functions_t io = { ck_read, NULL, NULL, NULL }; f = fopencookie(NULL, "r", io); }
        if (!f) _exit(103); if (pbt_chance(1, 3)) setvbuf(f, NULL, _IONBF, 0); if (pre) { if (pbt_chance(1, 2)) { if (fseek(f, (long) pre, SEEK_SET)) _exit(103); } else for (size_t i = 0; i < pre; i++) getc(f); } rc = cork_consume_file(&R.c, f); fclose(f);
        if (kind == STDIO) served = clen;
    } else {
        int fl = O_RDONLY; const char *path = "data"; bool created = false;
        if (kind == BADPATH) { switch (pbt_pick(4)) { case 0: path = "missing"; want_errno = ENOENT; break; case 1: path = "data/x"; want_errno = ENOTDIR; break; case 2: path = "."; want_errno = EISDIR; nscript = 0; break; default: path = "secret"; { int fd = __real_open(path, O_WRONLY | O_CREAT, 0200); close(fd); } want_errno = EACCES; } clen = 0; }
        else switch (pbt_pick(6)) { case 0: fl = O_RDWR; break; case 1: fl = O_RDONLY | O_CREAT; break; case 2: fl = O_RDWR | O_CREAT; path = "new"; clen = 0; created = true; break; case 3: fl = O_RDWR | O_TRUNC; clen = 0; break; case 4: if (pbt_chance(1, 3)) { fl = O_RDONLY | O_CREAT | O_EXCL; want_errno = EEXIST; clen = 0; } break; }
        pbt_trace(" open %s with flags %#o", path, fl); watch_open = true; rc = cork_consume_file_from_path(&R.c, path, fl); watch_open = false; watched = -1;
        if (created && rc == 0) { struct stat s; CHECK(lstat(path, &s) == 0, "the file is not created"); CHECK((s.st_mode & 07000) == 0 && (s.st_mode & 0600) == 0600, "the file is created with mode %04o", (unsigned) s.st_mode & 07777); pbt_label("created"); }
    }
    CHECK(fsx_open_fds() == fds, "a descriptor is left open");
    bool err = cork_error_occurred(); cork_error code = err ? cork_error_code() : 0; char msg[400]; snprintf(msg, sizeof msg, "%s", err ? cork_error_message() : "no error"); cork_error_clear();
    CHECK((rc != 0) == err, "the result is %d, with %s", rc, msg);
    if (want_errno && R.chunks == 0) { CHECK(rc == -1 && code == (cork_error) want_errno, "the result is %d with error %u (%s), expected error %d", rc, (unsigned) code, msg, want_errno); CHECK(R.calls == 0, "the consumer has been called for a file that cannot be read"); pbt_label("unusable path"); }
    else if (R.stopped) { CHECK(rc != 0, "the consumer's failure is not reported"); CHECK(code == R.err, "the error is %u (%s), expected the consumer's %u", (unsigned) code, msg, (unsigned) R.err); pbt_label("consumer failed"); }
    else if (rc != 0) { CHECK(failed_errno && code == (cork_error) failed_errno, "reading failed with error %u (%s), the read's error was %d", (unsigned) code, msg, failed_errno); CHECK(!R.eof, "end of file is announced after a read error"); if (kind != COOKIE) CHECK(R.got == served, "%zu bytes delivered, %zu were read before the error", R.got, served); pbt_label("read error"); }
    else { CHECK(R.eof, "end of file is not announced"); CHECK(R.got == clen, "%zu bytes delivered of %zu", R.got, clen); CHECK(!failed_read && !(failed_errno && kind != COOKIE && served < clen), "a read error is not reported"); pbt_label("complete"); }
    if (faults) pbt_label("short or interrupted reads"); pbt_label(kn[kind]);
    if (clen && (faults || R.stopped || R.chunks > 1)) pbt_nontrivial();
}
