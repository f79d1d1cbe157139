/* The actions of a generated child, run in a forked function or by the program `kid`. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
/* o: write to stdout, e: write to stderr, O / I / 2: close stdout / stdin / stderr, r: read n bytes, R: read until end of file and report,
 * E: echo until end of file, s: sleep, b: wait until `n` children are there, f: stay for ever, x: exit with status n at once */
struct act { char op; unsigned n, seed, chunk; };
static inline uint8_t kid_byte(unsigned seed, size_t i) { return (uint8_t) (seed * 31 + i * 7 + (i >> 8) * 13 + (i >> 16) * 29 + 1); }
#ifndef KID_READ
#define KID_READ read
#define KID_WRITE write
#define KID_SLEEP usleep
#endif
static inline void kid_put(int fd, const void *buf, size_t n)
{ const char *b = buf; while (n) { ssize_t r = KID_WRITE(fd, b, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) _exit(252); b += r; n -= (size_t) r; } }
static inline ssize_t kid_get(void *buf, size_t n) { ssize_t r; while ((r = KID_READ(0, buf, n)) < 0 && errno == EINTR) { } if (r < 0) _exit(253); return r; }
static inline void kid_run(const struct act *a, size_t n, const char *rendezvous)
{
    size_t pos[3] = { 0, 0, 0 }; static uint8_t b[8192]; prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(30);
    for (size_t i = 0; i < n; i++) switch (a[i].op) {
        case 'o': case 'e': { int fd = a[i].op == 'o' ? 1 : 2; unsigned left = a[i].n, c = a[i].chunk ? a[i].chunk : 1; if (c > sizeof b) c = sizeof b; while (left) { unsigned m = left < c ? left : c; for (unsigned k = 0; k < m; k++) b[k] = kid_byte(a[i].seed, pos[fd]++); kid_put(fd, b, m); left -= m; } break; }
        case 'O': close(1); break; case '2': close(2); break; case 'I': close(0); break;
        case 'r': { unsigned left = a[i].n; while (left) { ssize_t r = kid_get(b, left < sizeof b ? left : sizeof b); if (r == 0) _exit(250); for (ssize_t k = 0; k < r; k++) if (b[k] != kid_byte(a[i].seed, pos[0]++)) _exit(249); left -= (unsigned) r; } break; }
        case 'R': { ssize_t r; bool bad = false; while ((r = kid_get(b, a[i].chunk && a[i].chunk < sizeof b ? a[i].chunk : sizeof b)) > 0) for (ssize_t k = 0; k < r; k++) if (b[k] != kid_byte(a[i].seed, pos[0]++)) bad = true; char s[60]; int l = snprintf(s, sizeof s, "[%zu bytes, %s]", pos[0], bad ? "wrong" : "right"); kid_put(1, s, (size_t) l); break; }
        case 'E': { ssize_t r; while ((r = kid_get(b, a[i].chunk && a[i].chunk < sizeof b ? a[i].chunk : sizeof b)) > 0) kid_put(1, b, (size_t) r); break; }
        case 's': KID_SLEEP(a[i].n * 100); break;
        case 'b': { int fd = open(rendezvous, O_RDWR | O_APPEND, 0); if (fd < 0) _exit(248); kid_put(fd, "x", 1); struct stat s; int k; for (k = 0; fstat(fd, &s) == 0 && s.st_size < (off_t) a[i].n; k++) { if (k > 40000) _exit(247); KID_SLEEP(200); } close(fd); break; }
        case 'f': for (;;) pause();
        case 'x': _exit((int) a[i].n);
    }
}
