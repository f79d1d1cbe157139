#include "util.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
extern char **environ;
const char *util_tool(const char *name)
{
    static char b[4][4096]; static int k; char *o = b[k++ & 3];
    snprintf(o, sizeof b[0], "%s/%s", getenv("PBT_BUILD"), name);
    return o;
}
int util_run(const char *prog, char *const *argv, char *const *envp, char *out, size_t *outlen, char *err, size_t *errlen)
{
    int po[2], pe[2], st; size_t on = 0, en = 0;
    if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) abort();
    pid_t p = fork();
    if (p < 0) abort();
    if (p == 0) {
        int n = open("/dev/null", O_RDONLY); dup2(n, 0); dup2(po[1], 1); dup2(pe[1], 2);
        execve(prog, argv, envp ? envp : environ); _exit(127);
    }
    close(po[1]); close(pe[1]);
    int open_ = 3;
    while (open_) {
        struct pollfd f[2] = { { open_ & 1 ? po[0] : -1, POLLIN, 0 }, { open_ & 2 ? pe[0] : -1, POLLIN, 0 } };
        if (poll(f, 2, -1) < 0) continue;
        for (int i = 0; i < 2; i++) if (f[i].revents) {
            char t[4096]; ssize_t r = read(f[i].fd, t, sizeof t);
            if (r < 0 && errno == EINTR) continue;
            if (r <= 0) { open_ &= ~(1 << i); continue; }
            char *d = i ? err : out; size_t *c = i ? &en : &on; size_t cap = d ? (i ? *errlen : *outlen) : 0;
            size_t take = (size_t) r; if (*c + take > cap) take = cap - *c;
            if (take) memcpy(d + *c, t, take);
            *c += take;
        }
    }
    close(po[0]); close(pe[0]);
    if (out) *outlen = on; if (err) *errlen = en;
    while (waitpid(p, &st, 0) < 0) { }
    return st;
}
