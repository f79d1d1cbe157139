/* small helpers shared by harnesses */
#ifndef UTIL_H
#define UTIL_H
#include <stddef.h>
/* Runs a program (stdin from /dev/null, stdout captured, stderr captured when
 * err is given, else dropped); returns the wait status. */
int util_run(const char *prog, char *const *argv, char *const *envp, char *out, size_t *outlen, char *err, size_t *errlen);
const char *util_tool(const char *name);    /* path of a built tool */
#endif
