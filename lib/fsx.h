/* File trees in a scratch directory: generated, listed and compared. */
#ifndef FSX_H
#define FSX_H
#include <stdbool.h>
#include <stddef.h>
void fsx_init(void);                        /* drops privileges; call from pbt_init */
void fsx_fresh(const char *dir);            /* an empty directory of that name in the scratch directory, made current */
/* Builds one generated tree at `rel` (below the current directory of each of
 * the n roots), identical in all of them.  Bits of `kinds`: */
enum { FSX_LINKS = 1, FSX_DANGLING = 2, FSX_LOOPS = 4, FSX_FIFO = 8, FSX_MODES = 16, FSX_OUTLINKS = 32, FSX_BIG = 64 };
void fsx_grow(const char *const *roots, int n, const char *rel, int depth, unsigned kinds);
/* A sorted listing: one line per object, path TAB type mode content-or-target. */
const char *fsx_list(const char *dir);      /* static ring of 6 */
const char *fsx_diff(const char *a, const char *b, const char *na, const char *nb); /* first difference, or NULL */
int  fsx_open_fds(void);
const char *fsx_name(void);                 /* a short generated entry name */
extern unsigned fsx_objects;                /* objects made by fsx_grow */
#endif
