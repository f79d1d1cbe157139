/* An accounting allocator, installed as libcork's allocator: every block that
 * the library allocates is known with its size; a free of an unknown block or
 * with the wrong size fails the case; blocks left over at the end of a case are
 * a leak (confirmed by repetition, so that one-time caches are not reported). */
#ifndef ACCT_H
#define ACCT_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

void   acct_install(void);        /* call from pbt_init */
size_t acct_live(void);           /* blocks currently allocated */
size_t acct_bytes(void);
bool   acct_known(const void *p, size_t *size); /* is p the start of a live block? */
size_t acct_find(const void *p);  /* size of the live block that contains p, 0 if none */
extern bool acct_check_leaks;     /* default true */
extern uint64_t acct_total;       /* number of allocations so far */
#endif
