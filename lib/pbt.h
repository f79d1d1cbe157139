/* A small property-based testing engine: generated cases are sequences of
 * recorded choices, so that replay, shrinking and coverage-guided mutation all
 * work on one representation.  See DESIGN.md, "The engine". */
#ifndef PBT_H
#define PBT_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

/*---- provided by each harness ----*/
extern const char *pbt_rule;        /* what a case is, what makes it non-trivial */
void pbt_init(void);                /* once per process, before any case */
void pbt_case(void);                /* one generated case */

/*---- choices ----*/
/* A value in [lo,hi].  Shrinks towards lo. */
uint64_t pbt_u64(uint64_t lo, uint64_t hi);          /* edges + dictionary + log-uniform + uniform */
uint64_t pbt_uniform(uint64_t lo, uint64_t hi);      /* uniform only */
size_t   pbt_size(size_t lo, size_t hi);             /* biased towards small, with edges */
static inline size_t pbt_pick(size_t n) { return (size_t) pbt_uniform(0, n - 1); }
bool     pbt_chance(unsigned num, unsigned den);     /* true w.p. num/den; shrinks to false */
/* Whether this case is one of the rare ones of large magnitude (1 in den of the
 * fresh cases): those get more time and don't take part in mutation. */
bool     pbt_large(unsigned den);
/* Repeat with an expected number of rounds; shrinks to fewer. */
bool     pbt_more(unsigned *state, size_t avg, size_t max);
/* A swarm mask over n operations (n <= 64); at least one bit of `need` stays. */
uint64_t pbt_swarm(unsigned n, uint64_t need);
unsigned pbt_op(uint64_t mask, unsigned n);          /* pick one enabled op */
/* deterministic content generator: fills from a seed (seed 0 = all 'a') */
void     pbt_fill(void *dst, size_t n, uint64_t seed);
/* Bytes drawn one choice at a time, from an alphabet (NULL: all bytes). */
void     pbt_bytes(uint8_t *dst, size_t n, const char *alphabet, size_t alen);
/* NUL-terminated string in a static ring of buffers (valid for 64 calls) */
const char *pbt_str(size_t minlen, size_t maxlen, const char *alphabet);
/* Mark the beginning of an operation (helps the shrinker). */
void     pbt_mark(void);

/*---- classification ----*/
void pbt_label(const char *name);   /* counted at most once per case */
void pbt_count(const char *name, uint64_t n); /* plain counter */
void pbt_nontrivial(void);
void pbt_discard(void) __attribute__((noreturn)); /* abandon the case (counted) */

/*---- trace & verdict ----*/
extern bool pbt_tracing;
void pbt_trace_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define pbt_trace(...) do { if (pbt_tracing) pbt_trace_(__VA_ARGS__); } while (0)
void pbt_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define CHECK(cond, ...) do { if (!(cond)) pbt_fail(__VA_ARGS__); } while (0)
/* Called from code running in another process forked by the case: record the
 * failure where the engine will see it, then exit. */
bool pbt_failed_elsewhere(void);    /* a forked helper recorded a failure */
const char *pbt_quote(const void *buf, size_t len);  /* printable, static ring */
/* The scratch directory of this worker (created on demand, removed at exit). */
const char *pbt_scratch(void);
/* Become an unprivileged user (no-op when not root); scratch is handed over. */
void pbt_drop_privileges(void);
/* Run fn in a forked process (stderr silenced when quiet); returns its wait
 * status.  A failure recorded there fails the case. */
int pbt_in_child(void (*fn)(void *), void *arg, bool quiet);
/* Extend the watchdog for the current case. */
void pbt_set_timeout(unsigned seconds);
/* Run fn repeatedly as a leak check: see alloc.h */
extern int (*pbt_after_case)(void);     /* returns nonzero to ask for a rerun */
extern void (*pbt_before_case)(void);

/* Non-engine memory (never seen by the checked allocator). */
void *raw_malloc(size_t n);
void *raw_realloc(void *p, size_t n);
void  raw_free(void *p);

#endif
