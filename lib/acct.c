#include "acct.h"
#include "pbt.h"
#include <pthread.h>
#include <string.h>
#include <stdlib.h>
#include "libcork/core/allocator.h"

bool acct_check_leaks = true;
uint64_t acct_total = 0;
struct slot { uintptr_t p; size_t n; };
static struct slot *tab; static size_t cap, used, live, bytes;
static volatile int lk;
static void lock(void) { while (__sync_lock_test_and_set(&lk, 1)) { } }
static void unlock(void) { __sync_lock_release(&lk); }
#define TOMB ((uintptr_t) 1)
static size_t hsh(uintptr_t p) { return (size_t) ((p >> 4) * 0x9e3779b97f4a7c15ull >> 20); }
static void grow(void)
{
    size_t nc = live * 4 < 4096 ? 4096 : 1; while (nc < live * 4) nc *= 2;
    struct slot *n = raw_malloc(nc * sizeof *n); memset(n, 0, nc * sizeof *n);
    for (size_t i = 0; i < cap; i++) if (tab[i].p > TOMB) { size_t j = hsh(tab[i].p) & (nc - 1); while (n[j].p) j = (j + 1) & (nc - 1); n[j] = tab[i]; }
    raw_free(tab); tab = n; cap = nc; used = live;
}
static struct slot *find(uintptr_t p)
{ if (!cap) return NULL; size_t j = hsh(p) & (cap - 1); while (tab[j].p) { if (tab[j].p == p) return &tab[j]; j = (j + 1) & (cap - 1); } return NULL; }
static void add(void *v, size_t n)
{
    lock();
    if ((used + 1) * 2 >= cap) grow();
    size_t j = hsh((uintptr_t) v) & (cap - 1); while (tab[j].p > TOMB) j = (j + 1) & (cap - 1);
    if (tab[j].p == 0) used++;
    tab[j].p = (uintptr_t) v; tab[j].n = n; live++; bytes += n; acct_total++;
    unlock();
}
static void del(void *v, size_t n, const char *what)
{
    lock();
    struct slot *s = find((uintptr_t) v);
    if (!s) { unlock(); pbt_fail("%s of a block (%p) that is not allocated (never allocated, or freed before)", what, v); }
    if (s->n != n) { size_t o = s->n; unlock(); pbt_fail("%s with the wrong size: block of %zu bytes, size given %zu", what, o, n); }
    s->p = TOMB; live--; bytes -= n;
    unlock();
}
static void *a_xmalloc(const struct cork_alloc *a, size_t n)
{ (void) a; void *p = malloc(n ? n : 1); if (!p) return NULL; memset(p, 0xA5, n); add(p, n); return p; }
static void *a_malloc(const struct cork_alloc *a, size_t n)
{ void *p = a_xmalloc(a, n); if (!p) pbt_fail("the library asked for %zu bytes, which cannot be allocated", n); return p; }
static void *a_xcalloc(const struct cork_alloc *a, size_t c, size_t s)
{ (void) a; size_t n; if (__builtin_mul_overflow(c, s, &n)) return NULL; void *p = calloc(1, n ? n : 1); if (!p) return NULL; add(p, n); return p; }
static void *a_calloc(const struct cork_alloc *a, size_t c, size_t s)
{ void *p = a_xcalloc(a, c, s); if (!p) pbt_fail("the library asked for %zu * %zu bytes, which cannot be allocated", c, s); return p; }
static void *a_xrealloc(const struct cork_alloc *a, void *o, size_t os, size_t ns)
{
    if (!o) return a_xmalloc(a, ns);
    /* always move: a caller that keeps the old pointer is found out */
    void *p = malloc(ns ? ns : 1); if (!p) return NULL;
    del(o, os, "realloc");
    memset(p, 0xA5, ns); memcpy(p, o, os < ns ? os : ns); add(p, ns); free(o); return p;
}
static void *a_realloc(const struct cork_alloc *a, void *o, size_t os, size_t ns)
{ void *p = a_xrealloc(a, o, os, ns); if (!p) pbt_fail("the library asked for %zu bytes, which cannot be allocated", ns); return p; }
static void a_free(const struct cork_alloc *a, void *p, size_t n)
{
    (void) a; if (!p) return; del(p, n, "free");
#if !__has_feature(address_sanitizer)
    memset(p, 0xDB, n);
#endif
    free(p);
}

size_t acct_live(void) { return live; }
size_t acct_bytes(void) { return bytes; }
bool acct_known(const void *p, size_t *n)
{ lock(); struct slot *s = p ? find((uintptr_t) p) : NULL; if (s && n) *n = s->n; bool r = s != NULL; unlock(); return r; }
size_t acct_find(const void *p)
{ size_t r = 0; lock(); struct slot *x = p ? find((uintptr_t) p) : NULL; if (x && x->n) r = x->n; for (size_t i = 0; i < cap && !r; i++) if (tab[i].p > TOMB && (uintptr_t) p >= tab[i].p && (uintptr_t) p < tab[i].p + tab[i].n) r = tab[i].n; unlock(); return r; }

static size_t before;
static void b4(void) { lock(); if (cap > 16384 && live * 16 < cap) grow(); unlock(); before = live; }
static int after(void) { return acct_check_leaks && live > before; }
void acct_install(void)
{
    struct cork_alloc *a = cork_alloc_new_alloc(cork_allocator);
    cork_alloc_set_malloc(a, a_malloc); cork_alloc_set_xmalloc(a, a_xmalloc);
    cork_alloc_set_calloc(a, a_calloc); cork_alloc_set_xcalloc(a, a_xcalloc);
    cork_alloc_set_realloc(a, a_realloc); cork_alloc_set_xrealloc(a, a_xrealloc);
    cork_alloc_set_free(a, a_free);
    cork_set_allocator(a);
    pbt_before_case = b4; pbt_after_case = after;
}
