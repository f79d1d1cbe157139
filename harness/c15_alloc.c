/* Allocators: contracts of every allocation function over every kind of
 * allocator, with an underlying allocator that may fail. */
#include "pbt.h"
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include "libcork/core.h"
const char *pbt_rule = "a case picks an allocator (default, user-defined with every subset of methods, debugging over either, debugging over debugging), optionally installs it as libcork's, and runs a random history of every allocation, resize, string and free call with sizes from 0 to SIZE_MAX and injected failures; blocks, contents, zeroing, and the calls that reach the user-defined allocator are checked; calls that must not return run in a forked process; a quarter of the cases instead check release at exit; non-trivial: a resize, and either an injected failure or an overflowing request";

/*---- the recording user-defined allocator ----*/
#define MAXB 4096
static struct blk { uint8_t *p; size_t n; } B[MAXB]; static size_t nb, nb0; static long fail_in = -1; static bool fired; static size_t limit = 1u << 26; static int tokens[64]; static const struct cork_alloc *expect_alloc; static unsigned calls;
static struct blk *bfind(const void *p) { for (size_t i = 0; i < nb; i++) if (B[i].p == p) return &B[i]; return NULL; }
static struct blk *bcover(const void *p, size_t n) { for (size_t i = 0; i < nb; i++) if ((uint8_t *) p >= B[i].p && (uint8_t *) p + n <= B[i].p + B[i].n) return &B[i]; return NULL; }
static void chk(const struct cork_alloc *a, const char *m) { calls++; CHECK(a->user_data >= (void *) tokens && a->user_data < (void *) (tokens + 64), "%s was called without the allocator's own user data", m); if (expect_alloc) CHECK(a == expect_alloc, "%s was called with another allocator", m); }
static bool fails(size_t n) { if (n > limit) return true; if (fail_in > 0 && --fail_in == 0) { fail_in = -1; fired = true; return true; } return false; }
static void *raw(size_t n) { uint8_t *p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xA5, n); CHECK(nb < MAXB, "too many blocks"); B[nb].p = p; B[nb++].n = n; return p; }
static void r_free(const struct cork_alloc *a, void *p, size_t n)
{ chk(a, "free"); if (!p) return; struct blk *b = bfind(p); CHECK(b, "free reached the underlying allocator with a block it did not allocate"); CHECK(b->n == n, "free reached the underlying allocator with size %zu for a block of %zu bytes", n, b->n); memset(p, 0xDD, n); free(p); *b = B[--nb]; }
static void *r_xmalloc(const struct cork_alloc *a, size_t n) { chk(a, "xmalloc"); return fails(n) ? NULL : raw(n); }
static unsigned xhit;
static void *r_xcalloc(const struct cork_alloc *a, size_t c, size_t s) { xhit |= 8; chk(a, "xcalloc"); size_t n; if (__builtin_mul_overflow(c, s, &n) || fails(n)) return NULL; void *p = raw(n); memset(p, 0, n); return p; }
static void *r_xrealloc(const struct cork_alloc *a, void *o, size_t os, size_t n)
{ xhit |= 16; chk(a, "xrealloc"); if (o) { struct blk *b = bfind(o); CHECK(b && b->n == os, "xrealloc reached the underlying allocator with a wrong block or old size"); }
  if (fails(n)) return NULL; uint8_t *p = raw(n); if (o) { memcpy(p, o, os < n ? os : n); r_free(a, o, os); } return p; }
static void die(void) { _exit(77); }        /* how the user-defined allocator does not return */
static unsigned hit;
static void *r_malloc(const struct cork_alloc *a, size_t n) { hit |= 1; void *p = r_xmalloc(a, n); if (!p) die(); return p; }
static void *r_calloc(const struct cork_alloc *a, size_t c, size_t s) { hit |= 2; void *p = r_xcalloc(a, c, s); if (!p) die(); return p; }
static void *r_realloc(const struct cork_alloc *a, void *o, size_t os, size_t n) { hit |= 4; void *p = r_xrealloc(a, o, os, n); if (!p) die(); return p; }

struct A { const struct cork_alloc *a, *base; const char *name; bool recorded, direct; unsigned mask; };
static struct A allocs[80]; static int nalloc;
static struct cork_alloc *mk(unsigned mask, int tok)
{
    struct cork_alloc *a = cork_alloc_new_alloc(cork_allocator); cork_alloc_set_user_data(a, &tokens[tok], NULL);
    cork_alloc_set_xmalloc(a, r_xmalloc); cork_alloc_set_free(a, r_free);
    if (mask & 1) cork_alloc_set_malloc(a, r_malloc); if (mask & 2) cork_alloc_set_calloc(a, r_calloc); if (mask & 4) cork_alloc_set_realloc(a, r_realloc);
    if (mask & 8) cork_alloc_set_xcalloc(a, r_xcalloc); if (mask & 16) cork_alloc_set_xrealloc(a, r_xrealloc);
    return a;
}
static const struct cork_alloc *deflt;
void pbt_init(void)
{
    deflt = cork_allocator;
    allocs[nalloc++] = (struct A) { deflt, NULL, "the default allocator", false, true };
    for (unsigned m = 0; m < 32; m++) { struct cork_alloc *a = mk(m, m); allocs[nalloc++] = (struct A) { a, a, "a user-defined allocator", true, true, m }; }
    allocs[nalloc++] = (struct A) { cork_debug_alloc_new(deflt), NULL, "the debugging allocator over the default", false, false };
    for (unsigned m = 0; m < 32; m++) { struct cork_alloc *a = mk(m, 32 + (m & 31)); allocs[nalloc++] = (struct A) { cork_debug_alloc_new(a), a, "the debugging allocator over a user-defined one", true, false }; if (m == 31) allocs[nalloc++] = (struct A) { cork_debug_alloc_new(allocs[nalloc - 2].a), a, "the debugging allocator over itself", true, false }; }
    nb0 = nb;
}

/*---- blocks under test ----*/
struct obj { uint8_t *p; size_t n; uint64_t seed; bool counted; size_t c, s; };
static struct obj O[64]; static int no; static struct A *cur; static bool global;
/* an allocator's own method serves the function it was given for */
static void own(unsigned bit, const char *what) { if (cur->direct && cur->mask & bit) CHECK((hit | xhit) & bit, "%s of %s does not call the method given for it", what, cur->name); }
static bool content(const uint8_t *p, size_t n, uint64_t seed) { uint8_t b[256]; static uint8_t big[70000]; uint8_t *w = n <= 256 ? b : big; if (n > sizeof big) n = sizeof big; pbt_fill(w, n, seed); return memcmp(p, w, n) == 0; }
static void claim(uint8_t *p, size_t n, const char *what, bool zero)
{
    CHECK(((uintptr_t) p & 7) == 0, "%s of %s returns a misaligned pointer", what, cur->name);
    if (cur->recorded) { struct blk *b = bcover(p, n); CHECK(b, "%s of %s returns %zu bytes of which the underlying allocator did not allocate all", what, cur->name, n); if (cur->direct) CHECK(b->p == p && b->n == n, "%s: the underlying allocator was asked for %zu bytes, expected %zu", what, b->n, n); }
    for (int i = 0; i < no; i++) CHECK(p + n <= O[i].p || O[i].p + O[i].n <= p, "%s returns memory that is in use", what);
    if (zero) for (size_t i = 0; i < n; i++) CHECK(p[i] == 0, "%s returns memory that is not zeroed", what);
}
static size_t bigsize(void) { switch (pbt_pick(3)) { case 0: return SIZE_MAX - pbt_size(0, 64); case 1: return (size_t) 1 << pbt_uniform(34, 63); default: return SIZE_MAX / 2 + pbt_size(0, 100); } }

struct g { int which; size_t a, b; int obj; const struct cork_alloc *al; bool global; };
static void g_run(void *v)
{
    struct g *g = v; const struct cork_alloc *a = g->al; void *r = NULL; struct obj *o = g->obj >= 0 ? &O[g->obj] : NULL;
    switch (g->which) {
        case 0: r = g->global ? cork_malloc(g->a) : cork_alloc_malloc(a, g->a); break;
        case 1: r = g->global ? cork_calloc(g->a, g->b) : cork_alloc_calloc(a, g->a, g->b); break;
        case 2: r = g->global ? cork_realloc(o->p, o->n, g->a) : cork_alloc_realloc(a, o->p, o->n, g->a); break;
        case 3: r = (void *) (g->global ? cork_strdup("0123456789") : cork_alloc_strdup(a, "0123456789")); break;
        case 4: r = (void *) (g->global ? cork_strndup("0123456789", 6) : cork_alloc_strndup(a, "0123456789", 6)); break;
        case 5: if (g->global) cork_free(o->p, g->a); else cork_alloc_free(a, o->p, g->a); _exit(50);
    }
    _exit(r ? 51 : 52);
}
static void must_not_return(struct g *g, const char *what)
{
    int st = pbt_in_child(g_run, g, true);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) >= 50 && WEXITSTATUS(st) <= 52), "%s of %s returns %s although it must not return", what, cur->name, WEXITSTATUS(st) == 52 ? "NULL" : "a pointer");
    CHECK((WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) == 77), "%s of %s ends the process with status %#x instead of aborting", what, cur->name, st);
}

/*---- release at exit ----*/
static int pfd; static const void *rel_parent_blocks[8]; static int nrel;
static void ud_free(void *ud) { char c = (char) ('a' + ((int *) ud - tokens)); if (write(pfd, &c, 1) != 1) { } }
static void exit_case(void *v)
{
    unsigned *x = v; unsigned n = x[0]; const struct cork_alloc *parent = deflt; fail_in = -1; nb = nb0;
    static struct cork_alloc *al[8]; 
    for (unsigned i = 0; i < n; i++) { al[i] = x[1 + i] & 16 ? cork_debug_alloc_new(parent) : cork_alloc_new_alloc(parent);
        if (!(x[1 + i] & 16)) { cork_alloc_set_xmalloc(al[i], r_xmalloc); cork_alloc_set_free(al[i], r_free); }
        if (x[1 + i] & 2) cork_alloc_set_user_data(al[i], &tokens[20 + i], ud_free);
        cork_alloc_set_user_data(al[i], &tokens[i], x[1 + i] & 1 ? ud_free : NULL);
        if (x[1 + i] & 4 && !(x[1 + i] & 16) ) parent = al[i]; else if (x[1 + i] & 8) parent = deflt; }
    exit(0);
}
static void exit_property(void)
{
    unsigned x[9]; x[0] = (unsigned) pbt_uniform(1, 7); char want[32]; size_t nw = 0; int p[2]; if (pipe(p)) { pbt_discard(); } pfd = p[1];
    for (unsigned i = 0; i < x[0]; i++) { x[1 + i] = (unsigned) pbt_uniform(0, 31); pbt_trace("allocator %u: flags %u", i, x[1 + i]); if (x[1 + i] & 2) want[nw++] = (char) ('a' + 20 + i); }
    for (unsigned i = x[0]; i-- > 0;) if (x[1 + i] & 1) want[nw++] = (char) ('a' + i);
    int st = pbt_in_child(exit_case, x, false); close(p[1]); char got[64]; ssize_t n = read(p[0], got, sizeof got); close(p[0]); if (n < 0) n = 0;
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "releasing the allocators at exit ends the process with status %#x", st);
    CHECK((size_t) n == nw && memcmp(got, want, nw) == 0, "user data released at exit: %s, expected %s", pbt_quote(got, n), pbt_quote(want, nw));
    pbt_label("release at exit"); if (nw >= 2) pbt_nontrivial();
}

void pbt_case(void)
{
    unsigned st = 0; bool inj = false, resized = false, over = false; no = 0; nb = nb0; fail_in = -1; limit = 1u << 26; expect_alloc = NULL;
    if (pbt_chance(1, 24)) { exit_property(); return; }
    cur = &allocs[pbt_chance(1, 5) ? 0 : pbt_pick(nalloc)]; global = pbt_chance(1, 2); expect_alloc = cur->base; const struct cork_alloc *a = cur->a;
    pbt_trace("%s%s", cur->name, global ? ", installed for libcork" : "");
    if (global) cork_set_allocator(a);
    while (pbt_more(&st, 30, 150)) {
        unsigned op = pbt_pick(12); bool x = pbt_chance(1, 2); size_t n = pbt_size(0, pbt_chance(1, 20) ? 60000 : 300); unsigned c0 = calls;
        bool failing = cur->recorded && pbt_chance(1, 6); if (failing) { x = true; }
        if (no >= 60 && op < 7) op = 9;
        long after = failing ? 1 : -1; fired = false; hit = xhit = 0;
        if (op <= 1) {
            bool huge = pbt_chance(1, 12); if (huge) { n = bigsize(); x = true; over = true; }
            fail_in = after; uint8_t *p = x ? (global ? cork_xmalloc(n) : cork_alloc_xmalloc(a, n)) : (global ? cork_malloc(n) : cork_alloc_malloc(a, n)); fail_in = -1;
            pbt_trace("%smalloc(%zu)%s -> %s", x ? "x" : "", n, failing ? " with failure" : "", p ? "memory" : "NULL"); if (!x) own(1, "malloc");
            if (fired || huge) { CHECK(p == NULL, "xmalloc(%zu) of %s returns memory although its allocation fails", n, cur->name); inj = true; continue; }
            CHECK(p != NULL, "malloc(%zu) of %s returns NULL", n, cur->name); claim(p, n, "malloc", false);
            O[no] = (struct obj) { p, n, pbt_u64(0, UINT64_MAX) | 1, false, 0, 0 }; pbt_fill(p, n, O[no].seed); no++;
        } else if (op == 2) {
            struct quad { uint64_t q[5]; }; fail_in = after; struct quad *p = x ? (global ? cork_xnew(struct quad) : cork_alloc_xnew(a, struct quad)) : (global ? cork_new(struct quad) : cork_alloc_new(a, struct quad)); fail_in = -1; pbt_trace("%snew", x ? "x" : "");
            if (fired) { CHECK(!p, "xnew returns memory although its allocation fails"); continue; } CHECK(p, "new returns NULL"); claim((uint8_t *) p, sizeof *p, "new", false);
            memset(p, 0x33, sizeof *p); if (global) cork_delete(struct quad, p); else cork_alloc_delete(a, struct quad, p);
        } else if (op <= 4) {
            size_t c = pbt_size(0, 40), s = pbt_size(0, 40); bool huge = pbt_chance(1, 6); size_t tot;
            if (huge) { x = true; switch (pbt_pick(4)) { case 0: c = bigsize(); s = pbt_size(1, 50); break; case 1: s = bigsize(); c = pbt_size(1, 50); break; case 2: s = pbt_size(1, 4000); c = SIZE_MAX / s + pbt_uniform(0, 2); if (pbt_chance(1, 2)) { size_t t = c; c = s; s = t; } break; default: s = (size_t) 1 << pbt_uniform(1, 63); c = ((size_t) 1 << (64 - __builtin_ctzll(s))) + pbt_uniform(0, 3); break; } }
            bool ovf = __builtin_mul_overflow(c, s, &tot); if (!ovf && tot <= 100000) huge = false;
            fail_in = after; uint8_t *p = x ? (global ? cork_xcalloc(c, s) : cork_alloc_xcalloc(a, c, s)) : (global ? cork_calloc(c, s) : cork_alloc_calloc(a, c, s)); fail_in = -1;
            pbt_trace("%scalloc(%zu, %zu)%s -> %s", x ? "x" : "", c, s, failing ? " with failure" : "", p ? "memory" : "NULL");
            if (!ovf) own(x ? 8 : 2, x ? "xcalloc" : "calloc"); if (fired || huge) { if (ovf) over = true; CHECK(p == NULL, "xcalloc(%zu, %zu) of %s returns memory although %s", c, s, cur->name, ovf ? "the product overflows" : "its allocation fails"); inj = true; continue; }
            CHECK(p != NULL, "calloc(%zu, %zu) of %s returns NULL", c, s, cur->name); claim(p, tot, "calloc", true);
            O[no] = (struct obj) { p, tot, pbt_u64(0, UINT64_MAX) | 1, true, c, s }; pbt_fill(p, tot, O[no].seed); no++;
        } else if (op <= 6 && no) {
            int i = (int) pbt_pick(no); struct obj *o = &O[i]; bool huge = pbt_chance(1, 12); bool f = x && pbt_chance(1, 2); if (huge) { n = bigsize(); x = true; } if (n == 0) pbt_label("resize to nothing");
            bool fresh = pbt_chance(1, 10); uint8_t *old = fresh ? NULL : o->p; size_t on = fresh ? 0 : o->n;
            CHECK(content(o->p, o->n, o->seed), "the content of a block changed");
            fail_in = after; uint8_t *p = !x ? (global ? cork_realloc(old, on, n) : cork_alloc_realloc(a, old, on, n)) : f ? (global ? cork_xreallocf(old, on, n) : cork_alloc_xreallocf(a, old, on, n)) : (global ? cork_xrealloc(old, on, n) : cork_alloc_xrealloc(a, old, on, n)); fail_in = -1;
            pbt_trace("%srealloc%s(%s, %zu, %zu)%s -> %s", x ? "x" : "", f ? "f" : "", fresh ? "NULL" : "block", on, n, failing ? " with failure" : "", p ? "memory" : "NULL");
            own(x ? 16 : 4, x ? "xrealloc" : "realloc"); bool bad = fired || huge; if (fired && p) bad = false, pbt_fail("xrealloc returns memory although its allocation fails");
            if (bad) { inj = true; CHECK(p == NULL, "xrealloc(%zu) returns memory although its allocation fails", n); if (f && !fresh) { if (cur->recorded) CHECK(!bcover(o->p, o->n ? o->n : 1), "xreallocf fails without freeing the block"); O[i] = O[--no]; pbt_label("xreallocf fails"); } else if (!fresh) { CHECK(!cur->recorded || bcover(o->p, o->n), "xrealloc frees the block although it fails"); CHECK(content(o->p, o->n, o->seed), "a failing xrealloc changes the block"); } continue; }
            CHECK(p, "realloc(%zu) of %s returns NULL", n, cur->name); resized = true;
            if (!fresh) { size_t m = on < n ? on : n; CHECK(content(p, m, o->seed), "realloc from %zu to %zu bytes does not keep the content", on, n); o->p = NULL; o->n = 0; claim(p, n, "realloc", false); o->p = p; o->n = n; o->counted = false; pbt_fill(p, n, o->seed); }
            else { claim(p, n, "realloc of NULL", false); O[no] = (struct obj) { p, n, 9, false, 0, 0 }; pbt_fill(p, n, 9); no++; }
        } else if (op == 7 || op == 8) {
            /* strings */
            const char *src = pbt_str(0, 60, NULL); size_t l = strlen(src); unsigned k = pbt_pick(2); char nb_[64]; size_t m = l;
            if (k) { m = pbt_uniform(0, 63); pbt_bytes((uint8_t *) nb_, m, "ab\0c", 4); src = nb_; }
            fail_in = after; const char *d = x ? (k ? (global ? cork_xstrndup(src, m) : cork_alloc_xstrndup(a, src, m)) : (global ? cork_xstrdup(src) : cork_alloc_xstrdup(a, src))) : (k ? (global ? cork_strndup(src, m) : cork_alloc_strndup(a, src, m)) : (global ? cork_strdup(src) : cork_alloc_strdup(a, src))); fail_in = -1;
            pbt_trace("%sstr%sdup of %zu bytes%s", x ? "x" : "", k ? "n" : "", m, failing ? " with failure" : "");
            if (fired) { CHECK(d == NULL, "xstrdup returns a string although its allocation fails"); inj = true; continue; }
            CHECK(d, "strdup returns NULL"); CHECK(memcmp(d, src, m) == 0 && d[m] == 0, "a duplicated string is %s, expected %s", pbt_quote(d, m + 1), pbt_quote(src, m));
            CHECK(cork_strlen(d) == m, "cork_strlen is %zu for a string of %zu bytes", cork_strlen(d), m); if (cur->recorded) CHECK(bcover(d, m + 1), "a duplicated string is not in the allocator's memory");
            size_t before = nb; if (global) cork_strfree(d); else cork_alloc_strfree(a, d); if (cur->recorded) CHECK(nb == before - 1, "strfree does not free the string"); pbt_label("strings");
        } else if (op <= 10 && no) {
            int i = (int) pbt_pick(no); struct obj *o = &O[i]; CHECK(content(o->p, o->n, o->seed), "the content of a block changed"); size_t before = nb;
            pbt_trace("free of %zu bytes", o->n);
            if (o->counted) { if (global) cork_cfree(o->p, o->c, o->s); else cork_alloc_cfree(a, o->p, o->c, o->s); } else if (global) cork_free(o->p, o->n); else cork_alloc_free(a, o->p, o->n);
            if (cur->recorded) CHECK(nb == before - 1, "a block of %zu bytes was freed, but the underlying allocator was not called", o->n); O[i] = O[--no];
        } else if (pbt_chance(1, 4)) {
            struct g g = { (int) pbt_pick(5), n, 1, -1, a, global }; static const char *nm[] = { "malloc", "calloc", "realloc", "strdup", "strndup", "free with a wrong size" };
            if (g.which == 2) { if (!no) continue; g.obj = (int) pbt_pick(no); }
            if (!cur->direct && no && pbt_chance(1, 2)) { g.which = 5; g.obj = (int) pbt_pick(no); g.a = pbt_chance(1, 2) ? O[g.obj].n + pbt_uniform(1, 9) : O[g.obj].n ? pbt_uniform(0, O[g.obj].n - 1) : 1; pbt_label("wrong size freed"); }
            else if (pbt_chance(1, 2) && g.which <= 2) { g.a = bigsize(); g.b = g.which == 1 ? pbt_size(1, 40) : 1; if (g.which == 1 && pbt_chance(1, 2)) { g.b = 4096; g.a = SIZE_MAX / 4096 + 1 + pbt_uniform(0, 3); } over = true; }
            else if (cur->recorded) { fail_in = 1; inj = true; } else continue;
            pbt_trace("in a child: %s, which must not return", nm[g.which]); must_not_return(&g, nm[g.which]); fail_in = -1; pbt_label("must not return");
        }
        (void) c0; for (int i = 0; i < no; i++) if (O[i].n < 400) CHECK(content(O[i].p, O[i].n, O[i].seed), "the content of a block changed");
    }
    while (no) { struct obj *o = &O[--no]; if (o->counted) cork_alloc_cfree(a, o->p, o->c, o->s); else cork_alloc_free(a, o->p, o->n); }
    cork_set_allocator(deflt);
    CHECK(nb == nb0, "%zu blocks of the underlying allocator are left", nb - nb0);
    if (inj) pbt_label("injected failure"); if (over) pbt_label("overflowing request"); if (resized && (inj || over)) pbt_nontrivial();
}
