/* Lifetime of managed buffers under sharing: reference counts, slices, copies. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is a few managed buffers (own freer, copied, user-implemented, made from a growable buffer) and a random history of ref, unref, slice, slice copy, re-slice, finish in any order; the content must stay intact while anything refers to it, and be released exactly once, at the very moment the last reference goes; non-trivial: a buffer with at least 3 references over its life";
struct mb { struct cork_managed_buffer *m; int kind; int handles, slices, life; uint8_t *mem; size_t n; int freed; uint64_t seed; };
#define NB 6
static struct mb B[NB];
struct hs { struct cork_slice s; int b; size_t off, n; bool live; };
#define NS 12
static struct hs S[NS]; static size_t live0;
struct custom { struct cork_managed_buffer parent; int idx; };
static void freer(void *buf, size_t n) { for (int i = 0; i < NB; i++) if (B[i].mem == buf && B[i].kind == 0) { CHECK(B[i].n == n, "the freer got size %zu, expected %zu", n, B[i].n); CHECK(B[i].freed == 0, "the freer is called twice for one buffer"); B[i].freed++; memset(buf, 0xEE, n); return; } pbt_fail("the freer got an unknown buffer"); }
static void cust_free(struct cork_managed_buffer *m) { struct custom *c = cork_container_of(m, struct custom, parent); CHECK(B[c->idx].freed == 0, "a user-implemented buffer is freed twice"); B[c->idx].freed++; memset(B[c->idx].mem, 0xEE, B[c->idx].n); }
static struct cork_managed_buffer_iface CUST = { cust_free };
static struct custom cust_objs[NB];
static void check(const char *what)
{
    for (int i = 0; i < NB; i++) {
        if (!B[i].m) continue;
        int refs = B[i].handles + B[i].slices;
        if (refs == 0) {
            if (B[i].kind <= 1) CHECK(B[i].freed == 1, "%s: buffer %d lost its last reference, but was freed %d times", what, i, B[i].freed);
            if (B[i].kind == 2) CHECK(!acct_known(B[i].m, NULL), "%s: copied buffer %d lost its last reference, but is still allocated", what, i);
            if (B[i].kind == 3) CHECK(acct_find(B[i].mem) == 0, "%s: buffer %d lost its last reference, but its content is still allocated", what, i);
            if (B[i].kind != 3) raw_free(B[i].mem);
            memset(&B[i], 0, sizeof B[i]);
        } else {
            CHECK(B[i].freed == 0, "%s: buffer %d was freed although %d references are left", what, i, refs);
            if (B[i].handles) { CHECK(B[i].m->size == B[i].n, "%s: buffer %d has size %zu, expected %zu", what, i, B[i].m->size, B[i].n); }
        }
    }
    for (int i = 0; i < NS; i++) if (S[i].live) {
        struct mb *b = &B[S[i].b]; uint8_t ref[600]; pbt_fill(ref, b->n, b->seed);
        CHECK(S[i].s.size == S[i].n && memcmp(S[i].s.buf, ref + S[i].off, S[i].n) == 0, "%s: slice %d (%zu:%zu of buffer %d) does not show the buffer's content", what, i, S[i].off, S[i].n, S[i].b);
    }
}
/* One large buffer with very many references. */
static size_t pbt_fill_u(uint64_t seed, size_t max) { uint64_t x = seed * 0x9E3779B97F4A7C15ull + 0x1234567; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; return max == SIZE_MAX ? x : x % (max + 1); }
static void big_case(void)
{
    struct mb *b = &B[0]; memset(B, 0, sizeof B); b->kind = (int) pbt_pick(4); b->n = pbt_uniform(1, 3) == 1 ? pbt_uniform(0, 600) : pbt_uniform(60000, 5000000); b->seed = pbt_u64(1, 1000); b->mem = raw_malloc(b->n); uint8_t *want = raw_malloc(b->n); pbt_fill(want, b->n, b->seed); memcpy(b->mem, want, b->n);
    size_t refs = pbt_uniform(1, 2) == 1 ? pbt_uniform(1, 300) : pbt_uniform(300, 150000), slices = pbt_uniform(0, 3000); pbt_trace("one buffer of kind %d, %zu bytes, %zu references, %zu slices", b->kind, b->n, refs, slices); pbt_label("many references");
    switch (b->kind) {
        case 0: b->m = cork_managed_buffer_new(b->mem, b->n, freer); break;
        case 1: cust_objs[0].idx = 0; cust_objs[0].parent = (struct cork_managed_buffer) { b->mem, b->n, 1, &CUST }; b->m = &cust_objs[0].parent; break;
        case 2: b->m = cork_managed_buffer_new_copy(b->mem, b->n); memset(b->mem, 0xEE, b->n); break;
        default: { struct cork_buffer *cb = cork_buffer_new(); cork_buffer_set(cb, b->mem, b->n); b->m = cork_buffer_to_managed_buffer(cb); break; }
    }
    struct cork_managed_buffer *m = b->m; CHECK(m->size == b->n, "the buffer has %zu bytes, expected %zu", m->size, b->n);
    struct cork_slice *s = raw_malloc(slices * sizeof *s);
    for (size_t i = 1; i < refs; i++) CHECK(cork_managed_buffer_ref(m) == m, "ref returns another buffer");
    for (size_t i = 0; i < slices; i++) {
        size_t o = pbt_fill_u(i * 2 + b->seed, b->n), l = pbt_fill_u(i * 2 + 1 + b->seed, b->n - o); int rc = i && i % 2 ? cork_slice_copy(&s[i], &s[0], o <= s[0].size ? o : 0, 0) : cork_managed_buffer_slice(&s[i], m, o, l); CHECK(rc == 0, "a valid slice is refused");
        if (i % 2 == 0) CHECK(s[i].size == l && !memcmp(s[i].buf, want + o, l), "slice %zu:%zu does not show the buffer's content", o, l);
    }
    size_t left = refs + slices, i = 0, h = refs; bool first = pbt_chance(1, 2);
    while (left) {
        if (left == 1 || left % 5000 == 0) { CHECK(b->freed == 0, "the buffer was freed although %zu of %zu references are left", left, refs + slices); if (b->kind == 2) CHECK(acct_known(m, NULL), "the buffer was freed although %zu references are left", left); else if (h) CHECK(!memcmp(m->buf, want, b->n), "the content changed while %zu references are left", left);  }
        if (h && (first || i == slices)) { cork_managed_buffer_unref(m); h--; } else { cork_slice_finish(&s[i]); i++; }
        left--;
    }
    if (b->kind <= 1) CHECK(b->freed == 1, "the buffer was freed %d times", b->freed); else CHECK(!acct_known(m, NULL), "the buffer is still allocated");
    raw_free(b->mem); raw_free(want); raw_free(s); memset(B, 0, sizeof B); pbt_nontrivial();
}
void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    if (pbt_large(150)) { big_case(); return; }
    unsigned st = 0; bool nt = false; memset(B, 0, sizeof B); memset(S, 0, sizeof S); live0 = acct_live();
    while (pbt_more(&st, 35, 250)) {
        int i = (int) pbt_pick(NB), s = (int) pbt_pick(NS); unsigned op = pbt_pick(9);
        if (!B[i].m) {
            struct mb *b = &B[i]; b->kind = (int) pbt_pick(4); b->n = pbt_size(0, 500); b->seed = 1 + st; b->mem = raw_malloc(b->n); pbt_fill(b->mem, b->n, b->seed);
            pbt_trace("buffer %d := new, kind %d, %zu bytes", i, b->kind, b->n);
            switch (b->kind) {
                case 0: b->m = cork_managed_buffer_new(b->mem, b->n, freer); break;
                case 1: cust_objs[i].idx = i; cust_objs[i].parent = (struct cork_managed_buffer) { b->mem, b->n, 1, &CUST }; b->m = &cust_objs[i].parent; break;
                case 2: b->m = cork_managed_buffer_new_copy(b->mem, b->n); memset(b->mem, 0xEE, b->n); break;
                default: { struct cork_buffer *cb = cork_buffer_new(); cork_buffer_set(cb, b->mem, b->n); b->m = cork_buffer_to_managed_buffer(cb); raw_free(b->mem); b->mem = (void *) b->m->buf; break; }
            }
            CHECK(b->m != NULL, "no managed buffer"); b->handles = 1; b->life = 1;
        } else if (op == 0) { if (B[i].handles) { pbt_trace("ref %d", i); CHECK(cork_managed_buffer_ref(B[i].m) == B[i].m, "ref returns another buffer"); B[i].handles++; B[i].life++; } }
        else if (op <= 2) { if (B[i].handles) { pbt_trace("unref %d (%d handles, %d slices)", i, B[i].handles, B[i].slices); B[i].handles--; cork_managed_buffer_unref(B[i].m); if (B[i].handles == 0 && B[i].slices) pbt_label("slices outlive the handles"); } }
        else if (op == 3) { if (B[i].handles && !S[s].live) { size_t o = pbt_uniform(0, B[i].n), l = pbt_uniform(0, B[i].n - o); pbt_trace("slice %d := buffer %d at %zu:%zu", s, i, o, l);
                    CHECK(cork_managed_buffer_slice(&S[s].s, B[i].m, o, l) == 0, "a valid slice is refused"); S[s].live = true; S[s].b = i; S[s].off = o; S[s].n = l; B[i].slices++; B[i].life++; } }
        else if (op == 4) { int d = (int) pbt_pick(NS); if (S[s].live && !S[d].live) { size_t o = pbt_uniform(0, S[s].n), l = pbt_uniform(0, S[s].n - o); bool light = pbt_chance(1, 3); pbt_trace("slice %d := copy of slice %d at %zu:%zu", d, s, o, l); (void) light;
                    CHECK(cork_slice_copy(&S[d].s, &S[s].s, o, l) == 0, "a valid copy is refused"); S[d] = (struct hs) { S[d].s, S[s].b, S[s].off + o, l, true }; B[S[s].b].slices++; B[S[s].b].life++; pbt_label("slice copied"); } }
        else if (op == 5) { if (S[s].live) { size_t o = pbt_uniform(0, S[s].n), l = pbt_uniform(0, S[s].n - o); pbt_trace("re-slice %d to %zu:%zu", s, o, l); CHECK(cork_slice_slice(&S[s].s, o, l) == 0, "a valid slice is refused"); S[s].off += o; S[s].n = l; } }
        else if (op == 6) { if (B[i].handles && !S[s].live) { size_t o = B[i].n + 1 + pbt_size(0, 1000); pbt_trace("rejected slice of buffer %d at %zu", i, o); CHECK(cork_managed_buffer_slice_offset(&S[s].s, B[i].m, o) == -1, "an invalid slice is accepted"); cork_slice_finish(&S[s].s); cork_error_clear(); } }
        else if (op == 8) { int d = (int) pbt_pick(NS); if (S[s].live && !S[d].live) { pbt_trace("move slice %d to %d", s, d); S[d] = S[s]; S[s].live = false; pbt_label("slice moved"); } }
        else { if (S[s].live) { pbt_trace("finish slice %d", s); cork_slice_finish(&S[s].s); S[s].live = false; B[S[s].b].slices--; } }
        if (B[i].life >= 3) nt = true;
        check("after the operation");
    }
    bool order = pbt_chance(1, 2);
    for (int r = 0; r < 2; r++) {
        if ((r == 0) == order) for (int s = 0; s < NS; s++) if (S[s].live) { cork_slice_finish(&S[s].s); S[s].live = false; B[S[s].b].slices--; check("at the end"); }
        if ((r == 0) != order) for (int i = 0; i < NB; i++) while (B[i].m && B[i].handles) { B[i].handles--; cork_managed_buffer_unref(B[i].m); check("at the end"); }
    }
    if (nt) pbt_nontrivial();
}
