/* Element lifecycle callbacks of arrays: every slot carries a token whose state
 * the callbacks advance. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is two arrays with a random subset of init/done/reuse/remove/free_user_data callbacks (or pointer arrays with a free callback) and a random history of append, remove, remove_range, clear, ensure_size, copy, done; each callback is checked against a per-element state machine (unused - in use - idle - finalized) as it is called; non-trivial: at least 3 operations, one of which took elements out";

enum { S_NONE, S_USED, S_IDLE, S_DONE };
struct elem { uint32_t tok; uint32_t payload; char pad[8]; };
typedef cork_array(struct elem) arr;
#define MAXT 20000
static uint8_t state[MAXT]; static uint8_t owner[MAXT]; static uint32_t ntok;
struct ud { int w; bool init, done, reuse, remove; int freed; unsigned n_init, n_done, n_reuse, n_remove; };
static struct ud U[2]; static bool finalizing;
static uint32_t reused_tok, init_tok; static uint32_t removed[MAXT]; static size_t nremoved;

static void tokchk(struct ud *u, struct elem *e, const char *cb)
{ CHECK(u == &U[0] || u == &U[1], "the %s callback got the wrong user data", cb);
  CHECK(e->tok > 0 && e->tok <= ntok, "the %s callback was called on something that is no initialized element", cb);
  CHECK(owner[e->tok] == u->w, "the %s callback was called on an element of another array", cb); }
static void cb_init(void *v, void *p) { struct ud *u = v; struct elem *e = p; CHECK(u == &U[0] || u == &U[1], "the init callback got the wrong user data");
  if (ntok + 1 >= MAXT) { pbt_discard(); } e->tok = ++ntok; e->payload = 0; state[ntok] = S_USED; owner[ntok] = u->w; u->n_init++; init_tok = ntok; }
static void cb_done(void *v, void *p) { struct ud *u = v; struct elem *e = p; tokchk(u, e, "done"); CHECK(finalizing, "done is called before the array is finalized"); CHECK(!u->freed, "done is called after the user data was freed");
  CHECK(state[e->tok] != S_DONE, "done is called twice for element #%u", e->tok); state[e->tok] = S_DONE; u->n_done++; }
static void cb_reuse(void *v, void *p) { struct ud *u = v; struct elem *e = p; tokchk(u, e, "reuse"); CHECK(state[e->tok] == S_IDLE, "reuse is called for element #%u, which is %s", e->tok, state[e->tok] == S_USED ? "still in use" : "finalized");
  state[e->tok] = S_USED; u->n_reuse++; reused_tok = e->tok; }
static void cb_remove(void *v, void *p) { struct ud *u = v; struct elem *e = p; tokchk(u, e, "remove"); CHECK(state[e->tok] == S_USED, "remove is called for element #%u, which is %s", e->tok, state[e->tok] == S_IDLE ? "already removed" : "finalized");
  removed[nremoved++] = e->tok; u->n_remove++; }
static void cb_free_ud(void *v) { struct ud *u = v; u->freed++; }

static arr A[2]; static uint32_t *mt[2], *mp[2]; static size_t mn[2], peak[2];
static int copies, in_copy = -1;
static int cb_copy(void *u, void *d, const void *s)
{ struct elem *de = d; const struct elem *se = s; CHECK(u == &copies, "the copy callback got the wrong user data");
  CHECK(de->tok > 0 && de->tok <= ntok && (state[de->tok] == S_USED || (state[de->tok] == S_IDLE && !U[in_copy].reuse)), "copy is called on an element that was neither initialized nor reset");
  de->payload = se->payload; copies++; return 0; }

/* the tokens mt[w][i..i+c) leave the array */
static void expect_removed(int w, size_t i, size_t c, const char *what)
{
    if (U[w].remove) {
        CHECK(nremoved == c, "%s called remove %zu times, expected %zu", what, nremoved, c);
        for (size_t k = 0; k < c; k++) { size_t j; for (j = 0; j < nremoved && removed[j] != mt[w][i + k]; j++) { } CHECK(j < nremoved, "%s did not call remove for element #%u", what, mt[w][i + k]); removed[j] = 0; }
    } else CHECK(nremoved == 0, "%s called the remove callback of the other array", what);
    for (size_t k = 0; k < c; k++) state[mt[w][i + k]] = S_IDLE;
    memmove(mt[w] + i, mt[w] + i + c, (mn[w] - i - c) * 4); memmove(mp[w] + i, mp[w] + i + c, (mn[w] - i - c) * 4); mn[w] -= c; nremoved = 0;
}
static void compare(int w)
{
    CHECK(cork_array_size(&A[w]) == mn[w], "array %d has %zu elements, expected %zu", w, cork_array_size(&A[w]), mn[w]);
    for (size_t i = 0; i < mn[w]; i++) {
        CHECK(cork_array_at(&A[w], i).tok == mt[w][i], "element %zu of array %d is #%u, expected #%u", i, w, cork_array_at(&A[w], i).tok, mt[w][i]);
        CHECK(cork_array_at(&A[w], i).payload == mp[w][i], "element %zu of array %d has the wrong content", i, w);
        CHECK(state[mt[w][i]] == S_USED, "element %zu of array %d is in the array but not in use", i, w);
    }
}
static void life_case(void)
{
    bool used_rm = false, own[2], large = pbt_large(1000); unsigned st = 0, ops = 0;
    memset(state, 0, sizeof state); ntok = 0; nremoved = 0; finalizing = false; memset(U, 0, sizeof U);
    for (int w = 0; w < 2; w++) {
        U[w].w = w; cork_array_init(&A[w]); mn[w] = peak[w] = 0; mt[w] = raw_malloc(4 * MAXT); mp[w] = raw_malloc(4 * MAXT);
        U[w].init = true; U[w].done = pbt_chance(3, 4); U[w].reuse = pbt_chance(3, 4); U[w].remove = pbt_chance(3, 4); own[w] = pbt_chance(1, 2);
        cork_array_set_callback_data(&A[w], &U[w], own[w] ? cb_free_ud : NULL);
        cork_array_set_init(&A[w], cb_init);
        if (U[w].done) cork_array_set_done(&A[w], cb_done);
        if (U[w].reuse) cork_array_set_reuse(&A[w], cb_reuse);
        if (U[w].remove) cork_array_set_remove(&A[w], cb_remove);
        pbt_trace("array %d: init%s%s%s%s", w, U[w].done ? " done" : "", U[w].reuse ? " reuse" : "", U[w].remove ? " remove" : "", own[w] ? " free_user_data" : "");
    }
    while (pbt_more(&st, 25, 200)) {
        int w = (int) pbt_pick(2); ops++; struct ud b = U[w]; size_t n0 = mn[w];
        switch (pbt_pick(7)) {
            case 0: case 1: case 2: {
                size_t n = pbt_chance(1, 3) ? large ? pbt_u64(1, 2500) : pbt_size(1, 60) : 1; pbt_trace("append %zu to %d", n, w);
                if (mn[w] + n >= MAXT) break;
                while (n--) {
                    b = U[w]; reused_tok = init_tok = 0;
                    struct elem *e = cork_array_append_get(&A[w]);
                    if (mn[w] < peak[w]) {
                        CHECK(U[w].n_init == b.n_init, "append initialized an entry although an earlier entry can be reused");
                        CHECK(U[w].n_reuse == b.n_reuse + (U[w].reuse ? 1 : 0), "append called reuse %u times", U[w].n_reuse - b.n_reuse);
                        CHECK(e->tok > 0 && e->tok <= ntok && owner[e->tok] == w, "the appended entry is no initialized element");
                        if (!U[w].reuse) { CHECK(state[e->tok] == S_IDLE, "the appended entry is an element that is %s", state[e->tok] == S_USED ? "still in use" : "finalized"); state[e->tok] = S_USED; }
                        else CHECK(e->tok == reused_tok, "append reset another entry than the one it added");
                        pbt_label("reuse");
                    } else {
                        CHECK(U[w].n_init == b.n_init + 1 && e->tok == init_tok, "append did not initialize the new entry exactly once");
                        CHECK(U[w].n_reuse == b.n_reuse, "append called reuse on a fresh entry");
                        peak[w]++;
                    }
                    e->payload = (uint32_t) (ops * 1000 + n); mt[w][mn[w]] = e->tok; mp[w][mn[w]++] = e->payload;
                }
                b = U[w]; n0 = mn[w]; break; }
            case 3: if (mn[w]) { size_t i = pbt_uniform(0, mn[w] - 1); pbt_trace("remove %zu of %zu from %d", i, mn[w], w); cork_array_remove(&A[w], i); expect_removed(w, i, 1, "remove"); used_rm = true; if (i + 1 < n0) pbt_label("remove from the middle"); } break;
            case 4: if (mn[w]) { size_t i = pbt_uniform(0, mn[w]), c = pbt_uniform(0, mn[w] - i); pbt_trace("remove_range %zu,%zu of %zu from %d", i, c, mn[w], w); cork_array_remove_range(&A[w], i, c); expect_removed(w, i, c, "remove_range"); used_rm = true; } break;
            case 5: if (pbt_chance(1, 2)) { pbt_trace("clear %d", w); cork_array_clear(&A[w]); if (peak[w] > mn[w]) pbt_label("clear after removals"); expect_removed(w, 0, mn[w], "clear"); used_rm = true; } else { size_t n = pbt_size(0, 200); pbt_trace("ensure_size %zu on %d", n, w); cork_array_ensure_size(&A[w], n); } break;
            case 6: {
                int o = 1 - w; pbt_trace("copy %d over %d", o, w); struct ud ob = U[o];
                size_t was = mn[w], n = mn[o]; uint32_t *old = raw_malloc(was * 4); memcpy(old, mt[w], was * 4); copies = 0;
                if (!U[w].remove) for (size_t k = 0; k < was; k++) state[old[k]] = S_IDLE; /* no callback tells */
                else { /* cb_remove runs during the copy and leaves the state to us */ }
                /* while the copy runs, removed elements must become reusable */
                extern void life_copy_begin(int); life_copy_begin(w);
                CHECK(cork_array_copy(&A[w], &A[o], cb_copy, &copies) == 0, "copy fails");
                extern void life_copy_end(void); life_copy_end();
                CHECK(copies == (int) n, "copy called its callback %d times for %zu elements", copies, n);
                CHECK(U[w].n_remove - b.n_remove == (U[w].remove ? was : 0), "copy called remove %u times for %zu overwritten elements", U[w].n_remove - b.n_remove, was);
                size_t re = n < peak[w] ? n : peak[w];
                CHECK(U[w].n_reuse - b.n_reuse == (U[w].reuse ? re : 0), "copy called reuse %u times, expected %zu", U[w].n_reuse - b.n_reuse, U[w].reuse ? re : 0);
                CHECK(U[w].n_init - b.n_init == n - re, "copy called init %u times, expected %zu", U[w].n_init - b.n_init, n - re);
                CHECK(memcmp(&ob, &U[o], sizeof ob) == 0, "copy called callbacks of the source array");
                for (size_t k = 0; k < n; k++) { uint32_t t = cork_array_at(&A[w], k).tok; CHECK(t > 0 && t <= ntok && owner[t] == w, "copied element %zu is no element of the target", k); mt[w][k] = t; mp[w][k] = mp[o][k]; state[t] = S_USED; }
                mn[w] = n; if (n > peak[w]) peak[w] = n; nremoved = 0; raw_free(old); b = U[w]; n0 = mn[w]; if (was) { pbt_label("copy over elements"); used_rm = true; } break; }
        }
        (void) n0;
        compare(w); compare(1 - w);
    }
    finalizing = true;
    for (int w = 0; w < 2; w++) {
        struct ud b = U[w]; cork_array_done(&A[w]);
        CHECK(U[w].n_done == (U[w].done ? peak[w] : 0), "finalizing the array called done %u times, expected %zu", U[w].n_done, U[w].done ? peak[w] : 0);
        CHECK(U[w].n_remove == b.n_remove && U[w].n_init == b.n_init && U[w].n_reuse == b.n_reuse, "finalizing the array called another callback than done");
        CHECK(U[w].freed == (own[w] ? 1 : 0), "the array's user data was freed %d times, expected %d", U[w].freed, own[w]);
        raw_free(mt[w]); raw_free(mp[w]);
    }
    if (used_rm) pbt_label("took elements out");
    if (ops >= 3 && used_rm) pbt_nontrivial();
}
/* During a copy the removed elements become idle as remove is called. */
static void cb_remove_copy(void *v, void *p) { struct elem *e = p; cb_remove(v, p); state[e->tok] = S_IDLE; }
void life_copy_begin(int w) { in_copy = w; if (U[w].remove) cork_array_set_remove(&A[w], cb_remove_copy); }
void life_copy_end(void) { if (U[in_copy].remove) cork_array_set_remove(&A[in_copy], cb_remove); in_copy = -1; }

/*---- pointer arrays ----*/
struct obj { int n; int freed; struct obj *next; };
static struct obj *objs; static unsigned nfreed;
static void free_obj(void *v) { struct obj *o = v; CHECK(o != NULL, "the free callback was called with NULL"); CHECK(o->freed == 0, "object %d is freed twice", o->n); o->freed = 1; nfreed++; }
static void pointer_case(void)
{
    cork_array(struct obj *) a; struct obj **m = raw_malloc(3000 * sizeof *m); size_t n = 0; unsigned st = 0, ops = 0; bool rm = false; int tag = 0; nfreed = 0; objs = NULL;
    unsigned expect = 0;
    cork_pointer_array_init(&a, free_obj); pbt_trace("pointer array"); pbt_label("pointer array");
    while (pbt_more(&st, 25, 150)) {
        ops++;
        switch (pbt_pick(5)) {
            case 0: case 1: { size_t c = pbt_chance(1, 4) ? pbt_size(1, 40) : 1; pbt_trace("append %zu", c); while (c-- && n < 2900) { struct obj *o = NULL; if (!pbt_chance(1, 8)) { o = raw_malloc(sizeof *o); o->n = tag++; o->freed = 0; o->next = objs; objs = o; } cork_array_append(&a, o); m[n++] = o; } break; }
            case 2: if (n) { size_t i = pbt_uniform(0, n), c = pbt_uniform(0, n - i); pbt_trace("remove_range %zu,%zu", i, c); if (c == 1) cork_array_remove(&a, i); else cork_array_remove_range(&a, i, c); for (size_t k = 0; k < c; k++) if (m[i + k]) { CHECK(m[i + k]->freed == 1, "the removed object %d was not freed", m[i + k]->n); expect++; } memmove(m + i, m + i + c, (n - i - c) * sizeof *m); n -= c; rm = true; } break;
            case 3: if (pbt_chance(1, 2)) { pbt_trace("clear"); cork_array_clear(&a); for (size_t k = 0; k < n; k++) if (m[k]) { CHECK(m[k]->freed == 1, "object %d was not freed by clear", m[k]->n); expect++; } n = 0; rm = true; } break;
            default: if (pbt_chance(1, 2) && n < 2900) { pbt_trace("append_get"); struct obj **e = cork_array_append_get(&a); CHECK(*e == NULL, "a new element of a pointer array is %p", (void *) *e); m[n] = NULL; if (pbt_chance(1, 2)) { struct obj *o = raw_malloc(sizeof *o); o->n = tag++; o->freed = 0; o->next = objs; objs = o; *e = m[n] = o; } n++; } else cork_array_ensure_size(&a, pbt_size(0, 100)); break;
        }
        CHECK(nfreed == expect, "%u objects were freed, expected %u", nfreed, expect);
        CHECK(cork_array_size(&a) == n, "the array has %zu elements, expected %zu", cork_array_size(&a), n);
        for (size_t k = 0; k < n; k++) { CHECK(cork_array_at(&a, k) == m[k], "element %zu is wrong", k); if (m[k]) CHECK(!m[k]->freed, "object %d is still in the array, but freed", m[k]->n); }
    }
    pbt_trace("done with %zu elements", n);
    cork_array_done(&a);
    for (size_t k = 0; k < n; k++) if (m[k]) { CHECK(m[k]->freed == 1, "object %d was not freed with the array", m[k]->n); expect++; }
    CHECK(nfreed == expect, "%u objects were freed, expected %u", nfreed, expect);
    for (struct obj *o = objs, *x; o; o = x) { x = o->next; raw_free(o); }
    raw_free(m);
    if (ops >= 3 && rm) pbt_nontrivial();
}
void pbt_init(void) { acct_install(); }

/*---- any subset of the callbacks, only counting ----*/
struct cnt { unsigned init, done, reuse, remove, freed; };
static void n_init(void *u, void *e) { (void) e; ((struct cnt *) u)->init++; }
static void n_done(void *u, void *e) { (void) e; ((struct cnt *) u)->done++; }
static void n_reuse(void *u, void *e) { (void) e; ((struct cnt *) u)->reuse++; }
static void n_remove(void *u, void *e) { (void) e; ((struct cnt *) u)->remove++; }
static void n_free(void *u) { ((struct cnt *) u)->freed++; }
static size_t es;
static void put_elem(void *p, uint32_t id) { uint8_t *b = p; for (size_t i = 0; i + 4 <= es; i += 4) { uint32_t w = id + (uint32_t) (i * 2654435761u); memcpy(b + i, &w, 4); } for (size_t i = es & ~(size_t) 3; i < es; i++) b[i] = (uint8_t) (id + i); }
static bool is_elem(const void *p, uint32_t id) { const uint8_t *b = p; for (size_t i = 0; i + 4 <= es; i += 4) { uint32_t w = id + (uint32_t) (i * 2654435761u); if (memcmp(b + i, &w, 4)) return false; } for (size_t i = es & ~(size_t) 3; i < es; i++) if (b[i] != (uint8_t) (id + i)) return false; return true; }
static void counting_case(void)
{
    struct cork_raw_array a[2]; struct cnt c[2], x[2]; bool h[2][5]; size_t n[2] = {0, 0}, pk[2] = {0, 0}; unsigned st = 0, ops = 0; bool rm = false; uint32_t *m[2], next = 1; bool large = pbt_large(300); size_t cap = large ? 200000 : 5000; es = pbt_chance(1, 2) ? 4 : pbt_size(1, large ? 200000 : 600); if (es > 16 && cap > (4u << 20) / es) cap = (4u << 20) / es;
    memset(c, 0, sizeof c); memset(x, 0, sizeof x); pbt_label("any subset of the callbacks");
    for (int w = 0; w < 2; w++) {
        m[w] = raw_malloc((cap + 1000) * 4); cork_raw_array_init(&a[w], es); for (int i = 0; i < 5; i++) h[w][i] = pbt_chance(1, 2);
        cork_array_set_callback_data(&a[w], &c[w], h[w][4] ? n_free : NULL);
        if (h[w][0]) cork_array_set_init(&a[w], n_init);
        if (h[w][1]) cork_array_set_done(&a[w], n_done);
        if (h[w][2]) cork_array_set_reuse(&a[w], n_reuse);
        if (h[w][3]) cork_array_set_remove(&a[w], n_remove);
        pbt_trace("array %d of %zu-byte elements:%s%s%s%s%s", w, es, h[w][0] ? " init" : "", h[w][1] ? " done" : "", h[w][2] ? " reuse" : "", h[w][3] ? " remove" : "", h[w][4] ? " free_user_data" : "");
    }
    while (pbt_more(&st, 15, 60)) {
        int w = (int) pbt_pick(2); size_t re; ops++;
        switch (pbt_pick(5)) {
            case 0: case 1: { size_t k = large ? pbt_u64(1, 100000) : pbt_size(1, 40); pbt_trace("append %zu to %d", k, w); while (k-- && n[w] < cap) { if (n[w] < pk[w]) x[w].reuse += h[w][2]; else { x[w].init += h[w][0]; pk[w]++; } put_elem(cork_raw_array_append(&a[w]), next); m[w][n[w]++] = next++; } break; }
            case 2: if (n[w]) { size_t i = pbt_uniform(0, n[w]), k = pbt_uniform(0, n[w] - i); pbt_trace("remove_range %zu,%zu from %d", i, k, w); cork_array_remove_range(&a[w], i, k); x[w].remove += h[w][3] * (unsigned) k; memmove(m[w] + i, m[w] + i + k, (n[w] - i - k) * 4); n[w] -= k; rm = true; } break;
            case 3: pbt_trace("clear %d", w); cork_array_clear(&a[w]); x[w].remove += h[w][3] * (unsigned) n[w]; n[w] = 0; rm = true; break;
            default:
                pbt_trace("copy %d over %d", 1 - w, w); CHECK(cork_array_copy(&a[w], &a[1 - w], NULL, NULL) == 0, "copy fails");
                x[w].remove += h[w][3] * (unsigned) n[w]; re = n[1 - w] < pk[w] ? n[1 - w] : pk[w]; x[w].reuse += h[w][2] * (unsigned) re; x[w].init += h[w][0] * (unsigned) (n[1 - w] - re);
                if (n[w]) rm = true;
                n[w] = n[1 - w]; memcpy(m[w], m[1 - w], n[w] * 4); if (n[w] > pk[w]) pk[w] = n[w]; break;
        }
        for (w = 0; w < 2; w++) {
            CHECK(c[w].init == x[w].init && c[w].reuse == x[w].reuse && c[w].remove == x[w].remove && c[w].done == 0 && c[w].freed == 0, "array %d: callbacks ran init %u reuse %u remove %u done %u free %u times, expected %u %u %u 0 0", w, c[w].init, c[w].reuse, c[w].remove, c[w].done, c[w].freed, x[w].init, x[w].reuse, x[w].remove);
            CHECK(cork_array_size(&a[w]) == n[w], "array %d has %zu elements, expected %zu", w, cork_array_size(&a[w]), n[w]);
            for (size_t i = 0; i < n[w]; i++) CHECK(is_elem(cork_raw_array_at(&a[w], i), m[w][i]), "element %zu of array %d is wrong", i, w);
        }
    }
    for (int w = 0; w < 2; w++) {
        cork_array_done(&a[w]);
        CHECK(c[w].done == h[w][1] * (unsigned) pk[w], "finalizing array %d called done %u times, expected %u", w, c[w].done, h[w][1] * (unsigned) pk[w]);
        CHECK(c[w].freed == h[w][4] && c[w].init == x[w].init && c[w].reuse == x[w].reuse && c[w].remove == x[w].remove, "finalizing array %d called other callbacks, or freed its user data %u times", w, c[w].freed);
        raw_free(m[w]);
    }
    if (ops >= 3 && rm) pbt_nontrivial();
}
void pbt_case(void) { unsigned k = pbt_pick(8); if (k < 2) pointer_case(); else if (k < 4) counting_case(); else life_case(); }
