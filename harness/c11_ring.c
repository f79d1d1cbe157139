/* Ring buffers against a bounded queue. */
#include "pbt.h"
#include "acct.h"
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is a ring buffer of capacity 0..300 and a random history (with capacities up to 300000 in the rare large ones) of add, pop and peek in bursts that fill, drain and wrap it; every result and the empty/full predicates are compared with a queue after each step; non-trivial: the write position wrapped around and both a refused addition and an empty pop occurred";
void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    bool large = pbt_large(1500); size_t cap = large ? pbt_u64(300, 300000) : pbt_size(0, 300), lim = large ? 1200000 : 8190; unsigned st = 0; static uintptr_t q[1200002]; size_t h = 0, t = 0; uintptr_t next = 1; bool refused = false, dry = false; bool heap = pbt_chance(1, 2);
    struct cork_ring_buffer rb, *r = &rb;
    if (heap) r = cork_ring_buffer_new(cap); else CHECK(cork_ring_buffer_init(r, cap) == 0, "init fails");
    pbt_trace("ring buffer of %zu", cap);
    while (pbt_more(&st, 20, 60)) {
        unsigned op = pbt_pick(3); size_t n = pbt_chance(1, 4) ? pbt_uniform(0, cap + 2) : pbt_uniform(0, 5); if (op == 2) n = n > 2 ? 2 : n;
        pbt_trace("%s x %zu", op == 0 ? "add" : op == 1 ? "pop" : "peek", n);
        for (size_t k = 0; k < n && t < lim; k++) {
            if (op == 0) { uintptr_t v = pbt_chance(1, 12) ? 0 : next++; int rc = cork_ring_buffer_add(r, (void *) v); bool full = t - h == cap;
                CHECK(rc == (full ? -1 : 0), "add returns %d with %zu of %zu elements", rc, t - h, cap); if (!full) q[t++] = v; else refused = true; }
            else { void *e = op == 1 ? cork_ring_buffer_pop(r) : cork_ring_buffer_peek(r); uintptr_t want = t > h ? q[h] : 0;
                CHECK((uintptr_t) e == want, "%s returns %zu, expected %zu", op == 1 ? "pop" : "peek", (size_t) e, (size_t) want); if (t == h) dry = true; if (op == 1 && t > h) h++; }
            CHECK(!!cork_ring_buffer_is_empty(r) == (t == h), "is_empty is wrong with %zu elements", t - h);
            CHECK(!!cork_ring_buffer_is_full(r) == (t - h == cap), "is_full is wrong with %zu of %zu elements", t - h, cap);
        }
    }
    if (pbt_chance(1, 2)) while (t > h) { void *e = cork_ring_buffer_pop(r); CHECK((uintptr_t) e == q[h], "draining: pop returns %zu, expected %zu", (size_t) e, (size_t) q[h]); h++; }
    if (heap) cork_ring_buffer_free(r); else cork_ring_buffer_done(r);
    if (cap == 0) pbt_label("capacity 0");
    if (refused && dry && t > cap && cap) pbt_nontrivial();
}
