/* Bit sets against arrays of booleans. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is two bit sets of 1..2100 bits (byte and word boundaries favoured) and a random history of set, clear-bit, clear-all; every bit of both is read back after each burst; values and indexes are also given as unparenthesised expressions; non-trivial: at least one set and one reset of a bit that was set";
void pbt_init(void) { acct_install(); }
#define MAXB 2200
static uint8_t model[2][MAXB];
/* Sets whose indexes need more than 16 (or 32) bits: a few bits, and every other one whose index differs from theirs in one bit. */
static void large_case(bool huge)
{
    size_t n = huge ? ((size_t) 1 << 32) + pbt_uniform(1, 4096) : pbt_uniform(65536, 1200000), at[24]; bool on[24]; unsigned k = 0; struct cork_bitset *b = cork_bitset_new(n);
    pbt_trace("a set of %zu bits", n); pbt_label(huge ? "more than 2^32 bits" : "65536 to 1200000 bits");
    CHECK(b->bit_count == n, "bit_count is %zu, expected %zu", b->bit_count, n);
    for (unsigned i = 0; i < 24; i++) {
        size_t x = pbt_chance(1, 3) ? n - 1 - pbt_uniform(0, 40) : pbt_uniform(0, n - 1); unsigned j; bool v = pbt_chance(3, 4);
        for (j = 0; j < k && at[j] != x; j++) { }
        at[j] = x; on[j] = v; if (j == k) k++;
        pbt_trace("bit %zu := %d", x, v); cork_bitset_set(b, x, v);
        for (j = 0; j < k; j++) CHECK(cork_bitset_get(b, at[j]) == on[j], "bit %zu reads %d, expected %d", at[j], !on[j], on[j]);
        for (unsigned s = 0; s < 33; s++) {
            size_t y = x ^ ((size_t) 1 << s); bool want = false; if (y >= n) continue;
            for (j = 0; j < k; j++) if (at[j] == y) want = on[j];
            CHECK(cork_bitset_get(b, y) == want, "bit %zu reads %d after bit %zu was set", y, !want, x);
        }
    }
    if (!huge) {
        size_t count = 0, want = 0; for (size_t i = 0; i < n; i++) count += cork_bitset_get(b, i);
        for (unsigned j = 0; j < k; j++) want += on[j];
        CHECK(count == want, "%zu bits are on, expected %zu", count, want);
    }
    cork_bitset_clear(b); for (unsigned j = 0; j < k; j++) CHECK(!cork_bitset_get(b, at[j]), "bit %zu is on after clearing the set", at[j]);
    cork_bitset_free(b); pbt_nontrivial();
}
void pbt_case(void)
{
    unsigned size = (unsigned) pbt_uniform(0, 11999);
    if (size >= 11960) { if (size == 11999) pbt_set_timeout(60); large_case(size == 11999); return; }
    struct cork_bitset st0, *b[2]; size_t n[2]; unsigned st = 0; bool set = false, reset = false;
    for (int w = 0; w < 2; w++) {
        n[w] = pbt_chance(1, 3) ? pbt_uniform(1, 260) * 8 + pbt_uniform(0, 2) - 1 : pbt_size(1, 2100);
        if (w == 0) { memset(&st0, 0x5A, sizeof st0); cork_bitset_init(&st0, n[0]); b[0] = &st0; } else b[1] = cork_bitset_new(n[1]);
        memset(model[w], 0, sizeof model[w]);
        CHECK(b[w]->bit_count == n[w], "bit_count is %zu, expected %zu", b[w]->bit_count, n[w]);
        for (size_t i = 0; i < n[w]; i++) CHECK(!cork_bitset_get(b[w], i), "bit %zu of a new set is on", i);
    }
    while (pbt_more(&st, 25, 150)) {
        int w = (int) pbt_pick(2);
        if (pbt_chance(1, 25)) { pbt_trace("clear set %d", w); cork_bitset_clear(b[w]); memset(model[w], 0, sizeof model[w]); pbt_label("clear"); }
        else {
            size_t i = pbt_chance(1, 4) ? n[w] - 1 - pbt_uniform(0, n[w] > 9 ? 9 : n[w] - 1) : pbt_uniform(0, n[w] - 1), len = pbt_chance(1, 3) ? pbt_uniform(1, 20) : 1; bool v = pbt_chance(2, 3); unsigned how = pbt_pick(4);
            pbt_trace("set %d: bits %zu.. (%zu) := %d", w, i, len, v);
            for (size_t k = i; k < i + len && k < n[w]; k++) {
                if (v) set = true; else if (model[w][k]) reset = true;
                switch (how) {
                    case 0: cork_bitset_set(b[w], k, v); break;
                    case 1: cork_bitset_set(b[w], k - 1 + 1, v ? 6 & 4 : 6 & 1); break;
                    case 2: { size_t half = k / 2; cork_bitset_set(b[w], half + (k - half), v || false); break; }
                    default: cork_bitset_set(w ? b[1] : &st0, k, v ? 256 : 0); break;
                }
                model[w][k] = v;
                bool g = cork_bitset_get(b[w], k); CHECK(g == v, "bit %zu reads %d after being set to %d", k, g, v);
            }
        }
        for (int x = 0; x < 2; x++) for (size_t i = 0; i < n[x]; i++) { int g = cork_bitset_get(b[x], i); CHECK(g == model[x][i], "bit %zu of set %d reads %d, expected %d", i, x, g, model[x][i]); }
    }
    cork_bitset_done(&st0); cork_bitset_free(b[1]);
    if (set && reset) pbt_nontrivial();
}
