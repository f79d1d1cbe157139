/* Hash values: published functions, alignment, locality, and the tool. */
#include "pbt.h"
#include "util.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include "libcork/core.h"
const char *pbt_rule = "a case hashes one byte string (0 to 100 bytes, sometimes up to 100 kB) with one seed: the stable hash is compared with an independent MurmurHash3, all hashes are recomputed at other alignments and in other surroundings inside an exactly sized block, and one bit of the data, the length or one part of the seed is then changed (three times, to be indifferent to chance) and must show; about one case in 500 runs the command-line tool on a generated string with generated options; non-trivial: more than 3 bytes, and a byte or seed part was changed, or the tool was run";
static uint32_t rotl(uint32_t a, int b) { return a << b | a >> (32 - b); }
static uint32_t murmur3_32(uint32_t seed, const uint8_t *p, size_t n)
{
    uint32_t h = seed, k = 0; size_t i;
    for (i = 0; i + 4 <= n; i += 4) { k = p[i] | (uint32_t) p[i + 1] << 8 | (uint32_t) p[i + 2] << 16 | (uint32_t) p[i + 3] << 24; k *= 0xcc9e2d51u; k = rotl(k, 15); k *= 0x1b873593u; h ^= k; h = rotl(h, 13); h = h * 5 + 0xe6546b64u; }
    k = 0; for (size_t j = n; j > i; j--) k = k << 8 | p[j - 1];
    if (n & 3) { k *= 0xcc9e2d51u; k = rotl(k, 15); k *= 0x1b873593u; h ^= k; }
    h ^= (uint32_t) n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16;
}
static cork_big_hash bigseed(uint64_t a, uint64_t b) { cork_big_hash h = CORK_BIG_HASH_INIT(); h.u128 = cork_u128_from_64(a, b); return h; }
static bool bigeq(cork_big_hash a, cork_big_hash b) { return memcmp(&a.u128, &b.u128, 16) == 0; }
static void tool_case(void)
{
    static char s[400]; size_t n = pbt_size(0, 300); char out[300]; size_t on = sizeof out; int type = 0; char *argv[12]; int c = 0;
    for (size_t i = 0; i < n; i++) s[i] = (char) pbt_u64(1, 255); s[n] = 0;
    argv[c++] = "cork-hash"; for (size_t i = pbt_pick(3); i; i--) { static char *const o[] = { "-s", "--stable", "-f", "--fastest", "-b", "--big" }; size_t k = pbt_pick(6); argv[c++] = o[k]; type = (int) k / 2; }
    int bad = pbt_chance(1, 6) ? 1 + (int) pbt_pick(3) : 0;
    if (bad == 3) argv[c++] = "--no-such-option"; if (s[0] == '-' || pbt_chance(1, 3)) argv[c++] = "--"; if (bad != 1) argv[c++] = s; if (bad == 2) argv[c++] = "extra"; argv[c] = NULL;
    pbt_trace("cork-hash %s %s\n", type == 0 ? "-s" : type == 1 ? "-f" : "-b", pbt_quote(s, n));
    int st = util_run(util_tool("cork-hash"), argv, NULL, out, &on, NULL, NULL); char want[64]; cork_big_hash z = CORK_BIG_HASH_INIT();
    pbt_label("tool"); pbt_nontrivial();
    if (bad) { CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "cork-hash with a wrong command line ends with status %#x", st); CHECK(on == 0, "cork-hash with a wrong command line prints %s", pbt_quote(out, on)); return; }
    if (type == 0) sprintf(want, "0x%08x\n", murmur3_32(0, (uint8_t *) s, n)); else if (type == 1) sprintf(want, "0x%08x\n", cork_hash_buffer(0, s, n));
    else { cork_big_hash h = cork_big_hash_buffer(z, s, n); sprintf(want, "%016llx%016llx\n", (unsigned long long) cork_u128_be64(h.u128, 0), (unsigned long long) cork_u128_be64(h.u128, 1)); }
    CHECK(st == 0, "cork-hash ends with status %#x", st);
    CHECK(on == strlen(want) && memcmp(out, want, on) == 0, "cork-hash %s %s prints %s, expected %s", type == 0 ? "-s" : type == 1 ? "-f" : "-b", pbt_quote(s, n), pbt_quote(out, on), pbt_quote(want, strlen(want)));
}
void pbt_init(void) { }
void pbt_case(void)
{
    if (pbt_uniform(0, 499) == 377) { tool_case(); return; }
    static uint8_t buf[100016]; bool large = pbt_chance(1, 100); size_t n = large ? pbt_size(100, 100000) : pbt_size(0, 100);
    if (n <= 40 && pbt_chance(1, 2)) pbt_bytes(buf, n, NULL, 0); else pbt_fill(buf, n, pbt_u64(0, UINT32_MAX)); if (pbt_chance(1, 20)) memset(buf, 0, n);
    uint32_t seed = (uint32_t) pbt_u64(0, UINT32_MAX); uint64_t sa = pbt_u64(0, UINT64_MAX), sb = pbt_u64(0, UINT64_MAX);
    pbt_trace("seed %#x, %#llx:%016llx, %zu bytes %s\n", seed, (unsigned long long) sa, (unsigned long long) sb, n, pbt_quote(buf, n));
    /* three placements: aligned and unaligned, each ending exactly at the end of its block */
    uint32_t st[3], fa[3]; cork_big_hash bi[3], bs = bigseed(sa, sb), z = CORK_BIG_HASH_INIT(); CHECK(cork_u128_be64(z.u128, 0) == 0 && cork_u128_be64(z.u128, 1) == 0, "CORK_BIG_HASH_INIT is not zero");
    for (int k = 0; k < 3; k++) {
        size_t off = k ? pbt_uniform(0, 16) : 0; uint8_t *blk = malloc(off + n ? off + n : 1); memset(blk, k == 1 ? 0xff : 0x33, off); memcpy(blk + off, buf, n);
        st[k] = cork_stable_hash_buffer(seed, blk + off, n); fa[k] = cork_hash_buffer(seed, blk + off, n); bi[k] = cork_big_hash_buffer(bs, blk + off, n);
        CHECK(memcmp(blk + off, buf, n) == 0, "hashing changes the input"); free(blk);
        uint8_t *in = malloc(n + 40); memset(in, k == 1 ? 0 : 0xee, n + 40); memcpy(in + off, buf, n);
        CHECK(cork_stable_hash_buffer(seed, in + off, n) == st[k] && cork_hash_buffer(seed, in + off, n) == fa[k] && bigeq(cork_big_hash_buffer(bs, in + off, n), bi[k]), "a hash of %zu bytes depends on what surrounds them", n); free(in);
        CHECK(st[k] == st[0] && fa[k] == fa[0] && bigeq(bi[k], bi[0]), "a hash of %zu bytes depends on their alignment (offset %zu)", n, off);
    }
    uint32_t want = murmur3_32(seed, buf, n); CHECK(st[0] == want, "the stable hash of %zu bytes %s with seed %#x is %#x, expected %#x", n, pbt_quote(buf, n), seed, st[0], want);
    CHECK(cork_big_hash_equal(bi[0], bi[1]) == true, "equal 128-bit hashes compare unequal"); cork_big_hash o = bi[0]; ((uint8_t *) &o.u128)[pbt_pick(16)] ^= (uint8_t) (1u << pbt_pick(8)); CHECK(!cork_big_hash_equal(bi[0], o), "different 128-bit hashes compare equal");
    /* the variable forms */
    { struct { uint8_t b[7]; } v7; uint64_t v8; memcpy(&v7, buf, 7); memcpy(&v8, buf, 8); CHECK(cork_stable_hash_variable(seed, v7) == murmur3_32(seed, buf, 7) && cork_stable_hash_variable(seed, v8) == murmur3_32(seed, (void *) &v8, 8) && cork_hash_variable(seed, v7) == cork_hash_buffer(seed, &v7, 7) && cork_hash_variable(seed, v8) == cork_hash_buffer(seed, &v8, 8) && bigeq(cork_big_hash_variable(bs, v8), cork_big_hash_buffer(bs, &v8, 8)), "the hash of a variable is not that of its bytes"); }
    /* everything takes part: three changes that leave the value alone are no coincidence */
    switch (pbt_pick(4)) {
        case 0: case 1: if (n) {
            size_t i = pbt_uniform(0, n - 1); uint8_t bit = (uint8_t) (1u << pbt_pick(8)); bool f = false, b = false; uint32_t f0[3]; cork_big_hash b0[3], s3[3];
            for (unsigned k = 0; k < 3; k++) { s3[k] = bigseed(sa + k * 0x9e3779b97f4a7c15u, sb + k); f0[k] = cork_hash_buffer(seed + k * 0x9e3779b9u, buf, n); b0[k] = cork_big_hash_buffer(s3[k], buf, n); }
            buf[i] ^= bit; for (unsigned k = 0; k < 3; k++) { f |= cork_hash_buffer(seed + k * 0x9e3779b9u, buf, n) != f0[k]; b |= !bigeq(cork_big_hash_buffer(s3[k], buf, n), b0[k]); }
            CHECK(f, "the fast hash of %zu bytes does not depend on bit %#x of byte %zu", n, bit, i); CHECK(b, "the 128-bit hash of %zu bytes does not depend on bit %#x of byte %zu", n, bit, i); pbt_label("byte changed"); if (n > 3) pbt_nontrivial(); }
            break;
        case 2: { uint32_t bit = 1u << pbt_pick(32); bool f = false; for (int k = 0; k < 3; k++) f |= cork_hash_buffer(seed ^ (bit << k | bit >> (32 - k) * (k > 0)), buf, n) != fa[0]; CHECK(f, "the fast hash of %zu bytes does not depend on seed bit %#x", n, bit);
            for (unsigned k = 0; k < 1; k++) { unsigned i = (unsigned) pbt_pick(128); cork_big_hash s2 = bigseed(sa ^ (i < 64 ? 1ull << i : 0), sb ^ (i < 64 ? 0 : 1ull << (i - 64))); CHECK(!bigeq(cork_big_hash_buffer(s2, buf, n), bi[0]), "the 128-bit hash of %zu bytes does not depend on bit %u of the seed", n, i); }
            pbt_label("seed changed"); if (n > 3) pbt_nontrivial(); break; }
        default: { memset(buf + n, 0, 4); bool f = false, b = true; for (size_t k = 1; k <= 3; k++) { f |= cork_hash_buffer(seed, buf, n + k) != fa[0]; b &= !bigeq(cork_big_hash_buffer(bs, buf, n + k), bi[0]); } CHECK(f && b, "hashes of %zu bytes do not depend on their number", n); pbt_label("length changed"); }
    }
    if (n > 100) pbt_label("long input"); if (n > 16) pbt_label("several blocks");
}
