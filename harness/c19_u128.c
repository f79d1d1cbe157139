/* 128-bit integers against exact arithmetic. */
#include "pbt.h"
#include <stdio.h>
#include <string.h>
#include "libcork/core.h"
const char *pbt_rule = "a case builds two 128-bit integers (biased to carries, equal halves and the edges of the range) through a generated constructor or a chain of operations, and compares sum, difference, shifts, all six comparisons and every 8- to 64-bit view with exact arithmetic; two builds: native 128-bit type and the portable fallback; non-trivial: a carry or borrow crosses 64 bits, or the two differ in exactly one half";
typedef unsigned __int128 U;
static cork_u128 mk(U v) { return cork_u128_from_64((uint64_t) (v >> 64), (uint64_t) v); }
static U val(cork_u128 c) { U v = 0; uint8_t b[16]; memcpy(b, &c, 16);
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
    for (int i = 15; i >= 0; i--) v = v << 8 | b[i];
#else
    for (int i = 0; i < 16; i++) v = v << 8 | b[i];
#endif
    return v; }
static const char *sh(U v) { static char r[8][40]; static int k; char *o = r[k++ & 7]; sprintf(o, "%016llx%016llx", (unsigned long long) (v >> 64), (unsigned long long) v); return o; }
static U gen(void)
{
    switch (pbt_pick(5)) {
        case 0: return (U) pbt_u64(0, UINT64_MAX) << 64 | pbt_u64(0, UINT64_MAX);
        case 1: return pbt_u64(0, UINT64_MAX);
        case 2: return (U) pbt_u64(0, UINT64_MAX) << 64;
        case 3: { U v = (U) 1 << pbt_pick(128); return v - pbt_pick(2); }
        default: { U v = 0; for (int i = 0; i < 4; i++) { static const uint32_t w[] = { 0, 1, 0x7fffffff, 0x80000000, 0xffffffff }; v = v << 32 | w[pbt_pick(5)]; } return v; }
    }
}
static cork_u128 build(U v) { if (pbt_chance(1, 2)) return mk(v); return cork_u128_from_32((uint32_t) (v >> 96), (uint32_t) (v >> 64), (uint32_t) (v >> 32), (uint32_t) v); }
#define SAME(got, want, ...) do { U g_ = val(got), w_ = (want); if (g_ != w_) { char m_[200]; snprintf(m_, sizeof m_, __VA_ARGS__); pbt_fail("%s is %s, expected %s", m_, sh(g_), sh(w_)); } } while (0)
void pbt_init(void) { }
void pbt_case(void)
{
    U a = gen(), b; unsigned how = (unsigned) pbt_pick(5);
    b = how == 0 ? a : how == 1 ? a + (U) pbt_pick(3) - 1 : how == 2 ? (a & ~(U) UINT64_MAX) | pbt_u64(0, UINT64_MAX) : how == 3 ? (a & UINT64_MAX) | (U) pbt_u64(0, UINT64_MAX) << 64 : gen();
    pbt_trace("a=%s b=%s\n", sh(a), sh(b));
    cork_u128 x = build(a), y = build(b);
    SAME(x, a, "the value built for a"); SAME(y, b, "the value built for b"); SAME(cork_u128_zero(), 0, "cork_u128_zero");
    SAME(cork_u128_add(x, y), a + b, "%s + %s", sh(a), sh(b)); SAME(cork_u128_sub(x, y), a - b, "%s - %s", sh(a), sh(b));
    SAME(cork_u128_sub(cork_u128_add(x, y), y), a, "a + b - b");
    unsigned s = (unsigned) pbt_u64(0, 127); SAME(cork_u128_shl(x, s), a << s, "%s << %u", sh(a), s); SAME(cork_u128_shr(x, s), a >> s, "%s >> %u", sh(a), s);
#define CMP(f, op) CHECK(cork_u128_##f(x, y) == (a op b), "cork_u128_" #f "(%s, %s) is not %d", sh(a), sh(b), a op b); CHECK(cork_u128_##f(y, x) == (b op a), "cork_u128_" #f "(%s, %s) is not %d", sh(b), sh(a), b op a)
    CMP(eq, ==); CMP(ne, !=); CMP(lt, <); CMP(le, <=); CMP(gt, >); CMP(ge, >=);
    CHECK(cork_u128_eq(x, x) && !cork_u128_ne(x, x) && cork_u128_le(x, x) && cork_u128_ge(x, x) && !cork_u128_lt(x, x) && !cork_u128_gt(x, x), "%s compared with itself", sh(a));
    for (int i = 0; i < 16; i++) CHECK(cork_u128_be8(x, i) == (uint8_t) (a >> (120 - 8 * i)), "byte %d of %s is %#x", i, sh(a), cork_u128_be8(x, i));
    for (int i = 0; i < 8; i++) CHECK(cork_u128_be16(x, i) == (uint16_t) (a >> (112 - 16 * i)), "16-bit view %d of %s is %#x", i, sh(a), cork_u128_be16(x, i));
    for (int i = 0; i < 4; i++) CHECK(cork_u128_be32(x, i) == (uint32_t) (a >> (96 - 32 * i)), "32-bit view %d of %s is %#x", i, sh(a), cork_u128_be32(x, i));
    for (int i = 0; i < 2; i++) CHECK(cork_u128_be64(x, i) == (uint64_t) (a >> (64 - 64 * i)), "64-bit view %d of %s is %#llx", i, sh(a), (unsigned long long) cork_u128_be64(x, i));
    /* the views are also how a value is written */
    cork_u128 z = x; unsigned i8 = (unsigned) pbt_pick(16), i32 = (unsigned) pbt_pick(4); uint32_t w = (uint32_t) pbt_u64(0, UINT32_MAX);
    cork_u128_be32(z, i32) = w; U e = (a & ~((U) 0xffffffff << (96 - 32 * i32))) | (U) w << (96 - 32 * i32); SAME(z, e, "storing view %u", i32);
    z = x; cork_u128_be8(z, i8) = (uint8_t) w; e = (a & ~((U) 0xff << (120 - 8 * i8))) | (U) (uint8_t) w << (120 - 8 * i8); SAME(z, e, "storing byte %u", i8);
    bool carry = (uint64_t) a + (uint64_t) b < (uint64_t) a, borrow = (uint64_t) a < (uint64_t) b, half = ((uint64_t) a == (uint64_t) b) != ((a >> 64) == (b >> 64));
    if (carry) pbt_label("carry"); if (borrow) pbt_label("borrow"); if (half) pbt_label("one half differs"); if (a == b) pbt_label("equal"); if (carry || borrow || half) pbt_nontrivial();
}
