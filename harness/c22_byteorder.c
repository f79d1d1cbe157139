/* Byte order macros, over values and over forms of argument expression. */
#include "pbt.h"
#include <stdio.h>
#include <string.h>
#include "libcork/core.h"
const char *pbt_rule = "a case takes two values of a width from 16 to 128 bits and applies every swap and conversion macro of that width, by value and in place, to a plain variable, array and structure elements, and eight compound expressions; the bytes in memory are compared with those of the value; non-trivial: the value is not a byte palindrome";
typedef unsigned __int128 U;
static U rev(U v, unsigned n) { U r = 0; for (unsigned i = 0; i < n; i++) r |= ((v >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); return r; }
static U big(const void *p, unsigned n) { U v = 0; for (unsigned i = 0; i < n; i++) v = v << 8 | ((const uint8_t *) p)[i]; return v; }
static U lit(const void *p, unsigned n) { return rev(big(p, n), n); }
static const char *sh(U v) { static char r[8][40]; static int k; char *o = r[k++ & 7]; sprintf(o, "%#llx:%016llx", (unsigned long long) (v >> 64), (unsigned long long) v); return o; }
#define EQ(g, w, what, form) do { U g_ = (g), w_ = (w); CHECK(g_ == w_, "%s of the expression %s (value %s) gives %s, expected %s", what, form, sh(arg), sh(g_), sh(w_)); } while (0)
/* one expression: its value of type T, and the macros applied to the expression itself */
#define EXPR(T, W, N, e) do { T v_ = (T) (e); U arg = v_; T m_; \
    m_ = (T) CORK_SWAP_UINT##W(e); EQ(m_, rev(v_, N), "CORK_SWAP_UINT" #W, #e); \
    m_ = (T) CORK_UINT##W##_HOST_TO_BIG(e); EQ(big(&m_, N), v_, "CORK_UINT" #W "_HOST_TO_BIG", #e); m_ = (T) CORK_UINT##W##_BIG_TO_HOST(m_); EQ(m_, v_, "converting back", #e); \
    m_ = (T) CORK_UINT##W##_HOST_TO_LITTLE(e); EQ(lit(&m_, N), v_, "CORK_UINT" #W "_HOST_TO_LITTLE", #e); m_ = (T) CORK_UINT##W##_LITTLE_TO_HOST(m_); EQ(m_, v_, "converting back", #e); \
    m_ = (T) CORK_UINT##W##_BIG_TO_HOST(e); EQ(m_, big(&v_, N), "CORK_UINT" #W "_BIG_TO_HOST", #e); \
    m_ = (T) CORK_UINT##W##_LITTLE_TO_HOST(e); EQ(m_, lit(&v_, N), "CORK_UINT" #W "_LITTLE_TO_HOST", #e); } while (0)
#define PLACE(T, W, N, l, v) do { U arg = (v); T t_; \
    l = (v); CORK_SWAP_IN_PLACE_UINT##W(l); EQ(l, rev(v, N), "CORK_SWAP_IN_PLACE_UINT" #W, #l); \
    l = (v); CORK_UINT##W##_HOST_TO_BIG_IN_PLACE(l); t_ = l; EQ(big(&t_, N), v, "CORK_UINT" #W "_HOST_TO_BIG_IN_PLACE", #l); CORK_UINT##W##_BIG_TO_HOST_IN_PLACE(l); EQ(l, v, "converting back in place", #l); \
    l = (v); CORK_UINT##W##_HOST_TO_LITTLE_IN_PLACE(l); t_ = l; EQ(lit(&t_, N), v, "CORK_UINT" #W "_HOST_TO_LITTLE_IN_PLACE", #l); CORK_UINT##W##_LITTLE_TO_HOST_IN_PLACE(l); EQ(l, v, "converting back in place", #l); } while (0)
#define WIDTH(T, W, N) static void w##W(T a, T b) { T arr[4]; struct { T f[2]; } s, *p = &s; T x = a; \
    EXPR(T, W, N, a); EXPR(T, W, N, a | b); EXPR(T, W, N, a ^ b); EXPR(T, W, N, a & b); EXPR(T, W, N, a >> 3); EXPR(T, W, N, b ? a : b); EXPR(T, W, N, (T) (a + b)); EXPR(T, W, N, p == &s ? b : a); EXPR(T, W, N, *&a); \
    arr[0] = a; arr[1] = b; EXPR(T, W, N, arr[a & 1]); p->f[0] = a; p->f[1] = b; EXPR(T, W, N, p->f[b & 1]); EXPR(T, W, N, a - (a & b)); \
    PLACE(T, W, N, x, a); PLACE(T, W, N, arr[2], a); PLACE(T, W, N, p->f[1], a); PLACE(T, W, N, *(&arr[0] + 1), a); EQ2(arr[3] = 0) }
#define EQ2(x) (void) (x);
WIDTH(uint16_t, 16, 2)
WIDTH(uint32_t, 32, 4)
WIDTH(uint64_t, 64, 8)
static cork_u128 mk(U v) { return cork_u128_from_64((uint64_t) (v >> 64), (uint64_t) v); }
static U host(cork_u128 c) { U v = 0; for (int i = 0; i < 4; i++) v = v << 32 | cork_u128_be32(c, i); return v; }
static cork_u128 idf(cork_u128 c) { return c; }
static void w128(U a, U b)
{
    U arg = a; cork_u128 x = mk(a), y, arr[2];
#define E128(e, v) do { arg = (v); \
    EQ(host(CORK_SWAP_UINT128(e)), rev(v, 16), "CORK_SWAP_UINT128", #e); y = CORK_UINT128_HOST_TO_BIG(e); EQ(big(&y, 16), v, "CORK_UINT128_HOST_TO_BIG", #e); y = CORK_UINT128_BIG_TO_HOST(y); EQ(host(y), v, "converting back", #e); \
    y = CORK_UINT128_HOST_TO_LITTLE(e); EQ(lit(&y, 16), v, "CORK_UINT128_HOST_TO_LITTLE", #e); y = CORK_UINT128_LITTLE_TO_HOST(y); EQ(host(y), v, "converting back", #e); } while (0)
    E128(x, a); E128(idf(x), a); E128(cork_u128_add(x, mk(b)), a + b); E128(b & 1 ? x : x, a); arr[1] = mk(b); E128(arr[1], b);
#define P128(l) do { arg = a; l = mk(a); CORK_SWAP_IN_PLACE_UINT128(l); EQ(host(l), rev(a, 16), "CORK_SWAP_IN_PLACE_UINT128", #l); l = mk(a); CORK_UINT128_HOST_TO_BIG_IN_PLACE(l); EQ(big(&l, 16), a, "CORK_UINT128_HOST_TO_BIG_IN_PLACE", #l); CORK_UINT128_BIG_TO_HOST_IN_PLACE(l); EQ(host(l), a, "converting back in place", #l); \
    l = mk(a); CORK_UINT128_HOST_TO_LITTLE_IN_PLACE(l); EQ(lit(&l, 16), a, "CORK_UINT128_HOST_TO_LITTLE_IN_PLACE", #l); CORK_UINT128_LITTLE_TO_HOST_IN_PLACE(l); EQ(host(l), a, "converting back in place", #l); } while (0)
    P128(y); P128(arr[0]);
}
void pbt_init(void) { }
void pbt_case(void)
{
    unsigned w = (unsigned) pbt_pick(4), n = 2u << w; uint64_t max = w >= 2 ? UINT64_MAX : w ? UINT32_MAX : UINT16_MAX; U a = pbt_u64(0, max), b = pbt_u64(0, max);
    if (w == 3) { a |= (U) pbt_u64(0, max) << 64; b |= (U) pbt_u64(0, max) << 64; }
    pbt_trace("width %u: a=%s b=%s\n", 8 * n, sh(a), sh(b)); if (rev(a, n) != a) pbt_nontrivial();
    switch (w) { case 0: pbt_label("16 bits"); w16((uint16_t) a, (uint16_t) b); break; case 1: pbt_label("32 bits"); w32((uint32_t) a, (uint32_t) b); break; case 2: pbt_label("64 bits"); w64((uint64_t) a, (uint64_t) b); break; default: pbt_label("128 bits"); w128(a, b); }
}
