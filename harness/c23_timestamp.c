/* Timestamps: construction, accessors, order. */
#include "pbt.h"
#include <string.h>
#include <time.h>
#include "libcork/core.h"
const char *pbt_rule = "a case builds a timestamp through one generated constructor (seconds over the full 32-bit range, fractions biased to the ends of the unit and to values that do not divide evenly) and compares every accessor with exact rational arithmetic; builds a second, often neighbouring, timestamp and compares their order with that of the instants; non-trivial: a fraction that is neither 0 nor half a second";
typedef unsigned __int128 U;
static const uint64_t units[] = { 1000, 1000000, 1000000000 };
static const char *const uname[] = { "msec", "usec", "nsec" };
static uint64_t frac(int u)
{
    uint64_t d = u < 0 ? 1ull << 32 : units[u];
    switch (pbt_pick(4)) { case 0: return pbt_u64(0, d - 1); case 1: return d - 1 - pbt_size(0, 10); case 2: return pbt_uniform(0, d - 1); default: return d / (1u << pbt_uniform(1, 5)) + pbt_pick(3) - 1; }
}
static uint64_t gunit(cork_timestamp t, int u) { return u == 0 ? cork_timestamp_msec(t) : u == 1 ? cork_timestamp_usec(t) : cork_timestamp_nsec(t); }
/* how: -2 sec, -1 gsec, else unit */
static cork_timestamp build(int how, uint64_t s, uint64_t f)
{
    cork_timestamp t = 0xdeadbeefdeadbeefull;
    switch (how) { case -2: cork_timestamp_init_sec(&t, s); break; case -1: cork_timestamp_init_gsec(&t, s, f); break; case 0: cork_timestamp_init_msec(&t, s, f); break; case 1: cork_timestamp_init_usec(&t, s, f); break; default: cork_timestamp_init_nsec(&t, s, f); }
    return t;
}
static void check(cork_timestamp t, int how, uint64_t s, uint64_t f)
{
    static const char *const cn[] = { "sec", "gsec", "msec", "usec", "nsec" }; const char *c = cn[how + 2]; unsigned long long ls = s, lf = f;
    CHECK(cork_timestamp_sec(t) == s, "the timestamp of %llu s and %llu %s has %u seconds", ls, lf, c, cork_timestamp_sec(t));
    uint64_t g = cork_timestamp_gsec(t);
    if (how == -2) CHECK(g == 0, "the timestamp of %llu whole seconds has fraction %llu", ls, (unsigned long long) g);
    if (how == -1) CHECK(g == f, "the timestamp of %llu s and %llu gsec has %llu gsec", ls, lf, (unsigned long long) g);
    if (how >= 0) { CHECK(gunit(t, how) == f, "the timestamp of %llu s and %llu %s has %llu %s", ls, lf, c, (unsigned long long) gunit(t, how), c);
        U lo = ((U) f << 32) / units[how]; CHECK(g == lo || g == lo + 1, "the timestamp of %llu s and %llu %s has %llu gsec", ls, lf, c, (unsigned long long) g); }
    for (int u = 0; u < 3; u++) {
        uint64_t d = units[u], r = gunit(t, u);
        CHECK(r < d, "the timestamp of %llu s and %llu %s (%llu gsec) has %llu %s", ls, lf, c, (unsigned long long) g, (unsigned long long) r, uname[u]);
        /* |r - g*d/2^32| <= 1/2 + d/2^32, scaled by 2^33 */
        U x = (U) g * d * 2, y = (U) r << 33, diff = x > y ? x - y : y - x;
        CHECK(diff <= ((U) 1 << 32) + 2 * d || (r == d - 1 && x > y), "the timestamp of %llu s and %llu %s (%llu gsec) has %llu %s, which is not the nearest", ls, lf, c, (unsigned long long) g, (unsigned long long) r, uname[u]);
    }
}
void pbt_init(void) { }
void pbt_case(void)
{
    int how = (int) pbt_pick(5) - 2; uint64_t s = pbt_u64(0, UINT32_MAX), f = how == -2 ? 0 : frac(how);
    static const char *const cn[] = { "sec", "gsec", "msec", "usec", "nsec" }; pbt_label(cn[how + 2]);
    pbt_trace("init_%s %llu %llu\n", cn[how + 2], (unsigned long long) s, (unsigned long long) f);
    cork_timestamp t = build(how, s, f); check(t, how, s, f);
    uint64_t d = how == -2 ? 1 : how == -1 ? 1ull << 32 : units[how]; if (f && f * 2 != d) pbt_nontrivial();
    /* order */
    int how2 = (int) pbt_pick(5) - 2; uint64_t s2 = pbt_chance(1, 2) ? s : pbt_u64(0, UINT32_MAX), f2 = how2 == -2 ? 0 : how2 == how && pbt_chance(1, 2) ? (f + 1 < d ? f + 1 : f) : frac(how2), d2 = how2 == -2 ? 1 : how2 == -1 ? 1ull << 32 : units[how2];
    pbt_trace("init_%s %llu %llu\n", cn[how2 + 2], (unsigned long long) s2, (unsigned long long) f2);
    cork_timestamp t2 = build(how2, s2, f2); check(t2, how2, s2, f2);
    U a = (U) f * d2, b = (U) f2 * d; /* compares f/d with f2/d2 */
    int lt = s < s2 || (s == s2 && a < b), eq = s == s2 && a == b;
    /* closer than one gammasecond, the two may coincide */
    U gap = a > b ? a - b : b - a; bool close_ = s == s2 && (gap << 32) < (U) 2 * d * d2;
    if (eq && how == how2) CHECK(t == t2, "the same instant gives two timestamps");
    else if (how == how2 && how >= -1 && !eq) CHECK(lt ? t < t2 : t > t2, "timestamps of %llu.%llu and %llu.%llu %s are not ordered as the instants are", (unsigned long long) s, (unsigned long long) f, (unsigned long long) s2, (unsigned long long) f2, cn[how + 2]);
    else if (!close_) CHECK(lt ? t < t2 : t > t2, "timestamps of %llu s %llu %s and %llu s %llu %s are not ordered as the instants are", (unsigned long long) s, (unsigned long long) f, cn[how + 2], (unsigned long long) s2, (unsigned long long) f2, cn[how2 + 2]);
    if (pbt_uniform(0, 499) == 77) {
        struct timespec x, y; cork_timestamp n = 0; clock_gettime(CLOCK_REALTIME, &x); cork_timestamp_init_now(&n); clock_gettime(CLOCK_REALTIME, &y); pbt_label("now");
        U lo = (U) x.tv_sec * 1000000 + x.tv_nsec / 1000, hi = (U) y.tv_sec * 1000000 + y.tv_nsec / 1000, is = (U) cork_timestamp_sec(n) * 1000000 + cork_timestamp_usec(n);
        CHECK(is >= lo && is <= hi, "cork_timestamp_init_now gives %llu microseconds between %llu and %llu", (unsigned long long) is, (unsigned long long) lo, (unsigned long long) hi);
    }
}
