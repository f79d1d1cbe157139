/* Formatting timestamps against an independent calendar. */
#include "pbt.h"
#include "acct.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "libcork/core.h"
const char *pbt_rule = "a case formats one timestamp (days, leap years, month and year ends, the whole 32-bit range, fractions at the ends of each unit) with one generated format (literal text, all specifiers, fractional widths with and without leading zeros, sometimes an unknown, unfinished or overflowing one), as UTC or as local time in one of seven time zones, appended to a generated buffer; the result is compared with a calendar computed from the day number (local: with the platform's localtime); non-trivial: at least two calendar fields or a fraction, or a rejected format";
static const char *const zones[] = { "UTC0", "XXX-5:30", "YYY11", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "AAA-14", "ZZZ12:45" };
static const int fixed[] = { 0, 19800, -39600, -1, -1, 50400, -45900 };
static struct tm civil(int64_t t)
{
    struct tm r; memset(&r, 0, sizeof r); int64_t d = t / 86400, s = t % 86400; if (s < 0) { s += 86400; d--; }
    r.tm_hour = (int) (s / 3600); r.tm_min = (int) (s / 60 % 60); r.tm_sec = (int) (s % 60);
    int y = 1970; for (;;) { int n = (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 366 : 365; if (d < 0) { y--; d += (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 366 : 365; continue; } if (d < n) break; d -= n; y++; }
    static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int m = 0; bool leap = y % 4 == 0 && (y % 100 || y % 400 == 0);
    for (;; m++) { int n = ml[m] + (m == 1 && leap); if (d < n) break; d -= n; }
    r.tm_year = y - 1900; r.tm_mon = m; r.tm_mday = (int) d + 1; return r;
}
void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    /* the instant */
    uint32_t sec, gs; switch (pbt_pick(4)) {
        case 0: sec = (uint32_t) pbt_u64(0, UINT32_MAX); break;
        case 1: sec = (uint32_t) (pbt_uniform(0, 49710) * 86400 + pbt_pick(3) - 1); break;
        case 2: { int y = (int) pbt_uniform(1970, 2105); int64_t d = 0; for (int k = 1970; k < y; k++) d += (k % 4 == 0 && (k % 100 || k % 400 == 0)) ? 366 : 365; d += pbt_chance(1, 2) ? 58 + (int64_t) pbt_pick(3) : 0; sec = (uint32_t) (d * 86400 + (int64_t) pbt_pick(3) - 1); break; }
        default: sec = (uint32_t) pbt_uniform(0, UINT32_MAX); }
    switch (pbt_pick(4)) { case 0: gs = (uint32_t) pbt_u64(0, UINT32_MAX); break; case 1: gs = UINT32_MAX - (uint32_t) pbt_u64(0, 5000000); break; case 2: { static const uint64_t u[] = { 10, 100, 1000, 100000, 1000000, 1000000000 }; uint64_t d = u[pbt_pick(6)]; gs = (uint32_t) ((pbt_uniform(0, d - 1) << 32) / d); break; } default: gs = (uint32_t) pbt_uniform(0, UINT32_MAX); }
    cork_timestamp ts; cork_timestamp_init_gsec(&ts, sec, gs);
    bool local = pbt_chance(1, 2); size_t z = pbt_pick(7); struct tm tm;
    static size_t cur = 99; if (local && cur != z) { setenv("TZ", zones[z], 1); tzset(); cur = z; }
    if (!local) tm = civil(sec); else if (fixed[z] != -1) tm = civil((int64_t) sec + fixed[z]); else { time_t c = sec; localtime_r(&c, &tm); }
    /* the format and its rendering */
    static char fmt[400000], want[1600000]; size_t fn = 0, wn = 0; bool bad = false, any_frac = false; unsigned fields = 0, st = 0;
    uint64_t denom[10] = { 1 }; for (int i = 1; i < 10; i++) denom[i] = denom[i - 1] * 10;
    static unsigned wfrac[40000]; static size_t wpos[40000]; unsigned nf = 0; bool large = pbt_large(200); size_t reps = large ? pbt_uniform(1, 3000) : 1; if (large) pbt_label("long format");
    while (!bad && pbt_more(&st, 6, 30)) {
        size_t fn0 = fn, wn0 = wn; unsigned nf0 = nf;
        if (large && pbt_chance(1, 6)) { size_t n = pbt_uniform(0, 70000); if (fn + n > sizeof fmt - 100000) n = 0; memset(fmt + fn, 'L', n); memset(want + wn, 'L', n); fn += n; wn += n; continue; }
        switch (pbt_pick(12)) {
            case 0: { size_t n = pbt_size(0, 12); for (size_t i = 0; i < n; i++) { char c = (char) pbt_u64(1, 255); if (c == '%') c = 's'; fmt[fn++] = want[wn++] = c; } break; }
            case 1: memcpy(fmt + fn, "%%", 2); fn += 2; want[wn++] = '%'; break;
            case 2: memcpy(fmt + fn, "%Y", 2); fn += 2; wn += (size_t) sprintf(want + wn, "%04d", tm.tm_year + 1900); fields++; break;
            case 3: memcpy(fmt + fn, "%m", 2); fn += 2; wn += (size_t) sprintf(want + wn, "%02d", tm.tm_mon + 1); fields++; break;
            case 4: memcpy(fmt + fn, "%d", 2); fn += 2; wn += (size_t) sprintf(want + wn, "%02d", tm.tm_mday); fields++; break;
            case 5: memcpy(fmt + fn, "%H", 2); fn += 2; wn += (size_t) sprintf(want + wn, "%02d", tm.tm_hour); fields++; break;
            case 6: memcpy(fmt + fn, "%M", 2); fn += 2; wn += (size_t) sprintf(want + wn, "%02d", tm.tm_min); fields++; break;
            case 7: memcpy(fmt + fn, "%S", 2); fn += 2; wn += (size_t) sprintf(want + wn, "%02d", tm.tm_sec); fields++; break;
            case 8: memcpy(fmt + fn, "%s", 2); fn += 2; wn += (size_t) sprintf(want + wn, "%u", sec); fields++; break;
            case 9: case 10: { unsigned w = (unsigned) pbt_uniform(1, 9); fn += (size_t) sprintf(fmt + fn, pbt_chance(1, 5) ? "%%00%uf" : "%%%uf", w); any_frac = true;
                /* filled in below: the position and width of the fraction */
                if (nf < 40000) { wfrac[nf] = w; wpos[nf++] = wn; } memset(want + wn, '?', w); wn += w; break; }
            default: if (pbt_chance(1, 4)) { bad = true;
                switch (pbt_pick(4)) {
                    case 0: { static const char unk[] = "abcegijklnopqrtuvwxyzABCDEFGIJKLNOPQRTUVWXZ .-+*\n\x80"; char c = unk[pbt_pick(sizeof unk - 1)]; fn += (size_t) sprintf(fmt + fn, "%%%c", c); if (pbt_chance(1, 2)) fn += (size_t) sprintf(fmt + fn, "more"); break; }
                    case 1: fn += (size_t) sprintf(fmt + fn, pbt_chance(1, 2) ? "%%" : "%%%u", (unsigned) pbt_uniform(1, 12)); break;
                    case 2: fn += (size_t) sprintf(fmt + fn, "%%%sf", pbt_chance(1, 2) ? "" : "0"); break;
                    default: { static const uint64_t b[] = { 10, 100, 256, 65536, 1ull << 31, 1ull << 32, 1ull << 33, 42949672960ull }; uint64_t w = b[pbt_pick(8)] + pbt_pick(10); fn += (size_t) sprintf(fmt + fn, "%%%lluf", (unsigned long long) w); break; } } } break;
        }
        /* the same again, many times */
        if (reps > 1 && !bad && pbt_chance(1, 3)) for (size_t r = 1, fl = fn - fn0, wl = wn - wn0, k = nf - nf0; r < reps && fn + fl < sizeof fmt - 100000 && nf + k < 39000; r++) { memcpy(fmt + fn, fmt + fn0, fl); fn += fl; for (size_t i = 0; i < k; i++) { wfrac[nf] = wfrac[nf0 + i]; wpos[nf++] = wn + (wpos[nf0 + i] - wn0); } memcpy(want + wn, want + wn0, wl); wn += wl; }
    }
    fmt[fn] = 0; char *f = malloc(fn + 1); memcpy(f, fmt, fn + 1);
    uint8_t pre[600]; size_t pn = pbt_size(0, 600); pbt_fill(pre, pn, pbt_u64(0, 100));
    pbt_trace("%u s %u gsec, %s, format %s after %zu bytes\n", sec, gs, local ? zones[z] : "UTC", pbt_quote(fmt, fn), pn);
    struct cork_buffer buf = CORK_BUFFER_INIT(); bool used = pn || pbt_chance(1, 2); if (used) cork_buffer_set(&buf, pre, pn);
    cork_error_clear(); int rc = local ? cork_timestamp_format_local(ts, f, &buf) : cork_timestamp_format_utc(ts, f, &buf); free(f);
    if (bad) {
        CHECK(rc == -1, "the invalid format %s is accepted and gives %s", pbt_quote(fmt, fn), pbt_quote((char *) buf.buf + pn, buf.size - pn)); CHECK(cork_error_occurred(), "the invalid format %s is rejected without an error", pbt_quote(fmt, fn));
        CHECK(buf.size >= pn && memcmp(pn ? buf.buf : (void *) "", pre, pn) == 0, "a rejected format changes what the buffer held before"); pbt_label("rejected"); pbt_nontrivial(); cork_error_clear();
    } else {
        CHECK(rc == 0, "the valid format %s is rejected: %s", pbt_quote(fmt, fn), cork_error_occurred() ? cork_error_message() : "without an error");
        CHECK(buf.size == pn + wn, "format %s gives %zu bytes %s, expected %zu", pbt_quote(fmt, fn), buf.size - pn, pbt_quote((char *) buf.buf + pn, buf.size - pn), wn);
        char *got = (char *) buf.buf + pn; CHECK(!wn || got[wn] == 0, "the formatted text is not terminated");
        CHECK(memcmp(pn ? buf.buf : (void *) "", pre, pn) == 0, "formatting changes what the buffer held before");
        /* fractions: digits only, within half a unit (up to a gammasecond) of the exact value, and as the accessors say */
        for (unsigned k = 0; k < nf; k++) {
            uint64_t v = 0, d = denom[wfrac[k]]; for (unsigned i = 0; i < wfrac[k]; i++) { char c = got[wpos[k] + i]; CHECK(c >= '0' && c <= '9', "format %s gives %s", pbt_quote(fmt, fn), pbt_quote(got, wn)); v = v * 10 + (uint64_t) (c - '0'); }
            unsigned __int128 x = (unsigned __int128) gs * d * 2, y = (unsigned __int128) v << 33, diff = x > y ? x - y : y - x;
            CHECK(diff <= ((unsigned __int128) 1 << 32) + 2 * d || (v == d - 1 && x > y), "the fraction %u gsec is given in %u digits as %llu", gs, wfrac[k], (unsigned long long) v);
            uint64_t acc = wfrac[k] == 3 ? cork_timestamp_msec(ts) : wfrac[k] == 6 ? cork_timestamp_usec(ts) : wfrac[k] == 9 ? cork_timestamp_nsec(ts) : v; CHECK(acc == v, "the fraction %u gsec is formatted as %llu but reported as %llu", gs, (unsigned long long) v, (unsigned long long) acc);
            memcpy(want + wpos[k], got + wpos[k], wfrac[k]);
        }
        CHECK(!wn || memcmp(got, want, wn) == 0, "%u s as %s in format %s gives %s, expected %s", sec, local ? zones[z] : "UTC", pbt_quote(fmt, fn), pbt_quote(got, wn), pbt_quote(want, wn));
        if (fields >= 2 || any_frac) pbt_nontrivial(); pbt_label(local ? "local" : "utc"); if (any_frac) pbt_label("fraction"); if (pn) pbt_label("appended to content");
    }
    cork_buffer_done(&buf);
}
