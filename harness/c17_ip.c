/* IP addresses: parsing against an independent reading of the notations,
 * printing against the platform's canonical form, equality of bytes. */
#include "pbt.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <ctype.h>
#include <arpa/inet.h>
#include "libcork/core.h"
const char *pbt_rule = "a case either parses one string (a generated IPv4 or IPv6 notation, usually mutated by a few character edits, or random text over the notation's alphabet) with all three parsers and compares result, address, untouched destination and error with an independent parser; or prints one address with biased zero runs, compares with the platform's canonical form and parses it back; or compares two equal, nearly equal or different addresses; non-trivial: the string has a digit and at least two separators, or an address with a zero run is printed, or two addresses differ in at most one bit";

static bool loose; /* leading zeros in an embedded IPv4 address: only its value is specified */
static bool ref4(const char *s, uint8_t out[4])
{
    int n = 0;
    for (;;) {
        unsigned v = 0, d = 0; while (*s >= '0' && *s <= '9') { v = v * 10 + (unsigned) (*s++ - '0'); d++; if (v > 255) return false; }
        if (!d) return false;
        out[n++] = (uint8_t) v;
        if (n == 4) return *s == 0;
        if (*s++ != '.') return false;
    }
}
/* colon-separated hextets from s to e; the last may be an IPv4 address when tail */
static int refpart(const char *s, const char *e, bool tail, uint8_t *out)
{
    int n = 0; if (s == e) return 0;
    for (;;) {
        const char *q = s; while (q < e && *q != ':') q++;
        size_t len = (size_t) (q - s);
        if (tail && q == e && memchr(s, '.', len)) {
            char b[200]; if (len >= sizeof b) return -1; memcpy(b, s, len); b[len] = 0;
            if (n > 6 || !ref4(b, out + 2 * n)) return -1;
            for (size_t i = 0; i + 1 < len; i++) if (b[i] == '0' && isdigit((unsigned char) b[i + 1]) && (i == 0 || b[i - 1] == '.')) loose = true;
            return n + 2;
        }
        if (len < 1 || len > 4 || n == 8) return -1;
        unsigned v = 0; for (; s < q; s++) { if (!isxdigit((unsigned char) *s)) return -1; v = v * 16 + (unsigned) (isdigit((unsigned char) *s) ? *s - '0' : tolower(*s) - 'a' + 10); }
        out[2 * n] = (uint8_t) (v >> 8); out[2 * n + 1] = (uint8_t) v; n++;
        if (q == e) return n;
        s = q + 1;
    }
}
static bool ref6(const char *s, uint8_t out[16])
{
    uint8_t a[16], b[16]; const char *e = s + strlen(s), *dc = strstr(s, "::"); memset(out, 0, 16); loose = false;
    if (!dc) { int n = refpart(s, e, true, a); if (n != 8) return false; memcpy(out, a, 16); return true; }
    int l = refpart(s, dc, false, a), r = refpart(dc + 2, e, true, b);
    if (l < 0 || r < 0 || l + r > 7) return false;
    memcpy(out, a, (size_t) l * 2); memcpy(out + 16 - r * 2, b, (size_t) r * 2); return true;
}

static void gen_addr(uint8_t *a, size_t n)
{
    switch (pbt_pick(4)) {
        case 0: for (size_t i = 0; i < n; i++) a[i] = (uint8_t) pbt_u64(0, 255); break;
        case 1: { memset(a, 0, n); size_t k = pbt_pick(5); while (k--) a[pbt_pick(n)] = (uint8_t) pbt_uniform(0, 255); break; }
        case 2: for (size_t i = 0; i < n; i += 2) { unsigned v = pbt_chance(1, 2) ? 0 : (unsigned) pbt_u64(0, 65535); a[i] = (uint8_t) (v >> 8); a[i + 1] = (uint8_t) v; } break;
        default: memset(a, 0, n); if (n == 16) { if (pbt_chance(1, 2)) a[10] = a[11] = 0xff; for (int i = 12; i < 16; i++) a[i] = (uint8_t) pbt_u64(0, 255); if (pbt_chance(1, 4)) a[pbt_pick(12)] = 1; } break;
    }
}
static size_t app4(char *o, const uint8_t *a)
{
    size_t n = 0; bool z = pbt_chance(1, 4);
    if (pbt_chance(1, 20)) {   /* an octet of many digits: leading zeros, or far out of range */
        static const uint64_t far[] = { 256, 65536, 1ull << 31, 1ull << 32, 1ull << 33, 10ull << 32, 256000, 1000 }; int w = (int) pbt_pick(4);
        for (int i = 0; i < 4; i++) { if (i) o[n++] = '.'; n += i != w ? (size_t) sprintf(o + n, "%u", a[i]) : pbt_chance(1, 4) ? (size_t) sprintf(o + n, "%0*u", (int) pbt_uniform(3, 40), a[i]) : (size_t) sprintf(o + n, "%llu", (unsigned long long) (far[pbt_pick(8)] + a[i])); }
        pbt_label("long octet"); return n; }
    for (int i = 0; i < 4; i++) n += (size_t) sprintf(o + n, i ? ".%s%u" : "%s%u", z && pbt_chance(1, 3) ? (pbt_chance(1, 2) ? "0" : "000") : "", a[i]);
    return n;
}
static size_t gen_text(char *o)
{
    uint8_t a[16]; size_t n = 0;
    switch (pbt_pick(4)) {
        case 0: for (int i = 0; i < 4; i++) a[i] = (uint8_t) pbt_u64(0, 255); n = app4(o, a); break;
        case 1: {   /* loosely structured IPv6 */
            static const char *const fm[] = { "%x", "%X", "%04x", "%02x", "%05x", "%08x" };
            int left = (int) pbt_uniform(0, 9), right = pbt_chance(1, 2) ? (int) pbt_uniform(0, 8) : -1; bool v4 = pbt_chance(1, 4);
            if (pbt_chance(2, 3)) { if (right < 0) left = v4 ? 6 : 8; else if (left + right > 8) right = 8 - left < 0 ? 0 : 8 - left; }
            for (int i = 0; i < left; i++) { if (i) o[n++] = ':'; n += (size_t) sprintf(o + n, fm[pbt_chance(1, 100) ? pbt_pick(6) : pbt_pick(4)], (unsigned) pbt_u64(0, 0xffff)); }
            if (right >= 0) { o[n++] = ':'; o[n++] = ':'; for (int i = 0; i < right; i++) { if (i) o[n++] = ':'; n += (size_t) sprintf(o + n, fm[pbt_chance(1, 100) ? pbt_pick(6) : pbt_pick(4)], (unsigned) pbt_u64(0, 0xffff)); } }
            if (v4) { if (n && o[n - 1] != ':') o[n++] = ':'; for (int i = 0; i < 4; i++) a[i] = (uint8_t) pbt_u64(0, 255); n += app4(o + n, a); }
            o[n] = 0; break; }
        case 2: gen_addr(a, 16); inet_ntop(AF_INET6, a, o, 100); n = strlen(o); break;
        default: { static const char al[] = "0123456789::::....abcdefABCDEF1279gG /-"; size_t k = pbt_chance(1, 2) ? 20 : sizeof al - 1; n = pbt_size(0, 44); pbt_bytes((uint8_t *) o, n, al, k); o[n] = 0; pbt_label("random text"); return n; }
    }
    unsigned edits = pbt_chance(1, 2) ? 0 : (unsigned) pbt_uniform(1, 3);
    if (edits) pbt_label("edited notation"); else pbt_label("unedited notation");
    while (edits--) {
        static const char al[] = "0123456789abcdfF::::....gx %"; size_t p = pbt_uniform(0, n);
        switch (pbt_pick(4)) {
            case 0: memmove(o + p + 1, o + p, n - p + 1); o[p] = al[pbt_pick(sizeof al - 1)]; n++; break;
            case 1: if (p < n) { memmove(o + p, o + p + 1, n - p); n--; } break;
            case 2: if (p < n) o[p] = al[pbt_pick(sizeof al - 1)]; break;
            default: if (p < n) { memmove(o + p + 1, o + p, n - p + 1); n++; } break;
        }
    }
    return n;
}
static void *obj(size_t n, uint8_t fill) { void *p = malloc(n); memset(p, fill, n); return p; }
static bool same(const void *p, size_t n, uint8_t fill) { for (size_t i = 0; i < n; i++) if (((const uint8_t *) p)[i] != fill) return false; return true; }
static const char *hex(const uint8_t *a, size_t n) { static char r[4][40]; static int k; char *o = r[k++ & 3]; for (size_t i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", a[i]); return o; }
static void errcheck(const char *what, const char *s)
{ CHECK(cork_error_occurred() && cork_error_code() == CORK_PARSE_ERROR, "%s rejects %s without a parse error (code %#x)", what, s, cork_error_code()); cork_error_clear(); }

static void parse_case(void)
{
    char tmp[300]; size_t n = gen_text(tmp); char *s = malloc(n + 1); memcpy(s, tmp, n); s[n] = 0; const char *q = pbt_quote(s, n);
    pbt_trace("parse %s\n", q);
    uint8_t e4[4], e6[16]; bool v4 = ref4(s, e4), v6 = ref6(s, e6), lz = loose; int seps = 0, dig = 0;
    for (size_t i = 0; i < n; i++) { seps += s[i] == ':' || s[i] == '.'; dig += isxdigit((unsigned char) s[i]) != 0; }
    if (seps >= 2 && dig) pbt_nontrivial();
    if (!lz) { uint8_t x[16]; int r = inet_pton(AF_INET6, s, x); if ((r == 1) != v6 || (v6 && memcmp(x, e6, 16))) { fprintf(stderr, "oracle disagreement on %s\n", q); abort(); } }
    uint8_t fill = (uint8_t) (pbt_chance(1, 2) ? 0x5a : 4); int rc;
    struct cork_ipv4 *a4 = obj(sizeof *a4, fill); struct cork_ipv6 *a6 = obj(sizeof *a6, fill); struct cork_ip *ip = obj(sizeof *ip, fill);
    cork_error_clear(); rc = cork_ipv4_init(a4, s);
    CHECK(rc == 0 || rc == -1, "cork_ipv4_init returns %d", rc);
    if (v4) { CHECK(rc == 0, "cork_ipv4_init rejects the valid address %s", q); CHECK(memcmp(a4, e4, 4) == 0, "cork_ipv4_init reads %s as %s", q, hex((void *) a4, 4)); }
    else { CHECK(rc == -1, "cork_ipv4_init accepts %s as %s", q, hex((void *) a4, 4)); errcheck("cork_ipv4_init", q); CHECK(same(a4, 4, fill), "cork_ipv4_init rejects %s but changes the address", q); }
    cork_error_clear(); rc = cork_ipv6_init(a6, s);
    CHECK(rc == 0 || rc == -1, "cork_ipv6_init returns %d", rc);
    if (v6 && (!lz || rc == 0)) { CHECK(rc == 0, "cork_ipv6_init rejects the valid address %s", q); CHECK(memcmp(a6, e6, 16) == 0, "cork_ipv6_init reads %s as %s", q, hex((void *) a6, 16)); }
    else { CHECK(rc == -1, "cork_ipv6_init accepts %s as %s", q, hex((void *) a6, 16)); errcheck("cork_ipv6_init", q); CHECK(same(a6, 16, fill), "cork_ipv6_init rejects %s but changes the address", q); }
    int rc6 = rc; cork_error_clear(); rc = cork_ip_init(ip, s);
    if (v4) CHECK(rc == 0 && ip->version == 4 && memcmp(&ip->ip.v4, e4, 4) == 0, "cork_ip_init of %s gives result %d, version %u, %s", q, rc, ip->version, hex((void *) &ip->ip, 4));
    else if (rc6 == 0) CHECK(rc == 0 && ip->version == 6 && memcmp(&ip->ip.v6, e6, 16) == 0, "cork_ip_init of %s gives result %d, version %u, %s", q, rc, ip->version, hex((void *) &ip->ip, 16));
    else { CHECK(rc == -1, "cork_ip_init accepts %s", q); errcheck("cork_ip_init", q); CHECK(same(ip, sizeof *ip, fill), "cork_ip_init rejects %s but changes the address", q); }
    if (v4 || rc6 == 0) CHECK(!cork_error_occurred(), "parsing the valid address %s leaves an error behind", q);
    pbt_label(v4 ? "valid IPv4" : v6 ? "valid IPv6" : "invalid");
    free(s); free(a4); free(a6); free(ip);
}
static void print_case(void)
{
    uint8_t b[16]; char want[100]; struct cork_ip *ip = obj(sizeof *ip, 0xee); bool six = pbt_chance(2, 3);
    if (six) gen_addr(b, 16); else for (int i = 0; i < 4; i++) b[i] = (uint8_t) pbt_u64(0, 255);
    inet_ntop(six ? AF_INET6 : AF_INET, b, want, sizeof want);
    pbt_trace("print %s (%s)\n", hex(b, six ? 16 : 4), want);
    char *o; struct cork_ipv4 *a4 = obj(sizeof *a4, 1); struct cork_ipv6 *a6 = obj(sizeof *a6, 1);
    if (six) { cork_ipv6_copy(a6, b); CHECK(memcmp(a6, b, 16) == 0, "cork_ipv6_copy changes the address"); o = obj(CORK_IPV6_STRING_LENGTH, 'x'); cork_ipv6_to_raw_string(a6, o); cork_ip_from_ipv6(ip, b); }
    else { cork_ipv4_copy(a4, b); CHECK(memcmp(a4, b, 4) == 0, "cork_ipv4_copy changes the address"); o = obj(CORK_IPV4_STRING_LENGTH, 'x'); cork_ipv4_to_raw_string(a4, o); cork_ip_from_ipv4(ip, b); }
    CHECK(strcmp(o, want) == 0, "the address %s prints as %s, expected %s", hex(b, six ? 16 : 4), pbt_quote(o, strlen(o)), want);
    CHECK(ip->version == (six ? 6u : 4u) && memcmp(&ip->ip, b, six ? 16 : 4) == 0, "cork_ip_from_ipv%d gives version %u and %s", six ? 6 : 4, ip->version, hex((void *) &ip->ip, 16));
    char *o2 = obj(CORK_IP_STRING_LENGTH, 'y'); cork_ip_to_raw_string(ip, o2);
    CHECK(strcmp(o2, want) == 0, "the generic address %s prints as %s, expected %s", hex(b, six ? 16 : 4), pbt_quote(o2, strlen(o2)), want);
    struct cork_ip back; CHECK(cork_ip_init(&back, o2) == 0 && cork_ip_equal(&back, ip), "the printed address %s does not parse back", want);
    if (strstr(want, "::") || strstr(want, ":0")) pbt_nontrivial();
    pbt_label(six ? "print IPv6" : "print IPv4"); if (strstr(want, "::")) pbt_label("zero run"); if (six && strchr(want, '.')) pbt_label("printed as embedded IPv4");
    free(o); free(o2); free(ip); free(a4); free(a6);
}
static void equal_case(void)
{
    uint8_t a[16], b[16]; gen_addr(a, 16); memcpy(b, a, 16); unsigned how = (unsigned) pbt_pick(3);
    if (how == 1) b[pbt_pick(16)] ^= (uint8_t) (1u << pbt_pick(8)); else if (how == 2) gen_addr(b, 16);
    if (how < 2) pbt_nontrivial();
    bool e4 = memcmp(a, b, 4) == 0, e6 = memcmp(a, b, 16) == 0; struct cork_ipv4 x4, y4; struct cork_ipv6 x6, y6; struct cork_ip p, q; memset(&p, 0x11, sizeof p); memset(&q, 0x22, sizeof q);
    memcpy(&x4, a, 4); memcpy(&y4, b, 4); memcpy(&x6, a, 16); memcpy(&y6, b, 16);
    pbt_trace("compare %s and %s\n", hex(a, 16), hex(b, 16));
    CHECK(cork_ipv4_equal(&x4, &y4) == e4 && cork_ipv4_equal_(&x4, &y4) == e4, "cork_ipv4_equal of %s and %s is not %d", hex(a, 4), hex(b, 4), e4);
    CHECK(cork_ipv6_equal(&x6, &y6) == e6 && cork_ipv6_equal_(&x6, &y6) == e6, "cork_ipv6_equal of %s and %s is not %d", hex(a, 16), hex(b, 16), e6);
    bool pv = pbt_chance(1, 2), qv = pbt_chance(1, 2);
    if (pv) cork_ip_from_ipv6(&p, a); else cork_ip_from_ipv4(&p, a);
    if (qv) cork_ip_from_ipv6(&q, b); else cork_ip_from_ipv4(&q, b);
    bool e = pv == qv && (pv ? e6 : e4);
    CHECK(cork_ip_equal(&p, &q) == e, "cork_ip_equal of IPv%d %s and IPv%d %s is not %d", pv ? 6 : 4, hex(a, pv ? 16 : 4), qv ? 6 : 4, hex(b, qv ? 16 : 4), e);
    pbt_label("equality");
}
void pbt_init(void) { }
void pbt_case(void) { switch (pbt_pick(5)) { case 0: print_case(); break; case 1: equal_case(); break; default: parse_case(); } }
