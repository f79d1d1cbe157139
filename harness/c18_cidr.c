/* CIDR prefixes: validity is "every bit after the prefix is zero". */
#include "pbt.h"
#include <string.h>
#include <stdio.h>
#include "libcork/core.h"
const char *pbt_rule = "a case asks about one address (random, sparse, or with its last bits cleared from a generated position) and one prefix length (around that position, around word boundaries, beyond the width, up to UINT_MAX), through the version-specific and the generic call; non-trivial: the prefix is within the width and the address has a bit set";
void pbt_init(void) { }
void pbt_case(void)
{
    bool six = pbt_chance(1, 2); unsigned w = six ? 128 : 32, n = w / 8; uint8_t a[16]; unsigned pos = w;
    switch (pbt_pick(3)) { case 0: for (unsigned i = 0; i < n; i++) a[i] = (uint8_t) pbt_u64(0, 255); break;
        case 1: memset(a, 0, 16); for (unsigned k = (unsigned) pbt_pick(4); k; k--) { unsigned b = (unsigned) pbt_pick(w); a[b / 8] |= (uint8_t) (0x80 >> b % 8); } break;
        default: memset(a, 0xff, 16); }
    if (pbt_chance(3, 4)) { pos = (unsigned) pbt_uniform(0, w); for (unsigned b = pos; b < w; b++) a[b / 8] &= (uint8_t) ~(0x80 >> b % 8); if (pos && pbt_chance(1, 2)) a[(pos - 1) / 8] |= (uint8_t) (0x80 >> (pos - 1) % 8); }
    unsigned last = 0; bool any = false; for (unsigned b = 0; b < w; b++) if (a[b / 8] & (0x80 >> b % 8)) { last = b; any = true; }
    unsigned p;
    switch (pbt_pick(4)) { case 0: p = any ? last + (unsigned) pbt_pick(3) : (unsigned) pbt_uniform(0, w); break; case 1: { static const unsigned e[] = { 0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1u << 31, ~0u }; p = e[pbt_pick(17)]; break; } case 2: p = (unsigned) pbt_uniform(0, w); break; default: p = (unsigned) pbt_u64(0, ~0u); }
    bool want = p <= w && (!any || last < p); struct cork_ipv4 v4; struct cork_ipv6 v6; struct cork_ip ip; memset(&ip, 0xcc, sizeof ip); bool r1, r2;
    if (six) { cork_ipv6_copy(&v6, a); cork_ip_from_ipv6(&ip, a); r1 = cork_ipv6_is_valid_network(&v6, p); } else { cork_ipv4_copy(&v4, a); cork_ip_from_ipv4(&ip, a); r1 = cork_ipv4_is_valid_network(&v4, p); }
    r2 = cork_ip_is_valid_network(&ip, p); char txt[CORK_IP_STRING_LENGTH]; cork_ip_to_raw_string(&ip, txt);
    pbt_trace("%s/%u\n", txt, p);
    CHECK(r1 == want, "%s/%u is reported %s", txt, p, r1 ? "valid" : "invalid");
    CHECK(r2 == want, "%s/%u is reported %s by cork_ip_is_valid_network", txt, p, r2 ? "valid" : "invalid");
    pbt_label(six ? "IPv6" : "IPv4"); pbt_label(want ? "valid" : p > w ? "prefix too long" : "host bits set"); if (p <= w && any) pbt_nontrivial(); if (any && p == last + 1) pbt_label("exact boundary"); if (any && p == last) pbt_label("one too short");
}
