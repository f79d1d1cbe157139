/* 128-bit integers in text. */
#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libcork/core.h"
const char *pbt_rule = "a case prints one 128-bit integer (random, powers of two and ten and their neighbours, edges) in decimal, hexadecimal and padded hexadecimal into buffers of exactly the documented sizes and compares with long division; two builds: native and fallback; non-trivial: the value needs more than 64 bits";
typedef unsigned __int128 U;
void pbt_init(void) { }
static char *ref(U v, unsigned base, char *end) { *--end = 0; do { *--end = "0123456789abcdef"[(unsigned) (v % base)]; v /= base; } while (v); return end; }
void pbt_case(void)
{
    U v; switch (pbt_pick(5)) {
        case 0: v = (U) pbt_u64(0, UINT64_MAX) << 64 | pbt_u64(0, UINT64_MAX); break;
        case 1: v = ((U) 1 << pbt_pick(128)) + (U) pbt_pick(3) - 1; break;
        case 2: { U p = 1; for (size_t i = pbt_pick(39); i; i--) p *= 10; v = p * pbt_uniform(1, 9) + (U) pbt_pick(3) - 1; break; }
        case 3: v = ~(U) 0 - pbt_u64(0, UINT64_MAX); break;
        default: v = pbt_u64(0, UINT64_MAX); break; }
    cork_u128 c = cork_u128_from_64((uint64_t) (v >> 64), (uint64_t) v); char b[64], pad[64]; char *want = ref(v, 10, b + 64);
    pbt_trace("%s\n", want);
    uint8_t fill = (uint8_t) pbt_pick(3) * 0x30; char *o = malloc(CORK_U128_DECIMAL_LENGTH); memset(o, fill, CORK_U128_DECIMAL_LENGTH);
    const char *r = cork_u128_to_decimal(o, c); CHECK(r && strcmp(r, want) == 0, "%s prints in decimal as %s", want, pbt_quote(r, r ? strlen(r) : 0)); free(o);
    char dec[64]; strcpy(dec, want); want = ref(v, 16, b + 64);
    o = malloc(CORK_U128_HEX_LENGTH); memset(o, fill, CORK_U128_HEX_LENGTH); r = cork_u128_to_hex(o, c); CHECK(r && strcmp(r, want) == 0, "%s prints in hexadecimal as %s, expected %s", dec, pbt_quote(r, r ? strlen(r) : 0), want); free(o);
    size_t n = strlen(want); memset(pad, '0', 32); strcpy(pad + 32 - n, want);
    o = malloc(CORK_U128_HEX_LENGTH); memset(o, fill, CORK_U128_HEX_LENGTH); r = cork_u128_to_padded_hex(o, c); CHECK(r && strcmp(r, pad) == 0, "%s prints in padded hexadecimal as %s, expected %s", dec, pbt_quote(r, r ? strlen(r) : 0), pad); free(o);
    if (v >> 64) pbt_nontrivial(); char l[40]; sprintf(l, "%2zu decimal digits", strlen(dec) / 10 * 10); pbt_label(strlen(dec) >= 30 ? "30 and more digits" : strlen(dec) >= 20 ? "20 to 29 digits" : strlen(dec) >= 10 ? "10 to 19 digits" : "below 10 digits");
}
