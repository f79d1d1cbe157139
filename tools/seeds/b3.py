exec(open("/verif/tools/seeds/pre.py").read())
IP="src/libcork/core/ip-address.c"; IPH="include/libcork/core/net-addresses.h"; U="include/libcork/core/u128.h"; UC="src/libcork/core/u128.c"; H="include/libcork/core/hash.h"; CH="src/cork-hash/cork-hash.c"; BO="include/libcork/core/byte-order.h"; TS="include/libcork/core/timestamp.h"; TC="src/libcork/core/timestamp.c"
FB="-DCORK_CONFIG_HAVE_GCC_INT128=0 -DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0"
BUGS=[
dict(id="ip-octet-wrap", prop="C17", edits=[(IP,'''                DEBUG("digit = %u\\n", digit);
                if (CORK_UNLIKELY(digit > 255)) {
                    DEBUG("\\t");
                    goto parse_error;
                }
                break;''','''                DEBUG("digit = %u\\n", digit);
                break;'''),(IP,'''                DEBUG("octet %u = %u\\n", octets, digit);
                result[octets] = digit;
                digit = 0;''','''                DEBUG("octet %u = %u\\n", octets, digit);
                if (CORK_UNLIKELY(digit > 255)) {
                    goto parse_error;
                }
                result[octets] = digit;
                digit = 0;'''),(IP,"    if (CORK_LIKELY(seen_digit_in_octet && octets == 3)) {","    if (CORK_LIKELY(seen_digit_in_octet && octets == 3 && digit <= 255)) {")],
 needs="an octet of ten or more digits whose value is small modulo 2^32",
 breaks="the invalid address is accepted",
 demo=PRE+'''
int main(void) {
    struct cork_ipv4 a;
    CHECK(cork_ipv4_init(&a, "10.0.0.4294967297") != 0);
    return 0;
}'''),
dict(id="ip-tail-space", prop="C17", edits=[(IP,"if (CORK_UNLIKELY(hextets_seen >= 7)) {","if (CORK_UNLIKELY(hextets_seen >= 8)) {")],
 needs="an embedded IPv4 address after exactly seven hextets",
 breaks="the parser writes behind its array",
 asan=True, demo=PRE+'''
int main(void) {
    struct cork_ipv6 a;
    CHECK(cork_ipv6_init(&a, "1:2:3:4:5:6:7:1.2.3.4") != 0);
    return 0;
}'''),
dict(id="ip-trailing-run", prop="C17", edits=[(IP,'''    if (cur.base != -1) {
        if (best.base == -1 || cur.len > best.len)
            best = cur;
    }''','''    if (cur.base != -1) {
        if (best.base == -1 || cur.len >= best.len)
            best = cur;
    }''')],
 needs="an IPv6 address with two longest runs of zero hextets of equal length, one at the end",
 breaks="it is not printed in the canonical form",
 demo=PRE+'''
int main(void) {
    uint8_t b[16] = {0,1,0,2,0,0,0,0,0,3,0,4,0,0,0,0}; struct cork_ipv6 a; char s[CORK_IPV6_STRING_LENGTH];
    cork_ipv6_copy(&a, b); cork_ipv6_to_raw_string(&a, s);
    CHECK(strcmp(s, "1:2::3:4:0:0") == 0);
    return 0;
}'''),
dict(id="ip-version-early", prop="C17", edits=[(IP,'''    /* Then try IPv6 */
    cork_error_clear();''','''    /* Then try IPv6 */
    addr->version = 6;
    cork_error_clear();''')],
 needs="an address object that is reused for a string that does not parse",
 breaks="the address changes its version although it was not assigned",
 demo=PRE+'''
int main(void) {
    struct cork_ip a;
    CHECK(cork_ip_init(&a, "10.1.2.3") == 0);
    CHECK(cork_ip_init(&a, "10.1.2.") != 0);
    CHECK(a.version == 4);
    return 0;
}'''),
dict(id="ip-colon-digits", prop="C17", edits=[(IP,"                if (digits_seen == 0 && hextets_seen == 0) {","                if (digits_seen == 0 && hextets_seen == 0 && ch == str) {"),(IP,'''                    /* ch now points at''','''                    colon_allowed = true;
                    /* ch now points at''')],
 needs="nothing", breaks="x", demo=PRE+"int main(void) { return 0; }"),
dict(id="cidr-31", prop="C18", edits=[(IP,"    } else if (cidr_prefix == 32) {","    } else if (cidr_prefix >= 31) {")],
 needs="a /31 network whose last bit is set",
 breaks="it is taken for a valid network",
 demo=PRE+'''
int main(void) {
    struct cork_ipv4 a; cork_ipv4_init(&a, "10.0.0.1");
    CHECK(!cork_ipv4_is_valid_network(&a, 31)); CHECK(cork_ipv4_is_valid_network(&a, 32));
    return 0;
}'''),
dict(id="cidr-wide", prop="C18", edits=[(IP,'''        case 6:
            return cork_ipv6_is_valid_network(&addr->ip.v6, cidr_prefix);''','''        case 6:
            return cork_ipv6_is_valid_network(&addr->ip.v6, cidr_prefix & 0xff);''')],
 needs="a prefix of 256 or more, through the generic function",
 breaks="only the low bits of the prefix are looked at",
 demo=PRE+'''
int main(void) {
    struct cork_ip a; cork_ip_init(&a, "fe80::");
    CHECK(!cork_ip_is_valid_network(&a, 256 + 64));
    return 0;
}'''),
dict(id="cidr-64-upper", prop="C18", edits=[(IP,'''        cidr_mask[0] = 0;
        cidr_mask[1] = UINT64_C(0xffffffffffffffff) >> (cidr_prefix-64);''','''        cidr_mask[0] = 0;
        cidr_mask[1] = UINT32_C(0xffffffff) >> ((cidr_prefix-64) % 32);
        if (cidr_prefix < 96) {
            cidr_mask[1] = (cidr_mask[1] << 32) | 0x7fffffff;
        }''')],
 needs="a prefix between 65 and 95 and an address with bit 96 set",
 breaks="the address is taken for a network",
 demo=PRE+'''
int main(void) {
    struct cork_ipv6 a; cork_ipv6_init(&a, "fe80::8000:0");
    CHECK(!cork_ipv6_is_valid_network(&a, 80));
    return 0;
}'''),
dict(id="u128-sub-borrow", prop="C19", edits=[(U,"        a._.be64.hi - b._.be64.hi - (result._.be64.lo > a._.be64.lo);","        a._.be64.hi - b._.be64.hi - (result._.be64.lo >= a._.be64.lo);")],
 needs="the fallback implementation and a subtrahend whose low half is zero",
 breaks="the difference is off by 2^64", cflags=FB,
 demo=PRE+'''
int main(void) {
    cork_u128 r = cork_u128_sub(cork_u128_from_64(5, 7), cork_u128_from_64(2, 0));
    CHECK(cork_u128_be64(r, 0) == 3 && cork_u128_be64(r, 1) == 7);
    return 0;
}'''),
dict(id="u128-shr-edge", prop="C19", edits=[(U,'''    if (b >= 64) {
        return cork_u128_from_64(0, a._.be64.hi >> (b - 64));
    }''','''    if (b > 64) {
        return cork_u128_from_64(0, a._.be64.hi >> 1 >> (b - 65));
    }
    if (b == 63) {
        return cork_u128_from_64(a._.be64.hi >> 63, a._.be64.hi << 1);
    }''')],
 needs="the fallback implementation and a right shift by exactly 63 of a number whose bit 63 is set",
 breaks="a bit is lost", cflags=FB,
 demo=PRE+'''
int main(void) {
    cork_u128 r = cork_u128_shr(cork_u128_from_64(1, UINT64_C(1) << 63), 63);
    CHECK(cork_u128_be64(r, 0) == 0 && cork_u128_be64(r, 1) == 3);
    return 0;
}'''),
dict(id="u128-le-half", prop="C19", edits=[(U,'''    if (a._.be64.hi == b._.be64.hi) {
        return a._.be64.lo <= b._.be64.lo;
    } else {
        return a._.be64.hi <= b._.be64.hi;
    }''','''    return a._.be64.hi <= b._.be64.hi &&
        (a._.be64.lo <= b._.be64.lo || a._.be64.hi + 1 <= b._.be64.hi);''')],
 needs="the fallback implementation: two numbers of which the first has all bits of its high half set (2^64-1), the second too, and the first is larger in its low half",
 breaks="the larger one is reported less than or equal", cflags=FB,
 demo=PRE+'''
int main(void) {
    cork_u128 a = cork_u128_from_64(~UINT64_C(0), 9), b = cork_u128_from_64(~UINT64_C(0), 4);
    CHECK(!cork_u128_le(a, b)); CHECK(cork_u128_le(b, a));
    return 0;
}'''),
dict(id="u128-decimal-carry", prop="C20", edits=[(UC,"        n[3] = ((n[3] << 1) & 0xFFFFFFFF) + (n[2] >= 0x80000000);","        n[3] = ((n[3] << 1) & 0xFFFFFFFF) + (n[2] > 0x80000000);")],
 needs="a number in which 31 zero bits follow a one in the second highest word",
 breaks="it is printed wrongly in decimal",
 demo=PRE+'''
int main(void) {
    char b[CORK_U128_DECIMAL_LENGTH];
    CHECK(strcmp(cork_u128_to_decimal(b, cork_u128_from_64(UINT64_C(1) << 31, 0)), "39614081257132168796771975168") == 0);
    return 0;
}'''),
dict(id="u128-hex-short", prop="C20", edits=[(UC,'''    if (hi == 0) {
        snprintf(buf, CORK_U128_HEX_LENGTH, "%" PRIx64, lo);''','''    if (hi == 0 || hi >> 4 == 0) {
        if (hi != 0 && lo >> 60 != 0) {
            snprintf(buf, CORK_U128_HEX_LENGTH, "%" PRIx64 "%" PRIx64, hi, lo);
        } else if (hi != 0) {
            snprintf(buf, CORK_U128_HEX_LENGTH, "%" PRIx64 "%015" PRIx64, hi, lo);
        } else
        snprintf(buf, CORK_U128_HEX_LENGTH, "%" PRIx64, lo);''')],
 needs="a number of 17 hexadecimal digits whose second one is zero",
 breaks="a digit is missing",
 demo=PRE+'''
int main(void) {
    char b[CORK_U128_HEX_LENGTH];
    CHECK(strcmp(cork_u128_to_hex(b, cork_u128_from_64(3, 1)), "30000000000000001") == 0);
    return 0;
}'''),
dict(id="hash-len16", prop="C21", edits=[(H,'''    /* finalization */
    h1 ^= len;
    h1 = cork_fmix32(h1);
    return h1;''','''    /* finalization */
    h1 ^= (uint16_t) len;
    h1 = cork_fmix32(h1);
    return h1;''')],
 needs="data of more than 65535 bytes", breaks="the stable hash is not MurmurHash3's",
 demo=PRE+'''
static uint32_t rotl(uint32_t a, int b) { return a << b | a >> (32 - b); }
static uint32_t ref(const uint8_t *p, size_t n) { uint32_t h = 0, k; for (size_t i = 0; i + 4 <= n; i += 4) { memcpy(&k, p + i, 4); k *= 0xcc9e2d51u; k = rotl(k, 15); k *= 0x1b873593u; h ^= k; h = rotl(h, 13); h = h * 5 + 0xe6546b64u; }
    h ^= (uint32_t) n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16; }
int main(void) {
    static uint8_t b[80000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (uint8_t) (i * 7 + i / 256);
    CHECK(cork_stable_hash_buffer(0, b, 4000) == ref(b, 4000)); CHECK(cork_stable_hash_buffer(0, b, 80000) == ref(b, 80000));
    return 0;
}'''),
dict(id="hash-tail-bit", prop="C21", edits=[(H,'''        case  9: k2 ^= (uint64_t) (tail[ 8]) << 0; \\
                 k2 *= c2; k2 = CORK_ROTL64(k2,33); k2 *= c1; h2 ^= k2; \\''','''        case  9: k2 ^= (uint64_t) (tail[ 8]) << 0; \\
                 k2 *= c2; k2 = (k2 << 33) | (k2 >> 32); k2 *= c1; h2 ^= k2; \\''')],
 needs="nothing", breaks="x", demo=PRE+"int main(void) { return 0; }"),
dict(id="hash-tail-top", prop="C21", edits=[(H,"        case 11: k2 ^= (uint64_t) (tail[10]) << 16; \\","        case 11: k2 ^= (uint64_t) (tail[10] & 0x7f) << 16; \\")],
 needs="an input of 16n+11 to 16n+15 bytes", breaks="the top bit of one byte takes no part in the hash: inputs that differ in it collide for every seed",
 demo=PRE+'''
int main(void) {
    char a[16] = "abcdefghijklmno", b[16]; memcpy(b, a, 16); b[10] ^= (char) 0x80; int same = 0;
    for (uint32_t s = 0; s < 8; s++) same += cork_hash_buffer(s, a, 14) == cork_hash_buffer(s, b, 14);
    CHECK(same < 3);
    return 0;
}'''),
dict(id="hash-cmd-big-nul", prop="C21", edits=[(CH,"        result = cork_hash_buffer(result, string, strlen(string));","        result = cork_hash_buffer(result, string, strlen(string) + (string[0] == '\\0'));")],
 needs="cork-hash --fastest with an empty string", breaks="the NUL byte is hashed",
 sh='''#!/bin/bash
# The hash of the empty string with seed 0 is 0 (nothing is mixed in), for each kind.
D=_build; C=$(find . -type f -name cork-hash -perm -u+x | head -1); [ -x "$C" ] || exit 9
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -O1 -w -D_GNU_SOURCE -DCORK_API=CORK_LOCAL -Iinclude -I_build/include src/cork-hash/cork-hash.c $(find src/libcork -name '*.c') -o $T/cork-hash -lpthread -lm || exit 9
[ "$($T/cork-hash -f '')" = 0x00000000 ] && [ "$($T/cork-hash -s '')" = 0x00000000 ] || exit 1
'''),
dict(id="bo-64-in-place", prop="C22", edits=[(BO,"#define CORK_UINT64_HOST_TO_BIG_IN_PLACE(__u64)  CORK_UINT64_BIG_TO_HOST_IN_PLACE(__u64)","#define CORK_UINT64_HOST_TO_BIG_IN_PLACE(__u64)  ((__u64) = CORK_UINT32_BIG_TO_HOST((__u64) >> 32) | ((uint64_t) CORK_UINT32_BIG_TO_HOST((uint32_t) (__u64)) << 32 & UINT64_C(0xffffff00ffffffff) << 24))")],
 needs="converting a 64-bit number in place whose lower half has a byte that must survive", breaks="some bytes are dropped",
 demo=PRE+'''
int main(void) {
    uint64_t v = UINT64_C(0x0102030405060708); CORK_UINT64_HOST_TO_BIG_IN_PLACE(v);
    uint8_t e[8] = {1,2,3,4,5,6,7,8}; CHECK(memcmp(&v, e, 8) == 0);
    return 0;
}'''),
dict(id="bo-u128-little", prop="C22", edits=[(U,'''#define CORK_UINT128_HOST_TO_LITTLE_IN_PLACE(__u128)                           \\
  CORK_UINT128_LITTLE_TO_HOST_IN_PLACE(__u128)''','''#define CORK_UINT128_HOST_TO_LITTLE_IN_PLACE(__u128)                           \\
  CORK_UINT128_BIG_TO_HOST_IN_PLACE(__u128)''')],
 needs="converting a 128-bit number to little-endian in place", breaks="it is converted to big-endian",
 demo=PRE+'''
int main(void) {
    cork_u128 v = cork_u128_from_64(UINT64_C(0x0f0e0d0c0b0a0908), UINT64_C(0x0706050403020100)); CORK_UINT128_HOST_TO_LITTLE_IN_PLACE(v);
    uint8_t e[16]; for (int i = 0; i < 16; i++) e[i] = (uint8_t) i;
    CHECK(memcmp(&v, e, 16) == 0);
    return 0;
}'''),
dict(id="bo-u128-expression", prop="C22", edits=[(U,'''#define CORK_UINT128_BIG_TO_HOST(__u128)  CORK_SWAP_UINT128(__u128)''','''#define CORK_UINT128_BIG_TO_HOST(__u128)                                       \\
  (cork_u128_eq((__u128), cork_u128_zero())? cork_u128_zero():                 \\
   cork_u128_from_64(CORK_SWAP_UINT64(cork_u128_be64((__u128), 1)),            \\
                     CORK_SWAP_UINT32(cork_u128_be64((__u128), 0)) |           \\
                     CORK_SWAP_UINT64(cork_u128_be64((__u128), 0))))''')],
 needs="converting a 128-bit number from big-endian whose upper half has low bits",
 breaks="bits are added",
 demo=PRE+'''
int main(void) {
    cork_u128 v = cork_u128_from_64(UINT64_C(0x0f0e0d0c0b0a0908), UINT64_C(0x0706050403020100)), r = CORK_UINT128_BIG_TO_HOST(v);
    CHECK(cork_u128_be64(r, 0) == UINT64_C(0x0001020304050607) && cork_u128_be64(r, 1) == UINT64_C(0x08090a0b0c0d0e0f));
    return 0;
}'''),
dict(id="ts-nsec-round", prop="C23", edits=[(TS,"    uint64_t  half = ((uint64_t) 1 << 31) / denom;","    uint64_t  half = ((uint64_t) 1 << 31) / denom & ~UINT64_C(3);")],
 needs="nanosecond values", breaks="a timestamp does not return the nanoseconds it was made from",
 demo=PRE+'''
int main(void) {
    cork_timestamp t; for (uint64_t i = 1; i < 1000000000; i += 99991) { cork_timestamp_init_nsec(&t, 5, i); CHECK(cork_timestamp_nsec(t) == i); }
    return 0;
}'''),
dict(id="ts-usec-precision", prop="C23", edits=[(TS,"    *ts = (sec << 32) | ((usec << 32) / 1000000);","    *ts = (sec << 32) | ((usec << 31) / 1000000 * 2);")],
 needs="comparing a timestamp's fraction with the exact one", breaks="fractions are off by one",
 demo=PRE+'''
int main(void) {
    cork_timestamp t; for (uint64_t i = 0; i < 1000000; i++) { cork_timestamp_init_usec(&t, 0, i); CHECK(cork_timestamp_gsec(t) == (uint32_t) ((i << 32) / 1000000)); }
    return 0;
}'''),
dict(id="ts-now-msec", prop="C23", edits=[(TC,"    cork_timestamp_init_usec(ts, tp.tv_sec, tp.tv_usec);","    cork_timestamp_init_msec(ts, tp.tv_sec, tp.tv_usec / 1000);")],
 needs="comparing the current time at a finer grain than milliseconds", breaks="the timestamp can lie before the call",
 demo=PRE+'''
#include <sys/time.h>
int main(void) {
    int bad = 0; for (int i = 0; i < 200; i++) { struct timeval a; cork_timestamp t; gettimeofday(&a, 0); cork_timestamp_init_now(&t); bad += (uint64_t) cork_timestamp_sec(t) * 1000000 + cork_timestamp_usec(t) < (uint64_t) a.tv_sec * 1000000 + a.tv_usec; usleep(137); }
    CHECK(bad == 0);
    return 0;
}'''),
dict(id="tsf-2038", prop="C24", edits=[(TC,'''    clock = cork_timestamp_sec(ts);
    gmtime_r(&clock, &tm);''','''    clock = (int32_t) cork_timestamp_sec(ts);
    gmtime_r(&clock, &tm);''')],
 needs="a time after January 2038", breaks="it is formatted as one before 1970",
 demo=PRE+'''
int main(void) {
    cork_timestamp t; struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp_init_sec(&t, 4102444800u);
    CHECK(cork_timestamp_format_utc(t, "%Y-%m-%d", &b) == 0 && strcmp(b.buf, "2100-01-01") == 0);
    return 0;
}'''),
dict(id="tsf-s-signed", prop="C24", edits=[(TC,'''                    (dest, "%" PRIu32, cork_timestamp_sec(ts));''','''                    (dest, "%" PRId32, cork_timestamp_sec(ts));''')],
 needs="%s and a time after January 2038", breaks="a negative number is printed",
 demo=PRE+'''
int main(void) {
    cork_timestamp t; struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp_init_sec(&t, 4102444800u);
    CHECK(cork_timestamp_format_utc(t, "%s", &b) == 0 && strcmp(b.buf, "4102444800") == 0);
    return 0;
}'''),
dict(id="tsf-width-8", prop="C24", edits=[(TC,'''        accumulator *= accumulator;
        width /= 2;''','''        accumulator *= (uint32_t) accumulator;
        width = (width == 8)? 4: width / 2;
        if (accumulator >= 100000000 && width == 1) {
            return accumulator + (result - 1);
        }''')],
 needs="a fraction of nine digits", breaks="its digits are wrong",
 demo=PRE+'''
int main(void) {
    cork_timestamp t; struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp_init_nsec(&t, 1, 123456789);
    CHECK(cork_timestamp_format_utc(t, "%9f", &b) == 0 && strcmp(b.buf, "123456789") == 0);
    return 0;
}'''),
dict(id="tsf-local-shared", prop="C24", edits=[(TC,'''    clock = cork_timestamp_sec(ts);
    localtime_r(&clock, &tm);''','''    clock = cork_timestamp_sec(ts);
    gmtime_r(&clock, &tm);
    clock += (clock - timelocal(&tm));
    gmtime_r(&clock, &tm);''')],
 needs="a time zone with daylight saving time, in summer", breaks="the local time is an hour off",
 demo=PRE+'''
#include <time.h>
int main(void) {
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1); tzset();
    cork_timestamp t; struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp_init_sec(&t, 1341100800u);
    CHECK(cork_timestamp_format_local(t, "%Y-%m-%d %H:%M:%S", &b) == 0 && strcmp(b.buf, "2012-07-01 02:00:00") == 0);
    return 0;
}'''),

dict(id="u128-decimal-chunks", prop="C20", edits=[(UC,"""    /* This algorithm assumes that n[3] is the MSW. */""","""    if (val._.be64.hi == 0 && val._.be64.lo >= UINT64_C(1000000000000000000)) {
        snprintf(dest, CORK_U128_DECIMAL_LENGTH, "%" PRIu64 "%" PRIu64,
                 val._.be64.lo / UINT64_C(1000000000000000000),
                 val._.be64.lo % UINT64_C(1000000000000000000));
        return dest;
    }

    /* This algorithm assumes that n[3] is the MSW. */""")],
 needs="a number between 10^18 and 2^64 with a zero after its first digit or two", breaks="zeros are missing in the decimal form",
 demo=PRE+"""
int main(void) {
    char b[CORK_U128_DECIMAL_LENGTH];
    CHECK(strcmp(cork_u128_to_decimal(b, cork_u128_from_64(0, UINT64_C(1000000000000000001))), "1000000000000000001") == 0);
    return 0;
}"""),
dict(id="bo-swap-sign", prop="C22", edits=[(BO,"        (__u64) = CORK_SWAP_UINT64(__u64); \\","        (__u64) = ((uint64_t) CORK_SWAP_UINT32(__u64) << 32) | \\\n            (int32_t) CORK_SWAP_UINT32((__u64) >> 32); \\")],
 needs="a 64-bit number whose byte 4 (from the top: the one that ends up as bit 31) is above 0x7f, converted in place", breaks="the upper half is all ones",
 demo=PRE+"""
int main(void) {
    uint64_t v = UINT64_C(0x01020384f5060708), e = UINT64_C(0x080706f584030201); CORK_SWAP_IN_PLACE_UINT64(v);
    CHECK(v == e);
    return 0;
}"""),
dict(id="u128-add-carry", prop="C19", edits=[(U,"        a._.be64.hi + b._.be64.hi + (result._.be64.lo < a._.be64.lo);","        a._.be64.hi + b._.be64.hi + (result._.be64.lo < a._.be64.lo && b._.be64.lo != UINT64_MAX);")],
 needs="the fallback implementation and an addend whose low half is all ones", breaks="the carry is lost", cflags=FB,
 demo=PRE+"""
int main(void) {
    cork_u128 r = cork_u128_add(cork_u128_from_64(0, 7), cork_u128_from_64(0, UINT64_MAX));
    CHECK(cork_u128_be64(r, 0) == 1 && cork_u128_be64(r, 1) == 6);
    return 0;
}"""),
]
BUGS=[b for b in BUGS if b["needs"]!="nothing"]
