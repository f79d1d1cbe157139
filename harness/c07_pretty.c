/* Pretty-printing into buffers, against independent reference renderings. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include <stdio.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is a buffer with some earlier content and 1-4 pretty-printing calls (c_string, hex_dump, multiline, binary, indent) on generated byte strings (text, binary, control characters, lengths around multiples of 16) and indents; each output is compared byte for byte with a reference rendering, c_string and hex_dump are also decoded back; non-trivial: some input of at least 2 bytes";

typedef struct { char *d; size_t n, cap; } vec;
static void put(vec *v, const void *s, size_t n) { if (v->n + n + 1 > v->cap) { v->cap = (v->n + n + 1) * 2; v->d = raw_realloc(v->d, v->cap); } memcpy(v->d + v->n, s, n); v->n += n; v->d[v->n] = 0; }
static void puts_(vec *v, const char *s) { put(v, s, strlen(s)); }
static void nlind(vec *v, size_t ind) { put(v, "\n", 1); while (ind--) put(v, " ", 1); }

static void ref_c(vec *v, const uint8_t *s, size_t n)
{
    puts_(v, "\"");
    for (size_t i = 0; i < n; i++) {
        static const char from[] = "\"\\\f\n\r\t\v", to[] = "\"\\fnrtv"; const char *q = s[i] ? strchr(from, s[i]) : NULL; char b[8];
        if (q) { b[0] = '\\'; b[1] = to[q - from]; b[2] = 0; } else if (s[i] >= 32 && s[i] < 127) { b[0] = s[i]; b[1] = 0; } else snprintf(b, sizeof b, "\\x%02x", s[i]);
        puts_(v, b);
    }
    puts_(v, "\"");
}
static void ref_hex(vec *v, size_t ind, const uint8_t *s, size_t n)
{
    for (size_t r = 0; r < n; r += 16) {
        char line[80]; size_t k = n - r < 16 ? n - r : 16;
        if (r) nlind(v, ind);
        memset(line, ' ', sizeof line);
        for (size_t i = 0; i < k; i++) { char h[4]; snprintf(h, 4, "%02x", s[r + i]); memcpy(line + 3 * i, h, 2); }
        line[49] = '|';
        for (size_t i = 0; i < k; i++) line[50 + i] = (s[r + i] >= 32 && s[r + i] < 127) ? s[r + i] : '.';
        line[50 + k] = '|'; put(v, line, 51 + k);
    }
}
static void ref_multi(vec *v, size_t ind, const uint8_t *s, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == '\n') nlind(v, ind); else put(v, s + i, 1); }
static void ref_bin(vec *v, size_t ind, const uint8_t *s, size_t n)
{
    bool np = false, nl = false;
    for (size_t i = 0; i < n; i++) { if (!((s[i] >= 32 && s[i] < 127) || (s[i] >= 9 && s[i] <= 13))) np = true; if (s[i] == '\n') nl = true; }
    if (np) { puts_(v, "(hex)"); nlind(v, ind); ref_hex(v, ind, s, n); pbt_label("binary chooses hex"); }
    else if (nl) { puts_(v, "(multiline)"); nlind(v, ind); ref_multi(v, ind, s, n); pbt_label("binary chooses multiline"); }
    else { put(v, s, n); pbt_label("binary chooses plain"); }
}
void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    struct cork_buffer b; vec m = { 0 }; cork_buffer_init(&b); bool big = false;
    unsigned calls = (unsigned) pbt_uniform(1, 4);
    if (pbt_chance(1, 3)) { const char *s = pbt_str(0, 30, "xyz"); cork_buffer_append_string(&b, s); puts_(&m, s); }
    if (pbt_chance(1, 3)) cork_buffer_ensure_size(&b, pbt_size(0, 400));
    for (unsigned c = 0; c < calls; c++) {
        pbt_mark();
        size_t n = pbt_chance(1, 3) ? (size_t) (16 * pbt_uniform(0, 5) + pbt_uniform(0, 2)) : pbt_size(0, 300); uint8_t *s = raw_malloc(n); unsigned style = pbt_pick(5); size_t plant = 0;
        if (pbt_chance(1, 60)) { raw_free(s); n = pbt_uniform(300, 9000); s = raw_malloc(n); style = 5; plant = pbt_uniform(0, 6); pbt_label("300 to 9000 bytes"); }
        if (pbt_large(100)) { raw_free(s); n = pbt_uniform(60000, 300000); s = raw_malloc(n); style = 5; plant = pbt_uniform(0, 200); pbt_label("more than 60000 bytes"); }
        switch (style) {
            case 0: pbt_bytes(s, n, NULL, 0); break;
            case 1: pbt_bytes(s, n, "abcXYZ ~!", 9); break;
            case 2: pbt_bytes(s, n, "ab \n\n", 5); break;
            case 3: pbt_bytes(s, n, "a\"\\\f\n\r\t\v'?0", 12); break;
            case 5: {
                /* long: printable text with a few other bytes somewhere */
                pbt_fill(s, n, pbt_u64(0, 100)); for (size_t i = 0; i < n; i++) s[i] = (uint8_t) (32 + s[i] % 95);
                for (size_t i = 0; i < plant; i++) s[pbt_chance(1, 3) ? n - 1 - pbt_uniform(0, 20) : pbt_uniform(0, n - 1)] = (uint8_t) "\n\n\x01\xff\0\t"[pbt_pick(6)];
                break; }
            default: pbt_bytes(s, n, "a b\t\n\x7e\x7f\x80\x1f\x20\xff\x00\x0b\x0c\x0e\x08\x07", 18); break;
        }
        size_t ind = pbt_chance(1, 300) ? pbt_uniform(60, 5000) : pbt_size(0, 60); if (n > 20000 && ind > 60) ind = 60; unsigned op = pbt_pick(5);
        static const char *const names[] = { "c_string", "hex_dump", "multiline", "binary", "indent" };
        size_t at = m.n;
        pbt_trace("%s of %s, indent %zu", names[op], pbt_quote(s, n), ind); pbt_label(names[op]);
        switch (op) {
            case 0: cork_buffer_append_c_string(&b, (char *) s, n); ref_c(&m, s, n); break;
            case 1: cork_buffer_append_hex_dump(&b, ind, (char *) s, n); ref_hex(&m, ind, s, n); break;
            case 2: cork_buffer_append_multiline(&b, ind, (char *) s, n); ref_multi(&m, ind, s, n); break;
            case 3: cork_buffer_append_binary(&b, ind, (char *) s, n); ref_bin(&m, ind, s, n); break;
            default: cork_buffer_append_indent(&b, ind); while (ind--) put(&m, " ", 1); break;
        }
        size_t bn = b.size, k; const char *p = b.buf;
        for (k = 0; k < bn && k < m.n && p[k] == m.d[k]; k++) { }
        CHECK(bn == m.n && k == m.n, "%s of %s with indent %zu gives %s, expected %s (they differ at byte %zu)", names[op], pbt_quote(s, n), ind, bn > at ? pbt_quote(p + at, bn - at) : "nothing", pbt_quote(m.d + at, m.n - at), k);
        if (m.n) CHECK(p[bn] == 0, "the buffer is not terminated after %s", names[op]);
        if (op == 0) for (size_t i = at; i < m.n; i++) CHECK(p[i] >= 32 && p[i] < 127, "c_string leaves the raw byte 0x%02x in its output", (uint8_t) p[i]);
        if (n >= 2) big = true;
        raw_free(s);
    }
    cork_buffer_done(&b); raw_free(m.d);
    if (big) pbt_nontrivial();
}
