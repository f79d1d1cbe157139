/* Buffer contents against a byte-vector model. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include <wchar.h>
#include <stdio.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is two or three buffers and a random history of set/append (bytes, strings, literals, copies, printf/vprintf, indent, through a stream consumer), clear, truncate, ensure_size; contents, size, NUL terminator, equality and capacity are compared with a byte-vector model after every operation; non-trivial: at least 3 operations and more than 8 bytes held at once";

typedef struct { uint8_t *d; size_t n, cap; bool nul; } vec;
static void vput(vec *v, const void *s, size_t n) { if (v->n + n + 1 > v->cap) { v->cap = (v->n + n + 1) * 2; v->d = raw_realloc(v->d, v->cap); } memcpy(v->d + v->n, s, n); v->n += n; v->nul = true; }
static struct cork_buffer *B[3]; static vec M[3]; static size_t resv[3]; static const void *base[3];
static struct cork_buffer stat_buf;

static void compare(int w, const char *what)
{
    CHECK(B[w]->size == M[w].n, "%s: size is %zu, expected %zu", what, B[w]->size, M[w].n);
    if (M[w].n) { const uint8_t *p = B[w]->buf; CHECK(p != NULL, "%s: no content", what);
        if (memcmp(p, M[w].d, M[w].n) != 0) { size_t i; for (i = 0; p[i] == M[w].d[i]; i++) { } pbt_fail("%s: byte %zu of %zu is 0x%02x, expected 0x%02x", what, i, M[w].n, p[i], M[w].d[i]); }
        CHECK(cork_buffer_byte(B[w], M[w].n - 1) == M[w].d[M[w].n - 1] && cork_buffer_char(B[w], 0) == (char) M[w].d[0], "%s: byte/char accessor", what); }
    if (M[w].nul) { CHECK(B[w]->buf != NULL, "%s: no storage, so no terminator", what); CHECK(((char *) B[w]->buf)[M[w].n] == 0, "%s: the content (%zu bytes) is not followed by NUL", what, M[w].n); }
    if (B[w]->buf) { size_t n = 0; CHECK(acct_find(B[w]->buf) > M[w].n || (!M[w].nul && acct_find(B[w]->buf) >= M[w].n), "%s: the content does not fit its storage", what); (void) n; }
}
static const char *text(bool large, size_t hi, const char *alphabet)
{
    if (!large || pbt_chance(1, 3)) return pbt_str(0, hi, alphabet);
    static char *t; if (!t) t = raw_malloc(3 << 20); size_t n = pbt_u64(0, 2 << 20); for (size_t i = 0; i < n; i++) t[i] = (char) ('a' + (i * 7 + i / 251) % 26); t[n] = 0; return t;
}
static void vp(struct cork_buffer *b, bool app, const char *f, ...) { va_list a; va_start(a, f); if (app) cork_buffer_append_vprintf(b, f, a); else cork_buffer_vprintf(b, f, a); va_end(a); }

void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    enum { SET, APPEND, SETS, APPS, LIT, COPY, APPC, PRINTF, CLEAR, TRUNC, ENSURE, INDENT, CONSUME, REDO, N };
    size_t mx = 0; unsigned st = 0, ops = 0; bool large = pbt_large(1500);
#define SZ(hi) (large ? (size_t) pbt_u64(0, (hi) * 700) : pbt_size(0, hi))
    memset(M, 0, sizeof M); memset(resv, 0, sizeof resv); memset(base, 0, sizeof base);
    static struct cork_buffer lit = CORK_BUFFER_INIT();
    cork_buffer_init(&stat_buf); B[0] = &stat_buf; B[1] = cork_buffer_new(); lit = (struct cork_buffer) CORK_BUFFER_INIT(); B[2] = &lit;
    for (int i = 0; i < 3; i++) compare(i, "fresh");
    uint64_t mask = pbt_swarm(N, 1 << APPEND | 1 << SET | 1 << PRINTF);
    while (pbt_more(&st, large ? 8 : 25, large ? 20 : 250)) {
        int w = (int) pbt_pick(3), o = (int) (w + 1 + pbt_pick(2)) % 3; struct cork_buffer *b = B[w]; vec *m = &M[w]; unsigned op = pbt_op(mask, N); ops++;
        const void *p0 = b->buf; size_t n0 = m->n;
        if (m->n > (large ? 8000000 : 200000)) { cork_buffer_clear(b); m->n = 0; continue; }
        switch (op) {
            case SET: case APPEND: {
                size_t n = SZ(3000); uint64_t seed = pbt_u64(0, 1u << 30); uint8_t *src = raw_malloc(n); pbt_fill(src, n, seed);
                /* sometimes aim exactly at the end of the storage */
                if (resv[w] > m->n && pbt_chance(1, 3)) { size_t r = resv[w] - (op == SET ? 0 : m->n); n = r < n ? r : n; if (r && r <= (large ? 3000000 : 3000) && pbt_chance(1, 2)) { src = raw_realloc(src, r); n = r - 1; pbt_fill(src, n, seed); } }
                pbt_trace("%s %zu bytes (seed %llu) on %d", op == SET ? "set" : "append", n, (unsigned long long) seed, w);
                if (op == SET) { cork_buffer_set(b, src, n); m->n = 0; } else cork_buffer_append(b, src, n);
                vput(m, src, n); raw_free(src); break; }
            case SETS: case APPS: {
                const char *s = text(large, 300, "ab \n%\xc3\xa9"); pbt_trace("%s %s on %d", op == SETS ? "set_string" : "append_string", pbt_quote(s, strlen(s)), w);
                if (op == SETS) { cork_buffer_set_string(b, s); m->n = 0; } else cork_buffer_append_string(b, s);
                vput(m, s, strlen(s)); break; }
            case LIT: if (pbt_chance(1, 2)) { pbt_trace("set_literal on %d", w); cork_buffer_set_literal(b, "a\0b literal"); m->n = 0; vput(m, "a\0b literal", 11); } else { pbt_trace("append_literal on %d", w); cork_buffer_append_literal(b, ""); cork_buffer_append_literal(b, "xyz"); vput(m, "xyz", 3); } break;
            case COPY: pbt_trace("copy %d to %d", o, w); cork_buffer_copy(b, B[o]); m->n = 0; vput(m, M[o].d, M[o].n); break;
            case APPC: pbt_trace("append_copy %d to %d", o, w); cork_buffer_append_copy(b, B[o]); vput(m, M[o].d, M[o].n); break;
            case PRINTF: {
                bool app = pbt_chance(2, 3), v = pbt_chance(1, 2); unsigned f = pbt_pick(8); static char *exp; int n = 0; static char *big;
                long long x = (long long) pbt_u64(0, UINT64_MAX); int width = (int) SZ(2000); const char *s = text(large, 400, "abc%s");
                if (resv[w] > m->n && pbt_chance(1, 3)) { size_t r = resv[w] - m->n; if (r < (large ? 3000000 : 4000)) width = (int) (r + pbt_uniform(0, 2)) - 1; if (width < 0) width = 0; }
                pbt_trace("%s%sprintf form %u, width %d, string of %zu bytes, value %lld on %d", app ? "append_" : "", v ? "v" : "", f, width, strlen(s), x, w);
                if (!exp) exp = raw_malloc(8 << 20); (void) big;
#define GO(...) do { n = snprintf(exp, 8 << 20, __VA_ARGS__); if (v) vp(b, app, __VA_ARGS__); else if (app) cork_buffer_append_printf(b, __VA_ARGS__); else cork_buffer_printf(b, __VA_ARGS__); } while (0)
                switch (f) {
                    case 0: GO("%s", s); break;
                    case 1: GO("%lld/%llx", x, x); break;
                    case 2: GO("%*s", width, s); break;
                    case 3: GO("%s%%%c%s", s, (char) (x & 1 ? 'c' : 0), s); break;
                    case 4: GO("%.*s|%d|%s", width, s, (int) x, "tail"); break;
                    case 5: { const char *volatile e = ""; GO(e, 0); break; }
                    case 6: GO("%s%lc", s, (wint_t) 0x7ffffff0); if (n < 0) { n = 0; pbt_label("printf that cannot be formatted"); } break;
                    default: GO("%0*d%s%g", width, (int) x, s, 1.5); break;
                }
                if (!app) m->n = 0;
                vput(m, exp, n); pbt_label("printf"); if ((size_t) n + n0 >= (p0 ? acct_find(b->buf) : 1)) { } break; }
            case CLEAR: pbt_trace("clear %d", w); cork_buffer_clear(b); m->n = 0; if (b->buf) m->nul = true; CHECK(b->buf == p0, "clear moves the buffer"); break;
            case TRUNC: { size_t n = pbt_chance(1, 2) ? pbt_size(0, 3000) : pbt_uniform(0, m->n + 1); if (large && pbt_chance(1, 2)) n = SZ(3000); pbt_trace("truncate %d to %zu", w, n); cork_buffer_truncate(b, n); if (n < m->n) { m->n = n; pbt_label("truncate shortens"); } CHECK(b->buf == p0, "truncate moves the buffer"); break; }
            case ENSURE: { size_t n = pbt_chance(1, 4) ? m->n + pbt_uniform(0, 3) : SZ(6000); pbt_trace("ensure_size %zu on %d", n, w); cork_buffer_ensure_size(b, n); CHECK(n == 0 || acct_find(b->buf) >= n, "ensure_size(%zu) leaves %zu bytes of storage", n, acct_find(b->buf));
                           if (n > resv[w] || b->buf != base[w]) { resv[w] = n; base[w] = b->buf; } break; }
            case INDENT: { size_t n = SZ(200); char *s = raw_malloc(n); memset(s, ' ', n); pbt_trace("indent %zu on %d", n, w); cork_buffer_append_indent(b, n); vput(m, s, n); raw_free(s); break; }
            case CONSUME: {
                struct cork_stream_consumer *c = cork_buffer_to_stream_consumer(b); unsigned k = (unsigned) pbt_size(0, 5); pbt_trace("stream consumer into %d, %u chunks", w, k);
                for (unsigned i = 0; i < k; i++) { size_t n = 1 + SZ(500); uint8_t *src = raw_malloc(n); pbt_fill(src, n, ops * 10 + i + 1); CHECK(cork_stream_consumer_data(c, src, n, i == 0) == 0, "the buffer's stream consumer fails"); vput(m, src, n); raw_free(src); compare(w, "stream consumer"); }
                CHECK(cork_stream_consumer_eof(c) == 0, "the buffer's stream consumer fails at the end"); cork_stream_consumer_free(c); break; }
            case REDO: if (pbt_chance(1, 3)) { pbt_trace("finalize and start again %d", w); if (w == 1) { cork_buffer_free(b); B[1] = cork_buffer_new(); } else { cork_buffer_done(b); cork_buffer_init(b); } m->n = 0; m->nul = false; resv[w] = 0; } break;
        }
        b = B[w];
        /* reserved room must not need the buffer to move (the terminator counts) */
        if (op != ENSURE && op != REDO && resv[w] && op != COPY) { if (m->n + 1 <= resv[w] && n0 + 1 <= resv[w] && op != PRINTF) CHECK(b->buf == base[w], "the buffer moved although %zu bytes were reserved and only %zu are needed", resv[w], m->n + 1); if (b->buf != base[w]) resv[w] = 0; }
        if (op == COPY && b->buf != base[w]) resv[w] = 0;
        if (m->n > mx) mx = m->n;
        for (int i = 0; i < 3; i++) compare(i, i == w ? "after the operation" : "another buffer");
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            bool eq = M[i].n == M[j].n && (M[i].n == 0 || memcmp(M[i].d, M[j].d, M[i].n) == 0);
            CHECK(cork_buffer_equal(B[i], B[j]) == eq, "equal(%d, %d) is %d for %s contents", i, j, !eq, eq ? "equal" : "different");
            if (eq && i != j && M[i].n) pbt_label("equal non-empty buffers");
        }
    }
    cork_buffer_done(B[0]); cork_buffer_free(B[1]); cork_buffer_done(B[2]);
    for (int i = 0; i < 3; i++) raw_free(M[i].d);
    if (mx > 1000) pbt_label("more than 1000 bytes");
    if (ops >= 3 && mx > 8) pbt_nontrivial();
}
