/* Array contents against a vector model: raw arrays of any element size, the
 * typed macros, and string arrays. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is two arrays (raw with a random element size / typed via the macros / string arrays) and a random history of append, append_get, write, remove, remove_range, clear, ensure_size, copy; the whole content is compared with a vector model after every operation; non-trivial: at least 3 operations and at least 2 elements at once";

typedef struct { uint8_t *d; size_t n, cap; } vec;
static size_t es; static unsigned tag;
static void vpush(vec *v, const void *e) { if (v->n == v->cap) { v->cap = v->cap ? v->cap * 2 : 16; v->d = raw_realloc(v->d, v->cap * es); } memcpy(v->d + v->n++ * es, e, es); }
static void vdel(vec *v, size_t i, size_t c) { memmove(v->d + i * es, v->d + (i + c) * es, (v->n - i - c) * es); v->n -= c; }
static void mkelem(uint8_t *b) { tag++; for (size_t i = 0; i < es; i++) b[i] = (uint8_t) (tag * 31 + i * 7 + (tag >> (8 * (i & 3)))); }

struct big { char c[40]; };
typedef cork_array(int16_t) a16; typedef cork_array(uint64_t) a64; typedef cork_array(struct big) abig; typedef cork_array(char) a8;

static int copies, copy_fail_at; static void *copy_ud;
static int copy_cb(void *u, void *d, const void *s)
{ CHECK(u == copy_ud, "the copy callback got the wrong user data"); if (copies++ == copy_fail_at) return -1; memcpy(d, s, es); return 0; }

/* kind 0: raw; 1..4: typed; */
static void compare(unsigned kind, struct cork_raw_array *a, vec *v, const char *what)
{
    CHECK(cork_raw_array_size(a) == v->n, "%s: the size is %zu, expected %zu", what, cork_raw_array_size(a), v->n);
    CHECK(cork_array_size(a) == v->n, "%s: the size (macro) is %zu, expected %zu", what, cork_array_size(a), v->n);
    CHECK(cork_raw_array_is_empty(a) == (v->n == 0) && cork_array_is_empty(a) == (v->n == 0), "%s: is_empty is wrong for %zu elements", what, v->n);
    CHECK(cork_raw_array_element_size(a) == es, "%s: the element size is %zu, expected %zu", what, cork_raw_array_element_size(a), es);
    if (v->n == 0) return;
    const uint8_t *p = cork_raw_array_elements(a);
    for (size_t i = 0; i < v->n; i++) {
        CHECK(memcmp(p + i * es, v->d + i * es, es) == 0, "%s: element %zu of %zu is %s, expected %s", what, i, v->n, pbt_quote(p + i * es, es), pbt_quote(v->d + i * es, es));
        CHECK(cork_raw_array_at(a, i) == p + i * es, "%s: at(%zu) does not point to element %zu", what, i, i);
    }
    switch (kind) {
        case 1: { a16 *t = (a16 *) (void *) a; for (size_t i = 0; i < v->n; i++) { int16_t x; memcpy(&x, v->d + i * es, 2); CHECK(cork_array_at(t, i) == x, "at(%zu) macro", i); } break; }
        case 2: { a64 *t = (a64 *) (void *) a; for (size_t i = 0; i < v->n; i++) { uint64_t x; memcpy(&x, v->d + i * es, 8); CHECK(cork_array_at(t, i) == x && cork_array_elements(t)[i] == x, "at(%zu) macro", i); } break; }
        default: break;
    }
}

static void raw_case(void)
{
    static const size_t sizes[] = { 1, 2, 3, 4, 7, 8, 12, 16, 24, 33, 100, 1000 };
    unsigned kind = pbt_pick(5);
    struct cork_raw_array r[2]; a16 t16[2]; a64 t64[2]; abig tb[2]; a8 t8[2]; struct cork_raw_array *a[2]; vec v[2] = { { 0 } };
    size_t reserved[2] = { 0, 0 }; const void *base[2] = { 0, 0 };
    for (int i = 0; i < 2; i++) {
        switch (kind) {
            case 0: if (i == 0) es = sizes[pbt_pick(12)]; cork_raw_array_init(&r[i], es); a[i] = &r[i]; break;
            case 1: es = 2; cork_array_init(&t16[i]); a[i] = cork_array_to_raw(&t16[i]); break;
            case 2: es = 8; cork_array_init(&t64[i]); a[i] = cork_array_to_raw(&t64[i]); break;
            case 3: es = 40; cork_array_init(&tb[i]); a[i] = cork_array_to_raw(&tb[i]); break;
            default: es = 1; cork_array_init(&t8[i]); a[i] = cork_array_to_raw(&t8[i]); break;
        }
    }
    pbt_trace("arrays of %zu-byte elements (kind %u)", es, kind);
    enum { APPEND, APPEND_N, GET, WRITE, REMOVE, RANGE, CLEAR, ENSURE, COPY, COPYCB, N };
    uint64_t mask = pbt_swarm(N, 1 << APPEND); unsigned st = 0, ops = 0; size_t mx = 0; uint8_t e[1000]; bool failed = false;
    compare(kind, a[0], &v[0], "init");
    while (!failed && pbt_more(&st, 30, 300)) {
        int w = (int) pbt_pick(2); unsigned op = pbt_op(mask, N); struct cork_raw_array *x = a[w]; vec *m = &v[w]; ops++;
        switch (op) {
            case APPEND_N: case APPEND: {
                size_t n = op == APPEND ? 1 : pbt_size(1, 200); pbt_trace("append %zu to %d", n, w);
                while (n--) {
                    mkelem(e); vpush(m, e);
                    switch (kind) {
                        case 1: { int16_t z; memcpy(&z, e, 2); cork_array_append(&t16[w], z); break; }
                        case 2: { uint64_t z; memcpy(&z, e, 8); cork_array_append(&t64[w], z); break; }
                        case 3: { struct big z; memcpy(&z, e, 40); cork_array_append(&tb[w], z); break; }
                        case 4: { char z; memcpy(&z, e, 1); cork_array_append(&t8[w], z); break; }
                        default: { void *p = cork_raw_array_append(x); CHECK(p != NULL, "append returns NULL"); memcpy(p, e, es); break; }
                    }
                    if (reserved[w] >= m->n) CHECK(cork_raw_array_elements(x) == base[w], "the array moved while appending element %zu although %zu were reserved", m->n, reserved[w]);
                    else reserved[w] = 0;
                }
                break; }
            case GET: {
                pbt_trace("append_get on %d", w); mkelem(e);
                void *p = kind == 1 ? (void *) cork_array_append_get(&t16[w]) : kind == 2 ? (void *) cork_array_append_get(&t64[w]) : kind == 3 ? (void *) cork_array_append_get(&tb[w]) : kind == 4 ? (void *) cork_array_append_get(&t8[w]) : cork_raw_array_append(x);
                memcpy(p, e, es); vpush(m, e); if (reserved[w] < m->n) reserved[w] = 0; break; }
            case WRITE: if (m->n) { size_t i = pbt_uniform(0, m->n - 1); mkelem(e); pbt_trace("write element %zu of %d", i, w); memcpy(cork_raw_array_at(x, i), e, es); memcpy(m->d + i * es, e, es); } break;
            case REMOVE: if (m->n) { size_t i = pbt_uniform(0, m->n - 1); pbt_trace("remove %zu of %zu from %d", i, m->n, w); if (pbt_chance(1, 2)) cork_array_remove(x, i); else cork_raw_array_remove(x, i); if (i + 1 < m->n) pbt_label("remove from the middle"); vdel(m, i, 1); } break;
            case RANGE: { size_t i = pbt_uniform(0, m->n), c = pbt_uniform(0, m->n - i); if (i == m->n && !m->n) break; pbt_trace("remove_range %zu,%zu of %zu from %d", i, c, m->n, w); cork_array_remove_range(x, i, c); if (c > 1 && i + c < m->n) pbt_label("range from the middle"); vdel(m, i, c); break; }
            case CLEAR: if (pbt_chance(1, 3)) { pbt_trace("clear %d", w); cork_array_clear(x); m->n = 0; } break;
            case ENSURE: { size_t n = pbt_size(0, 500); pbt_trace("ensure_size %zu on %d", n, w); cork_array_ensure_size(x, n); if (n > reserved[w] || cork_raw_array_elements(x) != base[w]) { reserved[w] = n; base[w] = cork_raw_array_elements(x); } break; }
            case COPY: pbt_trace("copy %d over %d", 1 - w, w); CHECK(cork_array_copy(x, a[1 - w], NULL, NULL) == 0, "copy fails"); m->n = 0; for (size_t i = 0; i < v[1 - w].n; i++) vpush(m, v[1 - w].d + i * es); pbt_label("copy"); if (reserved[w] < m->n) reserved[w] = 0; break;
            case COPYCB: {
                copy_ud = &copies; copies = 0; copy_fail_at = pbt_chance(1, 8) && v[1 - w].n ? (int) pbt_uniform(0, v[1 - w].n - 1) : -1;
                pbt_trace("copy %d over %d with a callback (fails at %d)", 1 - w, w, copy_fail_at);
                int rc = cork_array_copy(x, a[1 - w], copy_cb, copy_ud);
                if (copy_fail_at >= 0) { CHECK(rc != 0, "copy succeeds although its callback failed"); CHECK(copies == copy_fail_at + 1, "copy goes on after its callback failed"); pbt_label("failing copy"); compare(kind, a[1 - w], &v[1 - w], "source of a failed copy"); failed = true; break; }
                CHECK(rc == 0 && copies == (int) v[1 - w].n, "copy called its callback %d times for %zu elements", copies, v[1 - w].n);
                m->n = 0; for (size_t i = 0; i < v[1 - w].n; i++) vpush(m, v[1 - w].d + i * es); if (reserved[w] < m->n) reserved[w] = 0; break; }
        }
        if (failed) break;
        if (m->n > mx) mx = m->n;
        compare(kind, a[0], &v[0], "after the operation"); compare(kind, a[1], &v[1], "after the operation");
    }
    cork_array_done(a[0]); cork_array_done(a[1]);
    raw_free(v[0].d); raw_free(v[1].d);
    if (mx > 64) pbt_label("more than 64 elements");
    if (ops >= 3 && mx >= 2) pbt_nontrivial();
}

static void string_case(void)
{
    struct cork_string_array a[2]; char **m[2]; size_t n[2] = { 0, 0 }; unsigned st = 0, ops = 0; size_t mx = 0;
    for (int i = 0; i < 2; i++) { cork_string_array_init(&a[i]); m[i] = raw_malloc(2000 * sizeof(char *)); }
    pbt_trace("string arrays"); pbt_label("string array");
    while (pbt_more(&st, 25, 150)) {
        int w = (int) pbt_pick(2); ops++;
        switch (pbt_pick(6)) {
            case 0: case 1: {
                size_t l = pbt_size(0, 300); char *s = raw_malloc(l + 1); for (size_t i = 0; i < l; i++) s[i] = (char) ('a' + (i + tag) % 26); tag++; s[l] = 0;
                pbt_trace("append a string of %zu bytes to %d", l, w); if (n[w] >= 1900) { raw_free(s); break; }
                cork_string_array_append(&a[w], s); m[w][n[w]++] = s;
                CHECK(cork_array_at(&a[w], n[w] - 1) != s, "the string array keeps the caller's string instead of a copy"); break; }
            case 2: if (n[w]) { size_t i = pbt_uniform(0, n[w] - 1), c = pbt_uniform(1, n[w] - i); pbt_trace("remove_range %zu,%zu of %d", i, c, w); if (c == 1) cork_array_remove(&a[w], i); else cork_array_remove_range(&a[w], i, c);
                        for (size_t j = 0; j < c; j++) raw_free(m[w][i + j]); memmove(m[w] + i, m[w] + i + c, (n[w] - i - c) * sizeof(char *)); n[w] -= c; } break;
            case 3: pbt_trace("copy %d over %d", 1 - w, w); cork_string_array_copy(&a[w], &a[1 - w]);
                    for (size_t j = 0; j < n[w]; j++) raw_free(m[w][j]); for (size_t j = 0; j < n[1 - w]; j++) m[w][j] = strdup(m[1 - w][j]); n[w] = n[1 - w];
                    for (size_t j = 0; j < n[w]; j++) CHECK(cork_array_at(&a[w], j) != cork_array_at(&a[1 - w], j), "the copied array shares string %zu with its source", j); break;
            case 4: if (pbt_chance(1, 4)) { pbt_trace("clear %d", w); cork_array_clear(&a[w]); for (size_t j = 0; j < n[w]; j++) raw_free(m[w][j]); n[w] = 0; } break;
            default: cork_array_ensure_size(&a[w], pbt_size(0, 100)); break;
        }
        for (int k = 0; k < 2; k++) {
            CHECK(cork_array_size(&a[k]) == n[k], "string array %d has %zu elements, expected %zu", k, cork_array_size(&a[k]), n[k]);
            for (size_t j = 0; j < n[k]; j++) CHECK(strcmp(cork_array_at(&a[k], j), m[k][j]) == 0, "string %zu is %s, expected %s", j, pbt_quote(cork_array_at(&a[k], j), strlen(cork_array_at(&a[k], j))), pbt_quote(m[k][j], strlen(m[k][j])));
        }
        if (n[w] > mx) mx = n[w];
    }
    for (int k = 0; k < 2; k++) { cork_array_done(&a[k]); for (size_t j = 0; j < n[k]; j++) raw_free(m[k][j]); raw_free(m[k]); }
    if (ops >= 3 && mx >= 2) pbt_nontrivial();
}
/* many elements, and elements of any size; 4-byte words identify element and position */
static void big_fill(uint8_t *p, size_t id) { for (size_t i = 0; i < es; i += 4) { uint32_t w = (uint32_t) (id * 2654435761u + i * 40503u + (i >> 8)); memcpy(p + i, &w, es - i < 4 ? es - i : 4); } }
static void big_check(struct cork_raw_array *a, const uint32_t *id, size_t n, const char *what)
{
    CHECK(cork_array_size(a) == n, "large array, after %s: the size is %zu, expected %zu", what, cork_array_size(a), n); if (!n) return;
    const uint8_t *p = cork_raw_array_elements(a); static uint8_t *e; static size_t cap; if (cap < es) { cap = es; e = raw_realloc(e, cap); }
    CHECK(acct_find(p) >= n * es, "large array, after %s: %zu elements of %zu bytes don't fit the storage", what, n, es);
    for (size_t i = 0; i < n; i++) { big_fill(e, id[i]); CHECK(memcmp(p + i * es, e, es) == 0, "large array, after %s: element %zu of %zu (%zu bytes each) is wrong", what, i, n, es); CHECK(cork_raw_array_at(a, i) == p + i * es, "large array: at(%zu) does not point to element %zu", i, i); }
}
static void big_case(void)
{
    es = pbt_chance(1, 3) ? pbt_u64(1, 300000) : pbt_size(1, 40); size_t max = (16u << 20) / es; if (max > 300000) max = 300000; unsigned st = 0; struct cork_raw_array a[2]; uint32_t *id[2]; size_t n[2] = { 0, 0 }; uint32_t next = 0; size_t reserved = 0; const void *base = NULL;
    for (int i = 0; i < 2; i++) { cork_raw_array_init(&a[i], es); id[i] = raw_malloc((max + 1) * 4); } pbt_trace("large arrays of %zu-byte elements", es);
    while (pbt_more(&st, 6, 12)) {
        int w = (int) pbt_pick(2); if (next == 0) w = 0; unsigned op = next == 0 ? 0 : pbt_pick(6); const char *what = "appending";
        switch (op) {
            case 0: case 1: { size_t k = pbt_u64(1, max); if (k > max - n[w]) k = max - n[w]; pbt_trace("append %zu to %d", k, w); for (size_t i = 0; i < k; i++) { void *p = cork_raw_array_append(&a[w]); big_fill(p, ++next); id[w][n[w]++] = next; if (w == 0 && reserved >= n[0]) CHECK(cork_raw_array_elements(&a[0]) == base, "a large array moved while appending element %zu although %zu were reserved", n[0], reserved); } break; }
            case 2: { size_t i = pbt_uniform(0, n[w]), c = pbt_chance(1, 2) ? pbt_uniform(0, n[w] - i) : pbt_size(0, n[w] - i); pbt_trace("remove_range %zu,%zu of %d", i, c, w); cork_array_remove_range(&a[w], i, c); memmove(id[w] + i, id[w] + i + c, (n[w] - i - c) * 4); n[w] -= c; what = "removing a range"; break; }
            case 3: pbt_trace("copy %d over %d", 1 - w, w); CHECK(cork_array_copy(&a[w], &a[1 - w], NULL, NULL) == 0, "copy fails"); memcpy(id[w], id[1 - w], n[1 - w] * 4); n[w] = n[1 - w]; what = "copying"; break;
            case 4: { size_t k = pbt_u64(0, max); pbt_trace("ensure_size %zu on %d", k, w); cork_array_ensure_size(&a[w], k); what = "ensure_size"; if (k && w == 0) { CHECK(acct_find(cork_raw_array_elements(&a[0])) >= k * es, "ensure_size(%zu) does not make room for %zu elements", k, k); reserved = k > reserved ? k : reserved; base = cork_raw_array_elements(&a[0]); } break; }
            default: if (pbt_chance(1, 3)) { pbt_trace("clear %d", w); cork_array_clear(&a[w]); n[w] = 0; what = "clearing"; } else if (n[w]) { size_t i = pbt_uniform(0, n[w] - 1); pbt_trace("remove %zu of %d", i, w); cork_array_remove(&a[w], i); memmove(id[w] + i, id[w] + i + 1, (n[w] - i - 1) * 4); n[w]--; what = "removing"; } break;
        }
        if (n[0] > reserved) { reserved = 0; base = NULL; } else if (reserved && w == 0) { if (op != 3 && op != 4) CHECK(cork_raw_array_elements(&a[0]) == base, "a large array moved although %zu elements were reserved", reserved); base = cork_raw_array_elements(&a[0]); }
        big_check(&a[0], id[0], n[0], what); big_check(&a[1], id[1], n[1], what); if (n[0] > 65536) pbt_label("more than 65536 elements");
    }
    for (int i = 0; i < 2; i++) { cork_array_done(&a[i]); raw_free(id[i]); } if (next > 1) pbt_nontrivial();
}
void pbt_init(void) { acct_install(); }
void pbt_case(void) { tag = 0; if (pbt_large(700)) big_case(); else if (pbt_chance(1, 4)) string_case(); else raw_case(); }
