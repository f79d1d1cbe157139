/* Slices over every kind of backing, against (pointer, length) models. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include <sys/mman.h>
#include "libcork/core.h"
#include "libcork/ds.h"
static bool is_empty(struct cork_slice *s) { bool e = cork_slice_is_empty(s); CHECK(!e || s->size == 0, "an empty slice has a size of %zu", s->size); return e; }
const char *pbt_rule = "a case is a pool of 8 slices over static, managed, copy-once, buffer and user-implemented backings and a random history of copy, copy_offset, light_copy, slice, slice_offset, advance, finish, equal with offsets and lengths from the whole size_t range (valid ones also through the _fast variants); contents, results, errors and untouched slices are checked after every operation; non-trivial: at least one successful and one rejected request";

enum bk { B_NONE, B_STATIC, B_MANAGED, B_ONCE, B_BUFFER, B_CUSTOM };
struct back { uint8_t *mem; size_t n; int users; bool freed; };   /* users: slices that may read mem itself */
static struct back bk[64]; static int nbk;
struct sl { struct cork_slice s; enum bk kind; uint8_t *want; size_t n; int b; int parent; int lights; bool direct; };
#define NS 8
static struct sl P[NS];

/* user-implemented slices */
static int cust_calls[4]; static bool cust_fail;
static struct cork_slice_iface cust;
static void chk(const struct cork_slice *s, size_t o, size_t l) { CHECK(o <= s->size && l <= s->size - o, "the slice implementation was asked for %zu:%zu of %zu bytes", o, l, s->size); }
static void cust_free(struct cork_slice *s) { cust_calls[0]++; CHECK(s->user_data == &cust, "free got a slice that is not its own"); }
static int cust_copy(struct cork_slice *d, const struct cork_slice *s, size_t o, size_t l) { chk(s, o, l); cust_calls[1]++; d->buf = (char *) s->buf + o; d->size = l; d->iface = &cust; d->user_data = s->user_data; return 0; }
static int cust_light(struct cork_slice *d, const struct cork_slice *s, size_t o, size_t l) { chk(s, o, l); cust_calls[2]++; d->buf = (char *) s->buf + o; d->size = l; d->iface = &cust; d->user_data = s->user_data; return 0; }
static int cust_slice(struct cork_slice *s, size_t o, size_t l) { chk(s, o, l); cust_calls[3]++; if (cust_fail) { cork_error_set_string(77, "refused"); return -1; } s->buf = (char *) s->buf + o; s->size = l; return 0; }
static struct cork_slice_iface cust = { cust_free, cust_copy, cust_light, cust_slice };

static void freer(void *buf, size_t n) { struct back *b = NULL; for (int i = 0; i < nbk; i++) if (bk[i].mem == buf) b = &bk[i]; CHECK(b && b->n == n, "the freer got another buffer or size"); CHECK(!b->freed, "the freer was called twice"); b->freed = true; memset(buf, 0xEE, n); }

static void compare(int i)
{
    if (P[i].kind == B_NONE) { CHECK(is_empty(&P[i].s), "a finished or cleared slice is not empty"); return; }
    CHECK(!is_empty(&P[i].s), "slice %d is empty", i);
    CHECK(P[i].s.size == P[i].n, "slice %d has %zu bytes, expected %zu", i, P[i].s.size, P[i].n);
    CHECK(memcmp(P[i].s.buf, P[i].want, P[i].n) == 0, "slice %d has the wrong content: %s, expected %s", i, pbt_quote(P[i].s.buf, P[i].n), pbt_quote(P[i].want, P[i].n));
}
static void setwant(int i, const uint8_t *w, size_t n) { uint8_t *o = P[i].want; P[i].want = raw_malloc(n); memcpy(P[i].want, w, n); P[i].n = n; raw_free(o); }
static void finish(int i)
{
    int cb = cust_calls[0]; bool cu = P[i].kind == B_CUSTOM;
    cork_slice_finish(&P[i].s);
    CHECK(cust_calls[0] == cb + (cu ? 1 : 0), "finish called the slice's free %d times", cust_calls[0] - cb);
    if (P[i].direct) { struct back *b = &bk[P[i].b]; if (--b->users == 0 && !b->freed) { memset(b->mem, 0xEE, b->n); b->freed = true; } }
    if (P[i].parent >= 0) P[P[i].parent].lights--;
    P[i].kind = B_NONE; P[i].parent = -1; P[i].lights = 0; P[i].direct = false; raw_free(P[i].want); P[i].want = NULL; P[i].n = 0;
}
static int free_slot(void) { for (int i = 0; i < NS; i++) if (P[i].kind == B_NONE) return i; for (int i = 0; i < NS; i++) if (P[i].lights == 0) { finish(i); return i; } return -1; }
static size_t bound(size_t n) { switch (pbt_pick(4)) { case 0: return pbt_uniform(0, n); case 1: return pbt_uniform(0, n + 2); case 2: return pbt_u64(0, UINT64_MAX); default: return (size_t) 0 - pbt_size(0, n + 3); } }
static size_t len_for(size_t n, size_t o) { switch (pbt_pick(5)) { case 0: return o <= n ? pbt_uniform(0, n - o) : 0; case 1: return pbt_uniform(0, n + 2); case 2: return pbt_u64(0, UINT64_MAX); case 3: return (size_t) 0 - o + pbt_uniform(0, n + 1); default: return (o <= n ? n - o : 0) + pbt_uniform(0, 2); } }

/* Slices of a region of several gigabytes, with a few marked places (the rest
 * is never touched). */
static size_t big_off(size_t n, const size_t *marks, unsigned nm)
{ switch (pbt_pick(4)) { case 0: { size_t o = marks[pbt_pick(nm)]; return o <= n ? o : 0; } case 1: return pbt_uniform(0, n); case 2: return n - pbt_uniform(0, n < 64 ? n : 64); default: return pbt_u64(0, UINT64_MAX); } }
static size_t big_freed;
static void big_freer(void *p, size_t n) { (void) p; big_freed = n; }
static void big_case(void)
{
    size_t total = pbt_u64((size_t) 1 << 31, (size_t) 9 << 30); uint8_t *m = mmap(NULL, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { pbt_label("no address space"); return; }
    size_t marks[24]; unsigned nm = (unsigned) pbt_uniform(3, 20);
    for (unsigned i = 0; i < nm; i++) { marks[i] = i < 4 ? ((size_t) 1 << (31 + i % 3)) + pbt_uniform(0, 40) - 20 : pbt_u64(0, total - 16); if (marks[i] > total - 16) marks[i] = total - 16 - i; memset(m + marks[i], (int) (1 + i), 16); }
    struct cork_slice s, d; unsigned kind = pbt_pick(3); struct cork_managed_buffer *mb = NULL; big_freed = SIZE_MAX;
    pbt_trace("a region of %zu bytes, kind %u, %u marks", total, kind, nm); pbt_label("gigabytes");
    if (kind == 0) cork_slice_init_static(&s, m, total); else if (kind == 1) cork_slice_init_copy_once(&s, m, total);
    else { mb = cork_managed_buffer_new(m, total, big_freer); CHECK(cork_managed_buffer_slice(&s, mb, 0, total) == 0, "a slice of a whole managed buffer is refused"); }
    size_t base = 0, n = total; unsigned st = 0;
    while (pbt_more(&st, 8, 40)) {
        size_t o = big_off(n, marks, nm), l; if (o <= n && pbt_chance(1, 2)) l = n - o; else l = pbt_chance(1, 2) ? big_off(n, marks, nm) : pbt_size(0, 4000);
        bool ok = o <= n && l <= n - o; unsigned op = pbt_pick(5); int rc; struct cork_slice *r = &d; cork_error_clear(); memset(&d, 0x5A, sizeof d);
        pbt_trace("operation %u at %zu:%zu of %zu:%zu", op, o, l, base, n);
        if (kind == 1 && op <= 1) op = 1;                       /* a copy would copy gigabytes */
        switch (op) {
            case 0: rc = cork_slice_copy(&d, &s, o, l); break;
            case 1: rc = cork_slice_light_copy(&d, &s, o, l); break;
            case 2: if (!mb) continue; rc = cork_managed_buffer_slice(&d, mb, o, l); ok = o <= total && l <= total - o; break;
            case 3: rc = cork_slice_slice(&s, o, l); r = &s; break;
            default: l = n - o; ok = o <= n; rc = cork_slice_advance_checked(&s, o) ? 0 : -1; r = &s; break;
        }
        CHECK((rc == 0) == ok, "slicing %zu bytes at %zu:%zu %s", op == 2 ? total : n, o, l, rc ? "fails" : "succeeds"); cork_error_clear();
        if (ok) {
            size_t at = (op == 2 ? 0 : base) + o; const uint8_t *p = r->buf; CHECK(r->size == l, "the slice of %zu:%zu has %zu bytes", o, l, r->size);
            for (unsigned i = 0; i < nm; i++) for (size_t k = 0; k < 16; k++) if (marks[i] + k >= at && marks[i] + k - at < l) CHECK(p[marks[i] + k - at] == m[marks[i] + k], "the slice at %zu:%zu shows other bytes than the region at %zu", at, l, marks[i] + k);
            if (l) CHECK(p[0] == m[at] && p[l - 1] == m[at + l - 1], "the slice at %zu:%zu shows other bytes at its ends", at, l);
            if (r == &d) { if (l != n && kind != 1) CHECK(!cork_slice_equal(&d, &s) && !cork_slice_equal(&s, &d), "slices of %zu and %zu bytes are equal", l, n); cork_slice_finish(&d); } else { base = at; n = l; }
        } else if (r == &d) CHECK(is_empty(&d), "a rejected slice is not empty");
    }
    CHECK(big_freed == SIZE_MAX, "the buffer was freed although it is referenced");
    cork_slice_finish(&s); if (mb) { cork_managed_buffer_unref(mb); CHECK(big_freed == total, "the freer got the size %zu, expected %zu", big_freed, total); }
    munmap(m, total); pbt_nontrivial();
}
/* There is nothing to take from no slice at all. */
static void null_case(void)
{
    struct cork_slice d; size_t o = pbt_size(0, 50), l = pbt_size(0, 50); int rc; cork_error_clear(); memset(&d, 0x5A, sizeof d); unsigned op = pbt_pick(9); pbt_trace("operation %u on NULL at %zu:%zu", op, o, l); pbt_label("no slice");
    switch (op) {
        case 0: rc = cork_slice_copy(&d, NULL, o, l); break; case 1: rc = cork_slice_copy_offset(&d, NULL, o); break;
        case 2: rc = cork_slice_light_copy(&d, NULL, o, l); break; case 3: rc = cork_slice_light_copy_offset(&d, NULL, o); break;
        case 4: rc = cork_managed_buffer_slice(&d, NULL, o, l); break; case 5: rc = cork_managed_buffer_slice_offset(&d, NULL, o); break;
        case 6: cork_slice_clear(&d); rc = cork_slice_slice(NULL, o, l); break; case 7: cork_slice_clear(&d); rc = cork_slice_slice_offset(NULL, o); break;
        default: cork_slice_clear(&d); rc = cork_slice_advance_checked(NULL, o) ? 0 : -1; break;
    }
    CHECK(rc != 0 && cork_error_occurred(), "slicing nothing returns %d, error %d", rc, cork_error_occurred()); cork_error_clear();
    CHECK(is_empty(&d), "a rejected slice of nothing is not empty"); cork_slice_finish(&d);
}
void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    if (pbt_large(40)) { big_case(); return; }
    if (pbt_chance(1, 60)) null_case();
    unsigned st = 0; unsigned good = 0, bad = 0; nbk = 0; memset(cust_calls, 0, sizeof cust_calls); cust_fail = false;
    for (int i = 0; i < NS; i++) { memset(&P[i], 0, sizeof P[i]); P[i].parent = -1; cork_slice_clear(&P[i].s); }
    cork_error_clear();
    while (pbt_more(&st, 30, 200)) {
        unsigned op = pbt_pick(10); int i = (int) pbt_pick(NS);
        if (op <= 1 || P[i].kind == B_NONE) {
            int d = free_slot(); if (d < 0 || nbk >= 60) continue;
            size_t n = pbt_chance(1, 150) ? pbt_uniform(60000, 140000) : pbt_size(0, 120); if (n > 120) pbt_label("more than 60000 bytes"); uint8_t *mem = raw_malloc(n); pbt_fill(mem, n, 1 + nbk); enum bk k = (enum bk) pbt_uniform(1, 5);
            int b = nbk++; bk[b] = (struct back) { mem, n, 0, false };
            pbt_trace("slice %d := new, kind %d, %zu bytes", d, k, n);
            switch (k) {
                case B_STATIC: cork_slice_init_static(&P[d].s, mem, n); P[d].direct = true; bk[b].users = 1; break;
                case B_ONCE: cork_slice_init_copy_once(&P[d].s, mem, n); P[d].direct = true; bk[b].users = 1; break;
                case B_CUSTOM: P[d].s.buf = mem; P[d].s.size = n; P[d].s.iface = &cust; P[d].s.user_data = &cust; P[d].direct = true; bk[b].users = 1; break;
                case B_BUFFER: { struct cork_buffer *cb = cork_buffer_new(); cork_buffer_set(cb, mem, n); CHECK(cork_buffer_to_slice(cb, &P[d].s) == 0, "cork_buffer_to_slice fails"); break; }
                default: {
                    struct cork_managed_buffer *mb; bool cp = pbt_chance(1, 2); mb = cp ? cork_managed_buffer_new_copy(mem, n) : cork_managed_buffer_new(mem, n, freer);
                    size_t o = bound(n), l = len_for(n, o); bool off = pbt_chance(1, 3); if (off) l = n - o;
                    bool ok = o <= n && l <= n - o; int rc;
                    P[d].kind = B_NONE; memset(&P[d].s, 0x5A, sizeof P[d].s); cork_error_clear();
                    rc = off ? cork_managed_buffer_slice_offset(&P[d].s, mb, o) : cork_managed_buffer_slice(&P[d].s, mb, o, l);
                    pbt_trace("  of the managed buffer at %zu:%zu -> %d", o, l, rc);
                    CHECK((rc == 0) == ok, "slicing a managed buffer of %zu bytes at %zu:%zu %s", n, o, l, rc == 0 ? "succeeds" : "fails");
                    CHECK(cork_error_occurred() == !ok, "slicing a managed buffer: error %s", ok ? "set although it succeeded" : "not set"); cork_error_clear();
                    cork_managed_buffer_unref(mb);
                    if (ok) { P[d].kind = k; P[d].b = b; setwant(d, mem + o, l); good++; if (cp) memset(mem, 0xEE, n); } else { bad++; cork_slice_finish(&P[d].s); CHECK(is_empty(&P[d].s), "a rejected slice is not empty after finish"); }
                    goto next; }
            }
            P[d].kind = k; P[d].b = b; setwant(d, mem, n);
        } else if (op <= 5) {
            int d = free_slot(); if (d < 0 || d == i || P[i].kind == B_NONE) continue;
            size_t n = P[i].n, o = bound(n), l = len_for(n, o); bool light = op >= 4, off = pbt_chance(1, 3); if (off) l = n - o;
            bool ok = o <= n && l <= n - o, fast = ok && pbt_chance(1, 3); int rc; int cc = cust_calls[1], cl = cust_calls[2];
            memset(&P[d].s, 0x5A, sizeof P[d].s); cork_error_clear();
            pbt_trace("slice %d := %s%s%s of slice %d (%zu bytes) at %zu:%zu", d, light ? "light_copy" : "copy", off ? "_offset" : "", fast ? "_fast" : "", i, n, o, l);
            if (light) rc = off ? (fast ? cork_slice_light_copy_offset_fast(&P[d].s, &P[i].s, o) : cork_slice_light_copy_offset(&P[d].s, &P[i].s, o)) : (fast ? cork_slice_light_copy_fast(&P[d].s, &P[i].s, o, l) : cork_slice_light_copy(&P[d].s, &P[i].s, o, l));
            else rc = off ? (fast ? cork_slice_copy_offset_fast(&P[d].s, &P[i].s, o) : cork_slice_copy_offset(&P[d].s, &P[i].s, o)) : (fast ? cork_slice_copy_fast(&P[d].s, &P[i].s, o, l) : cork_slice_copy(&P[d].s, &P[i].s, o, l));
            CHECK((rc == 0) == ok, "copying %zu:%zu of a slice of %zu bytes %s", o, l, n, rc == 0 ? "succeeds" : "fails");
            CHECK(cork_error_occurred() == !ok, "copying a slice: error %s", ok ? "set although it succeeded" : "not set");
            if (!ok) { CHECK(is_empty(&P[d].s), "a rejected copy leaves a slice that is not empty"); cork_slice_finish(&P[d].s); cork_slice_clear(&P[d].s); bad++; cork_error_clear(); }
            else {
                if (P[i].kind == B_CUSTOM) CHECK(cust_calls[1] - cc == !light && cust_calls[2] - cl == light, "the copy did not call the slice's own implementation");
                good++; pbt_label(light ? "light copy" : "copy");
                P[d].kind = P[i].kind; P[d].b = P[i].b;
                if (light) { P[d].parent = i; P[i].lights++; }
                /* who reads the original memory? */
                if (P[i].kind == B_STATIC || P[i].kind == B_CUSTOM || (P[i].kind == B_ONCE && light && P[i].direct)) { P[d].direct = true; bk[P[i].b].users++; }
                else P[d].direct = false;
                if (P[i].kind == B_ONCE && !light) { pbt_label("copy of a copy-once slice"); P[d].kind = B_MANAGED; }
                setwant(d, P[i].want + o, l);
            }
        } else if (op <= 8) {
            if (P[i].kind == B_NONE) continue;
            size_t n = P[i].n, o = bound(n), l = len_for(n, o); unsigned how = pbt_pick(3); if (how) l = n - o;
            bool ok = o <= n && l <= n - o, fast = ok && pbt_chance(1, 3); int rc; const void *buf0 = P[i].s.buf; const void *adv = NULL;
            cust_fail = P[i].kind == B_CUSTOM && pbt_chance(1, 10); bool want = ok && !cust_fail; int cs = cust_calls[3];
            cork_error_clear();
            pbt_trace("%s%s slice %d (%zu bytes) at %zu:%zu%s", how == 0 ? "slice" : how == 1 ? "slice_offset" : "advance", fast ? "_fast" : "", i, n, o, l, cust_fail ? " (implementation refuses)" : "");
            if (how == 0) rc = fast ? cork_slice_slice_fast(&P[i].s, o, l) : cork_slice_slice(&P[i].s, o, l);
            else if (how == 1) rc = fast ? cork_slice_slice_offset_fast(&P[i].s, o) : cork_slice_slice_offset(&P[i].s, o);
            else { adv = fast ? cork_slice_advance(&P[i].s, o) : cork_slice_advance_checked(&P[i].s, o); rc = adv ? 0 : -1; }
            CHECK((rc == 0) == want, "slicing a slice of %zu bytes to %zu:%zu %s", n, o, l, rc == 0 ? "succeeds" : "fails");
            CHECK(cork_error_occurred() == !want, "slicing: error %s", want ? "set although it succeeded" : "not set"); cork_error_clear();
            if (ok && P[i].kind == B_CUSTOM) CHECK(cust_calls[3] == cs + 1, "slicing did not call the slice's own implementation");
            if (want) { if (how == 2) CHECK(adv == buf0, "advance does not return the previous position"); setwant(i, P[i].want + o, l); good++; pbt_label("slice in place"); } else bad++;
            cust_fail = false;
        } else {
            if (P[i].kind == B_NONE || P[i].lights) continue;
            pbt_trace("finish slice %d", i); finish(i); pbt_label("finish");
        }
    next:
        for (int k = 0; k < NS; k++) compare(k);
        for (int a = 0; a < NS; a++) for (int b = 0; b < NS; b++) if (P[a].kind && P[b].kind) { bool eq = P[a].n == P[b].n && memcmp(P[a].want, P[b].want, P[a].n) == 0; CHECK(cork_slice_equal(&P[a].s, &P[b].s) == eq, "equal(%d,%d) is %d", a, b, !eq); if (eq && a != b && P[a].n) pbt_label("equal slices"); }
    }

    for (int r = 0; r < NS; r++) for (int i = 0; i < NS; i++) if (P[i].kind && P[i].lights == 0) finish(i);
    for (int b = 0; b < nbk; b++) raw_free(bk[b].mem);
    if (good && bad) pbt_nontrivial();
}
