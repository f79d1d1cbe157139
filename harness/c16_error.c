/* Error state: histories over several threads, each with its own model. */
#include "pbt.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include "libcork/core.h"
#include "libcork/helpers/errors.h"
#include "libcork/helpers/posix.h"
#include "acct.h"
const char *pbt_rule = "a case runs a random history of every error setting, prefixing, clearing and error-checking call on 1 to 4 threads in a generated interleaving, with messages from empty to tens of kilobytes, formats with several conversions, and parameters that refer to the current message; after every step the error state of the acting thread and of one other thread is compared with that thread's own model; non-trivial: at least two sets or prefixes on one thread and a message longer than 64 bytes, or two threads with errors at once";

typedef struct { bool occ, know; uint32_t code; char *msg; size_t len; } model;
enum { OP_NONE, SET_STRING, SET_PRINTF, SET_VPRINTF, SET_SELF, SET_DEPR, PRE_STRING, PRE_PRINTF, PRE_VPRINTF, PRE_SELF, PRE_DEPR, CLEAR, SYSTEM, SYSTEM_X, UNKNOWN, BUILTIN, PROPAGATE, POSIX, NOPS };
static const char *const opname[] = { "look", "set_string", "set_printf", "set_vprintf", "set with the current message", "cork_error_set", "prefix_string", "prefix_printf", "prefix_vprintf", "prefix with the current message", "cork_error_prefix", "clear", "system_error_set", "system_error_set_explicit", "unknown_error", "built-in", "error-checking macro", "posix checking macro" };
struct req { int op; uint32_t code, cls; const char *s, *t; int a; long long b; int which; bool fail; int intr;
             bool occ; uint32_t got; char *msg; int result; bool ptr_ok; };
struct th { pthread_t t; sem_t go, done; struct req r; bool quit; model m; unsigned sets; };

static void vset(uint32_t code, const char *f, ...) { va_list a; va_start(a, f); cork_error_set_vprintf(code, f, a); va_end(a); }
static void vpre(const char *f, ...) { va_list a; va_start(a, f); cork_error_prefix_vprintf(f, a); va_end(a); }

/* functions that propagate, one per macro; `after` tells whether they went on */
static struct req *Q; /* per call, only one thread acts at a time */
static int after;
static int ci(void) { if (!Q->fail) return 0; cork_error_set_printf(Q->code, "%s", Q->s); return Q->which & 1 ? -1 : -7; }
static void *cp(void) { if (!Q->fail) return &after; cork_error_set_printf(Q->code, "%s", Q->s); return NULL; }
static void ce(void) { if (Q->fail) cork_error_set_printf(Q->code, "%s", Q->s); }
static int f_rie(void) { rie_check(ce()); after++; return 0; }
static int f_rii(void) { rii_check(ci()); after++; return 0; }
static int f_rip(void) { rip_check(cp()); after++; return 0; }
static void *f_rpe(void) { rpe_check(ce()); after++; return &after; }
static void *f_rpi(void) { rpi_check(ci()); after++; return &after; }
static void *f_rpp(void) { rpp_check(cp()); after++; return &after; }
static int f_xe(void) { xe_check(42, ce()); after++; return 0; }
static int f_xi(void) { xi_check(42, ci()); after++; return 0; }
static int f_xp(void) { xp_check(42, cp()); after++; return 0; }
static int f_ee(void) { ee_check(ce()); after++; return 0; error: return 43; }
static int f_ei(void) { ei_check(ci()); after++; return 0; error: return 43; }
static int f_ep(void) { ep_check(cp()); after++; return 0; error: return 43; }
static int intr, calls;
static int pxi(void) { calls++; if (intr-- > 0) { errno = EINTR; return -1; } if (Q->fail) { errno = Q->a; return -1; } return 5; }
static void *pxp(void) { calls++; if (intr-- > 0) { errno = EINTR; return NULL; } if (Q->fail) { errno = Q->a; return NULL; } return &after; }
static int f_pei(void) { ei_check_posix(pxi()); after++; return 0; error: return 43; }
static int f_prii(void) { rii_check_posix(pxi()); after++; return 0; }
static void *f_prpi(void) { rpi_check_posix(pxi()); after++; return &after; }
static int f_pep(void) { ep_check_posix(pxp()); after++; return 0; error: return 43; }
static int f_prip(void) { rip_check_posix(pxp()); after++; return 0; }
static void *f_prpp(void) { rpp_check_posix(pxp()); after++; return &after; }

static void perform(struct req *r)
{
    Q = r; after = 0; calls = 0; intr = r->intr; r->ptr_ok = true;
    switch (r->op) {
        case SET_STRING: cork_error_set_string(r->code, r->s); break;
        case SET_PRINTF: cork_error_set_printf(r->code, "%s=%d:%lld%%%s", r->s, r->a, r->b, r->t); break;
        case SET_VPRINTF: vset(r->code, "%d %s [%*d] %s", r->a, r->s, 7, r->a, r->t); break;
        case SET_SELF: if (r->which == 0) cork_error_set_printf(r->code, "%s: %s %s", r->s, cork_error_message(), r->t); else if (r->which == 1) vset(r->code, "%s: %s %s", r->s, cork_error_message(), r->t); else if (r->which == 2) cork_error_set(0, r->code, "%s: %s %s", r->s, cork_error_message(), r->t); else cork_error_set_string(r->code, cork_error_message()); break;
        case SET_DEPR: cork_error_set(r->cls, r->code, "%s/%s", r->s, r->t); break;
        case PRE_STRING: cork_error_prefix_string(r->s); break;
        case PRE_PRINTF: cork_error_prefix_printf("%s %d: ", r->s, r->a); break;
        case PRE_VPRINTF: vpre("<%lld>%s", r->b, r->s); break;
        case PRE_SELF: if (r->which == 0) cork_error_prefix_printf("%s|", cork_error_message()); else if (r->which == 1) vpre("%s|", cork_error_message()); else if (r->which == 2) cork_error_prefix("%s|", cork_error_message()); else cork_error_prefix_string(cork_error_message()); break;
        case PRE_DEPR: cork_error_prefix("%s.%s", r->s, r->t); break;
        case CLEAR: cork_error_clear(); break;
        case SYSTEM: errno = r->a; cork_system_error_set(); break;
        case SYSTEM_X: errno = 0; cork_system_error_set_explicit(r->a); break;
        case UNKNOWN: cork_unknown_error(); break;
        case BUILTIN: if (r->which == 0) cork_parse_error("%s %d", r->s, r->a); else if (r->which == 1) cork_redefined("%s %d", r->s, r->a); else cork_undefined("%s %d", r->s, r->a); break;
        case PROPAGATE: case POSIX: {
            static void *(*const pf[])(void) = { f_rpe, f_rpi, f_rpp, f_prpi, f_prpp };
            static int (*const xf[])(void) = { f_rie, f_rii, f_rip, f_xe, f_xi, f_xp, f_ee, f_ei, f_ep };
            static int (*const qf[])(void) = { f_pei, f_prii, f_pep, f_prip };
            int w = r->which;
            if (r->op == PROPAGATE) { if (w < 9) r->result = xf[w](); else { void *p = pf[w - 9](); r->ptr_ok = p == (r->fail ? NULL : &after); r->result = 0; } }
            else { if (w < 4) r->result = qf[w](); else { void *p = pf[3 + w - 4](); r->ptr_ok = p == (r->fail ? NULL : &after); r->result = 0; } }
            break; }
    }
    r->occ = cork_error_occurred(); r->got = cork_error_code();
    r->msg = r->occ ? (char *) cork_error_message() : NULL;
}
static void *body(void *v)
{
    struct th *t = v;
    for (;;) { while (sem_wait(&t->go) != 0) { } if (t->quit) break; perform(&t->r); sem_post(&t->done); }
    return NULL;
}
static struct th T[4]; static unsigned nt; static bool used_main;
static void act(unsigned k) { if (k == 0) { perform(&T[0].r); return; } sem_post(&T[k].go); while (sem_wait(&T[k].done) != 0) { } }

static void m_set(model *m, uint32_t code, char *msg, size_t len) { raw_free(m->msg); m->occ = code != 0; m->know = true; m->code = code; m->msg = msg; m->len = len; }
static char *fmt(size_t *len, const char *f, ...)
{ va_list a; va_start(a, f); int n = vsnprintf(NULL, 0, f, a); va_end(a); char *p = raw_malloc(n + 1); va_start(a, f); vsnprintf(p, n + 1, f, a); va_end(a); *len = n; return p; }
static void compare(unsigned k, const char *what)
{
    struct th *t = &T[k]; struct req *r = &t->r; model *m = &t->m;
    CHECK(r->occ == m->occ, "thread %u after %s: cork_error_occurred is %d, expected %d", k, what, r->occ, m->occ);
    CHECK(r->got == (m->occ ? m->code : 0), "thread %u after %s: the error code is %#x, expected %#x", k, what, r->got, m->occ ? m->code : 0);
    if (m->occ && m->know) {
        CHECK(r->msg, "thread %u after %s: no message", k, what);
        size_t n = strlen(r->msg);
        CHECK(n == m->len && memcmp(n ? r->msg : "", m->len ? m->msg : "", n) == 0, "thread %u after %s: the message is %s (%zu bytes), expected %s (%zu bytes)", k, what, pbt_quote(r->msg, n), n, pbt_quote(m->msg, m->len), m->len);
    }
}
void pbt_init(void) { acct_install(); acct_check_leaks = false; }
static uint32_t gen_code(void) { switch (pbt_pick(3)) { case 0: return (uint32_t) pbt_u64(1, 200); case 1: return (uint32_t) pbt_u64(1, UINT32_MAX); default: { static const uint32_t c[] = { CORK_PARSE_ERROR, CORK_REDEFINED, CORK_UNDEFINED, CORK_UNKNOWN_ERROR, 1, 0xffffffff, 0x80000000 }; return c[pbt_pick(7)]; } } }
static char *gen_text(char *buf, size_t cap)
{
    size_t n = pbt_size(0, pbt_chance(1, 20) ? cap - 1 : 300); unsigned mode = pbt_pick(3);
    if (mode == 0) { static const char al[] = "abcxyz%%%snd$1*. :\n"; pbt_bytes((uint8_t *) buf, n > 40 ? 40 : n, al, sizeof al - 1); n = n > 40 ? 40 : n; }
    else { pbt_fill(buf, n, pbt_u64(0, 1000)); for (size_t i = 0; i < n; i++) if (!buf[i]) buf[i] = '%'; }
    buf[n] = 0; return buf;
}
void pbt_case(void)
{
    static char bs[400000], bt[400000]; size_t cap = pbt_large(60) ? sizeof bs : 40000; if (cap > 40000) pbt_label("messages of up to 400000 bytes");
    unsigned want = pbt_chance(1, 2) ? 1 : (unsigned) pbt_uniform(1, 4);
    nt = want; memset(T, 0, sizeof T);
    for (unsigned k = 1; k < nt; k++) { sem_init(&T[k].go, 0, 0); sem_init(&T[k].done, 0, 0); if (pthread_create(&T[k].t, NULL, body, &T[k])) abort(); }
    cork_error_clear(); /* the main thread's state outlives the case */
    uint64_t mask = pbt_swarm(NOPS, 1ull << SET_STRING | 1ull << PRE_STRING); unsigned st = 0; bool longmsg = false, two = false; unsigned most = 0;
    while (pbt_more(&st, 16, 100)) {
        pbt_mark();
        unsigned k = (unsigned) pbt_pick(nt); struct th *t = &T[k]; struct req *r = &t->r; model *m = &t->m; memset(r, 0, sizeof *r);
        unsigned op = pbt_op(mask, NOPS); if (op == SET_SELF && !(m->occ && m->know && m->len < 500000)) op = SET_PRINTF;
        if (op == PRE_SELF && !(m->occ && m->know && m->len < 500000)) op = PRE_PRINTF;
        r->op = op; r->code = gen_code(); r->s = gen_text(bs, cap); r->t = op == OP_NONE ? "" : gen_text(bt, cap); r->a = (int) pbt_u64(1, 133); r->b = (long long) pbt_u64(0, UINT64_MAX);
        size_t n; char *e; const char *cur = m->msg ? m->msg : "";
        bool had = m->occ;
        switch (op) {
            case SET_STRING: e = fmt(&n, "%s", r->s); m_set(m, r->code, e, n); t->sets++; break;
            case SET_PRINTF: e = fmt(&n, "%s=%d:%lld%%%s", r->s, r->a, r->b, r->t); m_set(m, r->code, e, n); t->sets++; break;
            case SET_VPRINTF: e = fmt(&n, "%d %s [%*d] %s", r->a, r->s, 7, r->a, r->t); m_set(m, r->code, e, n); t->sets++; break;
            case SET_SELF: r->which = (int) pbt_pick(4); e = r->which < 3 ? fmt(&n, "%s: %s %s", r->s, cur, r->t) : fmt(&n, "%s", cur); m_set(m, r->code, e, n); t->sets++; break;
            case SET_DEPR: r->cls = gen_code(); if (r->cls + r->code == 0) r->cls++; e = fmt(&n, "%s/%s", r->s, r->t); m_set(m, r->cls + r->code, e, n); t->sets++; break;
            case PRE_STRING: e = fmt(&n, "%s%s", r->s, cur); goto pre;
            case PRE_PRINTF: e = fmt(&n, "%s %d: %s", r->s, r->a, cur); goto pre;
            case PRE_VPRINTF: e = fmt(&n, "<%lld>%s%s", r->b, r->s, cur); goto pre;
            case PRE_SELF: r->which = (int) pbt_pick(4); e = fmt(&n, r->which < 3 ? "%s|%s" : "%s%s", cur, cur); goto pre;
            case PRE_DEPR: e = fmt(&n, "%s.%s%s", r->s, r->t, cur);
            pre: raw_free(m->msg); m->msg = e; m->len = n; m->know = had && m->know; t->sets++; break;
            case CLEAR: m->occ = false; m->know = false; break;
            case SYSTEM: case SYSTEM_X: e = fmt(&n, "%s", strerror(r->a)); m_set(m, (uint32_t) r->a, e, n); break;
            case UNKNOWN: e = fmt(&n, "Unknown error in perform"); m_set(m, CORK_UNKNOWN_ERROR, e, n); break;
            case BUILTIN: r->which = (int) pbt_pick(3); e = fmt(&n, "%s %d", r->s, r->a); m_set(m, r->which == 0 ? CORK_PARSE_ERROR : r->which == 1 ? CORK_REDEFINED : CORK_UNDEFINED, e, n); break;
            case PROPAGATE: r->which = (int) pbt_pick(12); r->fail = pbt_chance(1, 2);
                if (m->occ && (r->which == 0 || r->which == 3 || r->which == 6 || r->which == 9)) r->fail = true;
                if (r->fail) { e = fmt(&n, "%s", r->s); m_set(m, r->code, e, n); } break;
            case POSIX: r->which = (int) pbt_pick(6); r->fail = pbt_chance(1, 2); r->intr = (int) pbt_size(0, 3); if (r->a == EINTR) r->a = EIO; if (r->fail) { e = fmt(&n, "%s", strerror(r->a)); m_set(m, (uint32_t) r->a, e, n); } break;
        }
        pbt_trace("thread %u: %s code=%#x s=%s t=%s a=%d which=%d fail=%d intr=%d\n", k, opname[op], r->code, pbt_quote(r->s, strlen(r->s)), pbt_quote(r->t, strlen(r->t)), r->a, r->which, r->fail, r->intr);
        pbt_label(opname[op]);
        int in = r->intr; act(k); compare(k, opname[op]);
        if (op == PROPAGATE || op == POSIX) {
            static const int pr[] = { -1, -1, -1, 42, 42, 42, 43, 43, 43, 0, 0, 0 }, qr[] = { 43, -1, 43, -1, 0, 0 };
            int want_r = !r->fail ? 0 : op == PROPAGATE ? pr[r->which] : qr[r->which];
            if (op == PROPAGATE && r->fail && r->which == 1) want_r = -1;  /* the callee's own result */
            bool ok = r->ptr_ok && r->result == want_r;
            CHECK(ok, "checking macro %d (%s) with a call that %s returned %d, expected %d", r->which, opname[op], r->fail ? "fails" : "succeeds", r->result, want_r);
            CHECK((after == 1) == !r->fail, "checking macro %d (%s) %s after a call that %s", r->which, opname[op], after ? "went on" : "left", r->fail ? "failed" : "succeeded");
            if (op == POSIX) CHECK(calls == in + 1, "an interrupted call was made %d times, expected %d", calls, in + 1);
        }
        if (m->occ && m->len > 64) longmsg = true;
        if (t->sets > most) most = t->sets;
        if (nt > 1) {
            unsigned o = (unsigned) pbt_pick(nt); if (o != k) { if (T[o].m.occ && m->occ) two = true; memset(&T[o].r, 0, sizeof *r); act(o); compare(o, "an operation of another thread"); }
        }
    }
    for (unsigned k = 1; k < nt; k++) { T[k].quit = true; sem_post(&T[k].go); pthread_join(T[k].t, NULL); sem_destroy(&T[k].go); sem_destroy(&T[k].done); }
    for (unsigned k = 0; k < nt; k++) raw_free(T[k].m.msg);
    if (nt > 1) pbt_label("several threads"); if (longmsg) pbt_label("message longer than 64 bytes"); if (two) pbt_label("two threads with errors at once");
    if ((most >= 2 && longmsg) || two) pbt_nontrivial();
}
