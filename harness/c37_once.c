/* Once blocks, atomic operations and shared references under generated schedules. */
#include "pbt.h"
#include "schedule.h"
#include "acct.h"
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/ds.h"
#include "libcork/threads.h"
const char *pbt_rule = "a case runs 2 to 5 threads, each with up to 6 operations on shared once barriers (plain, nested in one another, recursive, several call sites for one barrier), shared int, unsigned, size and pointer variables changed by every atomic operation, and shared managed buffers and slices, under a recorded schedule that can switch at every memory access; atomic results are checked for a sequential order that explains them (linearizability, by exhaustive search); non-trivial: at least 3 switches happened and two threads used the same object";
#define STILL __attribute__((no_sanitize("thread"), noinline))
#define MAXT 5
#define MAXOP 6
enum { ONCE, ATOMIC, MBUF, NKIND };
struct op { int kind, obj, fn; uint64_t a, b; };
struct thread { int idx; pthread_t p; struct op ops[MAXOP]; int nops; int refs[3]; struct cork_slice sl[3]; bool has_sl[3]; } TH[MAXT];
static int nt;
static uint64_t clk; STILL static uint64_t tick(void) { return ++clk; }

/*---- once ----*/
cork_once_barrier(p0); cork_once_barrier(p1); cork_once_barrier(p2); cork_once_barrier(r0); cork_once_barrier(r1);
static struct blk { int execs, complete, owner; char data[24]; } K[5];
static int depth, nested_plan[5], reenter[5];
static void once_call(int k);
STILL static void enter_init(int k, int site) { (void) site; CHECK(K[k].execs == 0, "the once block %d runs a second time", k); K[k].execs++; K[k].owner = sched_self(); }
STILL static void leave_init(int k) { K[k].complete = 1; }
static void init(int k, int site)
{
    enter_init(k, site);
    for (unsigned i = 0; i < 8; i++) K[k].data[i] = (char) (k + 1);
    if (nested_plan[k] > k && nested_plan[k] < 5) once_call(nested_plan[k]);
    for (unsigned i = 8; i < 24; i++) K[k].data[i] = (char) (k + 1);
    for (int i = 0; i < reenter[k] && k >= 3; i++) once_call(k);
    leave_init(k);
}
STILL static void returned(int k)
{
    CHECK(K[k].execs == 1, "a caller of the once block %d goes on, and it ran %d times", k, K[k].execs);
    if (!K[k].complete) CHECK(k >= 3 && K[k].owner == sched_self(), "a caller of the once block %d (thread %d) goes on before thread %d has completed it", k, sched_self(), K[k].owner);
    else for (int i = 0; i < 24; i++) CHECK(K[k].data[i] == k + 1, "harness: once data");
}
static void once_call(int k)
{
    switch (k) {
        case 0: cork_once(p0, init(0, 0)); break;
        case 1: cork_once(p1, init(1, 0)); break;
        case 2: cork_once(p2, init(2, 0)); break;
        case 3: cork_once_recursive(r0, init(3, 0)); break;
        case 4: cork_once_recursive(r1, init(4, 0)); break;
    }
    returned(k);
}
static void once_other_site(int k)
{
    switch (k) {
        case 0: cork_once(p0, init(0, 1)); break;
        case 1: cork_once(p1, { init(1, 1); }); break;
        case 2: cork_once(p2, if (K[2].execs >= 0) init(2, 1)); break;
        case 3: cork_once_recursive(r0, init(3, 1)); break;
        case 4: cork_once_recursive(r1, init(4, 1)); break;
    }
    returned(k);
}

/*---- atomics ----*/
enum { V_INT, V_UINT, V_SIZE, V_PTR, NV };
enum { ADD, PRE_ADD, SUB, PRE_SUB, CAS, NF };
static const char *const fname[] = { "atomic_add", "atomic_pre_add", "atomic_sub", "atomic_pre_sub", "cas" }, *const vname[] = { "int", "uint", "size", "ptr" };
static volatile int vi; static volatile unsigned vu; static volatile size_t vs; static char *volatile vp; static uint64_t start_v[NV];
struct ev { int var, fn; uint64_t a, b, ret, t0, t1; int th; } H[MAXT * MAXOP]; static int nh;
STILL static void note(struct ev e) { e.t1 = tick(); H[nh++] = e; }
static void atomic(struct thread *t, struct op *o)
{
    struct ev e = { o->obj, o->fn, o->a, o->b, 0, tick(), 0, t->idx };
    switch (o->obj) {
#define OPS(T, name, v) switch (o->fn) { case ADD: e.ret = (uint64_t) name##_atomic_add(&v, (T) o->a); break; case PRE_ADD: e.ret = (uint64_t) name##_atomic_pre_add(&v, (T) o->a); break; \
            case SUB: e.ret = (uint64_t) name##_atomic_sub(&v, (T) o->a); break; case PRE_SUB: e.ret = (uint64_t) name##_atomic_pre_sub(&v, (T) o->a); break; \
            default: e.ret = (uint64_t) name##_cas(&v, (T) o->a, (T) o->b); break; } break
        case V_INT: OPS(int, cork_int, vi);
        case V_UINT: OPS(unsigned, cork_uint, vu);
        case V_SIZE: OPS(size_t, cork_size, vs);
        default: e.fn = CAS; e.ret = (uint64_t) (uintptr_t) cork_ptr_cas(&vp, (char *) (uintptr_t) o->a, (char *) (uintptr_t) o->b); break;
    }
    note(e);
}
static uint64_t norm(int var, uint64_t x) { return var == V_INT ? (uint64_t) (int) x : var == V_UINT ? (unsigned) x : x; }
static bool explain(int var, uint64_t v, uint64_t left, uint64_t final)
{
    if (left == 0) return norm(var, v) == norm(var, final);
    uint64_t first_end = UINT64_MAX;
    for (int i = 0; i < nh; i++) if (left >> i & 1 && H[i].t1 < first_end) first_end = H[i].t1;
    for (int i = 0; i < nh; i++) {
        if (!(left >> i & 1) || H[i].t0 > first_end) continue;
        uint64_t nv = v, ret = v;
        switch (H[i].fn) { case ADD: nv = norm(var, v + H[i].a); ret = nv; break; case PRE_ADD: nv = norm(var, v + H[i].a); break; case SUB: nv = norm(var, v - H[i].a); ret = nv; break;
                           case PRE_SUB: nv = norm(var, v - H[i].a); break; default: if (norm(var, v) == norm(var, H[i].a)) nv = norm(var, H[i].b); }
        if (norm(var, ret) != norm(var, H[i].ret)) continue;
        if (explain(var, nv, left & ~(1ull << i), final)) return true;
    }
    return false;
}

/*---- managed buffers ----*/
#define NM 3
static struct { struct cork_managed_buffer *m; char *mem; int freed, refs; size_t n; } M[NM]; static int nm;
STILL static void mfree(void *buf, size_t n)
{
    for (int i = 0; i < nm; i++) if (M[i].mem == buf) {
        CHECK(M[i].freed == 0, "managed buffer %d is freed twice", i); CHECK(n == M[i].n, "managed buffer %d is freed with size %zu, it has %zu", i, n, M[i].n);
        CHECK(M[i].refs == 0, "managed buffer %d is freed, and %d references to it are left", i, M[i].refs);
        M[i].freed++; return; }
    pbt_fail("an unknown managed buffer is freed");
}
STILL static void refs(int i, int d) { M[i].refs += d; }
STILL static void intact(int i, const char *buf, size_t n)
{
    CHECK(!M[i].freed, "managed buffer %d is freed while a thread holds a reference", i);
    for (size_t k = 0; k < n; k++) CHECK(buf[k] == (char) ('A' + i), "managed buffer %d: content changed", i);
}
static void mbuf(struct thread *t, struct op *o)
{
    int i = o->obj % nm;
    switch (o->fn) {
        case 0: if (t->refs[i]) { refs(i, 1); struct cork_managed_buffer *m = cork_managed_buffer_ref(M[i].m); CHECK(m == M[i].m, "ref returns another buffer"); t->refs[i]++; } break;
        case 1: if (t->refs[i]) { t->refs[i]--; refs(i, -1); cork_managed_buffer_unref(M[i].m); } break;
        case 2: if (t->refs[i] && !t->has_sl[i]) { refs(i, 1); int rc = cork_managed_buffer_slice(&t->sl[i], M[i].m, 0, M[i].n); CHECK(rc == 0, "slice refused"); t->has_sl[i] = true; } break;
        case 3: if (t->has_sl[i]) { struct cork_slice d; refs(i, 1); int rc = cork_slice_copy(&d, &t->sl[i], 0, M[i].n); CHECK(rc == 0, "copy refused"); intact(i, d.buf, d.size); refs(i, -1); cork_slice_finish(&d); } break;
        default: if (t->has_sl[i]) { t->has_sl[i] = false; refs(i, -1); cork_slice_finish(&t->sl[i]); } break;
    }
    if (t->refs[i]) intact(i, M[i].m->buf, M[i].m->size);
    if (t->has_sl[i]) intact(i, t->sl[i].buf, t->sl[i].size);
}
static void *body(void *v)
{
    struct thread *t = v;
    for (int k = 0; k < t->nops; k++) switch (t->ops[k].kind) {
        case ONCE: if (t->ops[k].fn) once_other_site(t->ops[k].obj); else once_call(t->ops[k].obj); break;
        case ATOMIC: atomic(t, &t->ops[k]); break;
        case MBUF: mbuf(t, &t->ops[k]); break;
    }
    for (int i = 0; i < nm; i++) {
        if (t->has_sl[i]) { struct op o = { MBUF, i, 4 }; mbuf(t, &o); }
        while (t->refs[i]) { struct op o = { MBUF, i, 1 }; mbuf(t, &o); }
    }
    return NULL;
}
static uint64_t value(int var)
{
    static const uint64_t near[] = { 0, 1, 2, 3, (uint64_t) -1, (uint64_t) -2, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull };
    if (var == V_PTR) return 16 * pbt_uniform(0, 3);
    return pbt_chance(1, 6) ? pbt_u64(0, UINT64_MAX) : near[pbt_pick(pbt_chance(1, 2) ? 3 : 11)];
}
void pbt_init(void) { acct_install(); cork_current_thread_get_id(); cork_error_clear(); }
void pbt_case(void)
{
    memset(TH, 0, sizeof TH); memset(K, 0, sizeof K); memset(M, 0, sizeof M); nh = 0; clk = 0;
    memset((void *) &p0__once, 0, sizeof p0__once); memset((void *) &p1__once, 0, sizeof p1__once); memset((void *) &p2__once, 0, sizeof p2__once);
    memset((void *) &r0__once, 0, sizeof r0__once); memset((void *) &r1__once, 0, sizeof r1__once);
    nt = 2 + (int) pbt_size(0, MAXT - 2); nm = 1 + (int) pbt_uniform(0, NM - 1);
    uint64_t kinds = pbt_swarm(NKIND, 0); unsigned nobj = 1 + (unsigned) pbt_uniform(0, 3);
    for (int k = 0; k < 5; k++) { nested_plan[k] = (int) pbt_uniform(0, 9); reenter[k] = (int) pbt_uniform(0, 2); }
    for (int v = 0; v < NV; v++) start_v[v] = value(v);
    vi = (int) start_v[V_INT]; vu = (unsigned) start_v[V_UINT]; vs = start_v[V_SIZE]; vp = (char *) (uintptr_t) start_v[V_PTR];
    int kind_users[NKIND][8] = { { 0 } }; bool shared = false;
    for (int i = 0; i < nt; i++) {
        struct thread *t = &TH[i]; t->idx = i; t->nops = 1 + (int) pbt_size(0, MAXOP - 1); pbt_mark();
        for (int k = 0; k < t->nops; k++) {
            struct op *o = &t->ops[k]; o->kind = (int) pbt_op(kinds, NKIND);
            switch (o->kind) {
                case ONCE: o->obj = (int) (pbt_uniform(0, nobj) + pbt_uniform(0, 1) * 3) % 5; o->fn = (int) pbt_uniform(0, 1); pbt_trace("thread %d: once block %d%s", i, o->obj, o->fn ? ", second call site" : ""); break;
                case ATOMIC: o->obj = (int) pbt_uniform(0, nobj < NV ? nobj - 1 : NV - 1); o->fn = o->obj == V_PTR ? CAS : (int) pbt_uniform(0, NF - 1); o->a = value(o->obj); o->b = value(o->obj);
                    if (o->fn == CAS && pbt_chance(1, 2)) o->a = start_v[o->obj];
                    pbt_trace("thread %d: %s %s(%llu, %llu)", i, vname[o->obj], fname[o->fn], (unsigned long long) o->a, (unsigned long long) o->b); break;
                case MBUF: o->obj = (int) pbt_uniform(0, NM - 1); o->fn = (int) pbt_uniform(0, 4); pbt_trace("thread %d: managed buffer %d, %s", i, o->obj % nm, (const char *[]) { "ref", "unref", "slice", "copy slice", "finish slice" }[o->fn]); break;
            }
            int slot = o->kind == MBUF ? o->obj % nm : o->obj;
            if (kind_users[o->kind][slot] && kind_users[o->kind][slot] != i + 1) shared = true;
            kind_users[o->kind][slot] = i + 1;
        }
    }
    for (int i = 0; i < nm; i++) {
        M[i].n = 8; bool copy = pbt_chance(1, 3);
        M[i].mem = raw_malloc(8); memset(M[i].mem, 'A' + i, 8);
        M[i].m = copy ? cork_managed_buffer_new_copy(M[i].mem, 8) : cork_managed_buffer_new(M[i].mem, 8, mfree);
        if (copy) { raw_free(M[i].mem); M[i].mem = NULL; }
        /* the creator's reference goes to thread 0, one more to every other thread */
        for (int t = 0; t < nt; t++) { if (t) cork_managed_buffer_ref(M[i].m); TH[t].refs[i] = 1; }
        M[i].refs = nt;
    }
    unsigned long s0 = sched_switches;
    sched_begin((unsigned) pbt_uniform(0, SCHED_STYLES - 1));
    for (int i = 0; i < nt; i++) if (pthread_create(&TH[i].p, NULL, body, &TH[i]) != 0) _exit(103);
    for (int i = 0; i < nt; i++) pthread_join(TH[i].p, NULL);
    sched_end();
    for (int k = 0; k < 5; k++) CHECK(K[k].execs <= 1 && K[k].execs == K[k].complete, "the once block %d ran %d times, completed %d times", k, K[k].execs, K[k].complete);
    uint64_t fin[NV] = { (uint64_t) vi, vu, vs, (uint64_t) (uintptr_t) vp };
    for (int v = 0; v < NV; v++) {
        uint64_t m = 0; for (int i = 0; i < nh; i++) if (H[i].var == v) m |= 1ull << i;
        if (!explain(v, norm(v, start_v[v]), m, fin[v])) {
            char buf[3000]; int o = 0;
            for (int i = 0; i < nh && o < 2800; i++) if (H[i].var == v) o += snprintf(buf + o, sizeof buf - (size_t) o, "; thread %d %s(%lld, %lld) = %lld [%llu..%llu]", H[i].th, fname[H[i].fn], (long long) norm(v, H[i].a), (long long) norm(v, H[i].b), (long long) norm(v, H[i].ret), (unsigned long long) H[i].t0, (unsigned long long) H[i].t1);
            buf[o] = 0;
            pbt_fail("no sequential order explains the %s variable: it starts as %lld, ends as %lld%s", vname[v], (long long) norm(v, start_v[v]), (long long) norm(v, fin[v]), buf);
        }
        if (m & (m - 1)) pbt_label("several atomic operations on one variable");
    }
    for (int i = 0; i < nm; i++) {
        CHECK(M[i].refs == 0, "harness: references");
        if (M[i].mem) { CHECK(M[i].freed == 1, "all references to managed buffer %d are gone, and it was freed %d times", i, M[i].freed); raw_free(M[i].mem); }
        else CHECK(!acct_known(M[i].m, NULL), "all references to copied managed buffer %d are gone, and it is still allocated", i);
    }
    pbt_count("switches", sched_switches - s0);
    for (int k = 0; k < 5; k++) if (K[k].execs) pbt_label(k < 3 ? "once" : "recursive once");
    if (sched_switches - s0 >= 3 && shared) pbt_nontrivial();
}
