/* Garbage-collected object graphs against reachability. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include <pthread.h>
#include "libcork/core.h"
#include "libcork/helpers/gc.h"
const char *pbt_rule = "a case is a random history over garbage-collected objects with up to 5 reference slots (leaf classes and classes without callbacks included): create, share, link, unlink, drop, build rings/chains/cliques/grids, and bursts that buffer up to 2500 candidate roots; every free callback is checked against reachability computed on a model graph, live contents are checked after every step, and everything must be gone after cork_gc_done; non-trivial: a garbage cycle was created, or more than 1024 candidate roots were buffered";

#define MAXN 12000
#define NS 5
struct node { uint64_t magic; uint32_t id; uint8_t n; struct node *kid[NS]; };
static struct node *obj[MAXN]; static uint8_t nsl[MAXN], kind[MAXN]; static int kid[MAXN][NS]; static uint32_t ext[MAXN];
static uint8_t freed[MAXN], reach[MAXN]; static int nn; static int reachlist[MAXN], nreach; static const char *cur_op;
#define MAGIC(i) (0xFEED0000C0DEull * ((i) + 3))
static void node_free(void *o)
{
    struct node *s = o; CHECK(s->id < (uint32_t) nn && s->magic == MAGIC(s->id), "%s: the free callback got something that is not a live object", cur_op);
    int i = (int) s->id; CHECK(obj[i] == s, "%s: the free callback got the wrong object", cur_op); CHECK(!freed[i], "%s: object %d is freed twice", cur_op, i);
    CHECK(!reach[i], "%s: object %d is freed although the program can still reach it", cur_op, i); freed[i] = 1;
}
static void node_recurse(struct cork_gc *gc, void *o, cork_gc_recurser f, void *ud)
{ struct node *s = o; CHECK(s->id < (uint32_t) nn && obj[s->id] == s, "%s: the recurse callback got something that is not an object", cur_op); CHECK(!freed[s->id], "%s: the recurse callback got a freed object", cur_op); for (int k = 0; k < s->n; k++) f(gc, s->kid[k], ud); }
static struct cork_gc_obj_iface I[4] = { { node_free, node_recurse }, { NULL, node_recurse }, { node_free, NULL }, { NULL, NULL } };
_free_(node) { node_free(obj); }
_recurse_(node) { node_recurse(gc, obj, recurse, ud); }
_gc_(node);

static void compute(void)
{
    static int stk[MAXN * NS]; int sp = 0; memset(reach, 0, nn); nreach = 0;
    for (int i = 0; i < nn; i++) if (ext[i] && !reach[i]) { reach[i] = 1; stk[sp++] = i;
        while (sp) { int j = stk[--sp]; reachlist[nreach++] = j; for (int k = 0; k < nsl[j]; k++) { int c = kid[j][k]; if (c >= 0 && !reach[c]) { reach[c] = 1; stk[sp++] = c; } } } }
}
static void verify(void)
{
    for (int r = 0; r < nreach; r++) { int i = reachlist[r]; struct node *s = obj[i];
        CHECK(!freed[i], "%s: reachable object %d was freed", cur_op, i); CHECK(s->magic == MAGIC(i) && s->id == (uint32_t) i && s->n == nsl[i], "%s: the content of reachable object %d changed", cur_op, i);
        for (int k = 0; k < nsl[i]; k++) CHECK(s->kid[k] == (kid[i][k] < 0 ? NULL : obj[kid[i][k]]), "%s: a reference in object %d changed", cur_op, i); }
}
static int mk(int slots, int kd)
{
    if (nn >= MAXN) pbt_discard();
    struct node *s = kd == 0 ? cork_gc_new(node) : kd == 4 ? cork_gc_new_iface(struct node, &I[1]) : cork_gc_alloc(sizeof(struct node), &I[kd]);
    int i = nn++; if (kd == 4) kd = 1; if (kd >= 2) slots = 0;
    s->magic = MAGIC(i); s->id = i; s->n = slots; memset(s->kid, 0, sizeof s->kid); obj[i] = s; nsl[i] = slots; kind[i] = kd; ext[i] = 1; freed[i] = 0; reach[i] = 1; for (int k = 0; k < NS; k++) kid[i][k] = -1;
    return i;
}
/* link: slot k of i := j (or nothing); the old reference is dropped afterwards */
static void link_(int i, int k, int j)
{
    int old = kid[i][k]; kid[i][k] = j; struct node *o = obj[i]->kid[k];
    if (j >= 0) { void *r = cork_gc_incref(obj[j]); CHECK(r == obj[j], "incref does not return its argument"); }
    obj[i]->kid[k] = j < 0 ? NULL : obj[j];
    if (old >= 0) { compute(); cork_gc_decref(o); } else if (o) pbt_fail("a reference of object %d changed", i);
}
/* the program's own reference to j moves into an empty slot of i: no count changes */
static void give(int i, int k, int j) { CHECK(obj[i]->kid[k] == NULL, "a reference of object %d changed", i); obj[i]->kid[k] = obj[j]; kid[i][k] = j; ext[j]--; }
static void drop(int i) { ext[i]--; compute(); cork_gc_decref(obj[i]); }
/* without computing reachability: the callback accepts anything, the verify() that follows does not */
static void drop_quick(int i) { ext[i]--; memset(reach, 0, nn); cork_gc_decref(obj[i]); }
static int pick_live(void) { compute(); if (!nreach) return -1; return reachlist[pbt_pick(nreach)]; }
static int pick_ext(void) { static int e[MAXN]; int n = 0; for (int i = 0; i < nn; i++) if (ext[i]) e[n++] = i; return n ? e[pbt_pick(n)] : -1; }
static bool on_cycle(int i) { static uint8_t seen[MAXN]; static int stk[MAXN * NS]; int sp = 0; memset(seen, 0, nn); stk[sp++] = i; while (sp) { int j = stk[--sp]; for (int k = 0; k < nsl[j]; k++) { int c = kid[j][k]; if (c == i) return true; if (c >= 0 && !seen[c]) { seen[c] = 1; stk[sp++] = c; } } } return false; }

/* Without cork_gc_done, garbage cycles must not pile up either: at no time may half of very many be left */
struct tiny { struct tiny *to; }; static size_t tiny_live;
static void tiny_free(void *o) { (void) o; tiny_live--; }
static void tiny_recurse(struct cork_gc *gc, void *o, cork_gc_recurser f, void *ud) { f(gc, ((struct tiny *) o)->to, ud); }
static struct cork_gc_obj_iface TI = { tiny_free, tiny_recurse };
static size_t pile_n, pile_len, pile_made, pile_left;
static void *pile_thread(void *v)      /* a thread of its own: it has a collector of its own, as at program start */
{
    struct tiny *t[4]; size_t len = pile_len;
    for (size_t n = pile_n; n--; ) {
        for (size_t k = 0; k < len; k++) t[k] = cork_gc_new_iface(struct tiny, &TI), tiny_live++;
        for (size_t k = 0; k < len; k++) t[k]->to = cork_gc_incref(t[(k + 1) % len]);
        for (size_t k = 0; k < len; k++) cork_gc_decref(t[k]);
        pile_made += len;
    }
    pile_left = tiny_live; cork_gc_done(); return v;
}
static void pile(void)
{
    pthread_t th; pile_n = (size_t) pbt_uniform(12000, 60000); pile_len = (size_t) pbt_uniform(1, 4); pile_made = tiny_live = 0; pbt_trace("%zu garbage rings of %zu objects without finishing the collector", pile_n, pile_len);
    if (pthread_create(&th, NULL, pile_thread, NULL)) return;
    pthread_join(th, NULL);
    CHECK(pile_left <= pile_made / 2, "%zu of %zu objects, all of them garbage, are left while the collector is in use", pile_left, pile_made);
    CHECK(tiny_live == 0, "%zu garbage objects are left after cork_gc_done", tiny_live); pbt_label("garbage piles up");
}

void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    unsigned st = 0; nn = 0; bool cyc = false, many = false; size_t live0 = acct_live(); cur_op = "start";
    if (pbt_chance(1, 2)) cork_gc_init();
    cork_gc_incref(NULL); cork_gc_decref(NULL);
    uint64_t ops = pbt_swarm(14, 1); bool large = pbt_large(100);
    if (large && pbt_chance(1, 3)) pile();
    while (pbt_more(&st, 40, 200) && nn < MAXN - 6000) {
        unsigned op = pbt_op(ops, 14);
        switch (op) {
            case 0: case 1: { int i = mk((int) pbt_pick(NS + 1), pbt_chance(1, 6) ? (int) pbt_uniform(0, 4) : 0); pbt_trace("new object %d with %d slots", i, nsl[i]); cur_op = "new";
                for (int k = 0; k < nsl[i]; k++) if (pbt_chance(1, 2)) { int j = pick_live(); pbt_trace("  slot %d := %d", k, j); link_(i, k, j); } break; }
            case 2: case 3: { int i = pick_live(); if (i < 0 || !nsl[i]) break; int k = (int) pbt_pick(nsl[i]), j = pbt_chance(1, 4) ? -1 : pick_live(); pbt_trace("object %d slot %d: %d -> %d", i, k, kid[i][k], j); cur_op = "link"; link_(i, k, j); break; }
            case 4: { int i = pick_live(); if (i < 0 || ext[i] > 1000) break; pbt_trace("incref object %d", i); cur_op = "incref"; cork_gc_incref(obj[i]); ext[i]++; break; }
            case 5: case 6: { int i = pick_ext(); if (i < 0) break; pbt_trace("decref object %d", i); cur_op = "decref"; if (ext[i] == 1 && on_cycle(i)) cyc = true; drop(i); break; }
            case 7: { /* a ring or chain */ int n = (int) pbt_size(1, pbt_chance(1, 10) ? 900 : 12), f = nn; bool ring = pbt_chance(3, 4); pbt_trace("%s of %d objects", ring ? "ring" : "chain", n); cur_op = "ring";
                for (int k = 0; k < n; k++) mk(1 + (int) pbt_pick(2), 0);
                for (int k = 0; k < n; k++) if (k + 1 < n || ring) link_(f + k, 0, f + (k + 1) % n);
                int keep = pbt_chance(1, 2) ? -1 : (int) pbt_pick(n); bool rev = pbt_chance(1, 2);
                for (int q = 0; q < n; q++) { int k = rev ? n - 1 - q : q; if (k != keep) { if (ring) cyc = true; drop(f + k); } } break; }
            case 8: { /* a dense graph */ int n = (int) pbt_size(2, 14), f = nn; pbt_trace("dense graph of %d objects", n); cur_op = "dense graph";
                for (int k = 0; k < n; k++) mk(NS, 0);
                for (int k = 0; k < n; k++) for (int s = 0; s < NS; s++) if (pbt_chance(3, 4)) link_(f + k, s, f + (int) pbt_pick(n));
                if (pbt_chance(1, 2)) { int j = pick_live(); int k = f + (int) pbt_pick(n); pbt_trace("  tied to object %d", j); link_(k, 0, j); }
                int keep = pbt_chance(1, 2) ? -1 : (int) pbt_pick(n); for (int k = 0; k < n; k++) if (k != keep) { cyc = true; drop(f + k); } break; }
            case 9: { /* many candidate roots, mixed with others */ int n = pbt_chance(1, 2) ? (int) pbt_uniform(900, 1300) : (int) pbt_uniform(1, 2500), f = nn; unsigned mode = pbt_pick(5); pbt_trace("%d candidate roots, mode %u", n, mode); cur_op = "candidate burst"; if (nn + n > MAXN - 200) break;
                if (n > 1024) many = true;
                for (int k = 0; k < n; k++) mk(mode >= 2 ? 2 : 0, 0);
                if (mode == 2) for (int k = 0; k < n; k++) link_(f + k, 0, f + k);
                int hub = -1; if (mode == 3) { hub = pick_live(); if (hub >= 0) for (int k = 0; k < n; k++) link_(f + k, 0, hub); }
                if (mode == 4) { for (int k = 0; k < n; k += 2) if (k + 1 < n) { link_(f + k, 0, f + k + 1); link_(f + k + 1, 0, f + k); link_(f + k + 1, 1, f + (int) pbt_uniform(0, n - 1)); } }
                compute();
                for (int k = 0; k < n; k++) { cork_gc_incref(obj[f + k]); cork_gc_decref(obj[f + k]); }
                verify();
                for (int k = 0; k < n; k++) if ((mode == 4 || mode == 0) && k % 64 == 0) drop(f + k); else drop_quick(f + k);
                compute(); if (mode == 2 || mode == 4) cyc = true; break; }
            case 10: { /* an object owning many others that are shared: releasing it buffers them all */ int n = (int) pbt_size(2, 1500); if (nn + 2 * n > MAXN - 200) break; int root = mk(2, 0), prev = root; pbt_trace("tree of %d shared objects", n); cur_op = "shared tree"; int f = nn;
                bool shared = pbt_chance(2, 3); if (n > 1024 && shared) many = true;
                for (int k = 0; k < n; k++) { int c = mk(2, 0); link_(prev, 0, c); if (shared) { int l = mk(2, 0); link_(c, 1, l); if (pbt_chance(1, 2)) link_(l, 0, l); } drop_quick(c); prev = c; }
                compute(); verify(); drop(root); for (int k = f; k < nn; k++) if (ext[k]) { drop_quick(k); } compute(); break; }
            case 11: { /* a reference handed over */ int j = pick_ext(), i = pick_live(); if (i < 0 || j < 0 || !nsl[i]) break; int k = (int) pbt_pick(nsl[i]); if (kid[i][k] >= 0) break; kid[i][k] = j; ext[j]--; compute(); kid[i][k] = -1; ext[j]++; if (!reach[j]) break; pbt_trace("object %d slot %d takes over a reference to object %d", i, k, j); cur_op = "hand over"; give(i, k, j); pbt_label("reference handed over"); break; }
            case 12: { /* a ring whose objects never were candidates, but for one */ int n = (int) pbt_size(1, pbt_chance(1, 6) ? 2500 : 30), f = nn; if (nn + n > MAXN - 200) break; int ring = (int) pbt_pick(3), side = (int) pbt_pick(3); pbt_trace("%s of %d objects handed over%s", ring ? "ring" : "chain", n, side == 1 ? ", tied to another" : ""); cur_op = "handed over ring";
                for (int k = 0; k < n; k++) mk(2, 0);
                for (int k = 0; k + 1 < n; k++) give(f + k, 0, f + k + 1);
                if (ring) link_(f + n - 1, 0, f + (ring == 1 ? 0 : (int) pbt_pick(n)));
                if (side == 1) { int j = pick_live(); link_(f + (int) pbt_pick(n), 1, j); }
                if (side == 2) { int j = pick_live(); if (j >= 0 && nsl[j]) { int k = (int) pbt_pick(nsl[j]); link_(j, k, f + (int) pbt_pick(n)); } }
                if (pbt_chance(4, 5)) { drop(f); if (ring) cyc = true; } pbt_label("handed over ring"); break; }
            case 13: { /* many references to one object */ int i = pick_live(); if (i < 0 || ext[i] > 1000) break; int n = large ? (int) pbt_u64(1, 400000) : (int) pbt_size(1, 100), m = (int) pbt_uniform(0, n - 1); pbt_trace("incref object %d x %d, decref x %d", i, n, m); cur_op = "many references"; for (int k = 0; k < n; k++) cork_gc_incref(obj[i]); ext[i] += n; compute(); for (int k = 0; k < m; k++) { cork_gc_decref(obj[i]); ext[i]--; } if (pbt_chance(1, 2)) { compute(); while (ext[i] > 1) { ext[i]--; cork_gc_decref(obj[i]); } } break; }
        }
        compute(); verify();
        if (pbt_chance(1, 60)) { /* a complete phase */ pbt_trace("drop everything, cork_gc_done"); cur_op = "done"; for (int i = 0; i < nn; i++) { compute(); while (ext[i] > 1) { ext[i]--; cork_gc_decref(obj[i]); } if (ext[i]) drop(i); } cork_gc_done(); for (int i = 0; i < nn; i++) if (!freed[i]) CHECK(kind[i] == 1 || kind[i] == 3, "object %d is unreachable but not freed by cork_gc_done", i); CHECK(acct_live() == live0, "%zu blocks are left after cork_gc_done", acct_live() - live0); nn = 0; }
    }
    pbt_trace("drop everything, cork_gc_done"); cur_op = "final drop"; bool rev = pbt_chance(1, 2);
    for (int q = 0; q < nn; q++) { int i = rev ? nn - 1 - q : q; while (ext[i]) { if (nn < 300 && ext[i] == 1) drop(i); else { ext[i]--; if (!ext[i]) memset(reach, 0, nn); else reach[i] = 1; cork_gc_decref(obj[i]); } } }
    compute(); cur_op = "done"; cork_gc_done();
    for (int i = 0; i < nn; i++) if (!freed[i]) CHECK(kind[i] == 1 || kind[i] == 3, "object %d is unreachable but not freed by cork_gc_done", i);
    CHECK(acct_live() == live0, "%zu blocks are left after cork_gc_done", acct_live() - live0);
    if (cyc) pbt_label("garbage cycle"); if (many) pbt_label("more than 1024 candidates"); if (cyc || many) pbt_nontrivial();
}
