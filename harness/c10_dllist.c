/* Doubly linked lists against plain sequences. */
#include "pbt.h"
#include <string.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is 4 lists over up to 40 items and a random history of add head/tail/before/after, remove, whole-list moves, and traversals (visit, map, both foreach forms, manual forward and backward) that may remove visited elements, free them, or stop; all lists are compared in both directions after every operation; non-trivial: a whole-list move or a removing traversal on a list of at least 2 elements";

#define NL 4
#define NI 40
struct el { uint32_t id; char pad[12]; struct cork_dllist_item item; uint32_t tail; };
static struct el *E[NI]; static struct cork_dllist L[NL];
static int M[NL][NI]; static size_t N[NL]; static int where[NI];
extern void (cork_dllist_init)(struct cork_dllist *list);   /* exported, deprecated */
static struct cork_dllist S1 = CORK_DLLIST_INIT(S1);

static void compare(int l)
{
    size_t k = 0; struct cork_dllist_item *c, *nx; struct el *e;
    for (c = cork_dllist_start(&L[l]); !cork_dllist_is_end(&L[l], c); c = c->next) {
        CHECK(k < N[l], "list %d has more than the expected %zu elements (forwards)", l, N[l]);
        CHECK(c == &E[M[l][k]]->item, "element %zu of list %d is not #%d (forwards)", k, l, M[l][k]); k++;
    }
    CHECK(k == N[l], "list %d has %zu elements forwards, expected %zu", l, k, N[l]);
    for (c = cork_dllist_end(&L[l]); !cork_dllist_is_start(&L[l], c); c = c->prev) {
        CHECK(k > 0, "list %d has more than the expected %zu elements (backwards)", l, N[l]); k--;
        CHECK(c == &E[M[l][k]]->item, "element %zu of list %d is not #%d (backwards)", k, l, M[l][k]);
    }
    CHECK(k == 0, "list %d has fewer elements backwards", l);
    CHECK(cork_dllist_size(&L[l]) == N[l], "size of list %d is %zu, expected %zu", l, cork_dllist_size(&L[l]), N[l]);
    CHECK(!!cork_dllist_is_empty(&L[l]) == (N[l] == 0), "is_empty of list %d with %zu elements is wrong", l, N[l]);
    CHECK(cork_dllist_head(&L[l]) == (N[l] ? &E[M[l][0]]->item : NULL), "head of list %d is wrong", l);
    CHECK(cork_dllist_tail(&L[l]) == (N[l] ? &E[M[l][N[l] - 1]]->item : NULL), "tail of list %d is wrong", l);
    (void) nx; (void) e;
}
static void ins(int l, size_t at, int i) { memmove(M[l] + at + 1, M[l] + at, (N[l] - at) * sizeof(int)); M[l][at] = i; N[l]++; where[i] = l; }
static void del(int l, size_t at) { where[M[l][at]] = -1; memmove(M[l] + at, M[l] + at + 1, (N[l] - at - 1) * sizeof(int)); N[l]--; }

static struct { int order[NI]; size_t n, seen; uint8_t dec[NI]; size_t stop; int stopcode; bool freeing; } T;
static void scribble(struct el *e) { if (T.freeing) { e->item.next = (void *) 0x51; e->item.prev = (void *) 0x53; } }
static int visit(void *ud, struct cork_dllist_item *c)
{
    CHECK(ud == &T, "the visitor got the wrong user data");
    CHECK(T.seen < T.n, "the traversal visits more elements than there are"); CHECK(c == &E[T.order[T.seen]]->item, "the traversal visits the wrong element at position %zu", T.seen);
    size_t k = T.seen++; if (T.dec[k]) { cork_dllist_remove(c); scribble(E[T.order[k]]); }
    return k == T.stop ? T.stopcode : 0;
}
static void mapf(struct cork_dllist_item *c, void *ud) { size_t s = T.stop; T.stop = SIZE_MAX; visit(ud, c); T.stop = s; }

/* Lists of many elements. */
static size_t bm_seen; static struct cork_dllist_item *bm_base; static uint32_t *bm_order; static size_t bm_n, bm_stop; static bool bm_del;
static int bm_visit(void *ud, struct cork_dllist_item *c)
{ (void) ud; CHECK(bm_seen < bm_n && c == bm_base + bm_order[bm_seen], "a long list: element %zu of %zu is wrong", bm_seen, bm_n); if (bm_del && bm_seen % 3 == 1) cork_dllist_remove(c); return bm_seen++ == bm_stop ? 7 : 0; }
static void bm_map(struct cork_dllist_item *c, void *ud) { size_t s = bm_stop; bm_stop = SIZE_MAX; bm_visit(ud, c); bm_stop = s; }
static void big_case(void)
{
    size_t n = pbt_uniform(300, 250000), k, a; bm_base = raw_malloc(n * sizeof *bm_base); bm_order = raw_malloc(n * sizeof *bm_order); uint32_t *o2 = raw_malloc(n * sizeof *o2); size_t cut = pbt_uniform(0, n); pbt_trace("lists of %zu and %zu elements", cut, n - cut); pbt_label("long lists");
    struct cork_dllist A, B2; cork_dllist_init(&A); cork_dllist_init(&B2); bool rev = pbt_chance(1, 2), head = pbt_chance(1, 2);
    for (k = 0; k < n; k++) { struct cork_dllist *l = k < cut ? &A : &B2; if (rev) cork_dllist_add_to_head(l, bm_base + k); else cork_dllist_add_to_tail(l, bm_base + k); }
    CHECK(cork_dllist_size(&A) == cut && cork_dllist_size(&B2) == n - cut, "the sizes are %zu and %zu", cork_dllist_size(&A), cork_dllist_size(&B2));
    if (head) cork_dllist_add_list_to_head(&A, &B2); else cork_dllist_add_list_to_tail(&A, &B2);
    bool bfirst = head; a = 0;
    for (int part = 0; part < 2; part++) { bool isb = (part == 0) == bfirst; size_t lo = isb ? cut : 0, hi = isb ? n : cut; for (k = lo; k < hi; k++) bm_order[a++] = (uint32_t) (rev ? hi - 1 - (k - lo) : k); }
    CHECK(cork_dllist_is_empty(&B2) && cork_dllist_size(&A) == n, "after the move the sizes are %zu and %zu", cork_dllist_size(&A), cork_dllist_size(&B2));
    bm_n = n;
    for (int r = 0; r < 3; r++) {
        bm_del = r == 1; bm_seen = 0; bm_stop = r == 0 && n ? pbt_uniform(0, bm_n - 1) : SIZE_MAX; size_t want = bm_n;
        if (r == 0) { want = bm_stop + 1; CHECK(cork_dllist_visit(&A, NULL, bm_visit) == 7, "visit does not stop"); }
        else if (r == 1) { if (pbt_chance(1, 2)) { CHECK(cork_dllist_visit(&A, NULL, bm_visit) == 0, "visit stops"); } else cork_dllist_map(&A, bm_map, NULL); }
        else { struct cork_dllist_item *c, *nx; cork_dllist_foreach_void(&A, c, nx) bm_visit(NULL, c); }
        CHECK(bm_seen == want, "the traversal visits %zu of %zu elements", bm_seen, want);
        if (bm_del) { a = 0; for (k = 0; k < bm_n; k++) if (k % 3 != 1) bm_order[a++] = bm_order[k]; bm_n = a; CHECK(cork_dllist_size(&A) == bm_n, "%zu elements are left, expected %zu", cork_dllist_size(&A), bm_n); }
    }
    k = bm_n; for (struct cork_dllist_item *c = cork_dllist_end(&A); !cork_dllist_is_start(&A, c); c = c->prev) { CHECK(k > 0 && c == bm_base + bm_order[k - 1], "backwards: element %zu is wrong", k); k--; }
    CHECK(k == 0, "backwards: %zu elements are missing", k);
    while (bm_n) { struct cork_dllist_item *c = (bm_n & 1) ? cork_dllist_head(&A) : cork_dllist_tail(&A); CHECK(c, "the list is empty, but should have %zu elements", bm_n); cork_dllist_remove(c); bm_n--; }
    CHECK(cork_dllist_is_empty(&A), "the list is not empty"); raw_free(bm_base); raw_free(bm_order); raw_free(o2); pbt_nontrivial();
}
void pbt_init(void) { }
void pbt_case(void)
{
    if (pbt_large(150)) { big_case(); return; }
    unsigned st = 0; bool big = false; size_t nitems = pbt_uniform(1, NI);
    for (size_t i = 0; i < NI; i++) { E[i] = raw_malloc(sizeof *E[i]); memset(E[i], 0xA5, sizeof *E[i]); E[i]->id = i; where[i] = -1; }
    for (int l = 0; l < NL; l++) { N[l] = 0; memset(&L[l], 0x5A, sizeof L[l]); if (l & 1) (cork_dllist_init)(&L[l]); else cork_dllist_init(&L[l]); compare(l); }
    CHECK(cork_dllist_is_empty(&S1), "a statically initialized list is not empty");
    uint64_t ops = pbt_swarm(10, 1);
    while (pbt_more(&st, 40, 300)) {
        unsigned op = pbt_op(ops, 10); int l = (int) pbt_pick(NL), i = (int) pbt_pick(nitems), w = where[i];
        if (op <= 3 || (op >= 4 && op <= 5 && w < 0)) {
            if (w >= 0) { size_t p = 0; while (M[w][p] != i) p++; pbt_trace("remove #%d from list %d", i, w); cork_dllist_remove(&E[i]->item); del(w, p); E[i]->item.next = E[i]->item.prev = (void *) 0x51; compare(w); }
            size_t at = pbt_uniform(0, N[l]);
            if (op == 2 && N[l]) { at = at % N[l]; struct cork_dllist_item *pred = &E[M[l][at]]->item; pbt_trace("list %d: add #%d after #%d", l, i, M[l][at]); cork_dllist_add_after(pred, &E[i]->item); ins(l, at + 1, i); }
            else if (op == 3 && N[l]) { at = at % N[l]; struct cork_dllist_item *succ = &E[M[l][at]]->item; pbt_trace("list %d: add #%d before #%d", l, i, M[l][at]); cork_dllist_add_before(succ, &E[i]->item); ins(l, at, i); }
            else if (op & 1) { pbt_trace("list %d: add #%d to head", l, i); cork_dllist_add_to_head(&L[l], &E[i]->item); ins(l, 0, i); }
            else { pbt_trace("list %d: add #%d to tail", l, i); if (pbt_chance(1, 2)) cork_dllist_add_to_tail(&L[l], &E[i]->item); else cork_dllist_add(&L[l], &E[i]->item); ins(l, N[l], i); }
        } else if (op <= 5) {
            size_t p = 0; while (M[w][p] != i) p++; pbt_trace("remove #%d from list %d", i, w);
            cork_dllist_remove(&E[i]->item); del(w, p); compare(w); pbt_label("remove");
        } else if (op <= 7) {
            int s = (int) ((l + 1 + pbt_pick(NL - 1)) % NL); pbt_trace("move list %d to the %s of list %d", s, op == 6 ? "head" : "tail", l);
            if (N[s] + N[l] >= 2) { big = true; pbt_label("list move"); } if (!N[s] || !N[l]) pbt_label("list move with an empty list");
            if (op == 6) { cork_dllist_add_list_to_head(&L[l], &L[s]); memmove(M[l] + N[s], M[l], N[l] * sizeof(int)); memcpy(M[l], M[s], N[s] * sizeof(int)); }
            else { cork_dllist_add_list_to_tail(&L[l], &L[s]); memcpy(M[l] + N[l], M[s], N[s] * sizeof(int)); }
            for (size_t k = 0; k < N[s]; k++) where[M[s][k]] = l;
            N[l] += N[s]; N[s] = 0;
        } else {
            unsigned how = pbt_pick(4); T.n = N[l]; T.seen = 0; memcpy(T.order, M[l], sizeof T.order); T.freeing = pbt_chance(1, 2); unsigned p = pbt_pick(4); bool any = false;
            for (size_t k = 0; k < T.n; k++) { T.dec[k] = pbt_chance(p, 3); any |= T.dec[k]; }
            T.stop = pbt_chance(1, 3) ? pbt_uniform(0, T.n) : SIZE_MAX; T.stopcode = (int) pbt_uniform(1, 5) - 3; if (T.stopcode == 0) T.stopcode = 1;
            static const char *hn[] = { "visit", "map", "foreach_void", "foreach" }; pbt_trace("%s over list %d (%zu elements), stop at %zd with %d", hn[how], l, T.n, T.stop, T.stopcode);
            size_t reach = T.n;
            if (how == 0) { int rc = cork_dllist_visit(&L[l], &T, visit); bool stops = T.stop < T.n; if (stops) reach = T.stop + 1; CHECK(rc == (stops ? T.stopcode : 0), "visit returns %d", rc); }
            else if (how == 1) cork_dllist_map(&L[l], mapf, &T);
            else { struct cork_dllist_item *c, *nx; struct el *e;
                if (T.stop < T.n) reach = T.stop + 1;
                if (how == 2) { cork_dllist_foreach_void(&L[l], c, nx) { if (visit(&T, c)) break; } }
                else { cork_dllist_foreach(&L[l], c, nx, struct el, e, item) { CHECK(&e->item == c && e == E[T.order[T.seen < T.n ? T.seen : 0]], "foreach gives the wrong element"); if (visit(&T, c)) break; } } }
            CHECK(T.seen == reach, "the traversal visits %zu elements, expected %zu", T.seen, reach);
            for (size_t k = reach; k-- > 0;) if (T.dec[k]) del(l, k);
            if (any && T.n >= 2) { big = true; pbt_label("removing traversal"); }
        }
        for (int k = 0; k < NL; k++) compare(k);
        for (size_t k = 0; k < NI; k++) CHECK(E[k]->id == k && E[k]->tail == 0xA5A5A5A5u, "element #%zu was damaged", k);
    }
    for (size_t i = 0; i < NI; i++) raw_free(E[i]);
    if (big) pbt_nontrivial();
}
