/* Memory pools: disjoint objects, object lifecycle, balance. */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include "libcork/core.h"
#include "libcork/ds.h"
const char *pbt_rule = "a case is a pool with element size 1..600 (or default sizes), block size 1..9000, a random subset of callbacks and user data, and a random history of new and free; objects in use are filled to their full size and compared, callbacks checked per object; non-trivial: at least one freed object was handed out again or at least two blocks were allocated";
#define MAXO 3000
static struct { uint8_t *p; uint8_t fill; } O[MAXO]; static size_t no;
static struct { uint8_t *p; bool inited, done; } X[200000]; static size_t nx;
static size_t esz; static int ud_tok, ud2_tok; static int freed_ud, freed_ud2; static bool have_init, have_done, destroying; static size_t n_init, n_done; static int cur_ud;
static size_t find_x(void *p) { for (size_t i = nx; i-- > 0;) if (X[i].p == p) return i; return SIZE_MAX; }
static void chk_ud(void *ud, const char *cb) { CHECK(ud == (cur_ud == 0 ? NULL : cur_ud == 1 ? (void *) &ud_tok : (void *) &ud2_tok), "the %s callback got the wrong user data", cb); }
static void init(void *ud, void *obj) { chk_ud(ud, "init"); CHECK(find_x(obj) == SIZE_MAX, "an object is initialised twice"); CHECK(!destroying, "init is called while the pool is destroyed"); if (nx >= 199999) pbt_discard(); X[nx].p = obj; X[nx].inited = true; X[nx].done = false; nx++; n_init++; memset(obj, 0x11, esz); }
static void done(void *ud, void *obj) { chk_ud(ud, "done"); CHECK(destroying, "done is called before the pool is destroyed"); CHECK(!freed_ud2 || cur_ud != 2, "done is called after the user data was freed"); CHECK(!freed_ud || cur_ud != 1, "done is called after the user data was freed");
    if (have_init) { size_t i = find_x(obj); CHECK(i != SIZE_MAX, "done is called on something that was never initialised"); CHECK(!X[i].done, "done is called twice on an object"); X[i].done = true; } n_done++; memset(obj, 0xDD, esz); }
static void free_ud(void *p) { CHECK(p == &ud_tok, "free_user_data got the wrong pointer"); freed_ud++; }
static void free_ud2(void *p) { CHECK(p == &ud2_tok, "free_user_data got the wrong pointer"); freed_ud2++; }
struct typed { void *p; int x; };
static bool keep(const uint8_t *p, uint8_t f) { for (size_t i = 0; i < esz; i++) if (p[i] != f) return false; return true; }
/* many or large objects */
#define BH (1u << 20)
static struct bo { uint8_t *p; uint32_t id; bool done, reused; } *bh; static size_t b_init, b_done;
static struct bo *b_slot(uint8_t *p) { size_t i = ((uintptr_t) p >> 3) * 0x9e3779b97f4a7c15ull >> 44; while (bh[i].p && bh[i].p != p) i = (i + 1) % BH; return &bh[i]; }
static void b_initcb(void *ud, void *o) { struct bo *b = b_slot(o); CHECK(!b->p, "large pool: an object is initialised twice"); b->p = o; b->id = 0; b->done = false; b_init++; if (b_init > BH / 2) pbt_discard(); }
static void b_donecb(void *ud, void *o) { CHECK(destroying, "large pool: done is called before the pool is destroyed"); struct bo *b = b_slot(o); CHECK(b->p && !b->done, "large pool: done is called %s", b->p ? "twice on an object" : "on something that was never initialised"); b->done = true; b_done++; }
static void b_put(uint8_t *p, uint32_t id) { if (esz < 8) { memset(p, (int) id, esz); return; } memcpy(p, &id, 4); memcpy(p + esz - 4, &id, 4); if (esz > 64) p[esz / 2] = (uint8_t) id; }
static bool b_is(const uint8_t *p, uint32_t id) { if (esz < 8) { for (size_t i = 0; i < esz; i++) if (p[i] != (uint8_t) id) return false; return true; } return !memcmp(p, &id, 4) && !memcmp(p + esz - 4, &id, 4) && (esz <= 64 || p[esz / 2] == (uint8_t) id); }
static void big_case(void)
{
    esz = pbt_chance(1, 3) ? pbt_u64(1, 300000) : pbt_size(1, 64); size_t bsz = pbt_chance(1, 3) ? pbt_size(1, 100) : pbt_chance(1, 2) ? pbt_u64(100, 2000000) : esz * pbt_size(1, 20), max = (12u << 20) / (esz + 16); if (max > 60000) max = 60000; size_t n = 0; uint32_t next = 0; uint8_t **o = raw_malloc((max + 1) * sizeof *o); uint32_t *id = raw_malloc((max + 1) * 4); unsigned st = 0; size_t live0 = acct_live();
    pbt_trace("large pool of %zu-byte objects in %zu-byte blocks", esz, bsz); bh = raw_realloc(bh, BH * sizeof *bh); memset(bh, 0, BH * sizeof *bh); b_init = b_done = 0; destroying = false;
    struct cork_mempool *mp = cork_mempool_new_size_ex(esz, bsz); cork_mempool_set_init_object(mp, b_initcb); cork_mempool_set_done_object(mp, b_donecb);
    while (pbt_more(&st, 5, 10)) {
        if (pbt_chance(3, 5)) { size_t k = pbt_u64(1, max); if (k > max - n) k = max - n; pbt_trace("new x %zu", k); while (k--) { uint8_t *p = cork_mempool_new_object(mp); CHECK(p, "large pool: new_object returns NULL"); CHECK(b_slot(p)->p == p, "large pool: an object was handed out without being initialised"); CHECK(esz < 8 || (uintptr_t) p % 8 == 0 || esz % 8, "large pool: an object of size %zu is at %p", esz, (void *) p); b_put(p, ++next); o[n] = p; id[n++] = next; } if (n) { CHECK(acct_find(o[n - 1]) > 0 && acct_find(o[n - 1] + esz - 1) > 0, "large pool: an object extends beyond its block"); } }
        else { size_t k = pbt_uniform(0, n); bool tail = pbt_chance(1, 2); pbt_trace("free x %zu", k); while (k--) { size_t i = tail ? n - 1 : (next++ * 2654435761u) % n; CHECK(b_is(o[i], id[i]), "large pool: the content of an object in use changed"); cork_mempool_free_object(mp, o[i]); n--; o[i] = o[n]; id[i] = id[n]; } }
        for (size_t i = 0; i < n; i++) CHECK(b_is(o[i], id[i]), "large pool: the content of object %zu of %zu in use changed", i, n);
    }
    while (n) { n--; CHECK(b_is(o[n], id[n]), "large pool: the content of an object in use changed"); cork_mempool_free_object(mp, o[n]); }
    destroying = true; cork_mempool_free(mp); CHECK(b_init == b_done, "large pool: %zu objects were initialised, %zu finished", b_init, b_done); CHECK(acct_live() == live0, "large pool: %zu blocks are left", acct_live() - live0);
    raw_free(o); raw_free(id); if (next > 10000) pbt_label("more than 10000 objects"); if (b_init > 1) pbt_nontrivial();
}
void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    if (pbt_large(500)) { big_case(); return; }
    unsigned st = 0; no = nx = n_init = n_done = 0; freed_ud = freed_ud2 = 0; destroying = false; cur_ud = 0; static uint8_t *idle[MAXO]; static uint8_t idlefill[MAXO]; size_t ni = 0; bool again = false; size_t blocks0 = acct_live();
    struct cork_mempool *mp; unsigned ctor = pbt_pick(4);
    esz = pbt_size(1, 600); size_t bsz = pbt_chance(1, 3) ? pbt_size(1, 9000) : esz + pbt_uniform(0, 40) + pbt_uniform(0, 3) * (esz + 8);
    if (ctor == 0) { if (pbt_chance(1, 3)) { esz = sizeof(struct typed); mp = cork_mempool_new(struct typed); } else mp = cork_mempool_new_size(esz); bsz = 4096; } else if (ctor == 1) { esz = sizeof(struct typed); mp = cork_mempool_new_ex(struct typed, bsz); } else mp = cork_mempool_new_size_ex(esz, bsz);
    have_init = pbt_chance(1, 2); have_done = pbt_chance(1, 2); bool fud = pbt_chance(1, 2);
    pbt_trace("pool of %zu-byte objects in %zu-byte blocks, init %d, done %d, free_user_data %d", esz, bsz, have_init, have_done, fud);
    if (pbt_chance(1, 3)) { cork_mempool_set_callbacks(mp, &ud_tok, fud ? free_ud : NULL, have_init ? init : NULL, have_done ? done : NULL); cur_ud = 1; }
    else { if (pbt_chance(2, 3)) { cork_mempool_set_user_data(mp, &ud_tok, fud ? free_ud : NULL); cur_ud = 1; } if (have_init) cork_mempool_set_init_object(mp, init); if (have_done) cork_mempool_set_done_object(mp, done); }
    bool first_ud = cur_ud == 1;
    if (bsz < esz + 16) pbt_label("block smaller than one object");
    while (pbt_more(&st, 40, 300)) {
        unsigned op = pbt_pick(8);
        if (op == 7 && cur_ud == 1 && pbt_chance(1, 4)) { pbt_trace("replace user data"); cork_mempool_set_user_data(mp, &ud2_tok, free_ud2); cur_ud = 2; CHECK(freed_ud == (fud ? 1 : 0), "replacing the user data freed the old one %d times", freed_ud); pbt_label("user data replaced"); continue; }
        if (op <= 4) {
            size_t n = pbt_chance(1, 8) ? pbt_uniform(1, 40) : 1;
            for (size_t r = 0; r < n && no < MAXO; r++) {
                uint8_t *p = cork_mempool_new_object(mp); CHECK(p != NULL, "new_object returns NULL");
                size_t whole = acct_find(p); CHECK(whole > 0, "new_object returns a pointer outside any allocated block");
                CHECK(acct_find(p + esz - 1) > 0, "an object extends beyond its block");
                size_t al = esz & -esz; if (al > 8) al = 8; CHECK((uintptr_t) p % al == 0, "an object of size %zu is at %p", esz, (void *) p);
                for (size_t k = 0; k < no; k++) CHECK(p + esz <= O[k].p || O[k].p + esz <= p, "a new object overlaps one that is in use");
                bool was = false; for (size_t k = 0; k < ni; k++) if (idle[k] == p) { was = true; again = true; CHECK(idlefill[k] == 0 || keep(p, idlefill[k]), "the content of a reused object changed while it was free"); idle[k] = idle[--ni]; idlefill[k] = idlefill[ni]; break; }
                if (have_init) { CHECK(find_x(p) != SIZE_MAX, "an object was handed out without being initialised"); if (!was) CHECK(keep(p, 0x11), "an object handed out first does not hold what init stored"); }
                pbt_trace("new -> object %zu%s", no, was ? " (reused)" : "");
                uint8_t f = (uint8_t) (0x20 + pbt_pick(0x80)); memset(p, f, esz); O[no].p = p; O[no].fill = f; no++;
            }
        } else if (no) {
            size_t k = pbt_pick(no), n = pbt_chance(1, 8) ? pbt_uniform(1, no) : 1;
            for (size_t r = 0; r < n && no && ni < MAXO; r++) {
                k %= no; pbt_trace("free object %zu", k); CHECK(keep(O[k].p, O[k].fill), "the content of an object in use changed");
                cork_mempool_free_object(mp, O[k].p); idle[ni] = O[k].p; idlefill[ni++] = O[k].fill; O[k] = O[--no];
            }
        }
        for (size_t k = 0; k < no; k++) CHECK(keep(O[k].p, O[k].fill), "the content of an object in use changed");
        CHECK(n_done == 0, "done was called although the pool is alive");
    }
    size_t blocks = acct_live() - blocks0;
    while (no) { no--; CHECK(keep(O[no].p, O[no].fill), "the content of an object in use changed"); cork_mempool_free_object(mp, O[no].p); }
    CHECK(freed_ud2 == 0 && (cur_ud == 2 || freed_ud == 0), "the user data was freed early");
    destroying = true; cork_mempool_free(mp);
    if (have_init && have_done) { CHECK(n_done == n_init, "%zu objects were initialised, %zu finished", n_init, n_done); }
    CHECK(freed_ud == (first_ud && fud ? 1 : 0) && freed_ud2 == (cur_ud == 2), "user data was freed %d times, its replacement %d times", freed_ud, freed_ud2);
    CHECK(acct_live() == blocks0, "%zu blocks are left after the pool was freed", acct_live() - blocks0);
    if (again || blocks >= 3) pbt_nontrivial();
    if (again) pbt_label("object reused");
}
