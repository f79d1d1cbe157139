/* Hash-table histories against a reference model.  HT_PROP selects the oracle:
 * 1 map semantics (C01), 2 iteration order (C02), 3 ownership callbacks (C03). */
#include "pbt.h"
#include "acct.h"
#include <string.h>
#include <stdio.h>
#include "libcork/core.h"
#include "libcork/ds.h"

enum kind { K_CUSTOM, K_STRING, K_POINTER, K_INT, K_DEFAULT };
#define MAXID 4096
struct key { int id, gen; int freed; struct key *next; char s[]; };
struct ment { int id; void *key; void *value; };

static enum kind kind; static unsigned hmode; static int nids;
static struct cork_hash_table *t;
static struct ment *m; static size_t mn, mcap;    /* the model, in insertion order */
static struct key *allkeys; static struct key *fixed[MAXID];
static int gens; static uint64_t salt; static unsigned strmode; static size_t longkey;
static int ud_objs[2]; static void *ud; static bool own_ud; static uint64_t hash_calls, eq_calls;

static struct key *key_of(const void *k)
{ return kind == K_STRING ? (struct key *) ((char *) k - offsetof(struct key, s)) : (struct key *) k; }
static int id_of(const void *k) { return kind == K_INT ? (int) ((uintptr_t) k >> 4 & 0xfff) : key_of(k)->id; }

static cork_hash id_hash(int id)
{
    switch (hmode) {
        case 0: return (cork_hash) id * 2654435761u;
        case 1: return 0;
        case 2: return id & 3;
        case 3: return (cork_hash) id << 24;
        case 4: return 0xffffffffu - id;
        case 5: return id;
        case 6: return (cork_hash) id * 8;
        default: return (id & 1) ? 0x80000000u | id : id / 2;
    }
}
static cork_hash cb_hash(void *u, const void *k)
{ hash_calls++; CHECK(u == ud, "the hash callback got user data %p instead of %p", u, ud); return id_hash(key_of(k)->id); }
static bool cb_eq(void *u, const void *a, const void *b)
{ eq_calls++; CHECK(u == ud, "the equals callback got user data %p instead of %p", u, ud); return key_of(a)->id == key_of(b)->id; }

static void key_text(int id, char *o, size_t cap)
{
    if (longkey) { memset(o, 'p', longkey); snprintf(o + longkey, cap - longkey, "%d", id); return; }     /* long keys that only differ at their end */
    switch (strmode) {
        case 0: snprintf(o, cap, "%d", id); break;
        case 1: if (id == 0) *o = 0; else { size_t n = id % 200; memset(o, 'a' + id / 200 % 26, n); o[n] = 0; snprintf(o + n, cap - n, "%d", id / 200); } break;
        case 2: snprintf(o, cap, "common-prefix-of-some-length-%d-suffix", id); break;
        default: snprintf(o, cap, "%c%c%c", (char) (1 + id % 255), (char) (1 + (id / 255 * 7 + 3) % 255), (char) (128 + id % 100)); break;
    }
}
static void *mk(int id)       /* a key for id: a fresh object where equality is by content */
{
    static char b[70200];
    if (kind == K_INT) return (void *) (uintptr_t) ((uintptr_t) id << 4 | (salt & 1 ? (uintptr_t) (id & 7) << 40 : 0));
    if ((kind == K_POINTER || kind == K_DEFAULT) && fixed[id]) return fixed[id];
    key_text(id, b, sizeof b);
    struct key *k = raw_malloc(sizeof *k + strlen(b) + 1);
    k->id = id; k->gen = gens++; k->freed = 0; strcpy(k->s, b); k->next = allkeys; allkeys = k;
    if (kind == K_POINTER || kind == K_DEFAULT) { fixed[id] = k; return k; }
    return kind == K_STRING ? (void *) k->s : (void *) k;
}
static cork_hash hash_for(int id, const void *k)
{
    switch (kind) {
        case K_CUSTOM: return id_hash(id);
        case K_STRING: return cork_hash_buffer(0, k, strlen(k));
        default: return (cork_hash) (uintptr_t) k;
    }
}
static ssize_t mfind(int id) { for (size_t i = 0; i < mn; i++) if (m[i].id == id) return i; return -1; }
static void madd(int id, void *k, void *v)
{ if (mn == mcap) { mcap = mcap ? mcap * 2 : 64; m = raw_realloc(m, mcap * sizeof *m); } m[mn++] = (struct ment) { id, k, v }; }
static void mdel(size_t i) { memmove(m + i, m + i + 1, (mn - i - 1) * sizeof *m); mn--; }

/*---- ownership events (C03) ----*/
static bool own_key, own_val; static void *ev_k[8192], *ev_v[8192]; static size_t nek, nev; static int ud_freed;
struct val { int n; int freed; struct val *next; };
static struct val *allvals;
static void cb_free_key(void *k)
{ CHECK(k != NULL || kind == K_INT, "free_key was called with NULL");
  if (kind != K_INT) { struct key *kk = key_of(k); CHECK(kk->freed == 0, "free_key was called twice for key #%d (id %d)", kk->gen, kk->id); kk->freed++; }
  if (nek < 8192) ev_k[nek++] = k; }
static void cb_free_val(void *v) { if (nev < 8192) ev_v[nev++] = v; }
static void cb_free_ud(void *u) { CHECK(u == ud, "free_user_data got %p instead of %p", u, ud); ud_freed++; }
static void *mkval(void)
{
    if (pbt_chance(1, 12)) return NULL;
    struct val *v = raw_malloc(sizeof *v); v->n = gens++; v->freed = 0; v->next = allvals; allvals = v; return v;
}
static void expect_events(const char *what, void **ks, size_t nk, void **vs, size_t nv)
{
    if (!own_key) nk = 0;
    if (!own_val) nv = 0;
    CHECK(nek == nk, "%s called free_key %zu times, expected %zu", what, nek, nk);
    CHECK(nev == nv, "%s called free_value %zu times, expected %zu", what, nev, nv);
    for (size_t i = 0; i < nk; i++) {
        size_t j; for (j = 0; j < nek && ev_k[j] != ks[i]; j++) { }
        CHECK(j < nek, "%s did not free the key of id %d", what, id_of(ks[i]));
        ev_k[j] = ev_k[--nek];
    }
    for (size_t i = 0; i < nv; i++) {
        size_t j; for (j = 0; j < nev && ev_v[j] != vs[i]; j++) { }
        CHECK(j < nev, "%s did not free a value that left the table", what);
        ev_v[j] = ev_v[--nev];
    }
    nek = nev = 0;
}

static void check_entry(const char *what, struct cork_hash_table_entry *e, size_t i)
{
    CHECK(e != NULL, "%s returned no entry for id %d, which is in the table", what, m[i].id);
    CHECK(e->key == m[i].key, "%s: the entry of id %d holds another key object than the one stored last", what, m[i].id);
    CHECK(e->value == m[i].value, "%s: the entry of id %d holds the wrong value", what, m[i].id);
    CHECK(e->hash == hash_for(m[i].id, m[i].key), "%s: the entry of id %d has hash 0x%08x instead of 0x%08x", what, m[i].id, e->hash, hash_for(m[i].id, m[i].key));
}
static void check_id(int id)
{
    ssize_t i = mfind(id); void *k = mk(id);
    struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, k);
    if (i < 0) { CHECK(e == NULL, "get_entry finds id %d, which is not in the table", id);
                 CHECK(cork_hash_table_get(t, k) == NULL, "get finds id %d, which is not in the table", id); }
    else { check_entry("get_entry", e, i); CHECK(cork_hash_table_get(t, k) == m[i].value, "get returns the wrong value for id %d", id); }
}
static void check_all(void) { CHECK(cork_hash_table_size(t) == mn, "size is %zu, expected %zu", cork_hash_table_size(t), mn); for (int i = 0; i < nids; i++) check_id(i); }

/*---- iteration (C02) ----*/
static size_t map_i, map_stop; static uint8_t *map_del, *map_seen; static bool map_set_values; static int map_state;
static enum cork_hash_table_map_result cb_map(void *u, struct cork_hash_table_entry *e)
{
    CHECK(u == &map_state, "the map callback got the wrong user data");
    CHECK(map_i < mn, "map passes more entries than the table has (%zu)", mn);
    size_t i = map_i;
#if HT_PROP == 2
    CHECK(e->key == m[i].key && e->value == m[i].value, "map: entry %zu is not the one that was added %zu-th (got id %d, expected id %d)", i, i, id_of(e->key), m[i].id);
#else
    if (e->key != m[i].key) for (i = 0; i < mn && e->key != m[i].key; i++) { }
    CHECK(i < mn && e->value == m[i].value && !map_seen[i], "map passes an entry that is not in the table, or passes one twice");
#endif
    size_t n = map_i++;
    CHECK(n <= map_stop, "map goes on after its callback returned ABORT");
    if (n == map_stop) return CORK_HASH_TABLE_MAP_ABORT;
    map_seen[i] = 1;
    if (map_del[i]) return CORK_HASH_TABLE_MAP_DELETE;
    if (map_set_values) { e->value = m[i].value = own_val ? e->value : (void *) (uintptr_t) (0x1000 + i); }
    return CORK_HASH_TABLE_MAP_CONTINUE;
}
static void do_map(bool deletes, bool aborts)
{
    map_i = 0; map_state = 0;
    map_stop = (aborts && mn) ? pbt_uniform(0, mn - 1) : (size_t) -1;
    map_del = raw_malloc(mn); map_seen = raw_malloc(mn); memset(map_seen, 0, mn); map_set_values = pbt_chance(1, 8);
    unsigned dm = deletes ? pbt_uniform(1, 4) : 0;
    for (size_t i = 0; i < mn; i++)
        map_del[i] = dm == 0 ? 0 : dm == 1 ? (i % 2) : dm == 2 ? 1 : dm == 3 ? pbt_chance(1, 4) : (i == 0 || i == mn - 1);
    pbt_trace("map over %zu entries, abort at %zd, delete mode %u", mn, (ssize_t) map_stop, dm);
    void **gk = raw_malloc(mn * sizeof *gk), **gv = raw_malloc(mn * sizeof *gv); size_t g = 0;
    size_t n0 = mn;
    cork_hash_table_map(t, &map_state, cb_map);
    size_t want = map_stop == (size_t) -1 ? n0 : map_stop + 1;
    CHECK(map_i == want, "map called its callback %zu times, expected %zu", map_i, want);
    if (dm && mn) pbt_label("map that deletes");
    if (aborts && n0) pbt_label("map that aborts");
    for (size_t i = 0, j = 0; i < n0; i++) {
        if (map_del[i] && map_seen[i]) { gk[g] = m[j].key; gv[g++] = m[j].value; mdel(j); } else j++;
    }
#if HT_PROP == 3
    expect_events("map", gk, g, gv, g);
#endif
    raw_free(gk); raw_free(gv); raw_free(map_del); raw_free(map_seen);
}
static void check_order(void)
{
    struct cork_hash_table_iterator it; struct cork_hash_table_entry *e; size_t i = 0;
    cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it)) != NULL) {
        CHECK(i < mn, "the iterator yields more entries than the table has (%zu)", mn);
        CHECK(e->key == m[i].key, "the iterator's entry %zu is id %d, but the %zu-th key added (and still there) is id %d", i, id_of(e->key), i, m[i].id);
        CHECK(e->value == m[i].value, "the iterator's entry %zu (id %d) has the wrong value", i, m[i].id);
        i++;
    }
    CHECK(i == mn, "the iterator yields %zu entries, the table has %zu", i, mn);
    CHECK(cork_hash_table_iterator_next(&it) == NULL, "an exhausted iterator yields an entry");
}

enum { O_PUT, O_PUT_NULLS, O_GOC, O_GET, O_DEL, O_DEL_ENTRY, O_CLEAR, O_ENSURE, O_SETVAL, O_BULK_PUT, O_BULK_DEL, O_MAP, O_MAP_DEL, O_MAP_ABORT, O_ITER, O_USERDATA, O_N };

static void put(int id, void *v, bool nulls, bool usehash)
{
    void *k = mk(id), *ok = (void *) 0x11, *ov = (void *) 0x12; bool nw = 42; ssize_t i = mfind(id);
    bool *pn = nulls && pbt_chance(1, 2) ? NULL : &nw; void **pk = nulls && pbt_chance(1, 2) ? NULL : &ok, **pv = nulls && pbt_chance(1, 2) ? NULL : &ov;
    uint64_t hc = hash_calls;
    if (usehash) cork_hash_table_put_hash(t, hash_for(id, k), k, v, pn, pk, pv);
    else cork_hash_table_put(t, k, v, pn, pk, pv);
    if (usehash) CHECK(hash_calls == hc, "put_hash calls the hash callback");
#if HT_PROP == 3
    expect_events("put", NULL, 0, NULL, 0);
#endif
    if (i < 0) {
#if HT_PROP == 1
        CHECK(!pn || nw == true, "put of the new id %d says that it is not new", id);
        CHECK(!pk || ok == NULL, "put of the new id %d returns an old key", id);
        CHECK(!pv || ov == NULL, "put of the new id %d returns an old value", id);
#endif
        madd(id, k, v);
    } else {
#if HT_PROP != 2
        CHECK(!pn || nw == false, "put of the existing id %d says that it is new", id);
        CHECK(!pk || ok == m[i].key, "put of the existing id %d does not return the old key", id);
        CHECK(!pv || ov == m[i].value, "put of the existing id %d does not return the old value", id);
#endif
        pbt_label("put overwrites");
        m[i].key = k; m[i].value = v;
    }
}
static void del(int id, bool entry, bool usehash)
{
    ssize_t i = mfind(id); void *k = mk(id); void *dk = (void *) 0x21, *dv = (void *) 0x22; bool r;
    void *gk[1], *gv[1]; size_t g = 0;
    if (i >= 0) { gk[0] = m[i].key; gv[0] = m[i].value; g = 1; }
    if (entry) {
        struct cork_hash_table_entry *e = usehash ? cork_hash_table_get_entry_hash(t, hash_for(id, k), k) : cork_hash_table_get_entry(t, k);
        CHECK((e != NULL) == (i >= 0), "get_entry of id %d: %s, but it is %s the table", id, e ? "found" : "not found", i >= 0 ? "in" : "not in");
        if (!e) return;
        cork_hash_table_delete_entry(t, e);
        pbt_label("delete_entry");
    } else {
        void **pk = own_key ? NULL : &dk, **pv = own_val ? NULL : &dv;
        uint64_t hc = hash_calls;
        if (pbt_chance(1, 6)) pk = NULL;
        if (pbt_chance(1, 6)) pv = NULL;
        r = usehash ? cork_hash_table_delete_hash(t, hash_for(id, k), k, pk, pv) : cork_hash_table_delete(t, k, pk, pv);
        if (usehash) CHECK(hash_calls == hc, "delete_hash calls the hash callback");
        CHECK(r == (i >= 0), "delete of id %d returns %d, but it was %s the table", id, r, i >= 0 ? "in" : "not in");
#if HT_PROP != 2
        if (r && pk) CHECK(dk == m[i].key, "delete of id %d returns the wrong key", id);
        if (r && pv) CHECK(dv == m[i].value, "delete of id %d returns the wrong value", id);
#endif
    }
#if HT_PROP == 3
    expect_events("delete", gk, g, gv, g);
#endif
    if (i >= 0) { mdel(i); pbt_label("delete hits"); }
}


/*---- large tables: many entries, the model is an array indexed by id ----*/
#define BIGMAX 150000
static uint32_t *b_serial; static uintptr_t *b_val; static uint8_t *b_fk, *b_fv; static uint32_t b_next; static size_t b_n; static unsigned b_mode; static size_t b_live; static uint32_t b_last; static size_t b_seen; static unsigned b_dm; static bool b_abort; static size_t b_stop;
#define B_KEY(id) ((void *) (uintptr_t) (0x1000 + (id) * 8))
#define B_ID(k) (((uintptr_t) (k) - 0x1000) / 8)
static cork_hash b_hash(void *u, const void *k) { size_t i = B_ID(k); return b_mode == 0 ? (cork_hash) i * 2654435761u : b_mode == 1 ? (cork_hash) i : b_mode == 2 ? (cork_hash) (i / 4) : (cork_hash) i << 2; }
static bool b_eq(void *u, const void *a, const void *b) { return a == b; }
static void b_free_key(void *k) { size_t i = B_ID(k); CHECK(i < b_n, "large table: free_key got a key that was never added"); b_fk[i]++; }
static void b_free_val(void *v) { size_t i = (uintptr_t) v >> 20; CHECK(i < b_n, "large table: free_value got a value that was never added"); b_fv[i]++; }
static bool b_drop(size_t i) { return b_dm == 0 ? false : b_dm == 1 ? i % 2 : b_dm == 2 ? i % 7 != 3 : b_dm == 3 ? i > b_n / 2 : (i * 2654435761u >> 8) % 3 == 0; }
static enum cork_hash_table_map_result b_map(void *u, struct cork_hash_table_entry *e)
{
    size_t i = B_ID(e->key); CHECK(i < b_n && b_serial[i] != 0, "large table: map passes id %zu, which is not in the table", i); CHECK((uintptr_t) e->value == b_val[i], "large table: map passes a wrong value for id %zu", i);
    CHECK(b_serial[i] > b_last || HT_PROP != 2, "large table: map passes id %zu out of order", i); b_last = HT_PROP == 2 ? b_serial[i] : 0; b_seen++;
    CHECK(b_seen <= b_stop, "large table: map goes on after ABORT"); if (b_seen == b_stop) return CORK_HASH_TABLE_MAP_ABORT;
    if (b_drop(i)) { b_serial[i] = 0; b_live--; return CORK_HASH_TABLE_MAP_DELETE; } return CORK_HASH_TABLE_MAP_CONTINUE;
}
static void b_check(const char *what)
{
    CHECK(cork_hash_table_size(t) == b_live, "large table, after %s: the size is %zu, expected %zu", what, cork_hash_table_size(t), b_live);
    struct cork_hash_table_iterator it; struct cork_hash_table_entry *e; size_t n = 0; uint32_t last = 0; cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it)) != NULL) { size_t i = B_ID(e->key); CHECK(++n <= b_live, "large table, after %s: the iterator yields more than the %zu entries", what, b_live); CHECK(i < b_n && b_serial[i], "large table, after %s: the iterator yields id %zu, which is not in the table", what, i);
        CHECK(b_serial[i] > last || HT_PROP != 2, "large table, after %s: the iterator yields id %zu out of order", what, i); last = b_serial[i]; CHECK((uintptr_t) e->value == b_val[i], "large table, after %s: wrong value of id %zu", what, i); }
    CHECK(n == b_live, "large table, after %s: the iterator yields %zu of %zu entries", what, n, b_live);
#if HT_PROP == 1
    for (size_t i = 0; i < b_n; i++) { e = cork_hash_table_get_entry(t, B_KEY(i)); CHECK((e != NULL) == (b_serial[i] != 0), "large table, after %s: get_entry %s id %zu", what, e ? "finds" : "does not find", i); if (e) CHECK(e->key == B_KEY(i) && (uintptr_t) e->value == b_val[i], "large table, after %s: get_entry of id %zu gives a wrong entry", what, i); }
#endif
#if HT_PROP == 3
    for (size_t i = 0; i < b_n; i++) CHECK(b_fk[i] == b_fv[i], "large table, after %s: id %zu had its key freed %u times, its value %u times", what, i, b_fk[i], b_fv[i]);
#endif
}
static void big_case(void)
{
    b_n = pbt_u64(300, pbt_chance(1, 6) ? BIGMAX : 12000); b_mode = pbt_pick(4); size_t init = pbt_chance(1, 3) ? pbt_size(0, 2 * b_n) : 0; unsigned rounds = (unsigned) pbt_uniform(1, 3); size_t step = 1 + 2 * pbt_size(0, 500); uint32_t serial = 0; size_t freed = 0;
    while (b_n % step == 0 && step > 1) step += 2; { size_t a = b_n, b = step; while (b) { size_t c = a % b; a = b; b = c; } if (a != 1) step = 1; }
    pbt_trace("large table of %zu ids, step %zu, hash mode %u, initial size %zu", b_n, step, b_mode, init); if (b_n > 65536) pbt_label("more than 65536 entries");
    b_serial = raw_malloc(b_n * 4); b_val = raw_malloc(b_n * 8); b_fk = raw_malloc(b_n); b_fv = raw_malloc(b_n); memset(b_serial, 0, b_n * 4); memset(b_fk, 0, b_n); memset(b_fv, 0, b_n); b_live = 0;
    t = cork_hash_table_new(init, 0); cork_hash_table_set_hash(t, b_hash); cork_hash_table_set_equals(t, b_eq);
#if HT_PROP == 3
    cork_hash_table_set_free_key(t, b_free_key); cork_hash_table_set_free_value(t, b_free_val);
#endif
    for (unsigned r = 0; r < rounds; r++) {
        bool goc = pbt_chance(1, 2); pbt_trace("add all by %s", goc ? "get_or_create" : "put");
        for (size_t i = 0, id = 0; i < b_n; i++, id = (id + step) % b_n) { bool nw = 42; uintptr_t v = (uintptr_t) id << 20 | (r + 1); void *ov = (void *) 1;
            if (goc) { struct cork_hash_table_entry *e = cork_hash_table_get_or_create(t, B_KEY(id), &nw); e->value = (void *) v; } else { cork_hash_table_put(t, B_KEY(id), (void *) v, &nw, NULL, &ov); CHECK(b_serial[id] == 0 || HT_PROP == 2 || (uintptr_t) ov == b_val[id], "large table: put of id %zu returns a wrong old value", id); }
            CHECK(nw == (b_serial[id] == 0), "large table: id %zu is reported as %s", id, nw ? "new" : "not new"); if (nw) { b_serial[id] = ++serial; b_live++; } b_val[id] = v; }
        b_check("adding"); size_t before = b_live; b_dm = (unsigned) pbt_uniform(0, 4); unsigned how = pbt_pick(3);
        if (how == 0) { b_last = 0; b_seen = 0; b_stop = pbt_chance(1, 4) ? pbt_size(1, b_live) : (size_t) -1; pbt_trace("map, delete mode %u, abort at %zd", b_dm, (ssize_t) b_stop); cork_hash_table_map(t, NULL, b_map); CHECK(b_seen == (b_stop == (size_t) -1 ? before : b_stop), "large table: map calls its callback %zu times", b_seen); }
        else { pbt_trace("delete mode %u%s", b_dm, how == 2 ? ", by entry" : ""); for (size_t i = 0; i < b_n; i++) if (b_drop(i)) { if (how == 1) { bool d = cork_hash_table_delete(t, B_KEY(i), NULL, NULL); CHECK(d, "large table: delete does not find id %zu", i); } else { struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, B_KEY(i)); CHECK(e, "large table: get_entry does not find id %zu", i); cork_hash_table_delete_entry(t, e); } b_serial[i] = 0; b_live--; } }
        freed += before - b_live; b_check("deleting");
        if (pbt_chance(1, 4)) { pbt_trace("clear"); freed += b_live; cork_hash_table_clear(t); memset(b_serial, 0, b_n * 4); b_live = 0; b_check("clearing"); }
#if HT_PROP == 3
        size_t k = 0, v = 0; for (size_t i = 0; i < b_n; i++) { k += b_fk[i]; v += b_fv[i]; } CHECK(k == freed && v == freed, "large table: %zu entries left it, %zu keys and %zu values were freed", freed, k, v);
#endif
    }
    freed += b_live; cork_hash_table_free(t);
#if HT_PROP == 3
    { size_t k = 0, v = 0; for (size_t i = 0; i < b_n; i++) { k += b_fk[i]; v += b_fv[i]; } CHECK(k == freed && v == freed, "large table: %zu entries were freed or left, %zu keys and %zu values were freed", freed, k, v); }
#endif
    raw_free(b_serial); raw_free(b_val); raw_free(b_fk); raw_free(b_fv); pbt_nontrivial();
}

void pbt_init(void) { acct_install(); }
void pbt_case(void)
{
    if (pbt_large(500)) { big_case(); return; }
    static const int spaces[] = { 4, 12, 48, 150, 600 };
    kind = pbt_pick(5); hmode = pbt_pick(8); nids = spaces[pbt_pick(5)]; salt = pbt_uniform(0, 1); strmode = pbt_pick(4);
    longkey = 0; if (kind == K_STRING && pbt_large(40)) { static const size_t L[] = { 250, 1020, 4090, 32760, 65530 }; longkey = L[pbt_pick(5)] + pbt_uniform(0, 10); pbt_label("long keys"); pbt_trace("keys of more than %zu bytes", longkey); if (nids > 40) nids = 40; }
    mn = 0; gens = 0; allkeys = NULL; allvals = NULL; nek = nev = 0; ud_freed = 0; ud = NULL; memset(fixed, 0, sizeof fixed);
    own_key = own_val = false;
    if (kind == K_STRING && strmode == 3 && nids > 150) nids = 150;
    size_t init = pbt_chance(1, 2) ? 0 : pbt_size(0, 300);
    pbt_trace("table kind %d hash mode %u ids %d initial size %zu", kind, hmode, nids, init);
    switch (kind) {
        case K_STRING: t = cork_string_hash_table_new(init, 0); break;
        case K_POINTER: t = cork_pointer_hash_table_new(init, 0); break;
        default: t = cork_hash_table_new(init, 0); break;
    }
    bool with_ud = pbt_chance(1, 2); own_ud = false;
    if (kind == K_CUSTOM || pbt_chance(1, 4)) {
        if (with_ud) { ud = &ud_objs[0];
#if HT_PROP == 3
            own_ud = pbt_chance(2, 3);
#endif
            cork_hash_table_set_user_data(t, ud, own_ud ? cb_free_ud : NULL); }
    }
    if (kind == K_CUSTOM) { cork_hash_table_set_hash(t, cb_hash); cork_hash_table_set_equals(t, cb_eq); }
#if HT_PROP == 3
    own_key = pbt_chance(3, 4); own_val = pbt_chance(3, 4);
    if (own_key) cork_hash_table_set_free_key(t, cb_free_key);
    if (own_val) cork_hash_table_set_free_value(t, cb_free_val);
    pbt_trace("free_key %d free_value %d free_user_data %d", own_key, own_val, own_ud);
#endif
    /* with ownership, a fixed (pointer-identity) key must not be put twice once freed */
    uint64_t mask = pbt_swarm(O_N, 1u << O_PUT);
    unsigned st = 0; size_t maxn = 0; unsigned dels = 0, ops = 0;
    while (pbt_more(&st, 40, 400)) {
        unsigned op = pbt_op(mask, O_N); int id = (int) pbt_uniform(0, nids - 1);
        bool uh = pbt_chance(1, 4);
        ops++;
#if HT_PROP == 3
        /* a key object that the table has freed must not be offered again */
        if (kind != K_INT && fixed[id] && fixed[id]->freed) fixed[id] = NULL;
#endif
        switch (op) {
            case O_PUT: case O_PUT_NULLS: { void *v = mkval(); pbt_trace("put id %d%s", id, uh ? " (with hash)" : ""); put(id, v, op == O_PUT_NULLS, uh); break; }
            case O_GOC: {
                void *k = mk(id); bool nw = 42; ssize_t i = mfind(id); uint64_t hc = hash_calls;
                pbt_trace("get_or_create id %d", id);
                struct cork_hash_table_entry *e = uh ? cork_hash_table_get_or_create_hash(t, hash_for(id, k), k, &nw) : cork_hash_table_get_or_create(t, k, &nw);
                if (uh) CHECK(hash_calls == hc, "get_or_create_hash calls the hash callback");
                CHECK(e != NULL, "get_or_create returns NULL");
                if (i < 0) {
                    CHECK(nw == true, "get_or_create of the absent id %d says that it is not new", id);
                    CHECK(e->key == k && e->value == NULL, "a new entry does not hold the given key and a NULL value");
                    madd(id, k, NULL);
                    /* the entry's key may be replaced by an equal one */
                    if (pbt_chance(1, 3) && (kind == K_CUSTOM || kind == K_STRING)) { void *k2 = mk(id); e->key = k2; m[mn - 1].key = k2; pbt_trace("  replace the key object"); }
                    void *v = mkval(); e->value = v; m[mn - 1].value = v;
                } else { CHECK(nw == false, "get_or_create of the present id %d says that it is new", id); check_entry("get_or_create", e, i); pbt_label("get_or_create hits"); }
#if HT_PROP == 3
                expect_events("get_or_create", NULL, 0, NULL, 0);
#endif
                break; }
            case O_GET: {
                void *k = mk(id); ssize_t i = mfind(id); uint64_t hc = hash_calls; pbt_trace("get id %d", id);
                if (uh) {
                    void *v = cork_hash_table_get_hash(t, hash_for(id, k), k); struct cork_hash_table_entry *e = cork_hash_table_get_entry_hash(t, hash_for(id, k), k);
                    CHECK(hash_calls == hc, "get_hash calls the hash callback");
                    CHECK((e != NULL) == (i >= 0), "get_entry_hash of id %d is wrong", id);
                    CHECK(v == (i >= 0 ? m[i].value : NULL), "get_hash of id %d returns the wrong value", id);
                    if (i >= 0) check_entry("get_entry_hash", e, i);
                } else check_id(id);
                break; }
            case O_DEL: pbt_trace("delete id %d", id); del(id, false, uh); dels++; break;
            case O_DEL_ENTRY: pbt_trace("delete_entry id %d", id); del(id, true, uh); dels++; break;
            case O_CLEAR: {
                if (pbt_chance(3, 4)) break;
                pbt_trace("clear");
                cork_hash_table_clear(t);
#if HT_PROP == 3
                void **a = raw_malloc(mn * 8), **b = raw_malloc(mn * 8); for (size_t i = 0; i < mn; i++) { a[i] = m[i].key; b[i] = m[i].value; }
                expect_events("clear", a, mn, b, mn); raw_free(a); raw_free(b);
#endif
                if (mn) pbt_label("clear");
                mn = 0; dels++; break; }
            case O_ENSURE: { size_t n = pbt_chance(1, 80) ? pbt_uniform(60000, 270000) : pbt_size(0, 3000); if (n > 65536 && mn) pbt_label("grown beyond 65536 bins"); pbt_trace("ensure_size %zu", n); cork_hash_table_ensure_size(t, n); break; }
            case O_SETVAL: {
                void *k = mk(id); ssize_t i = mfind(id); if (i < 0) break; pbt_trace("entry value of id %d := new", id);
                struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, k); check_entry("get_entry", e, i);
                e->value = m[i].value = mkval(); break; }
            case O_BULK_PUT: {
                size_t n = pbt_size(1, 300), step = pbt_uniform(1, 5); pbt_trace("put %zu ids from %d step %zu", n, id, step);
                for (size_t i = 0; i < n; i++) { int d = (int) ((id + i * step) % nids);
#if HT_PROP == 3
                    if (kind != K_INT && fixed[d] && fixed[d]->freed) fixed[d] = NULL;
#endif
                    void *v = raw_malloc(sizeof(struct val)); ((struct val *) v)->next = allvals; allvals = v; put(d, v, false, uh); }
                break; }
            case O_BULK_DEL: {
                size_t n = pbt_size(1, 100); pbt_trace("delete %zu ids from %d", n, id);
                for (size_t i = 0; i < n; i++) del((int) ((id + i) % nids), false, uh);
                dels++; break; }
            case O_MAP: do_map(false, false); break;
            case O_MAP_DEL: do_map(true, pbt_chance(1, 4)); dels++; break;
            case O_MAP_ABORT: do_map(false, true); break;
            case O_USERDATA:
                /* other user data, owned or not: the old one is freed if it was owned */
                if (pbt_chance(1, 2)) {
                    int was = ud_freed; bool owned = own_ud, own = pbt_chance(1, 2); void *nud = ud == &ud_objs[0] ? &ud_objs[1] : &ud_objs[0];
                    pbt_trace("set_user_data, %sowned (the old one is %sowned)", own ? "" : "not ", owned ? "" : "not ");
                    cork_hash_table_set_user_data(t, nud, own ? cb_free_ud : NULL);
                    CHECK(HT_PROP != 3 || ud_freed - was == (owned ? 1 : 0), "replacing the user data freed the old one %d times, expected %d", ud_freed - was, owned);
                    ud = nud; own_ud = own; ud_freed = 0; if (owned) pbt_label("owned user data replaced");
                }
                break;
            case O_ITER:
#if HT_PROP == 2
                check_order();
#endif
                break;
        }
        if (mn > maxn) maxn = mn;
        CHECK(cork_hash_table_size(t) == mn, "size is %zu after the operation, expected %zu", cork_hash_table_size(t), mn);
#if HT_PROP == 1
        if (nids <= 12) check_all(); else check_id((int) (ops * 7 % nids));
#elif HT_PROP == 2
        check_order();
#endif
    }
#if HT_PROP == 1
    check_all();
#elif HT_PROP == 2
    do_map(false, false);
#endif
    if (maxn > 40) pbt_label("more than 40 entries");
    if (maxn > 240) pbt_label("more than 240 entries");
    if (dels) pbt_label("some deletion");
    pbt_trace("free with %zu entries", mn);
    if (mn) pbt_label("free with entries left");
    cork_hash_table_free(t);
#if HT_PROP == 3
    { void **a = raw_malloc(mn * 8), **b = raw_malloc(mn * 8); for (size_t i = 0; i < mn; i++) { a[i] = m[i].key; b[i] = m[i].value; }
      expect_events("free", a, mn, b, mn); raw_free(a); raw_free(b); }
    CHECK(ud_freed == (own_ud ? 1 : 0), "the table's user data was freed %d times, expected %d", ud_freed, own_ud ? 1 : 0);
    if (own_ud) pbt_label("owns user data");
#endif
    if (ops >= 3 && maxn >= 2) pbt_nontrivial();
    for (struct key *k = allkeys, *n; k; k = n) { n = k->next; raw_free(k); }
    for (struct val *v = allvals, *n; v; v = n) { n = v->next; raw_free(v); }
}
