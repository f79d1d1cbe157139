/* Environment collections and the process environment, against a map per collection. */
#include "pbt.h"
#include "acct.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/os.h"
const char *pbt_rule = "a case is a history of additions, formatted additions, replacements, removals, reads, clones of and installations into the process environment over up to four collections and the process environment itself (the NULL collection), with short, long, empty and unusual names and values; every collection is compared with a map of its own; non-trivial: at least four changes, among them a replacement or a removal of a present variable";
extern char **environ;
#define NV 84
#define NN 14 /* ordinary names */
#define NM 76 /* and the ones added in bulk */
struct map { struct cork_env *e; bool live; size_t n; const char *name[NV]; char *val[NV]; };
static struct map M[5]; /* 0: the process environment */
static const char *names[NN] = { "A", "B", "AB", "a", "PATH", "HOME", "_", "a b", "\xc3\xa9", "X1", "LONG", "A.B", "%s", "-n" };
static char longname[600], more[NM - NN][8];
static long find(struct map *m, const char *n) { for (size_t i = 0; i < m->n; i++) if (!strcmp(m->name[i], n)) return (long) i; return -1; }
static void drop(struct map *m) { for (size_t i = 0; i < m->n; i++) raw_free(m->val[i]); m->n = 0; }
static char *sdup(const char *s) { size_t n = strlen(s) + 1; char *p = raw_malloc(n); memcpy(p, s, n); return p; }
static void put(struct map *m, const char *n, const char *v)
{ long i = find(m, n); if (i < 0) { i = (long) m->n++; m->name[i] = n; } else raw_free(m->val[i]); m->val[i] = sdup(v); }
static void del(struct map *m, const char *n)
{ long i = find(m, n); if (i < 0) return; raw_free(m->val[i]); m->n--; m->name[i] = m->name[m->n]; m->val[i] = m->val[m->n]; }
static void copy(struct map *d, struct map *s) { drop(d); for (size_t i = 0; i < s->n; i++) { d->name[i] = s->name[i]; d->val[i] = sdup(s->val[i]); } d->n = s->n; }
static char pattern[5001];
static const char *value(void)
{
    static char out[5001]; size_t n;
    switch (pbt_pick(5)) {
        case 0: return "";
        case 1: { static const size_t l[] = { 15, 16, 17, 63, 64, 100, 255, 256, 1000, 4096, 5000 }; n = l[pbt_pick(11)]; memcpy(out, pattern + (n % 7), n - n % 7); out[n - n % 7] = 0; return out; }
        case 2: { static const char *const w[] = { "=", "a=b", "%s", "%d%n", "%", "\xff\xfe", "x\ny", " ", "A" }; return w[pbt_pick(9)]; }
        default: return pbt_str(1, 4, "ab=% "); }
}
static const char *nm(size_t k) { return k >= NN ? more[k - NN] : k == 10 ? longname : names[k]; }
static void get1(struct map *m, const char *n)
{
    long i = find(m, n); const char *v = cork_env_get(m->e, n);
    if (i < 0) CHECK(v == NULL, "%s has a value %s, it should have none", pbt_quote(n, strlen(n)), pbt_quote(v, strlen(v)));
    else { CHECK(v != NULL, "%s has no value, expected %s", pbt_quote(n, strlen(n)), pbt_quote(m->val[i], strlen(m->val[i]))); CHECK(!strcmp(v, m->val[i]), "%s has the value %s, expected %s", pbt_quote(n, strlen(n)), pbt_quote(v, strlen(v)), pbt_quote(m->val[i], strlen(m->val[i]))); }
}
static void getall(struct map *m) { for (size_t k = 0; k < NM; k++) get1(m, nm(k)); }
static unsigned stray;
static void process(void)
{
    struct map *m = &M[0]; size_t seen = 0, odd = 0;
    for (char **p = environ; p && *p; p++) {
        const char *eq = strchr(*p, '='); if (!eq) { odd++; continue; } size_t l = (size_t) (eq - *p); bool ok = false;
        for (size_t i = 0; i < m->n; i++) if (strlen(m->name[i]) == l && !memcmp(m->name[i], *p, l)) { ok = true; CHECK(!strcmp(eq + 1, m->val[i]), "the process environment has %s, expected the value %s", pbt_quote(*p, strlen(*p)), pbt_quote(m->val[i], strlen(m->val[i]))); }
        CHECK(ok, "the process environment has %s, which should not be there", pbt_quote(*p, strlen(*p))); seen++;
    }
    CHECK(seen == m->n, "the process environment has %zu variables, expected %zu", seen, m->n); CHECK(odd == stray, "the process environment has %zu entries that are not variables, expected %u", odd, stray);
}
static void addf(struct cork_env *e, const char *n, const char *f, ...) { va_list a; va_start(a, f); cork_env_add_vprintf(e, n, f, a); va_end(a); }
/* Thousands of variables, or values of many kilobytes. */
static void big_case(void)
{
    size_t n = pbt_u64(1, 8000), len = pbt_u64(1, 400000); if (n * len > 4000000) n = 1 + 4000000 / len; struct { char *v; } *m = raw_malloc(n * sizeof *m); size_t present = 0; uint64_t x = pbt_u64(1, 1000); char nm_[300]; clearenv(); stray = 0; drop(&M[0]);
    struct cork_env *e = pbt_chance(1, 3) ? NULL : cork_env_new(); bool longn = pbt_chance(1, 3); unsigned st = 0; pbt_trace("%zu variables with values of up to %zu bytes in %s", n, len, e ? "a collection" : "the process environment"); pbt_label(n > 1000 ? "thousands of variables" : "long values"); if (!e && n > 2000) n = 2000;
    for (size_t i = 0; i < n; i++) m[i].v = NULL;
    for (int round = 0; round < 3; round++) {
        for (size_t i = 0; i < n; i++) {
            x = x * 6364136223846793005ull + 1442695040888963407ull; snprintf(nm_, sizeof nm_, longn ? "%0200zu" : "V%zu", i);
            if (round == 0 || (x >> 40) % 4 == 0) {
                size_t l = (size_t) ((x >> 20) % (len + 1)); char *v = raw_malloc(l + 1); memset(v, 'a' + (int) (x >> 50) % 20, l); v[l] = 0;
                if (x & 1 << 18) cork_env_add(e, nm_, v); else cork_env_add_printf(e, nm_, "%s", v); present += !m[i].v; raw_free(m[i].v); m[i].v = v;
            } else if ((x >> 40) % 4 == 1) { cork_env_remove(e, nm_); present -= !!m[i].v; raw_free(m[i].v); m[i].v = NULL; }
        }
        for (size_t i = 0; i < n; i++) { snprintf(nm_, sizeof nm_, longn ? "%0200zu" : "V%zu", i); const char *v = cork_env_get(e, nm_); CHECK(!v == !m[i].v && (!v || !strcmp(v, m[i].v)), "variable %zu of %zu has the wrong value (%zu bytes, expected %zu)", i, n, v ? strlen(v) : 0, m[i].v ? strlen(m[i].v) : 0); }
        if (round == 1 && e) { cork_env_replace_current(e); if (pbt_chance(1, 2)) { cork_env_free(e); e = cork_env_clone_current(); pbt_label("large environment installed and cloned"); } }
        if (round >= 1 && (round == 1 || !e)) { size_t c = 0; for (char **p = environ; p && *p; p++) c++; CHECK(c == present, "the process environment has %zu variables, expected %zu", c, present); }
        if (round == 1) for (size_t i = 0; i < n; i++) { snprintf(nm_, sizeof nm_, longn ? "%0200zu" : "V%zu", i); if (i % 7 && n > 1000) continue; const char *v = getenv(nm_); CHECK(!v == !m[i].v && (!v || !strcmp(v, m[i].v)), "variable %zu of %zu of the process has the wrong value", i, n); }
    }
    if (e) cork_env_free(e); for (size_t i = 0; i < n; i++) raw_free(m[i].v); raw_free(m); (void) st; clearenv(); if (n >= 4) pbt_nontrivial();
}
void pbt_init(void)
{ memset(longname, 'N', sizeof longname - 1); for (int i = 0; i < NM - NN; i++) snprintf(more[i], sizeof more[i], "V%d", i); for (size_t i = 0; i < 5000; i++) pattern[i] = (char) ('a' + i % 23); acct_install(); cork_error_clear(); }
void pbt_case(void)
{
    if (pbt_large(1500)) { big_case(); return; }
    static char *own[64]; static char stray1[] = "notavariable"; unsigned st = 0; size_t changes = 0; bool deep = false;
    for (size_t i = 0; i < 5; i++) { drop(&M[i]); M[i].e = NULL; M[i].live = i == 0; }
    clearenv(); stray = 0; size_t initial = pbt_size(0, 6);
    for (size_t i = 0; i < initial; i++) { const char *n = nm(pbt_pick(NN)), *v = value(); setenv(n, v, 1); put(&M[0], n, v); }
    if (pbt_chance(1, 6) && environ) { size_t n = 0; while (environ[n]) n++; if (n < 60) { size_t at = pbt_uniform(0, n); for (size_t i = 0, j = 0; i <= n; i++) { if (i == at) own[j++] = stray1; own[j++] = environ[i]; } environ = own; stray = 1; pbt_label("malformed environment entry"); } }
    enum { NEW, CLONE, FREE, REPLACE, GET, ADD, ADDF, ADDV, SELF, REMOVE, BULK, NOPS }; uint64_t mask = pbt_swarm(NOPS, 1u << ADD);
    while (pbt_more(&st, 14, 80)) {
        pbt_mark(); unsigned op = pbt_op(mask | 1u << NEW, NOPS); size_t k = pbt_pick(5); struct map *m = &M[k]; const char *n = nm(pbt_chance(1, 5) ? pbt_pick(NM) : pbt_pick(NN));
        if ((op == NEW || op == CLONE) && (k == 0 || m->live)) op = GET;
        if (op > CLONE && !m->live) { m = &M[0]; k = 0; } if ((op == FREE || op == REPLACE) && k == 0) op = GET;
        pbt_trace("%s on %s %zu, %s", (const char *[]) { "new", "clone of the process", "free", "install", "get", "add", "add_printf", "add_vprintf", "add its own value", "remove", "add many" }[op], k ? "collection" : "the process environment", k, pbt_quote(n, strlen(n)));
        char key[600]; snprintf(key, sizeof key, "%s", n); bool had = find(m, n) >= 0; bool any = true;
        switch (op) {
            case NEW: m->e = cork_env_new(); m->live = true; drop(m); getall(m); any = false; break;
            case CLONE: m->e = cork_env_clone_current(); m->live = true; copy(m, &M[0]); pbt_label("clone"); break;
            case FREE: cork_env_free(m->e); m->live = false; m->e = NULL; drop(m); break;
            case REPLACE: cork_env_replace_current(m->e); copy(&M[0], m); stray = 0; pbt_label("install"); break;
            case GET: get1(m, n); any = false; break;
            case ADD: { char v[5001]; snprintf(v, sizeof v, "%s", value()); pbt_trace("  value %s", pbt_quote(v, strlen(v))); cork_env_add(m->e, key, v); put(m, n, v); memset(v, 'z', strlen(v)); changes++; if (had) deep = true; break; }
            case ADDF: case ADDV: { char v[5001], e[5100]; snprintf(v, sizeof v, "%s", value()); int num = (int) pbt_uniform(0, 2000) - 1000; snprintf(e, sizeof e, "%d:%s|", num, v); pbt_trace("  value %s", pbt_quote(e, strlen(e)));
                if (op == ADDF) cork_env_add_printf(m->e, key, "%d:%s|", num, v); else addf(m->e, key, "%d:%s|", num, v); put(m, n, e); memset(v, 'z', strlen(v)); changes++; if (had) deep = true; pbt_label(k ? "formatted" : "formatted, process environment"); break; }
            case SELF: { const char *o = nm(pbt_pick(NN)); long i = find(m, o); if (i < 0) { any = false; break; } const char *v = cork_env_get(m->e, o); CHECK(v, "%s has no value", o); char old[5100]; snprintf(old, sizeof old, "%s", m->val[i]);
                if (pbt_chance(1, 2) || strlen(old) > 3000) cork_env_add(m->e, key, v); else { cork_env_add_printf(m->e, key, "%s+%s", v, v); char two[10300]; snprintf(two, sizeof two, "%s+%s", old, old); if (strlen(two) > 5050) two[0] = 0; snprintf(old, sizeof old, "%s", two); if (!old[0]) pbt_discard(); } put(m, n, old); changes++; if (had) deep = true; pbt_label("value from the environment"); break; }
            case BULK: { size_t from = NN + pbt_pick(NM - NN), num = pbt_size(1, NM - NN); for (size_t i = 0; i < num; i++) { const char *b = nm(NN + (from + i) % (NM - NN)); if (find(m, b) >= 0) deep = true; cork_env_add(m->e, b, pattern + 4990); put(m, b, pattern + 4990); } changes++; getall(m); pbt_label(m->n > 40 ? "over 40 variables" : "many variables"); break; }
            case REMOVE: cork_env_remove(m->e, key); del(m, n); if (had) { changes++; deep = true; } else pbt_label("removal of an absent variable"); break;
        }
        memset(key, 'z', sizeof key); CHECK(!cork_error_occurred(), "an error is set: %s", cork_error_message());
        if (any) { process(); if (op >= ADD) get1(m, n); }
    }
    for (size_t i = 0; i < 5; i++) if (M[i].live) getall(&M[i]);
    process();
    if (M[1].live && pbt_chance(1, 2)) { cork_env_replace_current(M[1].e); copy(&M[0], &M[1]); stray = 0; process(); }
    for (size_t i = 1; i < 5; i++) if (M[i].live) { cork_env_free(M[i].e); M[i].live = false; } 
    process(); if (changes >= 4 && deep) pbt_nontrivial();
}
