/* Separate objects in separate threads: every thread's results equal those of the same operations run alone. */
#include "pbt.h"
#include "acct.h"
#include "schedule.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/ds.h"
#include "libcork/os.h"
#include "libcork/helpers/gc.h"
const char *pbt_rule = "a case is one script per thread (2 to 4 threads) of operations of every module on objects of the thread's own: errors, addresses, 128-bit numbers, buffers and pretty-printing, hash tables, arrays, lists, ring buffers, bit sets, pools, garbage collection, timestamps, paths, files in a directory of the thread's own, environments, execution specs, hashes, slices, streams, allocation; every script is run alone in a thread of its own, then all are run together under a generated schedule that may switch threads at every memory access of the library; what each operation returns and leaves behind must be the same both times; non-trivial: at least two threads with operations of the same module, and at least ten switches";

/*---- a thread's world ----*/
#define MAXOPS 24
struct node;
struct world {
    int nops, dir; struct { int op; uint64_t seed; } ops[MAXOPS];
    uint64_t log[2][MAXOPS]; uint64_t *cur; uint64_t rng, dig; char note[2][MAXOPS][160]; char (*notes)[160];
    struct cork_buffer buf, out; struct cork_hash_table *table; struct cork_mempool *mp; void *obj[40]; int nobj; cork_array(int) arr; struct cork_ring_buffer ring; struct cork_dllist list; struct item { struct cork_dllist_item i; int v; } items[40]; int nitems;
    struct cork_bitset *bits; struct cork_env *env; struct node *held[12]; int gcfreed; struct cork_path *path; struct cork_exec *exec;
};
static struct world W[4]; static int nw, pass;
static __thread struct world *w;
static uint64_t rnd(void) { uint64_t z = (w->rng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static int pick(int n) { return (int) (rnd() % (uint64_t) n); }
static void d64(uint64_t v) { w->dig = (w->dig ^ v) * 0x100000001b3ull; w->dig ^= w->dig >> 29; }
static void dmem(const void *p, size_t n) { const unsigned char *s = p; d64(n); for (size_t i = 0; i < n; i++) w->dig = (w->dig ^ s[i]) * 0x100000001b3ull; w->dig ^= w->dig >> 29; }
static void dstr(const char *s) { if (s) dmem(s, strlen(s)); else d64(77); }
/* what an operation saw, for the message */
static void note(const char *s) { snprintf(w->notes[w->cur - w->log[pass]], 160, "%s", s ? s : "NULL"); }
static void derr(void) { d64(cork_error_occurred()); if (cork_error_occurred()) { d64(cork_error_code()); dstr(cork_error_message()); note(cork_error_message()); } }
static char *word(char *o, int max, const char *al) { int n = pick(max + 1), l = (int) strlen(al); for (int i = 0; i < n; i++) o[i] = al[pick(l)]; o[n] = 0; return o; }

struct node { struct node *kid[2]; struct world *of; };
_free_(node) { struct node *self = obj; self->of->gcfreed++; }
_recurse_(node) { struct node *self = obj; recurse(gc, self->kid[0], ud); recurse(gc, self->kid[1], ud); }
_gc_(node);
static void initobj(void *ud, void *o) { memset(o, (int) (intptr_t) ud, 24); }
static void doneobj(void *ud, void *o) { d64(((unsigned char *) o)[3]); }
static enum cork_hash_table_map_result visit(void *ud, struct cork_hash_table_entry *e) { dstr(e->key); d64((uintptr_t) e->value); return (w->rng = w->rng * 7 + 1) % 5 ? CORK_HASH_TABLE_MAP_CONTINUE : CORK_HASH_TABLE_MAP_DELETE; }
static void freekey(void *k) { cork_strfree(k); }
static int eachfile(struct cork_file *f, const char *rel, void *ud) { uint64_t h = 0; for (const char *p = rel; *p; p++) h = h * 31 + (unsigned char) *p; *(uint64_t *) ud += h; enum cork_file_type t; if (cork_file_type(f, &t) == 0) *(uint64_t *) ud += (uint64_t) t * h; return 0; }
struct twalk { struct cork_dir_walker p; void *user_data; };
static int enter(struct cork_dir_walker *wk, const char *full, const char *rel, const char *base) { *(uint64_t *) ((struct twalk *) wk)->user_data += strlen(rel) * 3 + strlen(base); return 0; }
static int wfile(struct cork_dir_walker *wk, const char *full, const char *rel, const char *base) { *(uint64_t *) ((struct twalk *) wk)->user_data += strlen(rel) * 5 + 1; return 0; }
static int leave(struct cork_dir_walker *wk, const char *full, const char *rel, const char *base) { *(uint64_t *) ((struct twalk *) wk)->user_data += strlen(rel) * 7; return 0; }
static void setv(int code, const char *f, ...) { va_list a; va_start(a, f); cork_error_set_vprintf((cork_error) code, f, a); va_end(a); }

enum { ERR, IP, CIDR, U128, BUF, PRETTY, TABLE, ARRAY, LIST, RING, BITS, POOL, GC, TIME, PATHS, PLIST, FILES, ENV, EXEC, HASH, SLICE, STREAM, ALLOC, NOPS };
static const char *const opname[] = { "errors", "IP address", "CIDR", "128-bit numbers", "buffer", "pretty-printing", "hash table", "array", "list", "ring buffer", "bit set", "pool", "garbage collection", "timestamp", "paths", "path lists", "files", "environment", "execution spec", "hash", "slices", "streams", "allocation" };
static void begin(void)
{
    cork_buffer_init(&w->buf); cork_buffer_init(&w->out); w->table = cork_string_hash_table_new(0, 0); cork_hash_table_set_free_key(w->table, freekey);
    w->mp = cork_mempool_new_size_ex(24, 200); cork_mempool_set_user_data(w->mp, (void *) (intptr_t) (w->dir + 1), NULL); cork_mempool_set_init_object(w->mp, initobj); cork_mempool_set_done_object(w->mp, doneobj);
    w->nobj = 0; cork_array_init(&w->arr); cork_ring_buffer_init(&w->ring, 5); cork_dllist_init(&w->list); w->nitems = 0; w->bits = cork_bitset_new(77); w->env = cork_env_new();
    memset(w->held, 0, sizeof w->held); w->gcfreed = 0; w->path = cork_path_new("a/b"); w->exec = cork_exec_new("prog");
}
static void finish(void)
{
    cork_buffer_done(&w->buf); cork_buffer_done(&w->out); cork_hash_table_free(w->table); while (w->nobj) cork_mempool_free_object(w->mp, w->obj[--w->nobj]); cork_mempool_free(w->mp);
    cork_array_done(&w->arr); cork_ring_buffer_done(&w->ring); cork_bitset_free(w->bits); cork_env_free(w->env); for (int i = 0; i < 12; i++) if (w->held[i]) cork_gc_decref(w->held[i]);
    cork_gc_done(); d64((uint64_t) w->gcfreed); cork_path_free(w->path); cork_exec_free(w->exec);
}
static void rmtree(const char *d) { DIR *h = opendir(d); if (!h) return; struct dirent *e; char p[700]; while ((e = readdir(h))) { if (e->d_name[0] == '.' && (!e->d_name[1] || e->d_name[1] == '.')) continue; snprintf(p, sizeof p, "%s/%s", d, e->d_name); if (e->d_type == DT_DIR) rmtree(p); else unlink(p); } closedir(h); rmdir(d); }
static void address(char *s)
{
    struct cork_ipv6 v6; struct cork_ipv4 v4; int i;
    switch (pick(4)) {
        case 0: word(s, 20, "0123456789abcdef::."); break;
        case 1: for (i = 0; i < 4; i++) v4._.u8[i] = (uint8_t) rnd(); cork_ipv4_to_raw_string(&v4, s); break;
        default: for (i = 0; i < 8; i++) v6._.u16[i] = pick(2) ? 0 : (uint16_t) rnd(); cork_ipv6_to_raw_string(&v6, s); if (pick(4) == 0) strcat(s, word(s + 60, 2, "0:g")); break;
    }
}
static void perform(int op)
{
    char s[400], t[400]; int i, k;
    switch (op) {
        case ERR: for (k = 1 + pick(3); k--;) switch (pick(7)) {
                case 0: cork_error_set_printf((cork_error) (1 + pick(9)), "%s %d %s", word(s, 40, "abc"), pick(1000), word(t, 90, "xyz")); break;
                case 1: setv(1 + pick(9), "%d:%s", pick(100), word(s, 300, "mno")); break;
                case 2: cork_error_set_string((cork_error) (1 + pick(9)), word(s, 60, "pq")); break;
                case 3: cork_error_prefix_printf("%s-%d: ", word(s, 30, "rs"), pick(99)); break;
                case 4: errno = 1 + pick(140); cork_system_error_set(); break;
                case 5: cork_error_prefix_string(word(s, 80, "tu")); break;
                default: cork_error_clear(); } break;
        case IP: { struct cork_ip ip; address(s); dstr(s); int rc = cork_ip_init(&ip, s); d64((uint64_t) rc); if (rc == 0) { cork_ip_to_raw_string(&ip, t); dstr(t); note(t); } break; }
        case CIDR: { struct cork_ip ip; address(s); if (cork_ip_init(&ip, s) == 0) for (i = 0; i < 4; i++) d64(cork_ip_is_valid_network(&ip, (unsigned) pick(140))); break; }
        case U128: { cork_u128 a = cork_u128_from_64(pick(3) ? rnd() : 0, rnd()), b = cork_u128_from_64(rnd(), rnd()); dstr(cork_u128_to_decimal(s, cork_u128_add(a, b))); note(s); dstr(cork_u128_to_hex(s, cork_u128_sub(a, b))); dstr(cork_u128_to_padded_hex(s, a)); break; }
        case BUF: for (k = 1 + pick(4); k--;) switch (pick(6)) {
                case 0: cork_buffer_append_printf(&w->buf, "<%d %s %08x>", pick(9999), word(s, 30, "abc%"), (unsigned) rnd()); break;
                case 1: cork_buffer_printf(&w->buf, "%s|%*d", word(s, 120, "qwe"), pick(80), pick(7)); break;
                case 2: cork_buffer_append_string(&w->buf, word(s, 200, "uio")); break;
                case 3: cork_buffer_truncate(&w->buf, (size_t) pick(40)); break;
                case 4: cork_buffer_append_copy(&w->out, &w->buf); break;
                default: cork_buffer_set(&w->buf, word(s, 300, "zxc"), (size_t) strlen(s)); }
            if (w->buf.size > 3000) cork_buffer_clear(&w->buf); if (w->out.size > 3000) cork_buffer_clear(&w->out);
            dmem(w->buf.buf ? w->buf.buf : "", w->buf.size); dmem(w->out.buf ? w->out.buf : "", w->out.size); if (w->buf.size) note(w->buf.buf); break;
        case PRETTY: { struct cork_buffer o = CORK_BUFFER_INIT(); uint8_t b[120]; k = pick(120); for (i = 0; i < k; i++) b[i] = pick(3) ? (uint8_t) ('a' + pick(20)) : (uint8_t) rnd(); size_t in = (size_t) pick(6);
            switch (pick(5)) { case 0: cork_buffer_append_hex_dump(&o, in, (char *) b, (size_t) k); break; case 1: b[k < 120 ? k : 119] = 0; cork_buffer_append_c_string(&o, (char *) b, (size_t) k); break; case 2: cork_buffer_append_multiline(&o, in, (char *) b, (size_t) k); break; case 3: cork_buffer_append_binary(&o, in, (char *) b, (size_t) k); break; default: cork_buffer_append_indent(&o, in); cork_buffer_append_string(&o, "x"); }
            dmem(o.buf ? o.buf : "", o.size); note(o.buf); cork_buffer_done(&o); break; }
        case TABLE: for (k = 1 + pick(12); k--;) { snprintf(s, sizeof s, "key-%d", pick(60)); switch (pick(6)) {
                case 0: d64((uintptr_t) cork_hash_table_get(w->table, s)); break;
                case 1: { void *v = NULL; d64(cork_hash_table_delete(w->table, s, NULL, &v)); d64((uintptr_t) v); break; }
                case 2: { bool isnew; struct cork_hash_table_entry *e = cork_hash_table_get_or_create(w->table, s, &isnew); d64(isnew); if (isnew) { e->key = (void *) cork_strdup(s); e->value = (void *) (uintptr_t) pick(99); } else d64((uintptr_t) e->value); break; }
                default: { const char *key = cork_strdup(s); void *ok = NULL, *ov = NULL; bool isnew; cork_hash_table_put(w->table, (void *) key, (void *) (uintptr_t) pick(999), &isnew, &ok, &ov); d64(isnew); d64((uintptr_t) ov); if (!isnew && ok) cork_strfree(ok); } } }
            d64(cork_hash_table_size(w->table)); if (pick(2)) cork_hash_table_map(w->table, NULL, visit); else { struct cork_hash_table_iterator it; struct cork_hash_table_entry *e; cork_hash_table_iterator_init(w->table, &it); while ((e = cork_hash_table_iterator_next(&it))) { dstr(e->key); d64((uintptr_t) e->value); } } break;
        case ARRAY: for (k = 1 + pick(10); k--;) { if (pick(4) == 0 && cork_array_size(&w->arr)) cork_array_remove(&w->arr, (size_t) pick((int) cork_array_size(&w->arr))); else cork_array_append(&w->arr, pick(1000)); }
            for (i = 0; i < (int) cork_array_size(&w->arr); i++) d64((uint64_t) cork_array_at(&w->arr, (size_t) i));
            { struct cork_raw_array sa; cork_string_array_init((void *) &sa); for (k = pick(5); k--;) cork_string_array_append((void *) &sa, word(s, 12, "ab")); for (i = 0; i < (int) cork_raw_array_size(&sa); i++) dstr(*(const char **) cork_raw_array_at(&sa, (size_t) i)); cork_raw_array_done(&sa); } break;
        case LIST: for (k = 1 + pick(6); k--;) { if (w->nitems < 40) { struct item *it = &w->items[w->nitems++]; it->v = pick(99); if (pick(2)) cork_dllist_add_to_head(&w->list, &it->i); else cork_dllist_add_to_tail(&w->list, &it->i); } else if (!cork_dllist_is_empty(&w->list)) cork_dllist_remove(cork_dllist_head(&w->list)); }
            d64(cork_dllist_size(&w->list)); { struct cork_dllist_item *c, *n; struct item *e; cork_dllist_foreach(&w->list, c, n, struct item, e, i) d64((uint64_t) e->v); } break;
        case RING: for (k = 1 + pick(9); k--;) switch (pick(3)) { case 0: d64((uintptr_t) cork_ring_buffer_pop(&w->ring)); break; case 1: d64((uintptr_t) cork_ring_buffer_peek(&w->ring)); break; default: d64((uint64_t) cork_ring_buffer_add(&w->ring, (void *) (uintptr_t) (1 + pick(50)))); } break;
        case BITS: for (k = 1 + pick(9); k--;) { i = pick(77); cork_bitset_set(w->bits, i, pick(3) > 0); } for (i = 0; i < 77; i++) d64(!!cork_bitset_get(w->bits, i)); break;
        case POOL: for (k = 1 + pick(9); k--;) { if (w->nobj < 40 && pick(3)) { unsigned char *o = cork_mempool_new_object(w->mp); d64(o[0]); w->obj[w->nobj++] = o; } else if (w->nobj) { cork_mempool_free_object(w->mp, w->obj[--w->nobj]); } } break;
        case GC: for (k = 1 + pick(8); k--;) { i = pick(12); if (!w->held[i]) { w->held[i] = cork_gc_new(node); w->held[i]->of = w; w->held[i]->kid[0] = w->held[i]->kid[1] = NULL; }
                else if (pick(2)) { struct node *o = w->held[pick(12)]; int z = pick(2); if (o) { struct node *was = w->held[i]->kid[z]; w->held[i]->kid[z] = cork_gc_incref(o); if (was) cork_gc_decref(was); } }
                else { cork_gc_decref(w->held[i]); w->held[i] = NULL; } }
            if (pick(12) == 0) { struct node *o = cork_gc_new(node); o->of = w; o->kid[0] = o->kid[1] = NULL; cork_gc_incref(o); for (k = 0; k < 3; k++) { cork_gc_incref(o); cork_gc_decref(o); } o->kid[1] = o; cork_gc_decref(o); }
            d64((uint64_t) w->gcfreed); break;
        case TIME: { cork_timestamp ts; struct cork_buffer o = CORK_BUFFER_INIT(); cork_timestamp_init_usec(&ts, rnd() % 4102444800u, rnd() % 1000000); static const char *const f[] = { "%Y-%m-%d %H:%M:%S", "%s.%6f", "%Y%%%H", "%d.%m.%Y %H:%M:%S.%3f", "%S %z" }; k = pick(5); int rc = pick(2) ? cork_timestamp_format_utc(ts, f[k], &o) : cork_timestamp_format_local(ts, f[k], &o); d64((uint64_t) rc); dmem(o.buf ? o.buf : "", o.size); if (rc == 0) note(o.buf); cork_buffer_done(&o); d64(cork_timestamp_usec(ts)); break; }
        case PATHS: for (k = 1 + pick(4); k--;) switch (pick(7)) {
                case 0: cork_path_append(w->path, word(s, 12, "ab/.")); break; case 1: cork_path_set(w->path, word(s, 20, "ab/.")); break;
                case 2: { struct cork_path *p = cork_path_absolute(w->path); if (p) { dstr(cork_path_get(p)); cork_path_free(p); } break; } case 3: { struct cork_path *p = cork_path_dirname(w->path); dstr(cork_path_get(p)); cork_path_free(p); break; }
                case 4: { struct cork_path *p = cork_path_basename(w->path); dstr(cork_path_get(p)); cork_path_free(p); break; } case 5: { struct cork_path *p = cork_path_join(w->path, word(s, 9, "xy/")); dstr(cork_path_get(p)); cork_path_free(p); break; }
                default: cork_path_set_cwd(w->path); } dstr(cork_path_get(w->path)); note(cork_path_get(w->path)); if (strlen(cork_path_get(w->path)) > 300) cork_path_set(w->path, "a"); break;
        case PLIST: { struct cork_path_list *l = cork_path_list_new(word(s, 40, "ab:/")); dstr(cork_path_list_to_string(l)); for (i = 0; i < (int) cork_path_list_size(l); i++) dstr(cork_path_get(cork_path_list_get(l, (size_t) i))); struct cork_file *f = cork_path_list_find_file(l, "a"); d64(f != NULL); if (f) cork_file_free(f); cork_path_list_free(l);
            struct cork_path *h = pick(2) ? cork_path_home() : cork_path_user_cache_path(); if (h) { dstr(cork_path_get(h)); cork_path_free(h); } l = pick(2) ? cork_path_config_paths() : cork_path_data_paths(); if (l) { dstr(cork_path_list_to_string(l)); note(cork_path_list_to_string(l)); cork_path_list_free(l); } break; }
        case FILES: { for (k = 2 + pick(4); k--;) { snprintf(s, sizeof s, "t%d/%c%s", w->dir, 'a' + pick(3), pick(2) ? "" : pick(2) ? "/x" : "/x/y"); snprintf(t, sizeof t, "t%d", w->dir); struct cork_file *f; bool ex; enum cork_file_type ty; uint64_t sum = 0; i = pick(9);
                f = cork_file_new(i == 3 || i == 4 ? t : s);
                switch (i) {
                case 0: case 1: d64((uint64_t) cork_file_mkdir(f, 0755, (pick(2) ? CORK_FILE_RECURSIVE : 0) | (pick(2) ? CORK_FILE_PERMISSIVE : 0))); break; case 2: d64((uint64_t) cork_file_exists(f, &ex)); d64(ex); d64((uint64_t) cork_file_type(f, &ty)); d64((uint64_t) ty); break;
                case 3: case 4: d64((uint64_t) cork_file_iterate_directory(f, eachfile, &sum)); d64(sum); break; case 5: d64((uint64_t) cork_file_remove(f, (pick(2) ? CORK_FILE_RECURSIVE : 0) | (pick(2) ? CORK_FILE_PERMISSIVE : 0))); break;
                case 6: strcat(s, "/f"); i = open(s, O_CREAT | O_WRONLY, 0644); if (i >= 0) close(i); snprintf(s, sizeof s, "t%d/f%d", w->dir, pick(3)); i = open(s, O_CREAT | O_WRONLY, 0644); if (i >= 0) close(i); break;
                default: { struct twalk wk = { { enter, wfile, leave }, &sum }; d64((uint64_t) cork_walk_directory(t, &wk.p)); d64(sum); } } cork_file_free(f); derr(); } break; }
        case ENV: for (k = 1 + pick(5); k--;) { snprintf(s, sizeof s, "N%d", pick(12)); switch (pick(5)) { case 0: cork_env_remove(w->env, s); break; case 1: dstr(cork_env_get(w->env, s)); break; case 2: cork_env_add_printf(w->env, s, "%d/%s", pick(999), word(t, 30, "abc")); break; case 3: cork_env_add(w->env, s, word(t, 60, "def")); break;
                default: { struct cork_env *e = cork_env_clone_current(); dstr(cork_env_get(e, "HOME")); dstr(cork_env_get(e, "TZ")); cork_env_free(e); dstr(cork_env_get(NULL, "HOME")); } } } for (i = 0; i < 12; i++) { snprintf(s, sizeof s, "N%d", i); dstr(cork_env_get(w->env, s)); } break;
        case EXEC: { if (pick(3) == 0) { cork_exec_free(w->exec); w->exec = pick(2) ? cork_exec_new(word(s, 9, "prg")) : cork_exec_new_with_params("p", "p", word(s, 5, "ab"), word(t, 5, "cd"), NULL); } if (cork_exec_param_count(w->exec) < 20) cork_exec_add_param(w->exec, word(s, 20, "-xy")); if (pick(3) == 0) cork_exec_set_cwd(w->exec, word(s, 15, "/d")); if (pick(4) == 0) cork_exec_set_env(w->exec, cork_env_new());
            dstr(cork_exec_description(w->exec)); note(cork_exec_description(w->exec)); dstr(cork_exec_cwd(w->exec)); for (i = 0; i < (int) cork_exec_param_count(w->exec); i++) dstr(cork_exec_param(w->exec, (size_t) i)); break; }
        case HASH: { word(s, 300, "abcdefgh"); size_t l = strlen(s); d64(cork_hash_buffer((cork_hash) rnd(), s, l)); d64(cork_stable_hash_buffer((cork_hash) rnd(), s, l)); cork_big_hash seed = CORK_BIG_HASH_INIT(); cork_big_hash h = cork_big_hash_buffer(seed, s, l); d64(cork_u128_be64(h.u128, 0)); d64(cork_u128_be64(h.u128, 1)); break; }
        case SLICE: { struct cork_managed_buffer *m = cork_managed_buffer_new_copy(word(s, 60, "slice"), strlen(s)); struct cork_slice a, b, c; if (cork_managed_buffer_slice(&a, m, (size_t) pick(20), (size_t) pick(20)) == 0) { dmem(a.buf, a.size); if (cork_slice_copy(&b, &a, (size_t) pick(10), (size_t) pick(10)) == 0) { dmem(b.buf, b.size); cork_slice_finish(&b); } d64((uint64_t) cork_slice_slice(&a, (size_t) pick(5), (size_t) pick(9))); dmem(a.buf, a.size); cork_slice_finish(&a); } cork_managed_buffer_unref(m);
            cork_slice_init_copy_once(&c, s, strlen(s)); if (cork_slice_copy_offset(&b, &c, (size_t) pick(20)) == 0) { dmem(b.buf, b.size); cork_slice_finish(&b); } cork_slice_finish(&c); break; }
        case STREAM: { snprintf(s, sizeof s, "t%d/s", w->dir); struct cork_stream_consumer *o = cork_file_from_path_consumer_new(s, O_WRONLY | O_CREAT | O_TRUNC); if (o) { for (k = 0; k < 3; k++) { word(t, 200, "stream\n"); d64((uint64_t) cork_stream_consumer_data(o, t, strlen(t), k == 0)); } cork_stream_consumer_eof(o); cork_stream_consumer_free(o); }
            struct cork_buffer in = CORK_BUFFER_INIT(); o = cork_buffer_to_stream_consumer(&in); d64((uint64_t) cork_consume_file_from_path(o, pick(5) ? s : "missing", O_RDONLY)); cork_stream_consumer_free(o); dmem(in.buf ? in.buf : "", in.size); cork_buffer_done(&in); break; }
        case ALLOC: { const char *a = cork_strdup(word(s, 90, "strdup")), *b = cork_strndup(s, (size_t) pick(9) % (strlen(s) + 1)); dstr(a); dstr(b); cork_strfree(a); cork_strfree(b); size_t cn = (size_t) (1 + pick(20)); int *v = cork_calloc(cn, sizeof(int)); d64((uint64_t) v[0]); cork_cfree(v, cn, sizeof(int)); break; }
    }
    derr();
}
static void *script(void *v)
{
    w = v; w->dig = 0; w->rng = 1; w->cur = w->log[pass]; w->notes = w->note[pass]; begin();
    for (int i = 0; i < w->nops; i++, w->cur++) { w->rng = w->ops[i].seed; w->dig = 14695981039346656037ull; w->notes[i][0] = 0; perform(w->ops[i].op); *w->cur = w->dig; }
    w->dig = 1; finish(); cork_error_clear();
    return (void *) (uintptr_t) w->dig;
}
static size_t base; static int exit_code; static bool in_case;
static void last(void)
{
    if (!in_case) return;
#if !defined(CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS) || CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS
    if (acct_live() != base) pbt_fail("after the process's cleanup, %zu blocks of the library are still allocated", acct_live() - base);
#endif
    _exit(exit_code);
}
static void child(void *v)
{
    void *alone[4], *got[4]; char d[16]; in_case = true; pass = 0;
    for (int i = 0; i < nw; i++) { snprintf(d, sizeof d, "t%d", i); rmtree(d); mkdir(d, 0755); pthread_t t; if (pthread_create(&t, NULL, script, &W[i]) != 0) _exit(103); pthread_join(t, &alone[i]); }
    for (int i = 0; i < nw; i++) { snprintf(d, sizeof d, "t%d", i); rmtree(d); mkdir(d, 0755); }
    pass = 1; pthread_t t[4];
    sched_begin(*(unsigned *) v);
    for (int i = 0; i < nw; i++) pthread_create(&t[i], NULL, script, &W[i]);
    for (int i = 0; i < nw; i++) pthread_join(t[i], &got[i]);
    sched_end();
    for (int i = 0; i < nw; i++) {
        for (int k = 0; k < W[i].nops; k++) CHECK(W[i].log[0][k] == W[i].log[1][k], "thread %d, operation %d (%s) has another outcome than when the thread runs alone: %s, alone %s", i, k, opname[W[i].ops[k].op], pbt_quote(W[i].note[1][k], strlen(W[i].note[1][k])), pbt_quote(W[i].note[0][k], strlen(W[i].note[0][k])));
        CHECK(alone[i] == got[i], "thread %d: finishing its objects has another outcome than when the thread runs alone", i);
    }
    pbt_count("switches", sched_switches); pbt_count("scheduling points", sched_points);
    exit_code = sched_switches >= 10 ? 7 : 0;
    exit(exit_code);
}
void pbt_init(void)
{
    acct_install(); acct_check_leaks = false; sched_limit = 20000000; if (chdir(pbt_scratch()) != 0) _exit(103);
    setenv("TZ", "Europe/Paris", 1); setenv("HOME", "/home/x", 1); tzset(); unsetenv("XDG_CONFIG_HOME"); setenv("XDG_DATA_DIRS", "/a:/b", 1);
    base = acct_live(); atexit(last);
}
void pbt_case(void)
{
    unsigned mods[NOPS] = { 0 }; bool same = false; uint64_t mask = pbt_swarm(NOPS, 0);
    nw = 2 + (int) pbt_pick(3);
    if (pbt_chance(2, 3)) mask = 1ull << pbt_pick(NOPS) | (pbt_chance(1, 3) ? 1ull << pbt_pick(NOPS) : 0);    /* the same few modules in all threads */
    for (int i = 0; i < nw; i++) {
        W[i].dir = i; W[i].nops = 0; unsigned st = 0;
        while (pbt_more(&st, 6, MAXOPS)) { pbt_mark(); int k = W[i].nops++; W[i].ops[k].op = (int) pbt_op(mask, NOPS); W[i].ops[k].seed = pbt_uniform(0, 1u << 20); pbt_trace("thread %d, operation %d: %s, seed %llu", i, k, opname[W[i].ops[k].op], (unsigned long long) W[i].ops[k].seed); if ((mods[W[i].ops[k].op] |= 1u << i) & ~(1u << i)) same = true; pbt_label(opname[W[i].ops[k].op]); }
    }
    unsigned style = (unsigned) pbt_uniform(0, SCHED_STYLES - 1); int st = pbt_in_child(child, &style, false);
    CHECK(WIFEXITED(st), "the process was killed by signal %d", WTERMSIG(st));
    CHECK(WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7, "the process exits with status %d", WEXITSTATUS(st));
    if (same && WEXITSTATUS(st) == 7) pbt_nontrivial();
}
