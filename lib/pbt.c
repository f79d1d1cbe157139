/* The property-based testing engine (see pbt.h and DESIGN.md).
 *
 *   harness run --seed S --shard K --cases N --seconds T --out PREFIX
 *   harness replay FILE            (exit 0: passes; 1: fails)
 *
 * The process that is started never runs a case itself: it forks a worker, and
 * everything the worker draws is visible to it through shared memory, so that a
 * crash, an abort or a hang of the code under test leaves the exact case behind.
 * This file is compiled without instrumentation. */
#define _GNU_SOURCE
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <grp.h>

#define MAXC     (1u << 17)
#define MAXM     (1u << 14)
#define MAXTRACE (1u << 18)
#define MAXLABEL 96
#define MAXCOUNT 64
#define NSAMPLES 3

struct shm {
    volatile uint64_t case_no;
    volatile uint64_t evaluations;
    volatile uint64_t nontrivial;
    volatile uint64_t discarded;
    volatile uint64_t reruns;
    volatile uint64_t corpus;
    volatile uint64_t cov;
    volatile uint64_t mutated;
    volatile double   case_start, longest;
    volatile unsigned timeout;
    volatile int      failed;
    volatile int      done;
    volatile uint32_t nchoices;
    volatile uint32_t nmarks;
    uint64_t choices[MAXC];
    uint32_t marks[MAXM];
    char msg[8192];
    volatile uint32_t trace_len;
    char trace[MAXTRACE];
    char label[MAXLABEL][48];
    uint64_t label_n[MAXLABEL];
    char cname[MAXCOUNT][48];
    uint64_t cval[MAXCOUNT];
    volatile int nsamples;
    char sample[NSAMPLES][6000];
};
static struct shm *S;

bool pbt_tracing = false;
int (*pbt_after_case)(void) = NULL;
void (*pbt_before_case)(void) = NULL;

static uint64_t opt_seed = 1, opt_shard = 0, opt_cases = 1000;
static double opt_seconds = 60;
static const char *opt_out = NULL;
static char scratch_base[512];
static unsigned default_timeout = 20;

/*---- raw memory: straight to libc (ASan sees it, the checked allocator not) ----*/
void *raw_malloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *raw_realloc(void *p, size_t n) { p = realloc(p, n ? n : 1); if (!p) abort(); return p; }
void raw_free(void *p) { free(p); }

static double now(void)
{ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

/*---- random numbers ----*/
static uint64_t rng_s[4];
static uint64_t splitmix(uint64_t *x)
{ uint64_t z = (*x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void rng_seed(uint64_t a, uint64_t b, uint64_t c)
{ uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 1) * 0xd1342543de82ef95ull ^ (c + 1) * 0x2545f4914f6cdd1dull;
  for (int i = 0; i < 4; i++) rng_s[i] = splitmix(&x); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng(void)
{ uint64_t r = rotl(rng_s[1] * 5, 7) * 9, t = rng_s[1] << 17;
  rng_s[2] ^= rng_s[0]; rng_s[3] ^= rng_s[1]; rng_s[1] ^= rng_s[2]; rng_s[0] ^= rng_s[3];
  rng_s[2] ^= t; rng_s[3] = rotl(rng_s[3], 45); return r; }
/* a second stream for mutation decisions */
static uint64_t mrng_x;
static uint64_t mrng(void) { return splitmix(&mrng_x); }

/*---- dictionary of constants the code under test compares against ----*/
#define DICT 1024
static uint64_t dict[DICT];
static uint64_t dict_hash[DICT * 4];
static unsigned dict_n;
static bool dict_on = false;
static inline void dict_add(uint64_t c)
{
    if (c < 2 || dict_n >= DICT || !dict_on) return;
    unsigned h = (unsigned) ((c * 0x9e3779b97f4a7c15ull) >> 52) & (DICT * 4 - 1);
    for (int i = 0; i < 8; i++) {
        unsigned j = (h + i) & (DICT * 4 - 1);
        if (dict_hash[j] == c) return;
        if (dict_hash[j] == 0) { dict_hash[j] = c; dict[dict_n++] = c; return; }
    }
}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { dict_add(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { dict_add(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { dict_add(a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { dict_add(a); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases)
{ static uint64_t *seen[64]; unsigned h = ((uintptr_t) cases >> 4) & 63;
  if (seen[h] == cases || !dict_on) return; seen[h] = cases;
  for (uint64_t i = 0; i < cases[0]; i++) dict_add(cases[2 + i]); }

/*---- coverage counters ----*/
#define MAXREG 256
static struct { uint8_t *a, *b; uint8_t *seen; } reg[MAXREG];
static int nreg;
void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b)
{
    for (int i = 0; i < nreg; i++) if (reg[i].a == a) return;
    if (nreg < MAXREG && a < b) { reg[nreg].a = a; reg[nreg].b = b; nreg++; }
}
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { }
static uint8_t bucket(uint8_t c)
{ return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
static bool cov_scan(void)
{
    bool fresh = false;
    for (int r = 0; r < nreg; r++) {
        size_t n = reg[r].b - reg[r].a;
        if (!reg[r].seen) { reg[r].seen = raw_malloc(n); memset(reg[r].seen, 0, n); }
        uint8_t *a = reg[r].a, *s = reg[r].seen;
        for (size_t i = 0; i < n; i++) {
            if (a[i] == 0) continue;
            uint8_t b = bucket(a[i]);
            if (!(s[i] & b)) { if (s[i] == 0) S->cov++; s[i] |= b; fresh = true; }
            a[i] = 0;
        }
    }
    return fresh;
}
static void cov_clear(void)
{ for (int r = 0; r < nreg; r++) memset(reg[r].a, 0, reg[r].b - reg[r].a); }

/*---- the choice source ----*/
static const uint64_t *in_buf; static uint32_t in_len, in_pos;
static enum { SRC_FRESH, SRC_MUTATED, SRC_REPLAY } src_mode;

static inline void record(uint64_t v)
{ uint32_t n = S->nchoices; if (n < MAXC) { S->choices[n] = v; S->nchoices = n + 1; } }

static bool take(uint64_t span, uint64_t *v)
{
    if (src_mode == SRC_FRESH || in_pos >= in_len) {
        if (src_mode == SRC_REPLAY) { *v = 0; return true; }
        return false;
    }
    uint64_t x = in_buf[in_pos++];
    if (x > span) x = (src_mode == SRC_REPLAY) ? span : (span == UINT64_MAX ? x : x % (span + 1));
    *v = x;
    return true;
}
static uint64_t below(uint64_t span) /* uniform in [0,span] */
{ return span == UINT64_MAX ? rng() : (uint64_t) (((unsigned __int128) rng() * ((unsigned __int128) span + 1)) >> 64); }
static uint64_t loguni(uint64_t span)
{ if (span == 0) return 0; unsigned bits = 64 - __builtin_clzll(span);
  unsigned k = (unsigned) below(bits); if (k == 0) return below(span < 1 ? span : 1);
  uint64_t top = (k >= 64) ? UINT64_MAX : ((1ull << k) - 1); if (top > span) top = span; return below(top); }
static bool from_dict(uint64_t lo, uint64_t span, uint64_t *out)
{
    for (int t = 0; dict_n > 0 && t < 12; t++) {
        uint64_t c = dict[below(dict_n - 1)];
        switch (below(9)) { case 0: case 1: c--; break; case 2: case 3: c++; break; case 4: c *= 2; break; case 5: c /= 2; break; default: break; }
        if (c >= lo && c - lo <= span) { *out = c - lo; return true; }
    }
    return false;
}
static uint64_t edge(uint64_t lo, uint64_t span)
{
    switch (below(5)) {
        case 0: return 0; case 1: return span; case 2: return span ? 1 : 0; case 3: return span ? span - 1 : 0;
        default: {
            unsigned bits = 64 - (span ? __builtin_clzll(span) : 63);
            uint64_t p = 1ull << (below(bits) & 63); uint64_t d = below(2); p = p + d - 1;
            if (p >= lo && p - lo <= span) return p - lo;
            return below(span); }
    }
}
uint64_t pbt_uniform(uint64_t lo, uint64_t hi)
{
    uint64_t span = hi - lo, v;
    if (hi < lo) { fprintf(stderr, "pbt_uniform: bad range\n"); abort(); }
    if (!take(span, &v)) v = below(span);
    record(v); return lo + v;
}
uint64_t pbt_u64(uint64_t lo, uint64_t hi)
{
    uint64_t span = hi - lo, v;
    if (hi < lo) { fprintf(stderr, "pbt_u64: bad range\n"); abort(); }
    if (!take(span, &v)) {
        unsigned r = (unsigned) below(99);
        if (r < 14) v = edge(lo, span);
        else if (r < 26 && from_dict(lo, span, &v)) { }
        else if (r < 62) v = loguni(span);
        else v = below(span);
    }
    record(v); return lo + v;
}
size_t pbt_size(size_t lo, size_t hi)
{
    uint64_t span = hi - lo, v;
    if (hi < lo) { fprintf(stderr, "pbt_size: bad range\n"); abort(); }
    if (!take(span, &v)) {
        unsigned r = (unsigned) below(99);
        if (r < 8) v = edge(lo, span);
        else if (r < 18 && from_dict(lo, span, &v)) { }
        else if (r < 70) { uint64_t g = 0; while (below(7) != 0 && g < 200) g++; v = g > span ? below(span) : g; }
        else if (r < 90) v = loguni(span);
        else v = below(span);
    }
    record(v); return (size_t) (lo + v);
}
static bool case_large;
bool pbt_large(unsigned den)
{
    uint64_t v;
    if (!take(1, &v)) v = below(den - 1) < 1;
    if (src_mode == SRC_MUTATED) v = 0;
    record(v); if (v) { case_large = true; if (S->timeout < 60) S->timeout = 60; pbt_label("large"); } return v != 0;
}
bool pbt_chance(unsigned num, unsigned den)
{
    /* value 1 = true, 0 = false */
    uint64_t v;
    if (!take(1, &v)) v = below(den - 1) < num;
    record(v); return v != 0;
}
bool pbt_more(unsigned *st, size_t avg, size_t max)
{
    uint64_t v;
    if (*st >= max) return false;
    if (!take(1, &v)) v = below(avg) != 0;
    record(v);
    if (v) { (*st)++; pbt_mark(); }
    return v != 0;
}
uint64_t pbt_swarm(unsigned n, uint64_t need)
{
    uint64_t all = n >= 64 ? UINT64_MAX : (1ull << n) - 1, v;
    /* recorded as "disabled" bits, so that 0 (the simplest) enables everything */
    if (!take(all, &v)) {
        switch (below(3)) { case 0: v = 0; break; case 1: v = rng() & all; break;
                            case 2: v = rng() & rng() & all; break; default: v = (rng() & rng() & rng()) & all; }
    }
    record(v);
    uint64_t m = all & ~v;
    if (!(m & need)) m |= need;
    return m ? m : all;
}
unsigned pbt_op(uint64_t mask, unsigned n)
{
    unsigned c = __builtin_popcountll(mask), k = (unsigned) pbt_uniform(0, c - 1);
    for (unsigned i = 0; i < n; i++) if (mask >> i & 1) { if (k == 0) return i; k--; }
    return 0;
}
void pbt_fill(void *dst, size_t n, uint64_t seed)
{
    uint8_t *d = dst;
    if (seed == 0) { memset(d, 'a', n); return; }
    uint64_t x = seed; size_t i = 0;
    while (i < n) { uint64_t r = splitmix(&x); for (int k = 0; k < 8 && i < n; k++, i++) d[i] = (uint8_t) (r >> (8 * k)); }
}
void pbt_bytes(uint8_t *dst, size_t n, const char *al, size_t alen)
{ for (size_t i = 0; i < n; i++) dst[i] = al ? (uint8_t) al[pbt_uniform(0, alen - 1)] : (uint8_t) pbt_uniform(0, 255); }
const char *pbt_str(size_t minlen, size_t maxlen, const char *alphabet)
{
    static char *ring[64]; static unsigned k;
    size_t n = pbt_size(minlen, maxlen);
    unsigned i = k++ % 64;
    ring[i] = raw_realloc(ring[i], n + 1);
    if (alphabet) pbt_bytes((uint8_t *) ring[i], n, alphabet, strlen(alphabet));
    else for (size_t j = 0; j < n; j++) ring[i][j] = (char) pbt_uniform(1, 255);
    ring[i][n] = 0; return ring[i];
}
void pbt_mark(void) { uint32_t n = S->nmarks; if (n < MAXM) { S->marks[n] = S->nchoices; S->nmarks = n + 1; } }

/*---- classification ----*/
static bool case_nontrivial; static uint64_t label_seen[(MAXLABEL + 63) / 64];
static void bump(char (*names)[48], uint64_t *vals, int max, const char *name, uint64_t n, bool once)
{
    for (int i = 0; i < max; i++) {
        if (names[i][0] == 0) snprintf(names[i], 48, "%s", name);
        if (strncmp(names[i], name, 47) == 0) {
            if (once) { if (label_seen[i / 64] >> (i % 64) & 1) return; label_seen[i / 64] |= 1ull << (i % 64); }
            vals[i] += n; return;
        }
    }
}
void pbt_label(const char *name) { bump(S->label, S->label_n, MAXLABEL, name, 1, true); }
void pbt_count(const char *name, uint64_t n) { bump(S->cname, S->cval, MAXCOUNT, name, n, false); }
void pbt_nontrivial(void) { case_nontrivial = true; }
static jmp_buf discard_jmp;
void pbt_discard(void) { longjmp(discard_jmp, 1); }
void pbt_set_timeout(unsigned s) { S->timeout = s; }

/*---- trace & verdict ----*/
void pbt_trace_(const char *fmt, ...)
{
    va_list ap; uint32_t l = S->trace_len;
    if (l + 2 >= MAXTRACE) return;
    va_start(ap, fmt);
    int n = vsnprintf(S->trace + l, MAXTRACE - l - 2, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if ((uint32_t) n > MAXTRACE - l - 3) n = MAXTRACE - l - 3;
    l += n; S->trace[l++] = '\n'; S->trace[l] = 0; S->trace_len = l;
}
void pbt_fail(const char *fmt, ...)
{
    if (!S->failed) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
        S->failed = 1;
    }
    _exit(101);
}
bool pbt_failed_elsewhere(void) { return S->failed != 0; }
const char *pbt_quote(const void *vbuf, size_t len)
{
    static char ring[16][1200]; static unsigned k; char *o = ring[k++ % 16], *p = o; const uint8_t *b = vbuf;
    if (!b) return "NULL";
    *p++ = '"';
    for (size_t i = 0; i < len; i++) {
        if (p - o > 1100) { p += sprintf(p, "...(%zu bytes)", len); break; }
        if (b[i] >= 32 && b[i] < 127 && b[i] != '"' && b[i] != '\\') *p++ = b[i]; else p += sprintf(p, "\\x%02x", b[i]);
    }
    *p++ = '"'; *p = 0; return o;
}

/*---- scratch ----*/
static int rm_one(const char *p, const struct stat *st, int t, struct FTW *f)
{ (void) st; (void) f; if (t == FTW_DP || t == FTW_D || t == FTW_DNR) { if (rmdir(p) != 0 && errno == EACCES) { } } else unlink(p); return 0; }
static int ch_one(const char *p, const struct stat *st, int t, struct FTW *f)
{ (void) st; (void) f; if (t == FTW_D || t == FTW_DNR) chmod(p, 0700); return 0; }
static void wipe(const char *dir)
{ nftw(dir, ch_one, 32, FTW_PHYS | FTW_MOUNT); nftw(dir, rm_one, 32, FTW_PHYS | FTW_DEPTH | FTW_MOUNT); }
const char *pbt_scratch(void) { return scratch_base; }
static void make_scratch(void)
{
    const char *t = getenv("PBT_TMP"); if (!t) t = "/tmp";
    snprintf(scratch_base, sizeof scratch_base, "%s/pbt-XXXXXX", t);
    if (!mkdtemp(scratch_base)) { perror("mkdtemp"); exit(2); }
    chmod(scratch_base, 0755);
}
static void clean_scratch(bool remake)
{
    if (!scratch_base[0] || strlen(scratch_base) < 8) return;
    wipe(scratch_base);
    if (remake) { mkdir(scratch_base, 0755); }
}
void pbt_drop_privileges(void)
{
    if (geteuid() != 0) return;
    if (chown(scratch_base, 65534, 65534) != 0) { }
    if (setgroups(0, NULL) != 0) { }
    if (setresgid(65534, 65534, 65534) != 0 || setresuid(65534, 65534, 65534) != 0) {
        fprintf(stderr, "cannot drop privileges\n"); _exit(103); }
    prctl(PR_SET_DUMPABLE, 1); prctl(PR_SET_PDEATHSIG, SIGKILL);
}

int pbt_in_child(void (*fn)(void *), void *arg, bool quiet)
{
    fflush(NULL);
    pid_t p = fork(); int st = 0;
    if (p < 0) { perror("fork"); _exit(103); }
    if (p == 0) {
        if (quiet) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); close(d); }
        fn(arg); fflush(NULL); _exit(0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
    if (S->failed) _exit(101);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 102) pbt_fail("a sanitizer stopped the child process%s", quiet ? " (run the replay for its report)" : "");
    return st;
}

/*---- running one case in this process ----*/
static void run_once(void)
{
    S->nchoices = 0; S->nmarks = 0; S->trace_len = 0; S->trace[0] = 0;
    S->failed = 0; S->msg[0] = 0; S->timeout = default_timeout; case_large = false;
    case_nontrivial = false; memset(label_seen, 0, sizeof label_seen);
    S->case_start = now();
    in_pos = 0;
    if (pbt_before_case) pbt_before_case();
    pbt_case();
    if (S->failed) _exit(101);
}
/* Returns false when discarded. */
static bool run_checked(void)
{
    if (setjmp(discard_jmp)) { S->discarded++; return false; }
    run_once();
    if (pbt_after_case && pbt_after_case()) {
        /* Something is left over: a one-time cache, or a leak?  Ask again with
         * the very same choices; pbt_after_case fails the second time. */
        static uint64_t again[MAXC]; uint32_t n = S->nchoices;
        bool nt = case_nontrivial;
        memcpy(again, S->choices, n * sizeof *again);
        const uint64_t *ob = in_buf; uint32_t ol = in_len; int om = src_mode;
        for (int i = 0; i < 3; i++) {
            in_buf = again; in_len = n; src_mode = SRC_REPLAY;
            run_once(); S->reruns++;
            if (!pbt_after_case()) break;
            if (i == 2) { pbt_fail("storage is still allocated after the case, and more after every repetition of it"); }
        }
        in_buf = ob; in_len = ol; src_mode = om; case_nontrivial = nt;
    }
    { double d = now() - S->case_start; if (d > S->longest) S->longest = d; }
    S->case_start = 0;
    return true;
}

/*---- distinct non-trivial cases ----*/
static uint64_t *hset; static size_t hcap, hcnt;
static bool hset_add(uint64_t h)
{
    if (h == 0) h = 1;
    if (hcnt * 2 >= hcap) {
        size_t nc = hcap ? hcap * 2 : 4096; uint64_t *n = raw_malloc(nc * 8); memset(n, 0, nc * 8);
        for (size_t i = 0; i < hcap; i++) if (hset[i]) { size_t j = hset[i] & (nc - 1); while (n[j]) j = (j + 1) & (nc - 1); n[j] = hset[i]; }
        raw_free(hset); hset = n; hcap = nc;
    }
    size_t j = h & (hcap - 1);
    while (hset[j]) { if (hset[j] == h) return false; j = (j + 1) & (hcap - 1); }
    hset[j] = h; hcnt++; return true;
}
static uint64_t digest(void)
{ uint64_t h = 0xcbf29ce484222325ull; for (uint32_t i = 0; i < S->nchoices; i++) { h ^= S->choices[i]; h *= 0x100000001b3ull; h ^= h >> 29; } return h; }

/*---- corpus ----*/
struct ent { uint64_t *v; uint32_t n; };
static struct ent *corpus; static uint32_t ncorpus, capcorpus;
static void corpus_add(void)
{
    uint32_t n = S->nchoices; if (n == 0 || n > 6000 || ncorpus >= 4000) return;
    if (ncorpus == capcorpus) { capcorpus = capcorpus ? capcorpus * 2 : 64; corpus = raw_realloc(corpus, capcorpus * sizeof *corpus); }
    corpus[ncorpus].v = raw_malloc(n * 8); memcpy(corpus[ncorpus].v, S->choices, n * 8); corpus[ncorpus++].n = n; S->corpus = ncorpus;
}
static uint64_t mutval(uint64_t old)
{
    switch (mrng() % 8) {
        case 0: return 0; case 1: return old + 1; case 2: return old ? old - 1 : 0;
        case 3: return mrng() % 16; case 4: return mrng() >> (mrng() % 64); case 5: return old ^ (1ull << (mrng() % 64));
        case 6: return dict_n ? dict[mrng() % dict_n] + mrng() % 3 - 1 : mrng() % 256; default: return old * 2;
    }
}
static uint32_t mutate(uint64_t *out)
{
    struct ent *a = &corpus[(mrng() & 1) ? mrng() % ncorpus : ncorpus - 1 - mrng() % (ncorpus < 16 ? ncorpus : 16)];
    uint32_t n = a->n; memcpy(out, a->v, n * 8);
    int k = 1 + mrng() % 5;
    while (k-- > 0 && n > 0) {
        uint32_t i = mrng() % n, j = i + mrng() % (n - i < 64 ? n - i : 64);
        switch (mrng() % 8) {
            case 0: case 1: case 2: out[i] = mutval(out[i]); break;
            case 3: memmove(out + i, out + j, (n - j) * 8); n -= j - i; break;
            case 4: { uint32_t l = j - i; if (n + l > MAXC / 2) break; memmove(out + j, out + i, (n - i) * 8); n += l; break; }
            case 5: { struct ent *b = &corpus[mrng() % ncorpus]; uint32_t p = mrng() % b->n; if (i + b->n - p > MAXC / 2) break;
                      memcpy(out + i, b->v + p, (b->n - p) * 8); n = i + b->n - p; break; }
            case 6: n = i; break;
            default: out[i] = out[mrng() % n]; break;
        }
    }
    return n;
}

/*---- worker ----*/
static void child_common(void)
{
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_DFL);
}
static uint64_t sample_buf[NSAMPLES][MAXC]; static uint32_t sample_n[NSAMPLES]; static int nsample; static uint64_t nt_seen;
static void worker(uint64_t from)
{
    static uint64_t mut[MAXC];
    child_common();
    dict_on = true;
    pbt_init();
    cov_clear();
    double t0 = now();
    mrng_x = opt_seed * 1000003 + opt_shard * 7919 + from;
    for (uint64_t c = from; c < opt_cases; c++) {
        S->case_no = c;
        if ((c & 15) == 0 && now() - t0 > opt_seconds) break;
        rng_seed(opt_seed, opt_shard, c);
        /* a third of the cases are mutants of cases that reached new code */
        if (ncorpus > 8 && mrng() % 3 == 0) { in_buf = mut; in_len = mutate(mut); src_mode = SRC_MUTATED; S->mutated++; }
        else { in_len = 0; src_mode = SRC_FRESH; }
        if (!run_checked()) { cov_clear(); continue; }
        S->evaluations++;
        if (case_large) cov_clear(); else if (cov_scan()) corpus_add();
        if (case_nontrivial) {
            if (hset_add(digest())) S->nontrivial++;
            nt_seen++;
            int slot = -1;
            if (nsample < NSAMPLES) slot = nsample++;
            else if (mrng() % nt_seen < NSAMPLES) slot = mrng() % NSAMPLES;
            if (slot >= 0) { sample_n[slot] = S->nchoices; memcpy(sample_buf[slot], S->choices, S->nchoices * 8); }
        }
    }
    if (opt_out) {
        char p[600]; snprintf(p, sizeof p, "%s.hashes", opt_out);
        int fd = open(p, O_WRONLY | O_APPEND);
        if (fd < 0) fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0666);
        if (fd >= 0) {
            for (size_t i = 0; i < hcap; i++) if (hset[i]) if (write(fd, &hset[i], 8) != 8) break;
            close(fd);
        }
    }
    /* write out a few non-trivial cases, by replaying them with tracing on */
    uint64_t lab[MAXLABEL], cv[MAXCOUNT];
    memcpy(lab, S->label_n, sizeof lab); memcpy(cv, S->cval, sizeof cv);
    pbt_tracing = true;
    for (int i = 0; i < nsample; i++) {
        in_buf = sample_buf[i]; in_len = sample_n[i]; src_mode = SRC_REPLAY;
        if (!run_checked()) continue;
        snprintf(S->sample[S->nsamples++ % NSAMPLES], sizeof S->sample[0], "%s", S->trace);
    }
    memcpy(S->label_n, lab, sizeof lab); memcpy(S->cval, cv, sizeof cv);
    S->done = 1;
    _exit(0);
}
static void single(const uint64_t *v, uint32_t n, bool trace)
{
    child_common();
    pbt_init();
    pbt_tracing = trace;
    in_buf = v; in_len = n; src_mode = SRC_REPLAY;
    run_checked();
    _exit(0);
}

/*---- parent ----*/
static char errfile[600];
/* Waits for the child; returns 0 on success, 1 on failure, 2 on hang. */
static int supervise(pid_t pid, double limit)
{
    double t0 = now(); int st;
    useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (r < 0 && errno != EINTR) return 1;
        double cs = S->case_start, t = now();
        if ((cs > 0 && t - cs > S->timeout) || (limit > 0 && t - t0 > limit)) {
            kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0);
            if (!S->failed) snprintf(S->msg, sizeof S->msg, "the case did not finish within %.0f s", limit > 0 && !(cs > 0 && t - cs > S->timeout) ? limit : (double) S->timeout);
            return 2;
        }
        usleep(nap); if (nap < 10000) nap = nap * 5 / 4 + 1;
    }
    kill(-pid, SIGKILL);
    if (S->failed) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 103) { fprintf(stderr, "harness set-up failed\n"); exit(2); }
    if (WIFSIGNALED(st)) snprintf(S->msg, sizeof S->msg, "the process was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(S->msg, sizeof S->msg, "the process ended with status %d%s", WEXITSTATUS(st), WEXITSTATUS(st) == 102 ? " (sanitizer report)" : "");
    return 1;
}
static pid_t spawn(void)
{
    fflush(NULL);
    S->case_start = 0; S->failed = 0; S->msg[0] = 0; S->timeout = default_timeout;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    }
    return pid;
}
static int try_case(const uint64_t *v, uint32_t n, bool trace, unsigned hang)
{
    clean_scratch(true);
    default_timeout = hang;
    pid_t pid = spawn();
    if (pid == 0) single(v, n, trace);
    int r = supervise(pid, hang * 4);
    return r;
}

static void append_err(char *dst, size_t cap)
{
    size_t l = strlen(dst); FILE *f = fopen(errfile, "r"); if (!f) return;
    char line[1024]; int n = 0; bool on = false;
    while (fgets(line, sizeof line, f) && n < 40) {
        if (strstr(line, "ERROR:") || strstr(line, "runtime error") || strstr(line, "ssert")) on = true;
        if (!on) continue;
        size_t k = strlen(line); if (l + k + 2 >= cap) break;
        if (l && n == 0) dst[l++] = '\n';
        memcpy(dst + l, line, k + 1); l += k; n++;
    }
    fclose(f);
}
static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static uint64_t best[MAXC], cand[MAXC]; static uint32_t nbest;
static uint32_t bmarks[MAXM]; static uint32_t nbmarks;
static int attempts; static double shrink_until; static unsigned shrink_hang;
static bool accept(const uint64_t *v, uint32_t n)
{
    if (attempts++ > 1500 || now() > shrink_until) return false;
    int r = try_case(v, n, false, shrink_hang);
    if (r == 0) return false;
    if (r == 2 && shrink_hang < 10) return false;
    /* keep the choices as actually drawn */
    if (S->nchoices <= n && S->nchoices > 0) { nbest = S->nchoices; memcpy(best, S->choices, nbest * 8); }
    else { nbest = n; memmove(best, v, n * 8); }
    nbmarks = S->nmarks; memcpy(bmarks, S->marks, nbmarks * 4);
    return true;
}
static void shrink(bool hang)
{
    shrink_until = now() + (hang ? 60 : 40); shrink_hang = hang ? 10 : 5; attempts = 0;
    bool progress = true;
    while (progress && now() < shrink_until) {
        progress = false;
        /* remove whole operations, several at a time first */
        for (uint32_t span = nbmarks / 2 ? nbmarks / 2 : 1; span >= 1 && nbmarks > 0; span /= 2) {
            for (uint32_t i = 0; i + 1 <= nbmarks && now() < shrink_until; ) {
                /* an operation starts with its "continue" choice, just before the mark */
                uint32_t a = bmarks[i] ? bmarks[i] - 1 : 0;
                uint32_t b = (i + span < nbmarks) ? (bmarks[i + span] ? bmarks[i + span] - 1 : 0) : nbest;
                if (b > nbest) b = nbest;
                if (a >= b) { i++; continue; }
                memcpy(cand, best, a * 8); memcpy(cand + a, best + b, (nbest - b) * 8);
                if (accept(cand, nbest - (b - a))) progress = true; else i += 1;
                if (attempts > 1500) return;
            }
            if (span == 1) break;
        }
        for (uint32_t span = 16; span >= 1; span /= 2) {
            for (uint32_t i = 0; i + span <= nbest && now() < shrink_until && nbest <= 2000; ) {
                memcpy(cand, best, i * 8); memcpy(cand + i, best + i + span, (nbest - i - span) * 8);
                if (accept(cand, nbest - span)) progress = true; else i += span;
                if (attempts > 1500) return;
            }
            if (span == 1) break;
        }
        for (uint32_t i = 0; i < nbest && now() < shrink_until; i++) {
            if (best[i] == 0) continue;
            memcpy(cand, best, nbest * 8); cand[i] = 0;
            if (accept(cand, nbest)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < nbest ? best[i] : 0;
            for (int k = 0; k < 12 && hi - lo > 1 && i < nbest; k++) {
                uint64_t mid = lo + (hi - lo) / 2;
                memcpy(cand, best, nbest * 8); cand[i] = mid;
                if (accept(cand, nbest)) { hi = mid; progress = true; } else lo = mid;
            }
            if (attempts > 1500) return;
        }
    }
}

static void write_replay(const char *path, const char *msg, const char *mode, uint64_t case_no, const uint64_t *v, uint32_t n)
{
    FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
    fprintf(f, "# %s", getenv("PBT_PROPERTY") ? getenv("PBT_PROPERTY") : "?");
    fprintf(f, " replay file; run: python3 check.py %s --replay <this file>\nmode %s\nseed %llu\nshard %llu\ncase %llu\n",
            getenv("PBT_PROPERTY") ? getenv("PBT_PROPERTY") : "?", mode, (unsigned long long) opt_seed, (unsigned long long) opt_shard, (unsigned long long) case_no);
    fprintf(f, "variant %s\n", getenv("PBT_VARIANT") ? getenv("PBT_VARIANT") : "-");
    fprintf(f, "choices %u\n", n);
    for (uint32_t i = 0; i < n; i++) fprintf(f, "%llu%c", (unsigned long long) v[i], (i % 16 == 15 || i + 1 == n) ? '\n' : ' ');
    fprintf(f, "# what failed:\n");
    for (const char *p = msg; *p; ) { const char *e = strchr(p, '\n'); size_t l = e ? (size_t) (e - p) : strlen(p); fprintf(f, "#   %.*s\n", (int) l, p); p += l + (e ? 1 : 0); }
    fprintf(f, "# the case:\n");
    for (const char *p = S->trace; *p; ) { const char *e = strchr(p, '\n'); size_t l = e ? (size_t) (e - p) : strlen(p); fprintf(f, "#   %.*s\n", (int) l, p); p += l + (e ? 1 : 0); }
    fclose(f);
}

static void finish(int violations, const char *replay, const char *msg, int unrepro, double wall)
{
    char p[600]; snprintf(p, sizeof p, "%s.json", opt_out); FILE *f = fopen(p, "w"); if (!f) { perror(p); exit(2); }
    fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"discarded\": %llu, \"mutated\": %llu, \"corpus\": %llu, \"edges\": %llu, \"reruns\": %llu, \"dict\": %u, \"unreproduced\": %d, \"wall\": %.2f, \"longest\": %.2f, \"rule\": ",
            (unsigned long long) S->evaluations, (unsigned long long) S->nontrivial, (unsigned long long) S->discarded, (unsigned long long) S->mutated,
            (unsigned long long) S->corpus, (unsigned long long) S->cov, (unsigned long long) S->reruns, dict_n, unrepro, wall, S->longest);
    jstr(f, pbt_rule);
    fprintf(f, ", \"labels\": {"); bool c = false;
    for (int i = 0; i < MAXLABEL && S->label[i][0]; i++) { if (c) fputs(", ", f); jstr(f, S->label[i]); fprintf(f, ": %llu", (unsigned long long) S->label_n[i]); c = true; }
    fprintf(f, "}, \"counters\": {"); c = false;
    for (int i = 0; i < MAXCOUNT && S->cname[i][0]; i++) { if (c) fputs(", ", f); jstr(f, S->cname[i]); fprintf(f, ": %llu", (unsigned long long) S->cval[i]); c = true; }
    fprintf(f, "}, \"samples\": ["); c = false;
    for (int i = 0; i < NSAMPLES; i++) if (S->sample[i][0]) { if (c) fputs(", ", f); jstr(f, S->sample[i]); c = true; }
    fprintf(f, "], \"violations\": %d", violations);
    if (violations) { fprintf(f, ", \"replay\": "); jstr(f, replay); fprintf(f, ", \"message\": "); jstr(f, msg); }
    fprintf(f, "}\n"); fclose(f);
}

static int do_run(void)
{
    double t0 = now(); int unrepro = 0; uint64_t from = 0;
    snprintf(errfile, sizeof errfile, "%s.err", opt_out);
    /* the worker, possibly unprivileged by then, appends its hashes here */
    { char p[600]; snprintf(p, sizeof p, "%s.hashes", opt_out); int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd >= 0) { fchmod(fd, 0666); close(fd); } }
    for (;;) {
        unsigned dt = default_timeout;
        clean_scratch(true);
        S->done = 0;
        pid_t pid = spawn();
        if (pid == 0) worker(from);
        int r = supervise(pid, 0);
        if (r == 0 && S->done) { clean_scratch(false); finish(0, NULL, NULL, unrepro, now() - t0); return 0; }
        if (r == 0) { snprintf(S->msg, sizeof S->msg, "the process exited with status 0 in the middle of a case"); r = 1; }
        /* a failure: confirm, shrink, write */
        static char msg[16384], rp[600]; uint64_t cno = S->case_no;
        nbest = S->nchoices; memcpy(best, S->choices, nbest * 8);
        nbmarks = S->nmarks; memcpy(bmarks, S->marks, nbmarks * 4);
        snprintf(msg, sizeof msg, "%s", S->msg); append_err(msg, sizeof msg);
        snprintf(rp, sizeof rp, "%s.replay", opt_out);
        unsigned hangt = r == 2 ? (S->timeout > 20 ? S->timeout : 20) : 20;
        int hits = 0;
        struct { uint64_t ev, nt, di; } keep = { S->evaluations, S->nontrivial, S->discarded };
        bool slow = r == 2 && hangt >= 60; /* a minute more of hanging says enough */
        for (int i = 0; i < (slow ? 1 : 3); i++) if (try_case(best, nbest, false, hangt) != 0) hits++;
        if (slow && hits) hits = 3;
        if (hits > 0 && hits < 3) for (int i = 0; i < 4; i++) if (try_case(best, nbest, false, hangt) != 0) hits++;
        if (hits >= 3) {
            if (getenv("PBT_NO_SHRINK") == NULL) shrink(r == 2);
            static char m2[16384]; m2[0] = 0;
            if (try_case(best, nbest, true, hangt) != 0) { snprintf(m2, sizeof m2, "%s", S->msg); append_err(m2, sizeof m2); }
            if (!m2[0]) snprintf(m2, sizeof m2, "%s", msg);
            write_replay(rp, m2, "single", cno, best, nbest);
            S->evaluations = keep.ev + 1; S->nontrivial = keep.nt; S->discarded = keep.di;
            clean_scratch(false);
            finish(1, rp, m2, unrepro, now() - t0);
            return 1;
        }
        /* does the failure need the cases before it (state carried in the process)? */
        uint64_t oc = opt_cases; int again = 0; double os = opt_seconds; char *oo = (char *) opt_out;
        opt_cases = cno + 1; opt_seconds = 1e9; default_timeout = dt;
        for (int i = 0; i < 3; i++) {
            clean_scratch(true); S->done = 0; opt_out = NULL;
            pid = spawn(); if (pid == 0) worker(from);
            int q = supervise(pid, 300); opt_out = oo;
            if (q != 0 && S->case_no == cno) { again++; snprintf(msg, sizeof msg, "%s", S->msg); append_err(msg, sizeof msg); }
            else break;
        }
        opt_cases = oc; opt_seconds = os;
        if (again == 3) {
            write_replay(rp, msg, "history", cno, best, nbest);
            clean_scratch(false);
            finish(1, rp, msg, unrepro, now() - t0);
            return 1;
        }
        fprintf(stderr, "UNREPRODUCED (%d of the replays failed): %s\n", hits, msg);
        S->evaluations = keep.ev; S->nontrivial = keep.nt; S->discarded = keep.di; default_timeout = dt;
        unrepro++; from = cno + 1;
        if (unrepro >= 6) { clean_scratch(false); finish(0, NULL, NULL, unrepro, now() - t0); return 0; }
    }
}

static int do_replay(const char *path)
{
    FILE *f = fopen(path, "r"); if (!f) { perror(path); return 2; }
    char line[4096], mode[32] = "single"; uint32_t n = 0; unsigned long long x; uint64_t cno = 0;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        if (sscanf(line, "mode %31s", mode) == 1) continue;
        if (sscanf(line, "seed %llu", &x) == 1) { opt_seed = x; continue; }
        if (sscanf(line, "shard %llu", &x) == 1) { opt_shard = x; continue; }
        if (sscanf(line, "case %llu", &x) == 1) { cno = x; continue; }
        if (sscanf(line, "choices %u", &n) == 1) break;
    }
    for (uint32_t i = 0; i < n && i < MAXC; i++) { if (fscanf(f, "%llu", &x) != 1) break; best[i] = x; nbest = i + 1; }
    fclose(f);
    snprintf(errfile, sizeof errfile, "%s/stderr", scratch_base);
    int r;
    snprintf(errfile, sizeof errfile, "/tmp/pbt-replay-%d.err", getpid());
    if (strcmp(mode, "history") == 0) {
        opt_cases = cno + 1; opt_seconds = 1e9; opt_out = NULL;
        pid_t pid = spawn(); if (pid == 0) worker(0);
        r = supervise(pid, 600);
    } else r = try_case(best, nbest, true, 40);
    clean_scratch(false);
    printf("%s", S->trace);
    if (r) { static char m[16384]; snprintf(m, sizeof m, "%s", S->msg); append_err(m, sizeof m); printf("FAILS: %s\n", m); }
    else printf("passes\n");
    unlink(errfile);
    return r ? 1 : 0;
}

const char *__asan_default_options(void);
const char *__asan_default_options(void)
{ return "detect_leaks=0:exitcode=102:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=8:print_legend=0:symbolize=1"; }
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "halt_on_error=1:print_stacktrace=1:exitcode=102"; }

int main(int argc, char **argv)
{
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    setenv("ASAN_SYMBOLIZER_PATH", "/usr/bin/llvm-symbolizer-18", 0);
    if (getenv("PBT_CASE_TIMEOUT")) default_timeout = atoi(getenv("PBT_CASE_TIMEOUT"));
    if (argc < 2) return 2;
    make_scratch();
    int rc = 2;
    if (strcmp(argv[1], "run") == 0) {
        for (int i = 2; i + 1 < argc; i += 2) {
            if (!strcmp(argv[i], "--seed")) opt_seed = strtoull(argv[i + 1], 0, 10);
            else if (!strcmp(argv[i], "--shard")) opt_shard = strtoull(argv[i + 1], 0, 10);
            else if (!strcmp(argv[i], "--cases")) opt_cases = strtoull(argv[i + 1], 0, 10);
            else if (!strcmp(argv[i], "--seconds")) opt_seconds = atof(argv[i + 1]);
            else if (!strcmp(argv[i], "--out")) opt_out = argv[i + 1];
        }
        if (opt_out) rc = do_run();
    } else if (strcmp(argv[1], "replay") == 0 && argc > 2) rc = do_replay(argv[2]);
    clean_scratch(false);
    return rc;
}
