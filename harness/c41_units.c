/* Definitions made with libcork's macros: generated programs of several compilation units and shared libraries. */
#include "pbt.h"
#include "util.h"
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
const char *pbt_rule = "a case is a generated program of 1 to 5 compilation units, spread over the program and up to 2 shared libraries, compiled with gcc or clang at some optimisation level: each unit defines unique identifiers (C names and human-readable names shared with other units), initializers and finalizers, and structures whose fields lead back to their container, and encodes version numbers given as expressions; the program reports every comparison and each run of an initializer or finalizer, and the report is compared with what was generated; non-trivial: at least two units, at least two identifiers of one name, and an initializer or finalizer";
#define MU 5
#define MI 40
static char SC[600], GEN[4200], INC[4200]; static const char *CCS[2] = { "/usr/bin/gcc", "/usr/bin/clang" }; static int ncc;
static struct id { int unit; char cname[24]; char name[700]; size_t len; bool named; } ID[MI]; static int nid, ninit, nfin, nunit, nlib, module[MU];
static FILE *F;
static const char *POOL[] = { "id", "a", "my_type", "x1", "cork", "other_id", "name", "i_d" };
static const char *FT[] = { "char", "short", "int", "long", "double", "long double", "void *", "struct in { char p; long q[2]; } ", "char", "const int", "unsigned char" };
static void mk(const char *n, const char *c) { char p[800]; snprintf(p, sizeof p, "%s/%s", SC, n); FILE *f = fopen(p, "w"); if (!f) _exit(103); fputs(c, f); fclose(f); }
static void cat(char *d, const char *s, size_t cap) { size_t n = strlen(d); snprintf(d + n, cap - n, "%s", s); }

void pbt_init(void)
{
    snprintf(SC, sizeof SC, "%s", pbt_scratch()); setenv("TMPDIR", SC, 1); /* what a compiler leaves behind when it is stopped */ const char *r = getenv("PBT_REPO"); snprintf(INC, sizeof INC, "-I%s/include", r ? r : "/repo"); snprintf(GEN, sizeof GEN, "-I%s/gen", getenv("PBT_BUILD"));
    ncc = 0; for (int i = 0; i < 2; i++) if (access(CCS[i], X_OK) == 0) CCS[ncc++] = CCS[i];
    char id[4300], ver[4300]; snprintf(id, sizeof id, "%s/src/libcork/core/id.c", r ? r : "/repo"); snprintf(ver, sizeof ver, "%s/src/libcork/core/version.c", r ? r : "/repo");
    /* the emitted copies of the inline functions */
    char o[700]; static char e[4000]; size_t en = sizeof e - 1; snprintf(o, sizeof o, "%s/id.o", SC);
    char *a[] = { (char *) CCS[0], "-w", "-O2", "-fPIC", GEN, INC, "-DCORK_API=CORK_LOCAL", "-c", id, "-o", o, NULL }; if (util_run(CCS[0], a, NULL, NULL, NULL, e, &en)) { fprintf(stderr, "%s\n", e); _exit(103); }
    char o2[700]; snprintf(o2, sizeof o2, "%s/version.o", SC); en = sizeof e - 1;
    char *b[] = { (char *) CCS[0], "-w", "-O2", "-fPIC", GEN, INC, "-DCORK_API=CORK_LOCAL", "-c", ver, "-o", o2, NULL }; if (util_run(CCS[0], b, NULL, NULL, NULL, e, &en)) { fprintf(stderr, "%s\n", e); _exit(103); }
    mk("t.h", "#include <libcork/core/attributes.h>\n#include <libcork/core/types.h>\n#include <libcork/core/api.h>\n#include <libcork/core/id.h>\n#include <string.h>\n"
        "extern void note(char c, int i, long v); extern int one, zero;\n");
    mk("note.c", "#include <stdio.h>\n#include <string.h>\n#include <unistd.h>\nint one = 1, zero = 0;\nvoid note(char c, int i, long v) { char b[80]; int n = snprintf(b, sizeof b, \"%c %d %ld\\n\", c, i, v); if (write(1, b, n) != n) _exit(9); }\n");
    char n1[700], n2[700]; snprintf(n1, sizeof n1, "%s/note.c", SC); snprintf(n2, sizeof n2, "%s/note.o", SC); en = sizeof e - 1;
    char *c[] = { (char *) CCS[0], "-w", "-O1", "-fPIC", "-c", n1, "-o", n2, NULL }; if (util_run(CCS[0], c, NULL, NULL, NULL, e, &en)) _exit(103);
}
static void lit(const char *s, size_t n) { fputc('"', F); for (size_t i = 0; i < n; i++) fprintf(F, "\\%03o", (unsigned char) s[i]); fputc('"', F); }
/* an expression with the value v: variables must not be folded away by a careless macro, operators bind in every way */
static void expr(char *o, size_t cap, unsigned v)
{
    unsigned k;
    switch (pbt_pick(9)) {
        case 0: case 1: snprintf(o, cap, "%u", v); break; case 2: snprintf(o, cap, "(%u)", v); break;
        case 3: k = (unsigned) pbt_uniform(0, v); snprintf(o, cap, "%u + %u", k, v - k); break;
        case 4: k = (unsigned) pbt_uniform(0, 50); snprintf(o, cap, "%u - %u", v + k, k); break;
        case 5: snprintf(o, cap, "one ? %u : 7", v); break; case 6: snprintf(o, cap, "%u | zero", v); break;
        case 7: snprintf(o, cap, "zero ? 3 : %u", v); break; default: snprintf(o, cap, "%u << zero", v); break;
    }
}
static long want_ver[64]; static int nver; static int nfield;
static void unit(int u)
{
    char p[800]; snprintf(p, sizeof p, "%s/u%d.c", SC, u); F = fopen(p, "w"); if (!F) _exit(103); int first = nid; fprintf(F, "#include \"t.h\"\n");
    int n = (int) pbt_uniform(0, 5); unsigned used = 0;
    for (int i = 0; i < n && nid < MI; i++) {
        unsigned c = pbt_pick(8); if (used >> c & 1) continue; used |= 1u << c; struct id *d = &ID[nid]; d->unit = u; snprintf(d->cname, sizeof d->cname, "%s", POOL[c]); d->named = pbt_chance(1, 2);
        if (d->named) { const char *s = pbt_chance(1, 4) ? POOL[pbt_pick(8)] : nid && pbt_chance(1, 3) ? ID[pbt_pick((size_t) nid)].name : pbt_str(0, pbt_chance(1, 8) ? 600 : 20, NULL); char t[700]; snprintf(t, sizeof t, "%s", s); memcpy(d->name, t, sizeof t); } else snprintf(d->name, sizeof d->name, "%s", d->cname);
        d->len = strlen(d->name);
        if (d->named) { fprintf(F, "cork_uid_define_named(%s, ", d->cname); lit(d->name, d->len); fprintf(F, ")\n"); } else fprintf(F, "cork_uid_define(%s)\n", d->cname);
        pbt_trace("unit %d: identifier %s%s%s", u, d->cname, d->named ? " named " : "", d->named ? pbt_quote(d->name, d->len) : ""); nid++;
    }
    /* getters, and comparisons made in this unit */
    fprintf(F, "cork_uid get%d(int k) { switch (k) {", u); for (int i = first; i < nid; i++) fprintf(F, " case %d: return %s;", i, ID[i].cname); fprintf(F, " } return CORK_UID_NONE; }\n");
    fprintf(F, "int eq%d(cork_uid a, cork_uid b) { return cork_uid_equal(a, b); }\ncork_hash hash%d(cork_uid a) { return cork_uid_hash(a); }\nconst char *nm%d(cork_uid a) { return cork_uid_name(a); }\n", u, u, u);
    /* initializers and finalizers: their bodies may use the unit's identifiers */
    int k = (int) pbt_size(0, 4); for (int i = 0; i < k; i++) { pbt_trace("unit %d: initializer %d", u, ninit); fprintf(F, "CORK_INITIALIZER(start%d)\n{ note('I', %d, ", i, ninit++); if (nid > first) fprintf(F, "cork_uid_equal(%s, %s) && !cork_uid_equal(%s, CORK_UID_NONE)); }\n", ID[first].cname, ID[first].cname, ID[first].cname); else fprintf(F, "1); }\n"); }
    k = (int) pbt_size(0, 3); for (int i = 0; i < k; i++) { pbt_trace("unit %d: finalizer %d", u, nfin); fprintf(F, "CORK_FINALIZER(end%d) { note('F', %d, 1); }\n", i, nfin++); }
    /* structures */
    int ns = (int) pbt_size(0, 3); fprintf(F, "void fields%d(void) {\n", u);
    for (int s = 0; s < ns; s++) {
        int nf = (int) pbt_uniform(1, 6); unsigned ty[6], ar[6]; fprintf(F, "  struct s%d {", s); bool packed = pbt_chance(1, 4);
        for (int f = 0; f < nf; f++) { ty[f] = pbt_pick(11); ar[f] = pbt_chance(1, 3) ? (unsigned) pbt_size(1, 5000) : 0; if (ty[f] == 7) fprintf(F, " struct { char p; long q[2]; } f%d", f); else fprintf(F, " %s f%d", FT[ty[f]], f); if (ar[f]) fprintf(F, "[%u]", ar[f]); fputc(';', F); }
        fprintf(F, " }%s; static struct s%d o%d; struct s%d *w = &o%d, *x;\n", packed ? " __attribute__((packed))" : "", s, s, s, s);
        for (int f = 0; f < nf; f++) {
            char sel[100]; snprintf(sel, sizeof sel, "f%d", f); if (ar[f]) { char q[30]; snprintf(q, sizeof q, "[%zu]", pbt_pick(ar[f])); cat(sel, q, sizeof sel); } if (ty[f] == 7) cat(sel, pbt_chance(1, 2) ? ".p" : ".q[1]", sizeof sel);
            switch (pbt_pick(4)) {
                case 0: fprintf(F, "  note('C', %d, cork_container_of(&w->%s, struct s%d, %s) == w);\n", nfield++, sel, s, sel); break;
                case 1: fprintf(F, "  { const void *m = &w->%s; x = cork_container_of((void *) m, struct s%d, %s); note('C', %d, x == &o%d); }\n", sel, s, sel, nfield++, s); break;
                case 2: fprintf(F, "  note('C', %d, &cork_container_of(one ? (char *) &w->%s : (char *) 0, struct s%d, %s)->f0 == &w->f0);\n", nfield++, sel, s, sel); break;
                default: fprintf(F, "  x = cork_container_of((char *) &w->%s + zero, struct s%d, %s); note('C', %d, x == w && (char *) x - (char *) &o%d == 0);\n", sel, s, sel, nfield++, s); break;
            }
        }
        fprintf(F, "  (void) x;\n"); if (s + 1 < ns) fprintf(F, "  {\n");
    }
    for (int s = 0; s + 1 < ns; s++) fprintf(F, "  }\n");
    fprintf(F, "}\n");
    int nv = (int) pbt_size(0, 4); fprintf(F, "void versions%d(void) {\n", u);
    for (int i = 0; i < nv && nver < 64; i++) { char e[3][60]; unsigned v[3]; for (int j = 0; j < 3; j++) { v[j] = (unsigned) pbt_u64(0, j ? 999 : 1000); expr(e[j], sizeof e[j], v[j]); }
        want_ver[nver] = v[0] * 1000000l + v[1] * 1000 + v[2]; pbt_trace("unit %d: version (%s, %s, %s)", u, e[0], e[1], e[2]);
        unsigned form = pbt_pick(3); fprintf(F, form == 0 ? "  note('V', %d, CORK_MAKE_VERSION(%s, %s, %s));\n" : form == 1 ? "  { long v = 2 * CORK_MAKE_VERSION(%2$s, %3$s, %4$s); note('V', %1$d, v / 2); }\n" : "  note('V', %d, -CORK_MAKE_VERSION(%s, %s, %s) * -1L);\n", nver++, e[0], e[1], e[2]); }
    fprintf(F, "}\n"); fclose(F);
}
static bool compile(char **argv, const char *what)
{
    static char e[6000]; for (int try = 0; try < 2; try++) { size_t en = sizeof e - 1; int st = util_run(argv[0], argv, NULL, NULL, NULL, e, &en); e[en < sizeof e ? en : sizeof e - 1] = 0; if (st == 0) return true; if (WIFSIGNALED(st) && try) pbt_discard(); }
    pbt_fail("%s does not compile: %.900s", what, e);
}
void pbt_case(void)
{
    pbt_set_timeout(120); nid = ninit = nfin = nver = nfield = 0; nunit = (int) pbt_uniform(1, MU); nlib = pbt_chance(1, 2) ? (int) pbt_uniform(1, 2) : 0; const char *cc = CCS[pbt_pick((size_t) ncc)], *opt[] = { "-O2", "-O0", "-O1", "-O3", "-Os" }; const char *O = opt[pbt_pick(5)];
    const char *stds[] = { "-std=gnu11", "-std=gnu99", "-std=gnu17", "-std=c99" }; const char *S = stds[pbt_pick(4)]; bool inl = pbt_chance(1, 3);
    for (int u = 0; u < nunit; u++) { module[u] = nlib ? (int) pbt_uniform(0, (uint64_t) nlib) : 0; pbt_trace("unit %d is in %s", u, module[u] ? module[u] == 1 ? "library 1" : "library 2" : "the program"); unit(u); }
    pbt_trace("%s %s %s%s", cc, O, S, inl ? ", inline functions forced to be static" : "");
    /* main */
    char p[800], q[800]; snprintf(p, sizeof p, "%s/m.c", SC); F = fopen(p, "w"); if (!F) _exit(103);
    fprintf(F, "#include \"t.h\"\n#include <stdio.h>\n#include <stdlib.h>\n#include <unistd.h>\n");
    for (int u = 0; u < nunit; u++) fprintf(F, "cork_uid get%d(int); int eq%d(cork_uid, cork_uid); cork_hash hash%d(cork_uid); const char *nm%d(cork_uid); void fields%d(void), versions%d(void);\n", u, u, u, u, u, u);
    fprintf(F, "static const struct cork_uid *(*const g[])(int) = {"); for (int i = 0; i < nid; i++) fprintf(F, "get%d,", ID[i].unit); fprintf(F, "0};\n");
    fprintf(F, "static int (*const e[])(cork_uid, cork_uid) = {"); for (int u = 0; u < nunit; u++) fprintf(F, "eq%d,", u); fprintf(F, "};\nstatic cork_hash (*const h[])(cork_uid) = {"); for (int u = 0; u < nunit; u++) fprintf(F, "hash%d,", u);
    fprintf(F, "};\nstatic const char *(*const nm[])(cork_uid) = {"); for (int u = 0; u < nunit; u++) fprintf(F, "nm%d,", u); fprintf(F, "};\nstatic const char *want[] = {\n"); for (int i = 0; i < nid; i++) { lit(ID[i].name, ID[i].len); fprintf(F, ",\n"); } fprintf(F, "0};\n");
    unsigned how = pbt_pick(3);
    fprintf(F, "int main(void) { int i, j; note('M', 0, 0);\n"
        "  for (i = 0; i < %1$d; i++) { cork_uid a = g[i](i), n = CORK_UID_NONE; cork_hash x = h[0](a); long ok;\n"
        "    for (j = 0; j < %1$d; j++) { cork_uid b = g[j](j); long r = e[(i + j) %% %2$d](a, b); if (!!r != (i == j) || r != !!r) note('X', i, j); if ((!!cork_uid_equal(b, a)) != (i == j)) note('Y', i, j); }\n"
        "    if (e[i %% %2$d](a, n) || e[i %% %2$d](n, a) || cork_uid_equal(a, CORK_UID_NONE)) note('Z', i, 0);\n"
        "    for (j = 0; j < %2$d; j++) { if (h[j](a) != x || cork_uid_hash(a) != x || h[j](g[i](i)) != x) note('H', i, j); if (strcmp(nm[j](a), want[i]) || strcmp(cork_uid_name(a), want[i])) note('N', i, j); } }\n"
        "  if (!e[0](CORK_UID_NONE, CORK_UID_NONE)) note('Z', -1, 0);\n", nid, nunit);
    for (int u = 0; u < nunit; u++) fprintf(F, "  fields%d(); versions%d();\n", u, u);
    fprintf(F, "  { char v[60]; snprintf(v, sizeof v, \"%%d.%%d.%%d\", CORK_VERSION_MAJOR, CORK_VERSION_MINOR, CORK_VERSION_PATCH); note('W', 0, strncmp(cork_version_string(), v, strlen(v)) == 0 && cork_revision_string() && CORK_VERSION == CORK_VERSION_MAJOR * 1000000 + CORK_VERSION_MINOR * 1000 + CORK_VERSION_PATCH); }\n");
    fprintf(F, "  note('E', 0, 0); %s }\n", how == 0 ? "return 0;" : how == 1 ? "exit(3);" : "close(0); exit(0);"); fclose(F);
    char inc[700], src[MU][700], lib[2][700], exe[700], idO[700], verO[700], noteO[700]; snprintf(inc, sizeof inc, "-I%s", SC); snprintf(exe, sizeof exe, "%s/prog", SC); snprintf(idO, sizeof idO, "%s/id.o", SC); snprintf(verO, sizeof verO, "%s/version.o", SC); snprintf(noteO, sizeof noteO, "%s/note.o", SC);
    for (int l = 1; l <= nlib; l++) { snprintf(lib[l - 1], 700, "%s/l%d.so", SC, l); char *a[40]; int n = 0; a[n++] = (char *) cc; a[n++] = "-w"; a[n++] = (char *) O; a[n++] = (char *) S; a[n++] = "-fPIC"; a[n++] = "-shared"; a[n++] = inc; a[n++] = GEN; a[n++] = INC; if (inl) a[n++] = "-DCORK_CONFIG_HAVE_C99_INLINE=0";
        bool any = false; for (int u = 0; u < nunit; u++) if (module[u] == l) { snprintf(src[u], 700, "%s/u%d.c", SC, u); a[n++] = src[u]; any = true; } if (!any) { lib[l - 1][0] = 0; continue; } a[n++] = "-o"; a[n++] = lib[l - 1]; a[n] = NULL; compile(a, "a shared library"); pbt_label("shared library"); }
    { char *a[60]; int n = 0; a[n++] = (char *) cc; a[n++] = "-w"; a[n++] = (char *) O; a[n++] = (char *) S; a[n++] = "-rdynamic"; a[n++] = inc; a[n++] = GEN; a[n++] = INC; if (inl) a[n++] = "-DCORK_CONFIG_HAVE_C99_INLINE=0"; snprintf(q, sizeof q, "%s/m.c", SC);
        bool before = pbt_chance(1, 2); if (before) a[n++] = q; for (int u = 0; u < nunit; u++) if (!module[u]) { snprintf(src[u], 700, "%s/u%d.c", SC, u); a[n++] = src[u]; } if (!before) a[n++] = q; a[n++] = idO; a[n++] = verO; a[n++] = noteO; a[n++] = "-Wl,--no-as-needed"; for (int l = 0; l < nlib; l++) if (lib[l][0]) a[n++] = lib[l]; a[n++] = "-o"; a[n++] = exe; a[n] = NULL; compile(a, "the program"); }
    static char out[200000]; size_t on = sizeof out - 1; char *a[] = { exe, NULL }; int st = util_run(exe, a, NULL, out, &on, NULL, NULL); CHECK(on < sizeof out - 1, "the program prints %zu bytes", on); out[on] = 0;
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (how == 1 ? 3 : 0), "the program ends with status %x", st);
    static int ini[64], fin[64], fld[400], ver[64]; memset(ini, 0, sizeof ini); memset(fin, 0, sizeof fin); memset(fld, 0, sizeof fld); memset(ver, 0, sizeof ver); int phase = 0, w = 0;
    for (char *l = strtok(out, "\n"); l; l = strtok(NULL, "\n")) {
        char c; int i; long v; CHECK(sscanf(l, "%c %d %ld", &c, &i, &v) == 3, "the program prints %s", l);
        switch (c) {
            case 'I': CHECK(phase == 0, "initializer %d runs after main has started", i); CHECK(i >= 0 && i < ninit && ini[i]++ == 0, "initializer %d runs twice", i); CHECK(v == 1, "an identifier is not equal to itself in initializer %d", i); break;
            case 'M': phase = 1; break; case 'E': phase = 2; break;
            case 'F': CHECK(phase == 2, "finalizer %d runs before main has ended", i); CHECK(i >= 0 && i < nfin && fin[i]++ == 0, "finalizer %d runs twice", i); break;
            case 'X': case 'Y': pbt_fail("identifiers %d (%s in unit %d) and %ld (%s in unit %d) compare as %s", i, ID[i].cname, ID[i].unit, v, ID[v].cname, ID[v].unit, i == v ? "different" : "equal");
            case 'Z': pbt_fail("comparing identifier %d with CORK_UID_NONE is wrong", i);
            case 'H': pbt_fail("the hash of identifier %d is not the same everywhere (unit %ld)", i, v);
            case 'N': pbt_fail("the name of identifier %d is wrong in unit %ld, expected %s", i, v, pbt_quote(ID[i].name, ID[i].len));
            case 'C': CHECK(v == 1, "cork_container_of number %d does not lead to the container", i); CHECK(i >= 0 && i < nfield && !fld[i]++, "report C %d", i); break;
            case 'V': CHECK(i >= 0 && i < nver && !ver[i]++, "report V %d", i); CHECK(v == want_ver[i], "version number %d is encoded as %ld, expected %ld", i, v, want_ver[i]); break;
            case 'W': CHECK(v == 1, "the library's version string and number do not match its version"); w++; break;
            default: pbt_fail("the program prints %s", l);
        }
    }
    CHECK(phase == 2 && w == 1, "the program did not come to its end");
    for (int i = 0; i < ninit; i++) CHECK(ini[i] == 1, "initializer %d did not run", i); for (int i = 0; i < nfin; i++) CHECK(fin[i] == 1, "finalizer %d did not run", i);
    for (int i = 0; i < nfield; i++) CHECK(fld[i] == 1, "report C %d is missing", i); for (int i = 0; i < nver; i++) CHECK(ver[i] == 1, "report V %d is missing", i);
    bool same = false; for (int i = 0; i < nid; i++) for (int j = 0; j < i; j++) if (!strcmp(ID[i].name, ID[j].name)) same = true;
    if (same) pbt_label("same name"); if (nver) pbt_label("version numbers"); if (nfield) pbt_label("structures"); if (nunit > 1 && same && ninit + nfin) pbt_nontrivial();
}
