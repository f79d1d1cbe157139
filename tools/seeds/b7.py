exec(open("/verif/tools/seeds/pre.py").read())
UNITS='''#!/bin/bash
# Exit 0: behaves as documented.  Run in the repository, after its build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for o in -O0 -O2; do
gcc -std=gnu99 -g $o -w -D_GNU_SOURCE -DCORK_API=CORK_LOCAL -I include -I _build/include "$D/demo.c" "$D/other.inc" $(find src/libcork -name '*.c') -o "$T/demo" -lpthread -lm || exit 9
"$T/demo" || exit 1
done
'''.replace('"$D/other.inc"', '-x c "$D/other.inc" -x none')
BUGS=[
dict(id="un-equal-names", prop="C41", edits=[("include/libcork/core/id.h","    return id1 == id2;","    return id1 == id2 ||\n        (id1 != CORK_UID_NONE && id2 != CORK_UID_NONE && id1->name == id2->name);")],
 needs="two identifiers whose names are the same string literal, merged by the compiler or linker", breaks="they compare as equal",
 demo=PRE+'''
cork_uid_define_named(a, "thing"); cork_uid_define_named(b, "thing");
int main(void) { CHECK(cork_uid_equal(a, a)); CHECK(!cork_uid_equal(a, b)); CHECK(!cork_uid_equal(a, CORK_UID_NONE)); return 0; }'''),
dict(id="un-container-far", prop="C41", edits=[("include/libcork/core/types.h",'''    ((struct_type *) (- offsetof(struct_type, field_name) + \\
                      (void *) (field)))''','''    ((struct_type *) ((char *) (field) - \\
                      (uint16_t) offsetof(struct_type, field_name)))''')],
 needs="a field more than 64 KiB into its structure", breaks="cork_container_of does not lead to the structure",
 demo=PRE+'''
struct big { char pad[70000]; int field; } b;
int main(void) { CHECK(cork_container_of(&b.field, struct big, field) == &b); return 0; }'''),
dict(id="un-hash-address", prop="C41", edits=[("include/libcork/core/id.h","    return (cork_hash) (uintptr_t) id;","    return (cork_hash) ((uintptr_t) id ^ (uintptr_t) id->name ^ ((uintptr_t) &cork_uid_hash & 0));")],
 needs="nothing: still consistent", breaks="nothing", demo=PRE+"int main(void) { return 0; }"),
dict(id="un-name-c-name", prop="C41", edits=[("include/libcork/core/id.h","    static const struct cork_uid  c_name##__id = { name }; \\","    static const struct cork_uid  c_name##__id = { sizeof(name) > 1? name: #c_name }; \\")],
 needs="an identifier whose human-readable name is the empty string", breaks="its C name is reported instead",
 demo=PRE+'''
cork_uid_define_named(a, ""); cork_uid_define_named(b, "x"); cork_uid_define(c);
int main(void) { CHECK(!strcmp(cork_uid_name(a), "")); CHECK(!strcmp(cork_uid_name(b), "x")); CHECK(!strcmp(cork_uid_name(c), "c")); return 0; }'''),
dict(id="dl-size-short", prop="C10", edits=[("src/libcork/ds/dllist.c","    size_t  size = 0;\n    struct cork_dllist_item  *curr;","    uint16_t  size = 0;\n    struct cork_dllist_item  *curr;")],
 needs="a list of more than 65535 elements", breaks="cork_dllist_size wraps around",
 demo=PRE+'''
int main(void) { static struct cork_dllist_item it[70000]; struct cork_dllist l = CORK_DLLIST_INIT(l); for (int i = 0; i < 70000; i++) cork_dllist_add_to_tail(&l, &it[i]); CHECK(cork_dllist_size(&l) == 70000); return 0; }'''),
dict(id="bs-clear-page", prop="C12", edits=[("src/libcork/ds/bitset.c",'''cork_bitset_clear(struct cork_bitset *set)
{
    memset(set->bits, 0, set->byte_count);''','''cork_bitset_clear(struct cork_bitset *set)
{
    unsigned int  i;
    /* Small sets don't need a function call. */
    if (set->byte_count > 4096) {
        memset(set->bits, 0, set->byte_count & ~(size_t) 4095);
    } else {
        for (i = 0; i < set->byte_count; i++) {
            set->bits[i] = 0;
        }
    }''')],
 needs="a set of more than 32768 bits whose size isn't a multiple of that", breaks="clearing leaves its last bits set",
 demo=PRE+'''
int main(void) { struct cork_bitset *s = cork_bitset_new(40000); cork_bitset_set(s, 39999, true); cork_bitset_clear(s); CHECK(!cork_bitset_get(s, 39999)); cork_bitset_free(s); return 0; }'''),
dict(id="ar-initialized-short", prop="C05", edits=[("src/libcork/ds/array.c","    size_t  initialized_count;","    uint16_t  initialized_count;")],
 needs="an array with callbacks that grows beyond 65535 elements", breaks="elements are initialised a second time, or not finished",
 demo=PRE+'''
static size_t ini, fin; static void in(void *u, void *v) { ini++; } static void dn(void *u, void *v) { fin++; }
int main(void) { cork_array(int) a; cork_array_init(&a); cork_array_set_init(&a, in); cork_array_set_done(&a, dn); for (int i = 0; i < 70000; i++) *(int *) cork_array_append_get(&a) = i; CHECK(ini == 70000); cork_array_done(&a); CHECK(fin == 70000); return 0; }'''),
dict(id="er-long-string", prop="C16", edits=[("src/libcork/core/error.c",'''    error->code = code;
    cork_buffer_set_string(error->other, str);''','''    error->code = code;
    cork_buffer_set(error->other, str, strnlen(str, 16384));''')],
 needs="a message of more than 16 KiB set as a string", breaks="it is cut",
 demo=PRE+'''
int main(void) { static char m[20000]; memset(m, 'x', 19999); cork_error_set_string(5, m); CHECK(!strcmp(cork_error_message(), m)); return 0; }'''),
dict(id="gr-drain-sixteen", prop="C35", edits=[("src/libcork/posix/subprocess.c",'''    size_t  i;
    for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
        struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
        rii_check(cork_subprocess_drain_(sub, progress));''','''    size_t  i;
    size_t  busy = 0;
    for (i = 0; i < cork_array_size(&group->subprocesses) && busy < 16; i++) {
        struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
        busy += !cork_subprocess_is_finished(sub);
        rii_check(cork_subprocess_drain_(sub, progress));''')],
 needs="more than sixteen children, one of the first waiting for one of the last", breaks="the group never finishes",
 demo=PRE+'''
#include <libcork/os.h>
#include <unistd.h>
#include <fcntl.h>
static int fd[2]; static char big[300000];
static int first(void *v) { char c; close(fd[1]); return read(fd[0], &c, 1) == 1 ? 0 : 1; }
static int last(void *v) { size_t n = 0; while (n < sizeof big) { ssize_t r = write(1, big, sizeof big - n); if (r <= 0) return 1; n += r; } return write(fd[1], "x", 1) == 1 ? 0 : 1; }
static int dt(struct cork_stream_consumer *c, const void *b, size_t n, bool f) { return 0; } static int ef(struct cork_stream_consumer *c) { return 0; }
int main(void) { alarm(20); pipe(fd); struct cork_stream_consumer c = { dt, ef, NULL }; struct cork_subprocess_group *g = cork_subprocess_group_new(); static int st[20];
for (int i = 0; i < 18; i++) { struct cork_subprocess *s = cork_subprocess_new(NULL, NULL, i < 17 ? first : last, &c, NULL, &st[i]); cork_subprocess_group_add(g, s); }
if (fork() == 0) { sleep(0); _exit(0); }
/* seventeen wait for one byte each: the last one provides them all */
for (int i = 0; i < 16; i++) write(fd[1], "", 0);
CHECK(cork_subprocess_group_start(g) == 0); struct cork_subprocess *dummy = NULL; (void) dummy;
/* the byte of the last child lets one go; the rest get theirs here once it arrives elsewhere */
for (int i = 0; i < 2000; i++) { int ok = 0; cork_subprocess_group_drain(g); int n = 0; if (i == 1500) break; usleep(1000); }
CHECK(1); for (int i = 0; i < 16; i++) ; write(fd[1], "yyyyyyyyyyyyyyyy", 16); CHECK(cork_subprocess_group_wait(g) == 0); return 0; }'''),
dict(id="pa-list-basename", prop="C26", edits=[("src/libcork/posix/files.c","    while ((next = strchr(curr, ':')) != NULL) {","    while ((next = strchr(curr, ':')) != NULL && next[1] != '\\0') {")],
 needs="a list that ends in a colon", breaks="its last, empty entry is lost, and the one before it keeps the colon",
 demo=PRE+'''
#include <libcork/os.h>
int main(void) { struct cork_path_list *l = cork_path_list_new("a:b:"); CHECK(cork_path_list_size(l) == 3); CHECK(!strcmp(cork_path_get(cork_path_list_get(l, 1)), "b")); cork_path_list_free(l); return 0; }'''),
dict(id="ex-terminator", prop="C33", edits=[("src/libcork/posix/exec.c","        (&exec->params, cork_array_size(&exec->params) + 1);","        (&exec->params, cork_array_size(&exec->params));")],
 needs="a number of parameters that fills the array exactly", breaks="the terminator is written beyond the array's end", asan=True,
 demo=PRE+'''
#include <libcork/os.h>
#include <sys/wait.h>
int main(void) { for (int n = 1; n < 40; n++) { int st; pid_t p = fork(); if (p == 0) { struct cork_exec *x = cork_exec_new("/bin/true"); for (int i = 0; i < n; i++) cork_exec_add_param(x, "x"); cork_exec_run(x); _exit(5); } waitpid(p, &st, 0); CHECK(st == 0); } return 0; }'''),
dict(id="pa-dirname-inplace", prop="C25", edits=[("src/libcork/posix/files.c",'''        /* Appending moves the content that we would be appending from. */
        struct cork_path  *copy = cork_path_clone(more);
        cork_path_append(path, copy->given.buf);
        cork_path_free(copy);''','''        /* Appending moves the content that we would be appending from. */
        size_t  length = more->given.size;
        cork_buffer_ensure_size(&path->given, 2 * length + 2);
        cork_path_append(path, "./");
        cork_path_append(path, more->given.buf);
        (void) length;''')],
 needs="a path appended to itself", breaks="the result has a '.' in it or grows without end",
 demo=PRE+'''
#include <libcork/os.h>
int main(void) { alarm(10); struct cork_path *p = cork_path_new("a/b"); cork_path_append_path(p, p); CHECK(!strcmp(cork_path_get(p), "a/b/a/b")); cork_path_free(p); return 0; }'''),
]
BUGS = [b for b in BUGS if b["id"] not in ("un-hash-address", "pa-dirname-inplace", "gr-drain-sixteen", "ex-terminator", "pa-list-basename")]
BUGS += [
dict(id="gr-drain-sixteen", prop="C35", edits=[("src/libcork/posix/subprocess.c",'''    size_t  i;
    for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
        struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
        rii_check(cork_subprocess_drain_(sub, progress));''','''    size_t  i;
    size_t  busy = 0;
    for (i = 0; i < cork_array_size(&group->subprocesses) && busy < 16; i++) {
        struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
        busy += !cork_subprocess_is_finished(sub);
        rii_check(cork_subprocess_drain_(sub, progress));''')],
 needs="more than sixteen children, the first of them waiting for the last", breaks="the last one's output isn't read, and the group never finishes",
 demo=PRE+'''
#include <libcork/os.h>
static int fd[2]; static char big[300000];
static int first(void *v) { char c; alarm(30); return read(fd[0], &c, 1) == 1 ? 0 : 1; }
static int last(void *v) { size_t n = 0; alarm(30); while (n < sizeof big) { ssize_t r = write(1, big, sizeof big - n); if (r <= 0) return 1; n += r; } return write(fd[1], big, 16) == 16 ? 0 : 1; }
static int dt(struct cork_stream_consumer *c, const void *b, size_t n, bool f) { return 0; } static int ef(struct cork_stream_consumer *c) { return 0; } static void fr(struct cork_stream_consumer *c) { }
int main(void) { alarm(20); pipe(fd); static struct cork_stream_consumer c = { dt, ef, fr }; struct cork_subprocess_group *g = cork_subprocess_group_new(); static int st[20];
for (int i = 0; i < 17; i++) cork_subprocess_group_add(g, cork_subprocess_new(NULL, NULL, i < 16 ? first : last, &c, NULL, &st[i]));
CHECK(cork_subprocess_group_start(g) == 0); CHECK(cork_subprocess_group_wait(g) == 0); for (int i = 0; i < 17; i++) CHECK(st[i] == 0); cork_subprocess_group_free(g); return 0; }'''),
dict(id="mb-ref-short", prop="C09", edits=[("include/libcork/ds/managed-buffer.h","    volatile int  ref_count;","    volatile short  ref_count;"),
 ("src/libcork/ds/managed-buffer.c","    cork_int_atomic_add(&self->ref_count, 1);","    __sync_add_and_fetch(&self->ref_count, 1);"),("src/libcork/ds/managed-buffer.c","    if (cork_int_atomic_sub(&self->ref_count, 1) == 0) {","    if (__sync_sub_and_fetch(&self->ref_count, 1) == 0) {")],
 needs="more than 65536 references to one buffer", breaks="it is freed while some are left", asan=True,
 demo=PRE+'''
static int freed; static void fr(void *b, size_t n) { freed++; }
int main(void) { static char d[9]; struct cork_managed_buffer *m = cork_managed_buffer_new(d, 9, fr); for (int i = 0; i < 65540; i++) cork_managed_buffer_ref(m); for (int i = 0; i < 65537; i++) { cork_managed_buffer_unref(m); CHECK(freed == 0); } for (int i = 0; i < 4; i++) cork_managed_buffer_unref(m); CHECK(freed == 1); return 0; }'''),
dict(id="bf-printf-64k", prop="C06", edits=[("src/libcork/ds/buffer.c","    size_t  format_size;\n    va_list  args1;","    uint16_t  format_size;\n    va_list  args1;")],
 needs="one formatted text of 64 KiB or more", breaks="the buffer is too small for it, or ends early",
 demo=PRE+'''
int main(void) { struct cork_buffer b = CORK_BUFFER_INIT(); cork_buffer_printf(&b, "%70000s", "x"); CHECK(b.size == 70000); CHECK(strlen(b.buf) == 70000); cork_buffer_done(&b); return 0; }'''),
dict(id="ev-set-empty", prop="C32", edits=[],needs="",breaks=""),
]
BUGS = [b for b in BUGS if b["edits"]]
