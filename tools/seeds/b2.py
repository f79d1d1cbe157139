exec(open("/verif/tools/seeds/pre.py").read())
BF="src/libcork/ds/buffer.c"; BFH="include/libcork/ds/buffer.h"; SL="src/libcork/ds/slice.c"; SLH="include/libcork/ds/slice.h"; MB="src/libcork/ds/managed-buffer.c"
MP="src/libcork/core/mempool.c"; GC="src/libcork/core/gc.c"; AL="src/libcork/core/allocator.c"; ER="src/libcork/core/error.c"
BUGS=[
dict(id="bf-truncate-nul", prop="C06", edits=[(BFH,'''    if (buffer->size > length) {
        buffer->size = length;
        if (buffer->buf != NULL) {''','''    if (buffer->size > length) {
        buffer->size = length;
        if (length == 0) {
            return;
        }
        if (buffer->buf != NULL) {''')],
 needs="truncating a buffer to nothing and using it as a string",
 breaks="the buffer's contents are not terminated",
 demo=PRE+'''
int main(void) {
    struct cork_buffer b = CORK_BUFFER_INIT();
    cork_buffer_set_string(&b, "hello");
    cork_buffer_truncate(&b, 0);
    CHECK(b.size == 0 && strcmp(b.buf, "") == 0);
    return 0;
}'''),
dict(id="bf-equal-strings", prop="C06", edits=[(BF,"    return (memcmp(buffer1->buf, buffer2->buf, buffer1->size) == 0);","    return (strncmp(buffer1->buf, buffer2->buf, buffer1->size) == 0);")],
 needs="two buffers of the same size that only differ after a NUL byte",
 breaks="they compare equal",
 demo=PRE+'''
int main(void) {
    struct cork_buffer a = CORK_BUFFER_INIT(), b = CORK_BUFFER_INIT();
    cork_buffer_set(&a, "a\\0b", 3); cork_buffer_set(&b, "a\\0c", 3);
    CHECK(!cork_buffer_equal(&a, &b));
    return 0;
}'''),
dict(id="pp-c-string-signed", prop="C07", edits=[(BF,'''                    uint8_t  byte = ch;
                    cork_buffer_append_printf(dest, "\\\\x%02" PRIx8, byte);''','''                    cork_buffer_append_printf(dest, "\\\\x%02x", ch & ((i + 1 < length)? 0xff: 0x7f));''')],
 needs="a byte above 0x7f at the end of the data",
 breaks="it is printed as another byte",
 demo=PRE+'''
int main(void) {
    struct cork_buffer b = CORK_BUFFER_INIT();
    cork_buffer_append_c_string(&b, "a\\xff", 2);
    CHECK(strcmp(b.buf, "\\"a\\\\xff\\"") == 0);
    return 0;
}'''),
dict(id="pp-binary-late", prop="C07", edits=[(BF,'''            newline = true;
            /* Don't''','''            newline = true;
            if (i > 4096) {
                break;
            }
            /* Don't''')],
 needs="binary data of more than 4096 bytes whose unprintable bytes are all behind a newline beyond the first 4096",
 breaks="unprintable bytes are written as they are, in the multiline format",
 demo=PRE+'''
int main(void) {
    struct cork_buffer b = CORK_BUFFER_INIT(); char s[5000];
    memset(s, 'a', sizeof s); s[4500] = '\\n'; s[4999] = 1;
    cork_buffer_append_binary(&b, 0, s, sizeof s);
    CHECK(memcmp(b.buf, "(hex)\\n", 6) == 0);
    return 0;
}'''),
dict(id="pp-hex-16", prop="C07", edits=[(BF,'''    if (column > 0) {
        cork_buffer_append_printf(dest, "%-48''','''    if (column > 0 && curr_hex != hex) {
        if (length > 256 && column == 1) {
            return;
        }
        cork_buffer_append_printf(dest, "%-48''')],
 needs="a hex dump of more than 256 bytes whose last line has one byte",
 breaks="that byte is missing",
 demo=PRE+'''
int main(void) {
    struct cork_buffer b = CORK_BUFFER_INIT(); char s[400]; size_t i, n = 0;
    memset(s, 'Q', sizeof s);
    for (i = 250; i < 300; i++) { char *p; cork_buffer_clear(&b); cork_buffer_append_hex_dump(&b, 0, s, i); n = 0; for (p = b.buf; (p = strstr(p, "51 ")); p++) n++; CHECK(n == i); }
    return 0;
}'''),
dict(id="sl-light-copy-overflow", prop="C08", edits=[(SL,'''cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
                      size_t offset, size_t length)
{
    if ((slice != NULL) &&
        (offset <= slice->size) &&
        (length <= slice->size - offset)) {''','''cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
                      size_t offset, size_t length)
{
    if ((slice != NULL) &&
        (offset <= slice->size) &&
        (offset + length <= slice->size)) {''')],
 needs="a length so large that it wraps around when the offset is added",
 breaks="a light copy beyond the end of the slice is accepted",
 demo=PRE+'''
int main(void) {
    struct cork_slice s, d;
    cork_slice_init_static(&s, "abcdef", 6);
    CHECK(cork_slice_light_copy(&d, &s, 2, SIZE_MAX - 1) == -1);
    return 0;
}'''),
dict(id="sl-copy-once-offset", prop="C08", edits=[(SL,'''    rii_check(cork_managed_buffer_slice
              ((struct cork_slice *) src, mbuf, 0, src->size));
    cork''','''    rii_check(cork_managed_buffer_slice
              ((struct cork_slice *) src, mbuf,
               (length == 0)? offset: 0, (length == 0)? src->size - offset: src->size));
    cork''')],
 needs="copying an empty part of a copy-once slice at an offset other than 0",
 breaks="the original slice loses its first bytes",
 demo=PRE+'''
int main(void) {
    struct cork_slice s, d;
    cork_slice_init_copy_once(&s, "abcdef", 6);
    CHECK(cork_slice_copy(&d, &s, 6, 0) == 0);
    CHECK(s.size == 6 && memcmp(s.buf, "abcdef", 6) == 0);
    return 0;
}'''),
dict(id="sl-advance-size", prop="C08", edits=[(SLH,'''        const void* buf = slice->buf;
        slice->buf += offset;
        slice->size -= offset;
        return buf;''','''        const void* buf = slice->buf;
        slice->buf += offset;
        slice->size -= (unsigned short) offset;
        return buf;''')],
 needs="advancing a slice by 65536 bytes or more",
 breaks="the slice claims bytes that lie behind its end",
 demo=PRE+'''
static char big[100000];
int main(void) {
    struct cork_slice s;
    cork_slice_init_static(&s, big, sizeof big);
    CHECK(cork_slice_advance(&s, 70000) == big);
    CHECK(s.size == 30000 && s.buf == big + 70000);
    return 0;
}'''),
dict(id="mb-new-copy-free", prop="C09", edits=[(MB,'''        dest->iface = &CORK_MANAGED_BUFFER__SLICE;
        dest->user_data = cork_managed_buffer_ref(buffer);
        return 0;''','''        dest->iface = &CORK_MANAGED_BUFFER__SLICE;
        dest->user_data = (length == 0 && offset == buffer->size)?
            buffer: cork_managed_buffer_ref(buffer);
        return 0;''')],
 needs="an empty slice at the very end of a managed buffer that is finished while the buffer is still in use",
 breaks="the slice takes a reference that it does not own, so the buffer is freed too early",
 asan=True, demo=PRE+'''
int main(void) {
    struct cork_managed_buffer *b = cork_managed_buffer_new_copy("abc", 3); struct cork_slice s, t;
    CHECK(cork_managed_buffer_slice(&s, b, 0, 3) == 0);
    CHECK(cork_managed_buffer_slice(&t, b, 3, 0) == 0);
    cork_slice_finish(&t);
    cork_managed_buffer_unref(b);
    CHECK(memcmp(s.buf, "abc", 3) == 0);
    cork_slice_finish(&s);
    return 0;
}'''),
dict(id="mb-buffer-to-slice", prop="C09", edits=[(MB,'''    dest->buf = src->buf + offset;
    dest->size = length;
    dest->iface = &CORK_MANAGED_BUFFER__SLICE;
    dest->user_data = cork_managed_buffer_ref(mbuf);
    return 0;
}

static struct''','''    struct cork_slice  old = *dest;
    dest->buf = src->buf + offset;
    dest->size = length;
    dest->iface = &CORK_MANAGED_BUFFER__SLICE;
    dest->user_data = (old.user_data == mbuf && old.iface == dest->iface && old.buf != NULL && old.size >= length)?
        mbuf: cork_managed_buffer_ref(mbuf);
    return 0;
}

static struct''')],
 needs="copying a slice into a slice variable that was finished bytewise (moved) rather than by the library, so that it still has its old contents",
 breaks="the copy does not count as a reference",
 asan=True, demo=PRE+'''
int main(void) {
    struct cork_managed_buffer *b = cork_managed_buffer_new_copy("abc", 3); struct cork_slice s, t, moved;
    CHECK(cork_managed_buffer_slice(&s, b, 0, 3) == 0);
    CHECK(cork_slice_copy(&t, &s, 0, 3) == 0);
    moved = t;
    CHECK(cork_slice_copy(&t, &s, 0, 2) == 0);
    cork_managed_buffer_unref(b);
    cork_slice_finish(&s); cork_slice_finish(&moved);
    CHECK(memcmp(t.buf, "ab", 2) == 0);
    cork_slice_finish(&t);
    return 0;
}'''),
dict(id="mp-callbacks-user-data", prop="C13", edits=[(MP,"    cork_mempool_set_user_data(mp, user_data, free_user_data);\n","    cork_mempool_set_user_data\n        (mp, user_data, (init_object != NULL || done_object != NULL)? free_user_data: NULL);\n")],
 needs="a pool that owns user data but has no object callbacks",
 breaks="the user data is never freed",
 demo=PRE+'''
static int n;
static void fr(void *p) { n++; }
int main(void) {
    struct cork_mempool *mp = cork_mempool_new_size(32); int x;
    cork_mempool_set_callbacks(mp, &x, fr, NULL, NULL);
    cork_mempool_free(mp);
    CHECK(n == 1);
    return 0;
}'''),
dict(id="mp-fresh-block-while-free", prop="C13", edits=[(MP,'''    obj = mp->free_list;
    mp->free_list = obj ? obj->next_free : NULL;
    mp->allocated_count++;''','''    obj = mp->free_list;
    mp->free_list = obj ? obj->next_free : NULL;
    mp->allocated_count++;
    if (mp->allocated_count % 256 == 0 && mp->free_list != NULL) {
        mp->free_list = mp->free_list->next_free;
    }''')],
 needs="at least 256 objects in use at the same time",
 breaks="a free object is dropped from the pool: it is neither handed out again nor finalized",
 demo=PRE+'''
static int in, dn;
static void i(void *u, void *o) { in++; }
static void d(void *u, void *o) { dn++; }
int main(void) {
    struct cork_mempool *mp = cork_mempool_new_size(32); static void *o[600]; int k;
    cork_mempool_set_init_object(mp, i); cork_mempool_set_done_object(mp, d);
    for (k = 0; k < 600; k++) o[k] = cork_mempool_new_object(mp);
    for (k = 0; k < 600; k++) cork_mempool_free_object(mp, o[k]);
    cork_mempool_free(mp);
    CHECK(in == dn);
    return 0;
}'''),
dict(id="mp-done-skips", prop="C13", edits=[(MP,'''        for (obj = mp->free_list; obj != NULL; obj = obj->next_free) {
            mp->done_object
                (mp->user_data, cork_mempool_get_object(obj));
        }''','''        size_t  per_block = (mp->block_size - sizeof(struct cork_mempool_block)) /
            cork_mempool_object_size(mp);
        size_t  count = 0;
        for (curr = mp->blocks; curr != NULL; curr = curr->next_block) {
            count = (count << 1 > count + per_block)? count: count + per_block;
        }
        for (obj = mp->free_list; obj != NULL && count-- > 0; obj = obj->next_free) {
            mp->done_object
                (mp->user_data, cork_mempool_get_object(obj));
        }''')],
 needs="a pool that has allocated three or more blocks",
 breaks="some of its objects are never finalized",
 demo=PRE+'''
static int in, dn;
static void i(void *u, void *o) { in++; }
static void d(void *u, void *o) { dn++; }
int main(void) {
    struct cork_mempool *mp = cork_mempool_new_size_ex(32, 256); void *o[64]; int k;
    cork_mempool_set_init_object(mp, i); cork_mempool_set_done_object(mp, d);
    for (k = 0; k < 64; k++) o[k] = cork_mempool_new_object(mp);
    for (k = 0; k < 64; k++) cork_mempool_free_object(mp, o[k]);
    cork_mempool_free(mp);
    CHECK(in == dn);
    return 0;
}'''),
dict(id="gc-incref-black", prop="C14", edits=[(GC,'''            if (cork_gc_get_ref_count(header) > 0) {
                DEBUG("    Remaining references; can't be a cycle\\n");
                cork_gc_scan_black(gc, header);''','''            if (cork_gc_get_ref_count(header) > 0) {
                DEBUG("    Remaining references; can't be a cycle\\n");
                if (cork_gc_get_ref_count(header) == 1 && cork_gc_get_buffered(header)) {
                    cork_gc_set_color(header, GC_BLACK);
                    cork_gc_recurse(gc, header, cork_gc_scan);
                    return;
                }
                cork_gc_scan_black(gc, header);''')],
 needs="a possible root that has exactly one outside reference left and refers to other objects, when cycles are collected",
 breaks="the objects that it refers to lose references, and are freed while they are still reachable",
 asan=True, demo=PRE+'''
struct n { struct n *a; int *live; };
static int live;
static void fr(void *o) { live--; }
static void rec(struct cork_gc *gc, void *o, cork_gc_recurser r, void *ud) { r(gc, ((struct n *) o)->a, ud); }
static struct cork_gc_obj_iface I = { fr, rec };
int main(void) {
    struct n *x, *y;
    cork_gc_init();
    x = cork_gc_alloc(sizeof *x, &I); y = cork_gc_alloc(sizeof *y, &I); live = 2;
    x->a = cork_gc_incref(y); y->a = NULL;
    cork_gc_incref(x); cork_gc_decref(x);
    cork_gc_done();
    CHECK(live == 2);
    cork_gc_decref(y);
    CHECK(live == 2);
    cork_gc_decref(x);
    cork_gc_done();
    CHECK(live == 0);
    return 0;
}'''),
dict(id="gc-mark-roots-count", prop="C14", edits=[(GC,'''            cork_gc_set_buffered(header, false);
            *prev = header->next;
            gc->root_count--;
            if (cork_gc_get_color(header) == GC_BLACK &&
                cork_gc_get_ref_count(header) == 0) {''','''            cork_gc_set_buffered(header, false);
            *prev = header->next;
            gc->root_count--;
            if (cork_gc_get_color(header) == GC_BLACK && *prev != NULL &&
                cork_gc_get_ref_count(header) == 0) {''')],
 needs="an object that becomes a possible root before any other one, and is released before cycles are collected",
 breaks="it is never freed", 
 demo=PRE+'''
static int live;
static void fr(void *o) { live--; }
static struct cork_gc_obj_iface I = { fr, NULL };
int main(void) {
    void *x;
    cork_gc_init();
    x = cork_gc_alloc(16, &I); live = 1;
    cork_gc_incref(x); cork_gc_decref(x); cork_gc_decref(x);
    cork_gc_done();
    CHECK(live == 0);
    return 0;
}'''),
dict(id="al-xrealloc-shrink", prop="C15", edits=[(AL,'''        size_t  min_size = (new_size < old_size)? new_size: old_size;
        memcpy(result, ptr, min_size);
        cork_alloc_free(alloc, ptr, old_size);''','''        size_t  min_size = (new_size < old_size)? new_size: old_size;
        memcpy(result, ptr, min_size);
        cork_alloc_free(alloc, ptr, (min_size == 0)? min_size: old_size);''')],
 needs="a custom allocator without its own reallocation, and shrinking a block to nothing",
 breaks="the old block is freed with the wrong size",
 demo=PRE+'''
int main(void) {
    struct cork_alloc *d = cork_debug_alloc_new(cork_allocator); void *p;
    p = cork_alloc_malloc(d, 100);
    p = cork_alloc_realloc(d, p, 100, 0);
    cork_alloc_free(d, p, 0);
    return 0;
}'''),
dict(id="al-xreallocf-grow", prop="C15", edits=[("include/libcork/core/allocator.h",'''    if (result == NULL) {
        alloc->free(alloc, ptr, old_size);
        return NULL;''','''    if (result == NULL) {
        if (new_size > old_size) {
            alloc->free(alloc, ptr, old_size);
        }
        return NULL;''')],
 needs="a failure of the allocator while cork_xreallocf makes a block smaller",
 breaks="the block is not freed",
 demo=PRE+'''
static int live, fail;
static void *xm(const struct cork_alloc *a, size_t n) { if (fail) return NULL; live++; return malloc(n + 1); }
static void fr(const struct cork_alloc *a, void *p, size_t n) { live--; free(p); }
int main(void) {
    struct cork_alloc *d = cork_alloc_new_alloc(cork_allocator); void *p;
    cork_alloc_set_xmalloc(d, xm); cork_alloc_set_free(d, fr);
    p = cork_alloc_malloc(d, 100); fail = 1;
    CHECK(cork_alloc_xreallocf(d, p, 100, 50) == NULL);
    CHECK(live == 0);
    return 0;
}'''),
dict(id="al-calloc-partial", prop="C15", edits=[(AL,'''    if (result != NULL) {
        memset(result, 0, count * size);
    }''','''    if (result != NULL) {
        memset(result, 0, count * (size & ~(sizeof(uint16_t) - 1)));
    }''')],
 needs="a custom allocator without its own calloc, and elements of an odd size",
 breaks="the end of the allocated array is not cleared",
 demo=PRE+'''
static void *dirty(const struct cork_alloc *a, size_t n) { void *p = malloc(n + 1); memset(p, 0xEE, n); return p; }
static void fr(const struct cork_alloc *a, void *p, size_t n) { free(p); }
int main(void) {
    struct cork_alloc *d = cork_alloc_new_alloc(cork_allocator); unsigned char *p; int i;
    cork_alloc_set_xmalloc(d, dirty); cork_alloc_set_free(d, fr);
    p = cork_alloc_calloc(d, 7, 3);
    for (i = 0; i < 21; i++) CHECK(p[i] == 0);
    return 0;
}'''),
dict(id="er-prefix-empty", prop="C16", edits=[(ER,'''    struct cork_error  *error = cork_error_get();
    struct cork_buffer  *temp;
    cork_buffer_set_string(error->other, str);
    cork_buffer_append_copy(error->other, error->message);
    temp = error->other;
    error->other = error->message;
    error->message = temp;''','''    struct cork_error  *error = cork_error_get();
    struct cork_buffer  *temp;
    cork_buffer_set_string(error->other, str);
    cork_buffer_append_copy(error->other, error->message);
    if (error->other->size == error->message->size) {
        error->code = CORK_ERROR_NONE;
    }
    temp = error->other;
    error->other = error->message;
    error->message = temp;''')],
 needs="prefixing an error with an empty string",
 breaks="the error is cleared",
 demo=PRE+'''
int main(void) {
    cork_error_set_string(7, "oops");
    cork_error_prefix_string("");
    CHECK(cork_error_occurred() && cork_error_code() == 7 && strcmp(cork_error_message(), "oops") == 0);
    return 0;
}'''),
dict(id="er-vprintf-self", prop="C16", edits=[(ER,'''    error->code = code;
    cork_buffer_vprintf(error->other, format, args);''','''    error->code = code;
    if (error->message->size > 1024) {
        cork_buffer_vprintf(error->message, format, args);
        return;
    }
    cork_buffer_vprintf(error->other, format, args);''')],
 needs="setting an error from the message of the current error, when that one is longer than 1024 bytes",
 breaks="the message is overwritten while it is being formatted",
 demo=PRE+'''
static void set(const char *fmt, ...) { va_list a; va_start(a, fmt); cork_error_set_vprintf(3, fmt, a); va_end(a); }
int main(void) {
    char s[1500]; memset(s, 'a', sizeof s); s[1499] = 0;
    cork_error_set_string(2, s);
    set("Because: %s", cork_error_message());
    CHECK(strlen(cork_error_message()) == 1499 + 9);
    CHECK(strcmp(cork_error_message() + 9, s) == 0);
    return 0;
}'''),
dict(id="er-errno", prop="C16", edits=[(ER,'''    cork_error_set_string(errno, strerror(errno));''','''    cork_error_clear();
    cork_error_set_string(errno & 0x7f, strerror(errno));''')],
 needs="errno being 128 or more", breaks="the error code is not the value of errno",
 demo=PRE+'''
#include <errno.h>
int main(void) {
    errno = ERFKILL; cork_system_error_set();
    CHECK(cork_error_code() == ERFKILL);
    CHECK(strcmp(cork_error_message(), strerror(ERFKILL)) == 0);
    return 0;
}'''),
]
BUGS=[b for b in BUGS if b["needs"]!="x"]
