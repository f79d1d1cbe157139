HT="src/libcork/ds/hash-table.c"; AR="src/libcork/ds/array.c"; DL="src/libcork/ds/dllist.c"; DH="include/libcork/ds/dllist.h"; RB="src/libcork/ds/ring-buffer.c"; BS="src/libcork/ds/bitset.c"; BH="include/libcork/ds/bitset.h"
PRE='''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#define CHECK(x) do { if (!(x)) { printf("line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
'''
BUGS=[
dict(id="ht-put-stale-bin", prop="C01", edits=[(HT,'''            cork_hash_table_rehash(table);
            bin_index = bin_index(table, hash);
        }
    } else {
        DEBUG("(put) Search''','''            cork_hash_table_rehash(table);
        }
    } else {
        DEBUG("(put) Search''')],
 needs="enough puts that one of them grows the table, and a key that moves to another bin when it grows",
 breaks="the key whose put grew the table is filed in its old bin and cannot be found any more",
 demo=PRE+'''
int main(void) {
    struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0);
    uintptr_t i;
    for (i = 1; i <= 2000; i++) cork_hash_table_put(t, (void *) (i * 2654435761u >> 7), (void *) (i * 2), NULL, NULL, NULL);
    for (i = 1; i <= 2000; i++) CHECK(cork_hash_table_get(t, (void *) (i * 2654435761u >> 7)) == (void *) (i * 2));
    return 0;
}'''),
dict(id="ht-clear-last-bin", prop="C01", edits=[(HT,'''    DEBUG("(clear) Clear bins");
    for (i = 0; i < table->bin_count; i++) {''','''    DEBUG("(clear) Clear bins");
    for (i = 0; i < table->bin_mask; i++) {''')],
 needs="an entry in the last bin when the table is cleared, then any lookup that searches that bin",
 breaks="clearing leaves freed entries linked in the last bin",
 asan=True, demo=PRE+'''
int main(void) {
    struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0);
    uintptr_t i;
    for (i = 1; i <= 40; i++) cork_hash_table_put(t, (void *) i, (void *) (i * 2), NULL, NULL, NULL);
    cork_hash_table_clear(t);
    for (i = 1; i <= 40; i++) CHECK(cork_hash_table_get(t, (void *) i) == NULL);
    cork_hash_table_free(t);
    return 0;
}'''),
dict(id="ht-hash-16-bits", prop="C01", edits=[(HT,'''struct cork_hash_table_entry_priv {
    struct cork_hash_table_entry  public;''','''struct cork_hash_table_entry_priv {
    struct cork_hash_table_entry  public;
    uint16_t  bin_hash;'''),(HT,'''    entry->public.hash = hash;
''','''    entry->public.hash = hash;
    entry->bin_hash = (uint16_t) (hash ^ (hash & ~0xffffu));
'''),(HT,"size_t  bin_index = bin_index(table, entry->public.hash);","size_t  bin_index = bin_index(table, (cork_hash) entry->bin_hash);")],
 needs="a table that is grown to more than 65536 bins while it has entries",
 breaks="entries are rehashed by the low 16 bits of their hash, so they get lost when the table has more bins than that",
 demo=PRE+'''
int main(void) {
    struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0);
    uintptr_t i;
    for (i = 1; i <= 100; i++) cork_hash_table_put(t, (void *) (i * 7001), (void *) i, NULL, NULL, NULL);
    cork_hash_table_ensure_size(t, 1 << 20);
    for (i = 1; i <= 100; i++) CHECK(cork_hash_table_get(t, (void *) (i * 7001)) == (void *) i);
    return 0;
}'''),
dict(id="ht-delete-null-value", prop="C01", edits=[(HT,'''            if (deleted_value != NULL) {
                *deleted_value = entry->public.value;
            }''','''            if (deleted_value != NULL) {
                *deleted_value = entry->public.value;
                if (entry->public.value == NULL) {
                    break;
                }
            }''')],
 needs="deleting an entry whose value is NULL while asking for the deleted value",
 breaks="the entry stays in the table and the delete reports that there was none",
 demo=PRE+'''
int main(void) {
    struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0);
    void *k, *v; bool n;
    cork_hash_table_put(t, (void *) 5, NULL, NULL, NULL, NULL);
    cork_hash_table_get_or_create(t, (void *) 6, &n);
    CHECK(cork_hash_table_delete(t, (void *) 5, &k, &v));
    CHECK(k == (void *) 5 && v == NULL);
    CHECK(cork_hash_table_delete(t, (void *) 6, NULL, &v));
    CHECK(cork_hash_table_size(t) == 0);
    return 0;
}'''),
dict(id="ht-put-moves-to-end", prop="C02", edits=[(HT,'''                DEBUG("    Copy value %p into entry", value);
                entry->public.value = value;''','''                DEBUG("    Copy value %p into entry", value);
                entry->public.value = value;
                if (entry->insertion_order.prev != &table->insertion_order.head) {
                    cork_dllist_remove(&entry->insertion_order);
                    cork_dllist_add(&table->insertion_order, &entry->insertion_order);
                }''')],
 needs="overwriting the value of an entry that was not the first one inserted, then iterating",
 breaks="overwriting an entry moves it to the end of the iteration order",
 demo=PRE+'''
int main(void) {
    struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0);
    struct cork_hash_table_iterator it; struct cork_hash_table_entry *e; uintptr_t i;
    for (i = 1; i <= 4; i++) cork_hash_table_put(t, (void *) i, (void *) i, NULL, NULL, NULL);
    cork_hash_table_put(t, (void *) 2, (void *) 9, NULL, NULL, NULL);
    cork_hash_table_iterator_init(t, &it);
    for (i = 1; i <= 4; i++) { e = cork_hash_table_iterator_next(&it); CHECK(e != NULL && e->key == (void *) i); }
    CHECK(cork_hash_table_iterator_next(&it) == NULL);
    return 0;
}'''),
dict(id="ht-map-delete-count", prop="C02", edits=[(HT,'''            cork_dllist_remove(curr);
            cork_dllist_remove(&entry->in_bucket);
            table->entry_count--;
            cork_hash_table_free_entry(table, entry);
        }

        curr = next;''','''            cork_dllist_remove(curr);
            cork_dllist_remove(&entry->in_bucket);
            table->entry_count--;
            cork_hash_table_free_entry(table, entry);
            if (table->entry_count == 0) {
                cork_dllist_init(&table->bins[0]);
            } else if (table->entry_count == 1) {
                next = table->insertion_order.head.next;
            }
        }

        curr = next;''')],
 needs="a map that keeps an entry, and deletes the second to last of the others after it",
 breaks="an entry is passed to the map function a second time",
 demo=PRE+'''
static enum cork_hash_table_map_result f(void *ud, struct cork_hash_table_entry *e) {
    int *n = ud; n[(uintptr_t) e->key]++;
    return e->key == (void *) 1 ? CORK_HASH_TABLE_MAP_CONTINUE : CORK_HASH_TABLE_MAP_DELETE;
}
int main(void) {
    struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0);
    int n[10] = {0}; uintptr_t i;
    for (i = 1; i <= 4; i++) cork_hash_table_put(t, (void *) i, (void *) i, NULL, NULL, NULL);
    cork_hash_table_map(t, n, f);
    for (i = 1; i <= 4; i++) CHECK(n[i] == 1);
    CHECK(cork_hash_table_size(t) == 1);
    return 0;
}'''),
dict(id="ht-free-value-needs-key", prop="C03", edits=[(HT,'''    if (table->free_key != NULL) {
        table->free_key(entry->public.key);
    }
    if (table->free_value != NULL) {
        table->free_value(entry->public.value);
    }''','''    if (table->free_key != NULL) {
        table->free_key(entry->public.key);
    }
    if (table->free_value != NULL &&
        (table->free_key != NULL || entry->public.key != entry->public.value)) {
        table->free_value(entry->public.value);
    }''')],
 needs="a table that owns its values only, with an entry whose key and value are the same pointer",
 breaks="the value of such an entry is never freed",
 demo=PRE+'''
static int freed;
static void fr(void *p) { freed++; free(p); }
int main(void) {
    struct cork_hash_table *t = cork_string_hash_table_new(0, 0);
    char *s = strdup("x");
    cork_hash_table_set_free_value(t, fr);
    cork_hash_table_put(t, s, s, NULL, NULL, NULL);
    cork_hash_table_free(t);
    CHECK(freed == 1);
    return 0;
}'''),
dict(id="ht-user-data-replaced", prop="C03", edits=[(HT,'''    cork_free_user_data(table);
    table->user_data = user_data;
    table->free_user_data = free_user_data;''','''    if (free_user_data != NULL) {
        cork_free_user_data(table);
    }
    table->user_data = user_data;
    table->free_user_data = free_user_data;''')],
 needs="replacing owned user data by user data that the table does not own",
 breaks="the old user data is never freed",
 demo=PRE+'''
static int freed;
static void fr(void *p) { freed++; }
int main(void) {
    struct cork_hash_table *t = cork_string_hash_table_new(0, 0);
    int a, b;
    cork_hash_table_set_user_data(t, &a, fr);
    cork_hash_table_set_user_data(t, &b, NULL);
    CHECK(freed == 1);
    cork_hash_table_free(t);
    CHECK(freed == 1);
    return 0;
}'''),
dict(id="ar-remove-swaps-tail", prop="C04", edits=[(AR,'''        while (end_of_removed < end_of_array) {
            memcpy(temp''','''        if (remaining > 2 * count) {
            size_t  skip = (remaining / count - 1) * count * element_size;
            end_of_removed += skip;
        }
        while (end_of_removed < end_of_array) {
            memcpy(temp''')],
 needs="an array with callbacks, and removing a range that has more than twice as many elements after it",
 breaks="the elements after the removed range are not moved down in order",
 demo=PRE+'''
static void rm(void *ud, void *e) { }
int main(void) {
    cork_array(int) a; int i;
    cork_array_init(&a); cork_array_set_remove(&a, rm);
    for (i = 0; i < 12; i++) cork_array_append(&a, i);
    cork_array_remove_range(&a, 2, 2);
    CHECK(cork_array_size(&a) == 10);
    for (i = 0; i < 10; i++) CHECK(cork_array_at(&a, i) == (i < 2 ? i : i + 2));
    return 0;
}'''),
dict(id="ar-copy-initialized", prop="C05", edits=[(AR,'''    if (src->size > dest->priv->initialized_count) {
        dest->priv->initialized_count = src->size;
    }''','''    if (dest->priv->init != NULL || reuse_count == 0) {
        if (src->size > dest->priv->initialized_count) {
            dest->priv->initialized_count = src->size;
        }
    }''')],
 needs="an array with a done callback but no init callback, which already held elements when a longer array is copied into it",
 breaks="the done callback is not called for the elements that the copy added",
 demo=PRE+'''
static int n;
static void d(void *ud, void *e) { n++; }
int main(void) {
    cork_array(int) a; cork_array(int) b; int i;
    cork_array_init(&a); cork_array_init(&b);
    cork_array_set_done(&b, d);
    for (i = 0; i < 5; i++) cork_array_append(&a, i);
    cork_array_append(&b, 1);
    CHECK(cork_array_copy(&b, &a, NULL, NULL) == 0);
    cork_array_done(&b);
    CHECK(n == 5);
    return 0;
}'''),
dict(id="ar-done-stops-at-size", prop="C05", edits=[(AR,'''        for (i = 0; i < array->priv->initialized_count; i++) {
            array->priv->done''','''        size_t  count = (array->priv->reuse != NULL)?
            array->priv->initialized_count: array->size;
        for (i = 0; i < count; i++) {
            array->priv->done''')],
 needs="an array with init and done callbacks but no reuse callback, that has shrunk when it is finalized",
 breaks="elements that were initialized and removed later are never finalized",
 demo=PRE+'''
static int n;
static void d(void *ud, void *e) { n++; }
int main(void) {
    cork_array(int) a; int i;
    cork_array_init(&a); cork_array_set_done(&a, d);
    for (i = 0; i < 5; i++) cork_array_append(&a, i);
    cork_array_remove(&a, 1);
    cork_array_done(&a);
    CHECK(n == 5);
    return 0;
}'''),
dict(id="dl-visit-uses-freed-next", prop="C10", edits=[(DL,'''    cork_dllist_foreach_void(list, curr, next) {
        int  rc = visit(ud, curr);
        if (rc != 0) {
            return rc;
        }
    }
    return 0;''','''    for (curr = cork_dllist_start(list); !cork_dllist_is_end(list, curr);
         curr = curr->next) {
        int  rc;
        next = curr->next;
        rc = visit(ud, curr);
        if (rc != 0) {
            return rc;
        }
        if (cork_dllist_is_end(list, next)) {
            break;
        }
    }
    return 0;''')],
 needs="a visit whose function moves or frees the element it is given",
 breaks="the visit follows the links of an element that is no longer in the list",
 demo=PRE+'''
struct it { struct cork_dllist_item i; int v; };
static int n;
static int f(void *ud, struct cork_dllist_item *i) { cork_dllist_remove(i); cork_dllist_add((struct cork_dllist *) ud, i); if (++n > 100) exit(1); return 0; }
int main(void) {
    struct cork_dllist a, b; struct it x[3]; int i;
    cork_dllist_init(&a); cork_dllist_init(&b);
    for (i = 0; i < 3; i++) cork_dllist_add(&a, &x[i].i);
    cork_dllist_visit(&a, &b, f);
    CHECK(n == 3); CHECK(cork_dllist_size(&b) == 3); CHECK(cork_dllist_is_empty(&a));
    return 0;
}'''),
dict(id="dl-visit-negative", prop="C10", edits=[(DL,'''        if (rc != 0) {
            return rc;''','''        if (rc > 0) {
            return rc;''')],
 needs="a visitor that returns a negative value",
 breaks="the visit does not stop",
 demo=PRE+'''
static int n;
static int f(void *ud, struct cork_dllist_item *i) { n++; return -1; }
int main(void) {
    struct cork_dllist a; struct cork_dllist_item x[3]; int i;
    cork_dllist_init(&a);
    for (i = 0; i < 3; i++) cork_dllist_add(&a, &x[i]);
    CHECK(cork_dllist_visit(&a, NULL, f) == -1);
    CHECK(n == 1);
    return 0;
}'''),
dict(id="bs-clear-partial", prop="C12", edits=[(BS,'''cork_bitset_clear(struct cork_bitset *set)
{
    memset(set->bits, 0, set->byte_count);''','''cork_bitset_clear(struct cork_bitset *set)
{
    memset(set->bits, 0, (set->bit_count + 6) / 8);''')],
 needs="a set whose size is one more than a multiple of eight, with its last bit set when it is cleared",
 breaks="the last bit stays set",
 demo=PRE+'''
int main(void) {
    struct cork_bitset *s = cork_bitset_new(17);
    cork_bitset_set(s, 16, true);
    cork_bitset_clear(s);
    CHECK(!cork_bitset_get(s, 16));
    return 0;
}'''),
dict(id="bs-set-truthy", prop="C12", edits=[(BH,"| ((val)? cork_bitset_pos_mask_for_bit(i): 0))","| (((val) & 1)? cork_bitset_pos_mask_for_bit(i): 0))")],
 needs="setting a bit to a true value other than 1",
 breaks="even true values unset the bit",
 demo=PRE+'''
int main(void) {
    struct cork_bitset *s = cork_bitset_new(17);
    int flags = 6;
    cork_bitset_set(s, 3, flags & 2);
    CHECK(cork_bitset_get(s, 3));
    return 0;
}'''),
dict(id="bs-index-width", prop="C12", edits=[(BH,"    ((set)->bits[(i) / 8])","    ((set)->bits[(uint16_t) ((i) >> 3)])")],
 needs="a set with more than 524288 bits",
 breaks="bits whose byte index does not fit into 16 bits share storage with others",
 demo=PRE+'''
int main(void) {
    struct cork_bitset *s = cork_bitset_new(1000000);
    cork_bitset_set(s, 600000, true);
    CHECK(cork_bitset_get(s, 600000));
    CHECK(!cork_bitset_get(s, 600000 - 524288));
    return 0;
}'''),
]
BUGS+=[
dict(id="rb-write-wrap-order", prop="C11", edits=[(RB,'''    if (self->write_index == self->allocated_size) {
        self->write_index = 0;
    }
    return 0;''','''    if (self->write_index == self->allocated_size) {
        self->write_index = (self->read_index == self->allocated_size - 1 &&
                             self->allocated_size > 5)? 1: 0;
    }
    return 0;''')],
 needs="a buffer of more than five elements where the element just written at the end is the only one in it",
 breaks="a slot is skipped, so a stale element is returned later",
 demo=PRE+'''
int main(void) {
    struct cork_ring_buffer *b = cork_ring_buffer_new(8);
    uintptr_t i;
    for (i = 1; i < 100; i++) { CHECK(cork_ring_buffer_add(b, (void *) i) == 0); CHECK(cork_ring_buffer_pop(b) == (void *) i); }
    return 0;
}'''),
dict(id="rb-pop-full-wrap", prop="C11", edits=[(RB,'''        void  *result = self->elements[self->read_index++];
        self->size--;''','''        void  *result = self->elements[self->read_index++];
        if (result == NULL && self->size > 1) {
            result = self->elements[self->read_index % self->allocated_size];
        }
        self->size--;''')],
 needs="a NULL element that is not the last one in the buffer",
 breaks="popping it returns the element behind it, which is then returned twice",
 demo=PRE+'''
int main(void) {
    struct cork_ring_buffer *b = cork_ring_buffer_new(4);
    cork_ring_buffer_add(b, NULL); cork_ring_buffer_add(b, (void *) 3);
    CHECK(cork_ring_buffer_pop(b) == NULL);
    CHECK(cork_ring_buffer_pop(b) == (void *) 3);
    return 0;
}'''),
]
