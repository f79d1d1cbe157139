From 436d6e595168b33442ecea86678e4528b54975e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 01/51] fix: free a hash table's user data when the table is
 freed

---
 src/libcork/ds/hash-table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 6fec797..9ecc264 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -193,6 +193,7 @@ void
 cork_hash_table_free(struct cork_hash_table *table)
 {
     cork_hash_table_clear(table);
+    cork_free_user_data(table);
     cork_cfree(table->bins, table->bin_count, sizeof(struct cork_dllist));
     cork_delete(struct cork_hash_table, table);
 }
@@ -207,6 +208,7 @@ void
 cork_hash_table_set_user_data(struct cork_hash_table *table,
                               void *user_data, cork_free_f free_user_data)
 {
+    cork_free_user_data(table);
     table->user_data = user_data;
     table->free_user_data = free_user_data;
 }
-- 
2.43.0


From 481ede0e8ea2a0fbfae94d81de87e07a8928924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 02/51] fix: keep each array entry intact when elements are
 removed from the middle

Without a remove callback, the entries behind the removed range were copied
over it, so that reuse and done were later called on duplicates of live entries
and never on the removed ones.
---
 src/libcork/ds/array.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 571353e..fd0a3ac 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -234,8 +234,9 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
     char* end_of_array = array->items + (array->size * element_size);
 
     array->size -= count;
-    if (array->priv->remove == NULL) {
-        /* If there isn't a cleanup callback, just move the array contents
+    if (array->priv->init == NULL && array->priv->done == NULL &&
+        array->priv->reuse == NULL && array->priv->remove == NULL) {
+        /* If there aren't any callbacks, just move the array contents
          * directly. */
         if (end_of_removed < end_of_array) {
             memmove(start_of_removed, end_of_removed, remaining * element_size);
@@ -254,7 +255,8 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
 
         /* Then call the cleanup callback on all of the elements to be removed,
          * which are now guaranteed to be at the end of the array. */
-        while (start_of_removed < end_of_removed) {
+        while (array->priv->remove != NULL &&
+               start_of_removed < end_of_removed) {
             array->priv->remove(array->priv->user_data, start_of_removed);
             start_of_removed += element_size;
         }
-- 
2.43.0


From f4018ac024e6c399962ad76b6c539550fe39263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 03/51] fix: clearing an array must not remove already removed
 elements again

---
 src/libcork/ds/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index fd0a3ac..a1359b3 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -128,7 +128,7 @@ cork_raw_array_clear(struct cork_raw_array *array)
     if (array->priv->remove != NULL) {
         size_t  i;
         char  *element = array->items;
-        for (i = 0; i < array->priv->initialized_count; i++) {
+        for (i = 0; i < array->size; i++) {
             array->priv->remove(array->priv->user_data, element);
             element += array->priv->element_size;
         }
-- 
2.43.0


From 693218e87704ec04514d99a12144c1883da3246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 04/51] fix: reject slice requests whose offset plus length
 overflows

---
 src/libcork/ds/managed-buffer.c | 2 +-
 src/libcork/ds/slice.c          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 295413a..9cd426e 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -197,7 +197,7 @@ cork_managed_buffer_slice(struct cork_slice *dest,
 {
     if ((buffer != NULL) &&
         (offset <= buffer->size) &&
-        ((offset + length) <= buffer->size)) {
+        (length <= buffer->size - offset)) {
         /*
         DEBUG("Slicing [%p:%zu] at %zu:%zu, gives <%p:%zu>",
               buffer->buf, buffer->size,
diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index 395130a..fbf18bf 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -51,7 +51,7 @@ cork_slice_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -96,7 +96,7 @@ cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -140,7 +140,7 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
-- 
2.43.0


From 2c207524d92db50ec6619ec4a9c82ee4ff765a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 05/51] fix: give each memory pool block room for at least one
 object

---
 src/libcork/core/mempool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcork/core/mempool.c b/src/libcork/core/mempool.c
index f25d0aa..b1b55f3 100644
--- a/src/libcork/core/mempool.c
+++ b/src/libcork/core/mempool.c
@@ -70,6 +70,12 @@ cork_mempool_new_size_ex(size_t element_size, size_t block_size)
     struct cork_mempool  *mp = cork_new(struct cork_mempool);
     mp->element_size = element_size;
     mp->block_size = block_size;
+    /* Each block has to have room for at least one object. */
+    if (mp->block_size <
+        sizeof(struct cork_mempool_block) + cork_mempool_object_size(mp)) {
+        mp->block_size =
+            sizeof(struct cork_mempool_block) + cork_mempool_object_size(mp);
+    }
     mp->free_list = NULL;
     mp->allocated_count = 0;
     mp->blocks = NULL;
-- 
2.43.0


From 5a42697f0b72198dab9c739a9bc9b557ab626a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 06/51] fix: free a garbage cycle only after all of its members
 have been found

---
 src/libcork/core/gc.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f26ae7b..0171fc6 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -44,6 +44,8 @@ struct cork_gc {
     size_t  root_count;
     /* The possible roots of garbage cycles */
     struct cork_gc_header  *roots[ROOTS_SIZE];
+    /* The members of garbage cycles that are waiting to be freed */
+    struct cork_gc_header  *garbage;
 };
 
 cork_tls(struct cork_gc, cork_gc);
@@ -67,6 +69,9 @@ struct cork_gc_header {
 
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
+
+    /* The next object that's waiting to be freed. */
+    struct cork_gc_header  *next;
 };
 
 /*
@@ -170,6 +175,7 @@ cork_gc_alloc(size_t instance_size, struct cork_gc_obj_iface *iface)
     header->ref_count_color = cork_gc_ref_count_color(1, false, GC_BLACK);
     header->allocated_size = full_size;
     header->iface = iface;
+    header->next = NULL;
     return cork_gc_get_object(header);
 }
 
@@ -373,12 +379,26 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
             cork_gc_recurse(gc, header, cork_gc_collect_white);
-            DEBUG("  Freeing %p\n", header);
-            cork_gc_free(header);
+            /* There might still be other members of the cycle that refer to
+             * this object, so we can't free it until we've found all of the
+             * garbage. */
+            header->next = gc->garbage;
+            gc->garbage = header;
         }
     }
 }
 
+static void
+cork_gc_free_garbage(struct cork_gc *gc)
+{
+    while (gc->garbage != NULL) {
+        struct cork_gc_header  *header = gc->garbage;
+        gc->garbage = header->next;
+        DEBUG("  Freeing %p\n", header);
+        cork_gc_free(header);
+    }
+}
+
 static void
 cork_gc_collect_roots(struct cork_gc *gc)
 {
@@ -403,4 +423,5 @@ cork_gc_collect_cycles(struct cork_gc *gc)
     cork_gc_mark_roots(gc);
     cork_gc_scan_roots(gc);
     cork_gc_collect_roots(gc);
+    cork_gc_free_garbage(gc);
 }
-- 
2.43.0


From d4fe205a9b003a70eb1fda70664f3edef1fa5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 07/51] fix: collect garbage cycles only between reference
 count updates

---
 src/libcork/core/gc.c | 63 ++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index 0171fc6..e6724eb 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -33,6 +33,8 @@
  * GC context life cycle
  */
 
+/* The number of possible roots that we'll buffer before looking for garbage
+ * cycles. */
 #define ROOTS_SIZE  1024
 
 /* An internal structure allocated with every garbage-collected object. */
@@ -40,10 +42,10 @@ struct cork_gc_header;
 
 /* A garbage collector context. */
 struct cork_gc {
-    /* The number of used entries in roots. */
+    /* The number of entries in roots. */
     size_t  root_count;
     /* The possible roots of garbage cycles */
-    struct cork_gc_header  *roots[ROOTS_SIZE];
+    struct cork_gc_header  *roots;
     /* The members of garbage cycles that are waiting to be freed */
     struct cork_gc_header  *garbage;
 };
@@ -70,7 +72,7 @@ struct cork_gc_header {
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
 
-    /* The next object that's waiting to be freed. */
+    /* The next possible root, or the next object that's waiting to be freed. */
     struct cork_gc_header  *next;
 };
 
@@ -213,10 +215,9 @@ cork_gc_possible_root(struct cork_gc *gc, struct cork_gc_header *header)
         cork_gc_set_color(header, GC_PURPLE);
         if (!cork_gc_get_buffered(header)) {
             cork_gc_set_buffered(header, true);
-            if (gc->root_count >= ROOTS_SIZE) {
-                cork_gc_collect_cycles(gc);
-            }
-            gc->roots[gc->root_count++] = header;
+            header->next = gc->roots;
+            gc->roots = header;
+            gc->root_count++;
         }
     } else {
         DEBUG("  Already marked as possible garbage cycle root\n");
@@ -255,6 +256,12 @@ cork_gc_decref(void *obj)
         } else {
             cork_gc_possible_root(gc, header);
         }
+
+        /* We can only look for garbage cycles now that the reference counts
+         * are consistent again. */
+        if (gc->root_count >= ROOTS_SIZE) {
+            cork_gc_collect_cycles(gc);
+        }
     }
 }
 
@@ -287,24 +294,26 @@ cork_gc_mark_gray_step(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_mark_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        struct cork_gc_header  *header = gc->roots[i];
+    struct cork_gc_header  **prev = &gc->roots;
+    while (*prev != NULL) {
+        struct cork_gc_header  *header = *prev;
         if (cork_gc_get_color(header) == GC_PURPLE) {
             DEBUG("  Checking possible garbage cycle root %p\n",
                   cork_gc_get_object(header));
             DEBUG("    cork_gc_mark_gray(%p)\n",
                   cork_gc_get_object(header));
             cork_gc_mark_gray(gc, header);
+            prev = &header->next;
         } else {
             DEBUG("  Possible garbage cycle root %p already checked\n",
                   cork_gc_get_object(header));
             cork_gc_set_buffered(header, false);
-            gc->roots[i] = NULL;
+            *prev = header->next;
+            gc->root_count--;
             if (cork_gc_get_color(header) == GC_BLACK &&
                 cork_gc_get_ref_count(header) == 0) {
-                DEBUG("  Freeing %p\n", header);
-                cork_gc_free(header);
+                header->next = gc->garbage;
+                gc->garbage = header;
             }
         }
     }
@@ -360,12 +369,9 @@ cork_gc_scan(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_scan_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            void  *obj = cork_gc_get_object(gc->roots[i]);
-            cork_gc_scan(gc, obj, NULL);
-        }
+    struct cork_gc_header  *header;
+    for (header = gc->roots; header != NULL; header = header->next) {
+        cork_gc_scan(gc, cork_gc_get_object(header), NULL);
     }
 }
 
@@ -402,18 +408,15 @@ cork_gc_free_garbage(struct cork_gc *gc)
 static void
 cork_gc_collect_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            struct cork_gc_header  *header = gc->roots[i];
-            void  *obj = cork_gc_get_object(header);
-            cork_gc_set_buffered(header, false);
-            DEBUG("Collecting cycles from garbage root %p\n", obj);
-            cork_gc_collect_white(gc, obj, NULL);
-            gc->roots[i] = NULL;
-        }
+    while (gc->roots != NULL) {
+        struct cork_gc_header  *header = gc->roots;
+        void  *obj = cork_gc_get_object(header);
+        gc->roots = header->next;
+        gc->root_count--;
+        cork_gc_set_buffered(header, false);
+        DEBUG("Collecting cycles from garbage root %p\n", obj);
+        cork_gc_collect_white(gc, obj, NULL);
     }
-    gc->root_count = 0;
 }
 
 static void
-- 
2.43.0


From d2ec3676f61db09d775c51a2fbd08918e9182fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 08/51] fix: let the debugging allocator report allocation
 failures

---
 src/libcork/core/allocator.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 8a70b3b..d1613d5 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -393,7 +393,14 @@ static void *
 cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
-    size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    size_t  *base;
+    if (CORK_UNLIKELY(real_size < size)) {
+        return NULL;
+    }
+    base = cork_alloc_xmalloc(alloc->parent, real_size);
+    if (CORK_UNLIKELY(base == NULL)) {
+        return NULL;
+    }
     *base = size;
     return base + 1;
 }
-- 
2.43.0


From c70297984749dff30e3aa4ffe370e1009ebec641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 09/51] fix: report overflowing cork_xcalloc sizes as
 allocation failures

---
 include/libcork/core/allocator.h | 2 +-
 src/libcork/core/allocator.c     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 01a9e92..60951cb 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -177,7 +177,7 @@ void
 cork_alloc_cfree(const struct cork_alloc *alloc, void *ptr,
                  size_t count, size_t size)
 {
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count <= (SIZE_MAX / size));
     return alloc->free(alloc, ptr, count * size);
 }
 
diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index d1613d5..6e1efaf 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,9 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(count < (SIZE_MAX / size));
+    if (CORK_UNLIKELY(size != 0 && count > (SIZE_MAX / size))) {
+        return NULL;
+    }
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
-- 
2.43.0


From c7eab955b32a6852633d7be863d1f0dd583a81e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 10/51] fix: let the debugging allocator free NULL

---
 src/libcork/core/allocator.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 6e1efaf..da8b6d1 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -411,9 +411,15 @@ static void
 cork_debug_alloc__free(const struct cork_alloc *alloc, void *ptr,
                        size_t expected_size)
 {
-    size_t  *base = ((size_t *) ptr) - 1;
-    size_t  actual_size = *base;
-    size_t  real_size = actual_size + sizeof(size_t);
+    size_t  *base;
+    size_t  actual_size;
+    size_t  real_size;
+    if (ptr == NULL) {
+        return;
+    }
+    base = ((size_t *) ptr) - 1;
+    actual_size = *base;
+    real_size = actual_size + sizeof(size_t);
     if (CORK_UNLIKELY(actual_size != expected_size)) {
         cork_abort
             ("Incorrect size when freeing pointer (got %zu, expected %zu)",
-- 
2.43.0


From eeb6a9535b93a61531aeebf1a320d32fed599e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 11/51] fix: format an error message that refers to the current
 one

---
 src/libcork/core/error.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 1d16206..030dcbd 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -136,26 +136,39 @@ cork_error_set_printf(cork_error code, const char *format, ...)
 {
     va_list  args;
     struct cork_error  *error = cork_error_get();
+    struct cork_buffer  *temp;
     error->code = code;
+    /* The parameters might refer to the current message. */
     va_start(args, format);
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
     va_end(args);
+    temp = error->other;
+    error->other = error->message;
+    error->message = temp;
 }
 
 void
 cork_error_set_string(cork_error code, const char *str)
 {
     struct cork_error  *error = cork_error_get();
+    struct cork_buffer  *temp;
     error->code = code;
-    cork_buffer_set_string(error->message, str);
+    cork_buffer_set_string(error->other, str);
+    temp = error->other;
+    error->other = error->message;
+    error->message = temp;
 }
 
 void
 cork_error_set_vprintf(cork_error code, const char *format, va_list args)
 {
     struct cork_error  *error = cork_error_get();
+    struct cork_buffer  *temp;
     error->code = code;
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
+    temp = error->other;
+    error->other = error->message;
+    error->message = temp;
 }
 
 void
-- 
2.43.0


From 895aa0b9be699020d81d8ff30cf473cdaaa2d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:56 +0000
Subject: [PATCH 12/51] fix: reject IPv4 addresses with an empty octet

---
 src/libcork/core/ip-address.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 6aebd34..3498552 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -66,6 +66,10 @@ cork_ipv4_parse(struct cork_ipv4 *addr, const char *str)
                 if (CORK_UNLIKELY(octets == 3)) {
                     goto parse_error;
                 }
+                /* Each octet must contain at least one digit. */
+                if (CORK_UNLIKELY(!seen_digit_in_octet)) {
+                    goto parse_error;
+                }
                 DEBUG("octet %u = %u\n", octets, digit);
                 result[octets] = digit;
                 digit = 0;
-- 
2.43.0


From 87147a81175ff1e609abe5e4a77167ce80f47c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:56 +0000
Subject: [PATCH 13/51] fix: reject IPv6 addresses whose double-colon stands
 for no hextets

---
 src/libcork/core/ip-address.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 3498552..6c5e729 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -311,6 +311,12 @@ cork_ipv6_init(struct cork_ipv6 *addr, const char *str)
         char  parsed_result[CORK_IPV6_STRING_LENGTH];
 #endif
         unsigned int  after_count = hextets_seen - before_count;
+
+        /* A double-colon must stand for at least one hextet. */
+        if (CORK_UNLIKELY(hextets_seen == 8)) {
+            goto parse_error;
+        }
+
         DEBUG("Saw double-colon; %u hextets before, %u after\n",
               before_count, after_count);
         memset(addr, 0, sizeof(struct cork_ipv6));
-- 
2.43.0


From df5e8c12f652546ef58d737ba51707c21be7122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:56 +0000
Subject: [PATCH 14/51] fix: apply the IPv6 CIDR mask in host byte order

---
 src/libcork/core/ip-address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 6c5e729..ab57bda 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -462,8 +462,8 @@ cork_ipv6_is_valid_network(const struct cork_ipv6 *addr,
         cidr_mask[1] = UINT64_C(0xffffffffffffffff);
     }
 
-    return (CORK_UINT64_BIG_TO_HOST(addr->_.u64[0] & cidr_mask[0]) == 0) &&
-           (CORK_UINT64_BIG_TO_HOST(addr->_.u64[1] & cidr_mask[1]) == 0);
+    return ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[0]) & cidr_mask[0]) == 0) &&
+           ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[1]) & cidr_mask[1]) == 0);
 }
 
 
-- 
2.43.0


From fd8b55a944c8d3886d2395537b23a81306674d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:16 +0000
Subject: [PATCH 15/51] fix: byte-swap the whole argument expression

---
 include/libcork/core/byte-order.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/libcork/core/byte-order.h b/include/libcork/core/byte-order.h
index 46771a2..7803779 100644
--- a/include/libcork/core/byte-order.h
+++ b/include/libcork/core/byte-order.h
@@ -54,24 +54,24 @@
  * original contents if it happens to be a variable.  */
 
 #define CORK_SWAP_UINT16(__u16) \
-    (((((uint16_t) __u16) & 0xff00u) >> 8) | \
-     ((((uint16_t) __u16) & 0x00ffu) << 8))
+    (((((uint16_t) (__u16)) & 0xff00u) >> 8) | \
+     ((((uint16_t) (__u16)) & 0x00ffu) << 8))
 
 #define CORK_SWAP_UINT32(__u32) \
-    (((((uint32_t) __u32) & 0xff000000u) >> 24) | \
-     ((((uint32_t) __u32) & 0x00ff0000u) >>  8) | \
-     ((((uint32_t) __u32) & 0x0000ff00u) <<  8) | \
-     ((((uint32_t) __u32) & 0x000000ffu) << 24))
+    (((((uint32_t) (__u32)) & 0xff000000u) >> 24) | \
+     ((((uint32_t) (__u32)) & 0x00ff0000u) >>  8) | \
+     ((((uint32_t) (__u32)) & 0x0000ff00u) <<  8) | \
+     ((((uint32_t) (__u32)) & 0x000000ffu) << 24))
 
 #define CORK_SWAP_UINT64(__u64) \
-    (((((uint64_t) __u64) & UINT64_C(0xff00000000000000)) >> 56) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00ff000000000000)) >> 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000ff0000000000)) >> 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000ff00000000)) >>  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000ff000000)) <<  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000000000ff0000)) << 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000000000ff00)) << 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000000000ff)) << 56))
+    (((((uint64_t) (__u64)) & UINT64_C(0xff00000000000000)) >> 56) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00ff000000000000)) >> 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000ff0000000000)) >> 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000ff00000000)) >>  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000ff000000)) <<  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000000000ff0000)) << 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000000000ff00)) << 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000000000ff)) << 56))
 
 /* Bytes-swaps an integer variable in place.
  *
-- 
2.43.0


From 8b971a1d084210b96318ff1f0ab58e78227ee13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 16/51] fix: never round a timestamp's fraction up to a whole
 second

---
 include/libcork/core/timestamp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/timestamp.h b/include/libcork/core/timestamp.h
index 2c828c6..6070e8f 100644
--- a/include/libcork/core/timestamp.h
+++ b/include/libcork/core/timestamp.h
@@ -83,7 +83,8 @@ cork_timestamp_gsec_to_units(const cork_timestamp ts, uint64_t denom)
     gsec += half;
     gsec *= denom;
     gsec >>= 32;
-    return gsec;
+    /* Don't let the rounding turn a fraction into a whole second. */
+    return (gsec < denom)? gsec: denom - 1;
 }
 
 CORK_INLINE
-- 
2.43.0


From 28e249a9f979870f4afcba7d9ad8c115b1b48cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 17/51] fix: reject fractional timestamp widths that overflow

---
 src/libcork/core/timestamp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/timestamp.c b/src/libcork/core/timestamp.c
index dc059c6..e033047 100644
--- a/src/libcork/core/timestamp.c
+++ b/src/libcork/core/timestamp.c
@@ -75,8 +75,12 @@ cork_timestamp_format_parts(const cork_timestamp ts, struct tm *tm,
 
         /* Then parse the format specifier */
         while (is_digit(*spec)) {
-            width *= 10;
-            width += (*spec++ - '0');
+            /* Don't let the width overflow; anything above 9 is invalid. */
+            if (width < 1000) {
+                width *= 10;
+                width += (*spec - '0');
+            }
+            spec++;
         }
 
         switch (*spec) {
-- 
2.43.0


From 43480cb1af8c10636f3c88d4978015db3871ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 18/51] fix: append a path to itself

---
 src/libcork/posix/files.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index ea638a9..cfebe4a 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -219,7 +219,14 @@ cork_path_join(const struct cork_path *other, const char *more)
 void
 cork_path_append_path(struct cork_path *path, const struct cork_path *more)
 {
-    cork_path_append(path, more->given.buf);
+    if (path == more) {
+        /* Appending moves the content that we would be appending from. */
+        struct cork_path  *copy = cork_path_clone(more);
+        cork_path_append(path, copy->given.buf);
+        cork_path_free(copy);
+    } else {
+        cork_path_append(path, more->given.buf);
+    }
 }
 
 struct cork_path *
-- 
2.43.0


From d4b83212e36535e8f1e62fad2af42c6d37a06181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 19/51] fix: print an empty path list as an empty string

---
 src/libcork/posix/files.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index cfebe4a..65c0ca0 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -303,6 +303,7 @@ cork_path_list_new_empty(void)
     struct cork_path_list  *list = cork_new(struct cork_path_list);
     cork_array_init(&list->array);
     cork_buffer_init(&list->string);
+    cork_buffer_set(&list->string, "", 0);
     return list;
 }
 
-- 
2.43.0


From 1b5eff3c74367a87b1eeeec61215b32ae64be931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 20/51] fix: forget what a file was when creating a directory
 there

---
 src/libcork/posix/files.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 65c0ca0..b5c072d 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -634,7 +634,12 @@ int
 cork_file_mkdir(struct cork_file *file, cork_file_mode mode,
                 unsigned int flags)
 {
-    return cork_file_mkdir_one(file, mode, flags);
+    int  rc;
+    /* Whatever we knew about the file might not be true anymore. */
+    cork_file_reset(file);
+    rc = cork_file_mkdir_one(file, mode, flags);
+    cork_file_reset(file);
+    return rc;
 }
 
 static int
-- 
2.43.0


From 69f9b501d8d4b3d376f5cd559b5bb5e293131b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 21/51] fix: create the parents of a directory path with a
 trailing slash

---
 src/libcork/posix/files.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index b5c072d..fd172e0 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -606,7 +606,15 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
     /* If the caller asked for a recursive mkdir, then make sure the parent
      * directory exists. */
     if (flags & CORK_FILE_RECURSIVE) {
-        struct cork_path  *parent = cork_path_dirname(file->path);
+        struct cork_path  *parent = cork_path_clone(file->path);
+        /* With a trailing slash, the part before it isn't the parent, but the
+         * directory itself. */
+        while (cork_path_size(parent) > 1 &&
+               cork_buffer_char
+                (&parent->given, cork_path_size(parent) - 1) == '/') {
+            cork_path_truncate(parent, cork_path_size(parent) - 1);
+        }
+        cork_path_set_dirname(parent);
         DEBUG("  Checking parent %s\n", cork_path_get(parent));
         if (parent->given.size == 0) {
             /* There is no parent; we're either at the filesystem root (for an
-- 
2.43.0


From 118252cc10498eee3b7cd001493815633ba82555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 22/51] fix: let a permissive mkdir find a directory that has
 just appeared

---
 src/libcork/posix/files.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index fd172e0..df1d5f1 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -634,7 +634,19 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
 
     /* Create the directory already! */
     DEBUG("  Creating %s\n", cork_path_get(file->path));
-    rii_check_posix(mkdir(cork_path_get(file->path), mode));
+    if (mkdir(cork_path_get(file->path), mode) == -1) {
+        int  mkdir_errno = errno;
+        struct stat  info;
+        /* Someone else might have created the directory since we checked; a
+         * "." or ".." might have come into existence with its parent. */
+        if (mkdir_errno == EEXIST && (flags & CORK_FILE_PERMISSIVE) &&
+            stat(cork_path_get(file->path), &info) == 0 &&
+            S_ISDIR(info.st_mode)) {
+            return 0;
+        }
+        cork_system_error_set_explicit(mkdir_errno);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 6de4ea4c63c9e6b72d86f17bdfdd272785a67f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 23/51] fix: forget what a file was when removing it

---
 src/libcork/posix/files.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index df1d5f1..418684a 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -670,8 +670,8 @@ cork_file_remove_iterator(struct cork_file *file, const char *rel_name,
     return cork_file_remove(file, *flags);
 }
 
-int
-cork_file_remove(struct cork_file *file, unsigned int flags)
+static int
+cork_file_remove_one(struct cork_file *file, unsigned int flags)
 {
     DEBUG("rm %s\n", cork_path_get(file->path));
     rii_check(cork_file_stat(file));
@@ -699,6 +699,17 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
     }
 }
 
+int
+cork_file_remove(struct cork_file *file, unsigned int flags)
+{
+    int  rc;
+    /* Whatever we knew about the file might not be true anymore. */
+    cork_file_reset(file);
+    rc = cork_file_remove_one(file, flags);
+    cork_file_reset(file);
+    return rc;
+}
+
 
 /*-----------------------------------------------------------------------
  * Lists of files
-- 
2.43.0


From 15ea59c8a357bb6102000d6c5f763578107ec4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 24/51] fix: remove symbolic links themselves, never what they
 refer to

---
 src/libcork/posix/files.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 418684a..4c0f7df 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -673,17 +673,24 @@ cork_file_remove_iterator(struct cork_file *file, const char *rel_name,
 static int
 cork_file_remove_one(struct cork_file *file, unsigned int flags)
 {
+    struct stat  info;
+
     DEBUG("rm %s\n", cork_path_get(file->path));
-    rii_check(cork_file_stat(file));
 
-    if (file->type == CORK_FILE_MISSING) {
+    /* A symbolic link is removed itself, so we must not look at the file that
+     * it refers to. */
+    if (lstat(cork_path_get(file->path), &info) == -1) {
+        if (errno != ENOENT && errno != ENOTDIR) {
+            cork_system_error_set();
+            return -1;
+        }
         if (flags & CORK_FILE_PERMISSIVE) {
             return 0;
         } else {
             cork_system_error_set_explicit(ENOENT);
             return -1;
         }
-    } else if (file->type == CORK_FILE_DIRECTORY) {
+    } else if (S_ISDIR(info.st_mode)) {
         if (flags & CORK_FILE_RECURSIVE) {
             /* The user asked that we delete the contents of the directory
              * first. */
-- 
2.43.0


From 1346174b2591dccc0c0c8d4d10001348c6bc3924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:24 +0000
Subject: [PATCH 25/51] fix: iterate through directory entries that cannot be
 followed

---
 src/libcork/posix/files.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 4c0f7df..801214e 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -545,7 +545,6 @@ cork_file_iterate_directory(struct cork_file *file,
         }
 
         cork_path_append(child_path, entry->d_name);
-        ei_check(cork_file_stat(&child_file));
 
         /* If the entry is a subdirectory, recurse into it. */
         ei_check(iterator(&child_file, entry->d_name, user_data));
-- 
2.43.0


From 96750801f276fa99d821a2abf9e7d680447ee7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 26/51] fix: set an error when a file cannot be removed

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 801214e..856c00a 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -700,7 +700,7 @@ cork_file_remove_one(struct cork_file *file, unsigned int flags)
         rii_check_posix(rmdir(cork_path_get(file->path)));
         return 0;
     } else {
-        rii_check(unlink(cork_path_get(file->path)));
+        rii_check_posix(unlink(cork_path_get(file->path)));
         return 0;
     }
 }
-- 
2.43.0


From cc70f9ff84838250d0b75b9db7e704784ca318c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 27/51] fix: return the value with which a directory iteration
 was stopped

---
 src/libcork/posix/files.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 856c00a..b64d203 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -525,6 +525,7 @@ cork_file_iterate_directory(struct cork_file *file,
                             cork_file_directory_iterator iterator,
                             void *user_data)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
@@ -547,7 +548,10 @@ cork_file_iterate_directory(struct cork_file *file,
         cork_path_append(child_path, entry->d_name);
 
         /* If the entry is a subdirectory, recurse into it. */
-        ei_check(iterator(&child_file, entry->d_name, user_data));
+        rc = iterator(&child_file, entry->d_name, user_data);
+        if (rc != 0) {
+            goto error;
+        }
 
         /* Remove this entry name from the path buffer. */
         cork_path_truncate(child_path, dir_path_size);
@@ -567,6 +571,7 @@ cork_file_iterate_directory(struct cork_file *file,
     /* Check errno immediately after the while loop terminates */
     if (CORK_UNLIKELY(errno != 0)) {
         cork_system_error_set();
+        rc = -1;
         goto error;
     }
 
@@ -577,7 +582,7 @@ cork_file_iterate_directory(struct cork_file *file,
 error:
     cork_file_done(&child_file);
     rii_check_posix(closedir(dir));
-    return -1;
+    return rc;
 }
 
 static int
-- 
2.43.0


From 981e15954bc4d663c98ea34b6dd1309dd5db827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 28/51] fix: stop a directory walk with the value a callback
 returned

---
 src/libcork/posix/directory-walker.c | 34 ++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 74aab13..d6271eb 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -28,6 +28,7 @@ static int
 cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
                         size_t root_path_size)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
@@ -48,23 +49,35 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* Stat the directory entry */
         cork_buffer_append_string(path, entry->d_name);
+        rc = -1;
         ei_check_posix(stat(path->buf, &info));
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-            int  rc = cork_dir_walker_enter_directory
+            rc = cork_dir_walker_enter_directory
                 (w, path->buf, path->buf + root_path_size,
                  path->buf + dir_path_size);
-            if (rc != CORK_SKIP_DIRECTORY) {
-                ei_check(cork_walk_one_directory(w, path, root_path_size));
-                ei_check(cork_dir_walker_leave_directory
-                         (w, path->buf, path->buf + root_path_size,
-                          path->buf + dir_path_size));
+            if (rc == 0) {
+                rc = cork_walk_one_directory(w, path, root_path_size);
+                if (rc != 0) {
+                    goto error;
+                }
+                rc = cork_dir_walker_leave_directory
+                    (w, path->buf, path->buf + root_path_size,
+                     path->buf + dir_path_size);
+                if (rc != 0) {
+                    goto error;
+                }
+            } else if (rc != CORK_SKIP_DIRECTORY) {
+                goto error;
             }
         } else if (S_ISREG(info.st_mode)) {
-            ei_check(cork_dir_walker_file
-                     (w, path->buf, path->buf + root_path_size,
-                      path->buf + dir_path_size));
+            rc = cork_dir_walker_file
+                (w, path->buf, path->buf + root_path_size,
+                 path->buf + dir_path_size);
+            if (rc != 0) {
+                goto error;
+            }
         }
 
         /* Remove this entry name from the path buffer. */
@@ -85,6 +98,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     /* Check errno immediately after the while loop terminates */
     if (CORK_UNLIKELY(errno != 0)) {
         cork_system_error_set();
+        rc = -1;
         goto error;
     }
 
@@ -97,7 +111,7 @@ error:
     if (dir != NULL) {
         rii_check_posix(closedir(dir));
     }
-    return -1;
+    return rc;
 }
 
 int
-- 
2.43.0


From 07c6ae69f2e641a4cb9d2545cbe2908a5a92d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 29/51] fix: walk the root directory

---
 src/libcork/posix/directory-walker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index d6271eb..cb02352 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -125,7 +125,7 @@ cork_walk_directory(const char *path, struct cork_dir_walker *w)
      * trailing '/' */
     cork_buffer_append_string(&buf, path);
     p = buf.buf;
-    while (p[buf.size-1] == '/') {
+    while (buf.size > 1 && p[buf.size-1] == '/') {
         buf.size--;
         p[buf.size] = '\0';
     }
-- 
2.43.0


From f8b968f7f43cf3975e2ddfaf245b8b3e09421790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:29 +0000
Subject: [PATCH 30/51] fix: pass a mode when opening a file that the flags may
 create

---
 src/libcork/ds/file-stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index e56aeb1..8871d18 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -75,7 +75,7 @@ cork_consume_file_from_path(struct cork_stream_consumer *consumer,
                             const char *path, int flags)
 {
     int  fd;
-    rii_check_posix(fd = open(path, flags));
+    rii_check_posix(fd = open(path, flags, 0666));
     ei_check(cork_consume_fd(consumer, fd));
     rii_check_posix(close(fd));
     return 0;
@@ -204,7 +204,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     int  fd;
     struct cork_fd_consumer  *self;
 
-    rpi_check_posix(fd = open(path, flags));
+    rpi_check_posix(fd = open(path, flags, 0666));
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-- 
2.43.0


From 5a5c2a4910278475ad86eaede897beb1da820ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 31/51] fix: retry an interrupted write in the descriptor
 consumer

---
 src/libcork/ds/file-stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 8871d18..4b3b68a 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -155,9 +155,11 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 
     while (bytes_left > 0) {
         ssize_t  rc = write(self->fd, buf, bytes_left);
-        if (rc == -1 && errno != EINTR) {
-            cork_system_error_set();
-            return -1;
+        if (rc == -1) {
+            if (errno != EINTR) {
+                cork_system_error_set();
+                return -1;
+            }
         } else {
             bytes_left -= rc;
             buf += rc;
-- 
2.43.0


From 2d143992acafefc28a6bf56e54f52aba47b138bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 32/51] fix: close the file of a path consumer that is freed
 before end of stream

---
 src/libcork/ds/file-stream.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 4b3b68a..975facc 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -175,7 +175,9 @@ cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
     int  rc;
     struct cork_fd_consumer  *self =
         cork_container_of(vself, struct cork_fd_consumer, parent);
-    rii_check_posix(rc = close(self->fd));
+    rc = close(self->fd);
+    self->fd = -1;
+    rii_check_posix(rc);
     return 0;
 }
 
@@ -187,6 +189,19 @@ cork_fd_consumer__free(struct cork_stream_consumer *vself)
     cork_delete(struct cork_fd_consumer, self);
 }
 
+/* Free a consumer that owns its descriptor; eof isn't sent after an error, so
+ * the descriptor might still be open. */
+static void
+cork_fd_consumer__free_close(struct cork_stream_consumer *vself)
+{
+    struct cork_fd_consumer  *self =
+        cork_container_of(vself, struct cork_fd_consumer, parent);
+    if (self->fd != -1) {
+        close(self->fd);
+    }
+    cork_delete(struct cork_fd_consumer, self);
+}
+
 struct cork_stream_consumer *
 cork_fd_consumer_new(int fd)
 {
@@ -210,7 +225,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-    self->parent.free = cork_fd_consumer__free;
+    self->parent.free = cork_fd_consumer__free_close;
     self->fd = fd;
     return &self->parent;
 }
-- 
2.43.0


From a43b51ae799f3b7ba742c839c9b1d01633b1a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:02 +0000
Subject: [PATCH 33/51] fix: let env_add_printf act on the process's
 environment

---
 src/libcork/posix/env.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 6426f68..2ec668d 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -150,8 +150,15 @@ void
 cork_env_add_vprintf(struct cork_env *env, const char *name,
                      const char *format, va_list args)
 {
-    cork_buffer_vprintf(&env->buffer, format, args);
-    cork_env_add_internal(env, name, env->buffer.buf);
+    if (env == NULL) {
+        struct cork_buffer  buffer = CORK_BUFFER_INIT();
+        cork_buffer_vprintf(&buffer, format, args);
+        cork_env_add_internal(env, name, buffer.buf);
+        cork_buffer_done(&buffer);
+    } else {
+        cork_buffer_vprintf(&env->buffer, format, args);
+        cork_env_add_internal(env, name, env->buffer.buf);
+    }
 }
 
 void
-- 
2.43.0


From 622130b6b1ef75c103af45eae1ff9ea057b91a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:15 +0000
Subject: [PATCH 34/51] fix: free a removed environment variable once

---
 src/libcork/posix/env.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 2ec668d..0dd1d53 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -177,11 +177,8 @@ cork_env_remove(struct cork_env *env, const char *name)
     if (env == NULL) {
         unsetenv(name);
     } else {
-        void  *old_var;
-        cork_hash_table_delete(env->variables, (void *) name, NULL, &old_var);
-        if (old_var != NULL) {
-            cork_env_var_free(old_var);
-        }
+        /* The hash table frees the variable for us. */
+        cork_hash_table_delete(env->variables, (void *) name, NULL, NULL);
     }
 }
 
-- 
2.43.0


From 507a7a80564bf49c3ec5b615c19d6aeff7823853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 35/51] fix: keep the parameter terminator out of the spec when
 an exec fails

---
 src/libcork/posix/exec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/exec.c b/src/libcork/posix/exec.c
index 11d08f1..1185834 100644
--- a/src/libcork/posix/exec.c
+++ b/src/libcork/posix/exec.c
@@ -167,9 +167,12 @@ cork_exec_run(struct cork_exec *exec)
 {
     const char  **params;
 
-    /* Make sure the parameter array is NULL-terminated. */
-    cork_array_append(&exec->params, NULL);
+    /* Make sure the parameter array is NULL-terminated.  (The terminator isn't
+     * one of the parameters, since we might return with an error.) */
+    cork_array_ensure_size
+        (&exec->params, cork_array_size(&exec->params) + 1);
     params = cork_array_elements(&exec->params);
+    params[cork_array_size(&exec->params)] = NULL;
 
     /* Fill in the requested environment */
     if (exec->env != NULL) {
-- 
2.43.0


From dc306f1614d86f43be57ca44846a6db506c5e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 36/51] fix: copy an exec's new working directory before
 freeing the old one

---
 src/libcork/posix/exec.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libcork/posix/exec.c b/src/libcork/posix/exec.c
index 1185834..741055d 100644
--- a/src/libcork/posix/exec.c
+++ b/src/libcork/posix/exec.c
@@ -156,10 +156,11 @@ cork_exec_cwd(struct cork_exec *exec)
 void
 cork_exec_set_cwd(struct cork_exec *exec, const char *directory)
 {
-    if (exec->cwd != NULL) {
-        cork_strfree(exec->cwd);
-    }
+    const char  *old_cwd = exec->cwd;
     exec->cwd = cork_strdup(directory);
+    if (old_cwd != NULL) {
+        cork_strfree(old_cwd);
+    }
 }
 
 int
-- 
2.43.0


From ae4ec844956c3b6bb4cfecb792de0cdb1752b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 37/51] fix: initialize the result of draining a subprocess

---
 src/libcork/posix/subprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index b1d23a5..ac207fc 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -549,7 +549,7 @@ cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
 bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
-    bool  progress;
+    bool  progress = false;
     cork_subprocess_drain_(self, &progress);
     return progress;
 }
-- 
2.43.0


From e223f01a5efaf4310587a6de2157cd381e699484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 38/51] fix: make the parent's end of an output pipe
 non-blocking

---
 src/libcork/posix/subprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index ac207fc..f2ad87c 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -134,9 +134,9 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         rii_check_posix(pipe(p->fds));
         DEBUG("[read]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
         DEBUG("[read]   Setting non-blocking flag on read pipe\n");
-        ei_check_posix(flags = fcntl(p->fds[0], F_GETFD));
+        ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
-        ei_check_posix(fcntl(p->fds[0], F_SETFD, flags));
+        ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
     }
 
     p->first = true;
-- 
2.43.0


From e04d428ecc1c27d82dd0bda4b32ab5c01683f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 39/51] fix: write all of a chunk to a subprocess's stdin

---
 src/libcork/posix/subprocess.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index f2ad87c..fcfbe84 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -243,7 +243,13 @@ cork_write_pipe__data(struct cork_stream_consumer *consumer,
 {
     struct cork_write_pipe  *p =
         cork_container_of(consumer, struct cork_write_pipe, consumer);
-    rii_check_posix(write(p->fds[1], buf, size));
+    const char  *curr = buf;
+    while (size > 0) {
+        ssize_t  bytes_written;
+        rii_check_posix(bytes_written = write(p->fds[1], curr, size));
+        curr += bytes_written;
+        size -= bytes_written;
+    }
     return 0;
 }
 
-- 
2.43.0


From b42eeb15ac5a43e2e8e274f8ed0e065d95757991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 40/51] fix: don't leave a second copy of its pipe ends open in
 a subprocess

---
 src/libcork/posix/subprocess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index fcfbe84..840a8c9 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -150,8 +150,9 @@ error:
 static int
 cork_read_pipe_dup(struct cork_read_pipe *p, int fd)
 {
-    if (p->fds[1] != -1) {
+    if (p->fds[1] != -1 && p->fds[1] != fd) {
         rii_check_posix(dup2(p->fds[1], fd));
+        return cork_read_pipe_close_write(p);
     }
     return 0;
 }
@@ -301,8 +302,9 @@ cork_write_pipe_open(struct cork_write_pipe *p)
 static int
 cork_write_pipe_dup(struct cork_write_pipe *p, int fd)
 {
-    if (p->fds[0] != -1) {
+    if (p->fds[0] != -1 && p->fds[0] != fd) {
         rii_check_posix(dup2(p->fds[0], fd));
+        return cork_write_pipe_close_read(p);
     }
     return 0;
 }
-- 
2.43.0


From 01c80d449392f52f745286eb8f59b35481d274cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:17 +0000
Subject: [PATCH 41/51] fix: terminate the subprocesses when reading their
 output fails

---
 src/libcork/posix/subprocess.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 840a8c9..90f60fd 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -558,8 +558,12 @@ bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
     bool  progress = false;
-    cork_subprocess_drain_(self, &progress);
+    ei_check(cork_subprocess_drain_(self, &progress));
     return progress;
+
+error:
+    cork_subprocess_abort(self);
+    return false;
 }
 
 int
@@ -569,12 +573,16 @@ cork_subprocess_wait(struct cork_subprocess *self)
     bool  progress;
     while (!cork_subprocess_is_finished(self)) {
         progress = false;
-        rii_check(cork_subprocess_drain_(self, &progress));
+        ei_check(cork_subprocess_drain_(self, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_abort(self);
+    return -1;
 }
 
 
@@ -649,8 +657,12 @@ bool
 cork_subprocess_group_drain(struct cork_subprocess_group *group)
 {
     bool  progress = false;
-    cork_subprocess_group_drain_(group, &progress);
+    ei_check(cork_subprocess_group_drain_(group, &progress));
     return progress;
+
+error:
+    cork_subprocess_group_terminate(group);
+    return false;
 }
 
 int
@@ -661,10 +673,14 @@ cork_subprocess_group_wait(struct cork_subprocess_group *group)
     DEBUG("Waiting for subprocess group to finish\n");
     while (!cork_subprocess_group_is_finished(group)) {
         progress = false;
-        rii_check(cork_subprocess_group_drain_(group, &progress));
+        ei_check(cork_subprocess_group_drain_(group, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_group_terminate(group);
+    return -1;
 }
-- 
2.43.0


From 4bbc8fe69fb516cca6e4e7f72a0140d078ae03ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 42/51] fix: don't pass the parent's pipe ends to other
 programs

---
 src/libcork/posix/subprocess.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 90f60fd..c8a8b5b 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -137,6 +137,7 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
         ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
+        ei_check_posix(fcntl(p->fds[0], F_SETFD, FD_CLOEXEC));
     }
 
     p->first = true;
@@ -296,7 +297,13 @@ cork_write_pipe_open(struct cork_write_pipe *p)
     DEBUG("[write] Opening writer pipe\n");
     rii_check_posix(pipe(p->fds));
     DEBUG("[write]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
+    /* Other programs that we execute mustn't keep this end of the pipe open. */
+    ei_check_posix(fcntl(p->fds[1], F_SETFD, FD_CLOEXEC));
     return 0;
+
+error:
+    cork_write_pipe_close(p);
+    return -1;
 }
 
 static int
-- 
2.43.0


From 49b3a4bc017b7ace918507936c445a2c08347500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 43/51] fix: close the pipes of the other members in a group's
 subprocesses

---
 src/libcork/posix/subprocess.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index c8a8b5b..8890ce9 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -404,8 +404,23 @@ cork_subprocess_new_exec(struct cork_exec *exec,
  * Running subprocesses
  */
 
-int
-cork_subprocess_start(struct cork_subprocess *self)
+/* Close the parent's ends of the pipes of every subprocess in a group. */
+static void
+cork_subprocess_group_close_pipes(struct cork_subprocess_group *group)
+{
+    size_t  i;
+    for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
+        struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
+        cork_write_pipe_close_write(&sub->stdin_pipe);
+        cork_read_pipe_close_read(&sub->stdout_pipe);
+        cork_read_pipe_close_read(&sub->stderr_pipe);
+    }
+}
+
+/* group can be NULL */
+static int
+cork_subprocess_start_in_group(struct cork_subprocess *self,
+                               struct cork_subprocess_group *group)
 {
     pid_t  pid;
 
@@ -437,6 +452,11 @@ cork_subprocess_start(struct cork_subprocess *self)
         cork_read_pipe_close_read(&self->stdout_pipe);
         DEBUG("[child] ");
         cork_read_pipe_close_read(&self->stderr_pipe);
+        if (group != NULL) {
+            /* ...including those of the subprocesses that are already running,
+             * who otherwise wouldn't see the end of their stdin. */
+            cork_subprocess_group_close_pipes(group);
+        }
 
         /* Bind the stdout and stderr pipes */
         if (cork_write_pipe_dup(&self->stdin_pipe, STDIN_FILENO) == -1) {
@@ -472,6 +492,12 @@ cork_subprocess_start(struct cork_subprocess *self)
     }
 }
 
+int
+cork_subprocess_start(struct cork_subprocess *self)
+{
+    return cork_subprocess_start_in_group(self, NULL);
+}
+
 static int
 cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
 {
@@ -616,7 +642,7 @@ cork_subprocess_group_start(struct cork_subprocess_group *group)
     /* Start each subprocess. */
     for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
         struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
-        ei_check(cork_subprocess_start(sub));
+        ei_check(cork_subprocess_start_in_group(sub, group));
     }
     return 0;
 
-- 
2.43.0


From 34206065266a6334a70c2f99c3b148acc3df33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:15 +0000
Subject: [PATCH 44/51] fix: count a managed buffer's references atomically

---
 src/libcork/ds/managed-buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 9cd426e..0ba6b71 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -15,6 +15,7 @@
 #include "libcork/ds/managed-buffer.h"
 #include "libcork/ds/slice.h"
 #include "libcork/helpers/errors.h"
+#include "libcork/threads/atomics.h"
 
 
 /*-----------------------------------------------------------------------
@@ -140,7 +141,7 @@ cork_managed_buffer_ref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count + 1);
     */
 
-    self->ref_count++;
+    cork_int_atomic_add(&self->ref_count, 1);
     return self;
 }
 
@@ -154,7 +155,7 @@ cork_managed_buffer_unref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count - 1);
     */
 
-    if (--self->ref_count == 0) {
+    if (cork_int_atomic_sub(&self->ref_count, 1) == 0) {
         cork_managed_buffer_free(self);
     }
 }
-- 
2.43.0


From 81ef4616684ceb2d745aaf7cd334870cf03b9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 45/51] fix: let cleanup functions register other cleanup
 functions

---
 src/libcork/posix/process.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/process.c b/src/libcork/posix/process.c
index fbafc9c..223f5ef 100644
--- a/src/libcork/posix/process.c
+++ b/src/libcork/posix/process.c
@@ -73,7 +73,13 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
 static void
 cork_cleanup_call_all(void)
 {
-    cork_dllist_map(&cleanup_entries, cork_cleanup_call_one, NULL);
+    /* Remove each entry before we call (and free) it, since the functions might
+     * register other cleanup functions. */
+    while (!cork_dllist_is_empty(&cleanup_entries)) {
+        struct cork_dllist_item  *item = cork_dllist_start(&cleanup_entries);
+        cork_dllist_remove(item);
+        cork_cleanup_call_one(item, NULL);
+    }
 }
 
 static void
-- 
2.43.0


From da2265c93562a489df59942126b8ae8d7de4ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 46/51] fix: keep the error functions usable after the error
 cleanup

---
 src/libcork/core/error.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 030dcbd..9250ea4 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -58,6 +58,8 @@ static struct cork_error * volatile  errors;
 
 cork_once_barrier(cork_error_list);
 
+cork_tls(struct cork_error *, cork_error_);
+
 static void
 cork_error_list_done(void)
 {
@@ -67,6 +69,10 @@ cork_error_list_done(void)
         next = curr->next;
         cork_error_free(curr);
     }
+    /* Cleanup functions that are called after us might still use the error
+     * functions. */
+    errors = NULL;
+    *cork_error__get() = NULL;
 }
 
 static void
@@ -75,9 +81,6 @@ cork_error_list_init(void)
     cork_cleanup_at_exit(0, cork_error_list_done);
 }
 
-
-cork_tls(struct cork_error *, cork_error_);
-
 static struct cork_error *
 cork_error_get(void)
 {
-- 
2.43.0


From c307b3cc760117bb71010755bf8059693d6a6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:25 +0000
Subject: [PATCH 47/51] fix: let the default allocator reallocate a block to an
 empty one

---
 src/libcork/core/allocator.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index da8b6d1..3817a38 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -317,6 +317,12 @@ cork_stdlib_alloc__realloc(const struct cork_alloc *alloc, void *ptr,
      * since we'll abort the process immediately after.  But my sense of
      * cleanliness makes me do it anyway. */
 
+    /* A standard realloc can free `ptr` and return NULL when the new size is 0,
+     * which looks like a failure. */
+    if (new_size == 0) {
+        new_size = 1;
+    }
+
 #if CORK_HAVE_REALLOCF
     void  *result = reallocf(ptr, new_size);
     if (result == NULL) {
@@ -350,7 +356,7 @@ static void *
 cork_stdlib_alloc__xrealloc(const struct cork_alloc *alloc, void *ptr,
                             size_t old_size, size_t new_size)
 {
-    return realloc(ptr, new_size);
+    return realloc(ptr, (new_size == 0)? 1: new_size);
 }
 
 static void
-- 
2.43.0


From 7cbfb37f0d55c6160fc242d1581f438c79d517c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:46 +0000
Subject: [PATCH 48/51] fix: set an error when slicing a NULL slice fails

---
 src/libcork/ds/slice.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index fbf18bf..5206618 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -162,8 +162,8 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
               slice->buf, slice->size,
               offset, length);
         */
-        if (slice != NULL)
-            cork_slice_invalid_slice_set(slice->size, offset, length);
+        cork_slice_invalid_slice_set
+            ((slice == NULL)? 0: slice->size, offset, length);
         return -1;
     }
 }
-- 
2.43.0


From 596ff38920a3664b0da3658bd5a67e7b57d53610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:07 +0000
Subject: [PATCH 49/51] fix: clone an empty process environment without
 crashing

---
 src/libcork/posix/env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 0dd1d53..7cadf16 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -100,7 +100,8 @@ cork_env_clone_current(void)
     char  **curr;
     struct cork_env  *env = cork_env_new();
 
-    for (curr = environ; *curr != NULL; curr++) {
+    /* environ is NULL after clearenv. */
+    for (curr = environ; curr != NULL && *curr != NULL; curr++) {
         const char  *entry = *curr;
         const char  *equal;
 
-- 
2.43.0


From b6894131084b5ee56c2b6546a985f1e40a3cac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:56 +0000
Subject: [PATCH 50/51] fix: parenthesize the arguments of CORK_MAKE_VERSION

---
 include/libcork/core/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcork/core/api.h b/include/libcork/core/api.h
index 58956e6..f51ac37 100644
--- a/include/libcork/core/api.h
+++ b/include/libcork/core/api.h
@@ -37,7 +37,7 @@
 #define CORK_VERSION_PATCH  CORK_CONFIG_VERSION_PATCH
 
 #define CORK_MAKE_VERSION(major, minor, patch) \
-    ((major * 1000000) + (minor * 1000) + patch)
+    (((major) * 1000000) + ((minor) * 1000) + (patch))
 
 #define CORK_VERSION  \
     CORK_MAKE_VERSION(CORK_VERSION_MAJOR, \
-- 
2.43.0


From 96356884d8e3f1445adbe1a8278bc907db701020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:23 +0000
Subject: [PATCH 51/51] fix: leave a buffer alone when a printf-style text
 cannot be formatted

---
 src/libcork/ds/buffer.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/buffer.c b/src/libcork/ds/buffer.c
index cf727ac..e2b14e5 100644
--- a/src/libcork/ds/buffer.c
+++ b/src/libcork/ds/buffer.c
@@ -110,15 +110,25 @@ void
 cork_buffer_append_vprintf(struct cork_buffer *buffer, const char *format,
                            va_list args)
 {
+    int  rc;
     size_t  format_size;
     va_list  args1;
 
     va_copy(args1, args);
-    format_size = vsnprintf(buffer->buf + buffer->size,
-                            buffer->allocated_size - buffer->size,
-                            format, args1);
+    rc = vsnprintf(buffer->buf + buffer->size,
+                   buffer->allocated_size - buffer->size,
+                   format, args1);
     va_end(args1);
 
+    /* If the text can't be formatted, leave the buffer as it was. */
+    if (rc < 0) {
+        cork_buffer_ensure_size(buffer, buffer->size + 1);
+        ((char *) buffer->buf)[buffer->size] = '\0';
+        return;
+    }
+
+    format_size = rc;
+
     /* If the first call works, then set buffer->size and return. */
     if (format_size < (buffer->allocated_size - buffer->size)) {
         buffer->size += format_size;
-- 
2.43.0

