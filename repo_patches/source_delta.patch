From 2d3e3816e1f8cf0e67bb5906105b86f284ecf232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 01/36] fix: reject slice ranges whose offset + length wraps
 around

---
 src/libcork/ds/managed-buffer.c | 2 +-
 src/libcork/ds/slice.c          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 295413a..9cd426e 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -197,7 +197,7 @@ cork_managed_buffer_slice(struct cork_slice *dest,
 {
     if ((buffer != NULL) &&
         (offset <= buffer->size) &&
-        ((offset + length) <= buffer->size)) {
+        (length <= buffer->size - offset)) {
         /*
         DEBUG("Slicing [%p:%zu] at %zu:%zu, gives <%p:%zu>",
               buffer->buf, buffer->size,
diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index 395130a..fbf18bf 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -51,7 +51,7 @@ cork_slice_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -96,7 +96,7 @@ cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -140,7 +140,7 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
-- 
2.43.0


From c27b25ba64e38d0ac2952c3e241c19253d4017ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 02/36] fix: set the error condition when slicing a NULL slice

---
 src/libcork/ds/slice.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index fbf18bf..5206618 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -162,8 +162,8 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
               slice->buf, slice->size,
               offset, length);
         */
-        if (slice != NULL)
-            cork_slice_invalid_slice_set(slice->size, offset, length);
+        cork_slice_invalid_slice_set
+            ((slice == NULL)? 0: slice->size, offset, length);
         return -1;
     }
 }
-- 
2.43.0


From 32c8e738691edd3afe6f5529ac84362a9e969a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 03/36] fix: update managed buffer reference counts atomically,
 as documented

---
 src/libcork/ds/managed-buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 9cd426e..0ba6b71 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -15,6 +15,7 @@
 #include "libcork/ds/managed-buffer.h"
 #include "libcork/ds/slice.h"
 #include "libcork/helpers/errors.h"
+#include "libcork/threads/atomics.h"
 
 
 /*-----------------------------------------------------------------------
@@ -140,7 +141,7 @@ cork_managed_buffer_ref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count + 1);
     */
 
-    self->ref_count++;
+    cork_int_atomic_add(&self->ref_count, 1);
     return self;
 }
 
@@ -154,7 +155,7 @@ cork_managed_buffer_unref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count - 1);
     */
 
-    if (--self->ref_count == 0) {
+    if (cork_int_atomic_sub(&self->ref_count, 1) == 0) {
         cork_managed_buffer_free(self);
     }
 }
-- 
2.43.0


From e8d6b2a3ebb21ac87e9b1e991cf6c7bd9d180eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 04/36] fix: keep memory pool objects aligned and let every
 block hold at least one

---
 src/libcork/core/mempool.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libcork/core/mempool.c b/src/libcork/core/mempool.c
index f25d0aa..115d0a7 100644
--- a/src/libcork/core/mempool.c
+++ b/src/libcork/core/mempool.c
@@ -68,6 +68,17 @@ struct cork_mempool *
 cork_mempool_new_size_ex(size_t element_size, size_t block_size)
 {
     struct cork_mempool  *mp = cork_new(struct cork_mempool);
+    size_t  min_block_size;
+    /* Each object is preceded by a header containing a pointer, so keep the
+     * headers aligned; and make sure that each block can hold at least one
+     * object. */
+    element_size =
+        (element_size + sizeof(void *) - 1) / sizeof(void *) * sizeof(void *);
+    min_block_size = sizeof(struct cork_mempool_block) +
+        sizeof(struct cork_mempool_object) + element_size;
+    if (block_size < min_block_size) {
+        block_size = min_block_size;
+    }
     mp->element_size = element_size;
     mp->block_size = block_size;
     mp->free_list = NULL;
-- 
2.43.0


From 22ba169c0087afcb789ca1935bc4a6b5c717aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 05/36] fix: only remove the elements an array still contains
 when clearing it

---
 src/libcork/ds/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 571353e..ab02835 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -128,7 +128,7 @@ cork_raw_array_clear(struct cork_raw_array *array)
     if (array->priv->remove != NULL) {
         size_t  i;
         char  *element = array->items;
-        for (i = 0; i < array->priv->initialized_count; i++) {
+        for (i = 0; i < array->size; i++) {
             array->priv->remove(array->priv->user_data, element);
             element += array->priv->element_size;
         }
-- 
2.43.0


From 718143134d923f420ea9bacc595db4bfe84979f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:44 +0000
Subject: [PATCH 06/36] fix: release the user data of hash tables and replaced
 array callback data

---
 src/libcork/ds/array.c      | 1 +
 src/libcork/ds/hash-table.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index ab02835..fcc1fd4 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -88,6 +88,7 @@ void
 cork_raw_array_set_callback_data(struct cork_raw_array *array,
                                  void *user_data, cork_free_f free_user_data)
 {
+    cork_free_user_data(array->priv);
     array->priv->user_data = user_data;
     array->priv->free_user_data = free_user_data;
 }
diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 6fec797..fcdf072 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -194,6 +194,7 @@ cork_hash_table_free(struct cork_hash_table *table)
 {
     cork_hash_table_clear(table);
     cork_cfree(table->bins, table->bin_count, sizeof(struct cork_dllist));
+    cork_free_user_data(table);
     cork_delete(struct cork_hash_table, table);
 }
 
@@ -207,6 +208,7 @@ void
 cork_hash_table_set_user_data(struct cork_hash_table *table,
                               void *user_data, cork_free_f free_user_data)
 {
+    cork_free_user_data(table);
     table->user_data = user_data;
     table->free_user_data = free_user_data;
 }
-- 
2.43.0


From 058534e81d0b629646f83b0bca9d93934bc5a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 07/36] fix: byte-swapping macros accept any rvalue expression

---
 include/libcork/core/byte-order.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/libcork/core/byte-order.h b/include/libcork/core/byte-order.h
index 46771a2..7803779 100644
--- a/include/libcork/core/byte-order.h
+++ b/include/libcork/core/byte-order.h
@@ -54,24 +54,24 @@
  * original contents if it happens to be a variable.  */
 
 #define CORK_SWAP_UINT16(__u16) \
-    (((((uint16_t) __u16) & 0xff00u) >> 8) | \
-     ((((uint16_t) __u16) & 0x00ffu) << 8))
+    (((((uint16_t) (__u16)) & 0xff00u) >> 8) | \
+     ((((uint16_t) (__u16)) & 0x00ffu) << 8))
 
 #define CORK_SWAP_UINT32(__u32) \
-    (((((uint32_t) __u32) & 0xff000000u) >> 24) | \
-     ((((uint32_t) __u32) & 0x00ff0000u) >>  8) | \
-     ((((uint32_t) __u32) & 0x0000ff00u) <<  8) | \
-     ((((uint32_t) __u32) & 0x000000ffu) << 24))
+    (((((uint32_t) (__u32)) & 0xff000000u) >> 24) | \
+     ((((uint32_t) (__u32)) & 0x00ff0000u) >>  8) | \
+     ((((uint32_t) (__u32)) & 0x0000ff00u) <<  8) | \
+     ((((uint32_t) (__u32)) & 0x000000ffu) << 24))
 
 #define CORK_SWAP_UINT64(__u64) \
-    (((((uint64_t) __u64) & UINT64_C(0xff00000000000000)) >> 56) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00ff000000000000)) >> 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000ff0000000000)) >> 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000ff00000000)) >>  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000ff000000)) <<  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000000000ff0000)) << 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000000000ff00)) << 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000000000ff)) << 56))
+    (((((uint64_t) (__u64)) & UINT64_C(0xff00000000000000)) >> 56) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00ff000000000000)) >> 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000ff0000000000)) >> 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000ff00000000)) >>  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000ff000000)) <<  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000000000ff0000)) << 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000000000ff00)) << 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000000000ff)) << 56))
 
 /* Bytes-swaps an integer variable in place.
  *
-- 
2.43.0


From 8c716ed067fedf58ad34617cc0246dd69b4ffde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 08/36] fix: IPv6 network alignment is checked in network bit
 order

---
 src/libcork/core/ip-address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 6aebd34..a0decfd 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -452,8 +452,8 @@ cork_ipv6_is_valid_network(const struct cork_ipv6 *addr,
         cidr_mask[1] = UINT64_C(0xffffffffffffffff);
     }
 
-    return (CORK_UINT64_BIG_TO_HOST(addr->_.u64[0] & cidr_mask[0]) == 0) &&
-           (CORK_UINT64_BIG_TO_HOST(addr->_.u64[1] & cidr_mask[1]) == 0);
+    return ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[0]) & cidr_mask[0]) == 0) &&
+           ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[1]) & cidr_mask[1]) == 0);
 }
 
 
-- 
2.43.0


From fb5a68c9ab2e6a6d239ed40f3f5c0144466ebc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:08 +0000
Subject: [PATCH 09/36] fix: IPv4 addresses with an empty octet are not valid

---
 src/libcork/core/ip-address.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index a0decfd..c5645c7 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -61,6 +61,11 @@ cork_ipv4_parse(struct cork_ipv4 *addr, const char *str)
                 break;
 
             case '.':
+                /* An octet needs at least one digit. */
+                if (CORK_UNLIKELY(!seen_digit_in_octet)) {
+                    goto parse_error;
+                }
+
                 /* If this would be the fourth octet, it can't have a trailing
                  * period. */
                 if (CORK_UNLIKELY(octets == 3)) {
-- 
2.43.0


From f1398af8bc87402f4fabb5f233db2528500bb01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:12 +0000
Subject: [PATCH 10/36] fix: debug allocator's xmalloc returns NULL when the
 parent fails

---
 src/libcork/core/allocator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 8a70b3b..d6da417 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -394,6 +394,9 @@ cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
     size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    if (CORK_UNLIKELY(base == NULL)) {
+        return NULL;
+    }
     *base = size;
     return base + 1;
 }
-- 
2.43.0


From bb1bceb6ada56f8094ceaba1bea52f3871cfd89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:38 +0000
Subject: [PATCH 11/36] fix: calloc and cfree divide by zero for zero-sized
 elements

---
 include/libcork/core/allocator.h | 2 +-
 src/libcork/core/allocator.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 01a9e92..60951cb 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -177,7 +177,7 @@ void
 cork_alloc_cfree(const struct cork_alloc *alloc, void *ptr,
                  size_t count, size_t size)
 {
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count <= (SIZE_MAX / size));
     return alloc->free(alloc, ptr, count * size);
 }
 
diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index d6da417..92edd88 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,7 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count <= (SIZE_MAX / size));
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
-- 
2.43.0


From 3e1869d4da5237ba68865e54b81bcf5f813d49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:22 +0000
Subject: [PATCH 12/36] fix: fd stream consumer miscounts when a write is
 interrupted

---
 src/libcork/ds/file-stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index e56aeb1..a38b2b9 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -155,9 +155,11 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 
     while (bytes_left > 0) {
         ssize_t  rc = write(self->fd, buf, bytes_left);
-        if (rc == -1 && errno != EINTR) {
-            cork_system_error_set();
-            return -1;
+        if (rc == -1) {
+            if (errno != EINTR) {
+                cork_system_error_set();
+                return -1;
+            }
         } else {
             bytes_left -= rc;
             buf += rc;
-- 
2.43.0


From 07df1b1471c4cce3f36d4a8b82557f1a7ef43f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 13/36] fix: stream consumer for a path leaks its file when the
 stream fails

---
 src/libcork/ds/file-stream.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index a38b2b9..19e470a 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -175,7 +175,9 @@ cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
     int  rc;
     struct cork_fd_consumer  *self =
         cork_container_of(vself, struct cork_fd_consumer, parent);
-    rii_check_posix(rc = close(self->fd));
+    int  fd = self->fd;
+    self->fd = -1;
+    rii_check_posix(rc = close(fd));
     return 0;
 }
 
@@ -187,6 +189,18 @@ cork_fd_consumer__free(struct cork_stream_consumer *vself)
     cork_delete(struct cork_fd_consumer, self);
 }
 
+static void
+cork_fd_consumer__free_close(struct cork_stream_consumer *vself)
+{
+    struct cork_fd_consumer  *self =
+        cork_container_of(vself, struct cork_fd_consumer, parent);
+    /* If we never reached the end of the stream, the file is still open. */
+    if (self->fd != -1) {
+        close(self->fd);
+    }
+    cork_delete(struct cork_fd_consumer, self);
+}
+
 struct cork_stream_consumer *
 cork_fd_consumer_new(int fd)
 {
@@ -210,7 +224,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-    self->parent.free = cork_fd_consumer__free;
+    self->parent.free = cork_fd_consumer__free_close;
     self->fd = fd;
     return &self->parent;
 }
-- 
2.43.0


From 68fd461f7db6edeadb9f51a80d01d6d615e44937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:09 +0000
Subject: [PATCH 14/36] fix: fractional part of a timestamp could be rounded up
 to a whole second

---
 include/libcork/core/timestamp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/timestamp.h b/include/libcork/core/timestamp.h
index 2c828c6..53b3d48 100644
--- a/include/libcork/core/timestamp.h
+++ b/include/libcork/core/timestamp.h
@@ -83,7 +83,8 @@ cork_timestamp_gsec_to_units(const cork_timestamp ts, uint64_t denom)
     gsec += half;
     gsec *= denom;
     gsec >>= 32;
-    return gsec;
+    /* Don't let rounding carry into the seconds portion. */
+    return (gsec < denom)? gsec: denom - 1;
 }
 
 CORK_INLINE
-- 
2.43.0


From 1dfb0e9310895b430fddbd24ae4f26f4aac6b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 15/36] fix: removing an environment variable frees it twice or
 frees garbage

---
 src/libcork/posix/env.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 6426f68..b79dffd 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -170,11 +170,8 @@ cork_env_remove(struct cork_env *env, const char *name)
     if (env == NULL) {
         unsetenv(name);
     } else {
-        void  *old_var;
-        cork_hash_table_delete(env->variables, (void *) name, NULL, &old_var);
-        if (old_var != NULL) {
-            cork_env_var_free(old_var);
-        }
+        /* The hash table frees the variable for us. */
+        cork_hash_table_delete(env->variables, (void *) name, NULL, NULL);
     }
 }
 
-- 
2.43.0


From 05c45272af941e5b87ae3ef02f8db219d231edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 16/36] fix: cork_env_add_printf dereferences NULL for the
 current process's environment

---
 src/libcork/posix/env.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index b79dffd..bed4e95 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -150,8 +150,15 @@ void
 cork_env_add_vprintf(struct cork_env *env, const char *name,
                      const char *format, va_list args)
 {
-    cork_buffer_vprintf(&env->buffer, format, args);
-    cork_env_add_internal(env, name, env->buffer.buf);
+    if (env == NULL) {
+        struct cork_buffer  value = CORK_BUFFER_INIT();
+        cork_buffer_vprintf(&value, format, args);
+        cork_env_add_internal(env, name, value.buf);
+        cork_buffer_done(&value);
+    } else {
+        cork_buffer_vprintf(&env->buffer, format, args);
+        cork_env_add_internal(env, name, env->buffer.buf);
+    }
 }
 
 void
-- 
2.43.0


From 33d9f8c0428c5a51c7f6165736b20eb49e7ec29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:29 +0000
Subject: [PATCH 17/36] fix: missing va_end in cork_exec_new_with_params

---
 src/libcork/posix/exec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcork/posix/exec.c b/src/libcork/posix/exec.c
index 11d08f1..fecd5c0 100644
--- a/src/libcork/posix/exec.c
+++ b/src/libcork/posix/exec.c
@@ -67,6 +67,7 @@ cork_exec_new_with_params(const char *program, ...)
     while ((param = va_arg(args, const char *)) != NULL) {
         cork_exec_add_param(exec, param);
     }
+    va_end(args);
     return exec;
 }
 
-- 
2.43.0


From d352772c1ebbc3350bea3d002f9febf4e44fc659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:06 +0000
Subject: [PATCH 18/36] fix: subprocess output pipes are never made
 non-blocking

---
 src/libcork/posix/subprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index b1d23a5..6d7de01 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -134,9 +134,9 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         rii_check_posix(pipe(p->fds));
         DEBUG("[read]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
         DEBUG("[read]   Setting non-blocking flag on read pipe\n");
-        ei_check_posix(flags = fcntl(p->fds[0], F_GETFD));
+        ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
-        ei_check_posix(fcntl(p->fds[0], F_SETFD, flags));
+        ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
     }
 
     p->first = true;
-- 
2.43.0


From 6af0b9facb794a623b685024523feb74bad4d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:06 +0000
Subject: [PATCH 19/36] fix: data for a subprocess's stdin is lost when a write
 is partial

---
 src/libcork/posix/subprocess.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 6d7de01..7344771 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -243,7 +243,13 @@ cork_write_pipe__data(struct cork_stream_consumer *consumer,
 {
     struct cork_write_pipe  *p =
         cork_container_of(consumer, struct cork_write_pipe, consumer);
-    rii_check_posix(write(p->fds[1], buf, size));
+    const char  *curr = buf;
+    while (size > 0) {
+        ssize_t  bytes_written;
+        rii_check_posix(bytes_written = write(p->fds[1], curr, size));
+        curr += bytes_written;
+        size -= bytes_written;
+    }
     return 0;
 }
 
-- 
2.43.0


From 6732f490bf85b0dc5b0516eb494a9750e1f8a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:06 +0000
Subject: [PATCH 20/36] fix: cork_subprocess_drain returns an uninitialised
 value

---
 src/libcork/posix/subprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 7344771..fcfbe84 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -555,7 +555,7 @@ cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
 bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
-    bool  progress;
+    bool  progress = false;
     cork_subprocess_drain_(self, &progress);
     return progress;
 }
-- 
2.43.0


From fdf6f0314695242831a434438668a042138110d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:06 +0000
Subject: [PATCH 21/36] fix: pipes stay open when forking a subprocess fails

---
 src/libcork/posix/subprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index fcfbe84..66a0f8a 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -451,6 +451,9 @@ cork_subprocess_start(struct cork_subprocess *self)
     } else if (pid < 0) {
         /* Error forking */
         cork_system_error_set();
+        cork_write_pipe_close(&self->stdin_pipe);
+        cork_read_pipe_close(&self->stdout_pipe);
+        cork_read_pipe_close(&self->stderr_pipe);
         return -1;
     } else {
         /* Parent process */
-- 
2.43.0


From c726f5cdd6a7ecdd8d5c1311ffc2b7c97139b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:06 +0000
Subject: [PATCH 22/36] fix: subprocesses keep running when reading their
 output fails

---
 src/libcork/posix/subprocess.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 66a0f8a..2911963 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -559,7 +559,10 @@ bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
     bool  progress = false;
-    cork_subprocess_drain_(self, &progress);
+    if (cork_subprocess_drain_(self, &progress) == -1) {
+        cork_subprocess_abort(self);
+        return false;
+    }
     return progress;
 }
 
@@ -570,12 +573,16 @@ cork_subprocess_wait(struct cork_subprocess *self)
     bool  progress;
     while (!cork_subprocess_is_finished(self)) {
         progress = false;
-        rii_check(cork_subprocess_drain_(self, &progress));
+        ei_check(cork_subprocess_drain_(self, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_abort(self);
+    return -1;
 }
 
 
@@ -650,7 +657,10 @@ bool
 cork_subprocess_group_drain(struct cork_subprocess_group *group)
 {
     bool  progress = false;
-    cork_subprocess_group_drain_(group, &progress);
+    if (cork_subprocess_group_drain_(group, &progress) == -1) {
+        cork_subprocess_group_terminate(group);
+        return false;
+    }
     return progress;
 }
 
@@ -662,10 +672,14 @@ cork_subprocess_group_wait(struct cork_subprocess_group *group)
     DEBUG("Waiting for subprocess group to finish\n");
     while (!cork_subprocess_group_is_finished(group)) {
         progress = false;
-        rii_check(cork_subprocess_group_drain_(group, &progress));
+        ei_check(cork_subprocess_group_drain_(group, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_group_terminate(group);
+    return -1;
 }
-- 
2.43.0


From f449f877bb2721b45c724ebdf82e8d58f0386217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:53 +0000
Subject: [PATCH 23/36] fix: one subprocess that can't be waited for keeps the
 rest of its group running

---
 src/libcork/posix/subprocess.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 2911963..d7609f7 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -594,11 +594,16 @@ static int
 cork_subprocess_group_terminate(struct cork_subprocess_group *group)
 {
     size_t  i;
+    int  rc = 0;
+    /* If we can't terminate one of the subprocesses, we still have to terminate
+     * the other ones. */
     for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
         struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
-        rii_check(cork_subprocess_abort(sub));
+        if (cork_subprocess_abort(sub) == -1) {
+            rc = -1;
+        }
     }
-    return 0;
+    return rc;
 }
 
 int
-- 
2.43.0


From e7523a19514d97e7adc1c48d19a310f1d70a21e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 24/36] fix: cleanup function that registers another one uses a
 freed list entry

---
 src/libcork/posix/process.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libcork/posix/process.c b/src/libcork/posix/process.c
index fbafc9c..9db639d 100644
--- a/src/libcork/posix/process.c
+++ b/src/libcork/posix/process.c
@@ -56,7 +56,7 @@ static struct cork_dllist  cleanup_entries = CORK_DLLIST_INIT(cleanup_entries);
 static bool  cleanup_registered = false;
 
 static void
-cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
+cork_cleanup_call_one(struct cork_dllist_item *item)
 {
     struct cork_cleanup_entry  *entry =
         cork_container_of(item, struct cork_cleanup_entry, item);
@@ -65,7 +65,10 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
     /* We need to free the entry before calling the entry's function, since one
      * of the functions that libcork registers frees the allocator instance that
      * we'd use to free the entry.  If we called the function first, the
-     * allocator would be freed before we could use it to free the entry. */
+     * allocator would be freed before we could use it to free the entry.  The
+     * function might register further cleanup functions, so the entry can't stay
+     * in the list, either. */
+    cork_dllist_remove(item);
     cork_cleanup_entry_free(entry);
     function();
 }
@@ -73,7 +76,9 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
 static void
 cork_cleanup_call_all(void)
 {
-    cork_dllist_map(&cleanup_entries, cork_cleanup_call_one, NULL);
+    while (!cork_dllist_is_empty(&cleanup_entries)) {
+        cork_cleanup_call_one(cork_dllist_start(&cleanup_entries));
+    }
 }
 
 static void
-- 
2.43.0


From a4a3e5d265e0705fb14b33c3dcfb3bb2244db7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 25/36] fix: walking the root directory, or an empty path,
 reads before the path

---
 src/libcork/posix/directory-walker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 74aab13..50152f1 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -111,7 +111,7 @@ cork_walk_directory(const char *path, struct cork_dir_walker *w)
      * trailing '/' */
     cork_buffer_append_string(&buf, path);
     p = buf.buf;
-    while (p[buf.size-1] == '/') {
+    while (buf.size > 1 && p[buf.size-1] == '/') {
         buf.size--;
         p[buf.size] = '\0';
     }
-- 
2.43.0


From 4ac48078f83a82a503a43f96cf5ffb268e9f6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 26/36] fix: directory walks ignore or replace the results of
 their callbacks

---
 src/libcork/posix/directory-walker.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 50152f1..61f4302 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -28,6 +28,7 @@ static int
 cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
                         size_t root_path_size)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
@@ -48,21 +49,23 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* Stat the directory entry */
         cork_buffer_append_string(path, entry->d_name);
+        rc = -1;
         ei_check_posix(stat(path->buf, &info));
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-            int  rc = cork_dir_walker_enter_directory
+            rc = cork_dir_walker_enter_directory
                 (w, path->buf, path->buf + root_path_size,
                  path->buf + dir_path_size);
             if (rc != CORK_SKIP_DIRECTORY) {
-                ei_check(cork_walk_one_directory(w, path, root_path_size));
-                ei_check(cork_dir_walker_leave_directory
+                ei_check(rc);
+                ei_check(rc = cork_walk_one_directory(w, path, root_path_size));
+                ei_check(rc = cork_dir_walker_leave_directory
                          (w, path->buf, path->buf + root_path_size,
                           path->buf + dir_path_size));
             }
         } else if (S_ISREG(info.st_mode)) {
-            ei_check(cork_dir_walker_file
+            ei_check(rc = cork_dir_walker_file
                      (w, path->buf, path->buf + root_path_size,
                       path->buf + dir_path_size));
         }
@@ -85,6 +88,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     /* Check errno immediately after the while loop terminates */
     if (CORK_UNLIKELY(errno != 0)) {
         cork_system_error_set();
+        rc = -1;
         goto error;
     }
 
@@ -97,7 +101,7 @@ error:
     if (dir != NULL) {
         rii_check_posix(closedir(dir));
     }
-    return -1;
+    return rc;
 }
 
 int
-- 
2.43.0


From 9b4a675981630d90bbaf7b37b00e1583d4c6cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 27/36] fix: directory iteration replaces the result of its
 callback

---
 src/libcork/posix/files.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index ea638a9..4083638 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -517,6 +517,7 @@ cork_file_iterate_directory(struct cork_file *file,
                             cork_file_directory_iterator iterator,
                             void *user_data)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
@@ -537,10 +538,11 @@ cork_file_iterate_directory(struct cork_file *file,
         }
 
         cork_path_append(child_path, entry->d_name);
+        rc = -1;
         ei_check(cork_file_stat(&child_file));
 
         /* If the entry is a subdirectory, recurse into it. */
-        ei_check(iterator(&child_file, entry->d_name, user_data));
+        ei_check(rc = iterator(&child_file, entry->d_name, user_data));
 
         /* Remove this entry name from the path buffer. */
         cork_path_truncate(child_path, dir_path_size);
@@ -560,6 +562,7 @@ cork_file_iterate_directory(struct cork_file *file,
     /* Check errno immediately after the while loop terminates */
     if (CORK_UNLIKELY(errno != 0)) {
         cork_system_error_set();
+        rc = -1;
         goto error;
     }
 
@@ -570,7 +573,7 @@ cork_file_iterate_directory(struct cork_file *file,
 error:
     cork_file_done(&child_file);
     rii_check_posix(closedir(dir));
-    return -1;
+    return rc;
 }
 
 static int
-- 
2.43.0


From 7fba87bb830a8ecfba4baf51c309cb9f364f6438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 28/36] fix: removing a directory recursively follows symbolic
 links out of it

---
 src/libcork/posix/files.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 4083638..6d7b3cd 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -643,17 +643,22 @@ cork_file_remove_iterator(struct cork_file *file, const char *rel_name,
 int
 cork_file_remove(struct cork_file *file, unsigned int flags)
 {
+    struct stat  info;
     DEBUG("rm %s\n", cork_path_get(file->path));
-    rii_check(cork_file_stat(file));
 
-    if (file->type == CORK_FILE_MISSING) {
-        if (flags & CORK_FILE_PERMISSIVE) {
+    /* A symbolic link must be removed itself, regardless of what it points at,
+     * so we can't use cork_file_stat here. */
+    if (lstat(cork_path_get(file->path), &info) == -1) {
+        if (errno != ENOENT && errno != ENOTDIR) {
+            cork_system_error_set();
+            return -1;
+        } else if (flags & CORK_FILE_PERMISSIVE) {
             return 0;
         } else {
             cork_system_error_set_explicit(ENOENT);
             return -1;
         }
-    } else if (file->type == CORK_FILE_DIRECTORY) {
+    } else if (S_ISDIR(info.st_mode)) {
         if (flags & CORK_FILE_RECURSIVE) {
             /* The user asked that we delete the contents of the directory
              * first. */
-- 
2.43.0


From 9181702930b3da5feb078b498600e0d3a410b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 29/36] fix: no error condition when a file can't be unlinked

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 6d7b3cd..77862fb 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -669,7 +669,7 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
         rii_check_posix(rmdir(cork_path_get(file->path)));
         return 0;
     } else {
-        rii_check(unlink(cork_path_get(file->path)));
+        rii_check_posix(unlink(cork_path_get(file->path)));
         return 0;
     }
 }
-- 
2.43.0


From 897c557f930416f148bb8c547d6f6ce1a5ba5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 30/36] fix: file's type is out of date after it has been
 created or removed

---
 src/libcork/posix/files.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 77862fb..4a10a7b 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -622,6 +622,7 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
     /* Create the directory already! */
     DEBUG("  Creating %s\n", cork_path_get(file->path));
     rii_check_posix(mkdir(cork_path_get(file->path), mode));
+    cork_file_reset(file);
     return 0;
 }
 
@@ -667,9 +668,11 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
         }
 
         rii_check_posix(rmdir(cork_path_get(file->path)));
+        cork_file_reset(file);
         return 0;
     } else {
         rii_check_posix(unlink(cork_path_get(file->path)));
+        cork_file_reset(file);
         return 0;
     }
 }
-- 
2.43.0


From dd906520c0abdb0047cc73592609a8021ab6e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 31/36] fix: recursive mkdir fails if the path contains
 redundant slashes

---
 src/libcork/posix/files.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 4a10a7b..c4465d9 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -576,6 +576,18 @@ error:
     return rc;
 }
 
+/* Remove any trailing slashes, which don't change which directory a path refers
+ * to. */
+static void
+cork_path_trim(struct cork_path *path)
+{
+    size_t  size = cork_path_size(path);
+    while (size > 1 && cork_path_get(path)[size - 1] == '/') {
+        size--;
+    }
+    cork_path_truncate(path, size);
+}
+
 static int
 cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
                     unsigned int flags)
@@ -601,7 +613,10 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
     /* If the caller asked for a recursive mkdir, then make sure the parent
      * directory exists. */
     if (flags & CORK_FILE_RECURSIVE) {
-        struct cork_path  *parent = cork_path_dirname(file->path);
+        struct cork_path  *parent = cork_path_clone(file->path);
+        cork_path_trim(parent);
+        cork_path_set_dirname(parent);
+        cork_path_trim(parent);
         DEBUG("  Checking parent %s\n", cork_path_get(parent));
         if (parent->given.size == 0) {
             /* There is no parent; we're either at the filesystem root (for an
-- 
2.43.0


From 295ae9ca3536ed7f1d310f57856e32e0b8cd4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:59 +0000
Subject: [PATCH 32/36] fix: an empty list of paths has a NULL string

---
 src/libcork/posix/files.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index c4465d9..5afe205 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -296,6 +296,8 @@ cork_path_list_new_empty(void)
     struct cork_path_list  *list = cork_new(struct cork_path_list);
     cork_array_init(&list->array);
     cork_buffer_init(&list->string);
+    cork_buffer_ensure_size(&list->string, 16);
+    cork_buffer_set(&list->string, "", 0);
     return list;
 }
 
-- 
2.43.0


From c8f140a6eeb7aa7ca77f189ff287f58824126c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 33/36] fix: error conditions are used after they are freed if
 a cleanup function fails

---
 src/libcork/core/error.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 1d16206..39aa3ab 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -9,6 +9,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <string.h>
 
@@ -54,6 +55,8 @@ cork_error_free(struct cork_error *error)
 }
 
 
+cork_tls(struct cork_error *, cork_error_);
+
 static struct cork_error * volatile  errors;
 
 cork_once_barrier(cork_error_list);
@@ -67,17 +70,18 @@ cork_error_list_done(void)
         next = curr->next;
         cork_error_free(curr);
     }
+    /* Cleanup functions that run after this one might still set errors. */
+    errors = NULL;
+    *cork_error__get() = NULL;
 }
 
 static void
 cork_error_list_init(void)
 {
-    cork_cleanup_at_exit(0, cork_error_list_done);
+    cork_cleanup_at_exit(INT_MAX, cork_error_list_done);
 }
 
 
-cork_tls(struct cork_error *, cork_error_);
-
 static struct cork_error *
 cork_error_get(void)
 {
-- 
2.43.0


From d8a09a131505bec57386796313a794fd396283e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:51 +0000
Subject: [PATCH 34/36] fix: members of garbage cycles are used after they have
 been freed

---
 src/libcork/core/gc.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f26ae7b..0012c59 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -44,6 +44,8 @@ struct cork_gc {
     size_t  root_count;
     /* The possible roots of garbage cycles */
     struct cork_gc_header  *roots[ROOTS_SIZE];
+    /* The members of garbage cycles that we've found, and are about to free */
+    struct cork_gc_header  *garbage;
 };
 
 cork_tls(struct cork_gc, cork_gc);
@@ -67,6 +69,9 @@ struct cork_gc_header {
 
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
+
+    /* The next object in the list of garbage that's about to be freed. */
+    struct cork_gc_header  *next;
 };
 
 /*
@@ -373,8 +378,11 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
             cork_gc_recurse(gc, header, cork_gc_collect_white);
-            DEBUG("  Freeing %p\n", header);
-            cork_gc_free(header);
+            /* There might be other members of the cycle, which we haven't
+             * visited yet, that refer to this object, so we can't free it until
+             * we've found all of them. */
+            header->next = gc->garbage;
+            gc->garbage = header;
         }
     }
 }
@@ -396,6 +404,19 @@ cork_gc_collect_roots(struct cork_gc *gc)
     gc->root_count = 0;
 }
 
+static void
+cork_gc_free_garbage(struct cork_gc *gc)
+{
+    struct cork_gc_header  *header = gc->garbage;
+    gc->garbage = NULL;
+    while (header != NULL) {
+        struct cork_gc_header  *next = header->next;
+        DEBUG("  Freeing %p\n", header);
+        cork_gc_free(header);
+        header = next;
+    }
+}
+
 static void
 cork_gc_collect_cycles(struct cork_gc *gc)
 {
@@ -403,4 +424,5 @@ cork_gc_collect_cycles(struct cork_gc *gc)
     cork_gc_mark_roots(gc);
     cork_gc_scan_roots(gc);
     cork_gc_collect_roots(gc);
+    cork_gc_free_garbage(gc);
 }
-- 
2.43.0


From 8006ae0ba5eb937ab14ec3d0c26e4afa267da5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:30 +0000
Subject: [PATCH 35/36] fix: garbage collection corrupts reference counts if an
 object is being released

---
 src/libcork/core/gc.c | 59 ++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index 0012c59..9732a2b 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -33,6 +33,7 @@
  * GC context life cycle
  */
 
+/* How many possible roots we buffer before looking for garbage cycles. */
 #define ROOTS_SIZE  1024
 
 /* An internal structure allocated with every garbage-collected object. */
@@ -40,10 +41,10 @@ struct cork_gc_header;
 
 /* A garbage collector context. */
 struct cork_gc {
-    /* The number of used entries in roots. */
+    /* The number of entries in roots. */
     size_t  root_count;
     /* The possible roots of garbage cycles */
-    struct cork_gc_header  *roots[ROOTS_SIZE];
+    struct cork_gc_header  *roots;
     /* The members of garbage cycles that we've found, and are about to free */
     struct cork_gc_header  *garbage;
 };
@@ -70,7 +71,8 @@ struct cork_gc_header {
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
 
-    /* The next object in the list of garbage that's about to be freed. */
+    /* The next object in the list of possible roots (if the object is
+     * buffered), or in the list of garbage that's about to be freed. */
     struct cork_gc_header  *next;
 };
 
@@ -212,10 +214,9 @@ cork_gc_possible_root(struct cork_gc *gc, struct cork_gc_header *header)
         cork_gc_set_color(header, GC_PURPLE);
         if (!cork_gc_get_buffered(header)) {
             cork_gc_set_buffered(header, true);
-            if (gc->root_count >= ROOTS_SIZE) {
-                cork_gc_collect_cycles(gc);
-            }
-            gc->roots[gc->root_count++] = header;
+            header->next = gc->roots;
+            gc->roots = header;
+            gc->root_count++;
         }
     } else {
         DEBUG("  Already marked as possible garbage cycle root\n");
@@ -254,6 +255,11 @@ cork_gc_decref(void *obj)
         } else {
             cork_gc_possible_root(gc, header);
         }
+        /* We can't look for cycles any earlier than this, since the reference
+         * counts are inconsistent while we're releasing an object. */
+        if (gc->root_count >= ROOTS_SIZE) {
+            cork_gc_collect_cycles(gc);
+        }
     }
 }
 
@@ -286,24 +292,25 @@ cork_gc_mark_gray_step(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_mark_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        struct cork_gc_header  *header = gc->roots[i];
+    struct cork_gc_header  **link = &gc->roots;
+    struct cork_gc_header  *header;
+    while ((header = *link) != NULL) {
         if (cork_gc_get_color(header) == GC_PURPLE) {
             DEBUG("  Checking possible garbage cycle root %p\n",
                   cork_gc_get_object(header));
             DEBUG("    cork_gc_mark_gray(%p)\n",
                   cork_gc_get_object(header));
             cork_gc_mark_gray(gc, header);
+            link = &header->next;
         } else {
             DEBUG("  Possible garbage cycle root %p already checked\n",
                   cork_gc_get_object(header));
             cork_gc_set_buffered(header, false);
-            gc->roots[i] = NULL;
+            *link = header->next;
             if (cork_gc_get_color(header) == GC_BLACK &&
                 cork_gc_get_ref_count(header) == 0) {
-                DEBUG("  Freeing %p\n", header);
-                cork_gc_free(header);
+                header->next = gc->garbage;
+                gc->garbage = header;
             }
         }
     }
@@ -359,12 +366,9 @@ cork_gc_scan(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_scan_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            void  *obj = cork_gc_get_object(gc->roots[i]);
-            cork_gc_scan(gc, obj, NULL);
-        }
+    struct cork_gc_header  *header;
+    for (header = gc->roots; header != NULL; header = header->next) {
+        cork_gc_scan(gc, cork_gc_get_object(header), NULL);
     }
 }
 
@@ -390,16 +394,13 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_collect_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            struct cork_gc_header  *header = gc->roots[i];
-            void  *obj = cork_gc_get_object(header);
-            cork_gc_set_buffered(header, false);
-            DEBUG("Collecting cycles from garbage root %p\n", obj);
-            cork_gc_collect_white(gc, obj, NULL);
-            gc->roots[i] = NULL;
-        }
+    struct cork_gc_header  *header;
+    while ((header = gc->roots) != NULL) {
+        void  *obj = cork_gc_get_object(header);
+        gc->roots = header->next;
+        cork_gc_set_buffered(header, false);
+        DEBUG("Collecting cycles from garbage root %p\n", obj);
+        cork_gc_collect_white(gc, obj, NULL);
     }
     gc->root_count = 0;
 }
-- 
2.43.0


From 1f61bbd2c9861dddd3b64fd01bee7284653c100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:02 +0000
Subject: [PATCH 36/36] fix: command help that is shown before running a
 command prints a NULL string

---
 src/libcork/cli/commands.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/cli/commands.c b/src/libcork/cli/commands.c
index a5f1e6c..398d4a0 100644
--- a/src/libcork/cli/commands.c
+++ b/src/libcork/cli/commands.c
@@ -26,7 +26,10 @@ cork_command_add_breadcrumb(struct cork_command *command)
     cork_buffer_append_printf(&breadcrumbs_buf, " %s", command->name);
 }
 
-#define cork_command_breadcrumbs() ((char *) breadcrumbs_buf.buf)
+/* There aren't any breadcrumbs yet if someone asks for the help of a command
+ * before running any. */
+#define cork_command_breadcrumbs() \
+    (breadcrumbs_buf.buf == NULL? "": (char *) breadcrumbs_buf.buf)
 
 static void
 cork_command_run(struct cork_command *command, int argc, char **argv);
-- 
2.43.0

