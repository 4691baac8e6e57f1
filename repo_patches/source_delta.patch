From 3c38dc486d8e09045df9b40ef4139d664b8b02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 01/69] fix: list reverse_unsafe iteration used a member that
 does not exist

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 8e9ea46..4f21acf 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -321,7 +321,7 @@ static inline void embc_list_insert_after(
  * (usually) minor performance improvement.
  */
 #define embc_list_foreach_reverse_unsafe(list, item) \
-    for (item = (list)->prevnext; item != (list); \
+    for (item = (list)->prev; item != (list); \
          item = item->prev)
 
 /**
-- 
2.43.0


From 069c417df7d65c293f00cb24fe399f6e5bfc0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 02/69] fix: embc_list_contains returned the opposite of its
 documentation

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 4f21acf..638c86b 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -392,7 +392,7 @@ EMBC_API embc_size_t embc_list_index_of(struct embc_list_s * list,
  */
 static inline bool embc_list_contains(struct embc_list_s * list,
                                       struct embc_list_s * item) {
-    return (embc_list_index_of(list, item) < 0);
+    return (embc_list_index_of(list, item) >= 0);
 }
 
 /**
-- 
2.43.0


From a5b6b1c3711b4da41a47db73578217735af03b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 03/69] fix: embc_list_append corrupted the target when the
 source was empty

---
 include/embc/collections/list.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 638c86b..f68d8ec 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -404,6 +404,9 @@ static inline bool embc_list_contains(struct embc_list_s * list,
  */
 static inline void embc_list_append(struct embc_list_s * list_tgt,
                                     struct embc_list_s * list) {
+    if (embc_list_is_empty(list)) {
+        return;
+    }
     list->prev->next = list_tgt;
     list->next->prev = list_tgt->prev;
     list_tgt->prev->next = list->next;
-- 
2.43.0


From 633f4422488e3f201f2317db53da76df3ec1fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 04/69] fix: intmap resize dropped entries that share a bin

---
 src/collections/intmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fc0e2e0..14b6f2a 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -109,7 +109,7 @@ static void resize(struct embc_intmap_s * self) {
             item->next = 0;
             previous = &self->bins[compute_bin(self, item->key)];
             while (*previous) {
-                *previous = (*previous)->next;
+                previous = &(*previous)->next;
             }
             *previous = item;
         }
-- 
2.43.0


From 0181951408e42315d7836bd730ebb5ef3b50575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 05/69] fix: intmap resize leaked the previous bins

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 14b6f2a..0f6c9a4 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -114,6 +114,7 @@ static void resize(struct embc_intmap_s * self) {
             *previous = item;
         }
     }
+    embc_free(bins_old);
 }
 
 int embc_intmap_put(struct embc_intmap_s * self, embc_size_t key, void * value, void ** old_value) {
-- 
2.43.0


From 7236cc1b38df1db0e9b7704fd15cf1798a689311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 06/69] fix: intmap iterator never ended when the last bin held
 an item

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 0f6c9a4..c20c24a 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -207,6 +207,7 @@ static void itermap_iterator_next_advance(struct embc_intmap_iterator_s * self)
             return;
         } else {
             self->current_bin += 1;
+            self->next_item = 0;
         }
     }
     while (self->current_bin <= self->intmap->hash_mask) {
-- 
2.43.0


From 60934be6f5f3f60631c6d4ed9fb5e9e43a65962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 07/69] fix: intmap remove leaked the entry

---
 src/collections/intmap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index c20c24a..2ef3737 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -190,8 +190,7 @@ int embc_intmap_remove(struct embc_intmap_s * self, embc_size_t key, void ** old
                     itermap_iterator_next_advance(iter);
                 }
             }
-            item->next = 0;
-            item->value = 0;
+            embc_free(item);
             return 0;
         }
         previous = &(item->next);
-- 
2.43.0


From 6add0a5bafd07cbfd022279a2dea60a8c7b96cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 08/69] fix: typed intmap free functions leaked the wrapper

---
 include/embc/collections/intmap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index e374a13..9761bae 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -179,7 +179,10 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
-    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); } \
+    void name##_free(struct name##_s * self) { \
+        embc_intmap_free(self->intmap); \
+        free(self); \
+    } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
         return embc_intmap_put(self->intmap, key, (void *) value, (void **) old_value); \
@@ -200,6 +203,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
         embc_intmap_iterator_free(self->iter); \
+        free(self); \
     }
 
 /** @} */
-- 
2.43.0


From 8e402186ecaa6f9dd15e4d13991eae0c48a9cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 09/69] fix: hashmap free leaked the table and every entry

---
 src/collections/hashmap.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/collections/hashmap.c b/src/collections/hashmap.c
index c207859..61f1f84 100644
--- a/src/collections/hashmap.c
+++ b/src/collections/hashmap.c
@@ -63,7 +63,18 @@ struct embc_hashmap_s * embc_hashmap_new(embc_hashmap_hash hash, embc_hashmap_eq
 
 void embc_hashmap_free(struct embc_hashmap_s * self) {
     if (self) {
-        // free everything
+        embc_size_t idx;
+        struct entry_s * item;
+        struct entry_s * next_item;
+        for (idx = 0; idx <= self->hashtable_mask; ++idx) {
+            item = self->hashtable[idx];
+            while (item) {
+                next_item = item->next;
+                embc_free(item);
+                item = next_item;
+            }
+        }
+        embc_free(self->hashtable);
         embc_free(self);
     }
 }
-- 
2.43.0


From 31fb57e897689de20b86d175a8648f2db7a0cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 10/69] fix: event manager fired cancelled events when a
 callback cancelled the next one

---
 src/event_manager.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index a3f7bde..b020e3b 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -114,7 +114,8 @@ int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
     struct embc_list_s * node;
     struct event_s * ev;
     int32_t count = 0;
-    embc_list_foreach(&self->events_pending, node) {
+    // callbacks may schedule and cancel events: always restart from the head
+    while (0 != (node = embc_list_peek_head(&self->events_pending))) {
         ev = EVGET(node);
         if (ev->timestamp > time_current) {
             break;
-- 
2.43.0


From 7ff88faefb414253832055fc45953385c661c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 11/69] fix: event manager scheduled events with timestamp <= 0

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index b020e3b..a4e4143 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -52,6 +52,9 @@ void embc_evm_free(struct embc_evm_s * self) {
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
+    if (timestamp <= 0) {
+        return 0;
+    }
     if (embc_list_is_empty(&self->events_free)) {
         ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
-- 
2.43.0


From 820cc783873e5a008f8184239189ead60580d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 12/69] fix: event manager free leaked every event

---
 src/event_manager.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index a4e4143..b905f10 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -45,8 +45,19 @@ struct embc_evm_s * embc_evm_allocate() {
     return self;
 }
 
+static void events_free(struct embc_list_s * list) {
+    struct embc_list_s * node;
+    while (0 != (node = embc_list_remove_head(list))) {
+        free(EVGET(node));
+    }
+}
+
 void embc_evm_free(struct embc_evm_s * self) {
-    free(self);
+    if (self) {
+        events_free(&self->events_pending);
+        events_free(&self->events_free);
+        free(self);
+    }
 }
 
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
-- 
2.43.0


From 47ca8daf56bf8f6cebf483c512734c775e446b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 13/69] fix: embc_cstr_to_u32 accepted values that do not fit
 and stored them modulo 2^32

---
 src/cstr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cstr.c b/src/cstr.c
index 71e4226..22c89f3 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -116,12 +116,19 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
             } else {
                 break;
             }
+            if (v > (UINT32_MAX >> 4)) { // does not fit
+                return 1;
+            }
             v = v * 16 + nibble;
             ++src;
         }
     } else {
         while ((*src >= '0') && (*src <= '9')) {
-            v = v * 10 + (*src - '0');
+            uint32_t digit = (uint32_t) (*src - '0');
+            if (v > ((UINT32_MAX - digit) / 10)) { // does not fit
+                return 1;
+            }
+            v = v * 10 + digit;
             ++src;
         }
     }
-- 
2.43.0


From 48460c9f6d9dc785abe486a2533e6b6490622fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 14/69] fix: embc_cstr_to_i32 accepted values that do not fit
 and stored a wrong number

---
 src/cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index 22c89f3..bb5a0f2 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -164,10 +164,10 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
     if (rc) {
         return rc;
     }
-    *value = (int32_t) v;
-    if (neg) {
-        *value = -*value;
+    if (v > ((uint32_t) INT32_MAX + (neg ? 1 : 0))) { // does not fit
+        return 1;
     }
+    *value = (int32_t) (neg ? -((int64_t) v) : ((int64_t) v));
     return 0;
 }
 
-- 
2.43.0


From 451bd4eba6b514bf2f397e174c19f8a90ecb466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 15/69] fix: embc_cstr_to_i32s rejected numbers before trailing
 space, accepted malformed and overflowing ones

---
 src/cstr.c | 53 ++++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index bb5a0f2..ebac35e 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -172,8 +172,10 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
 }
 
 int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
-    int32_t v = 0;
+    int64_t v = 0;
+    int64_t limit = INT32_MAX;
     int32_t decimal = -1;  // still on integer part
+    int digits = 0;
     int neg = 0;
 
     if (!src) {
@@ -189,59 +191,56 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
 
     if (*src == '-') {
         neg = 1;
+        ++limit;
         ++src;
     } else if (*src == '+') {
         ++src;
     }
 
-    while (decimal < exponent) {
-        if (*src == '.') {
-            decimal = 0;
-            ++src;
-            continue;
-        }
-        if ((*src == 0) || (*src == ',')) {
-            if (decimal < 0) {
-                break;
-            } else {
-                v *= 10;
-                ++decimal;
-            }
+    while (1) {
+        if ((*src == '.') && (decimal < 0)) {
+            decimal = 0; // now on fractional part
+        } else if ((*src < '0') || (*src > '9')) {
+            break;
         } else {
-            if (decimal >= 0) {
-                ++decimal;
+            digits = 1;
+            if (decimal < exponent) { // discard extra digits
+                v = v * 10 + (*src - '0');
+                if (decimal >= 0) {
+                    ++decimal;
+                }
             }
-            v *= 10;
-            if ((*src >= '0') && (*src <= '9')) {
-                v += *src - '0';
-            } else {
+            if (v > limit) { // does not fit
                 return 1;
             }
-            ++src;
         }
+        ++src;
+    }
+    if (!digits) {
+        return 1;
     }
 
     while (*src) {
-        if ((*src >= '0') && (*src <= '9')) {
-            // discard extra digits
-        } else if (!_isspace((uint8_t) *src)) { // did not parse full string
+        if (!_isspace((uint8_t) *src++)) { // did not parse full string
             return 1;
         }
-        ++src;
     }
 
     if (decimal < 0) {
         decimal = 0;
     }
-    while (decimal < exponent) {
+    while (v && (decimal < exponent)) {
         v *= 10;
         ++decimal;
+        if (v > limit) { // does not fit
+            return 1;
+        }
     }
     if (neg) {
         v = -v;
     }
     if (value) {
-        *value = v;
+        *value = (int32_t) v;
     }
     return 0;
 }
-- 
2.43.0


From aa9374a95066bb5e491f7dc820587d1b980828cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 16/69] fix: block allocator could not use free blocks below an
 allocated block of the same bitmap byte

---
 src/memory/block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5cb8baa..84e36f5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -60,7 +60,7 @@ void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
     int32_t idx_start = idx_invalid;
     int32_t free_count = 0;
     for (int32_t idx_search = 0; idx_search < s->block_count; ++idx_search) {
-        int32_t bit = s->bitmap[idx_search / 8] >> (idx_search & 0x7);
+        int32_t bit = (s->bitmap[idx_search / 8] >> (idx_search & 0x7)) & 1;
         if (bit) {
             idx_start = idx_invalid;
             free_count = 0;
@@ -94,7 +94,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
-        int32_t bit = s->bitmap[idx / 8] >> (idx & 0x7);
+        int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
         s->bitmap[idx / 8] &= ~((uint8_t) (1 << (idx & 0x07)));
     }
-- 
2.43.0


From b556ec0f12e09c3fe35263b7312ee6402ca1473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 17/69] fix: block allocator handed out one block for sizes
 close to INT32_MAX

---
 src/memory/block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 84e36f5..5c0c32b 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -47,7 +47,7 @@ void embc_mblock_finalize(struct embc_mblock_s * self) {
 }
 
 static inline int32_t size_to_blocks(struct mblock_s * s, int32_t size) {
-    return (size + s->block_size - 1) / s->block_size;
+    return (size - 1) / s->block_size + 1;
 }
 
 void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
-- 
2.43.0


From 85b4a06852f1d5f13b21ba0c22c717f5f5bd4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 18/69] fix: EMBC_BUFFER_STATIC_INITIALIZE left reserve
 uninitialized

---
 include/embc/memory/buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index f388610..bd2d9a0 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -686,6 +686,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
     } while(0); \
     (name).cursor = 0; \
     (name).length = 0; \
+    (name).reserve = 0; \
     (name).buffer_id = 0; \
     (name).flags = 0; \
     (name).manager = &embc_buffer_manager_static; \
-- 
2.43.0


From 69cfbcd200d6ce440d8b870d9fd5ecce6e2bfaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 19/69] fix: buffer allocator accepted sizes larger than its
 largest buffers

---
 src/memory/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 02bc733..0da6360 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -85,7 +85,7 @@ void embc_buffer_allocator_initialize(
     }
     embc_memset(self, 0, total_size);
     uint8_t * memory = (uint8_t *) self;
-    self->size_max = total_size; // largest buffer
+    self->size_max = (length > 0) ? (32 << (length - 1)) : 0; // largest buffer
     uint8_t * buffers_ptr = memory + header_size;
 
     for (embc_size_t i = 0; i < length; ++i) {
-- 
2.43.0


From 581c3916e50b7e92844ad0654106c1c385b454ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 20/69] fix: buffer string write reported an exact fit as
 truncated and could cut the length below the cursor

---
 src/memory/buffer.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 0da6360..3e0c1fb 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -228,17 +228,13 @@ static inline bool write_str_(struct embc_buffer_s * buffer,
     EMBC_DBC_NOT_NULL(buffer);
     EMBC_DBC_NOT_NULL(str);
     uint16_t capacity = buffer->capacity - buffer->reserve;
-    while (buffer->cursor < capacity) {
-        if (*str == 0) {
-            write_update_length(buffer);
-            return true;
-        }
+    while (*str && (buffer->cursor < capacity)) {
         buffer->data[buffer->cursor] = *str;
         ++str;
         ++buffer->cursor;
     }
-    buffer->length = capacity;
-    return false;
+    write_update_length(buffer);
+    return (*str == 0);
 }
 
 void embc_buffer_write_str(struct embc_buffer_s * buffer,
-- 
2.43.0


From fd0a9a7dba30bf5e6795babab3568ccd1c6a6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 21/69] fix: state machine initialize did not validate
 transitions

---
 src/fsm.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fsm.c b/src/fsm.c
index 779dd8b..1721d8d 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -17,6 +17,7 @@
 #include "embc/fsm.h"
 #include "embc/dbc.h"
 #include <inttypes.h>
+#include <stdbool.h>
 
 static const char * state_name_(struct embc_fsm_s * self, embc_fsm_state_t state) {
     const char * name = 0;
@@ -85,6 +86,18 @@ void embc_fsm_initialize(struct embc_fsm_s * self) {
             EMBC_FATAL("invalid state machine");
         }
     }
+    for (int32_t idx = 0; idx < (int32_t) self->transitions_count; ++idx) {
+        struct embc_fsm_transition_s const * t = self->transitions + idx;
+        bool is_current_ok = ((t->current >= 0) && (t->current < self->states_count)) ||
+                (t->current == EMBC_STATE_ANY) || (t->current == EMBC_STATE_NULL);
+        bool is_next_ok = ((t->next >= 0) && (t->next < self->states_count)) ||
+                (t->next == EMBC_STATE_NULL);
+        if (!is_current_ok || !is_next_ok) {
+            EMBC_LOG_CRITICAL("transition idx %" PRId32 " is invalid: %d --> %d",
+                              idx, (int) t->current, (int) t->next);
+            EMBC_FATAL("invalid state machine");
+        }
+    }
     if (!self->name) {
         self->name = "fsm";
     }
-- 
2.43.0


From 3065ac4a390d2a99374d584c4dc1f0bc2e4a8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 22/69] fix: pattern receiver left duplicate_count
 uninitialized

---
 src/pattern_32a.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 750bf52..389c435 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -118,6 +118,7 @@ void embc_pattern_32a_rx_initialize(
     embc_pattern_32a_tx_initialize(&self->tx);
     self->receive_count = 0;
     self->missing_count = 0;
+    self->duplicate_count = 0;
     self->error_count = 0;
     self->resync_count = 0;
     self->syncword1 = 0;
-- 
2.43.0


From a0c9c93c4d93811c0eb532033b5e46e6ebb7d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 23/69] fix: pattern receiver reported duplicates when joining
 in the second half of the pattern

---
 src/pattern_32a.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 389c435..46724ac 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -207,6 +207,7 @@ void embc_pattern_32a_rx_next(
         case ST_UNSYNC2: {
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
+                self->duplicate_count = 0;
                 self->error_count = 0;
                 self->state = ST_SYNC;
             } else {
-- 
2.43.0


From 086e4b560ccae347040d821d5a6b52f913b05c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 24/69] fix: pattern receiver forgot earlier duplicates

---
 src/pattern_32a.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 46724ac..ddfe641 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -184,7 +184,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count = EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
         self->missing_count += incr + delta;
     }
-- 
2.43.0


From 08c0a9124f42415f3cfe83c7b4ced88c8aa04d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 25/69] fix: pattern receiver synchronized to damaged words and
 miscounted missing words

---
 src/pattern_32a.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index ddfe641..689ee06 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -129,6 +129,10 @@ static bool is_counter_value(uint32_t value) {
     return (((~value) >> 16) == (value & 0xffff));
 }
 
+static bool is_shift_value(uint32_t value) {
+    return (0 == (value & (value - 1)));  // zero or a single bit set
+}
+
 static uint8_t shift_position(uint32_t shift) {
     // CLZ instruction would be much faster
     uint8_t position = 0;
@@ -155,6 +159,9 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     if (v1_is_counter == v2_is_counter) {
         return false;
     }
+    if (!is_shift_value(v1_is_counter ? v2 : v1)) {
+        return false;
+    }
 
     // Since tx state holds next values, sync to before v1
     if (v2_is_counter && !v1_is_counter) { // most recent is counter
-- 
2.43.0


From 5da0b2ec419d1505554fd2e03aa90eaf99e9e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 26/69] fix: CLI executed the start of lines longer than the
 maximum

---
 src/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index b0b1260..1c0f469 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -115,7 +115,7 @@ static void embc_cli_compact(embc_cli_t * self) {
     for (i = 0; i < self->cmdlen; ++i) {
         if (i >= EMBC_CLI_LINE_LENGTH) {
             // line too long - do not compact.
-            break;
+            return;
         }
         char ch = self->cmdline[i];
         if (isCommentStart(&ch)) { /* start of a comment */
-- 
2.43.0


From f42afc3d25fc33b6ef5444a6a9280def3345d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 27/69] fix: CLI printed a null string when no response is
 configured

---
 src/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index 1c0f469..7def2cd 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -43,7 +43,7 @@ const char LINE_TOO_LONG[] = "Maximum command line length reached";
 
 
 static inline void embc_cli_print(embc_cli_t * self, char const * str) {
-    if (self->print) {
+    if (self->print && str) {
         self->print(self->print_cookie, str);
     }
 }
-- 
2.43.0


From 375fcf7fa9f7ae0ecf6ce980eafe1a92c85aa37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 28/69] fix: CLI line parser read beyond the end of the command
 line

---
 src/cli.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index 7def2cd..411159a 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -222,7 +222,12 @@ int embc_cli_line_parser(void * self, const char * cmdline) {
     char * argv[EMBC_CLI_MAX_ARGS];
     char * lineptr = line;
     embc_memset(&argv, 0, sizeof(argv));
-    embc_memcpy(line, cmdline, sizeof(line));
+    for (embc_size_t i = 0; i < (embc_size_t) sizeof(line); ++i) {
+        line[i] = cmdline[i];
+        if (0 == cmdline[i]) {
+            break;
+        }
+    }
     line[sizeof(line) - 1] = 0; // just to be sure.
     while (1) {
         // consume multiple delimiters
-- 
2.43.0


From 3817372d547da9f16bed5e12004f2c36f43e9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 29/69] fix: CLI passed itself instead of the execute cookie to
 execute_args

---
 src/cli.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 411159a..2785be1 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -150,7 +150,9 @@ static void embc_cli_process_line(embc_cli_t * self) {
         print_newline(self);
     } else { // valid command
         int rc = EMBC_CLI_SUCCESS;
-        if (self->execute_line) {
+        if (self->execute_args) {
+            rc = embc_cli_line_parser(self, self->cmdline);
+        } else if (self->execute_line) {
             rc = self->execute_line(self->execute_cookie, self->cmdline);
         }
         if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
@@ -170,10 +172,6 @@ void embc_cli_initialize(embc_cli_t * self) {
     EMBC_DBC_NOT_NULL(self);
     embc_memset(self->cmdline, 0, sizeof(self->cmdline));
     self->cmdlen = 0;
-    if (self->execute_args) {
-        self->execute_line = embc_cli_line_parser;
-        self->execute_cookie = self;
-    }
     print_prompt(self);
 }
 
-- 
2.43.0


From 8a458a882bd0db648b7b9bad161d56065713f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 30/69] fix: log level names were concatenated and shifted

Missing commas merged NOTICE with INFO and DEBUG2 with DEBUG3, so every name
from NOTICE up was wrong and the last two were NULL.
---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index b55a655..8e87177 100644
--- a/src/log.c
+++ b/src/log.c
@@ -24,10 +24,10 @@ char const * const embc_log_level_str[EMBC_LOG_LEVEL_ALL + 1] = {
         "CRITICAL",
         "ERROR",
         "WARN",
-        "NOTICE"
+        "NOTICE",
         "INFO",
         "DEBUG",
-        "DEBUG2"
+        "DEBUG2",
         "DEBUG3",
         "ALL"
 };
-- 
2.43.0


From 523333028845fcb61a451845f17560c2dd73b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 31/69] fix: EMBC_LOG_ALERT referred to an undefined identifier

---
 include/embc/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index 5edb386..b0642ae 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -239,7 +239,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
 /** Log a emergency using printf-style arguments. */
 #define EMBC_LOG_EMERGENCY(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_EMERGENCY, __VA_ARGS__)
 /** Log a alert using printf-style arguments. */
-#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, format, __VA_ARGS__)
+#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, __VA_ARGS__)
 /** Log a critical failure using printf-style arguments. */
 #define EMBC_LOG_CRITICAL(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_CRITICAL, __VA_ARGS__)
 /** Log an error using printf-style arguments. */
-- 
2.43.0


From 6af08eafed378db283c5b874cda87d2f447fa562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 32/69] fix: log level checks misread levels given as an
 expression

---
 include/embc/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index b0642ae..901e0b1 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -201,7 +201,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
  * @param level The level to query.
  * @return True if logging at level is permitted.
  */
-#define EMBC_LOG_CHECK_STATIC(level) ((level <= EMBC_LOG_GLOBAL_LEVEL) && (level <= EMBC_LOG_LEVEL) && (level >= 0))
+#define EMBC_LOG_CHECK_STATIC(level) (((level) <= EMBC_LOG_GLOBAL_LEVEL) && ((level) <= EMBC_LOG_LEVEL) && ((level) >= 0))
 
 /**
  * @brief Check a log level against a configured level.
@@ -210,7 +210,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
  * @param cfg_level The configured logging level.
  * @return True if level is permitted given cfg_level.
  */
-#define EMBC_LOG_LEVEL_CHECK(level, cfg_level) (level <= cfg_level)
+#define EMBC_LOG_LEVEL_CHECK(level, cfg_level) ((level) <= (cfg_level))
 
 /*!
  * \brief Macro to log a printf-compatible formatted string.
-- 
2.43.0


From c8d298cecb4666cb5aa328dbdc07619db8b09a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 33/69] fix: time to counter conversions misread a frequency
 given as an expression

---
 include/embc/time.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embc/time.h b/include/embc/time.h
index 9116a7b..b102912 100644
--- a/include/embc/time.h
+++ b/include/embc/time.h
@@ -182,7 +182,7 @@ EMBC_CPP_GUARD_START
  * @return The 64-bit time in counter ticks.
  */
 #define EMBC_TIME_TO_COUNTER(x, z) \
-    (( ((int64_t) (x)) * z + \
+    (( ((int64_t) (x)) * (z) + \
        _EMBC_TIME_SIGNUM(z) * EMBC_TIME_SECOND / 2) \
      >> EMBC_TIME_Q)
 
@@ -193,7 +193,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * z + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * (z) + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to counter ticks, rounded down
@@ -202,7 +202,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * z) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * (z)) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to 32-bit unsigned seconds.
-- 
2.43.0


From d69dc5d7218594a32b3eeb4cc023b412e481f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 34/69] fix: EMBC_ROUND_UP_TO_MULTIPLE and EMBC_CONTAINER_OF
 misread arguments given as an expression

---
 include/embc/cdef.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embc/cdef.h b/include/embc/cdef.h
index af10b83..32b82da 100644
--- a/include/embc/cdef.h
+++ b/include/embc/cdef.h
@@ -179,7 +179,7 @@
  * WARNING: The values for x and m MUST NOT have any side effects
  * as the parameters occur multiple times in the macro!
  */
-#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * (m - 1) )) / m) * m)
+#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * ((m) - 1) )) / (m)) * (m))
 
 /**
  * @brief Find the container instance given a member pointer.
@@ -190,7 +190,7 @@
  * @return The pointer to the container.
  */
 #define EMBC_CONTAINER_OF(ptr, type, member) \
-    ( (type *) ((char *) ptr - offsetof(type, member)) )
+    ( (type *) ((char *) (ptr) - offsetof(type, member)) )
 
 
 #ifdef __cplusplus
-- 
2.43.0


From cdc6e3ac59c0f075959657547e33ecb2b2556143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 35/69] fix: event manager dereferenced null when out of memory

Scheduling now returns 0, the documented error value.
---
 src/event_manager.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index b905f10..e4329ff 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -67,8 +67,11 @@ int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
         return 0;
     }
     if (embc_list_is_empty(&self->events_free)) {
-        ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
+        if (!ev) {
+            return 0;
+        }
+        ++self->event_counter;
         ev->event_id = self->event_counter;
         embc_list_initialize(&ev->node);
     } else {
-- 
2.43.0


From 425dab83cbddcad4851bcd18cf3c88cdab490238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 36/69] fix: framer leaked frames received on an invalid port

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5ba59ac..6852df5 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -660,6 +660,7 @@ static void rx_hook_fn(
     struct embc_framer_header_s hdr = *buffer_hdr(frame);
     if (hdr.port >= EMBC_FRAMER_PORTS) {
         EMBC_LOGW("invalid port %d", (int) hdr.port);
+        embc_buffer_free(frame);
         return;
     }
     EMBC_ASSERT(frame->length == (hdr.length + EMBC_FRAMER_HEADER_SIZE + EMBC_FRAMER_FOOTER_SIZE));
-- 
2.43.0


From 201c0e141ae7ccd7bed4f6340e393f8a28614469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 37/69] fix: framer delivered frames out of order when the
 frame id wraps

---
 src/stream/framer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6852df5..ab58fc5 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -310,10 +310,11 @@ static void rx_insert(struct embc_framer_s *self, struct embc_buffer_s * frame)
     embc_list_foreach(&self->rx_pending, item) {
         struct embc_buffer_s * f = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s * h1 = buffer_hdr(f);
-        uint8_t delta = h->frame_id - h1->frame_id;
+        uint8_t delta = (h->frame_id - h1->frame_id) & EMBC_FRAMER_ID_MASK;
         if (0 == delta) { // duplicate
+            embc_buffer_free(frame);
             return;
-        } else if (delta > 128) { // before current item
+        } else if (delta > (EMBC_FRAMER_ID_MASK / 2)) { // before current item
             embc_list_insert_before(item, &frame->item);
             return;
         }
-- 
2.43.0


From 981a7250c85510657c84d5a0a939dc01ad33e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 38/69] fix: framer send rejected full payloads in buffers
 without framing space

---
 src/stream/framer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index ab58fc5..a7e8b45 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -995,7 +995,7 @@ void embc_framer_send(
 
     if (buffer->reserve < EMBC_FRAMER_FOOTER_SIZE) {
         EMBC_LOGD("embc_framer_send buffer copy %p", (void *) buffer);
-        EMBC_ASSERT(length < EMBC_FRAMER_PAYLOAD_MAX_SIZE);
+        EMBC_ASSERT(length <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
         struct embc_buffer_s * b = embc_framer_alloc(self);
         embc_buffer_write(b, buffer->data, length);
         embc_buffer_free(buffer);
-- 
2.43.0


From 6c2b82c81a7d34429835265a80bcabc5cfeb8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 39/69] fix: framer lost a byte or asserted after recovering a
 frame during resynchronization

---
 src/stream/framer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index a7e8b45..9d94b6f 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -800,9 +800,10 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     }
     self->rx_state = ST_SOF_UNSYNC;
 
-    for (; i < count; ++i) {
+    while (i < count) {
         uint8_t * b = self->rx_buffer->data + i;
         if (*b != SOF) {
+            ++i;
             continue;
         }
         sz = count - i;
@@ -828,16 +829,19 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 count = embc_buffer_length(self->rx_buffer);
                 ++self->status.rx_count;
                 self->rx_hook_fn(self->rx_hook_user_data, f);
-                break;
+                continue;
             }
             case EMBC_ERROR_IO:
                 break;
             default:
                 break;
         }
+        ++i;
     }
 exit:
-    embc_buffer_erase(self->rx_buffer, 0, i);
+    if (i > 0) {
+        embc_buffer_erase(self->rx_buffer, 0, i);
+    }
 }
 
 void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte) {
-- 
2.43.0


From 9a2535b2e4bbb0b1bff374117cc5e5710366ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 40/69] fix: framer stopped its timer when an acknowledged
 frame waited behind a lost frame

---
 src/stream/framer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 9d94b6f..8810152 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -515,6 +515,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
+    self->next_timeout = EMBC_TIME_MAX;  // the timer expired, nothing to cancel
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     if (current_time >= self->rx_next_timeout) {
         self->rx_next_timeout = EMBC_TIME_MAX;
@@ -552,7 +553,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (t->timeout < timeout) {
+        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
-- 
2.43.0


From a96fa8d3009f35b8676f7ebd921848e717d5b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 41/69] fix: framer freed and resent frames still owned by the
 HAL, and forgot acknowledgements received before tx_done

---
 src/stream/framer.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 8810152..f293ec2 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -77,6 +77,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    uint8_t hal_owns;  // b was given to the HAL which has not yet called tx_done
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -445,8 +446,11 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    embc_buffer_free(t->b);
+    if (!t->hal_owns) {  // else freed by embc_framer_hal_tx_done()
+        embc_buffer_free(t->b);
+    }
     t->b = 0;
+    t->hal_owns = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
     uint16_t port_def = hdr_port_def(&hdr);
@@ -571,7 +575,10 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     t->status = TX_STATUS_TRANSMITTING;
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
-    self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    if (!t->hal_owns) {  // else still waiting for its previous transmission
+        t->hal_owns = 1;
+        self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    }
     timer_schedule(self);
 }
 
@@ -929,9 +936,14 @@ void embc_framer_hal_tx_done(
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
             if (t->b == buffer) {
-                t->status = TX_STATUS_AWAIT_ACK;
+                t->hal_owns = 0;
+                if (TX_STATUS_TRANSMITTING == t->status) {
+                    t->status = TX_STATUS_AWAIT_ACK;
+                }
+                return;
             }
         }
+        embc_buffer_free(buffer);  // completed while the HAL owned it
     }
 }
 
-- 
2.43.0


From ac71e167e733bcf74f8c552fed0b00c4efa692bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:27 +0000
Subject: [PATCH 42/69] fix: framer resync treated queued buffers as transmit
 records

---
 src/stream/framer.c | 48 +++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index f293ec2..2c3e71d 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -442,10 +442,25 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
+static void tx_done(struct embc_framer_s * self, struct embc_framer_header_s * hdr, uint8_t status) {
+    ++self->status.tx_count;
+    uint16_t port_def = hdr_port_def(hdr);
+    if (hdr->port < EMBC_FRAMER_PORTS) {
+        self->port_cbk[hdr->port].tx_done_fn(
+                self->port_cbk[hdr->port].port,
+                hdr->port,
+                hdr->message_id,
+                port_def,
+                status
+        );
+    } else {
+        EMBC_LOGW("invalid port %d", (int) hdr->port);
+    }
+}
+
 static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
-    ++self->status.tx_count;
     if (!t->hal_owns) {  // else freed by embc_framer_hal_tx_done()
         embc_buffer_free(t->b);
     }
@@ -453,18 +468,7 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     t->hal_owns = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
-    uint16_t port_def = hdr_port_def(&hdr);
-    if (hdr.port < EMBC_FRAMER_PORTS) {
-        self->port_cbk[hdr.port].tx_done_fn(
-                self->port_cbk[hdr.port].port,
-                hdr.port,
-                hdr.message_id,
-                port_def,
-                status
-        );
-    } else {
-        EMBC_LOGW("invalid port %d", (int) hdr.port);
-    }
+    tx_done(self, &hdr, status);
 }
 
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
@@ -479,15 +483,21 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
 
 static void tx_purge_queued(struct embc_framer_s * self) {
     struct embc_list_s * item;
-    embc_list_foreach(&self->tx_buffers_active, item) {
+    struct embc_list_s queue;  // separate, since tx_done callbacks may send
+    embc_list_initialize(&queue);
+    embc_list_append(&queue, &self->tx_queue);
+    embc_size_t count = embc_list_length(&self->tx_buffers_active);
+    while (count--) {
+        item = embc_list_remove_head(&self->tx_buffers_active);
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
         tx_complete(self, t, EMBC_ERROR_ABORTED);
     }
-    embc_list_foreach(&self->tx_queue, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+    while (!embc_list_is_empty(&queue)) {
+        item = embc_list_remove_head(&queue);
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        struct embc_framer_header_s hdr = *buffer_hdr(b);
+        embc_buffer_free(b);
+        tx_done(self, &hdr, EMBC_ERROR_ABORTED);
     }
 }
 
-- 
2.43.0


From 15136c64efb20812164c4246daaa19c2c9d0a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 43/69] fix: framer asserted and left the outstanding window
 when a frame between others ran out of retries

---
 src/stream/framer.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 2c3e71d..2247885 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -419,17 +419,6 @@ static inline void send_frame_ack(
     self->hal_cbk.tx_fn(self->hal_cbk.hal, ack);
 }
 
-static uint8_t expected_tx_frame_id(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    if (embc_list_is_empty(&self->tx_buffers_active)) {
-        return 255;
-    }
-    item = embc_list_peek_head(&self->tx_buffers_active);
-    struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-    struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-    return hdr->frame_id;
-}
-
 static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
@@ -505,12 +494,10 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     // Complete only when guaranteed in order!
     bool match_current = false;
     struct embc_list_s * item;
-    uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
         match_current |= (t == t_current);
-        struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-        if ((TX_STATUS_ACKED == t->status) && (hdr->frame_id == tx_ack_frame_id)) {
+        if (TX_STATUS_ACKED == t->status) {
             tx_complete(self, t, 0);
         } else if (!match_current && (t->status == TX_STATUS_AWAIT_ACK)) {
             ++self->status.tx_retransmit_count;
@@ -519,7 +506,6 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
         } else {
             break;
         }
-        tx_ack_frame_id = frame_id_incr(tx_ack_frame_id);
     }
 }
 
@@ -601,6 +587,15 @@ static void transmit_queued(struct embc_framer_s * self) {
     while (!embc_list_is_empty(&self->tx_buffers_free) && !embc_list_is_empty(&self->tx_queue)) {
         struct embc_list_s * item =  embc_list_remove_head(&self->tx_queue);
         struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        item = embc_list_peek_head(&self->tx_buffers_active);
+        if (item) {  // the receiver only accepts ids within the outstanding window
+            struct tx_buf_s * first = embc_list_entry(item, struct tx_buf_s, item);
+            uint8_t delta = (buffer_hdr(b)->frame_id - buffer_hdr(first->b)->frame_id) & EMBC_FRAMER_ID_MASK;
+            if (delta >= EMBC_FRAMER_OUTSTANDING_FRAMES_MAX) {
+                embc_list_add_head(&self->tx_queue, &b->item);
+                break;
+            }
+        }
         item = embc_list_remove_head(&self->tx_buffers_free);
         struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
         embc_list_add_tail(&self->tx_buffers_active, item);
@@ -625,12 +620,11 @@ static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_
         struct embc_list_s * item = &t_match->item;
         while (item->prev != &self->tx_buffers_active) {
             item = item->prev;
-            mask = mask << 1;
             struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
             struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-            frame_id = (frame_id - 1) & EMBC_FRAMER_ID_MASK;
-            EMBC_ASSERT(frame_id == hdr->frame_id);
-            if ((TX_STATUS_AWAIT_ACK == t->status) && (mask & EMBC_FRAMER_ACK_MASK_CURRENT)) {
+            // frames may be missing in between after too many retries
+            uint8_t delta = (frame_id - hdr->frame_id) & EMBC_FRAMER_ID_MASK;
+            if ((TX_STATUS_AWAIT_ACK == t->status) && ((mask << delta) & EMBC_FRAMER_ACK_MASK_CURRENT)) {
                 t->status = TX_STATUS_ACKED;
             }
         }
-- 
2.43.0


From b58c950d739deeb3380333648657e819d8a857c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 44/69] fix: framer stopped sending queued frames and never
 completed acknowledged ones after a frame ran out of retries

---
 src/stream/framer.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 2247885..6ca162f 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -94,6 +94,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 }
 
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
+static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
 
 struct embc_framer_s {
@@ -509,6 +510,19 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     }
 }
 
+// Continue after frames may have run out of retries.
+static void tx_resume(struct embc_framer_s * self) {
+    struct embc_list_s * item;
+    while (0 != (item = embc_list_peek_head(&self->tx_buffers_active))) {
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if (TX_STATUS_ACKED != t->status) {
+            break;
+        }
+        tx_complete(self, t, 0);
+    }
+    transmit_queued(self);
+}
+
 static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_framer_s * self = (struct embc_framer_s *) user_data;
     (void) timer_id;
@@ -527,6 +541,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
             tx_error(self, t, EMBC_ERROR_TIMED_OUT);
         }
     }
+    tx_resume(self);
     timer_schedule(self);
 }
 
@@ -657,6 +672,8 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         struct tx_buf_s * t = find_tx(self, frame_id);
         if (t) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+            tx_resume(self);
+            timer_schedule(self);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
         }
-- 
2.43.0


From 5eed95bdaf7140a3d1afff748aff8c0f1c2873b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 45/69] fix: framer used freed frames when a receive callback
 resynchronized the link

---
 src/stream/framer.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6ca162f..0a30ac6 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -345,9 +345,8 @@ static void rx_complete(struct embc_framer_s *self, struct embc_buffer_s * frame
 static void rx_complete_queued(struct embc_framer_s *self) {
     struct embc_list_s *item;
     struct embc_buffer_s *b;
-    embc_list_foreach(&self->rx_pending, item) {
+    while (0 != (item = embc_list_remove_head(&self->rx_pending))) {
         b = embc_list_entry(item, struct embc_buffer_s, item);
-        embc_list_remove(&b->item);
         rx_complete(self, b);
     }
 }
-- 
2.43.0


From 6cc6f1995cb668350df30ca2389f4890527c1049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 46/69] fix: framer finalize leaked its buffers and left its
 timer running

---
 src/stream/framer.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 0a30ac6..b20b6c0 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -96,6 +96,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
 static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
+static void timer_cancel(struct embc_framer_s * self);
 
 struct embc_framer_s {
     struct embc_buffer_allocator_s * buffer_allocator;
@@ -297,8 +298,29 @@ void embc_framer_register_rx_hook(
     }
 }
 
+static void buffers_free(struct embc_list_s * list) {
+    struct embc_list_s * item;
+    while (0 != (item = embc_list_remove_head(list))) {
+        embc_buffer_free(embc_list_entry(item, struct embc_buffer_s, item));
+    }
+}
+
 void embc_framer_finalize(struct embc_framer_s * self) {
-    (void) self;
+    EMBC_DBC_NOT_NULL(self);
+    timer_cancel(self);
+    buffers_free(&self->rx_pending);
+    buffers_free(&self->tx_queue);
+    struct embc_list_s * item;
+    while (0 != (item = embc_list_remove_head(&self->tx_buffers_active))) {
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if (!t->hal_owns) {
+            embc_buffer_free(t->b);
+        }
+    }
+    if (self->rx_buffer) {
+        embc_buffer_free(self->rx_buffer);
+        self->rx_buffer = 0;
+    }
 }
 
 static inline uint8_t frame_payload_length(uint8_t const * buffer) {
-- 
2.43.0


From 1944c4d01bb0ed269e263b1ecf7f721e68177d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 47/69] fix: framer mistook EOF and SOF for a header during
 resynchronization and missed the frame

---
 src/stream/framer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index b20b6c0..5a6b691 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -857,10 +857,18 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
             continue;
         }
         sz = count - i;
+        if ((sz > 1) && (b[1] == SOF)) {  // repeated SOF/EOF
+            ++i;
+            continue;
+        }
         switch (embc_framer_validate(b, sz, &length)) {
             case EMBC_ERROR_EMPTY:
-                self->rx_remaining = HEADER_SIZE - sz;
-                self->rx_state = ST_HEADER_UNSYNC;
+                if (sz > 1) {
+                    self->rx_remaining = HEADER_SIZE - sz;
+                    self->rx_state = ST_HEADER_UNSYNC;
+                } else {  // next byte may still be a repeated SOF
+                    self->rx_state = ST_SOF_UNSYNC;
+                }
                 goto exit;
             case EMBC_ERROR_TOO_SMALL:
                 self->rx_remaining = length - sz;
-- 
2.43.0


From 4a53abae61c79b18bc0918810fd18d9d2e959855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:16 +0000
Subject: [PATCH 48/69] fix: framer used completed frames when its timer
 expired within a callback

---
 src/stream/framer.c | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5a6b691..1bbfe43 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -469,9 +469,8 @@ static void tx_done(struct embc_framer_s * self, struct embc_framer_header_s * h
     }
 }
 
-static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
+static struct embc_framer_header_s tx_release(struct embc_framer_s * self, struct tx_buf_s * t) {
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
-    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
     if (!t->hal_owns) {  // else freed by embc_framer_hal_tx_done()
         embc_buffer_free(t->b);
     }
@@ -479,6 +478,13 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     t->hal_owns = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
+    return hdr;
+}
+
+static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
+    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b,
+               (int) buffer_hdr(t->b)->port, (int) status);
+    struct embc_framer_header_s hdr = tx_release(self, t);
     tx_done(self, &hdr, status);
 }
 
@@ -497,11 +503,14 @@ static void tx_purge_queued(struct embc_framer_s * self) {
     struct embc_list_s queue;  // separate, since tx_done callbacks may send
     embc_list_initialize(&queue);
     embc_list_append(&queue, &self->tx_queue);
-    embc_size_t count = embc_list_length(&self->tx_buffers_active);
-    while (count--) {
-        item = embc_list_remove_head(&self->tx_buffers_active);
+    struct embc_framer_header_s active[EMBC_FRAMER_OUTSTANDING_FRAMES_MAX];
+    embc_size_t count = 0;
+    while (0 != (item = embc_list_remove_head(&self->tx_buffers_active))) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+        active[count++] = tx_release(self, t);
+    }
+    for (embc_size_t i = 0; i < count; ++i) {
+        tx_done(self, &active[i], EMBC_ERROR_ABORTED);
     }
     while (!embc_list_is_empty(&queue)) {
         item = embc_list_remove_head(&queue);
@@ -516,7 +525,8 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     // Complete only when guaranteed in order!
     bool match_current = false;
     struct embc_list_s * item;
-    embc_list_foreach(&self->tx_buffers_active, item) {
+    // callbacks may change the list: always continue with its head
+    while (0 != (item = embc_list_peek_head(&self->tx_buffers_active))) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
         match_current |= (t == t_current);
         if (TX_STATUS_ACKED == t->status) {
@@ -544,10 +554,20 @@ static void tx_resume(struct embc_framer_s * self) {
     transmit_queued(self);
 }
 
+static struct tx_buf_s * find_tx_expired(struct embc_framer_s * self, int64_t current_time) {
+    struct embc_list_s * item;
+    embc_list_foreach(&self->tx_buffers_active, item) {
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
+            return t;
+        }
+    }
+    return 0;
+}
+
 static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_framer_s * self = (struct embc_framer_s *) user_data;
     (void) timer_id;
-    struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
     self->next_timeout = EMBC_TIME_MAX;  // the timer expired, nothing to cancel
@@ -556,11 +576,8 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
         self->rx_next_timeout = EMBC_TIME_MAX;
         rx_complete_queued(self);
     }
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        t = embc_list_entry(item, struct tx_buf_s, item);
-        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
-            tx_error(self, t, EMBC_ERROR_TIMED_OUT);
-        }
+    while (0 != (t = find_tx_expired(self, current_time))) {
+        tx_error(self, t, EMBC_ERROR_TIMED_OUT);
     }
     tx_resume(self);
     timer_schedule(self);
-- 
2.43.0


From c7aa8d63fbfbe88452eb8e2cdc2264e7707b6248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:54 +0000
Subject: [PATCH 49/69] fix: framer discarded acknowledged frames when a frame
 arrived outside the window

---
 src/stream/framer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 1bbfe43..729a9fc 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -786,10 +786,10 @@ static void rx_hook_fn(
             ack_frame_bitmask = self->rx_frame_bitmask << (-frame_delta);
         } else {
             EMBC_LOGD("rx_hook_fn completely out of order: assume resync required.");
-            rx_purge_queued(self);
             ack_frame_bitmask = BITMAP_CURRENT;
             self->rx_frame_id = frame_id_incr(frame_id);
             self->rx_frame_bitmask = BITMAP_CURRENT >> 1;
+            rx_complete_queued(self);  // already acknowledged
             embc_list_add_tail(&self->rx_pending, &frame->item);
             ++self->status.rx_frame_id_error;
         }
-- 
2.43.0


From 0f64e192c21df9bf51ca713c2ed050c55ef3bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 50/69] fix: framer lost messages sent after a resync whose
 frame had to be retransmitted

---
 src/stream/framer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 729a9fc..2548e4f 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -89,6 +89,11 @@ static inline uint8_t hdr_frame_id(struct embc_framer_header_s * hdr) {
     return (uint8_t) (hdr->frame_id & EMBC_FRAMER_ID_MASK);
 }
 
+// The receiver discards other frames around a resync: never send it with others.
+static inline bool is_resync(struct embc_framer_header_s * hdr) {
+    return (0 == hdr->port) && (EMBC_FRAMER_PORT0_RESYNC == hdr_port_def(hdr));
+}
+
 static inline uint8_t frame_id_incr(uint8_t frame_id) {
     return (uint8_t) ((frame_id + 1) & EMBC_FRAMER_ID_MASK);
 }
@@ -644,7 +649,8 @@ static void transmit_queued(struct embc_framer_s * self) {
         if (item) {  // the receiver only accepts ids within the outstanding window
             struct tx_buf_s * first = embc_list_entry(item, struct tx_buf_s, item);
             uint8_t delta = (buffer_hdr(b)->frame_id - buffer_hdr(first->b)->frame_id) & EMBC_FRAMER_ID_MASK;
-            if (delta >= EMBC_FRAMER_OUTSTANDING_FRAMES_MAX) {
+            if ((delta >= EMBC_FRAMER_OUTSTANDING_FRAMES_MAX) ||
+                    is_resync(buffer_hdr(first->b)) || is_resync(buffer_hdr(b))) {
                 embc_list_add_head(&self->tx_queue, &b->item);
                 break;
             }
-- 
2.43.0


From f0515d50b835abeb7c7b8a57757350ffbfd54e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 51/69] fix: framer resync reused the id of a frame still in
 flight when many messages were queued

---
 src/stream/framer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 2548e4f..7eff304 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -507,6 +507,10 @@ static void tx_purge_queued(struct embc_framer_s * self) {
     struct embc_list_s * item;
     struct embc_list_s queue;  // separate, since tx_done callbacks may send
     embc_list_initialize(&queue);
+    item = embc_list_peek_head(&self->tx_queue);
+    if (item) {  // reuse the ids never transmitted, else ids still in flight may repeat
+        self->tx_next_frame_id = buffer_hdr(embc_list_entry(item, struct embc_buffer_s, item))->frame_id;
+    }
     embc_list_append(&queue, &self->tx_queue);
     struct embc_framer_header_s active[EMBC_FRAMER_OUTSTANDING_FRAMES_MAX];
     embc_size_t count = 0;
-- 
2.43.0


From 28f6019ad4532ce2708b169dea5178589835d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:49 +0000
Subject: [PATCH 52/69] fix: framer refused damaged acknowledgements, which the
 peer took for one of its data frames

---
 src/stream/framer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 7eff304..62d8903 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -867,7 +867,10 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
             ++self->status.rx_mic_error;
             EMBC_LOGD1("framer_resync MIC");
             struct embc_framer_header_s * hdr = buffer_hdr(self->rx_buffer);
-            send_frame_ack(self, hdr, EMBC_FRAMER_ACK_MASK_CURRENT, status);
+            if (EMBC_FRAMER_TYPE_DATA == (hdr->frame_id & EMBC_FRAMER_TYPE_MASK)) {
+                // else the peer would apply it to its data frame with the same id
+                send_frame_ack(self, hdr, EMBC_FRAMER_ACK_MASK_CURRENT, status);
+            }
         } else {
             EMBC_LOGD1("framer_resync sync");
             ++self->status.rx_synchronization_error;
-- 
2.43.0


From 34c99c0ca2e1d4e924499acd345ac1648ea6595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 53/69] fix: stream sink never responded to noop and flush
 requests

---
 src/stream/async_sink.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index eca0940..7c4b574 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -89,6 +89,14 @@ static void send(struct embc_stream_consumer_s * self,
                 s->producer->send(s->producer, transaction);
             }
             break;
+        case EMBC_STREAM_IOCTL_NOOP:
+            /* intentional fall-through */
+        case EMBC_STREAM_IOCTL_FLUSH:  // nothing is buffered
+            transaction->status = 0;
+            if (s->producer) {
+                s->producer->send(s->producer, transaction);
+            }
+            break;
         default:
             break;
     }
-- 
2.43.0


From 17af92a857db46b56cce59d8d4b7b669306bf79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 54/69] fix: stream sink acknowledged data that did not fit its
 buffer as received

---
 src/stream/async_sink.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 7c4b574..cc9e3c4 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -70,6 +70,7 @@ static void send(struct embc_stream_consumer_s * self,
             if (s->dst_buffer) {
                 if (s->dst_length < (s->offset + transaction->length)) {
                     EMBC_LOGW("async_sink buffer overflow");
+                    transaction->status = EMBC_ERROR_FULL;
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
                            transaction->data.ioctl_write.ptr,
-- 
2.43.0


From 7e610679afefa7a327658ef2a187a0c72f39460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 55/69] fix: stream source wrote more than the consumer's
 maximum transfer unit

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 4291c5f..b380e37 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -45,6 +45,7 @@ static void send(struct embc_stream_producer_s * self,
             uint32_t remaining = s->source_length - s->tx_offset;
             uint8_t * buffer;
             if (!sz) {
+                uint16_t mtu = transaction->data.event_write_request_producer_buffer.mtu;
                 if (s->transaction_length) {
                     sz = s->transaction_length;
                     buffer = s->transaction_buffer;
@@ -52,6 +53,9 @@ static void send(struct embc_stream_producer_s * self,
                     sz = sizeof(s->transaction_buffer);
                     buffer = (uint8_t *) &s->transaction_buffer;
                 }
+                if (mtu && (mtu < sz)) {
+                    sz = mtu;
+                }
             } else {
                 buffer = transaction->data.event_write_request_consumer_buffer.ptr;
             }
-- 
2.43.0


From 1f00fad5e7d62f2095a5c14b0fd39e14de72ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:29 +0000
Subject: [PATCH 56/69] fix: stream source closed another file than the one it
 opened

---
 src/stream/async_source.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index b380e37..b06731d 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -23,6 +23,7 @@ static void send(struct embc_stream_producer_s * self,
     struct embc_stream_source_s * s = EMBC_CONTAINER_OF(self, struct embc_stream_source_s, producer);
     switch (transaction->type) {
         case EMBC_STREAM_IOCTL_OPEN:
+            s->file_id = transaction->file_id;
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
             if (s->done_fn) {
@@ -34,6 +35,7 @@ static void send(struct embc_stream_producer_s * self,
             if (s->rx_offset >= s->source_length) {
                 EMBC_STRUCT_PTR_INIT(transaction);
                 transaction->type = EMBC_STREAM_IOCTL_CLOSE;
+                transaction->file_id = s->file_id;
                 s->consumer->send(s->consumer, transaction);
             }
             break;
@@ -72,6 +74,7 @@ static void send(struct embc_stream_producer_s * self,
         }
         case EMBC_STREAM_EVENT_ABORT:
             transaction->type = EMBC_STREAM_IOCTL_CLOSE;
+            transaction->file_id = s->file_id;
             transaction->status = EMBC_ERROR_ABORTED;
             s->consumer->send(s->consumer, transaction);
             break;
-- 
2.43.0


From c5139bacf3059fb2b1fa001a0fa36234a091c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:29 +0000
Subject: [PATCH 57/69] fix: stream source sent data and closed again after it
 had closed

---
 include/embc/stream/async_source.h |  1 +
 src/stream/async_source.c          | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/embc/stream/async_source.h b/include/embc/stream/async_source.h
index 256387a..940f036 100644
--- a/include/embc/stream/async_source.h
+++ b/include/embc/stream/async_source.h
@@ -45,6 +45,7 @@ struct embc_stream_source_s {
     struct embc_stream_producer_s producer;
     struct embc_stream_consumer_s * consumer;
     uint8_t file_id;
+    uint8_t is_open;
     uint8_t transaction_id;
     uint8_t * transaction_buffer;
     uint16_t transaction_length;
diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index b06731d..020dd89 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -26,13 +26,18 @@ static void send(struct embc_stream_producer_s * self,
             s->file_id = transaction->file_id;
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
+            s->is_open = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, transaction->status);
             }
             break;
         case EMBC_STREAM_IOCTL_WRITE:
+            if (!s->is_open) {
+                break;
+            }
             s->rx_offset += transaction->length;
             if (s->rx_offset >= s->source_length) {
+                s->is_open = 0;
                 EMBC_STRUCT_PTR_INIT(transaction);
                 transaction->type = EMBC_STREAM_IOCTL_CLOSE;
                 transaction->file_id = s->file_id;
@@ -40,7 +45,7 @@ static void send(struct embc_stream_producer_s * self,
             }
             break;
         case EMBC_STREAM_EVENT_WRITE_REQUEST: {
-            if (s->tx_offset >= s->source_length) {
+            if (!s->is_open || (s->tx_offset >= s->source_length)) {
                 break;
             }
             uint16_t sz = transaction->length;
@@ -73,6 +78,10 @@ static void send(struct embc_stream_producer_s * self,
             break;
         }
         case EMBC_STREAM_EVENT_ABORT:
+            if (!s->is_open) {
+                break;
+            }
+            s->is_open = 0;
             transaction->type = EMBC_STREAM_IOCTL_CLOSE;
             transaction->file_id = s->file_id;
             transaction->status = EMBC_ERROR_ABORTED;
@@ -135,6 +144,7 @@ EMBC_API void embc_stream_source_open_ex(
         uint16_t length) {
     self->tx_offset = 0;
     self->rx_offset = 0;
+    self->is_open = 1;
     struct embc_stream_transaction_s transaction;
     EMBC_STRUCT_INIT(transaction);
     transaction.type = EMBC_STREAM_IOCTL_OPEN;
-- 
2.43.0


From 208ef0c38db4fdf2f75341856dff0abc522f11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:29 +0000
Subject: [PATCH 58/69] fix: stream source reported success although a write
 had failed

---
 src/stream/async_source.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 020dd89..738ca94 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -36,9 +36,11 @@ static void send(struct embc_stream_producer_s * self,
                 break;
             }
             s->rx_offset += transaction->length;
-            if (s->rx_offset >= s->source_length) {
+            if (transaction->status || (s->rx_offset >= s->source_length)) {
+                uint8_t status = transaction->status;
                 s->is_open = 0;
                 EMBC_STRUCT_PTR_INIT(transaction);
+                transaction->status = status;
                 transaction->type = EMBC_STREAM_IOCTL_CLOSE;
                 transaction->file_id = s->file_id;
                 s->consumer->send(s->consumer, transaction);
-- 
2.43.0


From e9cd66d7b26857f238ded8a31d5992992ddf092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:29 +0000
Subject: [PATCH 59/69] fix: stream sink sent an event to a producer that had
 not opened it

---
 src/stream/async_sink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index cc9e3c4..e161b56 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -143,7 +143,7 @@ void embc_stream_sink_receive(
         embc_stream_sink_data_fn done_fn,
         void * done_user_data) {
     EMBC_DBC_NOT_NULL(self);
-    if (self->dst_buffer && !dst_buffer) {
+    if (self->mode && self->dst_buffer && !dst_buffer) {
         send_event(self, EMBC_STREAM_EVENT_DISCONNECT);
     }
     uint8_t send_connect = (!self->dst_buffer && dst_buffer);
-- 
2.43.0


From de95954cd01dae0786e20d68955837d97c93ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 60/69] fix: pattern receiver miscounted when the stream starts
 with damaged words

---
 src/pattern_32a.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 689ee06..a384932 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -215,12 +215,10 @@ void embc_pattern_32a_rx_next(
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
                 self->duplicate_count = 0;
-                self->error_count = 0;
                 self->state = ST_SYNC;
-            } else {
+            } else {  // never synchronized: no position to compare against yet
                 ++self->error_count;
                 self->syncword1 = value;
-                self->state = ST_WORD2;
             }
             break;
         }
-- 
2.43.0


From 5c6f29f471b4c92577ee5a0350553d332b3d785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 61/69] fix: Python bindings referred to buffer allocator
 functions that no longer exist

---
 py/embc/memory/buffer.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 668f8df..c84d49d 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -2,13 +2,17 @@
 
 import os
 import ctypes
-from ctypes import cdll, Structure, POINTER, pointer, cast, \
+from ctypes import cdll, Structure, POINTER, CFUNCTYPE, pointer, cast, \
     c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
 from ..collections.list import embc_list_s
 
 
+class embc_buffer_manager_s(Structure):
+    pass
+
+
 class embc_buffer_s(Structure):
     _fields_ = [
         ('data', POINTER(c_uint8)),
@@ -17,6 +21,8 @@ class embc_buffer_s(Structure):
         ('length', c_uint16),
         ('reserve', c_uint16),
         ('buffer_id', c_uint16),
+        ('flags', c_uint16),
+        ('manager', POINTER(embc_buffer_manager_s)),
         ('item', embc_list_s),
     ]
 
@@ -58,13 +64,17 @@ class embc_buffer_s(Structure):
 
 
 
-# struct embc_buffer_allocator_s * embc_buffer_initialize(embc_size_t const * sizes, embc_size_t length);
-initialize = _dll.embc_buffer_initialize
+embc_buffer_manager_s._fields_ = [
+    ('free', CFUNCTYPE(None, POINTER(embc_buffer_manager_s), POINTER(embc_buffer_s))),
+]
+
+# struct embc_buffer_allocator_s * embc_buffer_allocator_new(embc_size_t const * sizes, embc_size_t length);
+initialize = _dll.embc_buffer_allocator_new
 initialize.restype = c_void_p
 initialize.argtypes = [POINTER(c_size_t), c_size_t]
 
-# void embc_buffer_finalize(struct embc_buffer_allocator_s * self);
-finalize = _dll.embc_buffer_finalize
+# void embc_buffer_allocator_finalize(struct embc_buffer_allocator_s * self);
+finalize = _dll.embc_buffer_allocator_finalize
 finalize.restype = None
 finalize.argtypes = [c_void_p]
 
@@ -73,10 +83,15 @@ alloc = _dll.embc_buffer_alloc
 alloc.restype = POINTER(embc_buffer_s)
 alloc.argtypes = [c_void_p, c_size_t]
 
-# void embc_buffer_free(struct embc_buffer_s * buffer);
-free = _dll.embc_buffer_free
-free.restype = None
-free.argtypes = [POINTER(embc_buffer_s)]
+
+def free(buffer):
+    """Free a buffer, like the inline C function embc_buffer_free().
+
+    :param buffer: The embc_buffer_s or the pointer to it.
+    """
+    p = pointer(buffer) if isinstance(buffer, embc_buffer_s) else buffer
+    p[0].manager[0].free(p[0].manager, p)
+
 
 # void embc_buffer_write(struct embc_buffer_s * buffer,
 #                        void const * data,
-- 
2.43.0


From d15c3aa3fd50d550c94663d929bbafca702f8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 62/69] fix: Python bindings list new returned nothing

---
 py/embc/collections/list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/embc/collections/list.py b/py/embc/collections/list.py
index 6c72462..a25b577 100644
--- a/py/embc/collections/list.py
+++ b/py/embc/collections/list.py
@@ -20,3 +20,4 @@ def reset(i):
 def new():
     i = embc_list_s()
     reset(i)
+    return i
-- 
2.43.0


From ccb3a0c5fce5b6e95a4351dea6d26e64c7caf404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 63/69] fix: embc_mblock_free reports memory behind the last
 block and sizes beyond the region

The loop read the allocation bitmap behind its end, and for sizes near the
largest integer the end index overflowed so that nothing was checked.
---
 src/memory/block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5c0c32b..c1eb11a 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -93,6 +93,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     EMBC_ASSERT(b < (s->mem + s->mem_size));
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
+    EMBC_ASSERT(blocks <= (s->block_count - idx_start));  // only managed blocks
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
         int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
-- 
2.43.0


From 987c6cfccbe93c15a105544e7dbf5f48e8ab014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 64/69] fix: byte buffer macros take expressions as operands
 and act as one statement

---
 include/embc/bbuf.h | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/embc/bbuf.h b/include/embc/bbuf.h
index 97ebaed..c30f281 100644
--- a/include/embc/bbuf.h
+++ b/include/embc/bbuf.h
@@ -76,9 +76,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U16_BE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U16_BE(buffer, value) do { \
         (buffer)[0] = ((value) >> 8) & 0xff; \
-        (buffer)[1] = ((value)     ) & 0xff
+        (buffer)[1] = ((value)     ) & 0xff; \
+    } while (0)
 
 /**
  * @brief Encode a uint16 to the buffer in little-endian order.
@@ -86,9 +87,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U16_LE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U16_LE(buffer, value) do { \
         (buffer)[0] = ((value)     ) & 0xff; \
-        (buffer)[1] = ((value) >> 8) & 0xff
+        (buffer)[1] = ((value) >> 8) & 0xff; \
+    } while (0)
 
 /**
  * @brief Encode a uint32 to the buffer in big-endian order.
@@ -96,9 +98,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U32_BE(buffer, value) \
-        EMBC_BBUF_ENCODE_U16_BE((buffer), ( (value) >> 16)); \
-        EMBC_BBUF_ENCODE_U16_BE((buffer) + 2, (value) )
+#define EMBC_BBUF_ENCODE_U32_BE(buffer, value) do { \
+        EMBC_BBUF_ENCODE_U16_BE((buffer), ( (uint32_t) (value) >> 16)); \
+        EMBC_BBUF_ENCODE_U16_BE((buffer) + 2, (value) ); \
+    } while (0)
 
 /**
  * @brief Encode a uint32 to the buffer in little-endian order.
@@ -106,9 +109,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U32_LE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U32_LE(buffer, value) do { \
         EMBC_BBUF_ENCODE_U16_LE((buffer), (value) ); \
-        EMBC_BBUF_ENCODE_U16_LE((buffer) + 2, (value) >> 16)
+        EMBC_BBUF_ENCODE_U16_LE((buffer) + 2, (uint32_t) (value) >> 16); \
+    } while (0)
 
 /**
  * @brief Encode a uint64to the buffer in big-endian order.
@@ -116,9 +120,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U64_BE(buffer, value) \
-        EMBC_BBUF_ENCODE_U32_BE((buffer), ( (value) >> 32)); \
-        EMBC_BBUF_ENCODE_U32_BE((buffer) + 4, (value) )
+#define EMBC_BBUF_ENCODE_U64_BE(buffer, value) do { \
+        EMBC_BBUF_ENCODE_U32_BE((buffer), ( (uint64_t) (value) >> 32)); \
+        EMBC_BBUF_ENCODE_U32_BE((buffer) + 4, (value) ); \
+    } while (0)
 
 /**
  * @brief Encode a uint64 to the buffer in little-endian order.
@@ -126,9 +131,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U64_LE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U64_LE(buffer, value) do { \
         EMBC_BBUF_ENCODE_U32_LE((buffer), (value) ); \
-        EMBC_BBUF_ENCODE_U32_LE((buffer) + 4, (value) >> 32)
+        EMBC_BBUF_ENCODE_U32_LE((buffer) + 4, (uint64_t) (value) >> 32); \
+    } while (0)
 
 /**
  * @brief Decode a uint8 from the buffer.
@@ -136,7 +142,7 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer.
  * @return The value decoded from the buffer.
  */
-#define EMBC_BBUF_DECODE_U8(buffer) (buffer)[0];
+#define EMBC_BBUF_DECODE_U8(buffer) ((buffer)[0])
 
 /**
  * @brief Decode a uint16 from the buffer in big-endian order.
@@ -166,7 +172,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U32_BE(buffer) ( \
         (((uint32_t) EMBC_BBUF_DECODE_U16_BE(buffer)) << 16) | \
-        ((uint32_t) EMBC_BBUF_DECODE_U16_BE(buffer + 2)) )
+        ((uint32_t) EMBC_BBUF_DECODE_U16_BE((buffer) + 2)) )
 
 /**
  * @brief Decode a uint32 from the buffer in little-endian order.
@@ -176,7 +182,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U32_LE(buffer) ( \
         ((uint32_t) EMBC_BBUF_DECODE_U16_LE(buffer)) | \
-        (((uint32_t) EMBC_BBUF_DECODE_U16_LE(buffer + 2)) << 16) )
+        (((uint32_t) EMBC_BBUF_DECODE_U16_LE((buffer) + 2)) << 16) )
 
 /**
  * @brief Decode a uint64 from the buffer in big-endian order.
@@ -186,7 +192,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U64_BE(buffer) ( \
         (((uint64_t) EMBC_BBUF_DECODE_U32_BE(buffer)) << 32) | \
-        ((uint64_t) EMBC_BBUF_DECODE_U32_BE(buffer + 4)) )
+        ((uint64_t) EMBC_BBUF_DECODE_U32_BE((buffer) + 4)) )
 
 /**
  * @brief Decode a uint64 from the buffer in little-endian order.
@@ -196,7 +202,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U64_LE(buffer) ( \
         ((uint64_t) EMBC_BBUF_DECODE_U32_LE(buffer)) | \
-        (((uint64_t) EMBC_BBUF_DECODE_U32_LE(buffer + 4)) << 32) )
+        (((uint64_t) EMBC_BBUF_DECODE_U32_LE((buffer) + 4)) << 32) )
 
 
 /** @} */
-- 
2.43.0


From ca1a6e138dbde82f67b197c5b01fc8d628d15052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 65/69] fix: EMBC_BUFFER_STATIC_INITIALIZE acts as one
 statement

---
 include/embc/memory/buffer.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index bd2d9a0..b68d324 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -683,15 +683,15 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
         *d__ = (name ## _mem_); \
         uint16_t * c__ = (uint16_t *) &(name).capacity; \
         *c__ = sizeof(name ## _mem_); \
-    } while(0); \
-    (name).cursor = 0; \
-    (name).length = 0; \
-    (name).reserve = 0; \
-    (name).buffer_id = 0; \
-    (name).flags = 0; \
-    (name).manager = &embc_buffer_manager_static; \
-    (name).item.next = &(name).item; \
-    (name).item.prev = &(name).item;
+        (name).cursor = 0; \
+        (name).length = 0; \
+        (name).reserve = 0; \
+        (name).buffer_id = 0; \
+        (name).flags = 0; \
+        (name).manager = &embc_buffer_manager_static; \
+        (name).item.next = &(name).item; \
+        (name).item.prev = &(name).item; \
+    } while(0)
 
 /**
  * @brief Define a new static buffer instance.
-- 
2.43.0


From ea929642bf78e51ccd019bd9cbec9ff3d2698607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 66/69] fix: ping qualification counted answered pings as
 missing

---
 py/bin/framer_qual.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/py/bin/framer_qual.py b/py/bin/framer_qual.py
index 7159439..d9f9a68 100644
--- a/py/bin/framer_qual.py
+++ b/py/bin/framer_qual.py
@@ -180,13 +180,18 @@ class PingQueue:
     def _rx_pending_count(self):
         return len([msg for msg in self._queue if not msg.response_received])
 
+    def _rx_pending(self):
+        return [msg for msg in self._queue if not msg.response_received]
+
     def _ping_rx_resync(self, message_id, data):
-        for idx in range(len(self._queue)):
-            msg = self._queue[idx]
+        pending = self._rx_pending()
+        for idx in range(len(pending)):
+            msg = pending[idx]
             if msg.message_id == message_id and msg.payload == data:
                 log.info('resync message_id=%d to index %d', message_id, idx)
                 self._frames_missing += idx
-                del self._queue[:idx]
+                for missing in pending[:idx]:
+                    self._queue.remove(missing)
                 return msg
         log.warning('rx resync failed message_id=%d (frame from previous ping session?)',
                     message_id)
@@ -196,7 +201,7 @@ class PingQueue:
         if 0 == self._rx_pending_count(): # error
             log.warning("rx ping response %d, but not expected" % message_id)
             return
-        msg = self._queue[0]
+        msg = self._rx_pending()[0]
         if msg.message_id != message_id:
             log.debug('rx ping response message_id mismatch: expected %d != received %d',
                       msg.message_id, message_id)
-- 
2.43.0


From e85a38ad42cc78aeabbc0539c9b143cfce686769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 67/69] fix: buffer log checker did not recognise the log
 messages

---
 py/bin/buffer_log_check.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/py/bin/buffer_log_check.py b/py/bin/buffer_log_check.py
index 474d4ef..152cd9b 100644
--- a/py/bin/buffer_log_check.py
+++ b/py/bin/buffer_log_check.py
@@ -6,6 +6,7 @@ Check the log files for buffer alloc/free pairs.
 """
 
 import argparse
+import re
 import sys
 
 
@@ -28,8 +29,14 @@ class Alloc:
         return '%s: alloc on line %s, free on line %s' % (self.ptr, self.alloc_line, self.free_line)
 
 
-ALLOC = 'embc_buffer_alloc'
-FREE = 'embc_buffer_free'
+# The messages that embc/memory/buffer.c logs, each with the buffer pointer last.
+ALLOC = re.compile(r'embc_buffer_alloc(?:_unsafe)? (\S+)$')
+FREE = re.compile(r'embc_buffer_free_\(\S+, (\S+)\)$')
+NULL = ['(nil)', '(null)']  # also any form of zero
+
+
+def is_null(ptr):
+    return ptr in NULL or not ptr.replace('0x', '', 1).strip('0')
 
 
 def run():
@@ -39,9 +46,12 @@ def run():
     line_num = 0
     for line in args.logfile:
         line_num += 1
-        alloc_idx = line.find(ALLOC)
-        if alloc_idx >= 0:
-            ptr = line[alloc_idx + len(ALLOC) + 1:-1]
+        line = line.rstrip()
+        alloc = ALLOC.search(line)
+        if alloc:
+            ptr = alloc.group(1)
+            if is_null(ptr):  # pool exhausted, nothing allocated
+                continue
             b = buffers.get(ptr)
             if b is not None:
                 print('line %d: alloc without free: %s' % (line_num, b))
@@ -49,14 +59,15 @@ def run():
             buffers[ptr] = b
             ptr_history[ptr] = b
             continue
-        free_idx = line.find(FREE)
-        if free_idx >= 0:
-            ptr = line[free_idx + len(FREE) + 1:-1]
+        free = FREE.search(line)
+        if free:
+            ptr = free.group(1)
             b = buffers.get(ptr)
             if b is None:
                 b = ptr_history.get(ptr)
                 print('line %d: free without alloc: %s' % (line_num, b))
             else:
+                b.free_line = line_num
                 del buffers[ptr]
             continue
     if buffers:
-- 
2.43.0


From 2632f0301610af18348ae63f77e4d9b71a63f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 68/69] fix: bundled printf ignored the long size of octal
 conversions

---
 third-party/tinyprintf/tinyprintf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/third-party/tinyprintf/tinyprintf.c b/third-party/tinyprintf/tinyprintf.c
index dfb62f7..f60a1bd 100644
--- a/third-party/tinyprintf/tinyprintf.c
+++ b/third-party/tinyprintf/tinyprintf.c
@@ -406,7 +406,17 @@ void tfp_format(void *putp, putcf putf, const char *fmt, va_list va)
                 break;
             case 'o':
                 p.base = 8;
-                ui2a(va_arg(va, unsigned int), &p);
+#ifdef PRINTF_LONG_SUPPORT
+#ifdef PRINTF_LONG_LONG_SUPPORT
+                if (2 == lng)
+                    ulli2a(va_arg(va, unsigned long long int), &p);
+                else
+#endif
+                  if (1 == lng)
+                    uli2a(va_arg(va, unsigned long int), &p);
+                else
+#endif
+                    ui2a(va_arg(va, unsigned int), &p);
                 putchw(putp, putf, &p);
                 break;
             case 'c':
-- 
2.43.0


From 60d03dd362e6f1f936049ee2647922ee98666dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 69/69] fix: bundled printf ignored the field width of
 characters

---
 third-party/tinyprintf/tinyprintf.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/third-party/tinyprintf/tinyprintf.c b/third-party/tinyprintf/tinyprintf.c
index f60a1bd..3ae885d 100644
--- a/third-party/tinyprintf/tinyprintf.c
+++ b/third-party/tinyprintf/tinyprintf.c
@@ -419,9 +419,21 @@ void tfp_format(void *putp, putcf putf, const char *fmt, va_list va)
                     ui2a(va_arg(va, unsigned int), &p);
                 putchw(putp, putf, &p);
                 break;
-            case 'c':
+            case 'c': {
+                unsigned int n = p.width;
+                if (!p.align_left) {
+                    while (n > 1) {
+                        putf(putp, ' ');
+                        --n;
+                    }
+                }
                 putf(putp, (char)(va_arg(va, int)));
+                while (n > 1) {
+                    putf(putp, ' ');
+                    --n;
+                }
                 break;
+            }
             case 's':
                 p.bf = va_arg(va, char *);
                 putchw(putp, putf, &p);
-- 
2.43.0

