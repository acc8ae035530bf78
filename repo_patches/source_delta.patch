From e6871f2bd3fb6b9c21a403638dc5af5e65c14593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 01/33] fix: rank_many must answer for values beyond the last
 container

---
 src/roaring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 2363afa..e4e3930 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2628,6 +2628,10 @@ void roaring_bitmap_rank_many(const roaring_bitmap_t *bm, const uint32_t *begin,
             iter++;
         }
     }
+    // values beyond the last container
+    for (; iter != end; iter++) {
+        *(ans++) = size;
+    }
 }
 
 /**
-- 
2.43.0


From 5d0563e0267e3d66889e1d7a87fdeb01b2f73c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 02/33] fix: from_range with a large step must not wrap around
 2^32

---
 src/roaring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index e4e3930..3a5c740 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -224,8 +224,8 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
     if (step >= (1 << 16)) {
-        for (uint32_t value = (uint32_t)min; value < max; value += step) {
-            roaring_bitmap_add(answer, value);
+        for (uint64_t value = min; value < max; value += step) {
+            roaring_bitmap_add(answer, (uint32_t)value);
         }
         return answer;
     }
-- 
2.43.0


From e174c679c1d81240b3a40a919d2472f0c6bc65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 03/33] fix: intersect_with_range must not truncate the start
 of the range

---
 src/roaring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 3a5c740..015ffee 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2756,6 +2756,10 @@ bool roaring_bitmap_intersect_with_range(const roaring_bitmap_t *bm, uint64_t x,
         // Empty range.
         return false;
     }
+    if (x > UINT32_MAX) {
+        // No values that large.
+        return false;
+    }
     roaring_uint32_iterator_t it;
     roaring_iterator_init(bm, &it);
     if (!roaring_uint32_iterator_move_equalorlarger(&it, (uint32_t)x)) {
-- 
2.43.0


From b628f9090826dc866f45df60178f7c7ba45211b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 04/33] fix: 64-bit range bounds must be clipped to 2^32, not
 truncated

---
 include/roaring/roaring.h | 10 ++++++++--
 src/roaring.c             | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/roaring/roaring.h b/include/roaring/roaring.h
index a45b1da..35e532b 100644
--- a/include/roaring/roaring.h
+++ b/include/roaring/roaring.h
@@ -401,9 +401,12 @@ void roaring_bitmap_add_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_add_range(roaring_bitmap_t *r, uint64_t min,
                                      uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max <= min || min > UINT32_MAX) {
         return;
     }
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_add_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
 }
 
@@ -423,9 +426,12 @@ void roaring_bitmap_remove_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_remove_range(roaring_bitmap_t *r, uint64_t min,
                                         uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max <= min || min > UINT32_MAX) {
         return;
     }
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_remove_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
 }
 
diff --git a/src/roaring.c b/src/roaring.c
index 015ffee..dd7f019 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1331,9 +1331,12 @@ uint64_t roaring_bitmap_get_cardinality(const roaring_bitmap_t *r) {
 uint64_t roaring_bitmap_range_cardinality(const roaring_bitmap_t *r,
                                           uint64_t range_start,
                                           uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > UINT32_MAX) {
         return 0;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_range_cardinality_closed(r, (uint32_t)range_start,
                                                    (uint32_t)(range_end - 1));
 }
@@ -2013,9 +2016,12 @@ static void inplace_fully_flip_container(roaring_array_t *x1_arr, uint16_t hb) {
 roaring_bitmap_t *roaring_bitmap_flip(const roaring_bitmap_t *x1,
                                       uint64_t range_start,
                                       uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > UINT32_MAX) {
         return roaring_bitmap_copy(x1);
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_flip_closed(x1, (uint32_t)range_start,
                                       (uint32_t)(range_end - 1));
 }
@@ -2074,9 +2080,12 @@ roaring_bitmap_t *roaring_bitmap_flip_closed(const roaring_bitmap_t *x1,
 
 void roaring_bitmap_flip_inplace(roaring_bitmap_t *x1, uint64_t range_start,
                                  uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > UINT32_MAX) {
         return;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_flip_inplace_closed(x1, (uint32_t)range_start,
                                        (uint32_t)(range_end - 1));
 }
@@ -2857,9 +2866,12 @@ bool roaring_bitmap_contains(const roaring_bitmap_t *r, uint32_t val) {
  */
 bool roaring_bitmap_contains_range(const roaring_bitmap_t *r,
                                    uint64_t range_start, uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > UINT32_MAX) {
         return true;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_contains_range_closed(r, (uint32_t)range_start,
                                                 (uint32_t)(range_end - 1));
 }
-- 
2.43.0


From 7167a5a2d6cfa2a03119dc0a5077ee2d3c110878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 05/33] fix: range_uint32_array must not overwrite the typecode
 of shared containers

---
 src/roaring_array.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e3bc6ce..6e0c32e 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -447,9 +447,10 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     size_t cur_len = 0;
 
     for (int i = 0; i < ra->size; ++i) {
+        uint8_t typecode = ra->typecodes[i];
         const container_t *c =
-            container_unwrap_shared(ra->containers[i], &ra->typecodes[i]);
-        switch (ra->typecodes[i]) {
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE:
                 t_limit = (const_CAST_bitset(c))->cardinality;
                 break;
@@ -487,20 +488,20 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
                 roaring_free(t_ans);
                 t_ans = append_ans;
             }
-            switch (ra->typecodes[i]) {
+            switch (typecode) {
                 case BITSET_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_bitset(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case ARRAY_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_array(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case RUN_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_run(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
             }
-- 
2.43.0


From 3d5f81135f0da9bd0e8d5e9d9ab53ebe30ecd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 06/33] fix: range_uint32_array must release its buffer with
 roaring_free

---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 6e0c32e..75aae65 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -512,7 +512,7 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     }
     if (t_ans != NULL) {
         memcpy(ans, t_ans + first_skip, limit * sizeof(uint32_t));
-        free(t_ans);
+        roaring_free(t_ans);
     }
     return true;
 }
-- 
2.43.0


From 4e1c28adb25ec7c8243adf6badb2c0c277d809c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 07/33] fix: range_uint32_array must not write past the values
 it found

---
 src/roaring_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 75aae65..566e678 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -511,7 +511,9 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
         if (dtr - first_skip >= limit) break;
     }
     if (t_ans != NULL) {
-        memcpy(ans, t_ans + first_skip, limit * sizeof(uint32_t));
+        size_t count = dtr - first_skip;  // may be less than limit
+        if (count > limit) count = limit;
+        memcpy(ans, t_ans + first_skip, count * sizeof(uint32_t));
         roaring_free(t_ans);
     }
     return true;
-- 
2.43.0


From ac986fbe901f7a61a86b32cfd669f48bf508b8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 08/33] fix: remove_many must not modify containers shared with
 a copy

---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index dd7f019..e3a5445 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -673,6 +673,8 @@ void roaring_bitmap_remove_many(roaring_bitmap_t *r, size_t n_args,
             pos = ra_get_index(&r->high_low_container, key);
         }
         if (pos >= 0) {
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)pos);
             uint8_t new_typecode;
             container_t *new_container;
             new_container = container_remove(
-- 
2.43.0


From 9fd364ae3477cd54c613ea0f35c0dc33e4066787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 09/33] fix: roaring64 remove_bulk must forget a container it
 removed

---
 src/roaring64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index de1009e..0817590 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -755,12 +755,15 @@ void roaring64_bitmap_remove_bulk(roaring64_bitmap_t *r,
             bool erased = art_erase(art, high48, (art_val_t *)&leaf);
             assert(erased);
             remove_container(r, leaf);
+            context->leaf = NULL;
         }
     } else {
         // We're not positioned anywhere yet or the high bits of the key
         // differ.
         leaf_t *leaf = (leaf_t *)art_find(art, high48);
-        containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
+        if (containerptr_roaring64_bitmap_remove(r, high48, low16, leaf)) {
+            leaf = NULL;
+        }
         context->leaf = leaf;
         memcpy(context->high_bytes, high48, ART_KEY_BYTES);
     }
-- 
2.43.0


From 59c5e7b7af57eda507283082e1f4fb2990224fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 10/33] fix: overwrite must not keep freed containers when it
 fails

---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 566e678..cd9eb59 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -126,8 +126,8 @@ void ra_init(roaring_array_t *new_ra) {
 bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
                   bool copy_on_write) {
     ra_clear_containers(dest);  // we are going to overwrite them
+    dest->size = 0;             // <--- This is important.
     if (source->size == 0) {    // Note: can't call memcpy(NULL), even w/size
-        dest->size = 0;         // <--- This is important.
         return true;            // output was just cleared, so they match
     }
     if (dest->allocation_size < source->size) {
-- 
2.43.0


From 899a5da1050cb88889c1e37b8a0b0ab7beb4edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 11/33] fix: frozen serialization must look into shared
 containers

---
 src/roaring.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index e3a5445..d4d6843 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2967,19 +2967,21 @@ size_t roaring_bitmap_frozen_size_in_bytes(const roaring_bitmap_t *rb) {
     const roaring_array_t *ra = &rb->high_low_container;
     size_t num_bytes = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 num_bytes += BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 num_bytes += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 num_bytes += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3010,20 +3012,22 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
     size_t run_zone_size = 0;
     size_t array_zone_size = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 bitset_zone_size +=
                     BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 run_zone_size += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 array_zone_size += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3042,10 +3046,12 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
 
     for (int32_t i = 0; i < ra->size; i++) {
         uint16_t count;
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
-                const bitset_container_t *bc =
-                    const_CAST_bitset(ra->containers[i]);
+                const bitset_container_t *bc = const_CAST_bitset(c);
                 memcpy(bitset_zone, bc->words,
                        BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t));
                 bitset_zone += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -3059,7 +3065,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 size_t num_bytes = rc->n_runs * sizeof(rle16_t);
                 memcpy(run_zone, rc->runs, num_bytes);
                 run_zone += rc->n_runs;
@@ -3067,8 +3073,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 size_t num_bytes = ac->cardinality * sizeof(uint16_t);
                 memcpy(array_zone, ac->array, num_bytes);
                 array_zone += ac->cardinality;
@@ -3079,9 +3084,9 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 roaring_unreachable;
         }
         memcpy(&count_zone[i], &count, 2);
+        typecode_zone[i] = typecode;
     }
     memcpy(key_zone, ra->keys, ra->size * sizeof(uint16_t));
-    memcpy(typecode_zone, ra->typecodes, ra->size * sizeof(uint8_t));
     uint32_t header = ((uint32_t)ra->size << 15) | FROZEN_COOKIE;
     memcpy(header_zone, &header, 4);
 }
-- 
2.43.0


From e8c7d47fea5ce7acece4b6b5da8d4f3fb5a3b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 12/33] fix: a shared container must be copied before its
 reference is dropped

---
 src/containers/containers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/containers/containers.c b/src/containers/containers.c
index eb5a346..0ab2bf5 100644
--- a/src/containers/containers.c
+++ b/src/containers/containers.c
@@ -229,12 +229,17 @@ container_t *shared_container_extract_copy(shared_container_t *sc,
     assert(sc->typecode != SHARED_CONTAINER_TYPE);
     *typecode = sc->typecode;
     container_t *answer;
-    if (croaring_refcount_dec(&sc->counter)) {
+    if (croaring_refcount_get(&sc->counter) == 1 &&
+        croaring_refcount_dec(&sc->counter)) {
+        // this was the only reference
         answer = sc->container;
         sc->container = NULL;  // paranoid
         roaring_free(sc);
     } else {
+        // Keep the reference while copying: another thread may be dropping
+        // the other ones.
         answer = container_clone(sc->container, *typecode);
+        shared_container_free(sc);
     }
     assert(*typecode != SHARED_CONTAINER_TYPE);
     return answer;
-- 
2.43.0


From 54d1a2f6f866ec06250f85b984dbed258859229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 13/33] fix: reference counting without atomics must test the
 counter, not its address

---
 include/roaring/portability.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roaring/portability.h b/include/roaring/portability.h
index 03e741b..2d5da3b 100644
--- a/include/roaring/portability.h
+++ b/include/roaring/portability.h
@@ -559,7 +559,7 @@ static inline void croaring_refcount_inc(croaring_refcount_t *val) {
 static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
     assert(*val > 0);
     *val -= 1;
-    return val == 0;
+    return *val == 0;
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-- 
2.43.0


From 7a81876cf2588b22e812c6512f45a18782314f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 14/33] fix: Roaring::end() must belong to the bitmap it is
 called on

---
 cpp/roaring.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 8a3b8b6..5273bb6 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -911,7 +911,7 @@ class Roaring {
      * A bogus iterator that can be used together with begin()
      * for constructions such as for (auto i = b.begin(); * i!=b.end(); ++i) {}
      */
-    const_iterator &end() const;
+    const_iterator end() const;
 
     roaring_bitmap_t roaring;
 };
@@ -1021,9 +1021,8 @@ inline RoaringSetBitBiDirectionalIterator Roaring::begin() const {
     return RoaringSetBitBiDirectionalIterator(*this);
 }
 
-inline RoaringSetBitBiDirectionalIterator &Roaring::end() const {
-    static RoaringSetBitBiDirectionalIterator e(*this, true);
-    return e;
+inline RoaringSetBitBiDirectionalIterator Roaring::end() const {
+    return RoaringSetBitBiDirectionalIterator(*this, true);
 }
 
 }  // namespace roaring
-- 
2.43.0


From 240bf7249f3f438102bac31d9ab22dfcdf13ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 15/33] fix: move_from_roaring32 must not adopt containers
 shared with a copy

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 0817590..e9934d9 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -287,6 +287,8 @@ static void move_from_roaring32_offset(roaring64_bitmap_t *dst,
     uint32_t r32_size = ra_get_size(&src->high_low_container);
     for (uint32_t i = 0; i < r32_size; ++i) {
         uint16_t key = ra_get_key_at_index(&src->high_low_container, i);
+        // 64-bit bitmaps do not know shared containers
+        ra_unshare_container_at_index(&src->high_low_container, (uint16_t)i);
         uint8_t typecode;
         container_t *container = ra_get_container_at_index(
             &src->high_low_container, (uint16_t)i, &typecode);
-- 
2.43.0


From 6f687134bb37057b7e2c53873f6c48ea0d2f5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 16/33] fix: add_bulk must unshare a container found by
 contains_bulk

---
 src/roaring.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index d4d6843..6be6145 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -112,6 +112,14 @@ static inline void add_bulk_impl(roaring_bitmap_t *r,
         context->idx = idx;
         context->key = key;
     } else {
+        if (context->typecode == SHARED_CONTAINER_TYPE) {
+            // found by roaring_bitmap_contains_bulk
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)context->idx);
+            context->container = ra_get_container_at_index(
+                &r->high_low_container, (uint16_t)context->idx,
+                &context->typecode);
+        }
         // no need to seek the container, it is at hand
         // because we already have the container at hand, we can do the
         // insertion directly, bypassing the roaring_bitmap_add call
-- 
2.43.0


From 1a1056e32feef959231874e6ac5109ffd79d5f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 17/33] fix: copy-assigning a Roaring to itself must keep its
 values

---
 cpp/roaring.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 5273bb6..7c242a5 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -152,6 +152,7 @@ class Roaring {
      * It may throw std::runtime_error if there is insufficient memory.
      */
     Roaring &operator=(const Roaring &r) {
+        if (this == &r) return *this;
         if (!api::roaring_bitmap_overwrite(&roaring, &r.roaring)) {
             ROARING_TERMINATE("failed memory alloc in assignment");
         }
-- 
2.43.0


From ab1998be0d33346c459f8563e0b109ce1cdec529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 18/33] fix: Roaring64Map iterators must skip empty inner
 bitmaps

---
 cpp/roaring64map.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 7de53cb..9850e4f 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1797,9 +1797,11 @@ class Roaring64MapSetBitBiDirectionalIterator {
         if (map_iter != p->cend()) {
             roaring_iterator_init(&map_iter->second.roaring, &i);
             if (map_iter->first == Roaring64Map::highBytes(x)) {
-                if (roaring_uint32_iterator_move_equalorlarger(
-                        &i, Roaring64Map::lowBytes(x)))
-                    return true;
+                roaring_uint32_iterator_move_equalorlarger(
+                    &i, Roaring64Map::lowBytes(x));
+            }
+            // an inner bitmap may have nothing (left) to offer
+            while (!i.has_value) {
                 ++map_iter;
                 if (map_iter == p->cend()) return false;
                 roaring_iterator_init(&map_iter->second.roaring, &i);
@@ -1835,7 +1837,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
         if (map_iter == p->cend()) {
             --map_iter;
             roaring_iterator_init_last(&map_iter->second.roaring, &i);
-            return orig;
+            if (i.has_value) return orig;
         }
 
         roaring_uint32_iterator_previous(&i);
-- 
2.43.0


From cda162353faa017473d9ce97a52b6c0377f701be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 19/33] fix: comparing an exhausted Roaring64Map iterator must
 not dereference it

---
 cpp/roaring64map.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 9850e4f..8fd4047 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1851,13 +1851,13 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     bool operator==(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return true;
-        if (o.map_iter == o.p->cend()) return false;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return false;
         return **this == *o;
     }
 
     bool operator!=(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return false;
-        if (o.map_iter == o.p->cend()) return true;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return true;
         return **this != *o;
     }
 
-- 
2.43.0


From fd2a8c667901b67fc71a2c52ae36426b2c8431e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 20/33] fix: Roaring64Map readers must advance by the bytes a
 bitmap occupied

---
 cpp/roaring64map.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 8fd4047..9f116b5 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1177,7 +1177,9 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::read(buf, portable);
             // forward buffer past the last Roaring Bitmap
-            buf += read_var.getSizeInBytes(portable);
+            buf += portable ? api::roaring_bitmap_portable_deserialize_size(
+                                  buf, SIZE_MAX)
+                            : read_var.getSizeInBytes(false);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
@@ -1212,7 +1214,9 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
             // forward buffer past the last Roaring Bitmap
-            size_t tz = read_var.getSizeInBytes(true);
+            // (what was read may have a shorter or longer serialization itself)
+            size_t tz =
+                api::roaring_bitmap_portable_deserialize_size(buf, maxbytes);
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
@@ -1289,7 +1293,8 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::portableDeserializeFrozen(buf);
             // forward buffer past the last Roaring bitmap
-            buf += read_var.getSizeInBytes(true);
+            buf +=
+                api::roaring_bitmap_portable_deserialize_size(buf, SIZE_MAX);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
-- 
2.43.0


From fe7f5b2fb7ba8b614a7c258e3258c7ee6ecd59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 21/33] fix: Roaring64Map::read must skip exactly the native
 bytes of each bitmap

---
 cpp/roaring64map.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 9f116b5..4e2d7aa 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1177,9 +1177,17 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::read(buf, portable);
             // forward buffer past the last Roaring Bitmap
-            buf += portable ? api::roaring_bitmap_portable_deserialize_size(
-                                  buf, SIZE_MAX)
-                            : read_var.getSizeInBytes(false);
+            // (what was read may have a shorter or longer serialization itself)
+            if (portable) {
+                buf += api::roaring_bitmap_portable_deserialize_size(buf,
+                                                                     SIZE_MAX);
+            } else if (buf[0] == 1) {  // a plain list of values
+                buf += 1 + sizeof(uint32_t) +
+                       size_t(read_var.cardinality()) * sizeof(uint32_t);
+            } else {
+                buf += 1 + api::roaring_bitmap_portable_deserialize_size(
+                               buf + 1, SIZE_MAX);
+            }
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
-- 
2.43.0


From 4cedeb84a93df8ad6897eb6ef0af22d2083c87ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 22/33] fix: roaring64 contains_range must notice that the last
 container is missing

---
 src/roaring64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index e9934d9..07dc7bc 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -542,9 +542,9 @@ bool roaring64_bitmap_contains_range(const roaring64_bitmap_t *r, uint64_t min,
     while (it.value != NULL) {
         uint64_t current_high48_bits = combine_key(it.key, 0);
         if (current_high48_bits > max_high48_bits) {
-            // We've passed the end of the range with all containers containing
-            // the range.
-            return true;
+            // We've passed the end of the range; all containers up to the
+            // previous one contain their part of it.
+            return prev_high48_bits == max_high48_bits;
         }
         if (current_high48_bits - prev_high48_bits > 0x10000) {
             // There is a gap in the iterator that falls in the range.
-- 
2.43.0


From 763ec8c7f111b8b66e6247fcd0d2542404d795e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 23/33] fix: a drained roaring64 iterator must be able to step
 back

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 07dc7bc..8d56d42 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2704,6 +2704,8 @@ uint64_t roaring64_iterator_read(roaring64_iterator_t *it, uint64_t *buf,
         it->has_value = art_iterator_next(&it->art_it);
         if (it->has_value) {
             roaring64_iterator_init_at_leaf_first(it);
+        } else {
+            it->saturated_forward = true;
         }
     }
     return consumed;
-- 
2.43.0


From 10a4429b8b6dcf95fa48e99c11522d4999b2c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 24/33] fix: bitset_trim of a bitset without set bits must not
 free it

---
 src/bitset.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 96fee90..6413e42 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -473,6 +473,15 @@ bool bitset_trim(bitset_t *bitset) {
             break;
     }
     if (bitset->capacity == newsize) return true;  // nothing to do
+    if (newsize == 0) {
+        // reallocating to a size of zero would free the array and look like a
+        // failure
+        roaring_free(bitset->array);
+        bitset->array = NULL;
+        bitset->capacity = 0;
+        bitset->arraysize = 0;
+        return true;
+    }
     uint64_t *newarray;
     if ((newarray = (uint64_t *)roaring_realloc(
              bitset->array, sizeof(uint64_t) * newsize)) == NULL) {
-- 
2.43.0


From a1f5be93f52fa9a95b6106fa86d1d25ac1335df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 25/33] fix: bitset_shift_left of an empty bitset must not read
 before its array

---
 src/bitset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 6413e42..0467c57 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -90,6 +90,9 @@ void bitset_shift_left(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (as == 0) {
+        return;  // nothing to shift
+    }
     if (inword_shift == 0) {
         bitset_resize(bitset, as + extra_words, false);
         // could be done with a memmove
-- 
2.43.0


From 038aa364a94d189d9d31bf7f30946a32e63e514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 26/33] fix: bitset_shift_right beyond the size must leave an
 empty bitset

---
 src/bitset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 0467c57..ce76ce3 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -119,6 +119,10 @@ void bitset_shift_right(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (extra_words >= as) {
+        bitset_resize(bitset, 0, false);  // every bit is shifted out
+        return;
+    }
     if (inword_shift == 0) {
         // could be done with a memmove
         for (size_t i = 0; i < as - extra_words; i++) {
-- 
2.43.0


From 0f8861eef139bb35419851bb058561e0f1e8d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 27/33] fix: art_iterator_lower_bound beyond the end must
 restart at the tree's root

The iterator's first frame does not always hold the root: a search that
ended beyond a tree whose root is a leaf never set it, and erasing the
last key through the iterator leaves a reference to the freed leaf.
---
 src/art/art.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/art/art.c b/src/art/art.c
index 8e54d43..b59cc6b 100644
--- a/src/art/art.c
+++ b/src/art/art.c
@@ -2085,7 +2085,7 @@ bool art_iterator_lower_bound(art_iterator_t *iterator,
         // have a valid key. Start from the root.
         iterator->frame = 0;
         iterator->depth = 0;
-        art_ref_t root = art_iterator_ref(iterator);
+        art_ref_t root = iterator->art->root;
         if (root == CROARING_ART_NULL_REF) {
             return false;
         }
-- 
2.43.0


From 15dcf076d0e6726d77e91c67052c57d4209e21d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 28/33] fix: deserializing a run container must report a failed
 allocation

run_container_read ignored that growing the container failed and copied the
runs to NULL. Allocate the needed capacity up front, where failure is checked.
---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index cd9eb59..64d24ae 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -845,7 +845,7 @@ bool ra_portable_deserialize(roaring_array_t *answer, const char *buf,
             }
             // it is now safe to read
 
-            run_container_t *c = run_container_create();
+            run_container_t *c = run_container_create_given_capacity(n_runs);
             if (c == NULL) {  // memory allocation failure
                 // Failed to allocate memory for a run container.
                 ra_clear(answer);  // we need to clear the containers already
-- 
2.43.0


From d7546281fcdebcd640be10a01fed5f42bbe4ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 29/33] fix: a failed copy-on-write copy must not destroy the
 source

When sharing a container failed, ra_overwrite stored NULL in the source (losing
its container) and reported success.
---
 src/roaring_array.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 64d24ae..af97a24 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -140,8 +140,16 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
     // we go through the containers, turning them into shared containers...
     if (copy_on_write) {
         for (int32_t i = 0; i < dest->size; ++i) {
-            source->containers[i] = get_copy_of_container(
+            container_t *shared = get_copy_of_container(
                 source->containers[i], &source->typecodes[i], copy_on_write);
+            if (shared == NULL) {
+                for (int32_t j = 0; j < i; j++) {
+                    container_free(source->containers[j], source->typecodes[j]);
+                }
+                ra_clear_without_containers(dest);
+                return false;
+            }
+            source->containers[i] = shared;
         }
         // we do a shallow copy to the other bitmap
         memcpy(dest->containers, source->containers,
-- 
2.43.0


From 2f75ede217d1e4d63afe0a84226f084a3736e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 30/33] fix: roaring64 create, copy and readers must report
 failed allocations

roaring64_bitmap_create dereferenced NULL when its allocation was refused, and
copy, portable_deserialize_safe and frozen_view used its result unchecked.
---
 src/roaring64.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 8d56d42..c6e72cf 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -225,6 +225,9 @@ static inline roaring64_iterator_t *roaring64_iterator_init_at(
 roaring64_bitmap_t *roaring64_bitmap_create(void) {
     roaring64_bitmap_t *r =
         (roaring64_bitmap_t *)roaring_malloc(sizeof(roaring64_bitmap_t));
+    if (r == NULL) {
+        return NULL;
+    }
     art_init_cleared(&r->art);
     r->flags = 0;
     r->capacity = 0;
@@ -258,6 +261,9 @@ void roaring64_bitmap_free(roaring64_bitmap_t *r) {
 
 roaring64_bitmap_t *roaring64_bitmap_copy(const roaring64_bitmap_t *r) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     art_iterator_t it = art_init_iterator((art_t *)&r->art, /*first=*/true);
     while (it.value != NULL) {
@@ -265,6 +271,10 @@ roaring64_bitmap_t *roaring64_bitmap_copy(const roaring64_bitmap_t *r) {
         uint8_t result_typecode = get_typecode(leaf);
         container_t *result_container = get_copy_of_container(
             get_container(r, leaf), &result_typecode, /*copy_on_write=*/false);
+        if (result_container == NULL) {
+            roaring64_bitmap_free(result);
+            return NULL;
+        }
         leaf_t result_leaf =
             add_container(result, result_container, result_typecode);
         art_insert(&result->art, it.key, (art_val_t)result_leaf);
@@ -2117,6 +2127,9 @@ roaring64_bitmap_t *roaring64_bitmap_portable_deserialize_safe(
     }
 
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
     // Iterate through buckets ordered by increasing keys.
     int64_t previous_high32 = -1;
     for (uint64_t bucket = 0; bucket < buckets; ++bucket) {
@@ -2389,6 +2402,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case BITSET_CONTAINER_TYPE: {
             bitset_container_t *c = (bitset_container_t *)roaring_malloc(
                 sizeof(bitset_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->cardinality = elem_count;
             c->words = (uint64_t *)*bitsets;
             *bitsets += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -2397,6 +2413,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case ARRAY_CONTAINER_TYPE: {
             array_container_t *c =
                 (array_container_t *)roaring_malloc(sizeof(array_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->cardinality = elem_count;
             c->capacity = elem_count;
             c->array = (uint16_t *)*arrays;
@@ -2406,6 +2425,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case RUN_CONTAINER_TYPE: {
             run_container_t *c =
                 (run_container_t *)roaring_malloc(sizeof(run_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->n_runs = elem_count;
             c->capacity = elem_count;
             c->runs = (rle16_t *)*runs;
@@ -2430,6 +2452,9 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     }
 
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
 
     // Flags.
     if (maxbytes < sizeof(r->flags)) {
@@ -2452,6 +2477,10 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
 
     r->containers =
         (container_t *)roaring_malloc(r->capacity * sizeof(container_t *));
+    if (r->containers == NULL && r->capacity > 0) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
 
     // Container element counts.
     if (maxbytes < r->capacity * sizeof(uint16_t)) {
@@ -2520,6 +2549,18 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
         uint64_t index = get_index(leaf);
         r->containers[index] = container_frozen_view(typecode, elem_count,
                                                      &bitsets, &arrays, &runs);
+        if (r->containers[index] == NULL) {
+            // Free the containers made so far: those before this one in ART
+            // iteration order.
+            art_iterator_t done = art_init_iterator(&r->art, /*first=*/true);
+            for (size_t j = 0; j < i; ++j) {
+                roaring_free(get_container(r, (leaf_t)*done.value));
+                art_iterator_next(&done);
+            }
+            art_init_cleared(&r->art);
+            roaring64_bitmap_free(r);
+            return NULL;
+        }
 
         art_iterator_next(&it);
     }
-- 
2.43.0


From 26e53c21e316ccecb7dd132ff02318c5d27ad829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 31/33] fix: roaring64 frozen_view of a truncated image must
 not walk its index

The error paths freed the bitmap through an ART that was only partially set up,
or whose containers did not exist yet, crashing instead of returning NULL. The
bytes skipped to align the ART were not counted either.
---
 src/roaring64.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index c6e72cf..6898f28 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2508,9 +2508,16 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     maxbytes -= sizeof(uint64_t);
 
     // ART (8 byte aligned).
+    const char *before_art = buf;
     buf = CROARING_ALIGN_BUF(buf, 8);
+    if (maxbytes < (size_t)(buf - before_art)) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
+    maxbytes -= buf - before_art;
     size_t art_size = art_frozen_view(buf, maxbytes, &r->art);
     if (art_size == 0) {
+        art_init_cleared(&r->art);  // possibly partial
         roaring64_bitmap_free(r);
         return NULL;
     }
@@ -2529,6 +2536,7 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     const uint16_t *arrays = (const uint16_t *)buf;
     buf += total_sizes[ARRAY_CONTAINER_TYPE];
     if (maxbytes < (uint64_t)(buf - before_containers)) {
+        art_init_cleared(&r->art);  // no container exists yet
         roaring64_bitmap_free(r);
         return NULL;
     }
-- 
2.43.0


From ef8c575b0b163853064424a128408812d65ef2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 32/33] fix: art_insert must not depend on an unchecked
 temporary allocation

Splitting a node copied its prefix into a malloc'ed block without checking that
the allocation succeeded. The prefix has at most ART_KEY_BYTES bytes.
---
 src/art/art.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/art/art.c b/src/art/art.c
index b59cc6b..8675e17 100644
--- a/src/art/art.c
+++ b/src/art/art.c
@@ -1384,12 +1384,10 @@ static art_ref_t art_insert_at(art_t *art, art_ref_t ref,
         // prefix.
         // We create a copy of the node's prefix as the creation of a new
         // node may invalidate the prefix pointer.
-        art_key_chunk_t *prefix_copy = (art_key_chunk_t *)roaring_malloc(
-            common_prefix * sizeof(art_key_chunk_t));
+        art_key_chunk_t prefix_copy[ART_KEY_BYTES];
         memcpy(prefix_copy, inner_node->prefix,
                common_prefix * sizeof(art_key_chunk_t));
         art_node4_t *node4 = art_node4_create(art, prefix_copy, common_prefix);
-        roaring_free(prefix_copy);
 
         // Deref as a new node was created.
         inner_node = (art_inner_node_t *)art_deref(art, ref);
-- 
2.43.0


From aa2f7d435af712f7914584bc23ee59f07d645f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 33/33] fix: shrink_to_fit leaves containers shared by
 copy-on-write alone

It reallocated the storage of a shared container in place, while copies in
other threads may be reading it.
---
 include/roaring/containers/containers.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/roaring/containers/containers.h b/include/roaring/containers/containers.h
index 30b0cde..d985789 100644
--- a/include/roaring/containers/containers.h
+++ b/include/roaring/containers/containers.h
@@ -265,7 +265,10 @@ static inline bool container_is_full(const container_t *c, uint8_t typecode) {
 }
 
 static inline int container_shrink_to_fit(container_t *c, uint8_t type) {
-    c = container_mutable_unwrap_shared(c, &type);
+    if (type == SHARED_CONTAINER_TYPE) {
+        // Other bitmaps, maybe in other threads, may be reading its storage.
+        return 0;
+    }
     switch (type) {
         case BITSET_CONTAINER_TYPE:
             return 0;  // no shrinking possible
-- 
2.43.0

