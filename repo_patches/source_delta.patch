From 092cb79f11d0680036db52cb39dbdc0b1dafde4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 01/35] fix: keep the vector capacity when a reallocation fails

---
 src/Vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index f92c9de..08d47ea 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,9 +111,9 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
-    vector->capacity = capacity;
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
-        vector->element_size, vector->capacity));
+        vector->element_size, capacity));
+    vector->capacity = capacity;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From f8ec1a6206149f2e33e3ff2895d992e16fcc9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 02/35] fix: restore the elements behind a vector element whose
 construction failed

---
 src/Vector.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 08d47ea..c8d6635 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -520,7 +520,18 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     *element = ZYCORE_VECTOR_OFFSET(vector, index);
     if (constructor)
     {
-        ZYAN_CHECK(constructor(*element));
+        const ZyanStatus status = constructor(*element);
+        if (!ZYAN_SUCCESS(status))
+        {
+            // Close the gap again
+            if (index < vector->size)
+            {
+                ++vector->size;
+                ZyanVectorShiftLeft(vector, index, 1);
+                --vector->size;
+            }
+            return status;
+        }
     }
 
     ++vector->size;
-- 
2.43.0


From b66dcad487e2ed3cb33af4b71dc027a6401d3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 03/35] fix: do not keep destroyed vector elements when
 releasing storage fails

---
 src/Vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Vector.c b/src/Vector.c
index c8d6635..437decc 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -777,6 +777,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         {
             vector->destructor(ZYCORE_VECTOR_OFFSET(vector, i));
         }
+        // The elements are gone, even if releasing the memory fails
+        vector->size = size;
     }
 
     if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity) ||
-- 
2.43.0


From 6f95ce968ea301c2c3b23468efc8f56dac5587f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 04/35] fix: do not wrap around when calculating the vector
 capacity for huge sizes

---
 src/Vector.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 437decc..d003dcd 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -73,6 +73,30 @@
 /* Helper functions                                                                               */
 /* ---------------------------------------------------------------------------------------------- */
 
+/**
+ * Returns the capacity to request for the given amount of elements.
+ *
+ * @param   vector  A pointer to the `ZyanVector` instance.
+ * @param   size    The amount of elements that should be stored in the vector.
+ * @param   count   The amount of elements that should be stored in addition to `size`.
+ *
+ * @return  The product of the total amount of elements and the growth factor. If the value is not
+ *          representable, the highest possible capacity (which can never be allocated) is returned.
+ */
+static ZyanUSize ZyanVectorCalcCapacity(const ZyanVector* vector, ZyanUSize size, ZyanUSize count)
+{
+    ZYAN_ASSERT(vector);
+    ZYAN_ASSERT(vector->growth_factor >= 1);
+
+    const ZyanUSize max = (ZyanUSize)(-1);
+    if ((count > max - size) || (size + count > max / vector->growth_factor))
+    {
+        return max;
+    }
+
+    return (size + count) * vector->growth_factor;
+}
+
 /**
  * Reallocates the internal buffer of the vector.
  *
@@ -432,7 +456,7 @@ ZyanStatus ZyanVectorPushBack(ZyanVector* vector, const void* element)
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + 1, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + 1) * vector->growth_factor))));
+            ZYAN_MAX(1, ZyanVectorCalcCapacity(vector, vector->size, 1))));
     }
 
     void* const offset = ZYCORE_VECTOR_OFFSET(vector, vector->size);
@@ -463,10 +487,10 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
     ZYAN_ASSERT(vector->element_size);
     ZYAN_ASSERT(vector->data);
 
-    if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + count, vector->capacity))
+    if (count > vector->capacity - vector->size)
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + count) * vector->growth_factor))));
+            ZYAN_MAX(1, ZyanVectorCalcCapacity(vector, vector->size, count))));
     }
 
     if (index < vector->size)
@@ -509,7 +533,7 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + 1, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + 1) * vector->growth_factor))));
+            ZYAN_MAX(1, ZyanVectorCalcCapacity(vector, vector->size, 1))));
     }
 
     if (index < vector->size)
@@ -784,8 +808,7 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
     if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity) ||
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
-        ZYAN_ASSERT(vector->growth_factor >= 1);
-        ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
+        ZYAN_CHECK(ZyanVectorReallocate(vector, ZyanVectorCalcCapacity(vector, size, 0)));
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From f0d77fdf4dde9818e42092774f2f1cd879ab0f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 05/35] fix: reject vector ranges whose end wraps around

---
 src/Vector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index d003dcd..f1f8da0 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -611,7 +611,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index + count > vector->size)
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -692,7 +692,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index + count > vector->size) || (index == vector->size))
+    if ((index >= vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -737,7 +737,7 @@ ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* elemen
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From cc8313214c663d533f33a23dffe4dcc81645ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 06/35] fix: fail default allocations whose total size wraps
 around

---
 src/Allocator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Allocator.c b/src/Allocator.c
index 5fadf64..9953ef1 100644
--- a/src/Allocator.c
+++ b/src/Allocator.c
@@ -47,6 +47,11 @@ static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void**
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     *p = ZYAN_MALLOC(element_size * n);
     if (!*p)
     {
@@ -66,6 +71,11 @@ static ZyanStatus ZyanAllocatorDefaultReallocate(ZyanAllocator* allocator, void*
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     void* const x = ZYAN_REALLOC(*p, element_size * n);
     if (!x)
     {
-- 
2.43.0


From 96b500d6572b369040a257ed94b9415548a7314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 07/35] fix: round up when converting bitset bits to bytes

---
 src/Bitset.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index b1c733d..e1c4500 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -38,16 +38,6 @@
 /* Internal macros                                                                                */
 /* ============================================================================================== */
 
-/**
- * Computes the smallest integer value not less than `x`.
- *
- * @param   x   The value.
- *
- * @return  The smallest integer value not less than `x`.
- */
-#define ZYAN_BITSET_CEIL(x) \
-    (((x) == ((ZyanU32)(x))) ? (ZyanU32)(x) : ((ZyanU32)(x)) + 1)
-
 /**
  * Converts bits to bytes.
  *
@@ -56,7 +46,7 @@
  * @return  The amount of bytes needed to fit `x` bits.
  */
 #define ZYAN_BITSET_BITS_TO_BYTES(x) \
-    ZYAN_BITSET_CEIL((x) / 8)
+    ((x) / 8 + (((x) % 8) ? 1 : 0))
 
 /**
  * Returns the offset of the given bit.
@@ -147,7 +137,7 @@ ZyanStatus ZyanBitsetInitEx(ZyanBitset* bitset, ZyanUSize count, ZyanAllocator*
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
 
     bitset->size = count;
     ZYAN_CHECK(ZyanVectorInitEx(&bitset->bits, sizeof(ZyanU8), bytes, ZYAN_NULL, allocator,
@@ -165,7 +155,7 @@ ZyanStatus ZyanBitsetInitBuffer(ZyanBitset* bitset, ZyanUSize count, void* buffe
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
     if (capacity < bytes)
     {
         return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-- 
2.43.0


From 7bede40339f041a2f21680a6c050324aa11a1f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 08/35] fix: refuse to pop a bit from an empty bitset

---
 src/Bitset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index e1c4500..24c8957 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -417,6 +417,11 @@ ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (!bitset->size)
+    {
+        return ZYAN_STATUS_OUT_OF_RANGE;
+    }
+
     if ((--bitset->size % 8) == 0)
     {
         return ZyanVectorPopBack(&bitset->bits);
-- 
2.43.0


From 24f3238ad6707cda23424625db3d0f309fe6126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 09/35] fix: keep the bitset size when pushing a bit fails

---
 src/Bitset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 24c8957..5bc60b4 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -401,11 +401,12 @@ ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if ((bitset->size++ % 8) == 0)
+    if ((bitset->size % 8) == 0)
     {
         static const ZyanU8 zero = 0;
         ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));
     }
+    ++bitset->size;
 
     return ZyanBitsetAssign(bitset, bitset->size - 1, value);
 }
-- 
2.43.0


From 69ebfe0dc3a92161f4eac7b95b9e77f95516d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 10/35] fix: keep the bitset size when clearing the bitset
 fails

---
 src/Bitset.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 5bc60b4..21db0e5 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -438,8 +438,10 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    ZYAN_CHECK(ZyanVectorClear(&bitset->bits));
     bitset->size = 0;
-    return ZyanVectorClear(&bitset->bits);
+
+    return ZYAN_STATUS_SUCCESS;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From 7c262db22240fa28e2e1c9e6744b115b0aa2c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 11/35] fix: ignore unused bits of the last byte in bitset
 queries

---
 src/Bitset.c | 60 ++++++++++++++++++----------------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 21db0e5..ffb19b6 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -58,6 +58,17 @@
 #define ZYAN_BITSET_BIT_OFFSET(index) \
     (7 - ((index) % 8))
 
+/**
+ * Returns a mask of the bits that are in use in the given byte of a bitset.
+ *
+ * @param   index   The byte index.
+ * @param   size    The size of the bitset in bits.
+ *
+ * @return  A mask of the bits that are in use.
+ */
+#define ZYAN_BITSET_BYTE_MASK(index, size) \
+    ((ZyanU8)(((index) < (size) / 8) ? 0xFF : ~(0xFF >> ((size) % 8))))
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -520,7 +531,7 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         ZyanU8* value;
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
 
-        ZyanU8 popcnt = *value;
+        ZyanU8 popcnt = *value & ZYAN_BITSET_BYTE_MASK(i, bitset->size);
         popcnt = (popcnt & 0x55) + ((popcnt >> 1) & 0x55);
         popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);
         popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);
@@ -528,8 +539,6 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         *count += popcnt;
     }
 
-    *count = ZYAN_MIN(*count, bitset->size);
-
     return ZYAN_STATUS_SUCCESS;
 }
 
@@ -546,19 +555,10 @@ ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
     {
         ZyanU8* value;
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
-        if (i < (size - 1))
-        {
-            if (*value != 0xFF)
-            {
-                return ZYAN_STATUS_FALSE;
-            }
-        } else
+        const ZyanU8 mask = ZYAN_BITSET_BYTE_MASK(i, bitset->size);
+        if ((*value & mask) != mask)
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
-            if ((*value & mask) != mask)
-            {
-                return ZYAN_STATUS_FALSE;
-            }
+            return ZYAN_STATUS_FALSE;
         }
     }
 
@@ -578,19 +578,10 @@ ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
     {
         ZyanU8* value;
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
-        if (i < (size - 1))
+        const ZyanU8 mask = ZYAN_BITSET_BYTE_MASK(i, bitset->size);
+        if ((*value & mask) != 0x00)
         {
-            if (*value != 0x00)
-            {
-                return ZYAN_STATUS_TRUE;
-            }
-        } else
-        {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
-            if ((*value & mask) != 0x00)
-            {
-                return ZYAN_STATUS_TRUE;
-            }
+            return ZYAN_STATUS_TRUE;
         }
     }
 
@@ -610,19 +601,10 @@ ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
     {
         ZyanU8* value;
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
-        if (i < (size - 1))
-        {
-            if (*value != 0x00)
-            {
-                return ZYAN_STATUS_FALSE;
-            }
-        } else
+        const ZyanU8 mask = ZYAN_BITSET_BYTE_MASK(i, bitset->size);
+        if ((*value & mask) != 0x00)
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
-            if ((*value & mask) != 0x00)
-            {
-                return ZYAN_STATUS_FALSE;
-            }
+            return ZYAN_STATUS_FALSE;
         }
     }
 
-- 
2.43.0


From 4fcc2e01cc42463cc79f3705e196bacb419f45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 12/35] fix: check for null bitsets when reserving and
 shrinking

---
 src/Bitset.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index ffb19b6..96eac0c 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -461,11 +461,21 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
 
 ZyanStatus ZyanBitsetReserve(ZyanBitset* bitset, ZyanUSize count)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorReserve(&bitset->bits, ZYAN_BITSET_BITS_TO_BYTES(count));
 }
 
 ZyanStatus ZyanBitsetShrinkToFit(ZyanBitset* bitset)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorShrinkToFit(&bitset->bits);
 }
 
-- 
2.43.0


From c44efeb0f724586f248efdf3e0802caa27aed59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 13/35] fix: do not insert list elements whose construction
 failed

---
 src/List.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index e233da8..062353e 100644
--- a/src/List.c
+++ b/src/List.c
@@ -406,7 +406,12 @@ ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction c
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
@@ -438,7 +443,12 @@ ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
-- 
2.43.0


From 9837dd4a20abc707c0c9662c16f0537e2be07e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 14/35] fix: implement the removal of list nodes

---
 src/List.c | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/List.c b/src/List.c
index 062353e..d62c08a 100644
--- a/src/List.c
+++ b/src/List.c
@@ -535,16 +535,50 @@ ZyanStatus ZyanListPopFront(ZyanList* list)
 
 ZyanStatus ZyanListRemove(ZyanList* list, const ZyanListNode* node)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(node);
-    return ZYAN_STATUS_SUCCESS;
+    return ZyanListRemoveRange(list, node, node);
 }
 
 ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(first);
-    ZYAN_UNUSED(last);
+    if (!list || !first || !last)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    ZyanListNode* node = (ZyanListNode*)first;
+    ZyanListNode* const prev = node->prev;
+    ZyanListNode* const end = last->next;
+
+    // Unlink the range
+    if (prev)
+    {
+        prev->next = end;
+    } else
+    {
+        list->head = end;
+    }
+    if (end)
+    {
+        end->prev = prev;
+    } else
+    {
+        list->tail = prev;
+    }
+
+    while (node != end)
+    {
+        ZyanListNode* const next = node->next;
+
+        if (list->destructor)
+        {
+            list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));
+        }
+        --list->size;
+
+        ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+        node = next;
+    }
+
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 642bb96c76f9a3194d16e44dc7104577bf392a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 15/35] fix: undo a partial list resize when running out of
 memory

---
 src/List.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index d62c08a..5714604 100644
--- a/src/List.c
+++ b/src/List.c
@@ -645,10 +645,30 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
 
     if (size > list->size)
     {
+        const ZyanUSize old_size = list->size;
         ZyanListNode* node;
-        for (ZyanUSize i = list->size; i < size; ++i)
+        for (ZyanUSize i = old_size; i < size; ++i)
         {
-            ZYAN_CHECK(ZyanListAllocateNode(list, &node));
+            const ZyanStatus status = ZyanListAllocateNode(list, &node);
+            if (!ZYAN_SUCCESS(status))
+            {
+                // Remove the elements that have been added by this call
+                while (list->size > old_size)
+                {
+                    node = list->tail;
+                    list->tail = node->prev;
+                    if (list->tail)
+                    {
+                        list->tail->next = ZYAN_NULL;
+                    } else
+                    {
+                        list->head = ZYAN_NULL;
+                    }
+                    --list->size;
+                    ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+                }
+                return status;
+            }
             node->prev = list->tail;
             node->next = ZYAN_NULL;
 
-- 
2.43.0


From 61c7125b5c31cbc23fe7202633aff9d298c28fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 16/35] fix: give a view inside a view the requested length

---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 9dce43f..24500e3 100644
--- a/src/String.c
+++ b/src/String.c
@@ -273,7 +273,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
     }
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
-    view->string.vector.size = count;
+    view->string.vector.size = count + 1;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 966c19e2b3d10717882b78fd113234b3b7114b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 17/35] fix: do not rely on the element size when reading
 characters of a view

---
 src/String.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/String.c b/src/String.c
index 24500e3..14b178d 100644
--- a/src/String.c
+++ b/src/String.c
@@ -346,9 +346,8 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
 
-    const char* chr;
-    ZYAN_CHECK(ZyanVectorGetPointer(&string->string.vector, index, (const void**)&chr));
-    *value = *chr;
+    // Views only provide the data pointer and the size of the vector
+    *value = *((const char*)string->string.vector.data + index);
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From f04d3e50f5fa3d3a096d315c44b36401c1ca9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 18/35] fix: only fold letters in case-insensitive string
 searches

---
 src/String.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/String.c b/src/String.c
index 14b178d..57f8fc3 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,28 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/* ============================================================================================== */
+/* Internal functions                                                                             */
+/* ============================================================================================== */
+
+/* ---------------------------------------------------------------------------------------------- */
+/* Helper functions                                                                               */
+/* ---------------------------------------------------------------------------------------------- */
+
+/**
+ * Converts an uppercase ASCII letter to lowercase.
+ *
+ * @param   c   The character.
+ *
+ * @return  The lowercase letter, or `c`, if the character is not an uppercase ASCII letter.
+ */
+static char ZyanStringFoldCharacter(char c)
+{
+    return ((c >= 'A') && (c <= 'Z')) ? (char)(c | 32) : c;
+}
+
+/* ---------------------------------------------------------------------------------------------- */
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -656,7 +678,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZyanStringFoldCharacter(*s) != ZyanStringFoldCharacter(*b))
         {
             continue;
         }
@@ -675,7 +697,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a++;
             const char c2 = *b++;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZyanStringFoldCharacter(c1) != ZyanStringFoldCharacter(c2))
             {
                 break;
             }
@@ -796,7 +818,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
     for (; s >= (const char*)haystack->string.vector.data; --s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZyanStringFoldCharacter(*s) != ZyanStringFoldCharacter(*b))
         {
             continue;
         }
@@ -815,7 +837,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a--;
             const char c2 = *b--;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZyanStringFoldCharacter(c1) != ZyanStringFoldCharacter(c2))
             {
                 break;
             }
-- 
2.43.0


From a668d424004926e3413572aacce2ac7cfe189614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 19/35] fix: search strings by their length instead of a
 terminator

---
 src/String.c | 80 ++++++++++++++++++++++------------------------------
 1 file changed, 34 insertions(+), 46 deletions(-)

diff --git a/src/String.c b/src/String.c
index 57f8fc3..392e4b6 100644
--- a/src/String.c
+++ b/src/String.c
@@ -605,33 +605,28 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
         return ZYAN_STATUS_FALSE;
     }
 
-    const char* s = (const char*)haystack->string.vector.data + index;
-    const char* b = (const char*)needle->string.vector.data;
-    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
+    const ZyanUSize len = needle->string.vector.size - 1;
+    if (len > count)
     {
-        if (*s != *b)
+        *found_index = -1;
+        return ZYAN_STATUS_FALSE;
+    }
+
+    const char*       s   = (const char*)haystack->string.vector.data + index;
+    const char* const b   = (const char*)needle->string.vector.data;
+    const char* const end = s + (count - len);
+    for (; s <= end; ++s)
+    {
+        ZyanUSize i = 0;
+        while ((i < len) && (s[i] == b[i]))
         {
-            continue;
+            ++i;
         }
-        const char* a = s;
-        for (;;)
+        if (i == len)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
-            {
-                *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
-                return ZYAN_STATUS_TRUE;
-            }
-            if (*a++ != *b++)
-            {
-                break;
-            }
+            *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
+            return ZYAN_STATUS_TRUE;
         }
-        b = (char*)needle->string.vector.data;
     }
 
     *found_index = -1;
@@ -674,35 +669,28 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
         return ZYAN_STATUS_FALSE;
     }
 
-    const char* s = (const char*)haystack->string.vector.data + index;
-    const char* b = (const char*)needle->string.vector.data;
-    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
+    const ZyanUSize len = needle->string.vector.size - 1;
+    if (len > count)
     {
-        if (ZyanStringFoldCharacter(*s) != ZyanStringFoldCharacter(*b))
+        *found_index = -1;
+        return ZYAN_STATUS_FALSE;
+    }
+
+    const char*       s   = (const char*)haystack->string.vector.data + index;
+    const char* const b   = (const char*)needle->string.vector.data;
+    const char* const end = s + (count - len);
+    for (; s <= end; ++s)
+    {
+        ZyanUSize i = 0;
+        while ((i < len) && (ZyanStringFoldCharacter(s[i]) == ZyanStringFoldCharacter(b[i])))
         {
-            continue;
+            ++i;
         }
-        const char* a = s;
-        for (;;)
+        if (i == len)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
-            {
-                *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
-                return ZYAN_STATUS_TRUE;
-            }
-            const char c1 = *a++;
-            const char c2 = *b++;
-            if (ZyanStringFoldCharacter(c1) != ZyanStringFoldCharacter(c2))
-            {
-                break;
-            }
+            *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
+            return ZYAN_STATUS_TRUE;
         }
-        b = (char*)needle->string.vector.data;
     }
 
     *found_index = -1;
-- 
2.43.0


From 4205a3d7d0a8e0c9bcd62f103a54c249c25b4fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 20/35] fix: order strings by their characters and ignore the
 terminator

---
 src/String.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/String.c b/src/String.c
index 392e4b6..c6e99a8 100644
--- a/src/String.c
+++ b/src/String.c
@@ -871,13 +871,13 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         break;
     }
 
-    if (a[i] == b[i])
+    if (i + 1 == s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (a[i] < b[i])
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
@@ -914,20 +914,20 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
     ZyanUSize i;
     for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)
     {
-        if ((a[i] == b[i]) || ((a[i] ^ 32) == b[i]))
+        if (ZyanStringFoldCharacter(a[i]) == ZyanStringFoldCharacter(b[i]))
         {
             continue;
         }
         break;
     }
 
-    if (a[i] == b[i])
+    if (i + 1 == s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (ZyanStringFoldCharacter(a[i]) < ZyanStringFoldCharacter(b[i]))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 5e722241b7478f3d22cfd020c98adb4ea685d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 21/35] fix: take the terminator into account when reserving
 string capacity

---
 src/String.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index c6e99a8..1453f6d 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,13 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/**
+ * Returns the amount of characters needed to store a string of the given `size` including the
+ * terminating '\0' character. Saturates, if the result is not representable.
+ */
+#define ZYCORE_STRING_TERMINATED_SIZE(size) \
+      ((size) + (((size) != (ZyanUSize)(-1)) ? 1 : 0))
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -1047,7 +1054,7 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    return ZyanVectorReserve(&string->vector, capacity);
+    return ZyanVectorReserve(&string->vector, ZYCORE_STRING_TERMINATED_SIZE(capacity));
 }
 
 ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
-- 
2.43.0


From 8545b6b5a60dd3dd25192903bc4f926afd8ebb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 22/35] fix: reject string ranges and sizes that wrap around

---
 src/String.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/String.c b/src/String.c
index 1453f6d..acef901 100644
--- a/src/String.c
+++ b/src/String.c
@@ -99,7 +99,8 @@ ZyanStatus ZyanStringInitEx(ZyanString* string, ZyanUSize capacity, ZyanAllocato
     }
 
     string->flags = 0;
-    capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;
+    capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity);
+    capacity = ZYCORE_STRING_TERMINATED_SIZE(capacity);
     ZYAN_CHECK(ZyanVectorInitEx(&string->vector, sizeof(char), capacity, ZYAN_NULL, allocator,
         growth_factor, shrink_threshold));
     ZYAN_ASSERT(string->vector.capacity >= capacity);
@@ -296,7 +297,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index + count >= source->string.vector.size)
+    if ((index >= source->string.vector.size) || (count >= source->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -370,7 +371,7 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->string.vector.size)
+    if (index >= string->string.vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -389,7 +390,7 @@ ZyanStatus ZyanStringGetCharMutable(ZyanString* string, ZyanUSize index, char**
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if (index >= string->vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -405,7 +406,7 @@ ZyanStatus ZyanStringSetChar(ZyanString* string, ZyanUSize index, char value)
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if (index >= string->vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -462,7 +463,7 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) || (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -503,7 +504,7 @@ ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* sou
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) || (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -529,7 +530,7 @@ ZyanStatus ZyanStringDelete(ZyanString* string, ZyanUSize index, ZyanUSize count
     }
 
     // Don't allow removal of the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -600,7 +601,7 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) || (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -664,7 +665,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) || (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -970,7 +971,7 @@ ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -1011,7 +1012,7 @@ ZyanStatus ZyanStringToUpperCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -1041,7 +1042,7 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
+    ZYAN_CHECK(ZyanVectorResize(&string->vector, ZYCORE_STRING_TERMINATED_SIZE(size)));
     ZYCORE_STRING_NULLTERMINATE(string);
 
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0


From 7e92892fef29f2c994df1a07b286bdbc9f5de38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 23/35] fix: complete formatted strings that exceed the free
 capacity

---
 src/Format.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 46d87e1..f22a6b4 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -383,37 +383,39 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
 
     ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
         string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    if (w <= (ZyanI32)(string->vector.capacity - len))
+    if ((ZyanUSize)w <= string->vector.capacity - len)
     {
         string->vector.size = len + w;
-
-        ZYAN_VA_END(arglist);
         return ZYAN_STATUS_SUCCESS;
     }
 
     // The remaining capacity was not sufficent to fit the formatted string. Trying to resize ..
-    const ZyanStatus status = ZyanStringResize(string, string->vector.size + w - 1);
+    const ZyanStatus status = ZyanStringResize(string, len + w - 1);
     if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
         return status;
     }
 
+    // The argument list was consumed by the first attempt
+    ZYAN_VA_START(arglist, format);
     w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - string->vector.size + 1, format, arglist);
-    if (w < 0)
+        string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
+    if ((w < 0) || (len + w > string->vector.capacity))
     {
-        ZYAN_VA_END(arglist);
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    ZYAN_ASSERT(w <= (ZyanI32)(string->vector.capacity - string->vector.size));
+    string->vector.size = len + w;
 
-    ZYAN_VA_END(arglist);
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From e0c5d44e452e7f246247d41d63d01216393c15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 24/35] fix: restore the string when formatting a hexadecimal
 number fails

---
 src/Format.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index f22a6b4..4a7cb39 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -226,7 +226,13 @@ ZyanStatus ZyanStringAppendHexU32(ZyanString* string, ZyanU32 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                const ZyanStatus status = ZyanStringResize(string, len + i);
+                if (!ZYAN_SUCCESS(status))
+                {
+                    string->vector.size = len;
+                    ZYCORE_STRING_NULLTERMINATE(string);
+                    return status;
+                }
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
@@ -298,7 +304,13 @@ ZyanStatus ZyanStringAppendHexU64(ZyanString* string, ZyanU64 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                const ZyanStatus status = ZyanStringResize(string, len + i);
+                if (!ZYAN_SUCCESS(status))
+                {
+                    string->vector.size = len;
+                    ZYCORE_STRING_NULLTERMINATE(string);
+                    return status;
+                }
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
-- 
2.43.0


From 825d63f61105b2ab72ce8e69a448f18997311866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 25/35] fix: remove the sign and prefix when formatting a
 signed number fails

---
 src/Format.c | 89 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 28 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 4a7cb39..2895ea2 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -79,6 +79,39 @@ static const ZyanStringView STR_SUB = ZYAN_DEFINE_STRING_VIEW("-");
 /* Internal functions                                                                             */
 /* ============================================================================================== */
 
+/* ---------------------------------------------------------------------------------------------- */
+/* Sign                                                                                           */
+/* ---------------------------------------------------------------------------------------------- */
+
+/**
+ * Appends the sign of the given `value`, followed by an optional prefix.
+ *
+ * @param   string      A pointer to the `ZyanString` instance.
+ * @param   value       The value.
+ * @param   force_sign  Set to `ZYAN_TRUE`, to append the `+` sign for positive numbers.
+ * @param   prefix      The string to append after the sign or `ZYAN_NULL`, if not needed.
+ *
+ * @return  A zyan status code.
+ */
+static ZyanStatus ZyanStringAppendSign(ZyanString* string, ZyanI64 value, ZyanBool force_sign,
+    const ZyanStringView* prefix)
+{
+    if (value < 0)
+    {
+        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
+    } else if (force_sign)
+    {
+        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+    }
+
+    if (prefix)
+    {
+        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+    }
+
+    return ZYAN_STATUS_SUCCESS;
+}
+
 /* ---------------------------------------------------------------------------------------------- */
 /* Decimal                                                                                        */
 /* ---------------------------------------------------------------------------------------------- */
@@ -452,27 +485,27 @@ ZyanStatus ZyanStringAppendDecU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendDecS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (force_sign)
+    const ZyanUSize len = string->vector.size;
+
+    ZyanStatus status = ZyanStringAppendSign(string, value, force_sign, prefix);
+    if (ZYAN_SUCCESS(status))
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppendDecU(string, (value < 0) ? (ZyanU64)ZyanAbsI64(value) :
+            (ZyanU64)value, padding_length);
     }
-
-    if (prefix)
+    if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        // Remove the sign and the prefix
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
     }
-    return ZyanStringAppendDecU(string, value, padding_length);
+
+    return status;
 }
 
 ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 padding_length,
@@ -493,27 +526,27 @@ ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendHexS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool uppercase, ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (force_sign)
+    const ZyanUSize len = string->vector.size;
+
+    ZyanStatus status = ZyanStringAppendSign(string, value, force_sign, prefix);
+    if (ZYAN_SUCCESS(status))
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppendHexU(string, (value < 0) ? (ZyanU64)ZyanAbsI64(value) :
+            (ZyanU64)value, padding_length, uppercase);
     }
-
-    if (prefix)
+    if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        // Remove the sign and the prefix
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
     }
-    return ZyanStringAppendHexU(string, value, padding_length, uppercase);
+
+    return status;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From 635f0d172bd927a1f4ccc28d82175921d853b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 26/35] fix: do not treat groups of boolean arguments as
 unnamed argument too

---
 src/ArgParse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 109cfc8..16cd944 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -205,6 +205,9 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     goto continue_main_loop;
                 }
             }
+
+            // Continue parsing at next token.
+            continue;
         }
 
         // Still here? We're looking at an unnamed argument.
-- 
2.43.0


From 695f12fdf872067ea5147cd9e3b3f72a7cd384c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 27/35] fix: release the parsed arguments when running out of
 memory

---
 src/ArgParse.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 16cd944..6f1f7b5 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -45,6 +45,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
     const char** error_token, ZyanAllocator* allocator)
 {
 #   define ZYAN_ERR_TOK(tok) if (error_token) { *error_token = tok; }
+#   define ZYAN_CHECK_OR_FAIL(status) if (ZYAN_FAILED(err = (status))) { goto failure; }
 
     ZYAN_ASSERT(cfg);
     ZYAN_ASSERT(parsed);
@@ -105,7 +106,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                ZYAN_CHECK_OR_FAIL(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -136,7 +137,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                         goto failure;
                     }
                     parsed_arg->has_value = ZYAN_TRUE;
-                    ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));
+                    ZYAN_CHECK_OR_FAIL(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));
                 }
             }
 
@@ -155,7 +156,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                ZYAN_CHECK_OR_FAIL(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -185,7 +186,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     if (read_ptr[1])
                     {
                         parsed_arg->has_value = ZYAN_TRUE;
-                        ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, read_ptr + 1));
+                        ZYAN_CHECK_OR_FAIL(ZyanStringViewInsideBuffer(&parsed_arg->value, read_ptr + 1));
                     }
                     // If not, consume next token (e.g. `-n 1000`).
                     else
@@ -198,7 +199,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                         }
 
                         parsed_arg->has_value = ZYAN_TRUE;
-                        ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));
+                        ZYAN_CHECK_OR_FAIL(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));
                     }
 
                     // Either way, continue with next argument.
@@ -221,10 +222,10 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
         // Allocate parsed argument struct.
         ZyanArgParseArg* parsed_arg;
-        ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+        ZYAN_CHECK_OR_FAIL(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
-        ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
+        ZYAN_CHECK_OR_FAIL(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
 
     continue_main_loop:;
     }
@@ -239,7 +240,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
     // Check whether all required arguments are present.
     ZyanUSize num_parsed_args;
-    ZYAN_CHECK(ZyanVectorGetSize(parsed, &num_parsed_args));
+    ZYAN_CHECK_OR_FAIL(ZyanVectorGetSize(parsed, &num_parsed_args));
     for (const ZyanArgParseDefinition* def = cfg->args; def && def->name; ++def)
     {
         if (!def->required) continue;
@@ -248,7 +249,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
         for (ZyanUSize i = 0; i < num_parsed_args; ++i)
         {
             const ZyanArgParseArg* arg = ZYAN_NULL;
-            ZYAN_CHECK(ZyanVectorGetPointer(parsed, i, (const void**)&arg));
+            ZYAN_CHECK_OR_FAIL(ZyanVectorGetPointer(parsed, i, (const void**)&arg));
 
             // Skip unnamed args.
             if (!arg->def) continue;
@@ -277,6 +278,7 @@ failure:
     return err;
 
 #   undef ZYAN_ERR_TOK
+#   undef ZYAN_CHECK_OR_FAIL
 }
 
 /* ============================================================================================== */
-- 
2.43.0


From 5f665978e50c550a298b5bd15854bb8dcc932464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 28/35] fix: keep aligned values when aligning down

---
 include/Zycore/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Defines.h b/include/Zycore/Defines.h
index 226d808..e1bb7f8 100644
--- a/include/Zycore/Defines.h
+++ b/include/Zycore/Defines.h
@@ -480,7 +480,7 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_DOWN(x, align) (((x) - 1) & ~((align) - 1))
+#define ZYAN_ALIGN_DOWN(x, align) ((x) & ~((align) - 1))
 
 /**
  * Divide the 64bit integer value by the given divisor.
-- 
2.43.0


From 8f684a9ac5235a39110771a397c66f48300e20cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 29/35] fix: stop at the terminator in the no-libc strncmp

---
 include/Zycore/LibC.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 59cebee..581b8d9 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -397,10 +397,15 @@ ZYAN_INLINE int ZYAN_STRNCMP(const char* s1, const char* s2, ZyanUSize n)
 {
     while (n--)
     {
-        if (*s1++ != *s2++)
+        if (*s1 != *s2)
         {
-            return *(unsigned char*)(s1 - 1) - *(unsigned char*)(s2 - 1);
+            return *(const ZyanU8*)s1 - *(const ZyanU8*)s2;
         }
+        if (!*s1)
+        {
+            return 0;
+        }
+        s1++, s2++;
     }
     return 0;
 }
-- 
2.43.0


From 6324400c9797033722896e74a78104e28558a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 30/35] fix: find the empty string in an empty string in the
 no-libc strstr

---
 include/Zycore/LibC.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 581b8d9..aa259ff 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -465,6 +465,10 @@ ZYAN_INLINE ZyanUSize ZYAN_STRSPN(const char* s1, const char* s2)
 ZYAN_INLINE char* ZYAN_STRSTR(const char* s1, const char* s2)
 {
     const ZyanUSize n = ZYAN_STRLEN(s2);
+    if (!n)
+    {
+        return (char*)s1;
+    }
     while (*s1)
     {
         if (!ZYAN_MEMCMP(s1++, s2, n))
-- 
2.43.0


From b11bac814143e02eebf60ceaf627bd88df7e2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 31/35] fix: compare the strings in the no-libc strcoll

---
 include/Zycore/LibC.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index aa259ff..78ced68 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -336,12 +336,8 @@ ZYAN_INLINE int ZYAN_STRCMP(const char* s1, const char* s2)
 
 ZYAN_INLINE int ZYAN_STRCOLL(const char *s1, const char *s2)
 {
-    // TODO: Implement
-
-    ZYAN_UNUSED(s1);
-    ZYAN_UNUSED(s2);
-
-    return 0;
+    // Without a libc, there is only the "C" locale
+    return ZYAN_STRCMP(s1, s2);
 }
 
 ZYAN_INLINE char* ZYAN_STRCPY(char* dest, const char* src)
-- 
2.43.0


From 09afc940cdfe846fa90a4bfa5145d84720788223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 32/35] fix: refuse to concatenate strings into one of the
 operands

---
 src/String.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/String.c b/src/String.c
index acef901..3c658ab 100644
--- a/src/String.c
+++ b/src/String.c
@@ -231,6 +231,10 @@ ZyanStatus ZyanStringConcatEx(ZyanString* destination, const ZyanStringView* s1,
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
+    if ((destination == &s1->string) || (destination == &s2->string))
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
 
     const ZyanUSize len = s1->string.vector.size + s2->string.vector.size - 1;
     capacity = ZYAN_MAX(capacity, len - 1);
@@ -253,6 +257,10 @@ ZyanStatus ZyanStringConcatCustomBuffer(ZyanString* destination, const ZyanStrin
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
+    if ((destination == &s1->string) || (destination == &s2->string))
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
 
     const ZyanUSize len = s1->string.vector.size + s2->string.vector.size - 1;
     if (capacity < len)
-- 
2.43.0


From ae67d9d067a0319af46cb56670c148ff0b7645fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 33/35] fix: flush the instruction cache of ranges that do not
 start on a page boundary

---
 src/API/Process.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/API/Process.c b/src/API/Process.c
index 88371bd..2072ec5 100644
--- a/src/API/Process.c
+++ b/src/API/Process.c
@@ -37,6 +37,7 @@
 #endif
 #elif defined(ZYAN_POSIX)
 #   include <sys/mman.h>
+#   include <unistd.h>
 #else
 #   error "Unsupported platform detected"
 #endif
@@ -60,7 +61,9 @@ ZyanStatus ZyanProcessFlushInstructionCache(void* address, ZyanUSize size)
 
 #elif defined(ZYAN_POSIX)
 
-    if (msync(address, size, MS_SYNC | MS_INVALIDATE))
+    // `msync` only accepts addresses that are aligned to a page boundary
+    const ZyanUSize offset = (ZyanUPointer)address & ((ZyanUPointer)sysconf(_SC_PAGE_SIZE) - 1);
+    if (msync((ZyanU8*)address - offset, size + offset, MS_SYNC | MS_INVALIDATE))
     {
         return ZYAN_STATUS_BAD_SYSTEMCALL;
     }
-- 
2.43.0


From 0dc9834b73d0e0e482d516c7a2fafebd1281cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 34/35] fix: append the original content when appending a
 string to itself

---
 src/String.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/String.c b/src/String.c
index 3c658ab..0a05d08 100644
--- a/src/String.c
+++ b/src/String.c
@@ -494,10 +494,11 @@ ZyanStatus ZyanStringAppend(ZyanString* destination, const ZyanStringView* sourc
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    // The size of the source changes as well, if a string is appended to itself
+    const ZyanUSize count = source->string.vector.size - 1;
     const ZyanUSize len = destination->vector.size;
-    ZYAN_CHECK(ZyanVectorResize(&destination->vector, len + source->string.vector.size - 1));
-    ZYAN_MEMCPY((char*)destination->vector.data + len - 1, source->string.vector.data,
-        source->string.vector.size - 1);
+    ZYAN_CHECK(ZyanVectorResize(&destination->vector, len + count));
+    ZYAN_MEMCPY((char*)destination->vector.data + len - 1, source->string.vector.data, count);
     ZYCORE_STRING_NULLTERMINATE(destination);
 
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0


From b9878d6774850bcdd9ab4d8fccd1d73c7458f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 35/35] fix: insert the original content when inserting a
 string into itself

---
 src/String.c | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/String.c b/src/String.c
index 0a05d08..9a854b3 100644
--- a/src/String.c
+++ b/src/String.c
@@ -70,6 +70,39 @@ static char ZyanStringFoldCharacter(char c)
     return ((c >= 'A') && (c <= 'Z')) ? (char)(c | 32) : c;
 }
 
+/**
+ * Inserts a part of the string into the string itself.
+ *
+ * @param   string          A pointer to the `ZyanString` instance.
+ * @param   index           The insert index.
+ * @param   source_index    The index of the first character to insert.
+ * @param   count           The number of characters to insert.
+ *
+ * @return  A zyan status code.
+ */
+static ZyanStatus ZyanStringInsertSelf(ZyanString* string, ZyanUSize index,
+    ZyanUSize source_index, ZyanUSize count)
+{
+    if (!count)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    const ZyanUSize len = string->vector.size;
+    ZYAN_CHECK(ZyanVectorResize(&string->vector, len + count));
+
+    char* const target = (char*)string->vector.data + index;
+    ZYAN_MEMMOVE(target + count, target, len - index);
+
+    // The characters in front of the insert position are still in place, all others have moved
+    const ZyanUSize head = (source_index < index) ? ZYAN_MIN(count, index - source_index) : 0;
+    const char* const source = (const char*)string->vector.data + source_index;
+    ZYAN_MEMCPY(target, source, head);
+    ZYAN_MEMCPY(target + head, source + head + count, count - head);
+
+    return ZYAN_STATUS_SUCCESS;
+}
+
 /* ---------------------------------------------------------------------------------------------- */
 
 /* ============================================================================================== */
@@ -444,6 +477,11 @@ ZyanStatus ZyanStringInsert(ZyanString* destination, ZyanUSize index, const Zyan
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
 
+    if (destination == &source->string)
+    {
+        return ZyanStringInsertSelf(destination, index, 0, source->string.vector.size - 1);
+    }
+
     ZYAN_CHECK(ZyanVectorInsertRange(&destination->vector, index, source->string.vector.data,
         source->string.vector.size - 1));
     ZYCORE_STRING_ASSERT_NULLTERMINATION(destination);
@@ -476,6 +514,11 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
 
+    if (destination == &source->string)
+    {
+        return ZyanStringInsertSelf(destination, destination_index, source_index, count);
+    }
+
     ZYAN_CHECK(ZyanVectorInsertRange(&destination->vector, destination_index,
         (char*)source->string.vector.data + source_index, count));
     ZYCORE_STRING_ASSERT_NULLTERMINATION(destination);
-- 
2.43.0

