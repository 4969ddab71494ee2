From 509fdd71e7eb631fdc97e78d70d12166900f0756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 01/44] fix: don't read beyond the end of the buffer when
 scanning varints

---
 src/core/varint.c | 50 ++++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 3e36101..1b22bb2 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -460,19 +460,13 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
  * overflows may still happen, but are properly reported by the unpack
  * functions. SSE2 intrinsics are used if the compiler supports it.
  *
- * The SSE2 version works in constant time and independent of input length.
+ * The SSE2 version works in constant time and independent of input length, but
+ * always loads 16 bytes. Thus, it must only be used if there are as many bytes
+ * left, or the load will extend beyond the end of the buffer.
  *
- * \warning The SSE2 version is implemented for up to 10 bytes of length, so if
- * an encoded integer with more than 10 high-bits is encountered, an underrun
- * is falsely reported. This could be omitted by introducing a further branch
- * checking if the buffer is larger than 10 bytes and falling back to the
- * non-SSE version, but as it's an entirely internal case that is properly
- * handled by all invoking functions there is no necessity.
- *
- * \warning Using valgrind for tracking down invalid memory accesses, memcheck
- * will complain when it sees loads on data that extend to uninitialized memory
- * regions. This, however, is a false-positive, as uninitialized values are
- * singled out using the mapped bitmask.
+ * \warning The scan is limited to up to 10 bytes of length, so if an encoded
+ * integer with more than 10 high-bits is encountered, an underrun is falsely
+ * reported, which is properly handled by all invoking functions.
  *
  * \param[in] data[] Source buffer
  * \param[in] left   Remaining bytes
@@ -481,39 +475,33 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
 extern size_t
 pb_varint_scan(const uint8_t data[], size_t left) {
   assert(data && left);
-  left = left > 10 ? 10 : left;
 
 #ifdef __SSE2__
 
-  /* Mapping: remaining bytes ==> bitmask */
-  static const int mask_map[] = {
-    0x0000, 0x0001, 0x0003, 0x0007,
-    0x000F, 0x001F, 0x003F, 0x007F,
-    0x00FF, 0x01FF, 0x03FF
-  };
+  /* Ensure that the load doesn't extend beyond the end of the buffer */
+  if (left >= sizeof(__m128i)) {
 
-  /* Load buffer into 128-bit integer and create high-bit mask */
-  __m128i temp = _mm_loadu_si128((const __m128i *)data);
-  __m128i high = _mm_set1_epi8(0x80);
+    /* Load buffer into 128-bit integer and create high-bit mask */
+    __m128i temp = _mm_loadu_si128((const __m128i *)data);
+    __m128i high = _mm_set1_epi8(0x80);
 
-  /* Intersect and extract mask with high-bits set */
-  int mask = _mm_movemask_epi8(_mm_and_si128(temp, high));
-  mask = (mask & mask_map[left]) ^ mask_map[left];
+    /* Intersect and extract mask of the first 10 bytes with high-bits set */
+    int mask = _mm_movemask_epi8(_mm_and_si128(temp, high));
+    mask = (mask & 0x03FF) ^ 0x03FF;
 
-  /* Count trailing zeroes */
-  return mask ? __builtin_ctz(mask) + 1 : 0;
+    /* Count trailing zeroes */
+    return mask ? __builtin_ctz(mask) + 1 : 0;
+  }
 
-#else
+#endif /* __SSE2__ */
 
   /* Linear scan */
   size_t size = 0;
+  left = left > 10 ? 10 : left;
   while (data[size++] & 0x80)
     if (!--left)
       return 0;
   return size;
-
-#endif /* __SSE2__ */
-
 }
 
 /* ------------------------------------------------------------------------- */
-- 
2.43.0


From 6f2659db271a246ccd9046367b6e26a32fdfb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 02/44] fix: check bounds and termination when unpacking
 negative 32-bit integers

---
 src/core/varint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 1b22bb2..fbb5fb9 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -527,7 +527,8 @@ extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
   return size ? size :
-    data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+    left >= 10 && data[4] & 0x80 && data[5] == 0xFF && data[6] == 0xFF &&
+    data[7] == 0xFF && data[8] == 0xFF && data[9] == 0x01 ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From b8b5e3cf90ec90568ae7e2191e60e25e08346447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 03/44] fix: report an error instead of reading past the end of
 an exhausted stream

---
 src/core/stream.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/stream.c b/src/core/stream.c
index 71c395d..145ff09 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -45,6 +45,8 @@
 static pb_error_t
 read_varint(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_unpack(type,
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream), value);
@@ -82,6 +84,8 @@ read_64bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 read_length(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
@@ -126,6 +130,8 @@ read_32bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 skip_varint(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_scan(
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream));
@@ -155,6 +161,8 @@ skip_64bit(pb_stream_t *stream) {
 static pb_error_t
 skip_length(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
-- 
2.43.0


From 306ef5d1d23704f036770f14c484f89cac7f8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 04/44] fix: refuse unknown wiretypes instead of calling
 through a null pointer

---
 src/core/stream.c | 2 +-
 src/core/stream.h | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/stream.c b/src/core/stream.c
index 145ff09..739a673 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -212,7 +212,7 @@ pb_stream_read_jump[] = {
 
 /*! Jump table: wiretype ==> skip method */
 const pb_stream_skip_f
-pb_stream_skip_jump[7] = {
+pb_stream_skip_jump[8] = {
   [PB_WIRETYPE_VARINT] = skip_varint,
   [PB_WIRETYPE_64BIT]  = skip_64bit,
   [PB_WIRETYPE_LENGTH] = skip_length,
diff --git a/src/core/stream.h b/src/core/stream.h
index bdd40bd..06aabaa 100644
--- a/src/core/stream.h
+++ b/src/core/stream.h
@@ -204,6 +204,9 @@ pb_stream_read(pb_stream_t *stream, pb_type_t type, void *value) {
 /*!
  * Skip a value of given wiretype.
  *
+ * The wiretype is taken from the data, so it might be unknown or unsupported,
+ * in which case the value cannot be skipped.
+ *
  * \param[in,out] stream   Stream
  * \param[in]     wiretype Wiretype
  * \return                 Error code
@@ -211,8 +214,10 @@ pb_stream_read(pb_stream_t *stream, pb_type_t type, void *value) {
 PB_INLINE PB_WARN_UNUSED_RESULT
 pb_error_t
 pb_stream_skip(pb_stream_t *stream, pb_wiretype_t wiretype) {
-  assert(pb_stream_skip_jump[wiretype]);
-  return pb_stream_skip_jump[wiretype](stream);
+  assert(stream && wiretype < 8);
+  return likely_(pb_stream_skip_jump[wiretype] != NULL)
+    ? pb_stream_skip_jump[wiretype](stream)
+    : PB_ERROR_INVALID;
 }
 
 #endif /* PB_CORE_STREAM_H */
-- 
2.43.0


From e247f7f77e0bb45f3b43c9c50f9bcb32d2487962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 05/44] fix: compare the sizes of strings before comparing
 their data

---
 include/protobluff/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index ece1721..acde32b 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -127,7 +127,8 @@ pb_string_empty(const pb_string_t *string) {
 PB_INLINE int
 pb_string_equals(const pb_string_t *x, const pb_string_t *y) {
   assert(x && y);
-  return !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
+  return pb_string_size(x) == pb_string_size(y) &&
+    !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
 }
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From ccb2c6ab252e1fde51dc822661078cfc9a470229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 06/44] fix: only let members of a oneof hide other members of
 the same oneof

---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 586ba5b..1429674 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -224,7 +224,7 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
         pb_cursor_t temp = pb_cursor_copy(&cursor); temp.tag = 0;
         while (pb_cursor_next(&temp)) {
           int member = pb_field_descriptor_oneof(descriptor) ==
-            pb_field_descriptor_oneof(cursor.current.descriptor);
+            pb_field_descriptor_oneof(temp.current.descriptor);
           if (member && (cursor.error = PB_ERROR_EOM))
             break;
         }                                                  /* LCOV_EXCL_LINE */
-- 
2.43.0


From 90b0c67f97063002e9d9171353500d857e5da437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 07/44] fix: prefer existing occurrences of a field over better
 insert positions

---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index b1c8b7b..fc838a5 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -365,7 +365,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     pb_cursor_t temp   = pb_cursor_copy(&cursor);
     if (pb_cursor_valid(&temp)) {
       do {
-        if (pb_cursor_tag(&temp) <= tag) {
+        if (pb_cursor_tag(&temp) == tag || (pb_cursor_tag(&temp) < tag &&
+            pb_cursor_tag(&cursor) != tag)) {
           pb_cursor_destroy(&cursor);
           cursor = pb_cursor_copy(&temp);
         }
-- 
2.43.0


From 2a98e988114afba7a9472106e21f3a4643f25d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 08/44] fix: create a new packed field behind an unpacked
 occurrence

---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index fc838a5..a5bebf0 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -430,7 +430,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
       /* Initialize length prefix of part underlying a packed field */
       if (pb_field_descriptor_packed(descriptor)) {
-        if (tag != pb_cursor_tag(&cursor)) {
+        if (tag != pb_cursor_tag(&cursor) ||
+            pb_cursor_offset(&cursor)->diff.tag) {
           init(&part, PB_WIRETYPE_LENGTH, tag);
 
           /* Correct offsets for packed field */
-- 
2.43.0


From f5574dfdd8903e3a7942aa4b5918f8e333619b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 09/44] fix: align offsets exactly by recording where edits
 start

The end of an edit and its origin are not enough to tell, whether a part
was moved, resized or cleared by it. Submessages cleared along with their
parent, values of packed fields and cursors on cleared values ended up
pointing to unrelated data, or beyond the end of the buffer.
---
 src/message/cursor.c  |  50 ++++++++++----
 src/message/journal.c | 148 +++++++++++++++++++++++++-----------------
 src/message/journal.h |  29 +++++++++
 3 files changed, 155 insertions(+), 72 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 1429674..a857b47 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -66,9 +66,12 @@ next_packed(pb_cursor_t *cursor) {
       break;
 
     /* Adjust offsets */
-    offset->diff.origin -= offset->end - offset->start;
-    offset->start        = offset->end;
-    offset->end         += pb_stream_offset(&stream);
+    offset->start       = offset->end;
+    offset->end        += pb_stream_offset(&stream);
+    offset->diff.origin = packed->start + packed->diff.origin
+                        - offset->start;
+    offset->diff.tag    = 0;
+    offset->diff.length = 0;
 
     /* Cleanup and return with success */
     pb_stream_destroy(&stream);
@@ -179,6 +182,23 @@ next(pb_cursor_t *cursor) {
   return 0;
 }
 
+/*!
+ * Align an offset of a cursor.
+ *
+ * If the part at the offset was cleared, the offset is marked accordingly, so
+ * the cursor can still be moved on from this location.
+ *
+ * \param[in,out] cursor  Cursor
+ * \param[in]     version Version of offset
+ * \param[in,out] offset  Offset
+ */
+static void
+align(pb_cursor_t *cursor, pb_version_t version, pb_offset_t *offset) {
+  assert(cursor && offset);
+  if (pb_journal_align(pb_cursor_journal(cursor), &version, offset))
+    pb_offset_clear(offset);
+}
+
 /* ----------------------------------------------------------------------------
  * Interface
  * ------------------------------------------------------------------------- */
@@ -327,7 +347,10 @@ pb_cursor_next(pb_cursor_t *cursor) {
   assert(cursor);
   int result = 0;
   if (pb_cursor_valid(cursor)) {
-    pb_cursor_align(cursor);
+    if (pb_cursor_align(cursor) && !pb_message_valid(&(cursor->message))) {
+      cursor->error = PB_ERROR_INVALID;
+      return 0;
+    }
     do {
       result = cursor->current.packed.end
         ? next_packed(cursor)
@@ -546,20 +569,19 @@ pb_cursor_align(pb_cursor_t *cursor) {
   /* Check if cursor is already aligned */
   if (unlikely_(!pb_cursor_aligned(cursor))) {
     pb_version_t version = pb_cursor_version(cursor);
+    if ((error = pb_message_align(&(cursor->message))))
+      return error;
 
     /* Align current packed context offset, if given */
-    const pb_field_descriptor_t *descriptor = cursor->current.descriptor;
-    if (pb_field_descriptor_packed(descriptor)) {
-      pb_version_t version = pb_cursor_version(cursor);
-      error = pb_journal_align(pb_cursor_journal(cursor),
-        &version, &(cursor->current.packed));
-    }
+    if (cursor->current.packed.end)
+      align(cursor, version, &(cursor->current.packed));
 
     /* Align current cursor offset */
-    if (!(error = pb_message_align(&(cursor->message)))) {
-      error = pb_journal_align(pb_cursor_journal(cursor),
-        &version, &(cursor->current.offset));
-    }
+    align(cursor, version, &(cursor->current.offset));
   }
+
+  /* Check if the current value was cleared */
+  if (unlikely_(pb_offset_cleared(&(cursor->current.offset))))
+    error = PB_ERROR_INVALID;
   return error;
 }
diff --git a/src/message/journal.c b/src/message/journal.c
index f71a6ef..80b460a 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -40,14 +40,16 @@
  *
  * \param[in,out] journal Journal
  * \param[in]     origin  Origin
+ * \param[in]     start   Start offset
  * \param[in]     offset  Offset
  * \param[in]     delta   Delta
  * \return                Error code
  */
 static pb_error_t
 push(
-    pb_journal_t *journal, size_t origin, size_t offset, ptrdiff_t delta) {
-  assert(journal && origin <= offset && delta);
+    pb_journal_t *journal, size_t origin, size_t start, size_t offset,
+    ptrdiff_t delta) {
+  assert(journal && origin <= offset && start <= offset && delta);
   assert(pb_journal_valid(journal));
   pb_allocator_t *allocator = pb_buffer_allocator(&(journal->buffer));
   if (unlikely_(allocator == &allocator_zero_copy))
@@ -61,6 +63,7 @@ push(
     journal->entry.data = data;
     journal->entry.data[journal->entry.size++] = (pb_journal_entry_t){
       .origin = origin,
+      .start  = start,
       .offset = offset,
       .delta  = delta
     };
@@ -69,6 +72,80 @@ push(
   return PB_ERROR_ALLOC;
 }
 
+/*!
+ * Align an offset to a single journal entry.
+ *
+ * \param[in]     entry  Journal entry
+ * \param[in,out] offset Offset
+ * \return               Test result, false if the part was cleared
+ */
+static int
+align(const pb_journal_entry_t *entry, pb_offset_t *offset) {
+  assert(entry && offset);
+  size_t tag    = offset->start + offset->diff.tag;
+  size_t origin = offset->start + offset->diff.origin;
+  int    packed = offset->diff.origin && !offset->diff.tag;
+
+  /* Current part is the root of the journal: always resize */
+  if (!offset->start && !offset->diff.tag) {
+    offset->end += entry->delta;
+
+  /* Change happened before current part: move */
+  } else if (entry->offset <= tag) {
+    offset->start += entry->delta;
+    offset->end   += entry->delta;
+
+    /* Origin is not affected, if the change happened behind it */
+    if (entry->start >= origin)
+      offset->diff.origin -= entry->delta;
+
+  /* Change happened on length prefix of current part: move */
+  } else if (entry->start > tag && entry->offset <= offset->start &&
+             entry->start < offset->start) {
+    offset->start       += entry->delta;
+    offset->end         += entry->delta;
+    offset->diff.origin -= entry->delta;
+    offset->diff.tag    -= entry->delta;
+    offset->diff.length -= entry->delta;
+
+  /* Change happened inside current part: resize */
+  } else if (entry->start >= offset->start && entry->offset <= offset->end &&
+             entry->start < offset->end) {
+    offset->end += entry->delta;
+
+    /* Current part is a member of a packed field and was cleared */
+    return !packed || offset->start != offset->end;
+
+  /* Change happened at the end of current part: resize, if inside */
+  } else if (entry->start == offset->end) {
+    if (entry->start == entry->offset &&
+        entry->origin >= offset->start && !packed)
+      offset->end += entry->delta;
+
+  /* Change involved the whole part: clear */
+  } else if (entry->start < offset->end) {
+    return 0;
+  }
+  return 1;
+}
+
+/*!
+ * Align an offset of a cleared part to a single journal entry.
+ *
+ * \param[in]     entry  Journal entry
+ * \param[in,out] offset Offset
+ */
+static void
+align_cleared(const pb_journal_entry_t *entry, pb_offset_t *offset) {
+  assert(entry && offset);
+  if (entry->offset <= offset->start && entry->start < offset->start) {
+    offset->start += entry->delta;
+  } else if (entry->start < offset->start) {
+    offset->start = entry->start;
+  }
+  offset->end = offset->start;
+}
+
 /* LCOV_EXCL_START >>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>> */
 
 /*!
@@ -229,7 +306,7 @@ pb_journal_write(
   /* Perform journaled write if size changed */
   ptrdiff_t delta = size - (end - start);
   if (delta) {
-    if (likely_(!(error = push(journal, origin, end, delta)))) {
+    if (likely_(!(error = push(journal, origin, start, end, delta)))) {
       error = pb_buffer_write(&(journal->buffer), start, end, data, size);
       if (unlikely_(error))
         pop(journal);                                      /* LCOV_EXCL_LINE */
@@ -265,7 +342,7 @@ pb_journal_clear(
   /* Perform journaled clear if size changed */
   ptrdiff_t delta = start - end;
   if (delta) {
-    if (likely_(!(error = push(journal, origin, end, delta)))) {
+    if (likely_(!(error = push(journal, origin, start, end, delta)))) {
       error = pb_buffer_clear(&(journal->buffer), start, end);
       if (unlikely_(error))
         pop(journal);                                      /* LCOV_EXCL_LINE */
@@ -343,69 +420,24 @@ pb_journal_align(
     return PB_ERROR_INVALID;
 
   /* Iterate journal entries until we're up-to-date */
-  uint8_t invalid = 0;
-  while (*version < journal->entry.size) {
+  int cleared = pb_offset_cleared(offset);
+  for (; *version < journal->entry.size; (*version)++) {
     const pb_journal_entry_t *entry = &journal->entry.data[*version];
+    if (cleared) {
+      align_cleared(entry, offset);
 
-    /* Change happened before current part: move */
-    if (entry->origin < offset->start &&
-        entry->offset < offset->end) {
-      offset->start += entry->delta;
-      offset->end   += entry->delta;
-
-      /* Apply potential update on relative offsets */
-      ptrdiff_t *diff[3] = {
-        &(offset->diff.origin),
-        &(offset->diff.tag),
-        &(offset->diff.length)
-      };
-      for (size_t d = 0; d < 3; ++d)
-        if (entry->offset > offset->start + *(diff[d]) - entry->delta)
-          *(diff[d]) -= entry->delta;
-
-    /* Change happened within current part: resize or clear */
-    } else if (entry->origin >= offset->start + offset->diff.origin &&
-               entry->offset <= offset->end) {
-
-      /* Change happened inside current part: resize */
-      if (entry->origin >= offset->start) {
-        offset->end += entry->delta;
-
-        /* Current part is a packed field: invalidate */
-        if (offset->diff.origin && !offset->diff.tag &&
-            offset->start == offset->end)
-          invalid = 1;
-
-      /* Current part was cleared: clear */
-      } else if (offset->start + offset->diff.tag >=
-                 offset->end   + entry->delta) {
-        offset->start      += offset->diff.tag;
-        offset->end        += entry->delta;
-        offset->diff.origin = 0;
-        offset->diff.tag    = 0;
-        offset->diff.length = 0;
-
-        /* Invalidate after alignment */
-        invalid = 1;
-      }
-
-    /* Change happened outside current part: clear */
-    } else if (entry->origin <= offset->start + offset->diff.origin &&
-               entry->origin == entry->offset + entry->delta) {
-      offset->start       = entry->origin;
-      offset->end         = entry->origin;
+    /* Part was cleared: retain the location */
+    } else if ((cleared = !align(entry, offset))) {
+      offset->start       = entry->start;
+      offset->end         = entry->start;
       offset->diff.origin = 0;
       offset->diff.tag    = 0;
       offset->diff.length = 0;
-
-      /* Invalidate after alignment */
-      invalid = 1;
     }
-    (*version)++;
   }
 
   /* Invalidate part */
-  if (invalid)
+  if (cleared)
     *version = SIZE_MAX;
   return *version == SIZE_MAX
     ? PB_ERROR_INVALID
diff --git a/src/message/journal.h b/src/message/journal.h
index fc20d44..32a0ad4 100644
--- a/src/message/journal.h
+++ b/src/message/journal.h
@@ -38,6 +38,7 @@
 
 typedef struct pb_journal_entry_t {
   size_t origin;                       /*!< Origin */
+  size_t start;                        /*!< Start offset */
   size_t offset;                       /*!< Offset */
   ptrdiff_t delta;                     /*!< Delta */
 } pb_journal_entry_t;
@@ -75,6 +76,34 @@ pb_journal_align(
  * Inline functions
  * ------------------------------------------------------------------------- */
 
+/*!
+ * Mark an offset as cleared, so only its location is kept aligned.
+ *
+ * The relative offset to the length of a part is never positive, so it can
+ * safely be used as a marker.
+ *
+ * \param[in,out] offset Offset
+ */
+PB_INLINE void
+pb_offset_clear(pb_offset_t *offset) {
+  assert(offset);
+  offset->diff.length = 1;
+}
+
+/*!
+ * Test whether an offset is marked as cleared.
+ *
+ * \param[in] offset Offset
+ * \return           Test result
+ */
+PB_INLINE int
+pb_offset_cleared(const pb_offset_t *offset) {
+  assert(offset);
+  return offset->diff.length > 0;
+}
+
+/* ------------------------------------------------------------------------- */
+
 /*!
  * Create an invalid journal.
  *
-- 
2.43.0


From 0a592bba58e83819aced76d872075f13162b00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 10/44] fix: erasing below an absent submessage has nothing to
 do

---
 src/message/nested.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index 48d23f7..b288420 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -217,7 +217,11 @@ pb_message_nested_erase(
 
   /* Use cursor to omit field creation */
   pb_cursor_t cursor = resolve(message, tags, --size);
-  if (pb_cursor_valid(&cursor)) {
+  if (unlikely_(!pb_cursor_valid(&cursor))) {
+    if ((error = pb_cursor_error(&cursor)) == PB_ERROR_EOM)
+      error = PB_ERROR_NONE;
+
+  } else {
     pb_message_t submessage = pb_message_create_from_cursor(&cursor);
     error = pb_message_erase(&submessage, tags[size]);
     pb_message_destroy(&submessage);
-- 
2.43.0


From dbec67ad1556207609c196e11013e278b925b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 11/44] fix: assert against the descriptor of the submessage
 when resolving

---
 src/message/nested.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index b288420..490cc46 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -62,7 +62,7 @@ resolve(pb_message_t *message, const pb_tag_t tags[], size_t size) {
 
     /* Assert non-repeated messages */
     const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(pb_message_descriptor(message), tags[t]);
+      pb_descriptor_field_by_tag(pb_message_descriptor(&temp), tags[t]);
     assert(descriptor &&
       pb_field_descriptor_type(descriptor)  == PB_TYPE_MESSAGE &&
       pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
-- 
2.43.0


From 34a2017ff4b1ef82eb258b73b9f2d63d4c74ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 12/44] fix: refuse to erase fields from a message that was
 cleared

---
 src/message/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/message.c b/src/message/message.c
index fd3a7d5..a2a1f86 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -364,7 +364,7 @@ pb_message_put(pb_message_t *message, pb_tag_t tag, const void *value) {
 extern pb_error_t
 pb_message_erase(pb_message_t *message, pb_tag_t tag) {
   assert(message && tag);
-  if (unlikely_(!pb_message_valid(message)))
+  if (unlikely_(!pb_message_valid(message) || pb_message_align(message)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
-- 
2.43.0


From 2c7fada9a8ed322e6620e01521e4d0d70ebfdd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 13/44] fix: don't replace an existing empty string with the
 default value

---
 src/message/field.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/message/field.c b/src/message/field.c
index 488dfea..0b2709e 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -94,11 +94,19 @@ default_map[] = {
  */
 extern pb_field_t
 pb_field_create(pb_message_t *message, pb_tag_t tag) {
+  pb_version_t version = pb_message_valid(message)
+    ? pb_journal_version(pb_message_journal(message))
+    : 0;
   pb_field_t field = pb_field_create_without_default(message, tag);
   if (pb_field_valid(&field) && pb_field_empty(&field)) {
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
 
+    /* Don't overwrite the value of an existing but empty field */
+    if (pb_field_descriptor_wiretype(descriptor) == PB_WIRETYPE_LENGTH &&
+        pb_journal_version(pb_message_journal(message)) == version)
+      return field;
+
     /* Write explicit or implicit default value to field */
     const void *value = pb_field_descriptor_default(descriptor)
       ? pb_field_descriptor_default(descriptor)
-- 
2.43.0


From 41eb32678f5a23cdc95745669c36ea5ecd3f6373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 14/44] fix: don't create a member of a oneof, if the active
 member can't be erased

---
 src/message/part.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index a5bebf0..4a857e6 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -383,15 +383,17 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
         /* If the tag is part of a oneof ensure it is the active tag */
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
+          pb_error_t error = PB_ERROR_NONE;
           temp = pb_cursor_copy(&cursor);
           do {
             int member = pb_field_descriptor_oneof(descriptor) ==
               pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
             if (member && tag != pb_cursor_tag(&temp))
-              if (pb_cursor_erase(&temp))
-                break;                                     /* LCOV_EXCL_LINE */
-          } while (pb_cursor_next(&temp));
+              error = pb_cursor_erase(&temp);
+          } while (!error && pb_cursor_next(&temp));
           pb_cursor_destroy(&temp);
+          if (unlikely_(error))
+            break;                                         /* LCOV_EXCL_LINE */
 
           /* Ensure alignment of cursor and message */
           pb_cursor_align(&cursor);
-- 
2.43.0


From 1290bd9b6c08bb012fcf536e284310d0927cecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 15/44] fix: move cleared cursor locations behind insertions
 into preceding parts

---
 src/message/cursor.c  |  2 +-
 src/message/journal.c | 26 ++++++++++++++++++++------
 src/message/journal.h |  4 +++-
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index a857b47..1478e50 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -196,7 +196,7 @@ static void
 align(pb_cursor_t *cursor, pb_version_t version, pb_offset_t *offset) {
   assert(cursor && offset);
   if (pb_journal_align(pb_cursor_journal(cursor), &version, offset))
-    pb_offset_clear(offset);
+    pb_offset_clear(offset, pb_message_start(&(cursor->message)));
 }
 
 /* ----------------------------------------------------------------------------
diff --git a/src/message/journal.c b/src/message/journal.c
index 80b460a..d65a8e8 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -138,10 +138,21 @@ align(const pb_journal_entry_t *entry, pb_offset_t *offset) {
 static void
 align_cleared(const pb_journal_entry_t *entry, pb_offset_t *offset) {
   assert(entry && offset);
-  if (entry->offset <= offset->start && entry->start < offset->start) {
+  size_t origin = offset->start + offset->diff.origin;
+
+  /* Change happened before location: move */
+  if (entry->offset <= offset->start && (
+      entry->start < offset->start || entry->origin > origin)) {
     offset->start += entry->delta;
+
+    /* Origin is not affected, if the change happened behind it */
+    if (entry->start >= origin)
+      offset->diff.origin -= entry->delta;
+
+  /* Change involved the location */
   } else if (entry->start < offset->start) {
-    offset->start = entry->start;
+    offset->diff.origin = origin < entry->start ? origin - entry->start : 0;
+    offset->start       = entry->start;
   }
   offset->end = offset->start;
 }
@@ -428,17 +439,20 @@ pb_journal_align(
 
     /* Part was cleared: retain the location */
     } else if ((cleared = !align(entry, offset))) {
+      size_t origin = offset->start + offset->diff.origin;
+      offset->diff.origin = origin < entry->start ? origin - entry->start : 0;
       offset->start       = entry->start;
       offset->end         = entry->start;
-      offset->diff.origin = 0;
-      offset->diff.tag    = 0;
-      offset->diff.length = 0;
     }
   }
 
   /* Invalidate part */
-  if (cleared)
+  if (cleared) {
+    offset->diff.origin = 0;
+    offset->diff.tag    = 0;
+    offset->diff.length = 0;
     *version = SIZE_MAX;
+  }
   return *version == SIZE_MAX
     ? PB_ERROR_INVALID
     : PB_ERROR_NONE;
diff --git a/src/message/journal.h b/src/message/journal.h
index 32a0ad4..2db3b9b 100644
--- a/src/message/journal.h
+++ b/src/message/journal.h
@@ -83,10 +83,12 @@ pb_journal_align(
  * safely be used as a marker.
  *
  * \param[in,out] offset Offset
+ * \param[in]     origin Origin
  */
 PB_INLINE void
-pb_offset_clear(pb_offset_t *offset) {
+pb_offset_clear(pb_offset_t *offset, size_t origin) {
   assert(offset);
+  offset->diff.origin = origin - offset->start;
   offset->diff.length = 1;
 }
 
-- 
2.43.0


From 9444842006542d964cdaecc701d533c828158cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 16/44] fix: insert behind the start of a message that was
 moved by erasing a oneof

---
 src/message/part.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index 4a857e6..bb36c2a 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -377,8 +377,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     if (pb_cursor_error(&temp) == PB_ERROR_EOM) {
       pb_cursor_destroy(&temp);
 
-      /* Record start offset and handle different cases */
-      size_t start = pb_message_start(message);
+      /* Handle different cases */
+      const pb_offset_t *offset = NULL;
       if (pb_cursor_valid(&cursor)) {
 
         /* If the tag is part of a oneof ensure it is the active tag */
@@ -410,11 +410,15 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
         }
 
         /* Otherwise correct insert vector in documented cases */
-        const pb_offset_t *offset = pb_cursor_offset(&cursor);
         if (pb_cursor_tag(&cursor) <= tag)
-          start = offset->end;
+          offset = pb_cursor_offset(&cursor);
       }
 
+      /* Record start offset, as the message may have been moved */
+      size_t start = offset
+        ? offset->end
+        : pb_message_start(message);
+
       /* Create an empty part */
       pb_part_t part = {
         .journal = pb_message_journal(message),
-- 
2.43.0


From c35d7c394618f8d85281a282a33bdeb9b2fc292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 17/44] fix: keep cursors behind an erased packed value in
 front of appended values

---
 src/message/cursor.c  | 23 ++++++++++++++++++-----
 src/message/journal.c |  4 +++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 1478e50..73bf5cd 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -186,7 +186,8 @@ next(pb_cursor_t *cursor) {
  * Align an offset of a cursor.
  *
  * If the part at the offset was cleared, the offset is marked accordingly, so
- * the cursor can still be moved on from this location.
+ * the cursor can still be moved on from this location. Within a packed field,
+ * everything written at exactly this location follows it.
  *
  * \param[in,out] cursor  Cursor
  * \param[in]     version Version of offset
@@ -196,7 +197,9 @@ static void
 align(pb_cursor_t *cursor, pb_version_t version, pb_offset_t *offset) {
   assert(cursor && offset);
   if (pb_journal_align(pb_cursor_journal(cursor), &version, offset))
-    pb_offset_clear(offset, pb_message_start(&(cursor->message)));
+    pb_offset_clear(offset, cursor->current.packed.end
+      ? offset->start
+      : pb_message_start(&(cursor->message)));
 }
 
 /* ----------------------------------------------------------------------------
@@ -573,11 +576,21 @@ pb_cursor_align(pb_cursor_t *cursor) {
       return error;
 
     /* Align current packed context offset, if given */
-    if (cursor->current.packed.end)
-      align(cursor, version, &(cursor->current.packed));
+    pb_offset_t packed = cursor->current.packed;
+    if (packed.end) {
+      cursor->current.packed.end = 0;
+      align(cursor, version, &packed);
+    }
+
+    /* Leave packed context, if it was cleared */
+    if (pb_offset_cleared(&packed)) {
+      cursor->current.offset = packed;
 
     /* Align current cursor offset */
-    align(cursor, version, &(cursor->current.offset));
+    } else {
+      cursor->current.packed = packed;
+      align(cursor, version, &(cursor->current.offset));
+    }
   }
 
   /* Check if the current value was cleared */
diff --git a/src/message/journal.c b/src/message/journal.c
index d65a8e8..884470f 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -440,7 +440,9 @@ pb_journal_align(
     /* Part was cleared: retain the location */
     } else if ((cleared = !align(entry, offset))) {
       size_t origin = offset->start + offset->diff.origin;
-      offset->diff.origin = origin < entry->start ? origin - entry->start : 0;
+      offset->diff.origin = offset->diff.tag && origin < entry->start
+        ? origin - entry->start
+        : 0;
       offset->start       = entry->start;
       offset->end         = entry->start;
     }
-- 
2.43.0


From 5f1bb5333f569846f8a1454a0ca398d1af77c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 18/44] fix: invalidate zero-copy buffers when they are
 destroyed

---
 src/core/buffer.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index 499142b..d65a04a 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -129,13 +129,11 @@ pb_buffer_create_zero_copy(uint8_t data[], size_t size) {
 extern void
 pb_buffer_destroy(pb_buffer_t *buffer) {
   assert(buffer);
-  if (buffer->allocator &&
-      buffer->allocator != &allocator_zero_copy) {
-    if (buffer->data) {
+  if (buffer->allocator) {
+    if (buffer->data && buffer->allocator != &allocator_zero_copy)
       pb_allocator_free(buffer->allocator, buffer->data);
-      buffer->data = NULL;
-      buffer->size = 0;
-    }
+    buffer->data      = NULL;
+    buffer->size      = 0;
     buffer->allocator = NULL;
   }
 }
-- 
2.43.0


From 0a3af79c7235fc6733e7138515ad3a238590dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 19/44] fix: don't grow the stack with every decoded field

---
 src/core/decoder.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 8877ea5..ad74ed1 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -20,7 +20,6 @@
  * IN THE SOFTWARE.
  */
 
-#include <alloca.h>
 #include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -85,6 +84,10 @@ pb_decoder_decode(
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
+  /* Temporary space for type-agnostic decoding */
+  union { uint64_t number; pb_string_t string; } space;
+  void *value = &space;
+
   /* Iterate tag-value pairs */
   pb_stream_t stream = pb_stream_create(decoder->buffer);
   while (!error && pb_stream_left(&stream)) {
@@ -104,10 +107,6 @@ pb_decoder_decode(
       continue;
     }
 
-    /* Allocate temporary space for type-agnostic decoding */
-    size_t item = pb_field_descriptor_type_size(descriptor);
-    void *value = alloca(item);
-
     /* Non-packed fields may also be encoded in packed encoding */
     pb_type_t type = pb_field_descriptor_type(descriptor);
     if (wiretype != pb_field_descriptor_wiretype(descriptor) &&
-- 
2.43.0


From 095d63ee03c6ab818beb260017d357b08553707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 20/44] fix: don't read values beyond the end of a packed field
 when decoding

---
 src/core/decoder.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index ad74ed1..65d600d 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -117,14 +117,23 @@ pb_decoder_decode(
 
       /* Ensure we're within the stream's boundaries */
       size_t offset = pb_stream_offset(&stream);
-      if (pb_stream_offset(&stream) + length > pb_buffer_size(decoder->buffer))
-        error = PB_ERROR_OFFSET;
+      if (unlikely_(error = pb_stream_advance(&stream, length)))
+        break;
+
+      /* Create temporary buffer, so values can't exceed the packed field */
+      pb_buffer_t packed = pb_buffer_create_zero_copy_internal(
+        pb_buffer_data_from(decoder->buffer, offset), length);
 
       /* Iterate values of packed field */
-      while (!error && pb_stream_offset(&stream) < offset + length)
-        if (likely_(!(error = pb_stream_read(&stream, type, value))))
+      pb_stream_t substream = pb_stream_create(&packed);
+      while (!error && pb_stream_left(&substream))
+        if (likely_(!(error = pb_stream_read(&substream, type, value))))
           error = handler(descriptor, value, user);
 
+      /* Free all allocated memory */
+      pb_stream_destroy(&substream);
+      pb_buffer_destroy(&packed);
+
     /* Read value of given type from stream */
     } else {
       if (unlikely_(error = pb_stream_read(&stream, type, value)))
-- 
2.43.0


From c04b184c64eb7d370cd7a3cf76c21c63469e3006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 21/44] fix: report failures when encoding and leave nothing of
 the values behind

---
 src/core/encoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 8c20e62..2adeb51 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -382,11 +382,16 @@ pb_encoder_encode(
 
     /* Encode values one-by-one */
     const uint8_t *temp = values;
-    for (size_t v = 0; v < size; v++) {
+    size_t offset = pb_buffer_size(&(encoder->buffer));
+    for (size_t v = 0; !error && v < size; v++) {
       assert(encoder != (void *)temp);
       error = encode(&(encoder->buffer), descriptor, temp);
       temp += type_size;
     }
+
+    /* Remove everything that was already encoded on error */
+    if (unlikely_(error))
+      encoder->buffer.size = offset;
   }
   return error;
 }
-- 
2.43.0


From 240208ce77427a605fc51a322554452ac0a5c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 22/44] fix: refuse to encode invalid encoders

---
 src/core/encoder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 2adeb51..3a3db82 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -122,6 +122,8 @@ encode_length(
   /* Extract data and size according to type */
   const uint8_t *string; uint32_t length;
   if (pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE) {
+    if (unlikely_(!pb_encoder_valid(value)))
+      return PB_ERROR_INVALID;
     string = pb_buffer_data(pb_encoder_buffer(value));
     length = pb_buffer_size(pb_encoder_buffer(value));
   } else {
-- 
2.43.0


From d401819777371f340fd06f1ce06df13d08226dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 23/44] fix: report an error when a block of a chunk allocator
 can't grow

---
 src/util/chunk_allocator.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index c078309..6a1f3bb 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -159,7 +159,10 @@ allocator_resize(void *data, void *block, size_t size) {
         /* Return resized block */
         return block_from_chunk(head->next);
       }
-    }                                                      /* LCOV_EXCL_LINE */
+
+      /* The block could not be resized */
+      return NULL;                                         /* LCOV_EXCL_LINE */
+    }
 
   /* Allocate new block */
   } else {
-- 
2.43.0


From d4a8d538b4b998463de26b54ca501562dfcc3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 24/44] fix: make destroyed chunk allocators refuse further use

---
 src/util/chunk_allocator.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index 6a1f3bb..83599a3 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -257,5 +257,6 @@ pb_chunk_allocator_destroy(pb_allocator_t *allocator) {
       free(head);
     }
     free(base);
+    allocator->data = NULL;
   }
 }
-- 
2.43.0


From 395dfdf1e5d4cfcb672cebd078aff3c4b9e21c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 25/44] fix: refuse blocks whose chunk exceeds the address
 space

---
 src/util/chunk_allocator.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index 83599a3..f7381a9 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -61,6 +61,23 @@ typedef struct pb_chunk_allocator_t {
   (assert(block), (void *)((uint8_t *)(block) - \
     sizeof(pb_chunk_allocator_t)))
 
+/* ----------------------------------------------------------------------------
+ * Internal functions
+ * ------------------------------------------------------------------------- */
+
+/*!
+ * Test whether a chunk for a memory block of given size can be addressed.
+ *
+ * \param[in] base Base chunk
+ * \param[in] size Bytes to be allocated
+ * \return         Test result
+ */
+static int
+addressable(const pb_chunk_allocator_t *base, size_t size) {
+  size_t limit = SIZE_MAX - sizeof(pb_chunk_allocator_t);
+  return base->capacity <= limit && size <= limit - base->capacity;
+}
+
 /* ----------------------------------------------------------------------------
  * Allocator callbacks
  * ------------------------------------------------------------------------- */
@@ -94,6 +111,8 @@ allocator_allocate(void *data, size_t size) {
   /* Search to end of chunk list */
   pb_chunk_allocator_t *base = data;
   pb_chunk_allocator_t *head = data;
+  if (unlikely_(!addressable(base, size)))
+    return NULL;                                           /* LCOV_EXCL_LINE */
   while (head->next)
     head = head->next;
 
@@ -143,6 +162,8 @@ allocator_resize(void *data, void *block, size_t size) {
     if (unlikely_(size > current->capacity)) {
       pb_chunk_allocator_t *base = data;
       pb_chunk_allocator_t *head = data;
+      if (unlikely_(!addressable(base, size)))
+        return NULL;                                       /* LCOV_EXCL_LINE */
       while (head->next && head->next != current)
         head = head->next;
 
-- 
2.43.0


From 5f1ea087b2a42a363a27b96ce4a9a48664fbaebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 26/44] fix: don't overflow the stack when validating fields of
 extensions

---
 src/util/validator.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index ed66c93..85ac24d 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -64,13 +64,15 @@ handler(
   assert(descriptor && value && user);
   pb_validator_tags_t *tags = user;
 
-  /* Count field occurrence */
-  int miss = 1;
-  for (size_t t = 0; miss && t < tags->size; ++t)
-    if (tags->data[t] == pb_field_descriptor_tag(descriptor))
-      miss = 0;
-  if (miss)
-    tags->data[tags->size++] = pb_field_descriptor_tag(descriptor);
+  /* Count field occurrence, if required (so never part of an extension) */
+  if (pb_field_descriptor_label(descriptor) == PB_LABEL_REQUIRED) {
+    int miss = 1;
+    for (size_t t = 0; miss && t < tags->size; ++t)
+      if (tags->data[t] == pb_field_descriptor_tag(descriptor))
+        miss = 0;
+    if (miss)
+      tags->data[tags->size++] = pb_field_descriptor_tag(descriptor);
+  }
 
   /* In case of submessage, perform recursive check */
   return pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE
-- 
2.43.0


From 5ba2bfc73330f97461c8b013e893da94ce11ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 27/44] fix: skip known fields of unexpected wiretype like
 unknown fields

---
 src/core/decoder.c   | 5 +++--
 src/message/cursor.c | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 65d600d..111551c 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -99,10 +99,11 @@ pb_decoder_decode(
     pb_wiretype_t wiretype = tag & 7;
     tag >>= 3;
 
-    /* Check descriptor and skip field if unknown */
+    /* Check descriptor and skip field if unknown or of unexpected wiretype */
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(decoder->descriptor, tag);
-    if (unlikely_(!descriptor)) {
+    if (unlikely_(!descriptor || (wiretype != PB_WIRETYPE_LENGTH &&
+        wiretype != pb_field_descriptor_wiretype(descriptor)))) {
       error = pb_stream_skip(&stream, wiretype);
       continue;
     }
diff --git a/src/message/cursor.c b/src/message/cursor.c
index 73bf5cd..8b4e12e 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -155,6 +155,11 @@ next(pb_cursor_t *cursor) {
         continue;
     }
 
+    /* Skip field, if it is of unexpected wiretype */
+    if (unlikely_(wiretype != PB_WIRETYPE_LENGTH && wiretype !=
+        pb_field_descriptor_wiretype(cursor->current.descriptor)))
+      continue;
+
     /* Switch to packed context in case of packed field */
     if (wiretype != pb_field_descriptor_wiretype(cursor->current.descriptor) &&
         wiretype == PB_WIRETYPE_LENGTH) {
-- 
2.43.0


From a026ce1443c9fd3b4bc3e0be3e5bccf3124f6955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 28/44] fix: only ask extensions for the scope they are defined
 in

---
 src/generator/field.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index e86edfa..c5802ec 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -77,7 +77,7 @@ namespace protobluff {
 
     /* Prefix scope to identifiers, if given */
     string prefix ("");
-    if (descriptor_->extension_scope()) {
+    if (descriptor_->is_extension() && descriptor_->extension_scope()) {
       const Descriptor *scope = descriptor_->extension_scope();
       prefix = scope->full_name();
 
-- 
2.43.0


From c955aef6c0870b2d0f43a15c56caa12dbe1b979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 29/44] fix: don't generate default values for enums that are
 members of a oneof

---
 src/generator/field.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index c5802ec..06c685a 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -831,8 +831,9 @@ namespace protobluff {
    */
   bool Field::
   HasDefault() const {
-    return descriptor_->has_default_value() ||
-      (descriptor_->enum_type() && descriptor_->is_optional());
+    return !descriptor_->containing_oneof() && (
+      descriptor_->has_default_value() ||
+      (descriptor_->enum_type() && descriptor_->is_optional()));
   }
 
   /*!
-- 
2.43.0


From 9cd1087ae742f9dbc5d12ad694e4f1e6fbf3c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 30/44] fix: escape default values of strings and bytes

---
 src/generator/field.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 06c685a..9ffb6f4 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -56,6 +56,7 @@ namespace protobluff {
   using ::google::protobuf::io::Printer;
 
   using ::google::protobuf::HasPrefixString;
+  using ::google::protobuf::CEscape;
   using ::google::protobuf::JoinStrings;
   using ::google::protobuf::LowerString;
   using ::google::protobuf::SimpleDtoa;
@@ -222,11 +223,8 @@ namespace protobluff {
           break;
         case FieldDescriptor::CPPTYPE_STRING:
           variables_["default"] = "pb_string_const(\""
-            + descriptor_->default_value_string() + "\"";
-          if (descriptor_->type() == FieldDescriptor::TYPE_BYTES)
-            variables_["default"] += ", " + SimpleItoa(
-              descriptor_->default_value_string().length());
-          variables_["default"] += ")";
+            + StringReplace(CEscape(descriptor_->default_value_string()),
+                "?", "\\?", true) + "\")";
           break;
         default:
           return;
-- 
2.43.0


From 5e8f96acb72bf5abe799a1cfe72d03da3aa3e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 31/44] fix: generate guards that are identifiers

---
 src/generator/file.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index 2fdf0f4..8b14d44 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -21,6 +21,7 @@
  */
 
 #include <cassert>
+#include <cctype>
 #include <ctime>
 #include <set>
 #include <string>
@@ -55,7 +56,6 @@ namespace protobluff {
   using ::google::protobuf::io::Printer;
 
   using ::google::protobuf::SimpleItoa;
-  using ::google::protobuf::StringReplace;
   using ::google::protobuf::StripSuffixString;
   using ::google::protobuf::UpperString;
 
@@ -111,9 +111,12 @@ namespace protobluff {
       ? descriptor_->package() : "-";
 
     /* Extract and prepare guard name */
-    variables_["guard"] = StringReplace(
-      StripSuffixString(descriptor_->name(), ".proto"),
-    ".", "_", true);
+    variables_["guard"] = StripSuffixString(descriptor_->name(), ".proto");
+    for (size_t c = 0; c < variables_["guard"].size(); c++)
+      if (!isalnum((unsigned char)variables_["guard"][c]))
+        variables_["guard"][c] = '_';
+    if (isdigit((unsigned char)variables_["guard"][0]))
+      variables_["guard"] = "_" + variables_["guard"];
     UpperString(&(variables_["guard"]));
 
     /* Prepare current runtime version */
-- 
2.43.0


From 91b2a82682b3f0732e7dabfcdf7fbb86f4b6e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 32/44] fix: generate default values if only nested extensions
 define some

---
 src/generator/file.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index 8b14d44..8f86a41 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -413,6 +413,15 @@ namespace protobluff {
       if (extensions_[e]->HasDefaults())
         return true;
 
+    /* Check nested extensions for default values */
+    for (size_t m = 0; m < descriptor_->message_type_count(); m++) {
+      const vector<const Extension *> extensions =
+        messages_[m]->GetExtensions();
+      for (size_t e = 0; e < extensions.size(); e++)
+        if (extensions[e]->HasDefaults())
+          return true;
+    }
+
     /* No default values */
     return false;
   }
-- 
2.43.0


From fe96bbc0bfe2446a9f0d5881d35f86d1f0f5c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 33/44] fix: generate indexes of oneof members in the order of
 the descriptor

---
 src/generator/oneof.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 82fcd5d..03331f0 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -137,8 +137,9 @@ namespace protobluff {
     sort(tags.begin(), tags.end());
 
     /* Generate indexes */
-    for (size_t f = 0, g = 0; f < descriptor->field_count(); f++) {
-      if (descriptor->field(f) == descriptor_->field(g)) {
+    for (size_t f = 0, g = 0; f < tags.size(); f++) {
+      const FieldDescriptor *field = descriptor->FindFieldByNumber(tags[f]);
+      if (field->containing_oneof() == descriptor_) {
         printer->Print("`index`", "index", SimpleItoa(f));
         if (g < descriptor_->field_count() - 1)
           printer->Print(", ");
-- 
2.43.0


From bd30c661b6db4c29da7832e285107e1049d25d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:15 +0000
Subject: [PATCH 34/44] fix: generate oneof accessors that refer to the oneof

---
 src/generator/oneof.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 03331f0..dc76e57 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -170,7 +170,7 @@ namespace protobluff {
       "  assert(pb_message_descriptor(message) == \n"
       "    &`message`_descriptor);\n"
       "  pb_oneof_t oneof = pb_oneof_create(\n"
-      "    &`message`_descriptor, message);\n"
+      "    &`oneof`_descriptor, message);\n"
       "  pb_tag_t tag = pb_oneof_case(&oneof);\n"
       "  pb_oneof_destroy(&oneof);\n"
       "  return tag;\n"
-- 
2.43.0


From 98fe190806b6fb8d55325d2bc20773ac4fe6129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:37 +0000
Subject: [PATCH 35/44] fix: find enum values if numbers are negative or
 aliased

---
 src/core/descriptor.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 03c7ee4..7e6f17c 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -160,8 +160,9 @@ pb_descriptor_extend(
 /*!
  * Retrieve the value descriptor for a given number from an enum descriptor.
  *
- * \warning To find the matching enum value descriptor quickly if any, the same
- * approach like in pb_descriptor_field_by_tag() is used.
+ * \warning Numbers can be negative and several values can share a number, so
+ * in contrast to pb_descriptor_field_by_tag() no bound for the position of the
+ * enum value descriptor can be derived from the number.
  *
  * \param[in] descriptor Enum descriptor
  * \param[in] number     Number
@@ -172,7 +173,7 @@ pb_enum_descriptor_value_by_number(
     const pb_enum_descriptor_t *descriptor, pb_enum_t number) {
   assert(descriptor);
   if (descriptor->value.size) {
-    size_t v = min(number, descriptor->value.size - 1);
+    size_t v = descriptor->value.size - 1;
     do {
       if (pb_enum_value_descriptor_number(
           &(descriptor->value.data[v])) == number) {
-- 
2.43.0


From 77028fd55f43e9f4ef39c2f3297866793cada230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 36/44] fix: generate literals for infinite, undefined and
 negative zero default values

---
 src/generator/field.cc | 27 +++++++++++++++++++++++----
 src/generator/file.cc  |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 9ffb6f4..f97952b 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -67,6 +67,25 @@ namespace protobluff {
   using ::google::protobuf::StripSuffixString;
   using ::google::protobuf::UpperString;
 
+  /*!
+   * Convert a printed floating-point number to a literal.
+   *
+   * \param[in] number Number
+   * \return           Literal
+   */
+  static string
+  FloatingPointLiteral(const string &number) {
+    if (number == "inf")
+      return "INFINITY";
+    if (number == "-inf")
+      return "-INFINITY";
+    if (number == "nan" || number == "-nan")
+      return "NAN";
+
+    /* Integers have no negative zero */
+    return number == "-0" ? "-0.0" : number;
+  }
+
   /*!
    * Create a field generator.
    *
@@ -206,12 +225,12 @@ namespace protobluff {
             descriptor_->default_value_uint64()) + "ULL";
           break;
         case FieldDescriptor::CPPTYPE_FLOAT:
-          variables_["default"] = SimpleFtoa(
-            descriptor_->default_value_float());
+          variables_["default"] = FloatingPointLiteral(SimpleFtoa(
+            descriptor_->default_value_float()));
           break;
         case FieldDescriptor::CPPTYPE_DOUBLE:
-          variables_["default"] = SimpleDtoa(
-            descriptor_->default_value_double());
+          variables_["default"] = FloatingPointLiteral(SimpleDtoa(
+            descriptor_->default_value_double()));
           break;
         case FieldDescriptor::CPPTYPE_BOOL:
           variables_["default"] =
diff --git a/src/generator/file.cc b/src/generator/file.cc
index 8f86a41..6629195 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -298,6 +298,7 @@ namespace protobluff {
 
     /* Generate library includes */
     printer->Print(variables_,
+      "#include <math.h>\n"
       "#include <protobluff/descriptor.h>\n"
       "\n");
 
-- 
2.43.0


From ecd3c1b5df246c5dc8aaf6f82b70c0f38e39a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 37/44] fix: generate extensions in order of declaration

---
 src/generator/file.cc    | 19 +++++++++++--------
 src/generator/message.cc | 18 ++++++++++--------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index 6629195..c659a78 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -20,10 +20,10 @@
  * IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cctype>
 #include <ctime>
-#include <set>
 #include <string>
 #include <vector>
 
@@ -46,7 +46,7 @@
 
 namespace protobluff {
 
-  using ::std::set;
+  using ::std::find;
   using ::std::string;
   using ::std::unique_ptr;
   using ::std::vector;
@@ -81,14 +81,17 @@ namespace protobluff {
     for (size_t m = 0; m < descriptor_->message_type_count(); m++)
       messages_[m].reset(new Message(descriptor_->message_type(m)));
 
-    /* Build set of unique extended descriptors */
-    set<const Descriptor *> unique;
-    for (size_t e = 0; e < descriptor_->extension_count(); e++)
-      unique.insert(descriptor_->extension(e)->containing_type());
+    /* Build list of unique extended descriptors in order of appearance */
+    vector<const Descriptor *> unique;
+    for (size_t e = 0; e < descriptor_->extension_count(); e++) {
+      const Descriptor *extended = descriptor_->extension(e)->containing_type();
+      if (find(unique.begin(), unique.end(), extended) == unique.end())
+        unique.push_back(extended);
+    }
 
     /* Initialize extension generators */
-    for (set<const Descriptor *>::iterator it  = unique.begin();
-                                           it != unique.end(); ++it) {
+    for (vector<const Descriptor *>::iterator it  = unique.begin();
+                                              it != unique.end(); ++it) {
       Extension *extension = new Extension(*it);
       for (size_t e = 0; e < descriptor_->extension_count(); e++)
         if (descriptor_->extension(e)->containing_type() == *it)
diff --git a/src/generator/message.cc b/src/generator/message.cc
index 275316e..7487c5f 100644
--- a/src/generator/message.cc
+++ b/src/generator/message.cc
@@ -22,7 +22,6 @@
 
 #include <algorithm>
 #include <cassert>
-#include <set>
 #include <vector>
 
 #include <google/protobuf/descriptor.h>
@@ -42,7 +41,7 @@
 
 namespace protobluff {
 
-  using ::std::set;
+  using ::std::find;
   using ::std::sort;
   using ::std::unique_ptr;
   using ::std::vector;
@@ -90,14 +89,17 @@ namespace protobluff {
     for (size_t n = 0; n < descriptor_->nested_type_count(); n++)
       nested_[n].reset(new Message(descriptor_->nested_type(n)));
 
-    /* Build set of unique extended descriptors */
-    set<const Descriptor *> unique;
-    for (size_t e = 0; e < descriptor_->extension_count(); e++)
-      unique.insert(descriptor_->extension(e)->containing_type());
+    /* Build list of unique extended descriptors in order of appearance */
+    vector<const Descriptor *> unique;
+    for (size_t e = 0; e < descriptor_->extension_count(); e++) {
+      const Descriptor *extended = descriptor_->extension(e)->containing_type();
+      if (find(unique.begin(), unique.end(), extended) == unique.end())
+        unique.push_back(extended);
+    }
 
     /* Initialize extension generators */
-    for (set<const Descriptor *>::iterator it  = unique.begin();
-                                           it != unique.end(); ++it) {
+    for (vector<const Descriptor *>::iterator it  = unique.begin();
+                                              it != unique.end(); ++it) {
       Extension *extension = new Extension(*it, descriptor_);
       for (size_t e = 0; e < descriptor_->extension_count(); e++)
         if (descriptor_->extension(e)->containing_type() == *it)
-- 
2.43.0


From c227b1ee248a240a625acb453751dd7935fa3bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 38/44] fix: report success when moving an iterator to the only
 entry

---
 include/protobluff/core/descriptor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/protobluff/core/descriptor.h b/include/protobluff/core/descriptor.h
index 1d35cf3..0f847f5 100644
--- a/include/protobluff/core/descriptor.h
+++ b/include/protobluff/core/descriptor.h
@@ -376,7 +376,7 @@ int
 pb_descriptor_iter_end(pb_descriptor_iter_t *it) {
   assert(it);
   return !pb_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -543,7 +543,7 @@ int
 pb_enum_descriptor_iter_end(pb_enum_descriptor_iter_t *it) {
   assert(it);
   return !pb_enum_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_enum_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_enum_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -684,7 +684,7 @@ int
 pb_oneof_descriptor_iter_end(pb_oneof_descriptor_iter_t *it) {
   assert(it);
   return !pb_oneof_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_oneof_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_oneof_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
-- 
2.43.0


From 76131a627a999b3f709950609efe5603b748ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 39/44] fix: don't abort on writing empty strings in debug
 builds

---
 src/message/buffer.c  | 2 +-
 src/message/journal.c | 2 +-
 src/message/part.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/message/buffer.c b/src/message/buffer.c
index 2fb3abb..f1ab614 100644
--- a/src/message/buffer.c
+++ b/src/message/buffer.c
@@ -53,7 +53,7 @@ extern pb_error_t
 pb_buffer_write(
     pb_buffer_t *buffer, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(buffer && data && size);
+  assert(buffer && (data || !size));
   if (unlikely_(!pb_buffer_valid(buffer)))
     return PB_ERROR_INVALID;
 
diff --git a/src/message/journal.c b/src/message/journal.c
index 884470f..1716d21 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -309,7 +309,7 @@ extern pb_error_t
 pb_journal_write(
     pb_journal_t *journal, size_t origin, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(journal && data && size);
+  assert(journal && (data || !size));
   if (unlikely_(!pb_journal_valid(journal)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
diff --git a/src/message/part.c b/src/message/part.c
index bb36c2a..1254416 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -547,7 +547,7 @@ pb_part_error(const pb_part_t *part) {
  */
 extern pb_error_t
 pb_part_write(pb_part_t *part, const uint8_t data[], size_t size) {
-  assert(part && data && size);
+  assert(part && (data || !size));
   if (!pb_part_valid(part) || (!pb_part_aligned(part) && pb_part_align(part)))
     return PB_ERROR_INVALID;
 
-- 
2.43.0


From d615aaf3f77145c5486f7a56f1da8d5d85d1ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 40/44] fix: don't abort on damaged data with a tag of zero in
 debug builds

---
 src/core/descriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 7e6f17c..5770b3e 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -117,7 +117,7 @@ pb_field_descriptor_wiretype_map[] = {
 extern const pb_field_descriptor_t *
 pb_descriptor_field_by_tag(
     const pb_descriptor_t *descriptor, pb_tag_t tag) {
-  assert(descriptor && tag);
+  assert(descriptor);
   for (size_t f = min(tag, descriptor->field.size); f > 0; ) {
     if (pb_field_descriptor_tag(
         &(descriptor->field.data[--f])) == tag) {
-- 
2.43.0


From 9b1ffdfb93579d74df41b60a66e7c53065024baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 41/44] fix: don't abort on cursors over cleared messages in
 debug builds

---
 src/message/cursor.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 8b4e12e..aa27964 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -574,6 +574,10 @@ pb_cursor_align(pb_cursor_t *cursor) {
   assert(pb_cursor_valid(cursor));
   pb_error_t error = PB_ERROR_NONE;
 
+  /* The underlying message may have been cleared */
+  if (unlikely_(!pb_message_valid(&(cursor->message))))
+    return PB_ERROR_INVALID;
+
   /* Check if cursor is already aligned */
   if (unlikely_(!pb_cursor_aligned(cursor))) {
     pb_version_t version = pb_cursor_version(cursor);
-- 
2.43.0


From 999e4be014f028e8aa71fd4b39396a186a033737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 42/44] fix: return aligned fields when a length prefix grows
 upon creation

---
 src/message/part.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index 1254416..1e3c5e5 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -279,8 +279,9 @@ init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
       part->offset.diff.tag    -= part->offset.start;
       part->offset.diff.length -= part->offset.start;
 
-      /* Recursive length prefix update of parent messages */
-      if (!adjust(part, size))
+      /* Recursive length prefix update of parent messages, ensure alignment */
+      if (!adjust(part, size) && (
+          pb_part_aligned(part) || !pb_part_align(part)))
         return;
     }                                                      /* LCOV_EXCL_LINE */
   } while (0);                                             /* LCOV_EXCL_LINE */
-- 
2.43.0


From ed0b1dcbe941db30a9e81613e19eea3c3346adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 43/44] fix: don't abort if a shorter length prefix makes up
 for longer data in debug builds

---
 src/message/part.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index 1e3c5e5..f1cd821 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -116,7 +116,7 @@ adjust_prefix(pb_part_t *part, ptrdiff_t *delta) {
  */
 static pb_error_t
 adjust_recursive(pb_part_t *part, pb_stream_t *stream, ptrdiff_t *delta) {
-  assert(part && stream && delta && *delta);
+  assert(part && stream && delta);
   assert(pb_part_aligned(part));
   pb_error_t error = PB_ERROR_NONE;
 
@@ -226,7 +226,7 @@ adjust_recursive(pb_part_t *part, pb_stream_t *stream, ptrdiff_t *delta) {
  */
 static pb_error_t
 adjust(pb_part_t *part, ptrdiff_t delta) {
-  assert(part && delta);
+  assert(part);
   assert(pb_part_valid(part));
 
   /* Create stream and perform length prefix update */
-- 
2.43.0


From 91d0d685745c72dc0a244b8b07882c4b74e7f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 44/44] fix: print float defaults with enough digits

---
 src/generator/strutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/strutil.cc b/src/generator/strutil.cc
index 31fca61..8bb3d5e 100644
--- a/src/generator/strutil.cc
+++ b/src/generator/strutil.cc
@@ -1115,7 +1115,7 @@ char* FloatToBuffer(float value, char* buffer) {
   float parsed_value;
   if (!safe_strtof(buffer, &parsed_value) || parsed_value != value) {
     int snprintf_result =
-      snprintf(buffer, kFloatToBufferSize, "%.*g", FLT_DIG+2, value);
+      snprintf(buffer, kFloatToBufferSize, "%.*g", FLT_DIG+3, value);
 
     // Should never overflow; see above.
     GOOGLE_DCHECK(snprintf_result > 0 && snprintf_result < kFloatToBufferSize);
-- 
2.43.0

