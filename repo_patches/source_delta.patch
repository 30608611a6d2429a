From 79e1524dff062d8bb4fc94668c42e785c4f4a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:50 +0000
Subject: [PATCH 01/55] fix: keep the member name when a buffer ends between a
 name and its value

A buffer that ended exactly after a property name, after its ':' or after a
string/number/ascii array element dropped the name (or the array element), so
the token came out with an empty name (or value) once the next buffer was added.
---
 include/json_struct/json_struct.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9bcf75c..c7d3f3a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2631,6 +2631,13 @@ inline size_t strnlen(const char *data, size_t size)
 inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const DataRef &json_data)
 {
   Token tmp_token;
+  if (JSON_STRUCT_UNLIKELY(intermediate_token.active &&
+                           (token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData)))
+  {
+    // The name was completed in a buffer that has been released
+    tmp_token.name = DataRef(intermediate_token.name);
+    tmp_token.name_type = Internal::getType(intermediate_token.name_type, tmp_token.name.data, tmp_token.name.size);
+  }
   while (cursor_index < json_data.size)
   {
     size_t diff = 0;
@@ -2804,6 +2811,14 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
     }
   }
+  if (JSON_STRUCT_UNLIKELY(!intermediate_token.active && (token_state == InTokenState::FindingDelimiter ||
+                                                          token_state == InTokenState::FindingData)))
+  {
+    // The buffer ended right after the name, and it is about to be released
+    intermediate_token.name.append(tmp_token.name.data, tmp_token.name.size);
+    intermediate_token.name_type = tmp_token.name_type;
+    intermediate_token.active = true;
+  }
   return Error::NeedMoreData;
 }
 
-- 
2.43.0


From 7c7d88074940ca8ad4a8228b4d245e0f3e9099d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:50 +0000
Subject: [PATCH 02/55] fix: a backslash ending a buffer escapes the first byte
 of the next buffer

The SIMD string scan skipped blocks without looking at the pending escape, so
the escape was applied to a later quote or backslash and the string did not end
where it should.
---
 include/json_struct/json_struct.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c7d3f3a..977df76 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1928,10 +1928,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
   // again from cursor_index, which must re-derive escape state from the ORIGINAL
   // value -- re-running the state machine from the SIMD end-state would flip escape
   // parity for a string crossing a streaming buffer boundary. Snapshot and restore.
+  // The SIMD scan skips blocks without quotes or backslashes, so it can not consume an
+  // escape pending from the previous buffer. Leave that case to the scalar scan.
   const bool escaped_before_simd = is_escaped;
 #endif
 #ifdef JSON_STRUCT_HAS_AVX2
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 32))
+  if (JSON_STRUCT_LIKELY(!is_escaped && json_data.size - cursor_index >= 32))
   {
     size_t consumed =
       Internal::findStringEndAVX2(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
@@ -1942,7 +1944,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
     }
   }
 #elif defined(JSON_STRUCT_HAS_NEON)
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16))
+  if (JSON_STRUCT_LIKELY(!is_escaped && json_data.size - cursor_index >= 16))
   {
     size_t consumed =
       Internal::findStringEndNEON(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
@@ -1953,7 +1955,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
     }
   }
 #elif defined(JSON_STRUCT_HAS_SSE2)
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16))
+  if (JSON_STRUCT_LIKELY(!is_escaped && json_data.size - cursor_index >= 16))
   {
     size_t consumed =
       Internal::findStringEndSIMD(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
-- 
2.43.0


From f54c1c820783f6895e948e8e9e4a0593a6800501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:07 +0000
Subject: [PATCH 03/55] fix: let a // comment span buffers

A buffer ending between the two slashes or inside a comment lost the comment
state, so the rest of the comment was parsed as JSON (or rejected).
---
 include/json_struct/json_struct.h | 70 +++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 977df76..b9c70ac 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1404,6 +1404,13 @@ private:
     FoundEnd
   };
 
+  enum class InCommentState : unsigned char
+  {
+    NotInComment,
+    FoundSlash,
+    InComment
+  };
+
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1413,6 +1420,7 @@ private:
   Error findDelimiter(const DataRef &json_data, size_t *chars_ahead);
   Error findTokenEnd(const DataRef &json_data, size_t *chars_ahead);
   Error skipComment(const DataRef &json_data, size_t *chars_ahead);
+  Error continueComment(const DataRef &json_data, Error lone_slash_error);
   void requestMoreData();
   void releaseFirstDataRef();
   Error populateFromDataRef(DataRef &data, Type &type, const DataRef &json_data);
@@ -1421,6 +1429,7 @@ private:
 
   InTokenState token_state = InTokenState::FindingName;
   InPropertyState property_state = InPropertyState::NoStartFound;
+  InCommentState comment_state = InCommentState::NotInComment;
   Type property_type = Type::Error;
   bool is_escaped;
   bool allow_ascii_properties : 1;
@@ -1910,6 +1919,7 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
+  comment_state = InCommentState::NotInComment;
   resetForNewValue();
 }
 
@@ -2135,6 +2145,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
 
   assert(property_state == InPropertyState::NoStartFound);
 
+  if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NotInComment))
+  {
+    Error comment_error = continueComment(json_data, Error::NoError);
+    if (comment_error != Error::NoError)
+      return comment_error;
+  }
+
   // Skip whitespace using SIMD if available
   size_t current_pos = cursor_index;
 #ifdef JSON_STRUCT_HAS_AVX2
@@ -2200,6 +2217,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
     const char c = json_data.data[current_pos];
     unsigned char lc = Internal::lookup()[(unsigned char)c];
 
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundSlash;
+      return Error::NeedMoreData;
+    }
+
     if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 < json_data.size &&
                              json_data.data[current_pos + 1] == '/'))
     {
@@ -2270,6 +2293,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
   if (JSON_STRUCT_UNLIKELY(container_stack.empty()))
     return Error::IllegalPropertyType;
 
+  if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NotInComment))
+  {
+    Error comment_error = continueComment(json_data, Error::ExpectedDelimiter);
+    if (comment_error != Error::NoError)
+      return comment_error;
+  }
+
   // Skip whitespace using SIMD if available
   size_t end = cursor_index;
 #ifdef JSON_STRUCT_HAS_AVX2
@@ -2299,6 +2329,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
   {
     const char c = json_data.data[end];
 
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundSlash;
+      return Error::NeedMoreData;
+    }
+
     if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
     {
       cursor_index = end + 2;
@@ -2352,6 +2388,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
   if (JSON_STRUCT_UNLIKELY(container_stack.empty()))
     return Error::NoError;
 
+  if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NotInComment))
+  {
+    Error comment_error = continueComment(json_data, Error::InvalidToken);
+    if (comment_error != Error::NoError)
+      return comment_error;
+  }
+
   // Skip whitespace using SIMD if available
   size_t end = cursor_index;
 #ifdef JSON_STRUCT_HAS_AVX2
@@ -2381,6 +2424,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
   {
     const char c = json_data.data[end];
 
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundSlash;
+      return Error::NeedMoreData;
+    }
+
     if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
     {
       cursor_index = end + 2;
@@ -2428,6 +2477,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
 
 inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahead)
 {
+  comment_state = InCommentState::InComment;
 #ifdef JSON_STRUCT_HAS_NEON
   if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16 && !allow_new_lines))
   {
@@ -2437,6 +2487,7 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
         json_data.data[cursor_index + consumed - 1] == '\n')
     {
       *chars_ahead = consumed;
+      comment_state = InCommentState::NotInComment;
       return Error::NoError;
     }
   }
@@ -2449,6 +2500,7 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
         json_data.data[cursor_index + consumed - 1] == '\n')
     {
       *chars_ahead = consumed;
+      comment_state = InCommentState::NotInComment;
       return Error::NoError;
     }
   }
@@ -2468,11 +2520,29 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
     {
       *chars_ahead = (found - start) + 1;
     }
+    comment_state = InCommentState::NotInComment;
     return Error::NoError;
   }
   return Error::NeedMoreData;
 }
 
+inline Error Tokenizer::continueComment(const DataRef &json_data, Error lone_slash_error)
+{
+  if (comment_state == InCommentState::FoundSlash)
+  {
+    comment_state = InCommentState::NotInComment;
+    if (json_data.data[cursor_index] != '/')
+      return lone_slash_error;
+    cursor_index++;
+  }
+
+  size_t comment_skip;
+  Error error = skipComment(json_data, &comment_skip);
+  if (error == Error::NoError)
+    cursor_index += comment_skip;
+  return error;
+}
+
 inline void Tokenizer::requestMoreData()
 {
   if (need_more_data_callback)
-- 
2.43.0


From 759b0c9f9e9fc5553a1234549864fb7a7df57f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:22 +0000
Subject: [PATCH 04/55] fix: serialize documents nested deeper than 255 levels

The serializer kept its depth in an unsigned char: at the 256th level it wrapped
to 0 and the closing brackets were silently dropped.
---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b9c70ac..2ee8ae6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1492,7 +1492,7 @@ public:
   bool convertAsciiToString() const;
   void setConvertAsciiToString(bool set);
 
-  unsigned char depth() const;
+  unsigned int depth() const;
   void setDepth(int depth);
 
   void skipDelimiter(bool skip);
@@ -1504,7 +1504,7 @@ public:
 
 private:
   uint8_t m_shift_size;
-  uint8_t m_depth;
+  unsigned int m_depth;
   Style m_style;
   bool m_convert_ascii_to_string;
 
@@ -3201,7 +3201,7 @@ inline void SerializerOptions::setShiftSize(unsigned char set)
   m_shift_size = set;
 }
 
-inline unsigned char SerializerOptions::depth() const
+inline unsigned int SerializerOptions::depth() const
 {
   return m_depth;
 }
@@ -3239,7 +3239,7 @@ inline void SerializerOptions::skipDelimiter(bool skip)
 
 inline void SerializerOptions::setDepth(int depth)
 {
-  m_depth = (unsigned char)depth;
+  m_depth = (unsigned int)depth;
   m_prefix = m_style == Pretty ? std::string(depth * size_t(m_shift_size), ' ') : std::string();
 }
 
-- 
2.43.0


From 5a02971cfa306b26612b1cf75704fc6cbe8f2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:22 +0000
Subject: [PATCH 05/55] fix: escape all control characters in serialized
 strings

Bytes below 0x20 without a short escape were written raw, which is not JSON.
---
 include/json_struct/json_struct.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2ee8ae6..a8b8949 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6064,7 +6064,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
 }
 
 // Returns the offset of the first character in [data, data+len) that needs
-// JSON string escaping (byte <= 0x0d, '"', or '\\'), or len if none. The clean
+// JSON string escaping (byte <= 0x1f, '"', or '\\'), or len if none. The clean
 // (no-escape) run is by far the common case, so scan it with SIMD when possible.
 static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUCT_RESTRICT data, size_t len)
 {
@@ -6073,7 +6073,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m256i vquote = _mm256_set1_epi8('"');
     const __m256i vbackslash = _mm256_set1_epi8('\\');
-    const __m256i vctrl = _mm256_set1_epi8(0x0d);
+    const __m256i vctrl = _mm256_set1_epi8(0x1f);
     for (; i + 32 <= len; i += 32)
     {
       __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(data + i));
@@ -6090,7 +6090,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m128i vquote = _mm_set1_epi8('"');
     const __m128i vbackslash = _mm_set1_epi8('\\');
-    const __m128i vctrl = _mm_set1_epi8(0x0d);
+    const __m128i vctrl = _mm_set1_epi8(0x1f);
     for (; i + 16 <= len; i += 16)
     {
       __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(data + i));
@@ -6107,7 +6107,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   for (; i < len; i++)
   {
     unsigned char c = static_cast<unsigned char>(data[i]);
-    if (c <= 0x0d || c == '"' || c == '\\')
+    if (c <= 0x1f || c == '"' || c == '\\')
       return i;
   }
   return len;
@@ -6159,9 +6159,16 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
       buffer.append("\\\\", 2);
       break;
     default:
-      buffer.push_back(cur);
+    {
+      // the remaining control characters have no short escape
+      static const char hex_digits[] = "0123456789abcdef";
+      const unsigned char c = static_cast<unsigned char>(cur);
+      buffer.append("\\u00", 4);
+      buffer.push_back(hex_digits[c >> 4]);
+      buffer.push_back(hex_digits[c & 0xf]);
       break;
     }
+    }
     i++;
   }
   if (buffer.size())
-- 
2.43.0


From 47c5f1cee201d23aa9d8f591ac193ac984861d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:22 +0000
Subject: [PATCH 06/55] fix: escape map keys when serializing

Keys are unescaped when a map is parsed, but were written verbatim.
---
 include/json_struct/json_struct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a8b8949..f2cd927 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9847,7 +9847,8 @@ struct TypeHandlerMap
     serializer.write(token);
     for (auto it = from.begin(); it != from.end(); ++it)
     {
-      token.name = DataRef(it->first);
+      std::string buffer;
+      token.name = Internal::handle_json_escapes_out(it->first, buffer);
       token.name_type = Type::String;
       TypeHandler<Value>::from(it->second, token, serializer);
     }
-- 
2.43.0


From 1c0ac47e7f9ec59fd1b0702e251a0b393f835e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:22 +0000
Subject: [PATCH 07/55] fix: stop parsing a map when the tokenizer reports an
 error

A truncated or broken object made the loop spin forever on the last token.
---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f2cd927..0646161 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9835,6 +9835,8 @@ struct TypeHandlerMap
       if (error != JS::Error::NoError)
         return error;
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        return error;
     }
 
     return error;
-- 
2.43.0


From 0c244eb3e3d72a63de0f04f126786e928a388eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:19 +0000
Subject: [PATCH 08/55] fix: do not skip stray characters in front of a value

'.', '/', '^', '_', '`' and '\\' in front of a name or a value were silently
dropped, so [.5] parsed as 5 and, with unquoted strings allowed, /var/log parsed
as var/log. They now start an unquoted string when those are allowed and are an
illegal character otherwise.
---
 include/json_struct/json_struct.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 0646161..228f1d0 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2273,13 +2273,14 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_LIKELY(lc & Internal::AsciiLetters))
+    else if (JSON_STRUCT_LIKELY(lc & Internal::AsciiLetters) ||
+             (allow_ascii_properties && (lc & Internal::HatUnderscoreAprostoph)))
     {
       *type = Type::Ascii;
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_UNLIKELY(lc == 0))
+    else if (JSON_STRUCT_UNLIKELY(!(lc & Internal::WhiteSpaceOrNull)))
     {
       *chars_ahead = current_pos - cursor_index;
       return Error::EncounteredIllegalChar;
-- 
2.43.0


From 8be0406234f9cdbdcdf32b6f5e36816efb8bf1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:19 +0000
Subject: [PATCH 09/55] fix: reject unquoted strings in arrays unless they are
 allowed

Unquoted values were rejected in objects, but accepted as array elements.
---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 228f1d0..add3cf9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2800,6 +2800,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       expecting_prop_or_anonymous_data = false;
       if (token_state == InTokenState::FindingName)
       {
+        if (tmp_token.name_type == Type::Ascii && !allow_ascii_properties)
+          return Error::IllegalDataValue;
         populate_anonymous_token(tmp_token.name, tmp_token.name_type, next_token);
         return Error::NoError;
       }
-- 
2.43.0


From 0cf605d95a0e21ce30fd03483e9c33f2434fd0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:41 +0000
Subject: [PATCH 10/55] fix: reject an object member without a value

{"a":} was tokenized as a member with the value "}".
---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index add3cf9..2a17ebd 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2865,6 +2865,9 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       if (tmp_token.value_type == Type::Ascii && !allow_ascii_properties)
         return Error::IllegalDataValue;
 
+      if (type == Type::ObjectEnd || type == Type::ArrayEnd)
+        return Error::ExpectedDataToken;
+
       if (type == Type::ObjectStart || type == Type::ArrayStart)
       {
         token_state = InTokenState::FindingName;
-- 
2.43.0


From ae898bb173ebaf1a978851630683e17a1eca12ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:41 +0000
Subject: [PATCH 11/55] fix: reject a container without a name inside an object

{{}} and {[]} were accepted.
---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2a17ebd..63f1de8 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2765,6 +2765,10 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
 
         case Type::ObjectStart:
         case Type::ArrayStart:
+          if (container_stack.size() && container_stack.back() == Type::ObjectStart)
+          {
+            return Error::ExpectedPropertyName;
+          }
           populate_anonymous_token(data, type, next_token);
           expecting_prop_or_anonymous_data = false;
           token_state = InTokenState::FindingName;
-- 
2.43.0


From 416855e20c7216393c62dd58fc27c52be2b1f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:22 +0000
Subject: [PATCH 12/55] fix: an unquoted string can start with the '/' that
 ends a buffer

With comments allowed, a '/' ending a buffer is either the start of a comment or
of an unquoted string, which the next buffer decides.
---
 include/json_struct/json_struct.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 63f1de8..e27f9fa 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2147,7 +2147,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
 
   if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NotInComment))
   {
-    Error comment_error = continueComment(json_data, Error::NoError);
+    Error comment_error = continueComment(json_data, Error::EncounteredIllegalChar);
     if (comment_error != Error::NoError)
       return comment_error;
   }
@@ -2711,6 +2711,29 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
     tmp_token.name = DataRef(intermediate_token.name);
     tmp_token.name_type = Internal::getType(intermediate_token.name_type, tmp_token.name.data, tmp_token.name.size);
   }
+  if (JSON_STRUCT_UNLIKELY(comment_state == InCommentState::FoundSlash && allow_ascii_properties &&
+                           (token_state == InTokenState::FindingName || token_state == InTokenState::FindingData) &&
+                           cursor_index < json_data.size && json_data.data[cursor_index] != '/'))
+  {
+    // The '/' that ended the previous buffer was the start of an unquoted string
+    comment_state = InCommentState::NotInComment;
+    property_state = InPropertyState::FindingEnd;
+    property_type = Type::Ascii;
+    current_data_start = cursor_index;
+    intermediate_token.active = true;
+    if (token_state == InTokenState::FindingName)
+    {
+      intermediate_token.name = "/";
+      intermediate_token.name_type = Type::Ascii;
+      intermediate_token.name_type_set = true;
+    }
+    else
+    {
+      intermediate_token.data = "/";
+      intermediate_token.data_type = Type::Ascii;
+      intermediate_token.data_type_set = true;
+    }
+  }
   while (cursor_index < json_data.size)
   {
     size_t diff = 0;
-- 
2.43.0


From 2e95add795540c80381a5613caa5fc214c17c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:06 +0000
Subject: [PATCH 13/55] fix: parse numbers with more digits than the
 significand can hold

Digits that did not fit were dropped without scaling the value, so a double of
123456789012345678901234 parsed as 1.2e19 and a uint64_t of 2^64 wrapped to 0.
Leading zeros were counted as significant digits: a small decimal with 19 zeros
divided by zero and crashed, 0e999 was infinite. A number without any digit is
now an error.
---
 include/json_struct/json_struct.h | 73 +++++++++++++++----------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e27f9fa..23d838a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8025,13 +8025,16 @@ inline bool is_space(char a)
   return false;
 }
 
-template <typename T, bool NoDigitCount>
+template <typename T>
 inline parse_string_error parseNumber(const char *number, size_t size, parsed_string<T> &parsedString)
 {
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
-  int desimal_position = -1;
-  bool increase_significand = true;
+  bool desimal_point_found = false;
+  bool digit_found = false;
+  bool keep_digits = true;
+  // exponent of the last digit that was kept in the significand
+  int significand_exponent = 0;
 
   parsedString.negative = false;
   parsedString.inf = 0;
@@ -8059,43 +8062,42 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 
     if (c == '.')
     {
-      if (desimal_position >= 0)
+      if (desimal_point_found)
         return parse_string_error::multiple_commas;
-      desimal_position = parsedString.significand_digit_count;
+      desimal_point_found = true;
     }
     else
     {
-      bool keep_digit = NoDigitCount;
-      if (!keep_digit)
-        keep_digit = parsedString.significand_digit_count < 19;
-      if (keep_digit)
+      const T digit = T(int(c) - '0');
+      digit_found = true;
+      if (parsedString.significand == 0 && digit == 0)
+      {
+        // leading zeros are not part of the significand
+        if (desimal_point_found)
+          significand_exponent--;
+      }
+      else if (keep_digits && parsedString.significand <= (T(~T(0)) - digit) / T(10))
       {
-        parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
+        parsedString.significand = parsedString.significand * T(10) + digit;
         parsedString.significand_digit_count++;
+        if (desimal_point_found)
+          significand_exponent--;
       }
-      else if (increase_significand && parsedString.significand_digit_count < 20)
+      else
       {
-        increase_significand = false;
-        uint64_t digit = uint64_t(c) - '0';
-        static_assert(NoDigitCount || std::is_same<T, uint64_t>::value,
-                      "When NoDigitCount is used the significand type has to be uint64_t");
-        auto biggest_multiplier = (std::numeric_limits<uint64_t>::max() - digit) / parsedString.significand;
-
-        if (biggest_multiplier >= 10)
-        {
-          parsedString.significand = parsedString.significand * uint64_t(10) + digit;
-          parsedString.significand_digit_count++;
-        }
+        // the significand is full; keep only the magnitude of the remaining digits
+        keep_digits = false;
+        if (!desimal_point_found)
+          significand_exponent++;
       }
     }
     current++;
   }
+  if (!digit_found)
+    return parse_string_error::invalid_format;
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
-    if (desimal_position >= 0)
-      parsedString.exp = desimal_position - parsedString.significand_digit_count;
-    else
-      parsedString.exp = 0;
+    parsedString.exp = significand_exponent;
     return parse_string_error::ok;
   }
   current++;
@@ -8136,10 +8138,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (exponent_nagative)
     exponent = -exponent;
 
-  if (desimal_position >= 0)
-    parsedString.exp = desimal_position - parsedString.significand_digit_count + exponent;
-  else
-    parsedString.exp = exponent;
+  parsedString.exp = significand_exponent + exponent;
   return parse_string_error::ok;
 }
 
@@ -8171,6 +8170,10 @@ inline uint64_t getPow10(uint32_t pow)
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
+  if (parsed.significand == 0)
+  {
+    return make_zero<T>(parsed.negative);
+  }
   int base10exponent = parsed.exp + parsed.significand_digit_count - 1;
   if (base10exponent > float_info<T>::max_base10_exponent())
   {
@@ -8180,10 +8183,6 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   {
     return make_zero<T>(parsed.negative);
   }
-  if (parsed.significand == 0)
-  {
-    return make_zero<T>(parsed.negative);
-  }
 
 #if 1
   if (parsed.significand < ((uint64_t(1) << 53)) && iabs<int>(parsed.exp) < count_chars((uint64_t(1) << 53)))
@@ -8382,7 +8381,7 @@ inline parse_string_error to_integer(const char *str, size_t size, T &target, co
   using SignificandType =
     typename std::conditional<sizeof(T) <= sizeof(uint64_t), uint64_t, typename std::make_unsigned<T>::type>::type;
   parsed_string<SignificandType> ps;
-  auto parseResult = parseNumber<SignificandType, true>(str, size, ps);
+  auto parseResult = parseNumber<SignificandType>(str, size, ps);
   endptr = ps.endptr;
   if (parseResult != parse_string_error::ok)
   {
@@ -8639,7 +8638,7 @@ template <typename T>
 inline parse_string_error to_ieee_t(const char *str, size_t size, T &target, const char *(&endptr))
 {
   parsed_string<uint64_t> ps;
-  auto parseResult = parseNumber<uint64_t, false>(str, size, ps);
+  auto parseResult = parseNumber<uint64_t>(str, size, ps);
   endptr = ps.endptr;
   if (parseResult != parse_string_error::ok)
   {
@@ -8656,7 +8655,7 @@ template <>
 inline parse_string_error to_ieee_t<float>(const char *str, size_t size, float &target, const char *(&endptr))
 {
   parsed_string<uint64_t> ps;
-  auto parseResult = parseNumber<uint64_t, false>(str, size, ps);
+  auto parseResult = parseNumber<uint64_t>(str, size, ps);
   endptr = ps.endptr;
   if (parseResult != parse_string_error::ok)
   {
-- 
2.43.0


From 1f19d432da65836e8a0baefa66f6023b2887149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:06 +0000
Subject: [PATCH 14/55] fix: saturate integers instead of wrapping or losing
 the sign

2e19 wrapped around for a uint64_t, 0e20 was the maximum, and a negative number
parsed into an unsigned integer became positive.
---
 include/json_struct/json_struct.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 23d838a..191d6be 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8333,8 +8333,10 @@ inline typename std::enable_if<std::is_signed<T>::value, T>::type make_integer_r
 
 template <typename T, typename SignificandType>
 inline typename std::enable_if<std::is_unsigned<T>::value, T>::type make_integer_return_value(
-  SignificandType significand, bool)
+  SignificandType significand, bool negative)
 {
+  if (negative)
+    return std::numeric_limits<T>::min();
   if (SignificandType(significand) > SignificandType(std::numeric_limits<T>::max()))
     return std::numeric_limits<T>::max();
   return T(significand);
@@ -8363,11 +8365,12 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
   }
   else if (exp > 0)
   {
-    int chars_in_sig = count_chars(significand);
-    if (exp > ft::StaticLog10<T, std::numeric_limits<T>::max(), 0, 0, true>::get() - chars_in_sig)
-      return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
+    if (significand == 0)
+      return T(0);
     while (exp > 0)
     {
+      if (significand > SignificandType(~SignificandType(0)) / 10)
+        return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
       significand *= 10;
       exp--;
     }
-- 
2.43.0


From f4d48c998a07c3da3fc3bc59a6e8831503fbe6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 15/55] fix: an object or an array is not a string

Parsing {"a":{"b":1}} into a string member "a" took the bracket as the string and
then read the members of the nested object as members of the outer one.
---
 include/json_struct/json_struct.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 191d6be..5605852 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6222,6 +6222,11 @@ struct TypeHandler<std::string>
   static inline Error to(std::string &to_type, ParseContext &context)
   {
     to_type.clear();
+    if (context.token.value_type == Type::ObjectStart || context.token.value_type == Type::ArrayStart)
+    {
+      Internal::skipArrayOrObject(context);
+      return context.error;
+    }
     Internal::handle_json_escapes_in(context.token.value, to_type);
     return Error::NoError;
   }
-- 
2.43.0


From 39a353a72ed25d0c25fbb7c85712f9547623f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 16/55] fix: serialize members with an empty name

The name and the ':' of a member called "" were dropped, which made the output
invalid JSON.
---
 include/json_struct/json_struct.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5605852..9e0e996 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1577,6 +1577,7 @@ private:
 
   bool m_first;
   bool m_token_start;
+  std::vector<bool> m_in_object;
   SerializerOptions m_option;
 };
 
@@ -3351,6 +3352,8 @@ inline bool Serializer::write(const Token &in_token)
       return false;
     }
     m_option.setDepth(m_option.depth() - 1);
+    if (m_in_object.size())
+      m_in_object.pop_back();
   }
 
   bool shortcut_front = false;
@@ -3428,7 +3431,7 @@ inline bool Serializer::write(const Token &in_token)
       if (!write(m_option.prefix()))
         return false;
   }
-  if (token.name.size)
+  if (token.name.size || (!isEnd && m_in_object.size() && m_in_object.back()))
   {
     if (!write(token.name_type, token.name))
       return false;
@@ -3452,6 +3455,7 @@ inline bool Serializer::write(const Token &in_token)
   if (m_token_start)
   {
     m_option.setDepth(m_option.depth() + 1);
+    m_in_object.push_back(token.value_type == Type::ObjectStart);
   }
   return true;
 }
-- 
2.43.0


From fec36e359eab8b304de65aa053be40dcdb71de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 17/55] fix: compact output has no line breaks, whatever the
 shift size

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9e0e996..a392423 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3357,7 +3357,7 @@ inline bool Serializer::write(const Token &in_token)
   }
 
   bool shortcut_front = false;
-  if (m_option.shiftSize() == 2 && !m_first)
+  if (m_option.style() == SerializerOptions::Pretty && m_option.shiftSize() == 2 && !m_first)
   {
     if (!m_token_start && !isEnd && m_option.tokenDelimiter().empty())
     {
-- 
2.43.0


From d75700772f49f54945da9365a163e552d21f32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 18/55] fix: captured json replaces what was captured before

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a392423..b79b021 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9395,6 +9395,7 @@ struct TypeHandler<JsonArray>
     if (context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedArrayStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9474,6 +9475,7 @@ struct TypeHandler<JsonObject>
     if (context.token.value_type != JS::Type::ObjectStart)
       return Error::ExpectedObjectStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9580,6 +9582,7 @@ struct TypeHandler<JsonObjectOrArray>
       return Error::ExpectedObjectStart;
     }
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
-- 
2.43.0


From 21acd0df4800f9e227b07769723082c5fadd773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 19/55] fix: stop capturing into a JsonArray when parsing it
 failed

---
 include/json_struct/json_struct.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b79b021..6f7f4d5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9409,8 +9409,7 @@ struct TypeHandler<JsonArray>
         level--;
     }
 
-    if (error == JS::Error::NoError)
-      context.tokenizer.copyIncludingValue(context.token, to_type.data);
+    context.tokenizer.copyIncludingValue(context.token, to_type.data);
 
     return error;
   }
-- 
2.43.0


From 6c0b47616615f411689237f8da0d11e1244ac00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 20/55] fix: reject numbers that are not a value of the enum

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6f7f4d5..34f8663 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5939,6 +5939,8 @@ struct EnumHandler
       auto err = TypeHandler<enum_int_t>::to(tmp, context);
       if (err != Error::NoError)
         return err;
+      if (tmp < 0 || static_cast<size_t>(tmp) >= F::strings().size())
+        return Error::IllegalDataValue;
       to_type = static_cast<T>(tmp);
       return Error::NoError;
     }
-- 
2.43.0


From 78466b1de7b8f043963700023537107559ea1179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 21/55] fix: enumerators can start with an underscore

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 34f8663..dc52fa6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5699,7 +5699,7 @@ void populateEnumNames(std::vector<DataRef> &names, const char (&data)[N])
     switch (state)
     {
     case ParseEnumStringState::FindingNameStart:
-      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
+      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_')
       {
         name_starts_at = i;
         state = ParseEnumStringState::FindingNameEnd;
-- 
2.43.0


From f2dab45ba06f3e2672b8065af60fc9089334125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 22/55] fix: a single value replaces the contents of a
 OneOrMany

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index dc52fa6..4cc1612 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9797,6 +9797,7 @@ public:
     }
     else
     {
+      to_type.data.clear();
       to_type.data.push_back(T());
       context.error = TypeHandler<T>::to(to_type.data.back(), context);
     }
-- 
2.43.0


From 4b59830ad699033927a55923e9a6222eba10907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 23/55] fix: set the size of a completely filled
 ArrayVariableContent

---
 include/json_struct/json_struct.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4cc1612..72b2bf0 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10258,18 +10258,17 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
       return JS::Error::ExpectedArrayStart;
 
     context.nextToken();
+    to_type.size = 0;
     for (size_t i = 0; i < COUNT; i++)
     {
       if (context.error != JS::Error::NoError)
         return context.error;
       if (context.token.value_type == Type::ArrayEnd)
-      {
-        to_type.size = i;
         break;
-      }
       context.error = TypeHandler<T>::to(to_type.data[i], context);
       if (context.error != JS::Error::NoError)
         return context.error;
+      to_type.size = i + 1;
 
       context.nextToken();
     }
-- 
2.43.0


From 79312791b33cf9f2a83689ecc38cca013cc40ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 24/55] fix: a scalar replaces the contents of a token list

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 72b2bf0..fbd7584 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9307,6 +9307,7 @@ public:
   {
     if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
     {
+      to_type.clear();
       to_type.push_back(context.token);
       return context.error;
     }
-- 
2.43.0


From f7d07aa4e0f0ec83a789e6f7b45fa4c39a24535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 25/55] fix: do not store a map value that could not be parsed

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index fbd7584..5e782ab 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9881,9 +9881,9 @@ struct TypeHandlerMap
       Key key(str.data(), str.size());
       Value v;
       error = TypeHandler<Value>::to(v, context);
-      to_type[std::move(key)] = std::move(v);
       if (error != JS::Error::NoError)
         return error;
+      to_type[std::move(key)] = std::move(v);
       error = context.nextToken();
       if (error != JS::Error::NoError)
         return error;
-- 
2.43.0


From c605c98d3cfa38b745518a2d3d6bde0ea3b1e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 26/55] fix: serialize references that refer to nothing as an
 empty object or array

---
 include/json_struct/json_struct.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5e782ab..cdf6e17 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9383,7 +9383,7 @@ struct TypeHandler<JsonArrayRef>
 
   static inline void from(const JsonArrayRef &from_type, Token &token, Serializer &serializer)
   {
-    token.value = from_type.ref;
+    token.value = from_type.ref.size ? from_type.ref : DataRef("[]");
     token.value_type = Type::Verbatim;
     serializer.write(token);
   }
@@ -9462,7 +9462,7 @@ struct TypeHandler<JsonObjectRef>
 
   static inline void from(const JsonObjectRef &from_type, Token &token, Serializer &serializer)
   {
-    token.value = from_type.ref;
+    token.value = from_type.ref.size ? from_type.ref : DataRef("{}");
     token.value_type = Type::Verbatim;
     serializer.write(token);
   }
@@ -9555,7 +9555,7 @@ struct TypeHandler<JsonObjectOrArrayRef>
 
   static inline void from(const JsonObjectOrArrayRef &from_type, Token &token, Serializer &serializer)
   {
-    token.value = from_type.ref;
+    token.value = from_type.ref.size ? from_type.ref : DataRef("{}");
     token.value_type = Type::Verbatim;
     serializer.write(token);
   }
-- 
2.43.0


From 0a13c3368de23038f20ee23857620fa0eedd85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:12 +0000
Subject: [PATCH 27/55] fix: saturate 64 bit integers with a digit too many

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index cdf6e17..e277d23 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6268,6 +6268,8 @@ template <typename T>
 struct parsed_string : float_base10<T>
 {
   const char *endptr;
+  // digits were left out because the significand cannot hold them
+  bool truncated = false;
 };
 
 enum class parse_string_error
@@ -8053,6 +8055,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   parsedString.significand_digit_count = 0;
   parsedString.significand = 0;
   parsedString.exp = 0;
+  parsedString.truncated = false;
 
   const char *number_end = number + size;
   current = find_if(number, number_end, [](const char a) { return !is_space(a); });
@@ -8098,6 +8101,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
       {
         // the significand is full; keep only the magnitude of the remaining digits
         keep_digits = false;
+        parsedString.truncated = true;
         if (!desimal_point_found)
           significand_exponent++;
       }
@@ -8378,6 +8382,8 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
   {
     if (significand == 0)
       return T(0);
+    if (parsed.truncated)
+      return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
     while (exp > 0)
     {
       if (significand > SignificandType(~SignificandType(0)) / 10)
-- 
2.43.0


From ef7ac36c5e956db047575167cc5d5ff2a8f57a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:36 +0000
Subject: [PATCH 28/55] fix: print the shortest decimal text of floating point
 numbers

---
 include/json_struct/json_struct.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e277d23..badb514 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7602,20 +7602,17 @@ inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_sma
     c_next = c / 10;
     i++;
   }
-  if (accept_smaller && all_a_zero && a % 10 == 0)
+  if (accept_smaller && all_a_zero)
   {
-    while (!(a_next % 10))
+    while (a && a % 10 == 0)
     {
       b_remainder = b % 10;
 
       all_b_zero &= bool(!b_remainder);
 
-      a = a_next;
-      b = b_next;
-      c = c_next;
-      a_next = a / 10;
-      b_next = b / 10;
-      c_next = c / 10;
+      a /= 10;
+      b /= 10;
+      c /= 10;
       i++;
     }
   }
@@ -7822,8 +7819,11 @@ static float_base10<SignificandType> decode(T f)
       }
     }
   }
-  auto cache_value = exp >= 0 ? cache_values<T>::greater_than_equals(q) : cache_values<T>::less_than(-exp - q);
-  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, true);
+  const uint64_t *cached = exp >= 0 ? cache_values<T>::greater_than_equals(q) : cache_values<T>::less_than(-exp - q);
+  uint64_t cache_value[2] = {cached[0], sizeof(T) > sizeof(float) ? cached[1] : 0};
+  if (exp >= 0)
+    cache_value[0]++; // the cached reciprocals are rounded down, exact results need them rounded up
+  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, false);
   uint64_t b = multiply_and_shift<T>(mentissa, cache_value, shift_right, false);
   uint64_t c = multiply_and_shift<T>(w, cache_value, shift_right, false);
 
-- 
2.43.0


From c0318bfd5710f779e26eb81551849035c2d3aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:48 +0000
Subject: [PATCH 29/55] fix: count scopes nested deeper than 65535 levels

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index badb514..6de663e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1332,7 +1332,7 @@ namespace Internal
 struct ScopeCounter
 {
   JS::Type type;
-  uint16_t depth;
+  size_t depth;
   inline void handleType(JS::Type in_type)
   {
     if (type == JS::Type::ArrayStart || type == JS::Type::ObjectStart)
-- 
2.43.0


From af5657557218d2e33b6f910bdafb811abe8a2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:48 +0000
Subject: [PATCH 30/55] fix: an enclosing scope sees the end of the scopes
 inside it

---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6de663e..672fbf7 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1835,7 +1835,11 @@ inline void Tokenizer::pushScope(JS::Type type)
 inline void Tokenizer::popScope()
 {
   assert(scope_counter.size() && scope_counter.back().depth == 0);
+  const Type type = scope_counter.back().type;
   scope_counter.pop_back();
+  // the token that ended the scope is part of the enclosing scope too
+  if (scope_counter.size() && (type == Type::ArrayStart || type == Type::ObjectStart))
+    scope_counter.back().handleType(Type(static_cast<int>(type) + 1));
 }
 
 inline JS::Error Tokenizer::goToEndOfScope(JS::Token &token)
-- 
2.43.0


From 5fd6e72326842aac96ea8d658494a8246507cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:35 +0000
Subject: [PATCH 31/55] fix: documents following each other are not separated
 by a comma

Serializing or reformatting a stream of documents joined them with a comma
at the top level, which the tokenizer rejects.
---
 include/json_struct/json_struct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 672fbf7..f7f0332 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3408,7 +3408,8 @@ inline bool Serializer::write(const Token &in_token)
 
   if (!shortcut_front)
   {
-    if (!m_token_start)
+    // documents following each other at the top level are not separated by a comma
+    if (!m_token_start && m_option.depth() > 0)
     {
       if (!isEnd)
       {
-- 
2.43.0


From 74ee1840ce9ed62f4285880c4debec701e83f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:31 +0000
Subject: [PATCH 32/55] fix: do not print the lower neighbour of a floating
 point number

The lower end of the interval was used as the shortest text also when it
reads back as another number (2^-140f, 2^275, 2^574).
---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f7f0332..f376b9d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7625,7 +7625,7 @@ inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_sma
 
   bool is_tie = b_remainder == 5 && all_b_zero;
   bool want_to_round_down = b_remainder < 5 || (is_tie && break_tie_down);
-  bool round_down = (want_to_round_down && (a != b || all_a_zero)) || (b + 1 > c);
+  bool round_down = (want_to_round_down && (a != b || (accept_smaller && all_a_zero))) || (b + 1 > c);
   if (round_down)
   {
     shortest_base10 = b;
-- 
2.43.0


From 9a45e63538586c6e4ab7b8f6ce51376a451868de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:31 +0000
Subject: [PATCH 33/55] fix: round floats next to half the smallest denormal
 and to the overflow limit

Texts just above half the smallest denormal float were parsed as 0 and texts
just below the overflow midpoint as infinity.
---
 include/json_struct/json_struct.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f376b9d..2be55a3 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8571,19 +8571,21 @@ inline bool float_mantissa_is_even(float g)
 
 inline float correctly_round_float(const char *str, size_t size, double d, float f)
 {
-  if (f != f || f == 0.0f)
+  if (f != f || d == 0.0)
     return f;
-  float af = f < 0.0f ? -f : f;
+  float af = std::fabs(f);
   JS_FP_NONFINITE_DIAG_PUSH
-  if (!std::isfinite(af))
+  if (!std::isfinite(d))
     return f;
+  if (!std::isfinite(af))
+    af = (std::numeric_limits<float>::max)();
   double ad = d < 0.0 ? -d : d;
   float up = std::nextafter(af, std::numeric_limits<float>::infinity());
   float dn = std::nextafter(af, 0.0f);
-  bool have_up = up > af && std::isfinite(up);
+  double mid_hi = std::isfinite(up) ? 0.5 * (double(af) + double(up)) : double(af) + 0.5 * (double(af) - double(dn));
   double ulp_d = std::nextafter(ad, std::numeric_limits<double>::infinity()) - ad;
   JS_FP_NONFINITE_DIAG_POP
-  bool near_hi = have_up && std::fabs(ad - 0.5 * (double(af) + double(up))) <= 4.0 * ulp_d;
+  bool near_hi = std::fabs(ad - mid_hi) <= 4.0 * ulp_d;
   bool near_lo = std::fabs(ad - 0.5 * (double(dn) + double(af))) <= 4.0 * ulp_d;
   if (!near_hi && !near_lo)
     return f;
@@ -8638,7 +8640,10 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
   {
     big_uint_cmp mid;
     int e2;
-    float_pair_midpoint(af, up, mid, e2);
+    float_to_int_pow2(af, mid, e2); // up is the next float, also when that is infinity
+    mid.mul_small(2);
+    mid.add_small(1);
+    e2 -= 1;
     int c = compare_value_scaled(digits, decimal_exp, mid, e2);
     if (c > 0)
       mag = up;
-- 
2.43.0


From b91047652a7b473eae1f726ebdcc4d31c2481864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 34/55] fix: leave the error of a Map conversion in the parse
 context

map.castTo<int>("name", context) left context.error at NoError when the
member is not a number, so the failure could not be seen.
---
 include/json_struct/json_struct.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2be55a3..925fadf 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10046,7 +10046,8 @@ struct Map
   {
     parseContext.tokenizer.resetData(&tokens.data, 0);
     parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
@@ -10055,7 +10056,8 @@ struct Map
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
     parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
-- 
2.43.0


From 39b543956aaa32fe0ee616f43651d7d0b00bcead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 35/55] fix: escape and unescape the names of Map members

setValue wrote the name as it is, so a name with a quote gave broken JSON,
and members with an escaped name were not found. Looking up the empty name
found the end of the object.
---
 include/json_struct/json_struct.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 925fadf..494ca75 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10037,8 +10037,15 @@ struct Map
 
   inline It find(const std::string &name) const
   {
-    return std::find_if(begin(), end(),
-                        [&name](const Token &token) { return Internal::compareDataRefWithString(token.name, name); });
+    return std::find_if(begin(), end(), [&name](const Token &token) {
+      if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+        return false;
+      if (!memchr(token.name.data, '\\', token.name.size))
+        return Internal::compareDataRefWithString(token.name, name);
+      std::string unescaped;
+      Internal::handle_json_escapes_in(token.name, unescaped);
+      return unescaped == name;
+    });
   }
 
   template <typename T>
@@ -10183,7 +10190,8 @@ struct Map
     token.value = DataRef(objectStart);
     serializeContext.serializer.write(token);
 
-    token.name = DataRef(name);
+    std::string escaped_name;
+    token.name = Internal::handle_json_escapes_out(name, escaped_name);
     token.name_type = Type::String;
     JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
 
-- 
2.43.0


From 3846113cf0b56152119630ec29419529bca81995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 36/55] fix: keep the metadata of a Map in step when setting
 members

Setting a member to a value that serializes to nothing counted a child that
is not there, has_data was never updated, and only the first one of several
members with the same name was replaced.
---
 include/json_struct/json_struct.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 494ca75..e35d7ea 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10137,8 +10137,7 @@ struct Map
       meta = JS::metaForTokens(tokens);
     }
 
-    auto it = find(name);
-    if (it != end())
+    for (auto it = find(name); it != end(); it = find(name))
     {
       meta[0].children--;
       int tokens_removed = 0;
@@ -10204,6 +10203,13 @@ struct Map
     JS::JsonTokens new_tokens;
     JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
     auto new_meta = metaForTokens(new_tokens);
+    auto has_data = [](const Token &t) {
+      return t.value_type != Type::ObjectStart && t.value_type != Type::ObjectEnd && t.value_type != Type::ArrayStart &&
+             t.value_type != Type::ArrayEnd;
+    };
+    meta[0].has_data = new_meta[0].has_data || std::any_of(tokens.data.begin(), tokens.data.end(), has_data);
+    if (new_tokens.data.size() < 3)
+      return JS::Error::NoError; // the value is not there, like an empty optional
 
     json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
     int old_tokens_size = int(tokens.data.size());
-- 
2.43.0


From dd5c6a0ba033910577173337e2f0ebfa6178d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 37/55] fix: a copy of a Map refers to its own data

The tokens of members set with setValue pointed into the strings of the map
that was copied.
---
 include/json_struct/json_struct.h | 32 +++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e35d7ea..9e73e6d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10016,6 +10016,26 @@ struct Map
   std::vector<JsonMeta> meta;
   std::vector<std::pair<int, std::string>> json_data;
 
+  Map() = default;
+  Map(Map &&other) = default;
+  Map &operator=(Map &&other) = default;
+  Map(const Map &other)
+    : tokens(other.tokens)
+    , meta(other.meta)
+    , json_data(other.json_data)
+  {
+    // tokens set with setValue refer to json_data
+    for (auto &token : tokens.data)
+    {
+      token.name.data = rebased(other, token.name.data);
+      token.value.data = rebased(other, token.value.data);
+    }
+  }
+  Map &operator=(const Map &other)
+  {
+    return *this = Map(other);
+  }
+
   inline It begin() const
   {
     It b(*this);
@@ -10235,6 +10255,18 @@ struct Map
 
     return JS::Error::NoError;
   }
+
+private:
+  const char *rebased(const Map &other, const char *data) const
+  {
+    for (size_t i = 0; i < json_data.size(); i++)
+    {
+      const std::string &from = other.json_data[i].second;
+      if (!std::less<const char *>()(data, from.data()) && !std::less<const char *>()(from.data() + from.size(), data))
+        return json_data[i].second.data() + (data - from.data());
+    }
+    return data;
+  }
 };
 
 template <>
-- 
2.43.0


From 0ed7e30a485bef163c3264b5e2007b2f4c9a741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 38/55] fix: parsing into a Map drops the data of members set
 before

The leftover entries of json_data described other tokens, and could be
matched with a member by index.
---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9e73e6d..59c29ba 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10275,6 +10275,7 @@ struct TypeHandler<Map>
   static inline Error to(Map &to_type, ParseContext &context)
   {
     Error error = TypeHandler<JS::JsonTokens>::to(to_type.tokens, context);
+    to_type.json_data.clear();
     if (error == Error::NoError)
     {
       to_type.meta = metaForTokens(to_type.tokens);
-- 
2.43.0


From 939be20740de0ff4f8c64f192c945d1ead94141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 39/55] fix: an empty token list has no tokens

Reading from an empty token vector, as when converting an empty Map, read
past its end.
---
 include/json_struct/json_struct.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 59c29ba..c62e7d3 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1702,6 +1702,11 @@ inline Error Tokenizer::nextToken(Token &next_token)
   {
     return Error::ScopeHasEnded;
   }
+  if (parsed_data_vector && cursor_index >= parsed_data_vector->size())
+  {
+    cursor_index = 0;
+    parsed_data_vector = nullptr;
+  }
   if (parsed_data_vector)
   {
     next_token = (*parsed_data_vector)[cursor_index];
@@ -10072,7 +10077,8 @@ struct Map
   JS::Error castToType(JS::ParseContext &parseContext, T &to) const
   {
     parseContext.tokenizer.resetData(&tokens.data, 0);
-    parseContext.nextToken();
+    if (parseContext.nextToken() != JS::Error::NoError)
+      return parseContext.error;
     parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
     return parseContext.error;
   }
-- 
2.43.0


From 99ab15764309aa0e89d799cfd4bb6325393c8139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:29 +0000
Subject: [PATCH 40/55] fix: adjust the metadata of a Map when replacing a
 simple member

The positions of the objects and arrays after the member were not updated,
so that later lookups read the wrong tokens.
---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c62e7d3..9686bf3 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10189,6 +10189,10 @@ struct Map
         meta[0].size--;
         tokens.data.erase(tokens.data.begin() + it.index);
         tokens_removed = 1;
+        for (int i = int(it.next_meta); i < int(meta.size()); i++)
+        {
+          meta[i].position--;
+        }
       }
       {
         int index_to_remove = -1;
-- 
2.43.0


From 0fcbf6f2970568a23d265d55df671fc5f5da1047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 41/55] fix: strings of a copied Map are not stored in place

A short string keeps its data inside of itself, so moving it to another
place left the tokens behind.
---
 include/json_struct/json_struct.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9686bf3..48df326 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10027,9 +10027,14 @@ struct Map
   Map(const Map &other)
     : tokens(other.tokens)
     , meta(other.meta)
-    , json_data(other.json_data)
   {
-    // tokens set with setValue refer to json_data
+    // tokens set with setValue refer to json_data, whose strings keep their data when they are moved
+    for (auto &entry : other.json_data)
+    {
+      json_data.emplace_back(entry.first, std::string());
+      json_data.back().second.reserve(entry.second.size() + 64);
+      json_data.back().second.append(entry.second);
+    }
     for (auto &token : tokens.data)
     {
       token.name.data = rebased(other, token.name.data);
-- 
2.43.0


From 023dda01456fb4469a569c3ffa2f30a19728f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 42/55] fix: mark all new items of an array in a diff

When the first new item was an array, only that array was marked and not
the items after it.
---
 include/json_struct/json_struct_diff.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index f580e16..889d1c2 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -687,15 +687,10 @@ namespace Internal
                     // New items in array.
                     if (baseToken.value_type == Type::ArrayEnd)
                     {
-                        int arrayEndCount = 0;
-                        while (arrayEndCount >= 0)
+                        while (diff.tokens.data[dPos].value_type != Type::ArrayEnd)
                         {
-                            diff.set(dPos++, DiffType::NewArrayItem);
-                            const Token& dToken = diff.tokens.data[dPos];
-                            if (dToken.value_type == Type::ArrayStart)
-                                arrayEndCount++;
-                            else if (dToken.value_type == Type::ArrayEnd)
-                                arrayEndCount--;
+                            setStateForEntireToken(diff, dPos, DiffType::NewArrayItem);
+                            diff.skip(&dPos);
                         }
                         arrayDiffDone = true;
                     }
-- 
2.43.0


From d80a4b61efd836341eb632390a22987898434ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 43/55] fix: mark the contents of array items of another type
 in a diff

The tokens inside of an object or array that replaced another item were
marked as unchanged, unlike those of object members.
---
 include/json_struct/json_struct_diff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 889d1c2..89b290f 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -709,7 +709,7 @@ namespace Internal
                     }
                     else
                     {
-                        diff.set(dPos, DiffType::TypeDiff);
+                        setStateForEntireToken(diff, dPos, DiffType::TypeDiff);
                         base.skip(&bPos);
                         diff.skip(&dPos);
                     }
-- 
2.43.0


From 81f157b7349c148392de294397f883fae0d45ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 44/55] fix: forget the missing array items of earlier diffs

After changeBase or invalidate they were reported again together with the
new ones.
---
 include/json_struct/json_struct_diff.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 89b290f..086c41e 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -118,6 +118,7 @@ struct DiffTokens
     void invalidate()
     {
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         error = DiffError::NoError;
         diff_count = 0;
@@ -128,6 +129,7 @@ struct DiffTokens
     {
         tokens.data.clear();
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         meta.clear();
         error = DiffError::NoError;
-- 
2.43.0


From 84f4d39600414cb002fc118dc2b603909a1271cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 45/55] fix: diff documents with very large and very small
 numbers

std::stod throws for numbers that are out of range.
---
 include/json_struct/json_struct_diff.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 086c41e..12e9c18 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -439,6 +439,8 @@ namespace Internal
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
         {
+            if (d1 == d2)//-V550
+                return true;
             double diff = d2 - d1;
             return diff > 0 ? (diff <= epsilon) : (-diff <= epsilon);
         }
@@ -453,8 +455,8 @@ namespace Internal
 
         inline void diffNumberValues(const Token &baseToken, const Token &diffToken, DiffTokens &diff, const size_t diffPos, const DiffOptions &options)
         {
-            double baseValue = std::stod(std::string(baseToken.value.data, baseToken.value.size));
-            double diffValue = std::stod(std::string(diffToken.value.data, diffToken.value.size));
+            double baseValue = std::strtod(std::string(baseToken.value.data, baseToken.value.size).c_str(), nullptr);
+            double diffValue = std::strtod(std::string(diffToken.value.data, diffToken.value.size).c_str(), nullptr);
 
             if (options.flags & DiffFlags::FuzzyFloatComparison)
             {
-- 
2.43.0


From 7b9fcebcaa3bfc1545c281d15d3414e5138c52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 46/55] fix: diff an empty document

After changeBase on a context with an empty base the token at position 0 of
the empty token list was accessed.
---
 include/json_struct/json_struct_diff.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 12e9c18..39e2f36 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -739,12 +739,7 @@ namespace Internal
             }
             else if (base.tokens.data.size() && diff.tokens.data.empty())
             {
-                if (base.tokens.data[0].value_type == Type::ObjectStart)
-                    diff.addMissingMembers(0, base, 0);
-                else if (base.tokens.data[0].value_type == Type::ArrayStart)
-                    diff.addMissingArrayItems(0, base, 0);
-                else
-                    setStateForEntireToken(diff, 0, DiffType::ErroneousRootItem);
+                diff.diff_count = base.tokens.data.size(); // Everything is missing, there is no token to mark.
             }
             else
             {
-- 
2.43.0


From 2156f9c77e3660b88c071721ec7f629f5cade9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 47/55] fix: end callFunctions where the document breaks off

When the rest of an argument could not be skipped, because the document was
malformed or ended, popScope was called in the middle of the scope.
---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 48df326..283d15f 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5606,7 +5606,12 @@ inline Error CallFunctionContext::callFunctions(T &container)
       parse_context.error = error;
     }
     Internal::add_error(execution_list.back(), parse_context);
-    parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    const Error scope_error = parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    if (scope_error != Error::NoError)
+    {
+      parse_context.error = scope_error;
+      return scope_error;
+    }
     parse_context.tokenizer.popScope();
     if (error == Error::MissingFunction && allow_missing)
       error = Error::NoError;
-- 
2.43.0


From 06180fc13daab70f434a1c81a4ae2bea1def3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 48/55] fix: keep the execution states of earlier documents in
 callFunctions

A document that is not an object overwrote the error of the last function
called from the document before.
---
 include/json_struct/json_struct.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 283d15f..1b23c08 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5577,7 +5577,10 @@ inline Error CallFunctionContext::callFunctions(T &container)
     return error;
   if (parse_context.token.value_type != JS::Type::ObjectStart)
   {
-    return error_context.setError(Error::ExpectedObjectStart, "Can only call functions on objects with members");
+    // there is no execution state for this document: the states of earlier ones are left as they are
+    parse_context.error = Error::ExpectedObjectStart;
+    return parse_context.tokenizer.updateErrorContext(Error::ExpectedObjectStart,
+                                                      "Can only call functions on objects with members");
   }
   error = parse_context.nextToken();
   if (error != JS::Error::NoError)
-- 
2.43.0


From a6e2cd460329abf9b5f0be34430cab490e9a0ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 49/55] fix: clear the custom message of the error context

The message set by a function was reported again for later, unrelated
errors.
---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1b23c08..b3371fe 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1321,6 +1321,7 @@ public:
     line = 0;
     character = 0;
     error = Error::NoError;
+    custom_message.clear();
     lines.clear();
   }
 };
-- 
2.43.0


From d192fd4eae9ba68bd15c90f41415425d1616cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:53 +0000
Subject: [PATCH 50/55] fix: let a SerializerContext be used again after flush

What was written after a flush went behind the end of the string and was
overwritten with zeros by the next flush.
---
 include/json_struct/json_struct.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b3371fe..99f3394 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4765,8 +4765,8 @@ struct SerializerContext
     serializer.setBuffer(&json_out[0], json_out.size());
     serializer.setRequestBufferCallback([this](Serializer &serializer_p) {
       size_t end = this->json_out.size();
-      this->json_out.resize(end * 2);
-      serializer_p.setBuffer(&(this->json_out[0]) + end, end);
+      this->json_out.resize(end ? end * 2 : 4096);
+      serializer_p.setBuffer(&(this->json_out[0]) + end, this->json_out.size() - end);
       this->last_pos = end;
     });
   }
@@ -4787,6 +4787,8 @@ struct SerializerContext
   void flush()
   {
     json_out.resize(last_pos + serializer.currentBuffer().used);
+    last_pos = json_out.size();
+    serializer.setBuffer(&json_out[0] + last_pos, 0);
   }
 
   Serializer serializer;
-- 
2.43.0


From ecf8e8ba32445aef6af4e83e423b10fe67e70aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:37 +0000
Subject: [PATCH 51/55] fix: do not treat the tokens of a token list as one
 text in error reports

The distance between the values of unrelated tokens was used as size of the
text to quote, reading out of bounds for instance for the tokens of a Map.
---
 include/json_struct/json_struct.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 99f3394..e4682b6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2954,14 +2954,11 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
     return error;
 
+  // tokens need not come from one text: of those only the last one read is quoted
+  const bool from_tokens = parsed_data_vector && parsed_data_vector->size();
   const DataRef json_data =
-    parsed_data_vector && parsed_data_vector->size()
-      ? DataRef(parsed_data_vector->front().value.data,
-                size_t(parsed_data_vector->back().value.data - parsed_data_vector->front().value.data))
-      : data_list.front();
-  int64_t real_cursor_index = parsed_data_vector && parsed_data_vector->size()
-                                ? int64_t(parsed_data_vector->at(cursor_index).value.data - json_data.data)
-                                : int64_t(cursor_index);
+    from_tokens ? parsed_data_vector->at(cursor_index > 0 ? cursor_index - 1 : 0).value : data_list.front();
+  int64_t real_cursor_index = from_tokens ? 0 : int64_t(cursor_index);
   const int64_t stop_back = real_cursor_index - std::min(int64_t(real_cursor_index), int64_t(line_range_context));
   const int64_t stop_forward = std::min(real_cursor_index + int64_t(line_range_context), int64_t(json_data.size));
   std::vector<Internal::Lines> lines;
-- 
2.43.0


From 2bc0b1bf14c12dca8c21896e76b5a4845b2bc4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:37 +0000
Subject: [PATCH 52/55] fix: replace the error context instead of adding to it

An error reported after another one for the same token quoted the lines
twice.
---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e4682b6..5f2368c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2949,6 +2949,7 @@ struct Lines
 
 JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const std::string &custom_message)
 {
+  error_context.clear();
   error_context.error = error;
   error_context.custom_message = custom_message;
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
-- 
2.43.0


From 52d16caa482af27b9431591209a8c89dbdd5353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:37 +0000
Subject: [PATCH 53/55] fix: point at the right column in error reports

The marker was at the first column when the error was in the first of
several lines and one column too far in the others. A newline at the start
or the end of the text was quoted as part of a line, and the last
character of the last line was left out.
---
 include/json_struct/json_struct.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5f2368c..b324631 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2969,14 +2969,12 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   int64_t lines_forward = 0;
   int64_t cursor_back;
   int64_t cursor_forward;
-  for (cursor_back = real_cursor_index - 1; cursor_back > stop_back; cursor_back--)
+  for (cursor_back = real_cursor_index - 1; cursor_back >= stop_back; cursor_back--)
   {
     if (*(json_data.data + cursor_back) == '\n')
     {
       lines.front().start = size_t(cursor_back + 1);
       lines_back++;
-      if (lines_back == 1)
-        error_context.character = size_t(real_cursor_index - cursor_back);
       if (lines_back == int64_t(line_context))
       {
         lines_back--;
@@ -2986,8 +2984,8 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       lines.insert(lines.begin(), {0, size_t(cursor_back)});
     }
   }
-  if (lines.front().start == 0 && cursor_back > 0)
-    lines.front().start = size_t(cursor_back);
+  if (lines.front().start == 0 && cursor_back < stop_back)
+    lines.front().start = size_t(stop_back);
   bool add_new_line = false;
   for (cursor_forward = real_cursor_index; cursor_forward < stop_forward; cursor_forward++)
   {
@@ -3005,11 +3003,12 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       add_new_line = true;
     }
   }
-  if (lines.back().end == 0)
-    lines.back().end = size_t(cursor_forward - 1);
+  if (!add_new_line && cursor_forward == stop_forward)
+    lines.back().end = size_t(cursor_forward);
 
   if (lines.size() > 1)
   {
+    error_context.character = size_t(real_cursor_index) - lines[size_t(lines_back)].start;
     error_context.lines.reserve(lines.size());
     for (auto &line : lines)
     {
@@ -3021,10 +3020,8 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   {
     error_context.line = 0;
 
-    int64_t left = real_cursor_index > int64_t(range_context) ? real_cursor_index - int64_t(range_context) : 0;
-    int64_t right = real_cursor_index + int64_t(range_context) > int64_t(json_data.size)
-                      ? int64_t(json_data.size)
-                      : real_cursor_index + int64_t(range_context);
+    int64_t left = std::max(real_cursor_index - int64_t(range_context), int64_t(lines.front().start));
+    int64_t right = std::min(real_cursor_index + int64_t(range_context), int64_t(lines.front().end));
     error_context.character = size_t(real_cursor_index - left);
     error_context.lines.push_back(std::string(json_data.data + left, size_t(right - left)));
   }
-- 
2.43.0


From a199c958052b16f24a534f3ce4bce1df93bebce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:37 +0000
Subject: [PATCH 54/55] fix: clear the error context when reading from a token
 list

The report of an error in a token list was that of an earlier error of the
same context.
---
 include/json_struct/json_struct.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b324631..d51d5fc 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1708,6 +1708,7 @@ inline Error Tokenizer::nextToken(Token &next_token)
     cursor_index = 0;
     parsed_data_vector = nullptr;
   }
+  error_context.clear();
   if (parsed_data_vector)
   {
     next_token = (*parsed_data_vector)[cursor_index];
@@ -1726,8 +1727,6 @@ inline Error Tokenizer::nextToken(Token &next_token)
     requestMoreData();
   }
 
-  error_context.clear();
-
   if (JSON_STRUCT_UNLIKELY(data_list.empty()))
   {
     return Error::NeedMoreData;
-- 
2.43.0


From 717acb0ff26feb349267f8afb9a45e151a57657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:42 +0000
Subject: [PATCH 55/55] fix: start afresh when the input of a tokenizer is
 replaced

resetData kept the stack of open containers and the state of a token that
was not complete, so a context that had failed in the middle of a document
rejected, or misread, the next one.
---
 include/json_struct/json_struct.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d51d5fc..96f12ca 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1412,6 +1412,7 @@ private:
     InComment
   };
 
+  void resetForNewDocument();
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1664,7 +1665,7 @@ inline void Tokenizer::resetData(const char *data, size_t size, size_t index)
   parsed_data_vector = nullptr;
   cursor_index = index;
   addData(data, size);
-  resetForNewToken();
+  resetForNewDocument();
 }
 
 inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t index)
@@ -1677,7 +1678,7 @@ inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t in
   data_list.clear();
   parsed_data_vector = parsedData;
   cursor_index = index;
-  resetForNewToken();
+  resetForNewDocument();
 }
 
 inline size_t Tokenizer::registeredBuffers() const
@@ -1926,6 +1927,16 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
   range_context = rangeContext;
 }
 
+inline void Tokenizer::resetForNewDocument()
+{
+  container_stack.clear();
+  token_state = InTokenState::FindingName;
+  is_escaped = false;
+  expecting_prop_or_anonymous_data = false;
+  continue_after_need_more_data = false;
+  resetForNewToken();
+}
+
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
-- 
2.43.0

