From 35dc11d7596dc271b68a6701ad63c90cf3327c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 01/33] fix: decode JSON escapes in object keys

Vocabulary entries, template pieces and padding strategies whose keys are
written with escapes (such as "\u0120the" or "\"") kept the escape
sequence as their text.
---
 src/added_vocabulary.cpp | 2 +-
 src/post_processor.cpp   | 4 ++--
 src/utils.cpp            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d7f86b5..34381f7 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -327,7 +327,7 @@ std::unique_ptr<AddedVocabulary> with_added_vocabulary(
     simdjson::ondemand::object added_token_param = val.get_object();
     AddedToken added_token;
     for (auto element : added_token_param) {
-      auto key = element.escaped_key();
+      auto key = element.unescaped_key();
       if (key.value() == "id") {
         added_token.id = static_cast<int>(element.value().get_int64());
       } else if (key.value() == "content") {
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 135c730..a0b78d8 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -53,7 +53,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
@@ -70,7 +70,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
diff --git a/src/utils.cpp b/src/utils.cpp
index 8d1c6f4..efd6d54 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -255,7 +255,7 @@ std::unique_ptr<Padding> with_padding(
       simdjson::ondemand::object strategy_obj = val.get_object().value();
       for (auto field : strategy_obj) {
         strategy =
-            std::string(static_cast<std::string_view>(field.escaped_key()));
+            std::string(static_cast<std::string_view>(field.unescaped_key()));
         fixed_size = static_cast<int>(field.value().get_int64());
       }
     } else {
@@ -289,7 +289,7 @@ std::unordered_map<std::string, int> get_map_ints_from_json(
   std::unordered_map<std::string, int> result;
   for (auto element : json_object) {
     result.insert(
-        {std::string(static_cast<std::string_view>(element.escaped_key())),
+        {std::string(static_cast<std::string_view>(element.unescaped_key())),
          static_cast<int>(element.value().get_int64())});
   }
   return result;
-- 
2.43.0


From e8b3263ccea17d9b5b1ad5a8ad4791b9489ce34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 02/33] fix: truncation windows cover every token and always
 end

Left truncation shifted each window by one extra token (and never ended
when max_length - stride was 1), a stride not smaller than max_length
looped forever, an unknown direction read past an empty list, and a
max_length of 0 returned the whole encoding instead of an empty one with
everything in overflowing.
---
 src/utils.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index efd6d54..e495963 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -51,13 +52,19 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     return encoding;
   }
   if (max_length == 0) {
+    Encoding empty_encoding;
     encoding.overflowing = {};
-    return encoding;
+    empty_encoding.overflowing.push_back(encoding);
+    return empty_encoding;
+  }
+  if (stride < 0 || stride >= max_length) {
+    throw std::invalid_argument(
+        "Truncation stride must be strictly less than max_length!");
   }
   int offset = max_length - stride;
   bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
-  if (direction == RIGHT_TRUNCATION_DIRECTION) {
+  if (direction != LEFT_TRUNCATION_DIRECTION) {
     for (int start = 0; start < encoding.ids.size(); start += offset) {
       if (!end) {
         int stop = std::min(start + max_length, encoding_length);
@@ -65,9 +72,8 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
         parts_ranges.push_back({start, stop});
       }
     }
-  } else if (direction == LEFT_TRUNCATION_DIRECTION) {
-    for (int stop = encoding.ids.size() - 1; stop >= 0; stop -= offset) {
-      stop += 1;
+  } else {
+    for (int stop = encoding_length; stop > 0; stop -= offset) {
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
         end = start == 0;
-- 
2.43.0


From 08d0dd47847476ef6cbb5fd0bca8b0ea8cd87a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 03/33] fix: no integer overflow when rounding a padding length
 up

---
 src/utils.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index e495963..1cbd2e7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -2,6 +2,8 @@
 #include "tokenizers/utils.h"
 
 #include <algorithm>
+#include <cstdint>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <stdexcept>
@@ -237,11 +239,15 @@ Encoding pad(Encoding encoding, int target_length, int pad_id, int pad_type_id,
 }
 
 Encoding Padding::pad_encoding(const Encoding& encoding) const {
-  int pad_length =
-      strategy == FIXED_PADDING_STRATEGY ? fixed_size : encoding.ids.size();
+  int64_t pad_length = strategy == FIXED_PADDING_STRATEGY
+                           ? fixed_size
+                           : static_cast<int64_t>(encoding.ids.size());
   if (pad_to_multiple_of > 0 && pad_length % pad_to_multiple_of > 0) {
     pad_length += pad_to_multiple_of - pad_length % pad_to_multiple_of;
   }
+  if (pad_length > std::numeric_limits<int>::max()) {
+    throw std::length_error("Padding length is too large!");
+  }
   return pad(encoding, pad_length, pad_id, pad_type_id, pad_token, direction);
 }
 
-- 
2.43.0


From 50250a1735d14254ed4c60b3098aa15af22e3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 04/33] fix: template processing keeps and frames overflowing
 encodings

The parts produced by truncation were dropped by TemplateProcessing.
---
 src/post_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index a0b78d8..8f01b20 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -202,6 +202,10 @@ Encoding TemplateProcessing::process(Encoding encoding,
                                  final_encoding.attention_mask.begin(),
                                  final_encoding.attention_mask.end());
   }
+  for (const Encoding& overflowing_encoding : encoding.overflowing) {
+    result.overflowing.push_back(
+        process(overflowing_encoding, add_special_tokens));
+  }
   return result;
 }
 
-- 
2.43.0


From 99b4a826be654fc4243314cdd1ca2cea4ca0d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 05/33] fix: truncation leaves room for the template's special
 tokens

The special tokens were added after truncating to max_length, so encodings
came out longer than max_length.
---
 include/tokenizers/post_processor.h |  4 ++++
 include/tokenizers/utils.h          |  4 +++-
 src/post_processor.cpp              | 22 ++++++++++++++++++++++
 src/tokenizer.cpp                   |  5 ++++-
 src/utils.cpp                       |  4 +++-
 5 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/tokenizers/post_processor.h b/include/tokenizers/post_processor.h
index 445c05f..66db0f5 100644
--- a/include/tokenizers/post_processor.h
+++ b/include/tokenizers/post_processor.h
@@ -43,6 +43,8 @@ class PostProcessor {
   virtual ~PostProcessor() = default;
   virtual Encoding process(Encoding encoding,
                            bool add_special_tokens) const = 0;
+  // Number of tokens process() inserts when special tokens are requested.
+  virtual int added_tokens() const { return 0; }
 };
 
 std::unique_ptr<PostProcessor> with_post_processor(
@@ -54,6 +56,7 @@ class TemplateProcessing : public PostProcessor {
                      const std::vector<std::pair<std::string, Piece>> &pair,
                      const std::vector<SpecialToken> &special_tokens);
   Encoding process(Encoding encoding, bool add_special_tokens) const override;
+  int added_tokens() const override;
 
  private:
   std::vector<std::pair<std::string, Piece>> single;
@@ -79,6 +82,7 @@ class SequenceProcessing : public PostProcessor {
   explicit SequenceProcessing(
       std::vector<std::unique_ptr<PostProcessor>> processors);
   Encoding process(Encoding encoding, bool add_special_tokens) const override;
+  int added_tokens() const override;
 
  private:
   std::vector<std::unique_ptr<PostProcessor>> processors;
diff --git a/include/tokenizers/utils.h b/include/tokenizers/utils.h
index c4dfab9..93d862a 100644
--- a/include/tokenizers/utils.h
+++ b/include/tokenizers/utils.h
@@ -32,7 +32,9 @@ class Truncation {
  public:
   Truncation(const std::string &direction, const std::string &strategy,
              int max_length, int stride);
-  Encoding truncate_encoding(Encoding encoding) const;
+  // Keeps `reserved` of the max_length tokens free, for special tokens that
+  // are added afterwards.
+  Encoding truncate_encoding(Encoding encoding, int reserved = 0) const;
 
  private:
   TRUNCATION_DIRECTION direction;
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 8f01b20..fe93d85 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -209,6 +209,20 @@ Encoding TemplateProcessing::process(Encoding encoding,
   return result;
 }
 
+int TemplateProcessing::added_tokens() const {
+  int result = 0;
+  for (const auto& piece : single) {
+    auto it = std::find_if(special_tokens.begin(), special_tokens.end(),
+                           [&piece](const SpecialToken& special_token_it) {
+                             return special_token_it.id == piece.second.id;
+                           });
+    if (piece.first == "SpecialToken" && it != special_tokens.end()) {
+      result += it->ids.size();
+    }
+  }
+  return result;
+}
+
 Encoding ByteLevelProcessing::process_offsets(const Encoding& encoding,
                                               bool add_prefix_space) const {
   Encoding new_encoding = encoding;
@@ -287,3 +301,11 @@ Encoding SequenceProcessing::process(Encoding encoding,
       });
   return encoding;
 }
+
+int SequenceProcessing::added_tokens() const {
+  return std::accumulate(
+      processors.begin(), processors.end(), 0,
+      [](int acc, const std::unique_ptr<PostProcessor>& processor) {
+        return acc + processor->added_tokens();
+      });
+}
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e5ffd6d..aca463b 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -173,7 +173,10 @@ Encoding Tokenizer::do_tokenize(PreTokenizedString pre_tokenized,
 Encoding Tokenizer::do_post_process(Encoding encoding,
                                     bool add_special_tokens) const {
   if (truncation != nullptr) {
-    encoding = truncation->truncate_encoding(encoding);
+    int reserved = add_special_tokens && post_processor != nullptr
+                       ? post_processor->added_tokens()
+                       : 0;
+    encoding = truncation->truncate_encoding(encoding, reserved);
   }
   if (post_processor != nullptr) {
     encoding = post_processor->process(encoding, add_special_tokens);
diff --git a/src/utils.cpp b/src/utils.cpp
index 1cbd2e7..d7038bf 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -122,7 +122,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
   return new_encoding;
 }
 
-Encoding Truncation::truncate_encoding(Encoding encoding) const {
+Encoding Truncation::truncate_encoding(Encoding encoding, int reserved) const {
+  int max_length =
+      this->max_length > reserved ? this->max_length - reserved : 0;
   if (max_length == 0) {
     return truncate(encoding, 0, stride, direction);
   }
-- 
2.43.0


From 881ac18ab4d7e0d008d20057d217835477f98b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 06/33] fix: implement the Replace, ByteFallback, Fuse and
 Strip decoders

They are documented as supported but returned no tokens, so decoding with
any of them gave an empty string.
---
 src/decoder.cpp | 76 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 72 insertions(+), 4 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 65b6665..5b53dca 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -155,21 +155,71 @@ ReplaceDecoder::ReplaceDecoder(const std::string& pattern,
 
 std::vector<std::string> ReplaceDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (!pattern.empty()) {
+    for (std::string& token : tokens) {
+      token = replace(token, pattern, content);
+    }
+  }
+  return tokens;
 }
 
 ByteFallbackDecoder::ByteFallbackDecoder() {}
 
+bool is_byte_token(const std::string& token) {
+  return token.size() == 6 && token.compare(0, 3, "<0x") == 0 &&
+         token[5] == '>' &&
+         token.find_first_not_of("0123456789abcdefABCDEF", 3) == 5;
+}
+
+// The text a run of bytes encodes, or one replacement character per byte if
+// the run is not valid UTF-8.
+std::string decode_bytes(const std::string& bytes) {
+  int32_t i = 0, length = bytes.size();
+  while (i < length) {
+    UChar32 c;
+    U8_NEXT(bytes.data(), i, length, c);
+    if (c < 0) {
+      std::string result;
+      for (int32_t j = 0; j < length; j++) {
+        result += "\xEF\xBF\xBD";
+      }
+      return result;
+    }
+  }
+  return bytes;
+}
+
 std::vector<std::string> ByteFallbackDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::vector<std::string> result;
+  std::string bytes;
+  for (const std::string& token : tokens) {
+    if (is_byte_token(token)) {
+      bytes.push_back(
+          static_cast<char>(std::stoi(token.substr(3, 2), nullptr, 16)));
+      continue;
+    }
+    if (!bytes.empty()) {
+      result.push_back(decode_bytes(bytes));
+      bytes.clear();
+    }
+    result.push_back(token);
+  }
+  if (!bytes.empty()) {
+    result.push_back(decode_bytes(bytes));
+  }
+  return result;
 }
 
 FuseDecoder::FuseDecoder() {}
 
 std::vector<std::string> FuseDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::string result;
+  for (const std::string& token : tokens) {
+    result += token;
+  }
+  return {result};
 }
 
 StripDecoder::StripDecoder(const std::string& content, int start, int stop)
@@ -177,7 +227,25 @@ StripDecoder::StripDecoder(const std::string& content, int start, int stop)
 
 std::vector<std::string> StripDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (content.empty()) {
+    return tokens;
+  }
+  for (std::string& token : tokens) {
+    size_t begin = 0, end = token.size();
+    for (int i = 0; i < start && end - begin >= content.size() &&
+                    token.compare(begin, content.size(), content) == 0;
+         i++) {
+      begin += content.size();
+    }
+    for (int i = 0;
+         i < stop && end - begin >= content.size() &&
+         token.compare(end - content.size(), content.size(), content) == 0;
+         i++) {
+      end -= content.size();
+    }
+    token = token.substr(begin, end - begin);
+  }
+  return tokens;
 }
 
 SequenceDecoder::SequenceDecoder(std::vector<std::unique_ptr<Decoder>> decoders)
-- 
2.43.0


From 57ba43a7bcb11a5fdb2ce0fb263a0b006042af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 07/33] fix: byte-level decoding of every byte and of other
 tokens

Characters were cut to their low byte before the lookup, so the bytes
0x7F-0xA0 and 0xAD were never restored, and tokens that are not made of
byte-level characters (added tokens) came out mangled.
---
 src/decoder.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 5b53dca..63a3f9c 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -271,15 +271,19 @@ std::vector<std::string> ByteLevelDecoder::decode_chain(
   std::string result;
   for (const auto& token : tokens) {
     icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
-    for (int i = 0; i < unicode_token.length(); i++) {
-      auto ch = unicode_token.char32At(i);
-      auto it = CHAR_BYTES.find(std::string(1, ch));
+    std::string bytes;
+    bool is_byte_level = true;
+    for (int i = 0; i < unicode_token.length() && is_byte_level; i++) {
+      std::string ch;
+      unicode_token.tempSubString(i, 1).toUTF8String(ch);
+      auto it = CHAR_BYTES.find(ch);
       if (it != CHAR_BYTES.end()) {
-        result.push_back(static_cast<char>(it->second));
+        bytes.push_back(static_cast<char>(it->second));
       } else {
-        result.push_back(ch);
+        is_byte_level = false;
       }
     }
+    result += is_byte_level ? bytes : token;
   }
 
   return {result};
-- 
2.43.0


From 6729269c00292675b736cd01e2b773a532acb31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 08/33] fix: align normalized strings by code point

The alignment was built per UTF-16 unit, so every supplementary character
was counted twice and all later offsets were wrong.
---
 src/normalizer.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0e7f22a..7baf7f3 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -42,20 +42,18 @@ NORMALIZER get_normalizer(std::string type) {
   return UNKNOWN_NORMALIZER;
 }
 
+int utf8_length(wchar_t c) {
+  return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
+}
+
 NormalizedString::NormalizedString(std::wstring normalized)
     : normalized(normalized) {
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.c_str()),
-      normalized.length());
   int idx = 0;
-  for (int i = 0; i < unicode_normalized.length(); i++) {
-    icu::UnicodeString unicode_normalized_str;
-    unicode_normalized_str.append(unicode_normalized.char32At(i));
-    std::string normalized_str;
-    unicode_normalized_str.toUTF8String(normalized_str);
-    offset_ranges.push_back({idx, normalized_str.length()});
-    idx += normalized_str.length();
-    for (int j = 0; j < normalized_str.length(); j++) {
+  for (int i = 0; i < normalized.length(); i++) {
+    int length = utf8_length(normalized[i]);
+    offset_ranges.push_back({idx, length});
+    idx += length;
+    for (int j = 0; j < length; j++) {
       offsets.push_back({i, i + 1});
     }
   }
-- 
2.43.0


From 99019fdae593eb671e696314b161fc6225a6bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 09/33] fix: keep the alignment through Unicode normalization

Every changed character was assumed to become exactly two, so Hangul,
compositions, ligatures and combining sequences left the alignment out of
step with the text (wrong offsets, reads out of bounds).
---
 include/tokenizers/normalizer.h |   6 +
 src/normalizer.cpp              | 194 +++++++++++---------------------
 2 files changed, 72 insertions(+), 128 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 8031913..0a212a1 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -42,6 +42,12 @@ class NormalizedString {
   explicit NormalizedString(std::wstring normalized);
   NormalizedString(std::wstring normalized,
                    const std::vector<std::pair<int, int>> &offsets);
+  // Range of the original text the i-th character comes from.
+  std::pair<int, int> source(int i) const;
+  // Replaces the characters; sources[i] is the range of the original text the
+  // i-th new character comes from.
+  void assign(const std::wstring &characters,
+              const std::vector<std::pair<int, int>> &sources);
   void transform(int i, std::string op, int n);
   void transform_range(std::pair<int, int> original_offsets,
                        NormalizedString sub_normalized);
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 7baf7f3..2529e72 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -1,7 +1,7 @@
 // Copyright 2024 Omkar Prabhu
 #include "tokenizers/normalizer.h"
 
-#include <unicode/normlzr.h>
+#include <unicode/normalizer2.h>
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
@@ -199,6 +199,23 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
                  sub_normalized.offsets.begin(), sub_normalized.offsets.end());
 }
 
+std::pair<int, int> NormalizedString::source(int i) const {
+  return offsets[offset_ranges[i].first];
+}
+
+void NormalizedString::assign(
+    const std::wstring& characters,
+    const std::vector<std::pair<int, int>>& sources) {
+  normalized = characters;
+  offsets.clear();
+  offset_ranges.clear();
+  for (int i = 0; i < characters.length(); i++) {
+    int length = utf8_length(characters[i]);
+    offset_ranges.push_back({static_cast<int>(offsets.size()), length});
+    offsets.insert(offsets.end(), length, sources[i]);
+  }
+}
+
 void NormalizedString::transform(int i, std::string op, int n) {
   int start = offset_ranges[i].first;
   int limit = offset_ranges[i].second;
@@ -247,156 +264,77 @@ void NormalizedString::transform(int i, std::string op, int n) {
   }
 }
 
-NFC::NFC() {}
-
-NormalizedString NFC::normalize(NormalizedString normalized) const {
-  UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFC, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
+// Normalizes segment by segment: characters of a segment that normalization
+// leaves alone keep their source, those of a changed one come from all of it.
+NormalizedString normalize_unicode(NormalizedString normalized,
+                                   const icu::Normalizer2* normalizer,
+                                   UErrorCode status) {
   std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
+  std::vector<std::pair<int, int>> sources;
+  int length = normalized.normalized.length();
+  for (int start = 0, end; start < length && U_SUCCESS(status); start = end) {
+    end = start + 1;
+    while (end < length &&
+           !normalizer->hasBoundaryBefore(normalized.normalized[end])) {
+      end++;
+    }
+    icu::UnicodeString segment = icu::UnicodeString::fromUTF32(
+        reinterpret_cast<const UChar32*>(&normalized.normalized[start]),
+        end - start);
+    icu::UnicodeString unicode_normalized =
+        normalizer->normalize(segment, status);
+    bool changed = unicode_normalized != segment;
+    for (int i = 0, j = start; i < unicode_normalized.length();
+         i = unicode_normalized.moveIndex32(i, 1), j++) {
+      result.push_back(unicode_normalized.char32At(i));
+      sources.push_back(changed ? std::make_pair(
+                                      normalized.source(start).first,
+                                      normalized.source(end - 1).second)
+                                : normalized.source(j));
     }
   }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU normalization failed with error code: " +
+                             std::to_string(status));
   }
-  normalized.normalized = result;
+  normalized.assign(result, sources);
   return normalized;
 }
 
+NFC::NFC() {}
+
+NormalizedString NFC::normalize(NormalizedString normalized) const {
+  UErrorCode status = U_ZERO_ERROR;
+  const icu::Normalizer2* normalizer =
+      icu::Normalizer2::getNFCInstance(status);
+  return normalize_unicode(normalized, normalizer, status);
+}
+
 NFD::NFD() {}
 
 NormalizedString NFD::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFD, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* normalizer =
+      icu::Normalizer2::getNFDInstance(status);
+  return normalize_unicode(normalized, normalizer, status);
 }
 
 NFKC::NFKC() {}
 
 NormalizedString NFKC::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKC, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* normalizer =
+      icu::Normalizer2::getNFKCInstance(status);
+  return normalize_unicode(normalized, normalizer, status);
 }
 
 NFKD::NFKD() {}
 
 NormalizedString NFKD::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKD, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* normalizer =
+      icu::Normalizer2::getNFKDInstance(status);
+  return normalize_unicode(normalized, normalizer, status);
 }
 
 BertNormalizer::BertNormalizer(bool clean_text, bool handle_chinese_chars,
-- 
2.43.0


From 280cdd75bab35342df504805c14b096ca5ab1e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 10/33] fix: classify and lowercase characters by Unicode, not
 by locale

isw*/tow* depend on the process locale; in the C locale only ASCII was
cleaned and lowercased by BertNormalizer.
---
 src/normalizer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 2529e72..0aca9ff 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -367,7 +367,7 @@ bool is_whitespace(wchar_t c) {
     case L'\r':
       return true;
     default:
-      return std::iswspace(c);
+      return u_isUWhiteSpace(c);
   }
 }
 
@@ -378,7 +378,7 @@ bool is_control(wchar_t c) {
     case L'\r':
       return false;
     default:
-      return std::iswcntrl(c);
+      return (U_GET_GC_MASK(c) & U_GC_C_MASK) != 0;
   }
 }
 
@@ -469,7 +469,7 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
   std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), std::towlower);
+  std::transform(result.begin(), result.end(), result.begin(), u_tolower);
   normalized.normalized = result;
   return normalized;
 }
-- 
2.43.0


From ae2f679a991dd8462abe260fdc0ee4809de7ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 11/33] fix: BertNormalizer keeps accents when strip_accents is
 false

Lowercasing stripped accents whatever strip_accents said; only a null
strip_accents follows lowercase.
---
 include/tokenizers/normalizer.h |  2 +-
 src/normalizer.cpp              | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 0a212a1..910e791 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -66,7 +66,7 @@ class BertNormalizer : public Normalizer {
  public:
   explicit BertNormalizer(bool clean_text = true,
                           bool handle_chinese_chars = true,
-                          bool strip_accents = false, bool lowercase = true);
+                          bool strip_accents = true, bool lowercase = true);
   NormalizedString normalize(NormalizedString normalized) const override;
 
  private:
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0aca9ff..a5227ab 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -121,14 +121,15 @@ std::unique_ptr<Normalizer> with_normalizer(
         val.type() == simdjson::ondemand::json_type::null
             ? false
             : static_cast<bool>(val.get_bool());
-    val = normalizer_params["strip_accents"].value();
-    bool strip_accents = val.type() == simdjson::ondemand::json_type::null
-                             ? false
-                             : static_cast<bool>(val.get_bool());
     val = normalizer_params["lowercase"].value();
     bool lowercase = val.type() == simdjson::ondemand::json_type::null
                          ? false
                          : static_cast<bool>(val.get_bool());
+    // accents are stripped together with case unless configured otherwise
+    val = normalizer_params["strip_accents"].value();
+    bool strip_accents = val.type() == simdjson::ondemand::json_type::null
+                             ? lowercase
+                             : static_cast<bool>(val.get_bool());
     return std::make_unique<BertNormalizer>(BertNormalizer(
         clean_text, handle_chinese_chars, strip_accents, lowercase));
   } else if (get_normalizer(type) == STRIP_NORMALIZER) {
@@ -351,7 +352,7 @@ NormalizedString BertNormalizer::normalize(NormalizedString normalized) const {
   if (handle_chinese_chars) {
     normalized = do_handle_chinese_chars(normalized);
   }
-  if (strip_accents || lowercase) {
+  if (strip_accents) {
     normalized = do_strip_accents(normalized);
   }
   if (lowercase) {
-- 
2.43.0


From ef026a2fcf83230c010c59a10d5642e9dae2083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 12/33] fix: the CJK extension E block starts at U+2B820

---
 src/normalizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index a5227ab..e8bcf5c 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -386,7 +386,7 @@ bool is_control(wchar_t c) {
 bool is_chinese_char(wchar_t c) {
   return (c >= 0x4E00 && c <= 0x9FFF) || (c >= 0x3400 && c <= 0x4DBF) ||
          (c >= 0x20000 && c <= 0x2A6DF) || (c >= 0x2A700 && c <= 0x2B73F) ||
-         (c >= 0x2B740 && c <= 0x2B81F) || (c >= 0x2B920 && c <= 0x2CEAF) ||
+         (c >= 0x2B740 && c <= 0x2B81F) || (c >= 0x2B820 && c <= 0x2CEAF) ||
          (c >= 0xF900 && c <= 0xFAFF) || (c >= 0x2F800 && c <= 0x2FA1F);
 }
 
-- 
2.43.0


From bca87bf3fc2bb921ac049aeb2c2114c56a2e4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 13/33] fix: keep the alignment through BertNormalizer

Removing characters left the alignment of the following ones unshifted, and
with two or more removals erased the wrong entries or read out of bounds;
lowercasing can change the number of bytes of a character.
---
 src/normalizer.cpp | 62 ++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 40 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index e8bcf5c..b9fc4a8 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -392,6 +392,7 @@ bool is_chinese_char(wchar_t c) {
 
 NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
   std::wstring result;
+  std::vector<std::pair<int, int>> sources;
   int i = 0;
   for (wchar_t c : normalized.normalized) {
     if (c != 0 && c != 0xFFFD && !is_control(c)) {
@@ -400,78 +401,59 @@ NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
       } else {
         result.push_back(c);
       }
-    } else {
-      normalized.transform(i, "erase", 0);
+      sources.push_back(normalized.source(i));
     }
     i++;
   }
-  normalized.normalized = result;
+  normalized.assign(result, sources);
   return normalized;
 }
 
 NormalizedString BertNormalizer::do_handle_chinese_chars(
     NormalizedString normalized) {
-  std::vector<std::pair<wchar_t, int>> new_chars;
-  std::vector<int> transform_ids;
+  std::wstring result;
+  std::vector<std::pair<int, int>> sources;
   int i = 0;
   for (wchar_t c : normalized.normalized) {
     if (is_chinese_char(c)) {
-      new_chars.insert(new_chars.end(), {{L' ', 0}, {c, 1}, {L' ', 1}});
-      transform_ids.push_back(i);
-    } else {
-      new_chars.push_back({c, 0});
-    }
-    i++;
-  }
-  int multi = 0;
-  for (auto ti : transform_ids) {
-    ti += multi;
-    multi += 2;
-    normalized.transform(ti, "pad", 0);
-  }
-  std::wstring result = normalized.normalized;
-  i = 0;
-  for (const auto& change : new_chars) {
-    if (change.second > 0) {
-      result.insert(i, 1, change.first);
-    } else if (change.second < 0) {
-      i += change.second;
-      result.insert(i, 1, change.first);
+      result.append({L' ', c, L' '});
+      sources.insert(sources.end(), 3, normalized.source(i));
     } else {
-      result[i] = change.first;
+      result.push_back(c);
+      sources.push_back(normalized.source(i));
     }
     i++;
   }
-  normalized.normalized = result;
+  normalized.assign(result, sources);
   return normalized;
 }
 
 NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
   auto nfd_normalized = NFD().normalize(normalized);
   std::wstring result;
+  std::vector<std::pair<int, int>> sources;
   int i = 0;
-  std::vector<int> shrink_ids;
   for (wchar_t c : nfd_normalized.normalized) {
     if (u_charType(static_cast<UChar32>(c)) != U_NON_SPACING_MARK) {
       result.push_back(c);
-    } else {
-      shrink_ids.push_back(i);
+      sources.push_back(nfd_normalized.source(i));
     }
     i++;
   }
-  int multi = 0;
-  for (auto id : shrink_ids) {
-    nfd_normalized.transform(id + multi, "shrink", 0);
-    multi -= 1;
-  }
-  nfd_normalized.normalized = result;
+  nfd_normalized.assign(result, sources);
   return nfd_normalized;
 }
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
-  std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), u_tolower);
-  normalized.normalized = result;
+  std::wstring result;
+  std::vector<std::pair<int, int>> sources;
+  int i = 0;
+  for (wchar_t c : normalized.normalized) {
+    result.push_back(u_tolower(c));
+    sources.push_back(normalized.source(i));
+    i++;
+  }
+  normalized.assign(result, sources);
   return normalized;
 }
 
-- 
2.43.0


From e4c9e1673c48ccff457b13bb04129b05720c75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 14/33] fix: Prepend of several characters, and on an empty
 text

The alignment got one entry for the whole prefix, and an empty text was read
out of bounds.
---
 src/normalizer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index b9fc4a8..309bfef 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -475,9 +475,16 @@ NormalizedString SequenceNormalizer::normalize(
 Prepend::Prepend(const std::string& prepend) : prepend(prepend) {}
 
 NormalizedString Prepend::normalize(NormalizedString normalized) const {
-  std::wstring result = convert_from_string(prepend) + normalized.normalized;
-  normalized.transform(0, "add", prepend.length());
-  normalized.normalized = result;
+  if (normalized.normalized.empty()) {
+    return normalized;
+  }
+  std::wstring prefix = convert_from_string(prepend);
+  std::vector<std::pair<int, int>> sources(prefix.length(),
+                                           normalized.source(0));
+  for (int i = 0; i < normalized.normalized.length(); i++) {
+    sources.push_back(normalized.source(i));
+  }
+  normalized.assign(prefix + normalized.normalized, sources);
   return normalized;
 }
 
-- 
2.43.0


From daa30c9902f73478eca43b6d885f1f23b989f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 15/33] fix: Replace substitutes the literal string

The string was used as a regular expression, the text was edited while a
regex iterator ran over it, only one character of each match was removed and
the alignment did not follow.
---
 src/normalizer.cpp | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 309bfef..e0b3dab 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -11,7 +11,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -492,27 +491,29 @@ Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern(convert_from_string(pattern));
-  std::vector<int> replace_ids;
-  std::wsregex_iterator it(normalized.normalized.begin(),
-                           normalized.normalized.end(), regex_pattern);
-  std::wsregex_iterator end;
-  std::wstring replace_content = convert_from_string(content);
-  while (it != end) {
-    std::wsmatch match = *it;
-    replace_ids.push_back(match.position());
-    normalized.normalized.erase(normalized.normalized.begin() +
-                                match.position());
-    normalized.normalized.insert(
-        normalized.normalized.begin() + match.position(),
-        replace_content.begin(), replace_content.end());
-    ++it;
+  std::wstring find = convert_from_string(pattern);
+  if (find.empty()) {
+    return normalized;
   }
-  int multi = 0;
-  for (auto i : replace_ids) {
-    normalized.transform(i + multi, "replace", content.length());
-    multi += replace_content.length();
+  std::wstring replace_content = convert_from_string(content);
+  std::wstring result;
+  std::vector<std::pair<int, int>> sources;
+  size_t i = 0;
+  while (i < normalized.normalized.length()) {
+    if (normalized.normalized.compare(i, find.length(), find) == 0) {
+      std::pair<int, int> match = {
+          normalized.source(i).first,
+          normalized.source(i + find.length() - 1).second};
+      result += replace_content;
+      sources.insert(sources.end(), replace_content.length(), match);
+      i += find.length();
+    } else {
+      result.push_back(normalized.normalized[i]);
+      sources.push_back(normalized.source(i));
+      i++;
+    }
   }
+  normalized.assign(result, sources);
   return normalized;
 }
 
-- 
2.43.0


From 1b559ebedb71a424dff7ccce2649b0222e7f5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 16/33] fix: Strip removes Unicode whitespace only and keeps
 the alignment

Only the low byte of each character was looked at, so letters such as U+0420
were stripped and U+3000 was not; the alignment still had the removed
characters.
---
 src/normalizer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index e0b3dab..1b59555 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -524,18 +524,20 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   int start = 0, end = normalized.normalized.size();
   if (strip_left) {
     while (start < normalized.normalized.size() &&
-           std::isspace(
-               static_cast<unsigned char>(normalized.normalized[start]))) {
+           u_isUWhiteSpace(normalized.normalized[start])) {
       ++start;
     }
   }
   if (strip_right) {
-    while (end > start && std::isspace(static_cast<unsigned char>(
-                              normalized.normalized[end - 1]))) {
+    while (end > start && u_isUWhiteSpace(normalized.normalized[end - 1])) {
       --end;
     }
   }
-  normalized.normalized = normalized.normalized.substr(start, end - start);
+  std::vector<std::pair<int, int>> sources;
+  for (int i = start; i < end; i++) {
+    sources.push_back(normalized.source(i));
+  }
+  normalized.assign(normalized.normalized.substr(start, end - start), sources);
   return normalized;
 }
 
-- 
2.43.0


From 02d66f3798518dd7ecb3faf6898446a96d6e6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 17/33] fix: StripAccents removes every combining mark and
 keeps the alignment

Only U+0300-036F was removed, and the alignment kept the removed marks.
---
 src/normalizer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 1b59555..04d3fbe 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -541,17 +541,23 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   return normalized;
 }
 
-bool isCombiningMark(wchar_t ch) { return (ch >= 0x0300 && ch <= 0x036F); }
+bool isCombiningMark(wchar_t ch) {
+  return (U_GET_GC_MASK(ch) & U_GC_M_MASK) != 0;
+}
 
 StripAccents::StripAccents() {}
 
 NormalizedString StripAccents::normalize(NormalizedString normalized) const {
   std::wstring result;
+  std::vector<std::pair<int, int>> sources;
+  int i = 0;
   for (wchar_t ch : normalized.normalized) {
     if (!isCombiningMark(ch)) {
       result += ch;
+      sources.push_back(normalized.source(i));
     }
+    i++;
   }
-  normalized.normalized = result;
+  normalized.assign(result, sources);
   return normalized;
 }
-- 
2.43.0


From d0faf7c76ca666b86a11007aa0c6f5dd28bd54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 18/33] fix: report an invalid or failing regex with an
 exception

An invalid pattern dereferenced a null pointer, and a failing match silently
ended the search.
---
 src/pre_tokenizer.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 01e7054..49378fa 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -104,14 +104,22 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
     std::string regex, icu::UnicodeString input) {
   std::vector<std::pair<int, int>> matches;
   UErrorCode status = U_ZERO_ERROR;
-  icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
-      icu::UnicodeString::fromUTF8(regex), 0, status);
-  icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
-  while (matcher->find(status)) {
+  std::unique_ptr<icu::RegexPattern> unicode_pattern(
+      icu::RegexPattern::compile(icu::UnicodeString::fromUTF8(regex), 0,
+                                 status));
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("Invalid regex, ICU error code: " +
+                             std::to_string(status));
+  }
+  std::unique_ptr<icu::RegexMatcher> matcher(
+      unicode_pattern->matcher(input, status));
+  while (U_SUCCESS(status) && matcher->find(status)) {
     matches.push_back({matcher->start(status), matcher->end(status)});
   }
-  delete matcher;
-  delete unicode_pattern;
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("Regex matching failed with ICU error code: " +
+                             std::to_string(status));
+  }
 
   std::vector<std::pair<std::pair<int, int>, bool>> result;
   int cur = 0;
-- 
2.43.0


From 08464fe856e50a41fec696cb5e4ed0fa1d6171dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 19/33] fix: the Split pre-tokenizer honours invert

---
 src/pre_tokenizer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 49378fa..3c18b0e 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -237,7 +237,13 @@ PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-    return find_matches(pattern, input);
+    auto matches = find_matches(pattern, input);
+    if (invert) {
+      for (auto& match : matches) {
+        match.second = !match.second;
+      }
+    }
+    return matches;
   };
 
   pre_tokenized.split(matches_regex, behavior);
-- 
2.43.0


From 93c84c3b4ded9be92ad83d08ea98764061a1d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 20/33] fix: positions of pieces count code points, and no
 piece is empty

Pieces after a supplementary character were shifted by one for each, and
empty regex matches produced empty pieces.
---
 src/pre_tokenizer.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 3c18b0e..cb4d895 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -168,16 +168,21 @@ std::vector<Split> split_normalized(
       }
       break;
   }
+  int unit = 0, code_point = original_split.offsets.first;
   for (auto match : matches) {
-    if (!match.second) {
+    int start = code_point + unicode_normalized.countChar32(
+                                 unit, match.first.first - unit);
+    int stop = start + unicode_normalized.countChar32(
+                           match.first.first,
+                           match.first.second - match.first.first);
+    unit = match.first.second;
+    code_point = stop;
+    if (!match.second && start < stop) {
       std::string split_unicode_normalized;
       unicode_normalized
           .tempSubStringBetween(match.first.first, match.first.second)
           .toUTF8String(split_unicode_normalized);
-      new_splits.push_back(
-          Split(split_unicode_normalized,
-                {match.first.first + original_split.offsets.first,
-                 match.first.second + original_split.offsets.first}));
+      new_splits.push_back(Split(split_unicode_normalized, {start, stop}));
     }
   }
   return new_splits;
-- 
2.43.0


From 56b0437abc33e78bf900b06824e2849f8e819a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 21/33] fix: BertPreTokenizer isolates ASCII symbols as
 punctuation

$+<=>^`|~ are punctuation for BERT but not in the Unicode category P.
---
 src/pre_tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index cb4d895..f42511e 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -144,7 +144,7 @@ std::vector<std::pair<std::pair<int, int>, bool>> is_whitespace(
 
 std::vector<std::pair<std::pair<int, int>, bool>> is_bert_punc(
     icu::UnicodeString input) {
-  std::string pattern = "\\p{P}";
+  std::string pattern = "[\\p{P}\\$\\+<=>\\^`\\|~]";
   return find_matches(pattern, input);
 }
 
-- 
2.43.0


From b979cca6d754e2fc2378776aee4f523608a7aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 22/33] fix: ByteLevel uses its whole regex

The flag passed along was taken as the length of the pattern, which was cut
to "'s|" and split the text at every character.
---
 src/pre_tokenizer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index f42511e..6c552b4 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -10,7 +10,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -260,8 +259,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
     : add_prefix_space(add_prefix_space),
       use_regex(use_regex),
       regex(
-          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)",
-          std::regex_constants::optimize),
+          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"),
       BYTES_CHAR(bytes_char()) {}
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
-- 
2.43.0


From 560deeeaab9ca1f2c439a1da94ed2cbc3bb28a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 23/33] fix: ByteLevel keeps every split, maps every byte and
 keeps the alignment

---
 include/tokenizers/normalizer.h    |  3 ++
 include/tokenizers/pre_tokenizer.h |  5 +++
 src/pre_tokenizer.cpp              | 63 ++++++++++++++++++++++++------
 3 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 910e791..2834fcb 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -34,6 +34,9 @@ enum NORMALIZER {
 
 NORMALIZER get_normalizer(std::string type);
 
+// Number of bytes of the character in UTF-8.
+int utf8_length(wchar_t c);
+
 class NormalizedString {
  public:
   std::wstring normalized;
diff --git a/include/tokenizers/pre_tokenizer.h b/include/tokenizers/pre_tokenizer.h
index 8a86ce5..0b8f67f 100644
--- a/include/tokenizers/pre_tokenizer.h
+++ b/include/tokenizers/pre_tokenizer.h
@@ -42,6 +42,11 @@ class PreTokenizedString {
                  icu::UnicodeString)>
                  split_fn,
              SPLIT_DELIMITER_BEHAVIOR pattern);
+  // Rewrites the characters, and the ranges of the original text they come
+  // from, of every split without tokens.
+  void transform(
+      std::function<void(std::wstring &, std::vector<std::pair<int, int>> &)>
+          fn);
 };
 
 class PreTokenizer {
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 6c552b4..9e8e597 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -207,6 +207,36 @@ void PreTokenizedString::split(
   splits = new_splits;
 }
 
+void PreTokenizedString::transform(
+    std::function<void(std::wstring&, std::vector<std::pair<int, int>>&)> fn) {
+  std::wstring characters;
+  std::vector<std::pair<int, int>> sources;
+  int cur = 0;
+  auto copy_until = [&](int end, std::wstring& to_characters,
+                        std::vector<std::pair<int, int>>& to_sources) {
+    for (; cur < end; cur++) {
+      to_characters.push_back(normalized.normalized[cur]);
+      to_sources.push_back(normalized.source(cur));
+    }
+  };
+  for (Split& split : splits) {
+    copy_until(split.offsets.first, characters, sources);
+    std::wstring split_characters;
+    std::vector<std::pair<int, int>> split_sources;
+    copy_until(split.offsets.second, split_characters, split_sources);
+    if (split.tokens.empty()) {
+      fn(split_characters, split_sources);
+      split.normalized = convert_to_string(split_characters);
+    }
+    split.offsets.first = characters.length();
+    characters += split_characters;
+    sources.insert(sources.end(), split_sources.begin(), split_sources.end());
+    split.offsets.second = characters.length();
+  }
+  copy_until(normalized.normalized.length(), characters, sources);
+  normalized.assign(characters, sources);
+}
+
 BertPreTokenizer::BertPreTokenizer() {}
 
 PreTokenizedString BertPreTokenizer::pre_tokenize(
@@ -264,12 +294,14 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space &&
-      !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
-    pre_tokenized.normalized.normalized =
-        std::wstring(L" ") + pre_tokenized.normalized.normalized;
-    pre_tokenized.normalized.transform(0, "add", std::wstring(L" ").length());
-    pre_tokenized = PreTokenizedString(pre_tokenized.normalized);
+  if (add_prefix_space) {
+    pre_tokenized.transform([](std::wstring& characters,
+                               std::vector<std::pair<int, int>>& sources) {
+      if (!characters.empty() && characters.front() != L' ') {
+        characters.insert(characters.begin(), L' ');
+        sources.insert(sources.begin(), std::pair<int, int>(sources.front()));
+      }
+    });
   }
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
@@ -279,12 +311,19 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     return {{{0, input.length()}, false}};
   };
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
-  for (Split& split : pre_tokenized.splits) {
-    std::string new_split_normalized;
-    for (const char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(static_cast<int>(c));
+  pre_tokenized.transform([this](std::wstring& characters,
+                                 std::vector<std::pair<int, int>>& sources) {
+    std::string mapped;
+    for (const char c : convert_to_string(characters)) {
+      mapped += BYTES_CHAR.at(static_cast<unsigned char>(c));
     }
-    split.normalized = new_split_normalized;
-  }
+    std::vector<std::pair<int, int>> mapped_sources;
+    for (int i = 0; i < characters.length(); i++) {
+      mapped_sources.insert(mapped_sources.end(), utf8_length(characters[i]),
+                            sources[i]);
+    }
+    characters = convert_from_string(mapped);
+    sources = mapped_sources;
+  });
   return pre_tokenized;
 }
-- 
2.43.0


From f22f8d449ec1d0246578b89fb5ec7b58c1edf7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 24/33] fix: find every added token, and keep their ids and the
 alignment

---
 include/tokenizers/added_vocabulary.h |  13 +-
 src/added_vocabulary.cpp              | 306 ++++++++++----------------
 2 files changed, 123 insertions(+), 196 deletions(-)

diff --git a/include/tokenizers/added_vocabulary.h b/include/tokenizers/added_vocabulary.h
index 076d25b..d80aea8 100644
--- a/include/tokenizers/added_vocabulary.h
+++ b/include/tokenizers/added_vocabulary.h
@@ -50,13 +50,14 @@ class AddedVocabulary {
   std::unordered_map<int, AddedToken> added_tokens_map_r;
   std::vector<AddedToken> special_tokens;
   std::unordered_set<std::string> special_tokens_set;
-  std::pair<std::vector<std::string>, std::vector<int>>
-      split_non_normalized_trie;
-  std::pair<std::vector<std::string>, std::vector<int>> split_normalized_trie;
-  void refresh_added_tokens(Model *model, Normalizer *normalizer);
+  // tokens by their first character, longest first
+  using AddedTokenTrie =
+      std::unordered_map<wchar_t, std::vector<std::pair<std::wstring, int>>>;
+  AddedTokenTrie split_non_normalized_trie;
+  AddedTokenTrie split_normalized_trie;
+  void refresh_added_tokens(Normalizer *normalizer);
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> find_matches(
-      std::string sentence,
-      std::pair<std::vector<std::string>, std::vector<int>> split_re);
+      const std::wstring &sentence, const AddedTokenTrie &trie) const;
 };
 
 std::unique_ptr<AddedVocabulary> with_added_vocabulary(
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 34381f7..de9961c 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -7,13 +7,13 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
-#include <regex>
 #include <string>
 #include <tuple>
 #include <unordered_map>
 #include <utility>
 #include <vector>
 
+#include "tokenizers/common.h"
 #include "tokenizers/model.h"
 #include "tokenizers/normalizer.h"
 #include "tokenizers/pre_tokenizer.h"
@@ -54,7 +54,12 @@ std::optional<std::string> AddedVocabulary::id_to_token(int id) {
 
 int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                                 Model* model, Normalizer* normalizer) {
-  for (auto token : tokens) {
+  // `tokens` may be `added_tokens` itself
+  const std::vector<AddedToken> new_tokens = tokens;
+  for (const AddedToken& token : new_tokens) {
+    convert_from_string(token.content);
+  }
+  for (auto token : new_tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
       special_tokens.push_back(token);
@@ -62,8 +67,9 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
     }
   }
 
+  int vocab_size = model != nullptr ? model->get_vocab_size() : 0;
   int ignored = 0;
-  for (auto token : tokens) {
+  for (auto token : new_tokens) {
     if (token.content.empty()) {
       ignored++;
       continue;
@@ -73,7 +79,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
     auto it = added_tokens_map.find(token.content);
     if (it != added_tokens_map.end()) {
       new_id = it->second;
-    } else if (model->token_to_id(token.content).has_value()) {
+    } else if (model != nullptr &&
+               model->token_to_id(token.content).has_value()) {
       new_id = model->token_to_id(token.content).value();
     } else {
       auto max_val_token =
@@ -82,12 +89,11 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                               const std::pair<std::string, int>& b) {
                              return a.second < b.second;
                            });
-      if (model->get_vocab_size() == 0 ||
-          (max_val_token != added_tokens_map.end() &&
-           max_val_token->second >= model->get_vocab_size())) {
+      if (max_val_token != added_tokens_map.end() &&
+          max_val_token->second >= vocab_size) {
         new_id = max_val_token->second + 1;
       } else {
-        new_id = model->get_vocab_size();
+        new_id = vocab_size;
       }
     }
     added_tokens_map[token.content] = new_id;
@@ -98,142 +104,94 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
     }
   }
 
-  refresh_added_tokens(model, normalizer);
+  refresh_added_tokens(normalizer);
 
-  return tokens.size() - ignored;
+  return new_tokens.size() - ignored;
 }
 
-void AddedVocabulary::refresh_added_tokens(Model* model,
-                                           Normalizer* normalizer) {
-  std::vector<std::pair<AddedToken, int>> normalized, non_normalized;
-  for (auto token : special_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
-      if (token.normalized) {
-        normalized.push_back({token, id.value()});
-      } else {
-        non_normalized.push_back({token, id.value()});
-      }
+void AddedVocabulary::refresh_added_tokens(Normalizer* normalizer) {
+  split_normalized_trie.clear();
+  split_non_normalized_trie.clear();
+  for (const auto& element : added_tokens_map) {
+    const AddedToken& token = added_tokens_map_r.at(element.second);
+    NormalizedString content =
+        NormalizedString(convert_from_string(element.first));
+    if (token.normalized && normalizer != nullptr) {
+      content = normalizer->normalize(content);
     }
-  }
-  for (auto token : added_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
-      if (token.normalized) {
-        normalized.push_back({token, id.value()});
-      } else {
-        non_normalized.push_back({token, id.value()});
-      }
+    if (!content.normalized.empty()) {
+      AddedTokenTrie& trie = token.normalized ? split_normalized_trie
+                                              : split_non_normalized_trie;
+      trie[content.normalized.front()].push_back(
+          {content.normalized, element.second});
     }
   }
-
-  // TODO(omkar): build trie to do better pattern matching
-  std::vector<std::string> normalized_tokens;
-  std::vector<int> normalized_ids;
-  for (auto element : normalized) {
-    normalized_tokens.push_back(element.first.content);
-    normalized_ids.push_back(element.second);
-  }
-  split_normalized_trie = {normalized_tokens, normalized_ids};
-  std::vector<std::string> non_normalized_tokens;
-  std::vector<int> non_normalized_ids;
-  for (auto element : non_normalized) {
-    non_normalized_tokens.push_back(element.first.content);
-    non_normalized_ids.push_back(element.second);
-  }
-  split_non_normalized_trie = {non_normalized_tokens, non_normalized_ids};
-}
-
-bool ends_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("\\w$"));
-}
-
-bool starts_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("^\\w"));
-}
-
-size_t space_leftmost_at_end(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("\\s*$"))) {
-    return match.position();
-  } else {
-    return sentence.length();
+  for (AddedTokenTrie* trie :
+       {&split_normalized_trie, &split_non_normalized_trie}) {
+    for (auto& element : *trie) {
+      std::sort(element.second.begin(), element.second.end(),
+                [](const std::pair<std::wstring, int>& a,
+                   const std::pair<std::wstring, int>& b) {
+                  return a.first.length() != b.first.length()
+                             ? a.first.length() > b.first.length()
+                             : a < b;
+                });
+    }
   }
 }
 
-size_t space_rightmost_at_start(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("^\\s*"))) {
-    return match.length();
-  } else {
-    return 0;
-  }
+bool is_word(wchar_t c) {
+  return u_hasBinaryProperty(c, UCHAR_ALPHABETIC) ||
+         (U_GET_GC_MASK(c) & (U_GC_M_MASK | U_GC_ND_MASK | U_GC_PC_MASK)) ||
+         u_hasBinaryProperty(c, UCHAR_JOIN_CONTROL);
 }
 
 std::vector<std::pair<std::optional<int>, std::pair<int, int>>>
-AddedVocabulary::find_matches(
-    std::string sentence,
-    std::pair<std::vector<std::string>, std::vector<int>> split_re) {
-  // TODO(omkar): update to find matches from trie
-  std::vector<std::tuple<int, int, int>> matches;
-  std::unordered_map<std::string, int> word_ids;
-  for (int i = 0; i < split_re.first.size(); ++i) {
-    word_ids[split_re.first[i]] = split_re.second[i];
-  }
-  icu::UnicodeString unicode_sentence = icu::UnicodeString::fromUTF8(sentence);
-  int i = 0, cur = 0;
-  while (i < unicode_sentence.length()) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-      cur = i;
-    }
-    if (unicode_sentence[i] == ' ') {
-      cur = i + 1;
-    }
-    i++;
-  }
-  if (i != cur) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-    }
-  }
+AddedVocabulary::find_matches(const std::wstring& sentence,
+                              const AddedTokenTrie& trie) const {
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> result;
-  int start_offset = 0;
-  for (auto match : matches) {
-    int start = std::get<0>(match), stop = std::get<1>(match),
-        id = std::get<2>(match);
-    AddedToken added_token = added_tokens_map_r[id];
-    if (encode_special_tokens &&
-        special_tokens_set.count(added_token.content) > 0) {
-      continue;
-    }
-    if (added_token.single_word) {
-      bool start_space =
-          start == 0 || !ends_with_word(sentence.substr(0, start));
-      bool stop_space =
-          stop == sentence.length() || !starts_with_word(sentence.substr(stop));
-      if (!stop_space || !start_space) {
-        continue;
+  int start_offset = 0, cur = 0, total_len = sentence.length();
+  while (cur < total_len) {
+    bool found = false;
+    auto candidates = trie.find(sentence[cur]);
+    if (candidates != trie.end()) {
+      // longest first
+      for (const auto& [content, id] : candidates->second) {
+        if (sentence.compare(cur, content.length(), content) != 0) {
+          continue;
+        }
+        const AddedToken& added_token = added_tokens_map_r.at(id);
+        int start = cur, stop = cur + content.length();
+        if (encode_special_tokens &&
+            special_tokens_set.count(added_token.content) > 0) {
+          continue;
+        }
+        if (added_token.single_word &&
+            ((start > 0 && is_word(sentence[start - 1])) ||
+             (stop < total_len && is_word(sentence[stop])))) {
+          continue;
+        }
+        if (added_token.lstrip) {
+          while (start > start_offset && u_isUWhiteSpace(sentence[start - 1])) {
+            start--;
+          }
+        }
+        if (added_token.rstrip) {
+          while (stop < total_len && u_isUWhiteSpace(sentence[stop])) {
+            stop++;
+          }
+        }
+        if (start_offset < start) {
+          result.push_back({std::nullopt, {start_offset, start}});
+        }
+        result.push_back({id, {start, stop}});
+        start_offset = stop;
+        found = true;
+        break;
       }
     }
-    if (added_token.lstrip) {
-      int new_start = space_leftmost_at_end(sentence.substr(0, start));
-      start = std::max(new_start, start_offset);
-    }
-    if (added_token.rstrip) {
-      stop += space_rightmost_at_start(sentence.substr(stop));
-    }
-    if (start_offset < start) {
-      result.push_back({std::nullopt, {start_offset, start}});
-    }
-    result.push_back({id, {start, stop}});
-    start_offset = stop;
+    cur = found ? start_offset : cur + 1;
   }
-  int total_len = unicode_sentence.length();
   if (start_offset != total_len) {
     result.push_back({std::nullopt, {start_offset, total_len}});
   }
@@ -249,74 +207,42 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
     const Normalizer* normalizer, const std::wstring& sequence) {
   PreTokenizedString pre_tokenized =
       PreTokenizedString(NormalizedString(sequence));
-  auto matches =
-      find_matches(convert_to_string(pre_tokenized.normalized.normalized),
-                   split_non_normalized_trie);
-  std::vector<Split> non_normalized_splits;
-  for (auto match : matches) {
-    std::string value =
-        convert_to_string(pre_tokenized.normalized.normalized.substr(
-            match.second.first, match.second.second - match.second.first));
-    if (match.first.has_value()) {
-      Split new_split = Split(value, match.second);
-      new_split.tokens = {
-          Token(match.first.value(), value, {0, value.length()})};
-      non_normalized_splits.push_back(new_split);
+  std::wstring characters;
+  std::vector<std::pair<int, int>> sources;
+  std::vector<Split> splits;
+  for (auto raw_match : find_matches(sequence, split_non_normalized_trie)) {
+    auto [raw_start, raw_stop] = raw_match.second;
+    NormalizedString piece =
+        NormalizedString(sequence.substr(raw_start, raw_stop - raw_start));
+    std::vector<std::pair<std::optional<int>, std::pair<int, int>>> matches;
+    if (raw_match.first.has_value()) {
+      matches = {{raw_match.first, {0, raw_stop - raw_start}}};
     } else {
-      non_normalized_splits.push_back(Split(value, match.second));
-    }
-  }
-  if (non_normalized_splits.size() > 0) {
-    pre_tokenized.splits = non_normalized_splits;
-  }
-
-  std::vector<Split> normalized_splits;
-  int ending_idx = 0;
-  for (const Split& original_split : pre_tokenized.splits) {
-    if (original_split.tokens.size() > 0) {
-      Split new_split = original_split;
-      new_split.offsets = {ending_idx,
-                           ending_idx + new_split.normalized.length()};
-      normalized_splits.push_back(new_split);
-      ending_idx += new_split.normalized.length();
-    } else {
-      NormalizedString split_normalized =
-          NormalizedString(convert_from_string(original_split.normalized));
       if (normalizer != nullptr) {
-        split_normalized = normalizer->normalize(split_normalized);
+        piece = normalizer->normalize(piece);
       }
-      std::pair<int, int> new_split_offset = {
-          ending_idx, ending_idx + original_split.offsets.second -
-                          original_split.offsets.first};
-      pre_tokenized.normalized.transform_range(new_split_offset,
-                                               split_normalized);
-
-      matches = find_matches(convert_to_string(split_normalized.normalized),
-                             split_normalized_trie);
-      for (auto match : matches) {
-        std::string value =
-            convert_to_string(split_normalized.normalized.substr(
-                match.second.first, match.second.second - match.second.first));
-        if (match.first.has_value()) {
-          Split new_split =
-              Split(value, {match.second.first + new_split_offset.first,
-                            match.second.second + new_split_offset.first});
-          new_split.tokens = {
-              Token(match.first.value(), value, {0, value.length()})};
-          normalized_splits.push_back(new_split);
-        } else {
-          normalized_splits.push_back(
-              Split(value, {match.second.first + new_split_offset.first,
-                            match.second.second + new_split_offset.first}));
-        }
+      matches = find_matches(piece.normalized, split_normalized_trie);
+    }
+    int piece_start = characters.length();
+    for (auto match : matches) {
+      std::string value = convert_to_string(piece.normalized.substr(
+          match.second.first, match.second.second - match.second.first));
+      Split split = Split(value, {piece_start + match.second.first,
+                                  piece_start + match.second.second});
+      if (match.first.has_value()) {
+        split.tokens = {
+            Token(match.first.value(), value, {0, value.length()})};
       }
-      ending_idx += split_normalized.normalized.length();
+      splits.push_back(split);
+    }
+    characters += piece.normalized;
+    for (int i = 0; i < piece.normalized.length(); i++) {
+      std::pair<int, int> source = piece.source(i);
+      sources.push_back({raw_start + source.first, raw_start + source.second});
     }
   }
-  if (normalized_splits.size() > 0) {
-    pre_tokenized.splits = normalized_splits;
-  }
-
+  pre_tokenized.normalized.assign(characters, sources);
+  pre_tokenized.splits = splits;
   return pre_tokenized;
 }
 
-- 
2.43.0


From 000d55921c13cf756473d7df09f5d5a35a1e8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 25/33] fix: decoding and encoding without optional components,
 and token offsets

---
 src/tokenizer.cpp | 66 ++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index aca463b..4934cce 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -5,7 +5,6 @@
 #include <unicode/unistr.h>
 
 #include <memory>
-#include <numeric>
 #include <optional>
 #include <string>
 #include <utility>
@@ -84,19 +83,17 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
     throw std::runtime_error("Error parsing tokenizer config");
   }
 
-  if (added_vocabulary != nullptr) {
-    add_tokens(added_vocabulary->added_tokens);
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
   }
+  add_tokens(added_vocabulary->added_tokens);
 }
 
 Encoding Tokenizer::encode(const std::wstring& sequence,
                            bool add_special_tokens) {
   PreTokenizedString pre_tokenized =
-      PreTokenizedString(NormalizedString(sequence));
-  if (added_vocabulary != nullptr) {
-    pre_tokenized =
-        added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
-  }
+      added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
   if (pre_tokenizer != nullptr) {
     pre_tokenized = pre_tokenizer->pre_tokenize(pre_tokenized);
   }
@@ -108,19 +105,25 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
                               bool skip_special_tokens) {
   std::vector<std::string> tokens;
   for (int id : ids) {
-    std::string token = "";
-    std::optional<std::string> av_token = added_vocabulary->id_to_token(id);
-    if (!av_token.has_value()) {
-      token = model->id_to_token(id).value();
-    } else {
-      token = av_token.value();
+    std::optional<std::string> token = added_vocabulary->id_to_token(id);
+    if (!token.has_value() && model != nullptr) {
+      token = model->id_to_token(id);
     }
-    if (!skip_special_tokens || !added_vocabulary->is_special_token(token)) {
-      tokens.push_back(token);
+    if (token.has_value() &&
+        (!skip_special_tokens ||
+         !added_vocabulary->is_special_token(token.value()))) {
+      tokens.push_back(token.value());
     }
   }
-  tokens = decoder->decode_chain(tokens);
-  return std::accumulate(tokens.begin(), tokens.end(), std::string{});
+  std::string separator = decoder != nullptr ? "" : " ";
+  if (decoder != nullptr) {
+    tokens = decoder->decode_chain(tokens);
+  }
+  std::string result;
+  for (int i = 0; i < tokens.size(); i++) {
+    result += i > 0 ? separator + tokens[i] : tokens[i];
+  }
+  return result;
 }
 
 int Tokenizer::add_tokens(const std::vector<AddedToken>& tokens) {
@@ -135,23 +138,22 @@ int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
 Encoding into_encoding(PreTokenizedString pre_tokenized,
                        std::optional<int> word_idx, int type_id) {
   Encoding encoding;
+  // sources of the bytes of the normalized text
+  const std::vector<std::pair<int, int>>& sources =
+      pre_tokenized.normalized.offsets;
   for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {
-    Split split = pre_tokenized.splits[idx];
-    std::pair<int, int> transformed_split_offset = {
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .first,
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .second};
-    for (Token token : split.tokens) {
+    const Split& split = pre_tokenized.splits[idx];
+    for (const Token& token : split.tokens) {
+      std::pair<int, int> offsets = {0, 0};
+      if (token.offsets.first < token.offsets.second) {
+        int split_start =
+            pre_tokenized.normalized.offset_ranges[split.offsets.first].first;
+        offsets = {sources[split_start + token.offsets.first].first,
+                   sources[split_start + token.offsets.second - 1].second};
+      }
       encoding.ids.push_back(token.id);
       encoding.tokens.push_back(token.value);
-      encoding.offsets.push_back(
-          {transformed_split_offset.first + token.offsets.first,
-           transformed_split_offset.first + token.offsets.second});
+      encoding.offsets.push_back(offsets);
       encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);
       encoding.type_ids.push_back(type_id);
       encoding.special_tokens_mask.push_back(0);
-- 
2.43.0


From f2e1185d101c4a3c0f371a338aaca2b23beadc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 26/33] fix: WordPiece works by code point and leaves added
 tokens alone

---
 src/model.cpp | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index 9d5850c..1d2cd37 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -132,6 +132,18 @@ std::optional<std::string> Model::id_to_token(int id) {
   return std::nullopt;
 }
 
+// Byte positions at which the characters of a UTF-8 string start, and its end.
+std::vector<int> utf8_bounds(const std::string& sequence) {
+  std::vector<int> bounds;
+  for (int i = 0; i < sequence.length(); i++) {
+    if ((static_cast<unsigned char>(sequence[i]) & 0xC0) != 0x80) {
+      bounds.push_back(i);
+    }
+  }
+  bounds.push_back(sequence.length());
+  return bounds;
+}
+
 WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
                      const std::string& unk_token, int max_input_chars_per_word,
                      const std::string& continuing_subword_prefix)
@@ -142,36 +154,40 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
 
 PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
-    icu::UnicodeString unicode_sequence =
-        icu::UnicodeString::fromUTF8(split.normalized);
-    int char_len = unicode_sequence.length();
+    if (split.tokens.size() != 0) {
+      continue;
+    }
+    const std::string& sequence = split.normalized;
+    // where each character starts, and the end
+    std::vector<int> bounds = utf8_bounds(sequence);
+    int char_len = bounds.size() - 1;
+    int byte_len = sequence.length();
     if (char_len > max_input_chars_per_word) {
       auto it = vocab.find(unk_token);
       if (it == vocab.end()) {
-        split.tokens = {Token(0, unk_token, {0, char_len})};
+        split.tokens = {Token(0, unk_token, {0, byte_len})};
         continue;
       }
-      split.tokens = {Token(it->second, unk_token, {0, char_len})};
+      split.tokens = {Token(it->second, unk_token, {0, byte_len})};
       continue;
     }
     bool is_bad = false;
     int start = 0;
     std::vector<Token> sub_tokens;
-    while (start < unicode_sequence.length()) {
-      int end = unicode_sequence.length();
+    while (start < char_len) {
+      int end = char_len;
       std::optional<Token> cur_sequence_token = std::nullopt;
       while (start < end) {
-        std::string sub_sequence;
-        icu::UnicodeString unicode_sub_sequence =
-            unicode_sequence.tempSubString(start, end - start);
-        unicode_sub_sequence.toUTF8String(sub_sequence);
+        std::string sub_sequence =
+            sequence.substr(bounds[start], bounds[end] - bounds[start]);
         if (start > 0) {
           sub_sequence = continuing_subword_prefix + sub_sequence;
         }
         if (vocab.count(sub_sequence) != 0) {
           auto it = vocab.find(sub_sequence);
           if (it != vocab.end()) {
-            cur_sequence_token = Token(it->second, sub_sequence, {start, end});
+            cur_sequence_token =
+                Token(it->second, sub_sequence, {bounds[start], bounds[end]});
           }
           break;
         }
@@ -187,10 +203,10 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     if (is_bad) {
       auto it = vocab.find(unk_token);
       if (it == vocab.end()) {
-        split.tokens = {Token(0, unk_token, {0, char_len})};
+        split.tokens = {Token(0, unk_token, {0, byte_len})};
         continue;
       }
-      split.tokens = {Token(it->second, unk_token, {0, char_len})};
+      split.tokens = {Token(it->second, unk_token, {0, byte_len})};
       continue;
     }
     split.tokens = sub_tokens;
-- 
2.43.0


From 6a2a46c5b63cc2bb5b44b7165ade299a69a8a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 27/33] fix: BPE merges by rank, works by character and shares
 its cache safely

---
 include/tokenizers/model.h |  17 +++---
 src/model.cpp              | 105 ++++++++++++++++++++-----------------
 2 files changed, 69 insertions(+), 53 deletions(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1690ece..dae5f74 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -3,8 +3,8 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
-#include <sstream>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -57,7 +57,8 @@ class Symbol {
   int prev;
   int next;
   int len;
-  Symbol(int c, int prev, int next, int len);
+  int start;
+  Symbol(int c, int prev, int next, int len, int start);
   void merge_with(const Symbol *other, int new_c);
 };
 
@@ -67,7 +68,10 @@ class Merge {
   int rank;
   int new_id;
   Merge(int pos, int rank, int new_id);
-  bool operator<(const Merge &other) const { return rank < other.rank; }
+  bool operator<(const Merge &other) const {
+    // the queue serves the lowest rank first, the leftmost of equal ones
+    return rank != other.rank ? rank > other.rank : pos > other.pos;
+  }
 };
 
 struct PairHash {
@@ -84,10 +88,10 @@ class Word {
   std::vector<Symbol> symbols;
   Word() = default;
   explicit Word(const std::vector<Symbol> &symbols);
-  void add(int c, int len);
+  void add(int c, int len, int start);
   void merge_all(
-      std::unordered_map<std::pair<int, int>, std::pair<int, int>, PairHash>
-          merges,
+      const std::unordered_map<std::pair<int, int>, std::pair<int, int>,
+                               PairHash> &merges,
       float dropout);
 };
 
@@ -111,6 +115,7 @@ class BPE : public Model {
 
  private:
   mutable std::unordered_map<std::string, Word> cache;
+  mutable std::mutex cache_mutex;
   Word merge_word(std::string sequence) const;
   std::vector<Token> word_to_tokens(const Word &word) const;
   std::vector<Token> tokenize_with_cache(const std::string &sequence) const;
diff --git a/src/model.cpp b/src/model.cpp
index 1d2cd37..cec33df 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -6,10 +6,10 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <queue>
 #include <random>
-#include <sstream>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -102,8 +102,8 @@ std::unique_ptr<Model> with_model(simdjson::ondemand::object model_params) {
                              ? false
                              : static_cast<bool>(val.get_bool());
     return std::make_unique<BPE>(
-        BPE(vocab, merges, dropout, unk_token, continuing_subword_prefix,
-            end_of_word_suffix, fuse_unk, byte_fallback, ignore_merges));
+        vocab, merges, dropout, unk_token, continuing_subword_prefix,
+        end_of_word_suffix, fuse_unk, byte_fallback, ignore_merges);
   }
   return nullptr;
 }
@@ -214,12 +214,12 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   return pre_tokenized;
 }
 
-Symbol::Symbol(int c, int prev, int next, int len)
-    : c(c), prev(prev), next(next), len(len) {}
+Symbol::Symbol(int c, int prev, int next, int len, int start)
+    : c(c), prev(prev), next(next), len(len), start(start) {}
 
 void Symbol::merge_with(const Symbol* other, int new_c) {
   c = new_c;
-  len += other->len;
+  len = other->start + other->len - start;
   next = other->next;
 }
 
@@ -228,7 +228,7 @@ Merge::Merge(int pos, int rank, int new_id)
 
 Word::Word(const std::vector<Symbol>& symbols) : symbols(symbols) {}
 
-void Word::add(int c, int len) {
+void Word::add(int c, int len, int start) {
   int prev = -1, next = -1;
   int cur_len = symbols.size();
   if (!symbols.empty()) {
@@ -236,16 +236,16 @@ void Word::add(int c, int len) {
     last.next = cur_len;
     prev = cur_len - 1;
   }
-  symbols.emplace_back(Symbol(c, prev, next, len));
+  symbols.emplace_back(Symbol(c, prev, next, len, start));
 }
 
 void Word::merge_all(
-    std::unordered_map<std::pair<int, int>, std::pair<int, int>, PairHash>
-        merges,
+    const std::unordered_map<std::pair<int, int>, std::pair<int, int>,
+                             PairHash>& merges,
     float dropout) {
   std::priority_queue<Merge> queue;
   std::vector<Merge> skip;
-  for (int i = 0; i < symbols.size() - 1; i++) {
+  for (int i = 0; i + 1 < symbols.size(); i++) {
     std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
     auto it = merges.find(pair);
     if (it != merges.end()) {
@@ -331,9 +331,11 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
       cache({}) {
   int prefix_len = continuing_subword_prefix.length();
   for (int i = 0; i < merges_list.size(); ++i) {
-    std::istringstream iss(merges_list[i]);
-    std::string part1, part2;
-    if (iss >> part1 >> part2) {
+    // the parts may contain any white space but the space between them
+    size_t space = merges_list[i].find(' ');
+    if (space != std::string::npos) {
+      std::string part1 = merges_list[i].substr(0, space);
+      std::string part2 = merges_list[i].substr(space + 1);
       auto it1 = vocab.find(part1);
       auto it2 = vocab.find(part2);
       if (it1 != vocab.end() && it2 != vocab.end()) {
@@ -352,16 +354,19 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
 }
 
 Word BPE::merge_word(std::string sequence) const {
-  int length = sequence.size();
+  std::vector<int> bounds = utf8_bounds(sequence);
+  int length = bounds.size() - 1;
   Word word;
   std::optional<std::pair<int, int>> unk;
+  int unk_start = 0;
   for (int i = 0; i < length; i++) {
-    int end = (i + 1 < length) ? i + 1 : length;
     bool is_first = (i == 0);
-    bool is_last = (end == length);
+    bool is_last = (i + 1 == length);
 
-    std::string sub_sequence = sequence.substr(i, end - i);
-    int sub_len = sub_sequence.length();
+    int start = bounds[i];
+    std::string character = sequence.substr(start, bounds[i + 1] - start);
+    std::string sub_sequence = character;
+    int sub_len = character.length();
 
     if (!is_first && continuing_subword_prefix.size() != 0) {
       sub_sequence = (continuing_subword_prefix + sub_sequence);
@@ -374,50 +379,51 @@ Word BPE::merge_word(std::string sequence) const {
     auto it = vocab.find(sub_sequence);
     if (it != vocab.end()) {
       if (unk.has_value()) {
-        word.add(unk->first, unk->second);
+        word.add(unk->first, unk->second, unk_start);
         unk.reset();
       }
-      word.add(it->second, sub_len);
+      word.add(it->second, sub_len, start);
     } else {
       if (byte_fallback) {
-        std::vector<std::optional<int>> tokens;
-        for (auto b : sub_sequence) {
-          std::ostringstream oss;
-          oss << "<" << std::hex << std::setw(4) << std::setfill('0') << b
-              << ">";
-          auto code = oss.str();
+        std::vector<int> tokens;
+        for (unsigned char b : character) {
+          const char* digits = "0123456789ABCDEF";
+          std::string code = {'<', '0', 'x', digits[b >> 4], digits[b & 15],
+                              '>'};
           auto token_it = vocab.find(code);
-          tokens.push_back((token_it != vocab.end())
-                               ? std::optional<int>(token_it->second)
-                               : std::nullopt);
-        }
-        bool added = false;
-        for (auto& token : tokens) {
-          if (token.has_value()) {
-            word.add(token.value(), 1);
-            added = true;
+          if (token_it != vocab.end()) {
+            tokens.push_back(token_it->second);
           }
         }
-        if (added)
+        if (tokens.size() == character.length()) {
+          if (unk.has_value()) {
+            word.add(unk->first, unk->second, unk_start);
+            unk.reset();
+          }
+          for (int j = 0; j < tokens.size(); j++) {
+            word.add(tokens[j], 1, start + j);
+          }
           continue;
+        }
       }
       if (unk_token.size() != 0) {
         if (unk.has_value() && fuse_unk) {
           unk = {unk->first, unk->second + sub_len};
         } else {
           if (unk.has_value()) {
-            word.add(unk->first, unk->second);
+            word.add(unk->first, unk->second, unk_start);
           }
           auto unk_it = vocab.find(unk_token);
           if (unk_it != vocab.end()) {
             unk = {unk_it->second, sub_len};
+            unk_start = start;
           }
         }
       }
     }
   }
   if (unk.has_value()) {
-    word.add(unk->first, unk->second);
+    word.add(unk->first, unk->second, unk_start);
   }
   word.merge_all(merges, dropout);
   return word;
@@ -425,11 +431,9 @@ Word BPE::merge_word(std::string sequence) const {
 
 std::vector<Token> BPE::word_to_tokens(const Word& word) const {
   std::vector<Token> result;
-  int pos = 0;
   for (auto symbol : word.symbols) {
-    int new_pos = pos + symbol.len;
-    result.push_back(Token(symbol.c, vocab_r.at(symbol.c), {pos, new_pos}));
-    pos = new_pos;
+    result.push_back(Token(symbol.c, vocab_r.at(symbol.c),
+                           {symbol.start, symbol.start + symbol.len}));
   }
   return result;
 }
@@ -438,21 +442,28 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   if (ignore_merges) {
     auto it = vocab.find(sequence);
     if (it != vocab.end()) {
-      return {Token(it->second, sequence, {0, 0})};
+      return {Token(it->second, sequence, {0, sequence.length()})};
     }
   }
-  auto it = cache.find(sequence);
-  if (it != cache.end()) {
-    return word_to_tokens(it->second);
+  {
+    std::lock_guard<std::mutex> lock(cache_mutex);
+    auto it = cache.find(sequence);
+    if (it != cache.end()) {
+      return word_to_tokens(it->second);
+    }
   }
   auto word = merge_word(sequence);
   auto result = word_to_tokens(word);
+  std::lock_guard<std::mutex> lock(cache_mutex);
   cache.insert({sequence, word});
   return result;
 }
 
 PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (split.tokens.size() != 0) {
+      continue;
+    }
     std::string sequence = split.normalized;
     if (dropout == 0.0f) {
       split.tokens = tokenize_with_cache(sequence);
-- 
2.43.0


From c7d07b50ca4b0806da6b65fcd62e96bee8320b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 28/33] fix: remove the string edits that lost the alignment

---
 include/tokenizers/normalizer.h |   3 -
 src/normalizer.cpp              | 100 --------------------------------
 2 files changed, 103 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 2834fcb..56242fa 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -51,9 +51,6 @@ class NormalizedString {
   // i-th new character comes from.
   void assign(const std::wstring &characters,
               const std::vector<std::pair<int, int>> &sources);
-  void transform(int i, std::string op, int n);
-  void transform_range(std::pair<int, int> original_offsets,
-                       NormalizedString sub_normalized);
 };
 
 class Normalizer {
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 04d3fbe..75b9bf0 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -147,58 +147,6 @@ std::unique_ptr<Normalizer> with_normalizer(
   return nullptr;
 }
 
-void NormalizedString::transform_range(std::pair<int, int> original_offsets,
-                                       NormalizedString sub_normalized) {
-  int original_start = original_offsets.first;
-  int original_end = original_offsets.second;
-  int offsets_start = offset_ranges[original_start].first;
-  int offsets_end = original_end == offset_ranges.size()
-                        ? offset_ranges[original_end - 1].first
-                        : offset_ranges[original_end].first;
-  std::vector<std::pair<int, int>> new_offset_ranges;
-  for (int i = 0; i < sub_normalized.offset_ranges.size(); i++) {
-    if (i == 0) {
-      sub_normalized.offset_ranges[i].first =
-          offset_ranges[original_start].first;
-    } else {
-      sub_normalized.offset_ranges[i].first =
-          sub_normalized.offset_ranges[i - 1].first +
-          sub_normalized.offset_ranges[i - 1].second;
-    }
-    new_offset_ranges.push_back(sub_normalized.offset_ranges[i]);
-  }
-  int j = new_offset_ranges.size();
-  for (int i = original_end; i < offset_ranges.size(); i++) {
-    new_offset_ranges.push_back(
-        {new_offset_ranges[j - 1].first + new_offset_ranges[j - 1].second,
-         offset_ranges[i].second});
-    j++;
-  }
-  std::pair<int, int> prev;
-  for (int i = 0; i < sub_normalized.offsets.size(); i++) {
-    if (i == 0) {
-      prev = sub_normalized.offsets[i];
-      sub_normalized.offsets[i].first = offsets[offsets_start].first;
-      sub_normalized.offsets[i].second = offsets[offsets_start].second;
-    } else {
-      if (prev == sub_normalized.offsets[i]) {
-        sub_normalized.offsets[i] = sub_normalized.offsets[i - 1];
-      } else {
-        prev = sub_normalized.offsets[i];
-        sub_normalized.offsets[i] = {sub_normalized.offsets[i - 1].second,
-                                     sub_normalized.offsets[i - 1].second + 1};
-      }
-    }
-  }
-  offset_ranges.erase(offset_ranges.begin() + original_start,
-                      offset_ranges.end());
-  offset_ranges.insert(offset_ranges.begin() + original_start,
-                       new_offset_ranges.begin(), new_offset_ranges.end());
-  offsets.erase(offsets.begin() + offsets_start, offsets.begin() + offsets_end);
-  offsets.insert(offsets.begin() + offsets_start,
-                 sub_normalized.offsets.begin(), sub_normalized.offsets.end());
-}
-
 std::pair<int, int> NormalizedString::source(int i) const {
   return offsets[offset_ranges[i].first];
 }
@@ -216,54 +164,6 @@ void NormalizedString::assign(
   }
 }
 
-void NormalizedString::transform(int i, std::string op, int n) {
-  int start = offset_ranges[i].first;
-  int limit = offset_ranges[i].second;
-  if (op == "erase") {
-    offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
-    offset_ranges.erase(offset_ranges.begin() + i,
-                        offset_ranges.begin() + i + 1);
-  } else if (op == "pad") {
-    std::pair<int, int> offset = offsets[start];
-    std::vector<std::pair<int, int>> new_offsets(2, offset);
-    offsets.insert(offsets.begin() + start, new_offsets.begin(),
-                   new_offsets.end());
-    std::vector<std::pair<int, int>> new_offset_ranges = {
-        {start, 1}, {start + 1, limit}, {start + limit + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-    for (int j = i + 3; j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
-    }
-  } else if (op == "grow") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, 1},
-                                                          {start + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-  } else if (op == "shrink") {
-    offset_ranges.erase(offset_ranges.begin() + i);
-  } else if (op == "add" || op == "replace") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, n}};
-    if (op == "add") {
-      new_offset_ranges.push_back({start + n, limit});
-    }
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-    for (int j = i + (op == "add" ? 2 : 1); j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
-    }
-    std::vector<std::pair<int, int>> new_offsets((op == "add" ? n : n - 1),
-                                                 {offsets[start]});
-    offsets.insert(offsets.begin() + start, new_offsets.begin(),
-                   new_offsets.end());
-  }
-}
-
 // Normalizes segment by segment: characters of a segment that normalization
 // leaves alone keep their source, those of a changed one come from all of it.
 NormalizedString normalize_unicode(NormalizedString normalized,
-- 
2.43.0


From cdce86d0634ebf3ef519f82f834a59e37717d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 29/33] fix: reject truncated UTF-8

---
 src/common.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index d98c463..8c684c1 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -63,7 +64,11 @@ std::string convert_to_string(std::wstring sequence) {
 
 std::wstring convert_from_string(std::string sequence) {
   std::wstring_convert<std::codecvt_utf8<wchar_t>> converter;
-  return converter.from_bytes(sequence);
+  std::wstring result = converter.from_bytes(sequence);
+  if (converter.converted() != sequence.length()) {
+    throw std::range_error("Truncated UTF-8 sequence!");
+  }
+  return result;
 }
 
 std::unordered_map<uint16_t, std::string> bytes_char() {
-- 
2.43.0


From c13ce88bcafa069b053f024f6ec909f0339f85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 30/33] fix: the Android bridge converts every string and
 reports failures

---
 .../src/main/cpp/tokenizers_android_jni.cpp   | 94 ++++++++++++++-----
 1 file changed, 72 insertions(+), 22 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 080695d..60b4554 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,41 +1,91 @@
 #include <jni.h>
+#include <unicode/unistr.h>
 
+#include <exception>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
+#include "tokenizers/common.h"
 #include "tokenizers/tokenizer.h"
 
+namespace {
+
+// UTF-8 of a Java string, with unpaired surrogates replaced by U+FFFD.
+std::string to_utf8(JNIEnv *env, jstring str) {
+  if (str == nullptr) {
+    throw std::invalid_argument("String must not be null!");
+  }
+  jsize length = env->GetStringLength(str);
+  std::u16string units(length, 0);
+  env->GetStringRegion(str, 0, length, reinterpret_cast<jchar *>(&units[0]));
+  std::string result;
+  icu::UnicodeString(units.data(), length).toUTF8String(result);
+  return result;
+}
+
+// Rethrows the current C++ exception in Java.
+void throw_to_java(JNIEnv *env) {
+  if (env->ExceptionCheck()) {
+    return;
+  }
+  jclass exception_class = env->FindClass("java/lang/RuntimeException");
+  try {
+    throw;
+  } catch (const std::exception &e) {
+    env->ThrowNew(exception_class, e.what());
+  } catch (...) {
+    env->ThrowNew(exception_class, "Unknown error");
+  }
+}
+
+}  // namespace
+
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
-  const char *config_str = env->GetStringUTFChars(config, nullptr);
-  Tokenizer *tokenizer = new Tokenizer("", std::string(config_str));
-  env->ReleaseStringUTFChars(config, config_str);
-  return (jlong)tokenizer;
+  try {
+    return (jlong) new Tokenizer("", to_utf8(env, config));
+  } catch (...) {
+    throw_to_java(env);
+    return 0;
+  }
 }
 extern "C" JNIEXPORT jintArray JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
                                            jlong native_ptr, jstring sequence,
                                            jboolean add_special_tokens) {
-  Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
-  const jchar *sequence_str = env->GetStringChars(sequence, nullptr);
-  jsize sequence_length = env->GetStringLength(sequence);
-  std::wstring wsequence(sequence_str, sequence_str + sequence_length);
-  env->ReleaseStringChars(sequence, sequence_str);
-  Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
-  jintArray ids_array = env->NewIntArray(encoding.ids.size());
-  env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
-                         encoding.ids.data());
-  return ids_array;
+  try {
+    Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
+    std::wstring wsequence = convert_from_string(to_utf8(env, sequence));
+    Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
+    jintArray ids_array = env->NewIntArray(encoding.ids.size());
+    if (ids_array != nullptr) {
+      env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
+                             encoding.ids.data());
+    }
+    return ids_array;
+  } catch (...) {
+    throw_to_java(env);
+    return nullptr;
+  }
 }
 extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
     JNIEnv *env, jobject thiz, jlong native_ptr, jintArray ids,
     jboolean skip_special_tokens) {
-  Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
-  jsize length = env->GetArrayLength(ids);
-  jint *ids_array = env->GetIntArrayElements(ids, nullptr);
-  std::vector<int> ids_vector(ids_array, ids_array + length);
-  env->ReleaseIntArrayElements(ids, ids_array, 0);
-  std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
-  return env->NewStringUTF(decoded.c_str());
-}
\ No newline at end of file
+  try {
+    Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
+    if (ids == nullptr) {
+      throw std::invalid_argument("Ids must not be null!");
+    }
+    std::vector<int> ids_vector(env->GetArrayLength(ids));
+    env->GetIntArrayRegion(ids, 0, ids_vector.size(), ids_vector.data());
+    icu::UnicodeString decoded = icu::UnicodeString::fromUTF8(
+        tokenizer->decode(ids_vector, skip_special_tokens));
+    return env->NewString(reinterpret_cast<const jchar *>(decoded.getBuffer()),
+                          decoded.length());
+  } catch (...) {
+    throw_to_java(env);
+    return nullptr;
+  }
+}
-- 
2.43.0


From 367f3e0edbfa98b5dad9d11b6640663ce0c2f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 31/33] fix: reject configurations nested deeply enough to
 exhaust the stack

---
 include/tokenizers/common.h         | 3 +++
 include/tokenizers/decoder.h        | 2 +-
 include/tokenizers/normalizer.h     | 2 +-
 include/tokenizers/post_processor.h | 2 +-
 include/tokenizers/pre_tokenizer.h  | 2 +-
 src/decoder.cpp                     | 9 +++++++--
 src/normalizer.cpp                  | 8 ++++++--
 src/post_processor.cpp              | 8 ++++++--
 src/pre_tokenizer.cpp               | 8 ++++++--
 9 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/include/tokenizers/common.h b/include/tokenizers/common.h
index 8d9b135..3ad602a 100644
--- a/include/tokenizers/common.h
+++ b/include/tokenizers/common.h
@@ -9,6 +9,9 @@
 #include <utility>
 #include <vector>
 
+// How deeply sequences of components may be nested.
+const int MAX_SEQUENCE_DEPTH = 64;
+
 class Encoding {
  public:
   std::vector<int> ids;
diff --git a/include/tokenizers/decoder.h b/include/tokenizers/decoder.h
index 134d071..60e1b37 100644
--- a/include/tokenizers/decoder.h
+++ b/include/tokenizers/decoder.h
@@ -32,7 +32,7 @@ class Decoder {
 };
 
 std::unique_ptr<Decoder> with_decoder(
-    simdjson::ondemand::object decoder_params);
+    simdjson::ondemand::object decoder_params, int depth = 0);
 
 class WordPieceDecoder : public Decoder {
  public:
diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 56242fa..f0eec55 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -60,7 +60,7 @@ class Normalizer {
 };
 
 std::unique_ptr<Normalizer> with_normalizer(
-    simdjson::ondemand::object normalizer_params);
+    simdjson::ondemand::object normalizer_params, int depth = 0);
 
 class BertNormalizer : public Normalizer {
  public:
diff --git a/include/tokenizers/post_processor.h b/include/tokenizers/post_processor.h
index 66db0f5..a2f8d1a 100644
--- a/include/tokenizers/post_processor.h
+++ b/include/tokenizers/post_processor.h
@@ -48,7 +48,7 @@ class PostProcessor {
 };
 
 std::unique_ptr<PostProcessor> with_post_processor(
-    simdjson::ondemand::object post_processor_params);
+    simdjson::ondemand::object post_processor_params, int depth = 0);
 
 class TemplateProcessing : public PostProcessor {
  public:
diff --git a/include/tokenizers/pre_tokenizer.h b/include/tokenizers/pre_tokenizer.h
index 0b8f67f..5d7c0a2 100644
--- a/include/tokenizers/pre_tokenizer.h
+++ b/include/tokenizers/pre_tokenizer.h
@@ -57,7 +57,7 @@ class PreTokenizer {
 };
 
 std::unique_ptr<PreTokenizer> with_pre_tokenizer(
-    simdjson::ondemand::object pre_tokenizer_params);
+    simdjson::ondemand::object pre_tokenizer_params, int depth = 0);
 
 class BertPreTokenizer : public PreTokenizer {
  public:
diff --git a/src/decoder.cpp b/src/decoder.cpp
index 63a3f9c..d0db9e7 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -6,6 +6,7 @@
 
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -35,7 +36,10 @@ DECODER get_decoder(std::string type) {
 }
 
 std::unique_ptr<Decoder> with_decoder(
-    simdjson::ondemand::object decoder_params) {
+    simdjson::ondemand::object decoder_params, int depth) {
+  if (depth > MAX_SEQUENCE_DEPTH) {
+    throw std::invalid_argument("Sequences are nested too deeply!");
+  }
   simdjson::ondemand::value val;
   std::string type = std::string(
       static_cast<std::string_view>(decoder_params["type"].get_string()));
@@ -45,7 +49,8 @@ std::unique_ptr<Decoder> with_decoder(
     std::vector<std::unique_ptr<Decoder>> seq_decoders;
     for (simdjson::ondemand::value decoder_val : seq_decoder_params_list) {
       simdjson::ondemand::object seq_decoder_params = decoder_val.get_object();
-      std::unique_ptr<Decoder> seq_decoder = with_decoder(seq_decoder_params);
+      std::unique_ptr<Decoder> seq_decoder =
+          with_decoder(seq_decoder_params, depth + 1);
       if (seq_decoder != nullptr) {
         seq_decoders.push_back(std::move(seq_decoder));
       }
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 75b9bf0..82cb6d1 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -11,6 +11,7 @@
 #include <memory>
 #include <numeric>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -63,7 +64,10 @@ NormalizedString::NormalizedString(
     : normalized(normalized), offsets(offsets) {}
 
 std::unique_ptr<Normalizer> with_normalizer(
-    simdjson::ondemand::object normalizer_params) {
+    simdjson::ondemand::object normalizer_params, int depth) {
+  if (depth > MAX_SEQUENCE_DEPTH) {
+    throw std::invalid_argument("Sequences are nested too deeply!");
+  }
   simdjson::ondemand::value val;
   std::string type = std::string(
       static_cast<std::string_view>(normalizer_params["type"].get_string()));
@@ -75,7 +79,7 @@ std::unique_ptr<Normalizer> with_normalizer(
       simdjson::ondemand::object seq_normalizer_params =
           normalizer_val.get_object();
       std::unique_ptr<Normalizer> seq_normalizer =
-          with_normalizer(seq_normalizer_params);
+          with_normalizer(seq_normalizer_params, depth + 1);
       if (seq_normalizer != nullptr) {
         seq_normalizers.push_back(std::move(seq_normalizer));
       }
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index fe93d85..5c9feba 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -40,7 +41,10 @@ SpecialToken::SpecialToken(const std::string& id, const std::vector<int>& ids,
 Piece::Piece(std::string id, int type_id) : id(id), type_id(type_id) {}
 
 std::unique_ptr<PostProcessor> with_post_processor(
-    simdjson::ondemand::object post_processor_params) {
+    simdjson::ondemand::object post_processor_params, int depth) {
+  if (depth > MAX_SEQUENCE_DEPTH) {
+    throw std::invalid_argument("Sequences are nested too deeply!");
+  }
   simdjson::ondemand::value val;
   std::string type = std::string(static_cast<std::string_view>(
       post_processor_params["type"].get_string()));
@@ -113,7 +117,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
       simdjson::ondemand::object seq_processor_params =
           processor_val.get_object();
       std::unique_ptr<PostProcessor> seq_processor =
-          with_post_processor(seq_processor_params);
+          with_post_processor(seq_processor_params, depth + 1);
       if (seq_processor != nullptr) {
         seq_processors.push_back(std::move(seq_processor));
       }
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 9e8e597..eb64643 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -10,6 +10,7 @@
 #include <memory>
 #include <numeric>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -46,7 +47,10 @@ PreTokenizedString::PreTokenizedString(const NormalizedString& normalized)
                     {0, normalized.normalized.length()})}) {}
 
 std::unique_ptr<PreTokenizer> with_pre_tokenizer(
-    simdjson::ondemand::object pre_tokenizer_params) {
+    simdjson::ondemand::object pre_tokenizer_params, int depth) {
+  if (depth > MAX_SEQUENCE_DEPTH) {
+    throw std::invalid_argument("Sequences are nested too deeply!");
+  }
   simdjson::ondemand::value val;
   std::string type = std::string(
       static_cast<std::string_view>(pre_tokenizer_params["type"].get_string()));
@@ -60,7 +64,7 @@ std::unique_ptr<PreTokenizer> with_pre_tokenizer(
       simdjson::ondemand::object seq_pre_tokenizer_params =
           pre_tokenizer_val.get_object();
       std::unique_ptr<PreTokenizer> seq_pre_tokenizer =
-          with_pre_tokenizer(seq_pre_tokenizer_params);
+          with_pre_tokenizer(seq_pre_tokenizer_params, depth + 1);
       if (seq_pre_tokenizer != nullptr) {
         seq_pre_tokenizers.push_back(std::move(seq_pre_tokenizer));
       }
-- 
2.43.0


From 9152f37283ed5d335afa0090c19fde29d174065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 32/33] fix: reject template special tokens with unequal ids
 and tokens

---
 src/post_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 5c9feba..13edb1b 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -104,6 +104,10 @@ std::unique_ptr<PostProcessor> with_post_processor(
           tokens.push_back(std::string(
               static_cast<std::string_view>(token_elem.value().get_string())));
         }
+        if (ids.size() != tokens.size()) {
+          throw std::invalid_argument(
+              "Special tokens need as many ids as tokens!");
+        }
         special_tokens.push_back(SpecialToken(id, ids, tokens));
       }
     }
-- 
2.43.0


From 161f656f047323d39708465a99591b6c285c9510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 33/33] fix: a negative fixed padding length pads nothing

The comparison of the encoding's size with a negative target was made
unsigned, and the padding length then wrapped to gigabytes or to an
impossible size.
---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index d7038bf..398b962 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -211,7 +211,7 @@ Encoding pad(Encoding encoding, int target_length, int pad_id, int pad_type_id,
                    return pad(overflow_encoding, target_length, pad_id,
                               pad_type_id, pad_token, direction);
                  });
-  if (encoding.ids.size() >= target_length) {
+  if (static_cast<int64_t>(encoding.ids.size()) >= target_length) {
     return encoding;
   }
   int pad_length = target_length - encoding.ids.size();
-- 
2.43.0

