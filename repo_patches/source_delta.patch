From 38b06ddd80013b6ae0c3811375fa003d4c133b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 001/103] fix: csv reader repeated a last line ending with an
 empty field forever

A last line without a line break whose last field is empty ("a,b,")
lost that field and did not advance the reader, so that nextLine()
returned the same row again and again.
---
 src/util/csv_reader.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/util/csv_reader.cc b/src/util/csv_reader.cc
index 33c9cb7..52336ea 100644
--- a/src/util/csv_reader.cc
+++ b/src/util/csv_reader.cc
@@ -32,12 +32,10 @@ bool CsvReader::nextLine() {
   for (;; ++position) {
     // This block executes when end of file is reached
     if (position == end) {
-      if (field_start != position) {
-        if (shouldEmit) {
-          fields_.emplace_back(field_start, position);
-        }
-        position_ = position;
+      if (shouldEmit) {
+        fields_.emplace_back(field_start, position);
       }
+      position_ = position;
       break;
     }
 
-- 
2.43.0


From 10b580cc036386b9b21d2f110f3056cc8bf90297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 002/103] fix: clearing a flat map left deleted markers behind

The markers were not counted as used slots afterwards, so that a table of
non-trivial elements could fill up without growing and lookups of missing
keys did not terminate.
---
 src/util/flatrep.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/flatrep.h b/src/util/flatrep.h
index e8fcc86..f45ba75 100644
--- a/src/util/flatrep.h
+++ b/src/util/flatrep.h
@@ -84,8 +84,8 @@ class FlatRep {
         for (uint32 i = 0; i < kWidth; i++) {
           if (b->marker[i] >= 2) {
             b->Destroy(i);
-            b->marker[i] = kEmpty;
           }
+          b->marker[i] = kEmpty;
         }
       }
     }
-- 
2.43.0


From 51f6b3d57e4d264ec9631f2bb3bd845da284ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 003/103] fix: loading damaged serialized data could succeed or
 run out of memory

A failure to read a field was forgotten when a later field of the same
object could be read, and a damaged vector size was used for allocation.
---
 src/util/serialization.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index 38429e3..7109926 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -72,7 +72,7 @@ class Loader {
 
   template <typename T>
   void operator&(T &o) {
-    status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
+    status_ = status_ && SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
   }
 
   void reset(StringPiece data) { parser_.reset(data); }
@@ -251,8 +251,10 @@ struct SerializeImpl<std::vector<T, A>> {
                                      util::CodedBufferParser &p) {
     u64 sz;
     JPP_RET_CHECK(p.readVarint64(&sz));
+    // every element takes at least one byte, anything else is damaged data
+    if (sz > p.remaining()) return false;
     o.reserve(sz);
-    for (int i = 0; i < sz; ++i) {
+    for (u64 i = 0; i < sz; ++i) {
       o.emplace_back();
       JPP_RET_CHECK(SerializeImpl<T>::DoSerializeLoad(o.back(), s, p));
     }
-- 
2.43.0


From d9bbbed1c24d7b052ba1419fc2cc0f243e52e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 004/103] fix: StringPiece comparison ignored everything after
 a null byte

The comparison operators used strncmp, so that different strings with a
common prefix up to a null byte were equal.
---
 src/util/string_piece.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/string_piece.cc b/src/util/string_piece.cc
index b96425b..f5160bb 100644
--- a/src/util/string_piece.cc
+++ b/src/util/string_piece.cc
@@ -15,12 +15,16 @@ std::ostream &operator<<(std::ostream &str, StringPiece sp) {
 
 bool operator==(StringPiece l, StringPiece r) {
   if (l.size() != r.size()) return false;
-  return std::strncmp(l.char_begin(), r.char_begin(), l.size()) == 0;
+  if (l.empty()) return true;
+  return std::memcmp(l.char_begin(), r.char_begin(), l.size()) == 0;
 }
 
 bool operator<(StringPiece l, StringPiece r) {
   auto min_size = std::min(l.size(), r.size());
-  int res = std::strncmp(l.char_begin(), r.char_begin(), min_size);
+  int res = 0;
+  if (min_size > 0) {
+    res = std::memcmp(l.char_begin(), r.char_begin(), min_size);
+  }
   if (res == 0) {
     return l.size() < r.size();
   }
-- 
2.43.0


From 90754cfd1546ae5bc7ce6f1b7694c7d27276ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 005/103] fix: parseU64 wrapped around silently for too large
 numbers

---
 src/util/parse_utils.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/parse_utils.cc b/src/util/parse_utils.cc
index 1b7b121..135b73f 100644
--- a/src/util/parse_utils.cc
+++ b/src/util/parse_utils.cc
@@ -3,6 +3,7 @@
 //
 
 #include "parse_utils.h"
+#include <limits>
 
 namespace jumanpp {
 namespace util {
@@ -16,7 +17,11 @@ bool parseU64(StringPiece sp, u64* result) {
   for (const char* c = sp.char_begin(); c < sp.char_end(); ++c) {
     char x = *c;
     if (x >= '0' && x <= '9') {
-      val = (val * 10) + (x - '0');
+      u64 digit = static_cast<u64>(x - '0');
+      if (val > (std::numeric_limits<u64>::max() - digit) / 10) {
+        return false;  // does not fit
+      }
+      val = val * 10 + digit;
     } else {
       return false;
     }
-- 
2.43.0


From 4311fe4760bf0e666270f97afa8ee457b5243b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 006/103] fix: reject overlong UTF-8, encoded surrogates and
 too large code points

Such byte sequences are not valid UTF-8, but were decoded as if they were.
---
 src/util/characters.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/characters.h b/src/util/characters.h
index 76fa0c0..76a7803 100644
--- a/src/util/characters.h
+++ b/src/util/characters.h
@@ -96,6 +96,7 @@ inline CodePointInfo getCodepoint(const u8* itr, const u8* itr_end) noexcept {
     u |= (*(itr++) & 0x3fu) << 6;
     JPP_CHAR_CHECK(((*itr & ~0x3f) ^ 0x80) == 0);
     u |= (*(itr++) & 0x3fu);
+    JPP_CHAR_CHECK(u >= 0x10000 && u <= 0x10ffff);
     return {u, 4};
   } else if (*itr > 0xdf) { /* 3 bytes */
     JPP_CHAR_CHECK(itr_end - itr >= 3);
@@ -105,6 +106,7 @@ inline CodePointInfo getCodepoint(const u8* itr, const u8* itr_end) noexcept {
     u |= (*(itr++) & 0x3fu) << 6;
     JPP_CHAR_CHECK(((*itr & ~0x3f) ^ 0x80) == 0);
     u |= *(itr++) & 0x3fu;
+    JPP_CHAR_CHECK(u >= 0x800 && (u < 0xd800 || u > 0xdfff));
     return {u, 3};
   } else if (*itr > 0x7f) { /* 2 bytes */
     JPP_CHAR_CHECK(itr_end - itr >= 2);
@@ -112,6 +114,7 @@ inline CodePointInfo getCodepoint(const u8* itr, const u8* itr_end) noexcept {
     u = (*(itr++) & 0x1fu) << 6;
     JPP_CHAR_CHECK(((*itr & ~0x3f) ^ 0x80) == 0);
     u |= *(itr++) & 0x3fu;
+    JPP_CHAR_CHECK(u >= 0x80);
     return {u, 2};
   } else { /* 1 byte */
     JPP_CHAR_CHECK(itr_end - itr >= 1);
-- 
2.43.0


From f585ab96590d862ffe4b38c0cffa6a97ab999871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 007/103] fix: CharBuffer dereferenced a null page for an empty
 first string

---
 src/util/char_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/char_buffer.h b/src/util/char_buffer.h
index dbbfb9e..04f36f1 100644
--- a/src/util/char_buffer.h
+++ b/src/util/char_buffer.h
@@ -37,7 +37,7 @@ class CharBuffer {
       return false;
     }
     ptrdiff_t remaining = page_size - position_;
-    if (remaining < sz) {
+    if (current_ == nullptr || remaining < sz) {
       ++npage;
       if (npage < storage_.size()) {
         current_ = storage_[npage];
-- 
2.43.0


From 6797a47da434eb0e17ed2c7fe02ed78dfb98a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 008/103] fix: integer dictionary fields rejected every number

The regular expression used \d, which extended POSIX syntax does not know:
depending on the language mode it was an error or matched the letter d.
Values which do not fit 32 bits were silently truncated.
---
 src/core/dic/field_import.cc | 34 +++++++++++++++++++++++-----------
 src/core/dic/field_import.h  |  3 ---
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index c480d93..76597aa 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -4,7 +4,9 @@
 
 #include "field_import.h"
 #include <algorithm>
+#include <limits>
 #include "util/memory.hpp"
+#include "util/parse_utils.h"
 
 namespace jumanpp {
 namespace core {
@@ -67,22 +69,32 @@ void StringListFieldImporter::injectFieldBuffer(util::CodedBuffer* buffer) {
   buffer->writeVarint(0);
 }
 
-IntFieldImporter::IntFieldImporter(i32 field)
-    : fld_{field}, re_{"^\\d+$", std::regex::optimize | std::regex::extended} {}
+IntFieldImporter::IntFieldImporter(i32 field) : fld_{field} {}
 
-i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
-  StringPiece sp = csv.field(fld_);
-  if (sp.size() == 0) {
-    return 0;
+namespace {
+// empty cell is zero, other values must be decimal numbers that fit the field
+bool parseIntField(StringPiece sp, i32* result) {
+  u64 value = 0;
+  if (sp.size() != 0 && !util::parseU64(sp, &value)) {
+    return false;
   }
-  auto end = sp.char_end();
-  long res = std::strtol(sp.char_begin(), const_cast<char**>(&end), 10);
-  return static_cast<i32>(res);
+  if (value > static_cast<u64>(std::numeric_limits<i32>::max())) {
+    return false;
+  }
+  *result = static_cast<i32>(value);
+  return true;
+}
+}  // namespace
+
+i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
+  i32 result = 0;
+  parseIntField(csv.field(fld_), &result);
+  return result;
 }
 
 bool IntFieldImporter::importString(StringPiece sp) {
-  if (sp.size() == 0) return true;
-  return std::regex_match(sp.char_begin(), sp.char_end(), mr_, re_);
+  i32 result = 0;
+  return parseIntField(sp, &result);
 }
 
 Status StringStorage::makeStorage(util::CodedBuffer* result) {
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index 8c2904b..cf8747e 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -6,7 +6,6 @@
 #define JUMANPP_DIC_IMPORT_H
 
 #include <algorithm>
-#include <regex>
 #include "util/char_buffer.h"
 #include "util/coded_io.h"
 #include "util/csv_reader.h"
@@ -209,8 +208,6 @@ void writePtrsAsDeltas(C& values, util::CodedBuffer& buffer) {
 
 class IntFieldImporter : public FieldImporter {
   i32 fld_;
-  std::regex re_;
-  std::match_results<const char*> mr_;
 
  public:
   IntFieldImporter(i32 field);
-- 
2.43.0


From 1f16e872f8892d52288e4332d00f4998d51ae16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 009/103] fix: dictionary columns were looked up by the order
 of fields in the specification

The surface column and the column of list matches used the index of the field
in the specification instead of its CSV column.
---
 src/core/dic/dic_build_detail.cc | 3 ++-
 src/core/dic/dic_feature_impl.cc | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 7683a46..7c45521 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -171,8 +171,9 @@ Status DictionaryBuilderStorage::initialize(const s::DictionarySpec& dicSpec) {
 Status DictionaryBuilderStorage::initDicFeatures(const FeaturesSpec& dicSpec) {
   DicFeatureContext ctx{storage, importers, stringBuffers, intBuffers};
   JPP_RETURN_IF_ERROR(entries.createFeatures(dicSpec, ctx));
-  entries.surfaceIdx_ = static_cast<u32>(indexColumn);
   auto desc = importers[indexColumn].descriptor;
+  // csv column, fields can be declared in any order
+  entries.surfaceIdx_ = static_cast<u32>(desc->position - 1);
   entries.realSurfaceStorage_ = &storage[desc->stringStorage];
   entries.featureBuf_.resize(static_cast<size_t>(dicSpec.numDicFeatures));
   return Status::Ok();
diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 4b10ef2..3690964 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -91,7 +91,7 @@ Status MatchListDicFeatureImpl::initialize(
   auto& imp = ctx.importers[desc.references.front()];
   auto& ss = ctx.storage[imp.descriptor->stringStorage];
   storage_ = &ss;
-  fieldIdx_ = desc.references.front();
+  fieldIdx_ = imp.descriptor->position - 1;
   auto type = imp.descriptor->fieldType;
   switch (type) {
     case spec::FieldType::StringKVList:
-- 
2.43.0


From 6d4c7f5d71c79c1636469757ce9205c61945b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:31 +0000
Subject: [PATCH 010/103] fix: list_sep was ignored when importing string lists

---
 src/core/dic/dic_feature_impl.cc |  3 ++-
 src/core/dic/field_import.cc     | 10 ++++++----
 src/core/dic/field_import.h      |  7 +++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 3690964..9b2c21e 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -47,7 +47,8 @@ Status ColumnImportContext::initialize(
     case FieldType::StringList: {
       i32 stringIdx = descr->stringStorage;
       auto stor = &storages[stringIdx];
-      importer.reset(new impl::StringListFieldImporter{stor, colpos, emptyStr});
+      importer.reset(new impl::StringListFieldImporter{
+          stor, colpos, emptyStr, descr->listSeparator});
       break;
     }
     case FieldType::StringKVList: {
diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index 76597aa..2e82494 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -29,7 +29,8 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
   values_.clear();
 
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), entrySeparator_.begin(),
+                             entrySeparator_.end());
     auto key = StringPiece{sp.begin(), space};
     auto v = storage_->valueOf(key);
     JPP_DCHECK_NE(v, -1);
@@ -37,7 +38,7 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
     if (space == sp.end()) {
       break;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + entrySeparator_.size(), sp.end()};
   }
 
   i32 result = static_cast<i32>(buffer_->position());
@@ -51,13 +52,14 @@ bool StringListFieldImporter::importFieldValue(const util::CsvReader& csv) {
     return true;
   }
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), entrySeparator_.begin(),
+                             entrySeparator_.end());
     auto key = StringPiece{sp.begin(), space};
     storage_->increaseFieldValueCount(key);
     if (space == sp.end()) {
       return true;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + entrySeparator_.size(), sp.end()};
   }
 
   return true;
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index cf8747e..74baa54 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -151,10 +151,13 @@ class StringListFieldImporter : public StringFieldImporter {
    */
   util::CodedBuffer* buffer_;
   std::vector<i32> values_;
+  std::string entrySeparator_;
 
  public:
-  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore)
-      : StringFieldImporter::StringFieldImporter(storage, field, ignore) {}
+  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore,
+                          StringPiece entrySeparator = StringPiece{" "})
+      : StringFieldImporter::StringFieldImporter(storage, field, ignore),
+        entrySeparator_{entrySeparator.str()} {}
 
   bool importFieldValue(const util::CsvReader& csv) override;
 
-- 
2.43.0


From 8e0ca7f26da0fa39fed41dc2ac8a759e65c31e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 011/103] fix: merged dictionary entries without own data were
 read from uninitialized memory

An alias entry without data fields left its row counter unset, so the entry
vanished or repeated; the maximum number of fields was off by one as well.
---
 src/core/dic/dic_entries.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/dic/dic_entries.h b/src/core/dic/dic_entries.h
index 137e9a5..f8924f0 100644
--- a/src/core/dic/dic_entries.h
+++ b/src/core/dic/dic_entries.h
@@ -26,7 +26,8 @@ namespace dic {
 class DicEntryBuffer {
   u32 numFeatures_ = 0;
   u32 numData_ = 0;
-  std::array<i32, JPP_MAX_DIC_FIELDS> featureBuffer_;
+  // an alias has one more value: the number of its data rows
+  std::array<i32, JPP_MAX_DIC_FIELDS + 1> featureBuffer_;
   std::array<i32, JPP_MAX_DIC_FIELDS> dataBuffer_;
   impl::IntListTraversal remainingData_;
 
@@ -47,7 +48,7 @@ class DicEntryBuffer {
         featureBuffer_.begin());
     std::copy(c.dataBuffer_.begin(),
               std::min(std::max(c.dataBuffer_.begin() + numData_,
-                                c.dataBuffer_.begin()),
+                                c.dataBuffer_.begin() + 1),
                        c.dataBuffer_.end()),
               dataBuffer_.begin());
   }
@@ -109,6 +110,11 @@ class DicEntryBuffer {
         return false;
       }
       auto numAlias = featureBuffer_[numFeatures_];
+      if (numData_ == 0) {  // aliases do not have anything of their own
+        remainingData_.clear();
+        dataBuffer_[0] = numAlias;
+        return true;
+      }
       auto dataCnt = numData_ * numAlias;
       auto readBytes = actualData.numReadBytes();
       auto dataPtr = dicPtr + readBytes;
@@ -128,7 +134,7 @@ class DicEntryBuffer {
   }
 
   void overwriteFeaturesWith(util::ArraySlice<i32> newFeatures) {
-    JPP_DCHECK_LT(newFeatures.size(), JPP_MAX_DIC_FIELDS);
+    JPP_DCHECK_LE(newFeatures.size(), JPP_MAX_DIC_FIELDS);
     for (int i = 0; i < newFeatures.size(); ++i) {
       featureBuffer_[i] = newFeatures[i];
     }
-- 
2.43.0


From d0177a1d30bf9b91a0c389db7ae89c18eabf431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 012/103] fix: length features read outside of extra nodes at
 the end of sentence

The end marker does not have a field value, its negative pointer was taken for
an unknown word. Codepoint length of unknown words was counted in bytes.
---
 src/core/impl/feature_impl_types.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/impl/feature_impl_types.h b/src/core/impl/feature_impl_types.h
index b332d6d..c0136cf 100644
--- a/src/core/impl/feature_impl_types.h
+++ b/src/core/impl/feature_impl_types.h
@@ -156,7 +156,15 @@ class PrimitiveFeatureContext {
   i32 lengthOf(NodeInfo nodeInfo, i32 fieldNum, i32 fieldPtr,
                LengthFieldSource field, bool useBytes) {
     if (fieldPtr < 0) {
-      return extraCtx_->lengthOf(nodeInfo.entryPtr());
+      auto eptr = nodeInfo.entryPtr();
+      if (eptr == EntryPtr::BOS() || eptr == EntryPtr::EOS()) {
+        return 0;
+      }
+      // field content is the surface of an unknown word
+      if (!useBytes) {
+        return nodeInfo.numCodepoints();
+      }
+      return extraCtx_->lengthOf(eptr);
     }
     auto fld = fields_.at(fieldNum);
     switch (field) {
-- 
2.43.0


From fc1738ad5080121a4418e36bb3f45a2bedcc218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 013/103] fix: four character onomatopoeia were not recognized
 at the end of input

---
 src/core/analysis/onomatopoeia_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index 314544f..e45d1ef 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -58,7 +58,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
 
 OnomatopoeiaUnkMaker::Pattern OnomatopoeiaUnkMaker::FindOnomatopoeia(
     const CodepointStorage& codepoints, LatticePosition start) const {
-  if ((start + MinOnomatopoeiaLength) >= codepoints.size()) {
+  if ((start + MinOnomatopoeiaLength) > codepoints.size()) {
     return Pattern::None;
   }
   JPP_DCHECK_IN(start, 0, codepoints.size());
-- 
2.43.0


From 9ffb259f75c80694e50c4d94fd01590648a47030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 014/103] fix: onomatopoeia could be dropped because of a
 different dictionary word

Trie traversal continued after a missing node, so some other word with
characters skipped could be found instead.
---
 src/core/analysis/onomatopoeia_creator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index e45d1ef..2f340fe 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -22,6 +22,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
     auto trav = entries_.traversal();
     LatticePosition nextstep = i;
     TraverseStatus status;
+    bool nonode = false;
     auto pattern = FindOnomatopoeia(codepoints, i);
     if (pattern == Pattern::None) {
       continue;
@@ -31,7 +32,14 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
       if ((pattern & HalfLenToPattern(halfLen)) != Pattern::None) {
         for (; nextstep < i + halfLen * 2; ++nextstep) {
           status = trav.step(codepoints[nextstep].bytes);
+          if (status == TraverseStatus::NoNode) {
+            nonode = true;
+          }
         }
+
+        // it is possible to step further from the last existing node
+        if (nonode) status = TraverseStatus::NoNode;
+
         switch (status) {
           case TraverseStatus::NoNode: {
             LatticePosition start = i;
-- 
2.43.0


From 49896624afe09937a5be55afb16a4b9ff5ceddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 015/103] fix: numeric unknown words read after the end of
 input

The check for a digit after a decimal point used the position inside of the
number instead of the position inside of the input.
---
 src/core/analysis/numeric_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/numeric_creator.cc b/src/core/analysis/numeric_creator.cc
index 9dd3d16..52cbd47 100644
--- a/src/core/analysis/numeric_creator.cc
+++ b/src/core/analysis/numeric_creator.cc
@@ -245,7 +245,7 @@ size_t NumericUnkMaker::checkPeriod(const CodepointStorage &codepoints,
   if (pos == 0) return 0;
   if (!codepoints[posPeriod].hasClass(PeriodClass)) return 0;
   if (!codepoints[posPeriod - 1].hasClass(charClass_)) return 0;
-  if (pos + 1 < codepoints.size() &&
+  if (posPeriod + 1 < codepoints.size() &&
       codepoints[posPeriod + 1].hasClass(charClass_))
     return 1;
   return 0;
-- 
2.43.0


From deec153e7cc4275165b60b72baa51bb83e63e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 016/103] fix: automatic beam larger than the global beam
 overflowed buffers

---
 src/core/analysis/score_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 6386666..0d5b1b5 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -49,6 +49,9 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
 
   globalBeamSize_ = analyzer->cfg().globalBeamSize;
   if (globalBeamSize_ > 0) {
+    // automatic beam can be larger than the configured one
+    globalBeamSize_ =
+        std::max<i32>(globalBeamSize_, static_cast<i32>(lcfg.globalBeamSize));
     t1PtrData_.reserve(globalBeamSize_);
     globalBeam_ =
         alloc->allocateBuf<BeamCandidate>(maxEnds * lcfg.beamSize, 64);
-- 
2.43.0


From fc05a7fd3760a29ecc90d9cbff76bf3bbab6721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:07 +0000
Subject: [PATCH 017/103] fix: models with an empty block could not be saved,
 blocks outside of the file were read

---
 src/core/impl/model_io.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index c1c3575..901a38e 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -58,6 +58,10 @@ Status ModelSaver::save(const ModelInfo& info) {
     rawPart.comment = part.comment;
 
     for (auto& buf : part.data) {
+      if (buf.size() == 0) {  // it is not possible to map an empty block
+        rawPart.data.push_back(BlockPtr{offset, 0});
+        continue;
+      }
       util::MappedFileFragment frag;
       JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, offset, buf.size()));
       std::memcpy(frag.address(), buf.data(), buf.size());
@@ -153,6 +157,17 @@ Status FilesystemModel::load(ModelInfo* info) {
     part.kind = p.kind;
     part.comment = p.comment;
     for (auto& raw : p.data) {
+      if (raw.size == 0) {
+        part.data.push_back(StringPiece{});
+        continue;
+      }
+      if (raw.offset > modelData.size() ||
+          raw.size > modelData.size() - raw.offset) {
+        return JPPS_INVALID_STATE << "model file " << file_->name
+                                  << " is truncated or corrupted: a block at "
+                                  << raw.offset << " of size " << raw.size
+                                  << " is outside of the file";
+      }
       ptrdiff_t start = static_cast<ptrdiff_t>(raw.offset);
       ptrdiff_t end = static_cast<ptrdiff_t>(start + raw.size);
       part.data.push_back(modelData.slice(start, end));
-- 
2.43.0


From 71607db1e6be839fc65d5c05716bf1ceed045688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:07 +0000
Subject: [PATCH 018/103] fix: damaged header of a model file was read outside
 of its bounds

---
 src/core/impl/model_io.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index 901a38e..e59662e 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -119,6 +119,10 @@ Status FilesystemModel::open(StringPiece name) {
   JPP_RETURN_IF_ERROR(
       file_->mmap.map(&file_->fragment, 0, file_->mmap.size(), true));
   auto sp = hdrFrag.asStringPiece();
+  if (sp.size() < 4096) {
+    return JPPS_INVALID_STATE << "model file " << file_->name
+                              << " is too small to be a model";
+  }
   auto magicSp = StringPiece{ModelMagic};
   if (sp.take(magicSp.size()) != magicSp) {
     return JPPS_INVALID_STATE << "model file " << file_->name
@@ -132,6 +136,10 @@ Status FilesystemModel::open(StringPiece name) {
     return JPPS_INVALID_STATE << "could not read header size from "
                               << file_->name;
   }
+  if (hdrSize > rest.size() - cbp.numReadBytes()) {
+    return JPPS_INVALID_STATE << "model file " << file_->name
+                              << " has corrupted header size: " << hdrSize;
+  }
 
   util::serialization::Loader l{
       rest.slice(cbp.numReadBytes(), cbp.numReadBytes() + hdrSize)};
-- 
2.43.0


From 33e98e5ac79c043b2775739017e4084c374d26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 019/103] fix: empty list separator made the dictionary builder
 loop forever

---
 src/core/dic/dic_feature_impl.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 9b2c21e..7356141 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -29,6 +29,17 @@ Status ColumnImportContext::initialize(
   // we want to have original content here
   StringPiece emptyStr = descr->emptyString;
 
+  bool isKeyValue = tp == FieldType::StringKVList;
+  if ((tp == FieldType::StringList || isKeyValue) &&
+      descr->listSeparator.empty()) {
+    return JPPS_INVALID_PARAMETER << "list separator of the field "
+                                  << descr->name << " is empty";
+  }
+  if (isKeyValue && descr->kvSeparator.empty()) {
+    return JPPS_INVALID_PARAMETER << "key-value separator of the field "
+                                  << descr->name << " is empty";
+  }
+
   switch (tp) {
     case FieldType::Int:
       try {
-- 
2.43.0


From 9a6b8a6b83b678ce7ab18f8bee8bae801cbe202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:33 +0000
Subject: [PATCH 020/103] fix: protobuf outputs wrote to freed memory of their
 buffers

---
 src/jumandic/shared/juman_pb_format.cc   | 5 +++--
 src/jumandic/shared/jumanpp_pb_format.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jumandic/shared/juman_pb_format.cc b/src/jumandic/shared/juman_pb_format.cc
index cb51ceb..4f280fe 100644
--- a/src/jumandic/shared/juman_pb_format.cc
+++ b/src/jumandic/shared/juman_pb_format.cc
@@ -124,11 +124,12 @@ struct JumanPbFormatImpl {
 
     if (fillBuffer_) {
       buffer_.clear();
+      auto messageSize = obj_.ByteSizeLong();
+      // streams write directly to the memory of the buffer
+      buffer_.reserve(messageSize + 10);
       google::protobuf::io::StringOutputStream os{&buffer_};
       google::protobuf::io::CodedOutputStream cos{&os};
-      auto messageSize = obj_.ByteSizeLong();
       cos.WriteVarint64(messageSize);
-      buffer_.reserve(messageSize);
       if (!obj_.SerializeToCodedStream(&cos)) {
         return JPPS_INVALID_STATE << "failed to serialize LatticeDump";
       }
diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 7f22ba9..a11a139 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -213,11 +213,12 @@ struct JumanppProtobufOutputImpl {
 
     if (fillBuffer_) {
       buffer_.clear();
+      auto messageSize = object_.ByteSizeLong();
+      // streams write directly to the memory of the buffer
+      buffer_.reserve(messageSize + 10);
       google::protobuf::io::StringOutputStream os{&buffer_};
       google::protobuf::io::CodedOutputStream cos{&os};
-      auto messageSize = object_.ByteSizeLong();
       cos.WriteVarint64(messageSize);
-      buffer_.reserve(messageSize);
       if (!object_.SerializeToCodedStream(&cos)) {
         return JPPS_INVALID_STATE << "failed to serialize LatticeDump";
       }
-- 
2.43.0


From 84f710a02fb28c8ac39f37411e392579f8d69d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 021/103] fix: global beam position format read outside of the
 lattice for empty input

---
 src/core/impl/global_beam_position_fmt.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/impl/global_beam_position_fmt.cc b/src/core/impl/global_beam_position_fmt.cc
index 38f7030..8832840 100644
--- a/src/core/impl/global_beam_position_fmt.cc
+++ b/src/core/impl/global_beam_position_fmt.cc
@@ -31,6 +31,10 @@ Status GlobalBeamPositionFormat::format(
   }
 
   auto lat = analyzer.impl()->lattice();
+  if (lat->createdBoundaryCount() == 3) {  // empty string
+    printer_ << '\n';
+    return Status::Ok();
+  }
   auto eosBnd = lat->boundary(lat->createdBoundaryCount() - 1);
   auto top1Eos = eosBnd->starts()->beamData().at(0);
 
-- 
2.43.0


From a55dbd327d6b7773923a07b2bf9d2ae24f7798c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 022/103] fix: scores of the top paths were missing from the
 protobuf lattice

---
 src/jumandic/shared/jumanpp_pb_format.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index a11a139..80f5f4a 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -131,6 +131,10 @@ struct JumanppProtobufOutputImpl {
     object_.Clear();
     object_.set_comment(comment.str());
 
+    for (auto score : topN_.topScores_) {
+      object_.add_scores(score);
+    }
+
     core::analysis::NodeWalker walker;
     auto outputMgr = analyzer.output();
 
-- 
2.43.0


From a03f1d7612c7279f4d401674d76795439526c623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 023/103] fix: protobuf outputs swapped strings of conjugation
 type and form

---
 src/jumandic/shared/juman_pb_format.cc   | 4 ++--
 src/jumandic/shared/jumanpp_pb_format.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jumandic/shared/juman_pb_format.cc b/src/jumandic/shared/juman_pb_format.cc
index 4f280fe..6f260f7 100644
--- a/src/jumandic/shared/juman_pb_format.cc
+++ b/src/jumandic/shared/juman_pb_format.cc
@@ -74,8 +74,8 @@ struct JumanPbFormatImpl {
     auto strPos = mrph->mutable_string_pos();
     strPos->set_pos(ifEmpty(fields_.pos[walker], "*").str());
     strPos->set_subpos(ifEmpty(fields_.subpos[walker], "*").str());
-    strPos->set_conj_type(ifEmpty(fields_.conjForm[walker], "*").str());
-    strPos->set_conj_form(ifEmpty(fields_.conjType[walker], "*").str());
+    strPos->set_conj_type(ifEmpty(fields_.conjType[walker], "*").str());
+    strPos->set_conj_form(ifEmpty(fields_.conjForm[walker], "*").str());
 
     return Status::Ok();
   }
diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 80f5f4a..1f79477 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -197,8 +197,8 @@ struct JumanppProtobufOutputImpl {
         auto strPos = node->mutable_string_pos();
         strPos->set_pos(ifEmpty(fields_.pos[walker], "*").str());
         strPos->set_subpos(ifEmpty(fields_.subpos[walker], "*").str());
-        strPos->set_conj_type(ifEmpty(fields_.conjForm[walker], "*").str());
-        strPos->set_conj_form(ifEmpty(fields_.conjType[walker], "*").str());
+        strPos->set_conj_type(ifEmpty(fields_.conjType[walker], "*").str());
+        strPos->set_conj_form(ifEmpty(fields_.conjForm[walker], "*").str());
 
         for (auto& rankInfo : info.ranks) {
           node->add_ranks(rankInfo.rank);
-- 
2.43.0


From 76d1eba6ce26832a1f25a4a5ac680e20db1261a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 024/103] fix: dictionary subset output repeated entries

---
 src/jumandic/shared/mdic_format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 660b3e2..8bed39b 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -26,6 +26,7 @@ Status MdicFormat::format(const core::analysis::Analyzer& analyzer,
     for (int i = 0; i < ninfo.size(); ++i) {
       auto eptr = ninfo.at(i).entryPtr();
       if (eptr.isDic() && displayed_.count(eptr.rawValue()) == 0) {
+        displayed_.insert(eptr.rawValue());
         JPP_RETURN_IF_ERROR(formatNode(eptr.rawValue(), om));
       }
     }
-- 
2.43.0


From d2b7d6fcc9d58f70ab0e3d22cf5053e63cbc56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 025/103] fix: lattice format read outside of the beam if more
 paths were requested

---
 src/jumandic/shared/lattice_format.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 9937511..a5fd9e6 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -111,7 +111,8 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto eosBeam = eos->starts()->beamData();
 
-    for (int i = 0; i < outputN; ++i) {
+    auto maxN = std::min<i32>(eosBeam.size(), outputN);
+    for (int i = 0; i < maxN; ++i) {
       auto& bel = eosBeam.at(i);
       if (core::analysis::EntryBeam::isFake(bel)) {
         break;
-- 
2.43.0


From 6c6544fdceaac42f1e5b24d45790d8873efdf344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 026/103] fix: iteration over the result of empty input started
 at a random place

---
 src/core/analysis/analysis_result.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/analysis/analysis_result.cc b/src/core/analysis/analysis_result.cc
index 1948017..f162ae0 100644
--- a/src/core/analysis/analysis_result.cc
+++ b/src/core/analysis/analysis_result.cc
@@ -25,6 +25,7 @@ Status AnalysisResult::fillTop1(AnalysisPath *result) {
 Status AnalysisPath::fillIn(const Lattice *l) {
   auto bnds = l->createdBoundaryCount();
   JPP_DCHECK_GE(bnds, 3);
+  reset();
   elems_.clear();
   offsets_.clear();
   elems_.reserve(bnds * 2);
@@ -70,8 +71,6 @@ Status AnalysisPath::fillIn(const Lattice *l) {
     topPtr = topPtr->previous;
   }
 
-  currentChunk_ = -1;
-
   return Status::Ok();
 }
 }  // namespace analysis
-- 
2.43.0


From 59012b8aa345362dd65071b20e5245af7890dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 027/103] fix: part of speech ids of absent subcategories
 replaced ids without a subcategory

---
 src/jumandic/shared/jumandic_id_resolver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jumandic/shared/jumandic_id_resolver.cc b/src/jumandic/shared/jumandic_id_resolver.cc
index b54d517..9e3c3ad 100644
--- a/src/jumandic/shared/jumandic_id_resolver.cc
+++ b/src/jumandic/shared/jumandic_id_resolver.cc
@@ -61,6 +61,9 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
     auto& pos = posInfo[i];
     auto posId = findOr(pos2id, pos.part1, 0);
     auto subposId = findOr(subPos2id, pos.part2, 0);
+    if (subposId == 0 && pos.part2 != StringPiece("*")) {
+      continue;  // the dictionary does not contain it
+    }
     if (posId != 0 || subposId != 0) {
       CompositeId posObj{posId, subposId};
       posMap[posObj] = CompositeId{pos.id1, pos.id2};
-- 
2.43.0


From bd8ca1064ee67fc5252b77c5dd94c927d2b8fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:41 +0000
Subject: [PATCH 028/103] fix: protobuf lattice read uninitialized memory for
 empty input

---
 src/jumandic/shared/jumanpp_pb_format.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 1f79477..83e2e45 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -64,6 +64,10 @@ struct LatticeTopN {
     nodes_.clear();
     topScores_.clear();
 
+    if (lat->createdBoundaryCount() == 3) {  // empty string
+      return;
+    }
+
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto beam = eos->starts()->beamData();
     auto maxN = std::min<i32>(static_cast<i32>(beam.size()), topN);
-- 
2.43.0


From cc8f79ca2eebf4825a060a31e9b8196338af76ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 029/103] fix: lattice format dropped the comment of an empty
 sentence

---
 src/jumandic/shared/lattice_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index a5fd9e6..a03fc35 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -85,7 +85,9 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
   printer.reset();
   auto lat = analyzer.impl()->lattice();
   if (lat->createdBoundaryCount() == 3) {
-    printer.reset();
+    if (!comment.empty()) {
+      printer << "# " << comment << '\n';
+    }
     printer << "EOS\n";
     return Status::Ok();
   }
-- 
2.43.0


From 7db3b9a8f5743ff3e90c0e5b2597abb724a0ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 030/103] fix: full beam search with generated features wrote
 outside of buffers at positions without nodes

---
 src/core/analysis/analyzer_impl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 323a3ec..2d76043 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -207,6 +207,9 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
   for (i32 boundary = 2; boundary < bndCount; ++boundary) {
     JPP_CAPTURE(boundary);
     auto bnd = lattice_.boundary(boundary);
+    if (bnd->localNodeCount() == 0) {
+      continue;
+    }
     JPP_DCHECK(bnd->endingsFilled());
     auto left = bnd->ends()->nodePtrs();
     auto& proc = *this->sproc_;
-- 
2.43.0


From 1bf1b9336e4a60299dc64296ab53cbb56965198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 031/103] fix: search without the right check wrote outside of
 buffers if no path reaches a position

---
 src/core/analysis/score_processor.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 0d5b1b5..98f6755 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -353,11 +353,13 @@ void ScoreProcessor::computeGbeamScores(i32 bndIdx,
     for (auto t0idx = 0; t0idx < t0data.numRows(); ++t0idx) {
       JPP_CAPTURE(t0idx);
       auto t0 = t0data.row(t0idx);
-      ngramApply_->applyBiTri(&featureBuffer_, t0idx, t0, t1data, t2data,
-                              t1Ptrs, features, result);
-      auto t0Score = scores_.bufferT0().at(t0idx);
-      applyPluginToGbeam(bndIdx, t0idx, gbeam, result);
-      copyT0Scores(bndIdx, t0idx, gbeam, result, t0Score);
+      if (gbeam.size() > 0) {
+        ngramApply_->applyBiTri(&featureBuffer_, t0idx, t0, t1data, t2data,
+                                t1Ptrs, features, result);
+        auto t0Score = scores_.bufferT0().at(t0idx);
+        applyPluginToGbeam(bndIdx, t0idx, gbeam, result);
+        copyT0Scores(bndIdx, t0idx, gbeam, result, t0Score);
+      }
       makeT0Beam(bndIdx, t0idx, gbeam, result);
     }
   }
-- 
2.43.0


From 3d1f06e7c11854a12d1e090ed0e437a99a540a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 032/103] fix: part of speech ids of absent categories were
 given to words without a category

---
 src/jumandic/shared/jumandic_id_resolver.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jumandic/shared/jumandic_id_resolver.cc b/src/jumandic/shared/jumandic_id_resolver.cc
index 9e3c3ad..32b64df 100644
--- a/src/jumandic/shared/jumandic_id_resolver.cc
+++ b/src/jumandic/shared/jumandic_id_resolver.cc
@@ -61,13 +61,11 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
     auto& pos = posInfo[i];
     auto posId = findOr(pos2id, pos.part1, 0);
     auto subposId = findOr(subPos2id, pos.part2, 0);
-    if (subposId == 0 && pos.part2 != StringPiece("*")) {
+    if (posId == 0 || (subposId == 0 && pos.part2 != StringPiece("*"))) {
       continue;  // the dictionary does not contain it
     }
-    if (posId != 0 || subposId != 0) {
-      CompositeId posObj{posId, subposId};
-      posMap[posObj] = CompositeId{pos.id1, pos.id2};
-    }
+    CompositeId posObj{posId, subposId};
+    posMap[posObj] = CompositeId{pos.id1, pos.id2};
   }
 
   for (int j = 0; j < conjInfoCount; ++j) {
-- 
2.43.0


From dc16300b46a6bb2cc72f60a1639a946a16bb0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:45 +0000
Subject: [PATCH 033/103] fix: dictionary subset output did not quote fields
 with line breaks

---
 src/jumandic/shared/mdic_format.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 8bed39b..d27eef7 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -42,13 +42,20 @@ Status MdicFormat::initialize(const core::analysis::OutputManager& om) {
 
 namespace fmt {
 
+namespace {
+bool needsQuotes(StringPiece sp) {
+  return std::any_of(sp.begin(), sp.end(), [](char c) {
+    return c == '"' || c == ',' || c == '\n' || c == '\r';
+  });
+}
+}  // namespace
+
 util::io::FastPrinter& printMaybeQuoted(util::io::FastPrinter& printer,
                                         StringPiece data) {
   auto end = data.end();
   auto beg = data.begin();
-  auto noCommas = std::find(beg, end, ',') == end;
   auto it = std::find(beg, end, '"');
-  if (noCommas && it == end) {
+  if (!needsQuotes(data)) {
     printer << data;
   } else {
     printer << '"';
@@ -71,20 +78,14 @@ util::io::FastPrinter& printMaybeQuoteStringList(
   auto shouldQuote = false;
   auto itemsCopy = items;
   while (itemsCopy.next()) {
-    auto sp = itemsCopy.key();
-    auto it = std::find_if(sp.begin(), sp.end(),
-                           [](char c) { return c == '"' || c == ','; });
-    if (it != sp.end()) {
+    if (needsQuotes(itemsCopy.key())) {
       shouldQuote = true;
       break;
     }
     if (!itemsCopy.hasValue()) {
       continue;
     }
-    sp = itemsCopy.value();
-    it = std::find_if(sp.begin(), sp.end(),
-                      [](char c) { return c == '"' || c == ','; });
-    if (it != sp.end()) {
+    if (needsQuotes(itemsCopy.value())) {
       shouldQuote = true;
       break;
     }
-- 
2.43.0


From bb148ba375701d5fb50cedc67f154a4352f21d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:41 +0000
Subject: [PATCH 034/103] fix: dictionary keys with a null character produced a
 broken index

---
 src/core/dic/darts_trie.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/dic/darts_trie.cc b/src/core/dic/darts_trie.cc
index 0dc2936..461466e 100644
--- a/src/core/dic/darts_trie.cc
+++ b/src/core/dic/darts_trie.cc
@@ -36,6 +36,11 @@ Status DoubleArrayBuilder::build(ProgressCallback *progress) {
   values.reserve(immediate_.size());
 
   for (auto &o : immediate_) {
+    // trie uses the null character as a terminator
+    if (std::find(o.key.begin(), o.key.end(), '\0') != o.key.end()) {
+      return JPPS_INVALID_PARAMETER
+             << "dictionary key contains a null character: " << o.key;
+    }
     keys.push_back(o.key.begin());
     lengths.push_back(o.key.size());
     values.push_back(o.value);
-- 
2.43.0


From 1033c5c28751423f2be6823ab588be311748ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 035/103] fix: full lattice dump read uninitialized memory for
 empty input

---
 src/core/proto/lattice_dump_output.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/proto/lattice_dump_output.cc b/src/core/proto/lattice_dump_output.cc
index b0dddda..0927cdc 100644
--- a/src/core/proto/lattice_dump_output.cc
+++ b/src/core/proto/lattice_dump_output.cc
@@ -228,6 +228,9 @@ struct LatticeDumpOutputImpl {
 
   Status fillBoundaries(const core::analysis::Analyzer& analyzer) {
     auto l = analyzer.impl()->lattice();
+    if (l->createdBoundaryCount() <= 3) {  // 2xBOS + EOS
+      return Status::Ok();  // nothing was computed for an empty sentence
+    }
     for (i32 bndIdx = 2; bndIdx < l->createdBoundaryCount(); ++bndIdx) {
       auto bnd = obj_->add_boundaries();
       auto bndstart = l->boundary(bndIdx)->starts();
@@ -249,6 +252,9 @@ struct LatticeDumpOutputImpl {
   }
 
   void resolveRanks(const analysis::Lattice* l) {
+    if (l->createdBoundaryCount() <= 3) {  // 2xBOS + EOS
+      return;  // EOS beam is not computed for an empty sentence
+    }
     auto eos =
         l->boundary(l->createdBoundaryCount() - 1)->starts()->beamData().row(0);
     for (i32 rank = 0; rank < eos.size(); ++rank) {
-- 
2.43.0


From a03ee3bb29397de03836338774c5369f93247715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 036/103] fix: analysis which needs more memory than a page
 terminated the program

---
 src/core/analysis/analyzer.cc | 18 ++++++++++++------
 src/util/memory.cpp           |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/core/analysis/analyzer.cc b/src/core/analysis/analyzer.cc
index 3190de4..7f9e2bd 100644
--- a/src/core/analysis/analyzer.cc
+++ b/src/core/analysis/analyzer.cc
@@ -5,6 +5,8 @@
 #include "core/analysis/analyzer.h"
 #include "core/analysis/analyzer_impl.h"
 
+#include <new>
+
 namespace jumanpp {
 namespace core {
 namespace analysis {
@@ -43,12 +45,16 @@ Status Analyzer::initialize(AnalyzerImpl *impl, const ScorerDef *scorer) {
 }
 
 Status Analyzer::analyze(StringPiece input, ScorePlugin *plugin) {
-  JPP_RETURN_IF_ERROR(ptr_->resetForInput(input));
-  ptr_->setPlugin(plugin);
-  JPP_RETURN_IF_ERROR(ptr_->prepareNodeSeeds());
-  JPP_RETURN_IF_ERROR(ptr_->buildLattice());
-  JPP_RETURN_IF_ERROR(ptr_->bootstrapAnalysis());
-  JPP_RETURN_IF_ERROR(ptr_->computeScores(scorer_));
+  try {
+    JPP_RETURN_IF_ERROR(ptr_->resetForInput(input));
+    ptr_->setPlugin(plugin);
+    JPP_RETURN_IF_ERROR(ptr_->prepareNodeSeeds());
+    JPP_RETURN_IF_ERROR(ptr_->buildLattice());
+    JPP_RETURN_IF_ERROR(ptr_->bootstrapAnalysis());
+    JPP_RETURN_IF_ERROR(ptr_->computeScores(scorer_));
+  } catch (std::bad_alloc &) {
+    return JPPS_INVALID_STATE << "could not allocate memory for the analysis";
+  }
   return Status::Ok();
 }
 
diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index 440dab0..8291703 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -136,7 +136,7 @@ bool PoolAlloc::switchToNewPage(size_t size) {
     LOG_ERROR() << "page size (" << page.size << " is lesser than object size ("
                 << size << "), please increase page size";
     JPP_BREAK_TO_DEBUGGER_IF_ATTACHED();
-    throw new std::bad_alloc();
+    throw std::bad_alloc();
   }
   base_ = reinterpret_cast<char*>(page.base);
   offset_ = 0;
-- 
2.43.0


From 1b147603210a7bc8f7926efaa4540ed08a3757f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:41 +0000
Subject: [PATCH 037/103] fix: beam sizes outside of the supported range made
 the analysis write outside of buffers or hang

---
 src/core/analysis/analyzer_impl.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 2d76043..7b218c4 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -3,6 +3,7 @@
 //
 
 #include "core/analysis/analyzer_impl.h"
+#include <limits>
 #include "core/analysis/dictionary_node_creator.h"
 #include "core/analysis/innode_features.h"
 #include "core/analysis/score_api.h"
@@ -16,6 +17,11 @@ namespace jumanpp {
 namespace core {
 namespace analysis {
 
+namespace {
+// positions in a beam are stored as u16
+constexpr u32 MaxBeamSize = std::numeric_limits<u16>::max();
+}  // namespace
+
 Status AnalyzerImpl::resetForInput(StringPiece input) {
   reset();
   JPP_RETURN_IF_ERROR(input_.reset(input));
@@ -55,6 +61,12 @@ Status AnalyzerImpl::initScorers(const ScorerDef& cfg) {
            << "AnalyzerImpl: beam size can not be zero for scoring";
   }
 
+  if (latticeConfig_.beamSize > MaxBeamSize) {
+    return JPPS_INVALID_PARAMETER
+           << "AnalyzerImpl: beam size should be in range [1, " << MaxBeamSize
+           << "]";
+  }
+
   if (cfg_.rightGbeamCheck > 0 && cfg_.rightGbeamSize <= 0) {
     return JPPS_INVALID_PARAMETER
            << "right global beam size should not be zero if you enable it";
@@ -357,6 +369,7 @@ i32 AnalyzerImpl::autoBeamSizes() {
   auto inputSize = input_.numCodepoints();
   auto addedBeam = inputSize / cfg_.autoBeamStep;
   i32 beamSize = std::min<i32>(cfg_.autoBeamBase + addedBeam, cfg_.autoBeamMax);
+  beamSize = std::max<i32>(std::min<i32>(beamSize, MaxBeamSize), 1);
   latticeConfig_.beamSize = static_cast<u32>(beamSize);
   latticeConfig_.globalBeamSize = static_cast<u32>(beamSize);
   lattice_.updateConfig(latticeConfig_);
-- 
2.43.0


From 53387f032c3d1c6358a3ebe27b4705a142580584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:28 +0000
Subject: [PATCH 038/103] fix: huge global beam sizes reserved more buffer
 space than there are candidates

---
 src/core/analysis/score_processor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 98f6755..a50972d 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -52,6 +52,8 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
     // automatic beam can be larger than the configured one
     globalBeamSize_ =
         std::max<i32>(globalBeamSize_, static_cast<i32>(lcfg.globalBeamSize));
+    // and there are never more elements than candidates
+    globalBeamSize_ = std::min<i32>(globalBeamSize_, beamCandidates_.size());
     t1PtrData_.reserve(globalBeamSize_);
     globalBeam_ =
         alloc->allocateBuf<BeamCandidate>(maxEnds * lcfg.beamSize, 64);
-- 
2.43.0


From 3fda4b6b00d6891b0da4175884afb3ba6dd9f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:30 +0000
Subject: [PATCH 039/103] fix: full lattice dump contained uninitialized
 patterns of unreachable nodes

---
 src/core/analysis/analyzer_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 7b218c4..87c17ff 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -169,7 +169,7 @@ Status AnalyzerImpl::buildLattice() {
 
     if (noStaticPattern) {
       JPP_RETURN_IF_ERROR(fc.importEntryData(bnd));
-      if (latticeBldr_.isAccessible(boundary)) {
+      if (latticeBldr_.isAccessible(boundary) || cfg_.storeAllPatterns) {
         fc.patternFeaturesDynamic(bnd);
       }
     }
-- 
2.43.0


From fb6aa500eb70be9afc7434512edcd721069fc0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:20 +0000
Subject: [PATCH 040/103] fix: scores of unreachable nodes were computed from
 uninitialized patterns

---
 src/core/analysis/analyzer_impl.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 87c17ff..436797a 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -169,9 +169,8 @@ Status AnalyzerImpl::buildLattice() {
 
     if (noStaticPattern) {
       JPP_RETURN_IF_ERROR(fc.importEntryData(bnd));
-      if (latticeBldr_.isAccessible(boundary) || cfg_.storeAllPatterns) {
-        fc.patternFeaturesDynamic(bnd);
-      }
+      // scores are computed for unreachable nodes as well
+      fc.patternFeaturesDynamic(bnd);
     }
 
     JPP_DCHECK_EQ(bnd->starts()->numEntries(),
-- 
2.43.0


From 3bc463615cf298b731be54ccf0df8038447467a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:13 +0000
Subject: [PATCH 041/103] fix: comparison of dictionary traversals read an
 uninitialized value

---
 src/core/dic/darts_trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/darts_trie.h b/src/core/dic/darts_trie.h
index 837116e..23efe9d 100644
--- a/src/core/dic/darts_trie.h
+++ b/src/core/dic/darts_trie.h
@@ -69,7 +69,7 @@ class DoubleArrayTraversal {
   const impl::DoubleArrayCore *base_;
   size_t node_pos_ = 0;
   size_t key_pos_ = 0;
-  i32 value_;
+  i32 value_ = 0;
 
  public:
   DoubleArrayTraversal(const impl::DoubleArrayCore *base_) noexcept
-- 
2.43.0


From 9679434a108fa7b6fcf90c89388228102571f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:54 +0000
Subject: [PATCH 042/103] fix: generated code did not compile for specs without
 some kind of ngrams

---
 .../codegen/partial_ngram_feature_codegen.cc  | 41 ++++++++++---------
 src/core/codegen/pattern_feature_codegen.cc   |  2 +-
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/core/codegen/partial_ngram_feature_codegen.cc b/src/core/codegen/partial_ngram_feature_codegen.cc
index eee36c4..18dad26 100644
--- a/src/core/codegen/partial_ngram_feature_codegen.cc
+++ b/src/core/codegen/partial_ngram_feature_codegen.cc
@@ -181,6 +181,25 @@ class VarNamer {
   }
 };
 
+// C++ does not have arrays of zero size,
+// so features of a missing kind get an empty slice instead
+void outputFeatureIdxes(i::Printer& p, StringPiece name,
+                        util::ArraySlice<NgramFeatureCodegen> ngrams,
+                        u32 position) {
+  if (ngrams.size() == 0) {
+    p << "\nconst " << JPP_TEXT(::jumanpp::util::ArraySlice<jumanpp::u32>) << " "
+      << name << "{};";
+    return;
+  }
+
+  p << "\nstatic constexpr jumanpp::u32 " << name << "[" << ngrams.size()
+    << "] = {\n  ";
+  for (auto& ngram : ngrams) {
+    p << ngram.spec().references[position] << ", ";
+  }
+  p << "\n};";
+}
+
 void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
   p << "\n\nvoid applyBiTri("  // args
     << JPP_TEXT(::jumanpp::core::features::FeatureBuffer*) << " buffers, \n"
@@ -206,25 +225,9 @@ void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
 
     p << "\nauto buf1 = buffers->valBuf1(numBigrams);";
     p << "\nauto buf2 = buffers->valBuf2(numBigrams);";
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t1BiFeatureIdxes[numBigrams] = {\n  ";
-    for (auto& bi : bigrams_) {
-      p << bi.spec().references[1] << ", ";
-    }
-    p << "\n};";
-
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t1TriFeatureIdxes[numTrigrams] = {\n  ";
-    for (auto& tri : trigrams_) {
-      p << tri.spec().references[1] << ", ";
-    }
-    p << "\n};";
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t2TriFeatureIdxes[numTrigrams] = {\n  ";
-    for (auto& tri : trigrams_) {
-      p << tri.spec().references[2] << ", ";
-    }
-    p << "\n};";
+    outputFeatureIdxes(p, "t1BiFeatureIdxes", bigrams_, 1);
+    outputFeatureIdxes(p, "t1TriFeatureIdxes", trigrams_, 1);
+    outputFeatureIdxes(p, "t2TriFeatureIdxes", trigrams_, 2);
 
     p << "\n::jumanpp::core::features::impl::applyBiTriFullKernel(";
     {
diff --git a/src/core/codegen/pattern_feature_codegen.cc b/src/core/codegen/pattern_feature_codegen.cc
index 2728c58..f820cb9 100644
--- a/src/core/codegen/pattern_feature_codegen.cc
+++ b/src/core/codegen/pattern_feature_codegen.cc
@@ -273,7 +273,7 @@ void InNodeComputationsCodegen::generateLoopBody(i::Printer &p) {
 
   p << "\n// publish perceptron value";
   p << "\nif (JPP_LIKELY(item > 0)) {";
-  p << "\n  scores.at(item - 1) = score_part_0";
+  p << "\n  scores.at(item - 1) = " << (varUsage > 0 ? "score_part_0" : "0");
   for (int var = 1; var < numVars; ++var) {
     p << " + score_part_" << var;
   }
-- 
2.43.0


From 203916db2b782114d728832c9c8a112751852540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:54 +0000
Subject: [PATCH 043/103] fix: fused bigram and trigram scoring read weights at
 uninitialized indices

---
 src/core/analysis/score_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index a50972d..2f800c9 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -46,6 +46,7 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
   analyzer->core().features().ngramPartial->allocateBuffers(&featureBuffer_,
                                                             runStats_, alloc);
   util::fill(featureBuffer_.valueBuffer1, 0);
+  util::fill(featureBuffer_.valueBuffer2, 0);
 
   globalBeamSize_ = analyzer->cfg().globalBeamSize;
   if (globalBeamSize_ > 0) {
-- 
2.43.0


From 3add4b679c80d7aa3bdcd524e7da9165e5ff4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:29 +0000
Subject: [PATCH 044/103] fix: features could not be explained if a numeric
 field was one of them

---
 src/core/impl/feature_debug.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/core/impl/feature_debug.cc b/src/core/impl/feature_debug.cc
index 5d96362..60275d6 100644
--- a/src/core/impl/feature_debug.cc
+++ b/src/core/impl/feature_debug.cc
@@ -27,6 +27,22 @@ struct StringCopyDisplay : public Display {
   }
 };
 
+struct IntCopyDisplay : public Display {
+  analysis::IntField field_;
+  bool appendTo(util::io::FastPrinter& p, const analysis::NodeWalker& walker,
+                const NodeInfo& ni,
+                impl::PrimitiveFeatureContext* ctx) override {
+    if (ni.entryPtr() == EntryPtr::BOS()) {
+      p << "BOS";
+    } else if (ni.entryPtr() == EntryPtr::EOS()) {
+      p << "EOS";
+    } else {
+      p << field_[walker];
+    }
+    return true;
+  }
+};
+
 struct ShiftMaskDisplay : public Display {
   impl::ShiftMaskPrimFeatureImpl f_;
   bool appendTo(util::io::FastPrinter& p, const analysis::NodeWalker& walker,
@@ -189,6 +205,13 @@ Status FeaturesDebugger::makePrimitive(const analysis::AnalyzerImpl* impl,
   impl::FeatureConstructionContext fcc{&impl->core().dic().fields()};
   switch (prim.kind) {
     case PrimitiveFeatureKind::Copy: {
+      auto field = impl->core().dic().fields().byName(prim.name);
+      if (field != nullptr && field->columnType == spec::FieldType::Int) {
+        auto f = new IntCopyDisplay;
+        result.reset(f);
+        JPP_RETURN_IF_ERROR(impl->output().intField(prim.name, &f->field_));
+        break;
+      }
       auto f = new StringCopyDisplay;
       result.reset(f);
       JPP_RETURN_IF_ERROR(impl->output().stringField(prim.name, &f->field_));
-- 
2.43.0


From ea4b73461ff910c11a050666b55c12355b1e3e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 045/103] fix: annotations had no effect on scores with full
 beam search

---
 src/core/analysis/analyzer_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 436797a..32a2a88 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -249,8 +249,8 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
       for (i32 beamIdx = 0; beamIdx < activeBeam; ++beamIdx) {
         JPP_CAPTURE(beamIdx);
         proc.applyT2(beamIdx, sconf->feature);
-        proc.copyFeatureScores(t1idx, beamIdx, scores);
         proc.applyPluginToFullBeam(boundary, t1idx, beamIdx);
+        proc.copyFeatureScores(t1idx, beamIdx, scores);
       }
     }
 
-- 
2.43.0


From 98f6efdd0501a01c93699372c014ff5f40bbb3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 046/103] fix: comments of partially annotated examples leaked
 into later ones

---
 src/core/input/partial_example_io.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index b72f2d1..d79981a 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -29,6 +29,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
   result->noBreak_.clear();
   result->surface_.clear();
   result->nodes_.clear();
+  result->comment_.clear();
   while (csv_.nextLine()) {
     if (firstLine) {
       result->line_ = csv_.lineNumber();
-- 
2.43.0


From 9436dbd8ba0712e73d6441554d0e4f6a9135a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 047/103] fix: training fields which are not analysed were
 accessed at index -1

---
 src/core/input/partial_example_io.cc | 7 +++++++
 src/core/training/gold_example.cc    | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index d79981a..5f7449a 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -113,6 +113,13 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
                << "] was not present in the dictionary spec";
       }
 
+      if (mapIter->second->dicFieldIdx < 0) {
+        return JPPS_INVALID_PARAMETER
+               << "in file: " << filename_ << ":" << csv_.lineNumber()
+               << " the field of an entry [" << fldData
+               << "] is not used for the analysis";
+      }
+
       auto idmap = mapIter->second->str2int;
       auto idValue = idmap->find(fldValue);
       if (idValue == idmap->end()) {
diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 4ea4791..c7ab148 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -117,6 +117,9 @@ EntryPtr TrainingExampleAdapter::makeUnkTrainingNode(const ExampleNode &node) {
   for (int i = 0; i < node.data.size(); ++i) {
     auto nodeVal = node.data[i];
     auto idx = spec->fields[i].dicIdx;
+    if (idx < 0) {  // the analysis does not use the field
+      continue;
+    }
     if (nodeVal >= 0) {
       nodeData.at(idx) = nodeVal;
     } else {
-- 
2.43.0


From 7a79e79bb061edc62e597a6e0e1771394ab2bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 048/103] fix: readers of annotated data indexed arrays out of
 bounds for specs without string train fields

---
 src/core/input/training_io.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/input/training_io.cc b/src/core/input/training_io.cc
index 7761cb3..788ee0e 100644
--- a/src/core/input/training_io.cc
+++ b/src/core/input/training_io.cc
@@ -13,12 +13,6 @@ Status readStr2IdMap(const dic::DictionaryField &fld,
                      util::FlatMap<StringPiece, i32> *map) {
   auto &s2i = *map;
 
-  if (fld.columnType != spec::FieldType::String) {
-    return JPPS_INVALID_PARAMETER
-           << "training data reader allows only string-typed fields, field "
-           << fld.name << " was not";
-  }
-
   if (fld.emptyValue.size() != 0) {
     s2i[fld.emptyValue] = 0;
   }
@@ -36,11 +30,21 @@ Status readStr2IdMap(const dic::DictionaryField &fld,
 
 Status TrainFieldsIndex::initialize(const CoreHolder &core) {
   auto &spec = core.spec().training;
+  if (spec.surfaceIdx < 0 || spec.surfaceIdx >= spec.fields.size()) {
+    return JPPS_INVALID_PARAMETER
+           << "annotations require a train section in the dictionary spec";
+  }
   storages_.resize(core.spec().dictionary.numStringStorage);
   for (i32 i = 0; i < spec.fields.size(); ++i) {
     auto &tf = spec.fields[i];
     auto &fldSpec = core.spec().dictionary.fields[tf.fieldIdx];
     auto dicFld = core.dic().fields().byName(fldSpec.name);
+    if (dicFld->columnType != spec::FieldType::String) {
+      return JPPS_INVALID_PARAMETER
+             << "training data reader allows only string-typed fields, field "
+             << dicFld->name << " was not";
+    }
+
     auto &str2int = storages_[dicFld->stringStorageIdx];
 
     if (str2int.size() == 0) {
-- 
2.43.0


From 48e56e3cb98792a2a915a06cbf94e5c400125719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 049/103] fix: markers of absent values were confused with
 values of other fields in annotations

---
 src/core/input/partial_example_io.cc | 15 ++++++---------
 src/core/input/training_io.cc        |  7 ++-----
 src/core/input/training_io.h         | 19 +++++++++++++++++++
 src/core/training/full_example.cc    |  9 ++++-----
 4 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 5f7449a..884b3e6 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -113,22 +113,19 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
                << "] was not present in the dictionary spec";
       }
 
-      if (mapIter->second->dicFieldIdx < 0) {
+      auto field = mapIter->second;
+      if (field->dicFieldIdx < 0) {
         return JPPS_INVALID_PARAMETER
                << "in file: " << filename_ << ":" << csv_.lineNumber()
                << " the field of an entry [" << fldData
                << "] is not used for the analysis";
       }
 
-      auto idmap = mapIter->second->str2int;
-      auto idValue = idmap->find(fldValue);
-      if (idValue == idmap->end()) {
-        auto id = analysis::hashUnkString(fldValue);
-        nc.tags.push_back(TagConstraint{mapIter->second->dicFieldIdx, id});
-      } else {
-        nc.tags.push_back(
-            TagConstraint{mapIter->second->dicFieldIdx, idValue->second});
+      i32 value;
+      if (!field->valueOf(fldValue, &value)) {
+        value = analysis::hashUnkString(fldValue);
       }
+      nc.tags.push_back(TagConstraint{field->dicFieldIdx, value});
     }
 
     result->nodes_.push_back(std::move(nc));
diff --git a/src/core/input/training_io.cc b/src/core/input/training_io.cc
index 788ee0e..c8069a5 100644
--- a/src/core/input/training_io.cc
+++ b/src/core/input/training_io.cc
@@ -13,10 +13,6 @@ Status readStr2IdMap(const dic::DictionaryField &fld,
                      util::FlatMap<StringPiece, i32> *map) {
   auto &s2i = *map;
 
-  if (fld.emptyValue.size() != 0) {
-    s2i[fld.emptyValue] = 0;
-  }
-
   core::dic::impl::StringStorageTraversal everything{fld.strings};
   StringPiece data;
 
@@ -52,7 +48,8 @@ Status TrainFieldsIndex::initialize(const CoreHolder &core) {
       JPP_RETURN_IF_ERROR(readStr2IdMap(*dicFld, &str2int));
     }
 
-    fields_.push_back({dicFld->name, &str2int, tf.dicIdx, i});
+    fields_.push_back(
+        {dicFld->name, &str2int, tf.dicIdx, i, dicFld->emptyValue});
   }
   surfaceFieldIdx_ = spec.fields[spec.surfaceIdx].number;
   return Status::Ok();
diff --git a/src/core/input/training_io.h b/src/core/input/training_io.h
index 7f41230..f26b09e 100644
--- a/src/core/input/training_io.h
+++ b/src/core/input/training_io.h
@@ -26,6 +26,25 @@ struct TrainingExampleField {
   util::FlatMap<StringPiece, i32>* str2int;
   i32 dicFieldIdx;
   i32 exampleFieldIdx;
+  StringPiece emptyValue;
+
+  /**
+   * Empty values are checked first: storages can be shared by several fields,
+   * and the marker of one field can be an usual value of another one.
+   * @return false if the field can not have the value
+   */
+  bool valueOf(StringPiece str, i32* result) const {
+    if (emptyValue.size() != 0 && str == emptyValue) {
+      *result = 0;
+      return true;
+    }
+    auto it = str2int->find(str);
+    if (it == str2int->end()) {
+      return false;
+    }
+    *result = it->second;
+    return true;
+  }
 };
 
 /**
diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 1827166..ae1e474 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -128,10 +128,11 @@ Status FullExampleReader::readSingleExampleFragment(
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
-    auto &map = *fldInfo.str2int;
     auto fld = csv.field(fldInfo.exampleFieldIdx);
-    auto it = map.find(fld);
-    if (it == map.end()) {
+    i32 value;
+    if (fldInfo.valueOf(fld, &value)) {
+      result->data_.push_back(value);
+    } else {
       if (csv_.rowHadQuoted()) {
         if (!charBuffer_.import(&fld)) {
           return JPPS_INVALID_PARAMETER << "failed to import string at file "
@@ -142,8 +143,6 @@ Status FullExampleReader::readSingleExampleFragment(
       i32 item = static_cast<i32>(result->strings_.size());
       result->strings_.emplace_back(fld);
       result->data_.push_back(~item);
-    } else {
-      result->data_.push_back(it->second);
     }
   }
   return Status::Ok();
-- 
2.43.0


From 166445d44edf6538ebb2cd597bc8b3534173d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:55 +0000
Subject: [PATCH 050/103] fix: annotated unknown words did not match if their
 strings were in the dictionary

---
 src/core/input/partial_example.cc    | 3 ++-
 src/core/input/partial_example.h     | 3 +++
 src/core/input/partial_example_io.cc | 6 +++---
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/input/partial_example.cc b/src/core/input/partial_example.cc
index a8fc922..99aa662 100644
--- a/src/core/input/partial_example.cc
+++ b/src/core/input/partial_example.cc
@@ -64,7 +64,8 @@ PartialViolation PartialExample::checkViolation(
 
   auto data = lr->entryData().row(position);
   for (auto& tag : nodeCstrs.tags) {
-    if (data.at(tag.field) != tag.value) {
+    auto actual = data.at(tag.field);
+    if (actual != tag.value && actual != tag.unkValue) {
       return {ViolationKind::Tag, tag.field};
     }
   }
diff --git a/src/core/input/partial_example.h b/src/core/input/partial_example.h
index b13af13..cc9e8cd 100644
--- a/src/core/input/partial_example.h
+++ b/src/core/input/partial_example.h
@@ -20,6 +20,9 @@ namespace input {
 struct TagConstraint {
   i32 field;
   i32 value;
+  // unknown words have hashes instead of pointers to their strings, even if
+  // the same strings are present in the dictionary
+  i32 unkValue;
 };
 
 struct NodeConstraint {
diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 884b3e6..6611340 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -120,12 +120,12 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
                << " the field of an entry [" << fldData
                << "] is not used for the analysis";
       }
-
+      i32 unkValue = analysis::hashUnkString(fldValue);
       i32 value;
       if (!field->valueOf(fldValue, &value)) {
-        value = analysis::hashUnkString(fldValue);
+        value = unkValue;
       }
-      nc.tags.push_back(TagConstraint{field->dicFieldIdx, value});
+      nc.tags.push_back(TagConstraint{field->dicFieldIdx, value, unkValue});
     }
 
     result->nodes_.push_back(std::move(nc));
-- 
2.43.0


From 17760832f73742e97031ab20b59eccd50dbb9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:06 +0000
Subject: [PATCH 051/103] fix: a dictionary without the template row of an unk
 processor is an error

---
 src/core/dic/dic_build_detail.cc | 5 +++++
 src/core/dic/dic_build_detail.h  | 1 +
 src/core/dic/dic_builder.cc      | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 7c45521..4eeac72 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -63,6 +63,11 @@ void DictionaryBuilderStorage::fillResult(BuiltDictionary* dic_) {
   }
 }
 
+bool DictionaryBuilderStorage::hasPatternRow(i32 row) const {
+  auto iter = entries.ignoredRows.find(row);
+  return iter != entries.ignoredRows.end() && iter->second != InvalidInt;
+}
+
 Status DictionaryBuilderStorage::computeStats(StringPiece name,
                                               util::CsvReader* csv,
                                               ProgressCallback* callback) {
diff --git a/src/core/dic/dic_build_detail.h b/src/core/dic/dic_build_detail.h
index 23947fa..1d17fa0 100644
--- a/src/core/dic/dic_build_detail.h
+++ b/src/core/dic/dic_build_detail.h
@@ -48,6 +48,7 @@ struct DictionaryBuilderStorage {
   Status makeStorage(ProgressCallback* callback);
   i32 importActualData(util::CsvReader* csv, ProgressCallback* callback);
   Status buildTrie(ProgressCallback* callback);
+  bool hasPatternRow(i32 row) const;
   void fillResult(BuiltDictionary* dic_);
   Status initGroupingFields(const s::AnalysisSpec& spec);
 };
diff --git a/src/core/dic/dic_builder.cc b/src/core/dic/dic_builder.cc
index a2bc1e4..ed0e14a 100644
--- a/src/core/dic/dic_builder.cc
+++ b/src/core/dic/dic_builder.cc
@@ -43,6 +43,14 @@ Status DictionaryBuilder::importCsv(StringPiece name, StringPiece data) {
   newProgressStep("Compiling dictionary entries");
   i32 entryCnt = storage_->importActualData(&csv, progress_);
 
+  for (auto &unk : spec_->unkCreators) {
+    if (!storage_->hasPatternRow(unk.patternRow)) {
+      return JPPS_INVALID_PARAMETER
+             << "dictionary " << name << " did not have row #" << unk.patternRow
+             << " which is the template of unk processor " << unk.name;
+    }
+  }
+
   // finally: build trie
   newProgressStep("Compiling trie index");
   JPP_RETURN_IF_ERROR(storage_->buildTrie(progress_));
-- 
2.43.0


From 1f5f4bbb233aafd1917fa4000f6fc1c57025136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:23 +0000
Subject: [PATCH 052/103] fix: a malformed dictionary row is an error and does
 not cut the dictionary off

---
 src/core/dic/dic_build_detail.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 4eeac72..789d13a 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -100,6 +100,12 @@ Status DictionaryBuilderStorage::computeStats(StringPiece name,
     }
     ++numLine;
   }
+  // the reader stops on the first malformed line
+  if (csv->bytePosition() != csv->byteSize()) {
+    return JPPS_INVALID_PARAMETER << "dictionary file " << name
+                                  << " has a malformed or too long row after line #"
+                                  << csv->lineNumber();
+  }
   return Status::Ok();
 }
 
-- 
2.43.0


From 4ee066f9db0b4898987c0391377dc8d3567483f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:23 +0000
Subject: [PATCH 053/103] fix: a dictionary row with an empty surface is an
 error and is not dropped silently

---
 src/core/dic/dic_build_detail.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 789d13a..d469a8d 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -91,7 +91,17 @@ Status DictionaryBuilderStorage::computeStats(StringPiece name,
                << " line #" << csv->lineNumber();
       }
       if (imp.isTrieIndexed) {
-        entries.addSurface(csv->field(imp.descriptor->position - 1));
+        auto surface = csv->field(imp.descriptor->position - 1);
+        // there is nothing to look such row up by
+        bool noSurface =
+            surface.empty() || surface == imp.descriptor->emptyString;
+        if (noSurface && !entries.ignoredRows.exists(csv->lineNumber())) {
+          return JPPS_INVALID_PARAMETER
+                 << "when processing dictionary file " << name << " the field "
+                 << imp.descriptor->name << " was empty on line #"
+                 << csv->lineNumber();
+        }
+        entries.addSurface(surface);
       }
     }
     if (callback != nullptr && numLine % 4096 == 0) {
-- 
2.43.0


From d8d239cec1a92bd37f55222d2f01027534b8c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:23 +0000
Subject: [PATCH 054/103] fix: too long surfaces overflowed the stack when
 building a dictionary

---
 src/core/dic/dic_build_detail.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index d469a8d..4671a7c 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -101,6 +101,14 @@ Status DictionaryBuilderStorage::computeStats(StringPiece name,
                  << imp.descriptor->name << " was empty on line #"
                  << csv->lineNumber();
         }
+        // building of the index uses stack proportionally to the length
+        constexpr size_t maxSurfaceLength = 16 * 1024;
+        if (surface.size() > maxSurfaceLength) {
+          return JPPS_INVALID_PARAMETER
+                 << "when processing dictionary file " << name << " the field "
+                 << imp.descriptor->name << " was too long on line #"
+                 << csv->lineNumber();
+        }
         entries.addSurface(surface);
       }
     }
-- 
2.43.0


From 818a964f28eed19e09bd39c5c2e7c14c15644889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:23 +0000
Subject: [PATCH 055/103] fix: list fields with elements which can not be
 stored or long lists had invalid pointers

---
 src/core/dic/field_import.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index 2e82494..000ed1f 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -55,7 +55,7 @@ bool StringListFieldImporter::importFieldValue(const util::CsvReader& csv) {
     auto space = std::search(sp.begin(), sp.end(), entrySeparator_.begin(),
                              entrySeparator_.end());
     auto key = StringPiece{sp.begin(), space};
-    storage_->increaseFieldValueCount(key);
+    JPP_RET_CHECK(storage_->increaseFieldValueCount(key));
     if (space == sp.end()) {
       return true;
     }
@@ -149,12 +149,12 @@ bool StringKeyValueListFieldImporter::importFieldValue(
     auto sepIter = std::search(sp.begin(), space, kvSeparator_.begin(),
                                kvSeparator_.end());
     if (sepIter == space) {
-      storage_->increaseFieldValueCount(entry);
+      JPP_RET_CHECK(storage_->increaseFieldValueCount(entry));
     } else {
       auto key = StringPiece{sp.begin(), sepIter};
       auto value = StringPiece{sepIter + kvsepSize, space};
-      storage_->increaseFieldValueCount(key);
-      storage_->increaseFieldValueCount(value);
+      JPP_RET_CHECK(storage_->increaseFieldValueCount(key));
+      JPP_RET_CHECK(storage_->increaseFieldValueCount(value));
     }
     if (space == sp.end()) {
       return true;
@@ -239,11 +239,11 @@ i32 StringKeyValueListFieldImporter::fieldPointer(const util::CsvReader& csv) {
   if (!positionCache_.tryFind(serialized, &ptr)) {
     ptr = static_cast<i32>(buffer_->position());
     buffer_->writeStringDataWithoutLengthPrefix(serialized);
-    if (!charBuf_.import(&serialized)) {
-      return -1;
+    // lists which are too long for the cache are just not reused
+    if (charBuf_.import(&serialized)) {
+      positionCache_.insert(serialized, ptr);
+      JPP_DCHECK(positionCache_.tryFind(serialized, &ptr));
     }
-    positionCache_.insert(serialized, ptr);
-    JPP_DCHECK(positionCache_.tryFind(serialized, &ptr));
   }
 
   return ptr;
-- 
2.43.0


From bb27582537af46aa6c87505421e23d560177e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 056/103] fix: input files after the first one were skipped,
 unreadable files gave endless errors

---
 src/jumandic/main/jumanpp.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 77d9278..ad423f7 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -24,13 +24,13 @@ struct InputOutput {
 
   Status moveToNextFile() {
     auto& fn = (*inFiles_)[currentInFile_];
+    currentInFile_ += 1;
     fileInput_.reset(new std::ifstream{fn});
-    if (fileInput_->bad()) {
-      return JPPS_INVALID_PARAMETER << "failed to open output file: " << fn;
-    }
     input_ = fileInput_.get();
     currentInputFilename_ = fn;
-    currentInFile_ += 1;
+    if (!fileInput_->good()) {
+      return JPPS_INVALID_PARAMETER << "failed to open input file: " << fn;
+    }
     return Status::Ok();
   }
 
@@ -80,20 +80,21 @@ struct InputOutput {
   }
 
   bool hasNext() {
-    if (input_->good()) {
-      auto ch = input_->peek();
-      if (ch == std::char_traits<char>::eof()) {
+    while (!input_->good() ||
+           input_->peek() == std::char_traits<char>::eof()) {
+      if (input_->bad()) {
+        std::cerr << "failed when reading from file: " << currentInputFilename_
+                  << "\n";
+      }
+      if (currentInFile_ >= inFiles_->size()) {
         return false;
       }
-    }
-    while (input_->eof() && currentInFile_ < inFiles_->size()) {
       auto s = moveToNextFile();
       if (!s) {
-        LOG_ERROR() << s.message();
+        std::cerr << s << "\n";
       }
     }
-    auto isOk = !input_->eof();
-    return isOk;
+    return true;
   }
 };
 
-- 
2.43.0


From a94fb20196e78dc13318d5d47a241eb01fdd3261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 057/103] fix: input lines which can not be read did not have a
 result

---
 src/jumandic/main/jumanpp.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index ad423f7..7e46017 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -158,6 +158,7 @@ int main(int argc, const char** argv) {
     s = io.nextInput();
     if (!s) {
       std::cerr << "failed to read an example: " << s;
+      *io.output_ << exec.emptyResult();
       result = 1;
       continue;
     }
-- 
2.43.0


From 31bd3ab62d5cfe9d02b3c46926f650b4c9a9a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 058/103] fix: sentences which can not be analyzed did not have
 a line in the segmented output

---
 src/jumandic/shared/jumandic_env.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index b6fe65f..877a827 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -215,6 +215,7 @@ StringPiece JumanppExec::emptyResult() const {
       return StringPiece{"# ERROR\nEOS\n"};
     case OutputType::Morph:
     case OutputType::FullMorph:
+    case OutputType::Segmentation:
       return StringPiece{"# ERROR\n"};
     default:
       return EMPTY_SP;
-- 
2.43.0


From 9c798f3b3885f4c2d2454fc59e921c155e65828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 059/103] fix: output was lost silently if the output file
 could not be opened

---
 src/jumandic/main/jumanpp.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 7e46017..f613b79 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -62,6 +62,10 @@ struct InputOutput {
       output_ = &std::cout;
     } else {
       fileOutput_.reset(new std::ofstream{conf.outputFile});
+      if (!fileOutput_->good()) {
+        return JPPS_INVALID_PARAMETER << "failed to open output file: "
+                                      << conf.outputFile;
+      }
       output_ = fileOutput_.get();
     }
 
-- 
2.43.0


From 45bbc5712a09ed55788ef8e482ec214be2d8d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:09 +0000
Subject: [PATCH 060/103] fix: the command line tool ignored --graphviz-dir

---
 src/jumandic/main/jumanpp.cc       |  4 ++++
 src/jumandic/shared/jumandic_env.h | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index f613b79..08b9084 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -181,6 +181,10 @@ int main(int argc, const char** argv) {
       std::cerr << s;
     } else {
       *io.output_ << exec.format()->result();
+      s = exec.finishExample();
+      if (!s) {
+        std::cerr << s;
+      }
     }
   }
 
diff --git a/src/jumandic/shared/jumandic_env.h b/src/jumandic/shared/jumandic_env.h
index 7b6c73d..c8c1c14 100644
--- a/src/jumandic/shared/jumandic_env.h
+++ b/src/jumandic/shared/jumandic_env.h
@@ -50,17 +50,24 @@ class JumanppExec {
     try {
       JPP_RETURN_IF_ERROR(analyzer_.analyze(data));
       JPP_RETURN_IF_ERROR(format_->format(analyzer_, comment))
-      if (!conf.graphvizDir.value().empty()) {
-        JPP_RETURN_IF_ERROR(writeGraphviz());
-      }
-      numAnalyzed_ += 1;
-      return Status::Ok();
+      return finishExample();
     } catch (std::exception& e) {
       return JPPS_INVALID_STATE << "failed to analyze [" << data << "] ["
                                 << comment << "]: " << e.what();
     }
   }
 
+  /**
+   * Writes everything except the main output for the analyzed example
+   */
+  Status finishExample() {
+    if (!conf.graphvizDir.value().empty()) {
+      JPP_RETURN_IF_ERROR(writeGraphviz());
+    }
+    numAnalyzed_ += 1;
+    return Status::Ok();
+  }
+
   StringPiece output() const { return format_->result(); }
 
   u64 numAnalyzed() const { return numAnalyzed_; }
-- 
2.43.0


From 3a3e04c9e25a5766612de74930113969c59763dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:27 +0000
Subject: [PATCH 061/103] fix: options which could not be parsed were ignored

---
 src/jumandic/shared/jumanpp_args.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index a03b5c9..8a3a85c 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -175,7 +175,7 @@ struct JppArgsParser {
       std::cerr << parser;
       exit(1);
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter() << "unknown exception happened";
     }
@@ -205,7 +205,7 @@ struct JppArgsParser {
     } catch (args::Help&) {
       return Status::InvalidParameter() << parser;
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter();
     }
-- 
2.43.0


From 287852f7987f2d638e274c66d3c023a141e7eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:34 +0000
Subject: [PATCH 062/103] fix: moved mappings of files were not released, a
 garbage address was unmapped instead

---
 src/util/mmap_impl_unix.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index a0b85a3..e722901 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -226,13 +226,21 @@ StringPiece MappedFileFragment::asStringPiece() const {
 }
 
 MappedFileFragment::MappedFileFragment(MappedFileFragment &&o) noexcept
-    : address_{o.address_}, size_{o.size_} {
+    : baseAddress_{o.baseAddress_},
+      address_{o.address_},
+      alignedSize_{o.alignedSize_},
+      size_{o.size_} {
   o.address_ = MAP_FAILED;
 }
 
 MappedFileFragment &MappedFileFragment::operator=(
     MappedFileFragment &&o) noexcept {
+  if (!isClean()) {
+    this->unmap();
+  }
+  baseAddress_ = o.baseAddress_;
   address_ = o.address_;
+  alignedSize_ = o.alignedSize_;
   size_ = o.size_;
   o.address_ = MAP_FAILED;
   return *this;
-- 
2.43.0


From 841a118743810988ec3dce9bf5458e5034c672ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:34 +0000
Subject: [PATCH 063/103] fix: empty files could not be opened, contents of
 unopened files were garbage

---
 src/util/mmap.cc           | 16 +++++++++++++++-
 src/util/mmap.h            |  4 ++--
 src/util/mmap_impl_unix.h  |  2 +-
 src/util/mmap_impl_win32.h |  2 +-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/util/mmap.cc b/src/util/mmap.cc
index 40b6e32..5ff7cba 100644
--- a/src/util/mmap.cc
+++ b/src/util/mmap.cc
@@ -27,12 +27,26 @@ Status FullyMappedFile::open(StringPiece filename, MMapType type) {
     this->close();
   }
   JPP_RETURN_IF_ERROR(file_.open(filename, type));
+  if (file_.size() == 0) {
+    // it is not possible to map an empty file
+    file_.close();
+    return Status::Ok();
+  }
   JPP_RETURN_IF_ERROR(file_.map(&fragment_, 0, file_.size()));
   return Status::Ok();
 }
 
+StringPiece FullyMappedFile::contents() const {
+  if (fragment_.isClean()) {
+    return EMPTY_SP;
+  }
+  return fragment_.asStringPiece();
+}
+
 void FullyMappedFile::close() {
-  fragment_.unmap();
+  if (!fragment_.isClean()) {
+    fragment_.unmap();
+  }
   file_.close();
 }
 
diff --git a/src/util/mmap.h b/src/util/mmap.h
index 927977d..c127170 100644
--- a/src/util/mmap.h
+++ b/src/util/mmap.h
@@ -37,7 +37,7 @@ class MappedFileFragment {
 
   void *address() { return address_; }
   size_t size() { return size_; }
-  bool isClean();
+  bool isClean() const;
   Status flush();
   void unmap();
 
@@ -91,7 +91,7 @@ class FullyMappedFile {
   Status open(StringPiece filename, MMapType type = MMapType::ReadOnly);
   void close();
   StringPiece filename() const { return file_.name(); }
-  StringPiece contents() const { return fragment_.asStringPiece(); }
+  StringPiece contents() const;
 };
 
 }  // namespace util
diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index e722901..bb8f3e8 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -209,7 +209,7 @@ void MappedFileFragment::unmap() {
   address_ = MAP_FAILED;
 }
 
-bool MappedFileFragment::isClean() { return address_ == MAP_FAILED; }
+bool MappedFileFragment::isClean() const { return address_ == MAP_FAILED; }
 
 Status MappedFileFragment::flush() {
   int status = ::msync(address_, size(), MS_SYNC);
diff --git a/src/util/mmap_impl_win32.h b/src/util/mmap_impl_win32.h
index 63cbdcb..8ebfd36 100644
--- a/src/util/mmap_impl_win32.h
+++ b/src/util/mmap_impl_win32.h
@@ -195,7 +195,7 @@ void MappedFileFragment::unmap() {
   address_ = nullptr;
 }
 
-bool MappedFileFragment::isClean() { return address_ == nullptr; }
+bool MappedFileFragment::isClean() const { return address_ == nullptr; }
 
 Status MappedFileFragment::flush() {
   if (FlushViewOfFile(this->address_, 0) == 0) {
-- 
2.43.0


From 03b220c57b59cd504aae7dc9fd9150eddb794096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:34 +0000
Subject: [PATCH 064/103] fix: config files which began with whitespace added
 an input file with an empty name

---
 src/jumandic/shared/jumanpp_args.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 8a3a85c..07736c6 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -194,7 +194,10 @@ struct JppArgsParser {
     std::regex_token_iterator<const char*> end{};
     std::vector<std::string> parts;
     for (; begin != end; ++begin) {
-      parts.emplace_back(wstart, begin->first);
+      // there is an empty token if the file begins with whitespace
+      if (wstart != begin->first) {
+        parts.emplace_back(wstart, begin->first);
+      }
       wstart = begin->second;
     }
     if (wstart != data.end()) {
-- 
2.43.0


From dacc26797ba83b806c4ee300b3ee6dab0a3f4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:00 +0000
Subject: [PATCH 065/103] fix: the number of results on the command line
 overrode the beam size of the config file

---
 src/jumandic/shared/jumanpp_args.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 07736c6..b9b5092 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -262,10 +262,6 @@ struct JppArgsParser {
     result->segmentSeparator.set(segmentSeparator);
 
     result->beamSize.set(beamSize);
-    if (result->beamSize < result->beamOutput) {
-      result->beamSize = result->beamOutput.value();
-    }
-
     result->globalBeam.set(globalBeamSize);
     result->rightCheck.set(rightCheckBeam);
     result->rightBeam.set(rightBeamSize);
@@ -287,6 +283,13 @@ struct JppArgsParser {
   }
 };
 
+// it is not possible to output more results than there are in the beam
+void raiseBeamSize(JumanppConf* conf) {
+  if (conf->autoStep.isDefault() && conf->beamSize < conf->beamOutput) {
+    conf->beamSize = conf->beamOutput.value();
+  }
+}
+
 }  // namespace
 
 Status parseCfgFile(StringPiece filename, JumanppConf* conf,
@@ -302,6 +305,7 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
     conf->mergeWith(internal);
   }
   conf->mergeWith(myConf);
+  raiseBeamSize(conf);
   return Status::Ok();
 }
 
@@ -397,6 +401,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   }
 
   result->mergeWith(cmdline);
+  raiseBeamSize(result);
 
   LOG_TRACE() << "Merged Config: " << *result;
 
-- 
2.43.0


From 1a09717cd16a99e48414d8ca83faa9cb4292912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:31 +0000
Subject: [PATCH 066/103] fix: invalid values of --auto-nbest were ignored

---
 src/jumandic/shared/jumanpp_args.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index b9b5092..1928e3c 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -230,7 +230,7 @@ struct JppArgsParser {
                  "for more information\n";
   }
 
-  void fillResult(JumanppConf* result) {
+  Status fillResult(JumanppConf* result) {
     if (availableFormats) {
       printAvailableFormats();
       exit(1);
@@ -267,19 +267,24 @@ struct JppArgsParser {
     result->rightBeam.set(rightBeamSize);
 
     if (autoBeam) {
-      std::regex autoBeamRegex(R"(^(\d+):(\d+):(\d+)$)");
+      std::regex autoBeamRegex(R"(^(\d{1,9}):(\d{1,9}):(\d{1,9})$)");
       std::smatch results;
       auto& s = autoBeam.Get();
       if (std::regex_search(s, results, autoBeamRegex)) {
         result->beamSize = to_int10<i32>(results[1]);
         result->autoStep = to_int10<i32>(results[2]);
         result->globalBeam = to_int10<i32>(results[3]);
+      } else {
+        return JPPS_INVALID_PARAMETER
+               << "automatic beam size should be BASE:STEP:MAX, it was: " << s;
       }
     }
 
 #ifdef JPP_ENABLE_DEV_TOOLS
     result->outputType.set(globalBeamPos, OutputType::GlobalBeamPos);
 #endif
+
+    return Status::Ok();
   }
 };
 
@@ -297,7 +302,7 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
   JppArgsParser parser;
   JumanppConf myConf;
   JPP_RETURN_IF_ERROR(parser.parseFile(filename));
-  parser.fillResult(&myConf);
+  JPP_RETURN_IF_ERROR(parser.fillResult(&myConf));
   if (recursionDepth > 0 && myConf.configFile.defined()) {
     JumanppConf internal;
     JPP_RETURN_IF_ERROR(
@@ -351,7 +356,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   JppArgsParser argsParser;
   JumanppConf cmdline;
   JPP_RETURN_IF_ERROR(argsParser.parseCli(argc, argv));
-  argsParser.fillResult(&cmdline);
+  JPP_RETURN_IF_ERROR(argsParser.fillResult(&cmdline));
 
   util::logging::CurrentLogLevel =
       static_cast<util::logging::Level>(cmdline.logLevel.value());
@@ -362,7 +367,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   if (!cmdline.configFile.value().empty()) {
     s = argsParser.parseFile(cmdline.configFile.value());
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
     } else {
       return Status::InvalidParameter()
@@ -378,7 +383,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     globalCfgName += myName.str();
     s = argsParser.parseFile(globalCfgName);
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result));
@@ -393,7 +398,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     userConfigPath += myName.str();
     s = argsParser.parseFile(userConfigPath);
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result));
     LOG_DEBUG() << "tried to read user config from " << userConfigPath
-- 
2.43.0


From 68ecc02d99142a777e8d947135e85ca30d0db2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:09 +0000
Subject: [PATCH 067/103] fix: model paths relative to the config file were not
 resolved

---
 src/jumandic/shared/jumanpp_args.cc | 48 +++++++++--------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 1928e3c..cabe06b 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -7,9 +7,8 @@
 #include <sys/ioctl.h>
 #include <unistd.h>
 #endif
-#include <errors.hpp>
+#include <fstream>
 #include <iostream>
-#include <path.hpp>
 #include <regex>
 #include <util/logging.hpp>
 
@@ -315,39 +314,22 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
 }
 
 namespace {
-Status fixupModelPath(JumanppConf* result) {
+// Path of the model can be relative to the config file which specifies it
+void fixupModelPath(JumanppConf* result, const std::string& configFile) {
   // don't try anything if there is no file
-  if (result->configFile.isDefault()) {
-    return Status::Ok();
+  if (result->modelFile.isDefault()) {
+    return;
   }
 
-  try {
-    Pathie::Path modelPath(result->modelFile);
-    if (modelPath.exists()) {
-      return Status::Ok();
-    }
-
-    Pathie::Path configPath(result->configFile);
-    Pathie::Path configParent = configPath.parent();
-
-    if (!configParent.exists() || !configParent.is_directory()) {
-      return Status::Ok();
-    }
-
-    if (modelPath.is_absolute()) {
-      return Status::Ok();
-    }
+  auto& model = result->modelFile.value();
+  if (model.empty() || model[0] == '/' || std::ifstream{model}.good()) {
+    return;
+  }
 
-    Pathie::Path relativeToCfg = configParent / modelPath;
-    if (relativeToCfg.exists()) {
-      result->modelFile = relativeToCfg.utf8_str();
-    }
-  } catch (Pathie::PathieError& e) {
-    return JPPS_INVALID_PARAMETER
-           << "failed to fixup path to a configuration file: \'"
-           << result->modelFile.value() << "\' reason=" << e.what();
+  auto relativeToCfg = configFile.substr(0, configFile.rfind('/') + 1) + model;
+  if (std::ifstream{relativeToCfg}.good()) {
+    result->modelFile = relativeToCfg;
   }
-  return Status::Ok();
 }
 }  // namespace
 
@@ -375,7 +357,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
              << "\n"
              << s;
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    fixupModelPath(result, cmdline.configFile);
   }
 
   if (!loadedConfig) {
@@ -386,7 +368,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    fixupModelPath(result, globalCfgName);
     LOG_DEBUG() << "tried to read global config from " << globalCfgName
                 << " error=" << s;
   }
@@ -400,7 +382,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     if (s) {
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    fixupModelPath(result, userConfigPath);
     LOG_DEBUG() << "tried to read user config from " << userConfigPath
                 << " error=" << s;
   }
-- 
2.43.0


From 1811fe2ccc4d87a5b1ea35f845e16ad2375035c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:43 +0000
Subject: [PATCH 068/103] fix: errors in the default config files were ignored

---
 src/jumandic/shared/jumanpp_args.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index cabe06b..7463b11 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -363,14 +363,15 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   if (!loadedConfig) {
     std::string globalCfgName{core::JPP_DEFAULT_CONFIG_DIR};
     globalCfgName += myName.str();
-    s = argsParser.parseFile(globalCfgName);
-    if (s) {
+    if (std::ifstream{globalCfgName}.good()) {
+      JPP_RIE_MSG(argsParser.parseFile(globalCfgName),
+                  "failed to parse global config at: " << globalCfgName);
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
     }
     fixupModelPath(result, globalCfgName);
     LOG_DEBUG() << "tried to read global config from " << globalCfgName
-                << " error=" << s;
+                << " loaded=" << loadedConfig;
   }
 
   auto homePtr = std::getenv("HOME");
@@ -378,13 +379,15 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     std::string userConfigPath(homePtr);
     userConfigPath += "/.config/jumanpp";
     userConfigPath += myName.str();
-    s = argsParser.parseFile(userConfigPath);
-    if (s) {
+    if (std::ifstream{userConfigPath}.good()) {
+      JPP_RIE_MSG(argsParser.parseFile(userConfigPath),
+                  "failed to parse user config at: " << userConfigPath);
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
+      loadedConfig = true;
     }
     fixupModelPath(result, userConfigPath);
     LOG_DEBUG() << "tried to read user config from " << userConfigPath
-                << " error=" << s;
+                << " loaded=" << loadedConfig;
   }
 
   result->mergeWith(cmdline);
-- 
2.43.0


From 1d6f9a213ec36cab5f9623222e65e11ac0cbeb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:38 +0000
Subject: [PATCH 069/103] fix: --model-info of a missing model was not an error

---
 src/jumandic/main/jumanpp.cc        | 12 ++++++++++--
 src/jumandic/shared/jumandic_env.cc |  9 ++++-----
 src/jumandic/shared/jumandic_env.h  |  2 +-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 08b9084..48dfd98 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -130,7 +130,11 @@ int main(int argc, const char** argv) {
     }
 
     if (conf.outputType == jumandic::OutputType::ModelInfo) {
-      exec.printModelInfo();
+      s = exec.printModelInfo();
+      if (!s) {
+        std::cerr << "failed to load model from disk: " << s;
+        return 1;
+      }
       return 0;
     }
 
@@ -144,7 +148,11 @@ int main(int argc, const char** argv) {
   }
 
   if (conf.outputType == jumandic::OutputType::ModelInfo) {
-    exec.printModelInfo();
+    s = exec.printModelInfo();
+    if (!s) {
+      std::cerr << "failed to load model from disk: " << s;
+      return 1;
+    }
     return 0;
   }
 
diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index 877a827..8e1c5b9 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -173,12 +173,11 @@ Status JumanppExec::writeGraphviz() {
   return Status::Ok();
 }
 
-void JumanppExec::printModelInfo() const {
+Status JumanppExec::printModelInfo() const {
   core::model::FilesystemModel model;
-  Status s = model.open(this->conf.modelFile.value());
-  if (s) {
-    model.renderInfo();
-  }
+  JPP_RETURN_IF_ERROR(model.open(this->conf.modelFile.value()));
+  model.renderInfo();
+  return Status::Ok();
 }
 
 void JumanppExec::printFullVersion() const {
diff --git a/src/jumandic/shared/jumandic_env.h b/src/jumandic/shared/jumandic_env.h
index c8c1c14..788b3ae 100644
--- a/src/jumandic/shared/jumandic_env.h
+++ b/src/jumandic/shared/jumandic_env.h
@@ -74,7 +74,7 @@ class JumanppExec {
 
   virtual ~JumanppExec() = default;
 
-  void printModelInfo() const;
+  Status printModelInfo() const;
 
   void printFullVersion() const;
   StringPiece emptyResult() const;
-- 
2.43.0


From c0a0a8fca10af40ed5e6796d136c3ecefe6075f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:30 +0000
Subject: [PATCH 070/103] fix: option values which did not fit their types were
 replaced with other values

---
 libs/args.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/args.h b/libs/args.h
index ce275ab..48e0992 100644
--- a/libs/args.h
+++ b/libs/args.h
@@ -3259,9 +3259,11 @@ struct ValueReader
   operator ()(const std::string &name, const std::string &value, T &destination)
   {
     std::istringstream ss(value);
-    ss >> destination >> std::ws;
+    ss >> destination;
+    bool failed = ss.fail();
+    ss >> std::ws;
 
-    if (ss.rdbuf()->in_avail() > 0)
+    if (failed || ss.rdbuf()->in_avail() > 0)
     {
 #ifdef ARGS_NOEXCEPT
       (void)name;
-- 
2.43.0


From 32ff23a323a71d07b67f33f628cefa1e8e389389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:28 +0000
Subject: [PATCH 071/103] fix: an interrupted save over another model left a
 valid header of mixed contents

---
 src/core/impl/model_io.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index e59662e..bb6c916 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -49,6 +49,15 @@ Status ModelSaver::save(const ModelInfo& info) {
     return Status::InvalidState() << "can't save model, file is not opened";
   }
 
+  {
+    // The file could have contained another model. Its header should not
+    // describe the new contents if they are not going to be saved completely.
+    util::MappedFileFragment header;
+    JPP_RETURN_IF_ERROR(file_->mmap.map(&header, 0, 4096));
+    std::memset(header.address(), 0, header.size());
+    JPP_RETURN_IF_ERROR(header.flush());
+  }
+
   ModelInfoRaw raw{};
   size_t offset = 4096;
   for (auto& part : info.parts) {
-- 
2.43.0


From 60fa97f42012e5fe75822b9905648c880b2aae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:28 +0000
Subject: [PATCH 072/103] fix: blocks of models with a damaged header could be
 misaligned

---
 src/core/impl/model_io.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index bb6c916..6bd35a0 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -185,6 +185,11 @@ Status FilesystemModel::load(ModelInfo* info) {
                                   << raw.offset << " of size " << raw.size
                                   << " is outside of the file";
       }
+      if (!util::memory::IsAligned(raw.offset, 4096)) {
+        return JPPS_INVALID_STATE << "model file " << file_->name
+                                  << " is corrupted: a block at " << raw.offset
+                                  << " is not aligned";
+      }
       ptrdiff_t start = static_cast<ptrdiff_t>(raw.offset);
       ptrdiff_t end = static_cast<ptrdiff_t>(start + raw.size);
       part.data.push_back(modelData.slice(start, end));
-- 
2.43.0


From 7c0a5822602516bb07ecdd4a11209fdc8050aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:51 +0000
Subject: [PATCH 073/103] fix: alignments which do not fit into integers were
 shifted by

---
 src/core/dic/dic_build_detail.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 4671a7c..9a42430 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -185,6 +185,11 @@ Status DictionaryBuilderStorage::initialize(const s::DictionarySpec& dicSpec) {
     auto& column = dicSpec.fields[i];
     JPP_RETURN_IF_ERROR(importers.at(i).initialize(i, &column, storage));
     if (column.stringStorage != spec::InvalidInt) {
+      if (column.alignment < 0 || column.alignment > 30) {
+        return JPPS_INVALID_PARAMETER
+               << "alignment of field " << column.name
+               << " must be between 0 and 30, was " << column.alignment;
+      }
       storage[column.stringStorage].setAlignment(column.alignment);
     }
     auto colIdx = column.position - 1;
-- 
2.43.0


From ac5b52aae9c2b154ef047f7375f6048a299b1b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:51 +0000
Subject: [PATCH 074/103] fix: training threads were started before their
 queues were ready

---
 src/core/training/training_executor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index f627f31..be9bfc5 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -58,13 +58,14 @@ void TrainingExecutorThread::finish() { thread_.join(); }
 Status TrainingExecutor::initialize(const analysis::ScorerDef* sconf,
                                     u32 nthreads) {
   threads_.clear();
+  // threads use the queues as soon as they start
+  trainers_.initialize(nthreads * 2);
+  results_.initialize(nthreads * 2);
   try {
     for (u32 i = 0; i < nthreads; ++i) {
       threads_.emplace_back(
           new TrainingExecutorThread{sconf, &trainers_, &results_});
     }
-    trainers_.initialize(nthreads * 2);
-    results_.initialize(nthreads * 2);
   } catch (std::system_error& e) {
     return JPPS_INVALID_STATE << "failed to initialize executor: " << e.code()
                               << " msg: " << e.what();
-- 
2.43.0


From d4e8569b8c4368e4b75960e9467f255aae2efdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:51 +0000
Subject: [PATCH 075/103] fix: the training executor could not be stopped while
 there was work in its queue

---
 src/core/training/training_executor.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index be9bfc5..ff69db2 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -78,6 +78,15 @@ TrainingExecutionResult TrainingExecutor::waitOne() {
 }
 
 TrainingExecutor::~TrainingExecutor() {
+  // forget the work that was not started and the results nobody waits for:
+  // otherwise there may be no place for the end markers of all threads
+  // and for the results of examples which are being processed now
+  ITrainer* skipped;
+  while (trainers_.recieve(&skipped))
+    ;  // do nothing
+  TrainingExecutionResult ignored;
+  while (results_.recieve(&ignored))
+    ;  // do nothing
   while (trainers_.offer(nullptr))
     ;  // do nothing
   trainers_.unblock_all();
-- 
2.43.0


From f79815bed3476e23c0d383422fe036f96c82cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:35 +0000
Subject: [PATCH 076/103] fix: training moved some weights away from the
 reference

Features which are left when the other list ends had inverted signs.
---
 src/core/training/loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 31abd45..f13e3a8 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -236,11 +236,11 @@ void LossCalculator::computeFeatureDiff(u32 mask) {
   }
 
   for (; topPos < topCnt; ++topPos) {
-    mergeOne(top1Features[topPos], 1.0f);
+    mergeOne(top1Features[topPos], -1.0f);
   }
 
   for (; goldPos < goldCnt; ++goldPos) {
-    mergeOne(goldFeatures[goldPos], -1.0f);
+    mergeOne(goldFeatures[goldPos], 1.0f);
   }
 
   float numGold = 0;
-- 
2.43.0


From fc694ff06817d6276cb92925caa47b8f1a5a0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:35 +0000
Subject: [PATCH 077/103] fix: training looked for its fields in wrong places
 of entries

Entries have fields which are used by the analysis, so indices of fields
in the specification and in entries are different.
---
 src/core/training/gold_example.cc | 2 +-
 src/core/training/loss.cc         | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index c7ab148..dcc5835 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -26,7 +26,7 @@ bool TrainingExampleAdapter::matchUnkNodeData(const analysis::ExtraNode *pNode,
     if (trainFld.weight == 0) {
       continue;
     }
-    auto latticeIdx = trainFld.fieldIdx;
+    auto latticeIdx = trainFld.dicIdx;
     auto latVal = latNodeData.at(latticeIdx);
     if (latVal < 0) {
       if (latVal != surfaceHash) {
diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index f13e3a8..691147d 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -39,7 +39,10 @@ bool LossCalculator::findWorstTopNode(i32 goldPos, ComparisonStep* step) {
     float mismatchWeight = 0;
 
     for (auto& sf : specFlds) {
-      if (topData[sf.fieldIdx] != goldData[sf.fieldIdx]) {
+      if (sf.dicIdx < 0) {  // the analysis does not use the field
+        continue;
+      }
+      if (topData[sf.dicIdx] != goldData[sf.dicIdx]) {
         numMismatches += 1;
         mismatchWeight += sf.weight;
       }
-- 
2.43.0


From 68323a4bf79f21caf65591d2fd93d262fb1d25f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:37 +0000
Subject: [PATCH 078/103] fix: unknown words of training examples had strings
 of other fields

A surface was the last string which was not in the dictionary, so words
with an unknown reading or base form were resolved by that string.
---
 src/core/training/full_example.cc |  2 ++
 src/core/training/full_example.h  | 16 +++++-----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index ae1e474..d447894 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -11,6 +11,7 @@ namespace training {
 Status FullExampleReader::readFullExample(FullyAnnotatedExample *result) {
   result->data_.clear();
   result->lengths_.clear();
+  result->byteLengths_.clear();
 
   switch (mode_) {
     case DataReaderMode::SimpleCsv:
@@ -125,6 +126,7 @@ Status FullExampleReader::readSingleExampleFragment(
            << "a word from the line #" << csv_.lineNumber() << " had "
            << csv.numFields() << " fields, expected " << fields.size();
   }
+  result->byteLengths_.push_back(surfFld.size());
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index e129e45..58e6df3 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -32,6 +32,7 @@ class FullyAnnotatedExample {
   std::vector<StringPiece> strings_;
   std::vector<i32> data_;
   std::vector<i32> lengths_;
+  std::vector<size_t> byteLengths_;
 
   StringPiece filename_;
   std::string comment_;
@@ -49,22 +50,14 @@ class FullyAnnotatedExample {
   ExampleNode nodeAt(i32 idx) const {
     JPP_DCHECK_IN(idx, 0, lengths_.size());
     i32 codeptPos = 0;
+    size_t bytePos = 0;
     for (int i = 0; i < idx; ++i) {
       codeptPos += lengths_[i];
+      bytePos += byteLengths_[i];
     }
-    i32 negIdx = 0;
     auto exampleData = const_cast<FullyAnnotatedExample*>(this)->data();
     auto examRow = exampleData.row(idx);
-    for (i32 exEntry : examRow) {
-      if (exEntry < 0) {
-        negIdx = exEntry;
-      }
-    }
-
-    StringPiece sp{};
-    if (negIdx < 0) {
-      sp = strings_[~negIdx];
-    }
+    auto sp = surface().slice(bytePos, bytePos + byteLengths_[idx]);
 
     return ExampleNode{sp, examRow, codeptPos, lengths_[idx]};
   }
@@ -79,6 +72,7 @@ class FullyAnnotatedExample {
     strings_.clear();
     data_.clear();
     lengths_.clear();
+    byteLengths_.clear();
   }
 
   void setInfo(StringPiece filename, i64 lineNo) {
-- 
2.43.0


From b2ff0dc78012aaf5435ac66736299faeb3835f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:58 +0000
Subject: [PATCH 079/103] fix: debug builds stopped on training sentences with
 lines of two bytes

It is fine to take all of a string piece.
---
 src/util/string_piece.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/string_piece.h b/src/util/string_piece.h
index eb97452..4f80a2d 100644
--- a/src/util/string_piece.h
+++ b/src/util/string_piece.h
@@ -118,12 +118,14 @@ class StringPiece {
   }
 
   JPP_ALWAYS_INLINE constexpr StringPiece from(ptrdiff_t from) const noexcept {
-    JPP_DCHECK_IN(from, 0, size());
+    JPP_DCHECK_GE(from, 0);
+    JPP_DCHECK_LE(from, size());
     return StringPiece{std::min(begin() + from, end()), end()};
   }
 
   JPP_ALWAYS_INLINE constexpr StringPiece take(ptrdiff_t num) const noexcept {
-    JPP_DCHECK_IN(num, 0, size());
+    JPP_DCHECK_GE(num, 0);
+    JPP_DCHECK_LE(num, size());
     return StringPiece{begin(), std::min(begin() + num, end())};
   }
 
-- 
2.43.0


From 71871fd55f4c8a4b065dae123967c895984d270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:58 +0000
Subject: [PATCH 080/103] fix: debug builds stopped on training steps without
 different features

---
 src/core/training/scw.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/training/scw.cc b/src/core/training/scw.cc
index 4b94d09..ce00d51 100644
--- a/src/core/training/scw.cc
+++ b/src/core/training/scw.cc
@@ -22,6 +22,9 @@ void SoftConfidenceWeighted::update(float loss,
 
   double score = calcScore(features);
   double vt = calcVt(features);
+  if (vt == 0) {  // there is nothing to update
+    return;
+  }
 
   double alphat = calcAlpha(vt, loss * score);
   double ut = calcUt(alphat, vt);
@@ -29,9 +32,6 @@ void SoftConfidenceWeighted::update(float loss,
 
   JPP_DCHECK(std::isfinite(betat));
   JPP_DCHECK(std::isfinite(alphat));
-  if (vt == 0) {
-    return;
-  }
   updateWeights((float)alphat, loss, features);
   updateMatrix((float)betat, features);
 }
-- 
2.43.0


From f6b9ce5816e1b29c0ed8bc2e36846c4e4cd34228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:12 +0000
Subject: [PATCH 081/103] fix: global beams could not become longer when a
 lattice was scored again

Training scores the same lattice several times, debug builds stopped there.
---
 src/core/analysis/lattice_types.cc   | 3 ++-
 src/core/analysis/lattice_types.h    | 5 ++++-
 src/core/analysis/score_processor.cc | 6 +++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/analysis/lattice_types.cc b/src/core/analysis/lattice_types.cc
index a68b06a..1dda00d 100644
--- a/src/core/analysis/lattice_types.cc
+++ b/src/core/analysis/lattice_types.cc
@@ -101,8 +101,9 @@ LatticeLeftBoundary::LatticeLeftBoundary(util::memory::PoolAlloc *alloc,
                                          const LatticeBoundaryConfig &lbc) {
   endingNodes_ = alloc->allocateBuf<LatticeNodePtr>(lbc.endNodes);
   if (lc.globalBeamSize > 0) {
-    globalBeam_ =
+    globalBeamData_ =
         alloc->allocateBuf<const ConnectionBeamElement *>(lc.globalBeamSize);
+    globalBeam_ = globalBeamData_;
   }
 }
 
diff --git a/src/core/analysis/lattice_types.h b/src/core/analysis/lattice_types.h
index 1541870..6c9fe36 100644
--- a/src/core/analysis/lattice_types.h
+++ b/src/core/analysis/lattice_types.h
@@ -18,6 +18,7 @@ namespace analysis {
 
 class LatticeLeftBoundary {
   util::MutableArraySlice<LatticeNodePtr> endingNodes_;
+  util::MutableArraySlice<const ConnectionBeamElement*> globalBeamData_;
   util::MutableArraySlice<const ConnectionBeamElement*> globalBeam_;
   friend class LatticeBoundary;
 
@@ -35,9 +36,11 @@ class LatticeLeftBoundary {
     return globalBeam_;
   }
 
+  bool hasGlobalBeam() const { return globalBeamData_.size() > 0; }
+
   void setGlobalBeamSize(size_t size) {
     globalBeam_ = util::MutableArraySlice<const ConnectionBeamElement*>{
-        globalBeam_, 0, size};
+        globalBeamData_, 0, size};
   }
 };
 
diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 2f800c9..05a63fe 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -272,10 +272,10 @@ util::ArraySlice<BeamCandidate> ScoreProcessor::makeGlobalBeam(i32 bndIdx,
   util::MutableArraySlice<BeamCandidate> slice{globalBeam_, 0, count};
   auto res = processBeamCandidates(slice, maxElems);
   // std::cerr << maxElems << ":" << VOut(slice) << "\n";
-  auto gbptrs = ends->globalBeam();
-  if (gbptrs.size() > 0) {
-    JPP_DCHECK_LE(res.size(), gbptrs.size());
+  if (ends->hasGlobalBeam()) {
+    // the lattice can be scored several times
     ends->setGlobalBeamSize(res.size());
+    auto gbptrs = ends->globalBeam();
     for (int i = 0; i < res.size(); ++i) {
       auto beamEl = res.at(i);
       auto left = leftNodes.at(beamEl.left());
-- 
2.43.0


From 4af427f1bdf0cf30e2364d80a2774aee23c86fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:38 +0000
Subject: [PATCH 082/103] fix: models trained with one thread depended on
 timings

Weights were updated while the thread was using them for the next example.
---
 src/core/training/training_env.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/training/training_env.cc b/src/core/training/training_env.cc
index 539ecda..17e0024 100644
--- a/src/core/training/training_env.cc
+++ b/src/core/training/training_env.cc
@@ -61,6 +61,11 @@ Status TrainingEnv::trainOneBatch(i32 iterNum) {
        ++processedTrainers) {
     // step1: load trainer queue with trainers
     while (submittedTrainers < totalTrainers) {
+      if (args_.numThreads == 1 && submittedTrainers > processedTrainers) {
+        // The next example must see all updates of weights,
+        // otherwise models would depend on timings.
+        break;
+      }
       auto trainer = trainers_.trainer(submittedTrainers);
       if (globalBeamCfg_.isEnabled()) {
         if (args_.globalBeam.fullFirstIter && iterNum == 0) {
-- 
2.43.0


From 3445223c7a9213ed1d2c738b8dbeebb4eb87bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:47 +0000
Subject: [PATCH 083/103] fix: training read uninitialized memory for empty
 sentences of a corpus

---
 src/core/training/full_example.cc | 3 +++
 src/core/training/trainer.cc      | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index d447894..6890b1c 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -61,6 +61,9 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
   while (csv_.nextLine()) {
     if (csv_.numFields() == 1 &&
         (csv_.field(0).empty() || csv_.field(0) == "EOS")) {
+      if (result->lengths_.empty()) {  // there is nothing to learn from
+        continue;
+      }
       return Status::Ok();
     }
 
diff --git a/src/core/training/trainer.cc b/src/core/training/trainer.cc
index 60d1f29..bedbe5a 100644
--- a/src/core/training/trainer.cc
+++ b/src/core/training/trainer.cc
@@ -148,7 +148,9 @@ Status TrainerBatch::readPartialExamples(input::PartialExampleReader *reader) {
       break;
     }
     JPP_DCHECK(scorerDef_);
-    partialTrainerts_.emplace_back(trainer.release());
+    if (!partialTrainer.example().surface().empty()) {
+      partialTrainerts_.emplace_back(trainer.release());
+    }
     trainer.reset(new OwningPartialTrainer);
   } while (!eof);
   return Status::Ok();
-- 
2.43.0


From 135692f5eedb12801c4baa634608ced1e65c3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:01 +0000
Subject: [PATCH 084/103] fix: RNN vocabularies with words which start with a
 quote were not read

---
 src/rnn/mikolov_rnn.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 4d3c675..938831e 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -164,7 +164,8 @@ Status MikolovModelReader::parse() {
   auto contents = data_->modelFrag.asStringPiece();
   size_t start = ~size_t{0};
   JPP_RETURN_IF_ERROR(readHeader(contents, &data_->header, &start));
-  util::CsvReader ssvReader{' '};
+  // words are not quoted
+  util::CsvReader ssvReader{' ', '\0'};
   JPP_RETURN_IF_ERROR(
       ssvReader.initFromMemory(data_->dictFrag.asStringPiece()));
   auto& wdata = data_->wordData;
-- 
2.43.0


From 186dbd498d25e7c27e047da1916f3676142c58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:01 +0000
Subject: [PATCH 085/103] fix: RNN weight was used as NCE bias for RNNs of
 model files

---
 src/core/analysis/rnn_scorer_gbeam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 5fa9f32..e3471a7 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -462,8 +462,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
 
   JPP_RETURN_IF_ERROR(state_->rnn.init(rnnhdr, rnnMatrix, maxentWeights));
   state_->computeBosState(0);
-  if (config().rnnWeight.defined()) {
-    state_->rnn.setNceConstant(config().rnnWeight);
+  if (config().nceBias.defined()) {
+    state_->rnn.setNceConstant(config().nceBias);
   }
 
   return Status::Ok();
-- 
2.43.0


From b9057273a9f5ffc22d261bac86a9d1de988b2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:01 +0000
Subject: [PATCH 086/103] fix: sizes of RNN blocks of model files were checked
 incorrectly

---
 src/core/analysis/rnn_scorer_gbeam.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index e3471a7..d23935f 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -400,7 +400,7 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
 
 Status arr2d(StringPiece data, size_t nrows, size_t ncols,
              util::ConstSliceable<float>* result) {
-  if (nrows * ncols * sizeof(float) < data.size()) {
+  if (nrows * ncols * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << nrows * ncols * sizeof(float);
@@ -413,7 +413,7 @@ Status arr2d(StringPiece data, size_t nrows, size_t ncols,
 
 Status arr1d(StringPiece data, size_t expected,
              util::ArraySlice<float>* result) {
-  if (expected * sizeof(float) < data.size()) {
+  if (expected * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << expected * sizeof(float);
@@ -430,6 +430,11 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
     return JPPS_INVALID_PARAMETER << "model file did not contain RNN";
   }
 
+  if (p->data.size() < 7) {
+    return JPPS_INVALID_PARAMETER << "RNN part of the model file had only "
+                                  << p->data.size() << " blocks out of 7";
+  }
+
   RnnModelHeader header{state_->config, {}, {}, {}};
 
   util::serialization::Loader l{p->data[0]};
@@ -449,7 +454,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
   util::ArraySlice<float> maxentWeights;
 
   JPP_RIE_MSG(
-      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.vocabSize, &rnnMatrix),
+      arr1d(p->data[3], static_cast<size_t>(rnnhdr.layerSize) * rnnhdr.layerSize,
+            &rnnMatrix),
       "failed to read matrix");
   JPP_RIE_MSG(arr2d(p->data[4], rnnhdr.vocabSize, rnnhdr.layerSize,
                     &state_->embeddings),
-- 
2.43.0


From 342cd47fd7a1c82134eedb7b04f685e2a9b7e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:02 +0000
Subject: [PATCH 087/103] fix: RNN maxent contexts contained only the previous
 word

---
 src/core/analysis/rnn_scorer_gbeam.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index d23935f..1872323 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -180,6 +180,9 @@ struct GbeamRnnState {
       for (; idx < cnt; ++idx) {
         JPP_DCHECK_NE(prev, nullptr);
         row.at(idx) = prev->id;
+        if (prev->prev != nullptr) {  // first BOS fills the rest
+          prev = prev->prev;
+        }
       }
       scoreIdx += 1;
     }
-- 
2.43.0


From e68c372bceb045b2beaecfd771726d285fcc14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:21 +0000
Subject: [PATCH 088/103] fix: RNN paths were merged with the last one of the
 boundary and not the equal one

---
 src/core/analysis/rnn_id_resolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 1648b23..928297e 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -225,7 +225,7 @@ std::pair<RnnNode*, RnnNode*> RnnIdContainer::addPrevChain(
         if (cached->hash == hash) {
           // we can collapse a path in the RNN lattice
           // but we still need to publish the score
-          nodePtr = it->second;
+          nodePtr = cached;
           addScore(nodePtr, cptr);
           return std::make_pair(nodePtr, nodePtr);
         }
-- 
2.43.0


From 7b426dbcfac4e3f298171bdb7e08d9fd111ec929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:21 +0000
Subject: [PATCH 089/103] fix: weights of models with RNN were lost when other
 RNN settings were given

---
 src/core/env.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/env.cc b/src/core/env.cc
index 569826d..434b5e1 100644
--- a/src/core/env.cc
+++ b/src/core/env.cc
@@ -86,12 +86,14 @@ void JumanppEnv::setRnnConfig(
   }
   if (hasRnnModel()) {
     rnnHolder_.setConfig(rnnConf);
+    // unspecified values come from the model
+    auto& conf = rnnHolder_.config();
     if (scorers_.others.empty()) {
       scorers_.others.push_back(&rnnHolder_);
     }
     scorers_.scoreWeights.resize(2, 0);
-    scorers_.scoreWeights[0] = rnnConf.perceptronWeight;
-    scorers_.scoreWeights[1] = rnnConf.rnnWeight;
+    scorers_.scoreWeights[0] = conf.perceptronWeight;
+    scorers_.scoreWeights[1] = conf.rnnWeight;
     scoringConf_.numScorers = 2;
   } else {
     scorers_.scoreWeights.resize(1, 0);
-- 
2.43.0


From 73d14d5033dc386b5d053a781a7a11f5753e6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:43 +0000
Subject: [PATCH 090/103] fix: embedding a new RNN into a model with RNN left
 the old one in use

---
 src/core/analysis/rnn_scorer_gbeam.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 1872323..f91b95d 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -3,6 +3,7 @@
 //
 
 #include "rnn_scorer_gbeam.h"
+#include <algorithm>
 #include "rnn/mikolov_rnn.h"
 #include "rnn_id_resolver.h"
 #include "util/logging.hpp"
@@ -386,6 +387,14 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
   util::serialization::Saver s{&state_->codedBuf_};
   s.save(header);
 
+  // the first part would be used when there are several of them
+  auto& parts = info->parts;
+  parts.erase(std::remove_if(parts.begin(), parts.end(),
+                             [](const model::ModelPart& p) {
+                               return p.kind == model::ModelPartKind::Rnn;
+                             }),
+              parts.end());
+
   info->parts.emplace_back();
   auto& part = info->parts.back();
   part.comment = comment.str();
-- 
2.43.0


From 8a41c0e4278df9a3e61f7e1cc3c333593fa29aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:43 +0000
Subject: [PATCH 091/103] fix: header of RNN files was read past the end of the
 file

---
 src/rnn/mikolov_rnn.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 938831e..837968c 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -36,6 +36,19 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
                   size_t* offset) {
   PackedHeader packed;
 
+  // fields are stored without padding
+  constexpr size_t storedSize =
+      sizeof(PackedHeader::sizeVersion) +
+      sizeof(PackedHeader::maxEntTableSize) +
+      sizeof(PackedHeader::maxentOrder) + sizeof(PackedHeader::useNce) +
+      sizeof(PackedHeader::nceLnz) + sizeof(PackedHeader::reversedSentence) +
+      sizeof(PackedHeader::layerType) + sizeof(PackedHeader::layerCount) +
+      sizeof(PackedHeader::hsArity);
+  if (data.size() < storedSize) {
+    return JPPS_INVALID_PARAMETER << "rnn model header was too short: "
+                                  << data.size() << " bytes";
+  }
+
   std::memset(&packed, 0, sizeof(PackedHeader));
   size_t off = 0;
   off = toMember(&PackedHeader::sizeVersion, &packed, data.data(), off);
@@ -60,7 +73,8 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
            << "model was trained without nce, we support only nce models";
   }
 
-  auto piece = StringPiece::fromCString(packed.layerType);
+  size_t typeLength = strnlen(packed.layerType, LayerNameMaxSize);
+  StringPiece piece{packed.layerType, typeLength};
   if (piece != "sigmoid") {
     return JPPS_INVALID_PARAMETER
            << "only sigmoid activation is supported, model had " << piece;
-- 
2.43.0


From 3588dd42d943a5fa4c19c6027f9553b88b26211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:43 +0000
Subject: [PATCH 092/103] fix: RNNs with unsupported maxent parameters caused
 out of bounds accesses

---
 src/rnn/mikolov_rnn.cc     | 13 +++++++++++++
 src/rnn/mikolov_rnn.h      |  1 +
 src/rnn/mikolov_rnn_impl.h |  4 ++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 837968c..bac9f28 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -105,6 +105,19 @@ Status MikolovRnn::init(const MikolovRnnModelHeader& header,
     return Status::InvalidState() << "maxent weights must be 64-aligned";
   }
 
+  if (header.maxentOrder < 1 || header.maxentOrder > MaxMaxentOrder) {
+    return JPPS_INVALID_PARAMETER
+           << "maxent order should be in range [1, " << MaxMaxentOrder
+           << "], was " << header.maxentOrder;
+  }
+
+  if (header.maxentSize <= header.vocabSize) {
+    return JPPS_INVALID_PARAMETER
+           << "maxent weight table size (" << header.maxentSize
+           << ") should be larger than vocabulary size (" << header.vocabSize
+           << ")";
+  }
+
   this->weights = weights;
   this->maxentWeights = maxentW;
   this->header = header;
diff --git a/src/rnn/mikolov_rnn.h b/src/rnn/mikolov_rnn.h
index 94be0b7..0ca4580 100644
--- a/src/rnn/mikolov_rnn.h
+++ b/src/rnn/mikolov_rnn.h
@@ -26,6 +26,7 @@ const uint64_t PRIMES_SIZE = sizeof(PRIMES) / sizeof(PRIMES[0]);
 
 constexpr static size_t LayerNameMaxSize = 64;
 constexpr static u64 VersionStepSize = 10000;
+constexpr static u32 MaxMaxentOrder = 4;
 
 struct MikolovRnnModelHeader {
   u32 layerSize;
diff --git a/src/rnn/mikolov_rnn_impl.h b/src/rnn/mikolov_rnn_impl.h
index aadeb44..5bd89ac 100644
--- a/src/rnn/mikolov_rnn_impl.h
+++ b/src/rnn/mikolov_rnn_impl.h
@@ -121,8 +121,8 @@ class MikolovIndexCalculator {
   void addScores(util::ArraySlice<i32> context, util::ArraySlice<i32> words,
                  util::ArraySlice<float> weights,
                  util::MutableArraySlice<float> scores) {
-    std::array<u64, 4> hashedIndex{{0}};
-    JPP_DCHECK_IN(context.size(), 0, 4);
+    std::array<u64, MaxMaxentOrder> hashedIndex{{0}};
+    JPP_DCHECK_IN(context.size(), 0, MaxMaxentOrder);
     util::MutableArraySlice<u64> slice{hashedIndex.data(), context.size() + 1};
     calcIndices(context, slice);
     MikolovScoreCalculator msc{slice, weights, hashMax};
-- 
2.43.0


From ada2402c54ede784797085895afeaaefb56a83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:43 +0000
Subject: [PATCH 093/103] fix: sizes of RNN files were not checked before
 memory was allocated

---
 src/rnn/mikolov_rnn.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index bac9f28..9fa5231 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -204,6 +204,14 @@ Status MikolovModelReader::parse() {
   hdr.vocabSize = wdata.size();
   auto maxBlock = std::max<u64>({hdr.layerSize * hdr.vocabSize, hdr.maxentSize,
                                  hdr.layerSize * hdr.layerSize});
+  if (hdr.layerSize == 0 ||
+      maxBlock > (contents.size() - start) / sizeof(float)) {
+    return JPPS_INVALID_PARAMETER
+           << "rnn model file is damaged or does not match its dictionary: "
+           << "layer size=" << hdr.layerSize << ", vocabulary size="
+           << hdr.vocabSize << ", maxent size=" << hdr.maxentSize
+           << ", file size=" << contents.size();
+  }
   // 3 comes from rounding to next value + sizeof(float)
   auto pageSize = static_cast<size_t>(1)
                   << (static_cast<u32>(std::log2(maxBlock)) + 3);
-- 
2.43.0


From 2cd34a98090e6b44ff4329ed03ead640f76077d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 094/103] fix: RNNs over fields which are not stored with words
 read other memory

---
 src/core/analysis/rnn_id_resolver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 928297e..3d1e5cb 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -46,6 +46,11 @@ struct RnnIdResolverBuilder {
                << "can use only string-typed field in RNN, " << name << " was "
                << fld->columnType;
       }
+      if (fld->idxInEntry < 0) {
+        return JPPS_INVALID_PARAMETER
+               << "can not use field " << name
+               << " in RNN, it is not used in features";
+      }
       fieldNums->push_back(static_cast<u32>(fld->idxInEntry));
       dic::impl::StringStorageTraversal sst{fld->strings};
       fld2pos.emplace_back();
-- 
2.43.0


From 34d82f8021e7ce4e87e9d9f937ec0ff0bf2cacf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:10 +0000
Subject: [PATCH 095/103] fix: scores in lattice output depended on memory
 addresses

---
 src/core/analysis/lattice_config.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/analysis/lattice_config.h b/src/core/analysis/lattice_config.h
index 0fd443e..bdf49b5 100644
--- a/src/core/analysis/lattice_config.h
+++ b/src/core/analysis/lattice_config.h
@@ -118,7 +118,6 @@ struct hash<jumanpp::core::analysis::ConnectionPtr> {
     result += static_cast<u64>(ptr.left) * 0x1251'2512'5191'fa99ULL;
     result += static_cast<u64>(ptr.right) * 0x7612'51fa'6122'9887ULL;
     result += static_cast<u64>(ptr.beam) * 0x9212'2321'af22'246fULL;
-    result += reinterpret_cast<u64>(ptr.previous) * 0x4512'1221'5555'4121ULL;
     u8 shift = static_cast<u8>(result >> 59);
     return static_cast<size_t>(result ^ (result >> shift));
   }
-- 
2.43.0


From d37b994dc20d4a3d7fbbf531eb60857a4c58ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:17 +0000
Subject: [PATCH 096/103] fix: bootstrap ignored errors of its command line

---
 src/jumandic/main/bootstrap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jumandic/main/bootstrap.cc b/src/jumandic/main/bootstrap.cc
index 007d333..d9a52e0 100644
--- a/src/jumandic/main/bootstrap.cc
+++ b/src/jumandic/main/bootstrap.cc
@@ -88,7 +88,7 @@ Status parseArgs(BootstrapArgs* bargs, int argc, const char* argv[]) {
     std::cout << parser;
     exit(1);
   } catch (args::ParseError& e) {
-    Status::InvalidParameter() << e.what() << "\n" << parser;
+    return Status::InvalidParameter() << e.what() << "\n" << parser;
   } catch (...) {
     return Status::InvalidParameter();
   }
-- 
2.43.0


From be5f85ac98083f66c5f198833dd2632b328c4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:17 +0000
Subject: [PATCH 097/103] fix: training succeeded if the model could not be
 saved

---
 src/jumandic/main/jumanpp_train.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index e862032..02b86a4 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -216,6 +216,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
-- 
2.43.0


From f9f049062796e2aa8fe1d9278eca952e79d9fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:17 +0000
Subject: [PATCH 098/103] fix: training went on without a partially annotated
 corpus that could not be read

---
 src/jumandic/main/jumanpp_train.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index 02b86a4..1c8ab94 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -246,6 +246,7 @@ int doTrainJpp(t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
-- 
2.43.0


From 258c9c8f460e55a8002ad25ed754d8d475c6c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:17 +0000
Subject: [PATCH 099/103] fix: training without threads waited forever, and
 with empty batches it trained nothing

---
 src/core/training/training_env.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/training/training_env.cc b/src/core/training/training_env.cc
index 17e0024..6e69ed6 100644
--- a/src/core/training/training_env.cc
+++ b/src/core/training/training_env.cc
@@ -147,6 +147,12 @@ Status TrainingEnv::initFeatures(
 }
 
 Status TrainingEnv::initOther() {
+  if (args_.numThreads == 0 || args_.batchSize == 0) {
+    return JPPS_INVALID_PARAMETER
+           << "training needs at least one thread and one example in a batch, "
+              "got threads="
+           << args_.numThreads << " batch=" << args_.batchSize;
+  }
   auto pHolder = env_->coreHolder();
   if (pHolder == nullptr) {
     return Status::InvalidState() << "core holder was not constructed yet";
-- 
2.43.0


From 612a6e3ca77b4be7e74db8fa17342296ce089a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:36 +0000
Subject: [PATCH 100/103] fix: a malformed line silently cut the rest of the
 training corpus off

---
 src/core/training/full_example.cc | 13 +++++++++++--
 src/core/training/full_example.h  |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 6890b1c..0e79875 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -76,13 +76,13 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
   finished_ = true;
-  return Status::Ok();
+  return checkAllRead();
 }
 
 Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
   finished_ = !csv_.nextLine();
   if (finished_) {
-    return Status::Ok();
+    return checkAllRead();
   }
 
   auto numwords = csv_.numFields();
@@ -114,6 +114,15 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
   return Status::Ok();
 }
 
+Status FullExampleReader::checkAllRead() const {
+  // csv reader stops on the first malformed line
+  if (csv_.bytePosition() != csv_.byteSize()) {
+    return JPPS_INVALID_PARAMETER << "malformed line #" << csv_.lineNumber()
+                                  << " in " << filename_;
+  }
+  return Status::Ok();
+}
+
 Status FullExampleReader::readSingleExampleFragment(
     const util::CsvReader &csv, FullyAnnotatedExample *result) {
   codepts_.clear();
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index 58e6df3..0a0e5b7 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -110,6 +110,7 @@ class FullExampleReader {
   Status initCsv(StringPiece data);
   bool finished() const { return finished_; }
   Status readFullExampleDblCsv(FullyAnnotatedExample* result);
+  Status checkAllRead() const;
   Status readFullExampleCsv(FullyAnnotatedExample* result);
   Status readFullExample(FullyAnnotatedExample* result);
 
-- 
2.43.0


From e4145a60b4bf94f5d9fa188ec3d35fd829d0a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:36 +0000
Subject: [PATCH 101/103] fix: the surface of a too short row of a training
 corpus was read before its size was checked

---
 src/core/training/full_example.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 0e79875..91dea1f 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -126,11 +126,6 @@ Status FullExampleReader::checkAllRead() const {
 Status FullExampleReader::readSingleExampleFragment(
     const util::CsvReader &csv, FullyAnnotatedExample *result) {
   codepts_.clear();
-  auto surfFld = csv.field(tio_->surfaceFieldIdx());
-
-  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
-  result->lengths_.push_back(codepts_.size());
-
   auto fields = tio_->fields();
 
   if (csv.numFields() < fields.size()) {
@@ -138,6 +133,10 @@ Status FullExampleReader::readSingleExampleFragment(
            << "a word from the line #" << csv_.lineNumber() << " had "
            << csv.numFields() << " fields, expected " << fields.size();
   }
+
+  auto surfFld = csv.field(tio_->surfaceFieldIdx());
+  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
+  result->lengths_.push_back(codepts_.size());
   result->byteLengths_.push_back(surfFld.size());
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
-- 
2.43.0


From 74b85bb1ebf2e25d8d12aec8c226db3acbec75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:40 +0000
Subject: [PATCH 102/103] fix: the last example of a training file was dropped
 if it had no end marker

---
 src/core/training/full_example.cc | 6 ++++--
 src/core/training/trainer.cc      | 3 ---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 91dea1f..7f35312 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -75,8 +75,10 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
 
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
-  finished_ = true;
-  return checkAllRead();
+  JPP_RETURN_IF_ERROR(checkAllRead());
+  // the last example may have no end marker
+  finished_ = result->lengths_.empty();
+  return Status::Ok();
 }
 
 Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
diff --git a/src/core/training/trainer.cc b/src/core/training/trainer.cc
index bedbe5a..c4b2e7d 100644
--- a/src/core/training/trainer.cc
+++ b/src/core/training/trainer.cc
@@ -144,9 +144,6 @@ Status TrainerBatch::readPartialExamples(input::PartialExampleReader *reader) {
     auto &partialTrainer = trainer->trainer_.value();
     JPP_RETURN_IF_ERROR(reader->readExample(&partialTrainer.example(), &eof));
     trainer->reset();
-    if (eof) {
-      break;
-    }
     JPP_DCHECK(scorerDef_);
     if (!partialTrainer.example().surface().empty()) {
       partialTrainerts_.emplace_back(trainer.release());
-- 
2.43.0


From 3541520ba1bffd4cc8a61db38f1d529792c25720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:40 +0000
Subject: [PATCH 103/103] fix: a malformed line silently cut the rest of a
 partially annotated corpus off

---
 src/core/input/partial_example_io.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 6611340..4cc151d 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -130,6 +130,11 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     result->nodes_.push_back(std::move(nc));
   }
+  // csv reader stops on the first malformed line
+  if (csv_.bytePosition() != csv_.byteSize()) {
+    return JPPS_INVALID_PARAMETER << "in file: " << filename_
+                                  << " malformed line #" << csv_.lineNumber();
+  }
   *eof = true;
   return Status::Ok();
 }
-- 
2.43.0

