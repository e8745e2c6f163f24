From 53fa45856f98e0c81766c05c733ca05d371b41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:55 +0000
Subject: [PATCH 01/11] fix: keep OffsetInputStream inside its window for
 64-bit positions and refused seeks

The boundary check took a 32-bit position, so windows larger than 2 GiB were
checked against a truncated value. A refused seek also left the stream at the
refused position.
---
 src/paimon/common/io/offset_input_stream.cpp | 8 ++++----
 src/paimon/common/io/offset_input_stream.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 1382e6a..d266778 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -58,18 +58,18 @@ OffsetInputStream::OffsetInputStream(const std::shared_ptr<InputStream>& wrapped
 Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
+            PAIMON_RETURN_NOT_OK(AssertBoundary(offset));
             inner_position_ = offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
             return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
         }
         case SeekOrigin::FS_SEEK_CUR: {
+            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_ + offset));
             inner_position_ += offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
             return wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR);
         }
         case SeekOrigin::FS_SEEK_END: {
+            PAIMON_RETURN_NOT_OK(AssertBoundary(length_ + offset));
             inner_position_ = length_ + offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
             return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
         }
         default:
@@ -122,7 +122,7 @@ Result<uint64_t> OffsetInputStream::Length() const {
     return length_;
 }
 
-Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
+Status OffsetInputStream::AssertBoundary(int64_t inner_pos) const {
     if (inner_pos < 0 || inner_pos > length_) {
         return Status::Invalid(
             fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
diff --git a/src/paimon/common/io/offset_input_stream.h b/src/paimon/common/io/offset_input_stream.h
index 6316eec..fa42899 100644
--- a/src/paimon/common/io/offset_input_stream.h
+++ b/src/paimon/common/io/offset_input_stream.h
@@ -53,7 +53,7 @@ class PAIMON_EXPORT OffsetInputStream : public InputStream {
 
  private:
     OffsetInputStream(const std::shared_ptr<InputStream>& wrapped, int64_t length, int64_t offset);
-    Status AssertBoundary(int32_t inner_pos) const;
+    Status AssertBoundary(int64_t inner_pos) const;
 
  private:
     std::shared_ptr<InputStream> wrapped_;
-- 
2.43.0


From 49e991b3cec9cf74c4fd9c6cab60b0db38323b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:55 +0000
Subject: [PATCH 02/11] fix: keep ByteArrayInputStream inside its buffer after
 refused calls

A refused seek moved the position outside the buffer, so the next read copied
from there. A positioned read with a huge offset passed the check because the
sum wrapped around.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index b98ab24..c5658fd 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -33,28 +33,30 @@ const char* ByteArrayInputStream::GetRawData() const {
 }
 
 Status ByteArrayInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t position = position_;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            position_ = offset;
+            position = offset;
             break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            position_ += offset;
+            position += offset;
             break;
         }
         case SeekOrigin::FS_SEEK_END: {
             PAIMON_ASSIGN_OR_RAISE(uint64_t length, Length());
-            position_ = static_cast<int64_t>(length) + offset;
+            position = static_cast<int64_t>(length) + offset;
             break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
-    if (position_ < 0 || position_ > static_cast<int64_t>(length_)) {
+    if (position < 0 || position > static_cast<int64_t>(length_)) {
         return Status::Invalid(
-            fmt::format("invalid seek, after seek, current pos {}, length {}", position_, length_));
+            fmt::format("invalid seek, after seek, current pos {}, length {}", position, length_));
     }
+    position_ = position;
     return Status::OK();
 }
 
@@ -71,7 +73,7 @@ Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size) {
 }
 
 Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    if (offset + static_cast<uint64_t>(size) > length_) {
+    if (offset > length_ || static_cast<uint64_t>(size) > length_ - offset) {
         return Status::Invalid(
             fmt::format("ByteArrayInputStream assert boundary failed: need length {}, read offset "
                         "{}, exceed length {}",
-- 
2.43.0


From 3f0f74c41a23108da80e1fb8021969fea6a73ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:32 +0000
Subject: [PATCH 03/11] fix: row ranges ending at the largest row id

Merging adjacent ranges and excluding ranges added one to the end of a
range. For a range that ends at the largest 64-bit row id the sum
overflowed, so a merge lost the overlap and an exclusion returned rows
that were excluded.
---
 src/paimon/common/utils/range.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/range.cpp b/src/paimon/common/utils/range.cpp
index 42d360a..bc653a5 100644
--- a/src/paimon/common/utils/range.cpp
+++ b/src/paimon/common/utils/range.cpp
@@ -43,7 +43,7 @@ std::vector<Range> Range::SortAndMergeOverlap(const std::vector<Range>& ranges,
     for (size_t i = 1; i < sorted_ranges.size(); ++i) {
         Range next = sorted_ranges[i];
         // Check if current and next overlap (not just adjacent)
-        if (current.to + (adjacent ? 1 : 0) >= next.from) {
+        if (current.to >= next.from || (adjacent && current.to + 1 == next.from)) {
             // Merge: extend current range
             current = Range(current.from, std::max(current.to, next.to));
         } else {
@@ -124,11 +124,12 @@ std::vector<Range> Range::Exclude(const std::vector<Range>& ranges) const {
         if (current < intersect.value().from) {
             result.emplace_back(current, intersect.value().from - 1);
         }
+        // Nothing is left behind the intersection (its end may be the largest row id)
+        if (intersect.value().to >= to) {
+            return result;
+        }
         // Move current position past the intersection
         current = intersect.value().to + 1;
-        if (current > to) {
-            break;
-        }
     }
     // Add the remaining part after all exclusions (if any)
     if (current <= to) {
-- 
2.43.0


From 83a7ea5811e7799404a5ced4cb75287506262bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:23 +0000
Subject: [PATCH 04/11] fix: refuse blob descriptors whose uri length is
 negative or exceeds the input

---
 src/paimon/common/data/blob_descriptor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/data/blob_descriptor.cpp b/src/paimon/common/data/blob_descriptor.cpp
index d0189cd..4d2225b 100644
--- a/src/paimon/common/data/blob_descriptor.cpp
+++ b/src/paimon/common/data/blob_descriptor.cpp
@@ -65,6 +65,10 @@ Result<std::unique_ptr<BlobDescriptor>> BlobDescriptor::Deserialize(const char*
             "Expecting BlobDescriptor version to be {}, but found {}.", CURRENT_VERSION, version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t uri_length, in.ReadValue<int32_t>());
+    if (uri_length < 0 || static_cast<uint64_t>(uri_length) > size) {
+        return Status::Invalid(
+            fmt::format("Invalid BlobDescriptor uri length {}, input size is {}.", uri_length, size));
+    }
     std::string uri(uri_length, '\0');
     PAIMON_RETURN_NOT_OK(in.Read(uri.data(), uri.size()));
     PAIMON_ASSIGN_OR_RAISE(int64_t offset, in.ReadValue<int64_t>());
-- 
2.43.0


From 11b01cd2bcb50d70dbace8a963b1431e08b85c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:08 +0000
Subject: [PATCH 05/11] fix: do not index past the segments for an empty string
 at their end

---
 src/paimon/common/data/binary_string.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/paimon/common/data/binary_string.h b/src/paimon/common/data/binary_string.h
index 2a9be80..c17a97e 100644
--- a/src/paimon/common/data/binary_string.h
+++ b/src/paimon/common/data/binary_string.h
@@ -149,8 +149,9 @@ class PAIMON_EXPORT BinaryString : public BinarySection {
                          int32_t offset)
             : seg_index_(seg_index),
               offset_(offset),
-              segments_(segments),
-              segment_(segments[seg_index]) {}
+              segments_(segments) {
+            AssignSegment();
+        }
 
         void NextByte(int32_t seg_size) {
             offset_++;
-- 
2.43.0


From 09a92e1667b3df97759f53454a8c1e05c3dfaade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:58 +0000
Subject: [PATCH 06/11] fix: refuse deletion file lists whose count is negative
 or exceeds the input

---
 src/paimon/core/table/source/deletion_file.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/core/table/source/deletion_file.h b/src/paimon/core/table/source/deletion_file.h
index f15d9ab..8d2ed0b 100644
--- a/src/paimon/core/table/source/deletion_file.h
+++ b/src/paimon/core/table/source/deletion_file.h
@@ -95,6 +95,12 @@ struct DeletionFile {
         PAIMON_ASSIGN_OR_RAISE(char has_deletion_file, in->ReadValue<char>());
         if (has_deletion_file == static_cast<char>(1)) {
             PAIMON_ASSIGN_OR_RAISE(int32_t size, in->ReadValue<int32_t>());
+            PAIMON_ASSIGN_OR_RAISE(int64_t pos, in->GetPos());
+            PAIMON_ASSIGN_OR_RAISE(uint64_t length, in->Length());
+            // every entry takes at least one byte
+            if (size < 0 || size > static_cast<int64_t>(length) - pos) {
+                return Status::Invalid(fmt::format("Invalid deletion file count: {}", size));
+            }
             files.reserve(size);
             for (int32_t i = 0; i < size; i++) {
                 std::optional<DeletionFile> file;
-- 
2.43.0


From abde0298b3862a55ababdd5d955117240ffc4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:39 +0000
Subject: [PATCH 07/11] fix: subtract a 32-bit bitmap from itself

The in-place difference of the bitmap library requires two distinct
bitmaps and aborts otherwise. The result is the empty bitmap.
---
 src/paimon/common/utils/roaring_bitmap32.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/utils/roaring_bitmap32.cpp b/src/paimon/common/utils/roaring_bitmap32.cpp
index 4f5b2ad..0af9fbd 100644
--- a/src/paimon/common/utils/roaring_bitmap32.cpp
+++ b/src/paimon/common/utils/roaring_bitmap32.cpp
@@ -146,6 +146,11 @@ RoaringBitmap32& RoaringBitmap32::operator&=(const RoaringBitmap32& other) {
     return *this;
 }
 RoaringBitmap32& RoaringBitmap32::operator-=(const RoaringBitmap32& other) {
+    if (&other == this) {
+        // the underlying in-place difference requires two distinct bitmaps
+        GetRoaringBitmap(roaring_bitmap_) = roaring::Roaring();
+        return *this;
+    }
     GetRoaringBitmap(roaring_bitmap_) -= GetRoaringBitmap(other.roaring_bitmap_);
     return *this;
 }
-- 
2.43.0


From 1831b4f0c4678d4ef4446e20d094645b66059e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:39 +0000
Subject: [PATCH 08/11] fix: answer an empty value list in file index readers

IN and NOT IN with no value returned a null result. No row is in an empty
list and every row is outside of it.
---
 src/paimon/common/file_index/file_index_reader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/paimon/common/file_index/file_index_reader.cpp b/src/paimon/common/file_index/file_index_reader.cpp
index 7fd1814..d606c2e 100644
--- a/src/paimon/common/file_index/file_index_reader.cpp
+++ b/src/paimon/common/file_index/file_index_reader.cpp
@@ -77,6 +77,10 @@ Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitIn(
             PAIMON_ASSIGN_OR_RAISE(file_index_result, file_index_result->Or(inner_result));
         }
     }
+    if (!file_index_result) {
+        // no row is in an empty list
+        return FileIndexResult::Skip();
+    }
     return file_index_result;
 }
 
@@ -92,6 +96,10 @@ Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitNotIn(
             PAIMON_ASSIGN_OR_RAISE(file_index_result, file_index_result->And(inner_result));
         }
     }
+    if (!file_index_result) {
+        // every row is outside an empty list
+        return FileIndexResult::Remain();
+    }
     return file_index_result;
 }
 }  // namespace paimon
-- 
2.43.0


From 43015ae208553e7b65f2bda4a074ca90e3377c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:39 +0000
Subject: [PATCH 09/11] fix: refuse a negative bitmap length in a serialized
 global index result

A negative length was passed on as an allocation size.
---
 src/paimon/common/global_index/global_index_result.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/global_index/global_index_result.cpp b/src/paimon/common/global_index/global_index_result.cpp
index 061dc6f..ea857e2 100644
--- a/src/paimon/common/global_index/global_index_result.cpp
+++ b/src/paimon/common/global_index/global_index_result.cpp
@@ -113,6 +113,10 @@ Result<std::shared_ptr<GlobalIndexResult>> GlobalIndexResult::Deserialize(
         return Status::Invalid(fmt::format("invalid version {} for GlobalIndexResult", version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t bitmap_bytes_len, in.ReadValue<int32_t>());
+    if (bitmap_bytes_len < 0) {
+        return Status::Invalid(
+            fmt::format("invalid bitmap length {} for GlobalIndexResult", bitmap_bytes_len));
+    }
     auto bitmap_bytes = Bytes::AllocateBytes(bitmap_bytes_len, pool.get());
     PAIMON_RETURN_NOT_OK(in.ReadBytes(bitmap_bytes.get()));
     RoaringBitmap64 bitmap;
-- 
2.43.0


From 70456041afee54daa68a062e21d8d3b719445756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:03 +0000
Subject: [PATCH 10/11] fix: refuse a bit-slice index whose slice number is out
 of range

A negative slice number in a stored index threw std::length_error from
vector::reserve. Report it as an invalid index instead.
---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 468ffb3..9db934e 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -59,6 +59,10 @@ Result<std::shared_ptr<BitSliceIndexRoaringBitmap>> BitSliceIndexRoaringBitmap::
 
     // deserialize slices
     PAIMON_ASSIGN_OR_RAISE(int32_t slice_num, data_input_stream.ReadValue<int32_t>());
+    if (slice_num < 0 || slice_num > 64) {
+        return Status::Invalid(
+            fmt::format("deserialize bsi index fail, invalid slice number {}", slice_num));
+    }
     std::vector<RoaringBitmap32> slices;
     slices.reserve(slice_num);
     for (int32_t i = 0; i < slice_num; i++) {
-- 
2.43.0


From 31d2090fc21fa3a6131b78f25351878ec364be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:03 +0000
Subject: [PATCH 11/11] fix: refuse values below the minimum of a bit-slice
 index

Appending such a value stored a negative difference whose upper bits were
cut off, so later comparisons returned wrong rows.
---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 9db934e..ffe9ca0 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -260,6 +260,10 @@ Status BitSliceIndexRoaringBitmap::Appender::Append(int32_t rid, int64_t value)
         return Status::Invalid(
             fmt::format("value {} is too large for append to BitSliceIndexRoaringBitmap", value));
     }
+    if (value < bsi_->min_) {
+        return Status::Invalid(
+            fmt::format("value {} is too small for append to BitSliceIndexRoaringBitmap", value));
+    }
     if (bsi_->ebm_.Contains(rid)) {
         return Status::Invalid(
             fmt::format("rid {} is already exists for append to BitSliceIndexRoaringBitmap", rid));
-- 
2.43.0

