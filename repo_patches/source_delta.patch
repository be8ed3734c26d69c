From 0790256231e91eb21853775f141b550001d622ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 01/58] fix: decode integer deltas equal to INT64_MIN

The varint encoder wraps such a delta to the reserved byte 0, which the decoder rejected.
---
 cloudini_lib/include/cloudini_lib/encoding_utils.hpp | 10 ++++++++++
 cloudini_lib/include/cloudini_lib/field_decoder.hpp  |  2 +-
 cloudini_lib/src/v5_codec.cpp                        |  4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 0eb976c..6f5dd52 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -147,4 +147,14 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
   return count;
 }
 
+// Decode the delta between two consecutive values of an integer field. encodeVarint64() wraps a delta equal to INT64_MIN
+// to the single byte 0. Integer fields have no NaN marker and only 8-byte values can produce that delta.
+inline size_t decodeIntDelta(const uint8_t* buf, size_t max_size, size_t bytes_per_value, int64_t& val) {
+  if (bytes_per_value == sizeof(int64_t) && max_size > 0 && buf[0] == 0) {
+    val = std::numeric_limits<int64_t>::min();
+    return 1;
+  }
+  return decodeVarint(buf, max_size, val);
+}
+
 }  // namespace Cloudini
diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index c690275..efc9cf1 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -86,7 +86,7 @@ class FieldDecoderInt : public FieldDecoder {
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
     int64_t diff = 0;
-    auto count = decodeVarint(input.data(), input.size(), diff);
+    auto count = decodeIntDelta(input.data(), input.size(), sizeof(IntType), diff);
 
     int64_t value = prev_value_ + diff;
     prev_value_ = value;
diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9f41f3a..2b3b61a 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -780,7 +780,7 @@ void decodeV5AdaptiveIntSection(
       int64_t prev = 0;
       for (size_t i = 0; i < expected_points; ++i) {
         int64_t diff = 0;
-        const auto consumed = decodeVarint(input.data(), input.size(), diff);
+        const auto consumed = decodeIntDelta(input.data(), input.size(), field.bytes_per_value, diff);
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
@@ -853,7 +853,7 @@ void decodeV5AdaptiveIntSection(
       size_t out_index = 0;
       for (uint32_t r = 0; r < run_count; ++r) {
         int64_t diff = 0;
-        const auto consumed = decodeVarint(input.data(), input.size(), diff);
+        const auto consumed = decodeIntDelta(input.data(), input.size(), field.bytes_per_value, diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
         if (out_index + run_len > expected_points) {
-- 
2.43.0


From 03f41498fea6b5a90c305b4302b3c21ca5d51659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 02/58] fix: a float that cannot be quantized must not corrupt
 the following points

Infinite or huge values overflowed the conversion to int64 and could wrap to the NaN marker,
which desynchronized encoder and decoder.
---
 cloudini_lib/include/cloudini_lib/field_encoder.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_encoder.hpp b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
index c4298f7..c558515 100644
--- a/cloudini_lib/include/cloudini_lib/field_encoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
@@ -17,6 +17,7 @@
 #pragma once
 
 #include <array>
+#include <cmath>
 #include <stdexcept>
 
 #include "cloudini_lib/encoding_utils.hpp"
@@ -342,13 +343,15 @@ class FieldEncoderFloatN_Lossy : public FieldEncoder {
 template <typename FloatType>
 inline size_t FieldEncoderFloat_Lossy<FloatType>::encode(const ConstBufferView& point_view, BufferView& output) {
   FloatType value_real = *(reinterpret_cast<const FloatType*>(point_view.data() + offset_));
-  if (std::isnan(value_real)) {
+  const FloatType scaled = std::round(value_real * multiplier_);
+  // NaN, infinite and values too large to be quantized (the delta of two values must fit in 64 bits)
+  if (!(std::abs(scaled) < static_cast<FloatType>(0x1p62))) {
     output.data()[0] = 0;  // value 0 is reserved for NaN
     prev_value_ = 0;
     output.trim_front(1);
     return 1;
   }
-  const int64_t value = static_cast<int64_t>(std::round(value_real * multiplier_));
+  const int64_t value = static_cast<int64_t>(scaled);
   const int64_t delta = value - prev_value_;
   prev_value_ = value;
   auto count = encodeVarint64(delta, output.data());
-- 
2.43.0


From fbd25fe5d237bad4999e506d2757984628f86b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 03/58] fix: MaxCompressedSize did not cover Delta-RLE sections

The adaptive mode is committed on the first points; the following ones can need one more byte
per value than a plain varint, and the encoder rejected clouds that fit the advertised size.
---
 cloudini_lib/src/cloudini.cpp     |  9 +--------
 cloudini_lib/src/codec_common.cpp | 11 +++++++++++
 cloudini_lib/src/codec_common.hpp |  3 +++
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e8301fb..f52c624 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -254,20 +254,13 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
   constexpr size_t chunk_points = detail::kPointsPerChunk;
   const size_t chunks_count = (points_count / chunk_points) + ((points_count % chunk_points) ? 1 : 0);
 
-  const size_t max_serialized_point_size = detail::MaxSerializedPointSize(info);
   size_t total_size = include_header ? (kMagicHeaderLength + 2 + 1 + EncodingInfoToYAML(info).size() + 1) : 0;
 
   size_t points_left = points_count;
   for (size_t chunk_idx = 0; chunk_idx < chunks_count; ++chunk_idx) {
     const size_t points_in_chunk = std::min(points_left, chunk_points);
     points_left -= points_in_chunk;
-    size_t max_chunk_input_size = points_in_chunk * max_serialized_point_size;
-    if (detail::UsesV5Codec(info)) {
-      // V5 adaptive integer sections add mode/header bytes. Adaptive sections
-      // compete using their full encoded size, so any selected mode remains
-      // bounded by the delta-varint section plus this fixed slack.
-      max_chunk_input_size += info.fields.size() * 32u + 1024u;
-    }
+    const size_t max_chunk_input_size = detail::MaxStage1ChunkSize(info, points_in_chunk);
 
     total_size += sizeof(uint32_t);  // chunk size prefix
     switch (info.compression_opt) {
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index f447ac3..eae7563 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -21,6 +21,7 @@
 #include <limits>
 #include <stdexcept>
 
+#include "v5_codec.hpp"
 #include "lz4.h"
 #include "zstd.h"
 
@@ -66,6 +67,16 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
   return max_point_size;
 }
 
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_count) {
+  size_t max_size = points_count * MaxSerializedPointSize(info);
+  if (UsesV5Codec(info)) {
+    // V5 adaptive integer sections add mode/header bytes. The mode is chosen on the first points only, therefore
+    // the worst case is a section of Delta-RLE runs with a single element: one byte more than a plain varint.
+    max_size += points_count * info.fields.size() + info.fields.size() * 32u + 1024u;
+  }
+  return max_size;
+}
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info) {
   if (info.encoding_opt != EncodingOptions::LOSSY) {
     return 0;
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 104feb0..0dc449a 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -30,6 +30,9 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
 
+// Upper bound of the output of the first stage (before the general purpose compression)
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_count);
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info);
 
 size_t AppendLeadingLossyFloatEncoder(
-- 
2.43.0


From 6c8295b9838828a0f1a2d25284d95439971b6ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 04/58] fix: bound of the decompressed size of a chunk

It was computed from the raw size of the whole cloud: too small when the first stage expands the data
(small clouds could not be decoded), and much larger than needed when the header is not trustworthy.
---
 cloudini_lib/src/cloudini.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index f52c624..d5dfbe1 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -662,8 +662,14 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
 
 void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
+  if (info.point_step == 0) {
+    throw std::runtime_error("point_step cannot be 0");
+  }
+  // The first stage may expand the data; on the other hand, never allocate more than what can be stored in the output.
+  const size_t output_points = output_buffer.size() / info.point_step;
+  const size_t max_points = (expected_points > 0) ? std::min(expected_points, output_points) : output_points;
   const size_t max_decompressed_size =
-      static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
+      std::max(max_points * info.point_step, detail::MaxStage1ChunkSize(info, max_points));
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
-- 
2.43.0


From 5fd1d37d3a8688e1b87eadab05249fe594dc0633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 05/58] fix: honor kDecodeButSkipStore when decoding V5
 adaptive integers

The special offset was used as an address, writing out of bounds.
---
 cloudini_lib/src/v5_codec.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 2b3b61a..8ee63a9 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -119,8 +119,10 @@ uint64_t readRawBits(const uint8_t* ptr, size_t bytes) {
   return out;
 }
 
-void writeRawBitsToPoint(uint64_t value, size_t bytes, uint8_t* dst) {
-  std::memcpy(dst, &value, bytes);
+void writeRawBitsToPoint(const V5AdaptiveIntField& field, uint64_t value, uint8_t* point) {
+  if (field.offset != kDecodeButSkipStore) {
+    std::memcpy(point + field.offset, &value, field.bytes_per_value);
+  }
 }
 
 void appendByte(BufferView& out, uint8_t value) {
@@ -784,9 +786,7 @@ void decodeV5AdaptiveIntSection(
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
-        writeRawBitsToPoint(
-            static_cast<uint64_t>(value), field.bytes_per_value,
-            output_base + i * point_step + field.offset);
+        writeRawBitsToPoint(field, static_cast<uint64_t>(value), output_base + i * point_step);
       }
     } break;
 
@@ -817,7 +817,7 @@ void decodeV5AdaptiveIntSection(
         if (idx >= palette.size()) {
           throw std::runtime_error("V5 adaptive int: palette index out of range");
         }
-        writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        writeRawBitsToPoint(field, palette[idx], output_base + i * point_step);
       }
       input.trim_front(index_bytes);
     } break;
@@ -837,7 +837,7 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          writeRawBitsToPoint(field, value, output_base + out_index * point_step);
           ++out_index;
         }
       }
@@ -862,9 +862,7 @@ void decodeV5AdaptiveIntSection(
         for (uint64_t k = 0; k < run_len; ++k) {
           const int64_t value = prev + diff;
           prev = value;
-          writeRawBitsToPoint(
-              static_cast<uint64_t>(value), field.bytes_per_value,
-              output_base + out_index * point_step + field.offset);
+          writeRawBitsToPoint(field, static_cast<uint64_t>(value), output_base + out_index * point_step);
           ++out_index;
         }
       }
-- 
2.43.0


From 876680ffb782c3530800abad1e16ecdc83984485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 06/58] fix: reject fields that do not fit inside a point

Such a header made the decoder write, and the encoder read, out of bounds.
---
 cloudini_lib/src/cloudini.cpp     |  2 ++
 cloudini_lib/src/codec_common.cpp | 11 +++++++++++
 cloudini_lib/src/codec_common.hpp |  3 +++
 3 files changed, 16 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index d5dfbe1..44b109a 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -422,6 +422,7 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 
 PointcloudEncoder::PointcloudEncoder(const EncodingInfo& info) : info_(info) {
   EncodeHeader(info_, header_);
+  detail::CheckFieldsLayout(info_, false);
 
   if (!detail::UsesV5Codec(info_)) {
     detail::BuildV4Encoders(info_, encoders_);
@@ -618,6 +619,7 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
 //------------------------------------------------------------------------------------------
 
 void PointcloudDecoder::updateDecoders(const EncodingInfo& info) {
+  detail::CheckFieldsLayout(info, true);
   if (detail::UsesV5Codec(info)) {
     detail::BuildV5Decoders(info, decoders_, min_encoded_point_bytes_);
   } else {
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index eae7563..42d5ad7 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -77,6 +77,17 @@ size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_count) {
   return max_size;
 }
 
+void CheckFieldsLayout(const EncodingInfo& info, bool allow_skip) {
+  for (const auto& field : info.fields) {
+    if (allow_skip && field.offset == kDecodeButSkipStore) {
+      continue;
+    }
+    if (static_cast<uint64_t>(field.offset) + static_cast<uint64_t>(SizeOf(field.type)) > info.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' does not fit in a point of the declared size");
+    }
+  }
+}
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info) {
   if (info.encoding_opt != EncodingOptions::LOSSY) {
     return 0;
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 0dc449a..fb9ee22 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -33,6 +33,9 @@ size_t MaxSerializedPointSize(const EncodingInfo& info);
 // Upper bound of the output of the first stage (before the general purpose compression)
 size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_count);
 
+// Throws if any field does not fit inside the point. If allow_skip is true, kDecodeButSkipStore is accepted.
+void CheckFieldsLayout(const EncodingInfo& info, bool allow_skip);
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info);
 
 size_t AppendLeadingLossyFloatEncoder(
-- 
2.43.0


From 90030bde2b67f1b762968526693ea2ce0438d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 07/58] fix: check the size of the input in every field decoder

The check of the minimum size of a point is not sufficient, because the other fields
of the same point have variable size (and the V5 codec does not do it at all).
---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index efc9cf1..b41844e 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -60,7 +60,9 @@ class FieldDecoderCopy : public FieldDecoder {
   }
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
-    // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+    if (input.size() < field_size_) {
+      throw std::runtime_error("FieldDecoderCopy: truncated input");
+    }
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, input.data(), field_size_);
     }
@@ -329,7 +331,9 @@ class FieldDecoderFloatN_Lossy : public FieldDecoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point min_encoded_point_bytes_ check
+  if (input.empty()) {
+    throw std::runtime_error("FieldDecoder(Float/Lossy): truncated input");
+  }
   if (input.data()[0] == 0) {
     constexpr auto nan_value = std::numeric_limits<FloatType>::quiet_NaN();
     if (offset_ != kDecodeButSkipStore) {
@@ -354,7 +358,9 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
 template <typename FloatType>
 inline void FieldDecoderFloat_XOR<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+  if (input.size() < sizeof(IntType)) {
+    throw std::runtime_error("FieldDecoderFloat_XOR: truncated input");
+  }
   IntType residual = 0;
   memcpy(&residual, input.data(), sizeof(IntType));
   input.trim_front(sizeof(IntType));
-- 
2.43.0


From a868986df4f4794467b67a45c40fb95ff46871ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 08/58] fix: integer overflow in the bound check of V5 runs

---
 cloudini_lib/src/v5_codec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 8ee63a9..53520ce 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -833,7 +833,7 @@ void decodeV5AdaptiveIntSection(
         const uint64_t value = readRawBits(input.data(), field.bytes_per_value);
         input.trim_front(field.bytes_per_value);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
@@ -856,7 +856,7 @@ void decodeV5AdaptiveIntSection(
         const auto consumed = decodeIntDelta(input.data(), input.size(), field.bytes_per_value, diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-- 
2.43.0


From 8a33ae5ae7cea78a7157404998c90da784b464b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 09/58] fix: reject invalid windows in the Gorilla decoder

They lead to shifts larger than the size of the type.
---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index b41844e..b1a441a 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -273,6 +273,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
       IntType xor_val;
       if (control == 0) {
         // Reuse previous window.
+        if (prev_leading_ == kLeadingSentinel) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: missing window");
+        }
         const uint8_t meaningful = static_cast<uint8_t>(kTypeBits - prev_leading_ - prev_trailing_);
         const uint64_t bits = getBits(meaningful, input);
         xor_val = static_cast<IntType>(bits << prev_trailing_);
@@ -280,6 +283,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
         // New window: read leading(5), meaningful-1(6), meaningful bits.
         const uint8_t stored_leading = static_cast<uint8_t>(getBits(5, input));
         const uint8_t meaningful = static_cast<uint8_t>(getBits(6, input) + 1);
+        if (stored_leading + meaningful > kTypeBits) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: invalid window");
+        }
         const uint64_t bits = getBits(meaningful, input);
         const uint8_t trailing = static_cast<uint8_t>(kTypeBits - stored_leading - meaningful);
         xor_val = static_cast<IntType>(bits << trailing);
-- 
2.43.0


From afc4959d07e09fdbd81e7fb44f3258fb72979016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 10/58] fix: EncodingInfoFromYAML read the version as a
 character

---
 cloudini_lib/src/cloudini.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 44b109a..909de89 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -196,7 +196,8 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
   auto root = YAML::parse(yaml);
 
   // Read top-level fields
-  info.version = root["version"].as<uint8_t>();
+  // not as<uint8_t>(), that would read a single character
+  info.version = static_cast<uint8_t>(root["version"].as<uint32_t>());
   info.width = root["width"].as<uint32_t>();
   info.height = root["height"].as<uint32_t>();
   info.point_step = root["point_step"].as<uint32_t>();
@@ -379,8 +380,7 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
     yaml_str = yaml_str.substr(0, null_pos);
     input.trim_front(null_pos + 1);  // consume header + null terminator
     EncodingInfo yaml_header = EncodingInfoFromYAML(yaml_str);
-    // The magic-header version is authoritative. YAML's parseScalar<uint8_t> reads a
-    // single character (e.g. "3" -> 51), so the YAML-parsed info.version is unreliable.
+    // The magic-header version is authoritative.
     yaml_header.version = version;
     return yaml_header;
   }
-- 
2.43.0


From 0a428665245554e25dfc9ba690f3a4a88450c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 11/58] fix: binary headers with a width of 10 were parsed as
 YAML

In general, any width having newline as first byte.
---
 cloudini_lib/src/cloudini.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 909de89..9f2388a 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -368,9 +368,10 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
   // Note: version 4 adds Gorilla bit-packing for lossless FLOAT32/FLOAT64 XOR residuals.
   // Versions 2 and 3 keep the raw-XOR path (8 bytes per double, 4 bytes per float).
 
-  // YAML payload starts with newline followed by a non-brace; legacy binary
-  // payload starts with the brace of an inline schema.
-  if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{') {
+  // YAML payload starts with newline followed by the key "version:". Looking at the newline only is not
+  // sufficient: in the binary header, it can be the first byte of the width.
+  const std::string_view yaml_prefix("\nversion:");
+  if (input.size() >= yaml_prefix.size() && memcmp(input.data(), yaml_prefix.data(), yaml_prefix.size()) == 0) {
     input.trim_front(1);  // consume newline
     std::string_view yaml_str(reinterpret_cast<const char*>(input.data()), input.size());
     size_t null_pos = yaml_str.find('\0');
-- 
2.43.0


From 9dabc67f33bef9dfeb72e0f94e8f3bf6e0b19df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 12/58] fix: lossless serialization of the resolution in the
 YAML header

Only 6 digits were printed, therefore the decoder used a slightly different resolution.
---
 cloudini_lib/src/cloudini.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 9f2388a..77d7ee6 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <charconv>
 #include <cstring>
 #include <limits>
 #include <sstream>
@@ -181,7 +182,10 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
-      yaml << "    resolution: " << field.resolution.value() << "\n";
+      // shortest representation that is read back as the very same float
+      char res_str[32];
+      const auto res_end = std::to_chars(res_str, res_str + sizeof(res_str), field.resolution.value()).ptr;
+      yaml << "    resolution: " << std::string_view(res_str, res_end - res_str) << "\n";
     } else {
       yaml << "    resolution: null\n";
     }
-- 
2.43.0


From 521b3c55ae2dcdd64f41a2d44dbbcd5c38f3c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 13/58] fix: field names that the YAML header altered

Empty names made the header unreadable; names containing a hash, a newline or blanks at the ends were truncated.
---
 .../include/cloudini_lib/yaml_parser.hpp      | 15 +++++--
 cloudini_lib/src/cloudini.cpp                 | 43 ++++++++++++++++++-
 2 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index 6abbe20..a94f707 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -413,9 +413,18 @@ class Parser {
     }
     str.remove_suffix(str.length() - end);
 
-    // Remove trailing comments
-    size_t comment_pos = str.find('#');
-    if (comment_pos != std::string_view::npos) {
+    // Remove trailing comments. A '#' between double quotes is not a comment
+    size_t comment_pos = 0;
+    bool quoted = false;
+    while (comment_pos < str.length() && (quoted || str[comment_pos] != '#')) {
+      if (str[comment_pos] == '"') {
+        quoted = !quoted;
+      } else if (quoted && str[comment_pos] == '\\') {
+        comment_pos++;  // skip the escaped character
+      }
+      comment_pos++;
+    }
+    if (comment_pos < str.length()) {
       str = str.substr(0, comment_pos);
 
       // Trim trailing whitespace after removing comment
diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 77d7ee6..30716b6 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cctype>
 #include <charconv>
 #include <cstring>
 #include <limits>
@@ -44,6 +45,44 @@ void ensureScratchBuffer(std::unique_ptr<uint8_t[]>& buffer, size_t& capacity, s
   capacity = required_capacity;
 }
 
+// Names are written as they are, unless the YAML parser would alter them: in that case they are double quoted.
+std::string quoteName(const std::string& name) {
+  auto is_space = [](char c) { return std::isspace(static_cast<unsigned char>(c)) != 0; };
+  const bool is_plain = !name.empty() && !is_space(name.front()) && !is_space(name.back()) && name.front() != '"' &&
+                        name.find_first_of(std::string_view("#\n\0", 3)) == std::string::npos;
+  if (is_plain) {
+    return name;
+  }
+  std::string quoted = "\"";
+  for (char c : name) {
+    if (c == '\n' || c == '\0') {
+      quoted += (c == '\n') ? "\\n" : "\\0";
+      continue;
+    }
+    if (c == '"' || c == '\\') {
+      quoted += '\\';
+    }
+    quoted += c;
+  }
+  return quoted + '"';
+}
+
+std::string unquoteName(const std::string& str) {
+  if (str.size() < 2 || str.front() != '"' || str.back() != '"') {
+    return str;
+  }
+  std::string name;
+  for (size_t i = 1; i + 1 < str.size(); ++i) {
+    char c = str[i];
+    if (c == '\\' && i + 2 < str.size()) {
+      c = str[++i];
+      c = (c == 'n') ? '\n' : (c == '0') ? '\0' : c;
+    }
+    name += c;
+  }
+  return name;
+}
+
 }  // namespace
 
 const char* ToString(const FieldType& type) {
@@ -178,7 +217,7 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
   yaml << "fields:\n";
 
   for (const auto& field : info.fields) {
-    yaml << "  - name: " << field.name << "\n";
+    yaml << "  - name: " << quoteName(field.name) << "\n";
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
@@ -219,7 +258,7 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
     for (size_t i = 0; i < fields_node.size(); ++i) {
       const auto& field_node = fields_node[i];
       PointField field;
-      field.name = field_node["name"].as<std::string>();
+      field.name = unquoteName(field_node["name"].as<std::string>());
       field.offset = field_node["offset"].as<uint32_t>();
       field.type = FieldTypeFromString(field_node["type"].as<std::string_view>());
 
-- 
2.43.0


From 8de7d79de410b8c9d0d710f80eec633ac7f8afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 14/58] fix: nanocdr read the encapsulation header without
 checking the size of the buffer

---
 cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index e73b72a..9f9cd93 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -250,6 +250,9 @@ inline void swapEndianness(T& val) {
 }
 
 inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(buffer.data() + 4) {
+  if (buffer_.size() < 4) {
+    throw std::runtime_error("Invalid CDR header: not enough data");
+  }
   const auto* ptr = buffer_.data();
   uint8_t dummy = ptr[0];
   if (dummy != 0) {
-- 
2.43.0


From f3e3eaf9298a1ab2c63fb768937178d113d19557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 15/58] fix: size of the compressed data in big endian CDR
 messages

It was always written in the native byte order.
---
 cloudini_lib/src/ros_msg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 2978571..04f8769 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -202,7 +202,11 @@ void convertPointCloud2ToCompressedCloud(
   const size_t compressed_size = cloud_encoder.encode(pc_info.data, compressed_data_view, true);
 
   // we can finally write the actual size of the compressed data
-  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size, sizeof(uint32_t));
+  uint32_t compressed_size_u32 = static_cast<uint32_t>(compressed_size);
+  if (cdr_encoder.header().endianness != nanocdr::getCurrentEndianness()) {
+    nanocdr::swapEndianness(compressed_size_u32);
+  }
+  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size_u32, sizeof(uint32_t));
 
   // Resize the output buffer to the actual size used
   compressed_dds_msg.resize(prev_size + compressed_size);
-- 
2.43.0


From f27b7dc1349df909cd2159cbb4ae419d793dbf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 16/58] fix: cldn_DecodeCompressedMessage let exceptions escape

A malformed DDS message must return 0 as any other error.
---
 cloudini_lib/src/wasm_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 78079b3..a595a37 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -123,9 +123,9 @@ uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encode
   const uint8_t* dds_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
 
   Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
-  const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
 
   try {
+    const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From 4df93e8537a4ae8ac21ea8eb46c53105d1f36d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 17/58] fix: cldn_DecodeCompressedMessage could overflow the
 output buffer

The buffer is allocated from the dimensions in the message, but those in the Cloudini header were used to write it.
---
 cloudini_lib/src/wasm_functions.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index a595a37..d4350fc 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -126,6 +126,14 @@ uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encode
 
   try {
     const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
+    // the output was allocated using cldn_GetDecompressedSize, i.e. according to the dimensions in the DDS message
+    auto header_view = pcl_msg.data;
+    const auto info = Cloudini::DecodeHeader(header_view);
+    if (info.width * info.height * info.point_step > pcl_msg.width * pcl_msg.height * pcl_msg.point_step) {
+      EM_ASM({ console.error('Decoded data larger than the size declared in the message.'); });
+      return 0;
+    }
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From 761153a6613f56d30ccb3d64faa45283f4d5dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 18/58] fix: PointcloudDecode used the point_step of the source
 cloud

The stride of the destination is sizeof(PointT).
---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index d46e2fd..3aa4349 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -155,6 +155,9 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
     }
   }
 
+  // points are written into an array of PointT
+  header_info.point_step = sizeof(PointT);
+
   // decode the data
   BufferView output_view(reinterpret_cast<uint8_t*>(cloud.points.data()), cloud.points.size() * sizeof(PointT));
   PointcloudDecoder decoder;
-- 
2.43.0


From 06c909f7d678afa7d2d69bc4dd44696e8a6fab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 19/58] fix: parsing of the PCD header

It stopped at the first comment (usually the very first line) and did not recognize 8-byte F and I fields.
---
 cloudini_lib/src/pcl_conversion.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index da61953..a8c150e 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -42,8 +42,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::vector<std::string> fields_size;
   std::vector<std::string> fields_type;
 
-  do {
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
     line = line.substr(0, line.find('#'));   // Remove comments
     line = line.substr(0, line.find('\r'));  // Remove carriage return if present
     line = line.substr(0, line.find('\n'));  // Remove newline if present
@@ -62,7 +61,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     } else if (line_key == "DATA") {
       break;
     }
-  } while (!line.empty());
+  }
 
   const size_t num_fields = fields_name.size();
 
@@ -76,7 +75,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     const std::string name = std::string(fields_name[i]);
     const int bytes = std::stoi(std::string(fields_size[i]));
     FieldType type = FieldType::UNKNOWN;
-    if (fields_type[i] == "F" && bytes == 4) {
+    if (fields_type[i] == "F") {
       if (bytes == 4) {
         type = FieldType::FLOAT32;
       } else if (bytes == 8) {
@@ -89,6 +88,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
         type = FieldType::INT16;
       } else if (bytes == 4) {
         type = FieldType::INT32;
+      } else if (bytes == 8) {
+        type = FieldType::INT64;
       }
     } else if (fields_type[i] == "U") {
       if (bytes == 1) {
-- 
2.43.0


From 2acf4af7d8bbb71f6f72af11f68ab4581f78fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 20/58] fix: deadlock in encode() if the worker thread could
 not be restarted

---
 cloudini_lib/src/cloudini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 30716b6..04709fe 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -575,7 +575,8 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
     bool need_respawn = false;
     {
       std::lock_guard<std::mutex> lock(mutex_);
-      need_respawn = worker_failed_;
+      // not joinable if the creation of the new thread failed in the previous call
+      need_respawn = worker_failed_ || !compressing_thread_.joinable();
     }
     if (need_respawn) {
       if (compressing_thread_.joinable()) {
-- 
2.43.0


From 27b54cc3d5f03c396d1649554e672e07c1e985a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 21/58] fix: encode() could return with the worker thread still
 writing into the output

It happened when the calling thread threw an exception, for example because of a failed allocation.
---
 cloudini_lib/src/cloudini.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 04709fe..e3ac015 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -601,6 +601,15 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
   }
   output_view_ = output;
 
+  // If this function throws, don't return until the worker has stopped using the memory owned by the caller
+  struct WorkerGuard {
+    PointcloudEncoder& self;
+    ~WorkerGuard() {
+      std::unique_lock<std::mutex> lock(self.mutex_);
+      self.cv_done_compressing_.wait(lock, [this] { return self.compression_done_ || self.worker_failed_; });
+    }
+  } worker_guard{*this};
+
   // Copy the header at the beginning of the output
   if (write_header) {
     memcpy(output_view_.data(), header_.data(), header_.size());
-- 
2.43.0


From d60cc060f8b5bdbc6c2e4f7d6ad4e9b5f650613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 22/58] Verification hook: configurable number of points per
 chunk (guarded by CLOUDINI_VERIFICATION_POINTS_PER_CHUNK)

---
 cloudini_lib/src/codec_common.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index fb9ee22..f7e335a 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -25,7 +25,12 @@
 
 namespace Cloudini::detail {
 
+#ifdef CLOUDINI_VERIFICATION_POINTS_PER_CHUNK
+// Verification builds only: small chunks make it possible to explore clouds with many chunks exhaustively
+constexpr size_t kPointsPerChunk = CLOUDINI_VERIFICATION_POINTS_PER_CHUNK;
+#else
 constexpr size_t kPointsPerChunk = 32 * 1024;
+#endif
 
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
-- 
2.43.0


From 9672478a2288c78268669b7b0182b29bd0b8188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 23/58] fix: EncodingInfoToYAML returned an incomplete header
 when out of memory

std::ostringstream swallows the exceptions thrown while growing its buffer. The truncated string was used silently
as header, and to compute MaxCompressedSize, i.e. the size of the output buffer of encode().
---
 cloudini_lib/src/cloudini.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e3ac015..1c18b7e 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -204,6 +204,8 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
 
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
+  // if the memory can not be allocated, throw instead of returning silently an incomplete header
+  yaml.exceptions(std::ios::badbit | std::ios::failbit);
   yaml << "version: " << static_cast<int>(info.version) << "\n";
   yaml << "width: " << info.width << "\n";
   yaml << "height: " << info.height << "\n";
-- 
2.43.0


From 156c3da59030b6ee298d9ba44a3a5fbdb95d1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 24/58] fix: read unaligned field values with memcpy in the
 encoders

Fields of a point can have any offset; dereferencing a misaligned pointer is
undefined behaviour (and traps on some platforms).
---
 cloudini_lib/include/cloudini_lib/encoding_utils.hpp |  3 ++-
 cloudini_lib/include/cloudini_lib/field_encoder.hpp  |  3 ++-
 cloudini_lib/src/field_encoder.cpp                   | 12 +++++++-----
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 6f5dd52..c36b04f 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -68,7 +68,8 @@ inline size_t encodeVarint64(int64_t value, uint8_t* ptr) {
 
 template <typename T>
 int64_t ToInt64(const uint8_t* ptr) {
-  T tmp = *(reinterpret_cast<const T*>(ptr));
+  T tmp;  // the fields of a point may be unaligned
+  memcpy(&tmp, ptr, sizeof(T));
   return static_cast<int64_t>(tmp);
 }
 
diff --git a/cloudini_lib/include/cloudini_lib/field_encoder.hpp b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
index c558515..f648bd1 100644
--- a/cloudini_lib/include/cloudini_lib/field_encoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
@@ -342,7 +342,8 @@ class FieldEncoderFloatN_Lossy : public FieldEncoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline size_t FieldEncoderFloat_Lossy<FloatType>::encode(const ConstBufferView& point_view, BufferView& output) {
-  FloatType value_real = *(reinterpret_cast<const FloatType*>(point_view.data() + offset_));
+  FloatType value_real;
+  memcpy(&value_real, point_view.data() + offset_, sizeof(value_real));
   const FloatType scaled = std::round(value_real * multiplier_);
   // NaN, infinite and values too large to be quantized (the delta of two values must fit in 64 bits)
   if (!(std::abs(scaled) < static_cast<FloatType>(0x1p62))) {
diff --git a/cloudini_lib/src/field_encoder.cpp b/cloudini_lib/src/field_encoder.cpp
index b682fb0..178ddf0 100644
--- a/cloudini_lib/src/field_encoder.cpp
+++ b/cloudini_lib/src/field_encoder.cpp
@@ -40,11 +40,13 @@ FieldEncoderFloatN_Lossy::FieldEncoderFloatN_Lossy(const std::vector<FieldData>&
 }
 
 size_t FieldEncoderFloatN_Lossy::encode(const ConstBufferView& point_view, BufferView& output) {
-  const Vector4f vect_real(
-      *(reinterpret_cast<const float*>(point_view.data() + offset_[0])),
-      *(reinterpret_cast<const float*>(point_view.data() + offset_[1])),
-      *(reinterpret_cast<const float*>(point_view.data() + offset_[2])),
-      *(reinterpret_cast<const float*>(point_view.data() + offset_[3])));
+  // the fields of a point may be unaligned
+  const auto load = [&point_view](size_t offset) {
+    float value;
+    memcpy(&value, point_view.data() + offset, sizeof(value));
+    return value;
+  };
+  const Vector4f vect_real(load(offset_[0]), load(offset_[1]), load(offset_[2]), load(offset_[3]));
 
   const Vector4f normalized_vect = vect_real * multiplier_;
   const Vector4i vect_int = cast_vector4f_to_vector4i(normalized_vect);
-- 
2.43.0


From b8728c2c6571d45c3888a2b2b504cd5442822a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 25/58] fix: no signed overflow in the delta arithmetic of
 integer columns

The difference of two int64 values may not be representable, and a corrupted
stream can contain any delta. Both were undefined behaviour.
---
 .../include/cloudini_lib/encoding_utils.hpp    | 10 ++++++++++
 .../include/cloudini_lib/field_decoder.hpp     |  4 ++--
 .../include/cloudini_lib/field_encoder.hpp     |  2 +-
 cloudini_lib/src/field_decoder.cpp             |  2 +-
 cloudini_lib/src/v5_codec.cpp                  | 18 +++++++++---------
 5 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index c36b04f..3a9d8a0 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -52,6 +52,16 @@ inline void encode(const std::string& str, BufferView& buff) {
   buff.trim_front(len);
 }
 
+/// Difference and sum modulo 2^64: the delta of two values may not be representable, but it is restored exactly.
+/// Signed arithmetic would be undefined behaviour.
+inline int64_t wrappingSub(int64_t a, int64_t b) {
+  return static_cast<int64_t>(static_cast<uint64_t>(a) - static_cast<uint64_t>(b));
+}
+
+inline int64_t wrappingAdd(int64_t a, int64_t b) {
+  return static_cast<int64_t>(static_cast<uint64_t>(a) + static_cast<uint64_t>(b));
+}
+
 inline size_t encodeVarint64(int64_t value, uint8_t* ptr) {
   uint64_t val = static_cast<uint64_t>((value << 1) ^ (value >> 63));  // Zig-zag encoding
   val++;                                                               // reserving value 0 for NaN
diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index b1a441a..01efdc9 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -90,7 +90,7 @@ class FieldDecoderInt : public FieldDecoder {
     int64_t diff = 0;
     auto count = decodeIntDelta(input.data(), input.size(), sizeof(IntType), diff);
 
-    int64_t value = prev_value_ + diff;
+    int64_t value = wrappingAdd(prev_value_, diff);
     prev_value_ = value;
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, &value, sizeof(IntType));
@@ -352,7 +352,7 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
   int64_t diff = 0;
   const auto count = decodeVarint(input.data(), input.size(), diff);
-  const int64_t value = prev_value_ + diff;
+  const int64_t value = wrappingAdd(prev_value_, diff);
   const FloatType value_real = static_cast<FloatType>(value) * multiplier_;
   prev_value_ = value;
 
diff --git a/cloudini_lib/include/cloudini_lib/field_encoder.hpp b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
index f648bd1..2004f49 100644
--- a/cloudini_lib/include/cloudini_lib/field_encoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
@@ -78,7 +78,7 @@ class FieldEncoderInt : public FieldEncoder {
 
   size_t encode(const ConstBufferView& point_view, BufferView& output) override {
     int64_t value = ToInt64<IntType>(point_view.data() + offset_);
-    int64_t diff = value - prev_value_;
+    int64_t diff = wrappingSub(value, prev_value_);
     prev_value_ = value;
     int64_t var_size = encodeVarint64(diff, output.data());
     output.trim_front(var_size);
diff --git a/cloudini_lib/src/field_decoder.cpp b/cloudini_lib/src/field_decoder.cpp
index b016940..70bdedf 100644
--- a/cloudini_lib/src/field_decoder.cpp
+++ b/cloudini_lib/src/field_decoder.cpp
@@ -65,7 +65,7 @@ void FieldDecoderFloatN_Lossy::decode(ConstBufferView& input, BufferView dest_po
       int64_t diff = 0;
       const auto remaining = static_cast<size_t>((input.data() + input.size()) - ptr_in);
       const auto count = decodeVarint(ptr_in, remaining, diff);
-      new_vect[i] = static_cast<int32_t>(diff) + prev_vect_[i];
+      new_vect[i] = static_cast<int32_t>(wrappingAdd(diff, prev_vect_[i]));
       float_vect[i] = static_cast<float>(new_vect[i]) * multiplier_[i];
       ptr_in += count;
     }
diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 53520ce..e8f2422 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -261,7 +261,7 @@ size_t encodedDeltaVarintSectionSize(const std::vector<int64_t>& values) {
   size_t bytes = 1;  // mode byte
   int64_t prev = 0;
   for (int64_t value : values) {
-    const int64_t diff = value - prev;
+    const int64_t diff = wrappingSub(value, prev);
     prev = value;
     bytes += encodedVarint64Size(diff);
   }
@@ -273,11 +273,11 @@ void forEachDeltaRun(const std::vector<int64_t>& values, Callback callback) {
   int64_t prev = 0;
   size_t i = 0;
   while (i < values.size()) {
-    const int64_t diff = values[i] - prev;
+    const int64_t diff = wrappingSub(values[i], prev);
     prev = values[i];
     size_t j = i + 1;
     while (j < values.size()) {
-      const int64_t next_diff = values[j] - prev;
+      const int64_t next_diff = wrappingSub(values[j], prev);
       if (next_diff != diff) {
         break;
       }
@@ -426,7 +426,7 @@ void appendDeltaVarintSection(const std::vector<int64_t>& values, BufferView& ou
   appendByte(out, static_cast<uint8_t>(AdaptiveIntMode::DeltaVarint));
   int64_t prev = 0;
   for (int64_t value : values) {
-    const int64_t diff = value - prev;
+    const int64_t diff = wrappingSub(value, prev);
     prev = value;
     const size_t bytes = encodeVarint64(diff, out.data());
     out.trim_front(bytes);
@@ -539,7 +539,7 @@ void flushDeltaRleRun(V5AdaptiveIntField& field) {
 }
 
 void appendDeltaRleValue(V5AdaptiveIntField& field, int64_t value) {
-  const int64_t diff = value - field.stream_prev_value;
+  const int64_t diff = wrappingSub(value, field.stream_prev_value);
   field.stream_prev_value = value;
   if (!field.stream_has_run) {
     field.stream_run_diff = diff;
@@ -588,7 +588,7 @@ void appendCommittedValueToSection(V5AdaptiveIntField& field, const uint8_t* fie
   switch (field.committed_mode) {
     case AdaptiveIntMode::DeltaVarint: {
       const int64_t value = readIntAsI64(field_ptr, field.type);
-      const int64_t diff = value - field.stream_prev_value;
+      const int64_t diff = wrappingSub(value, field.stream_prev_value);
       field.stream_prev_value = value;
       appendVarint64(diff, field.section_bytes);
     } break;
@@ -608,7 +608,7 @@ void appendCommittedValueToSection(V5AdaptiveIntField& field, size_t index) {
   switch (field.committed_mode) {
     case AdaptiveIntMode::DeltaVarint: {
       const int64_t value = field.values[index];
-      const int64_t diff = value - field.stream_prev_value;
+      const int64_t diff = wrappingSub(value, field.stream_prev_value);
       field.stream_prev_value = value;
       appendVarint64(diff, field.section_bytes);
     } break;
@@ -784,7 +784,7 @@ void decodeV5AdaptiveIntSection(
         int64_t diff = 0;
         const auto consumed = decodeIntDelta(input.data(), input.size(), field.bytes_per_value, diff);
         input.trim_front(consumed);
-        const int64_t value = prev + diff;
+        const int64_t value = wrappingAdd(prev, diff);
         prev = value;
         writeRawBitsToPoint(field, static_cast<uint64_t>(value), output_base + i * point_step);
       }
@@ -860,7 +860,7 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          const int64_t value = prev + diff;
+          const int64_t value = wrappingAdd(prev, diff);
           prev = value;
           writeRawBitsToPoint(field, static_cast<uint64_t>(value), output_base + out_index * point_step);
           ++out_index;
-- 
2.43.0


From de247077f4429f96108f67fcd827c633a0301cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 26/58] fix: lossy preprocessing must not read coordinates
 beyond the point

The offsets of the fields come from the message and were not compared with
point_step: a corrupted message caused reads outside of the data.
---
 cloudini_lib/src/ros_msg_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 04f8769..385cb11 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -264,7 +264,9 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
       f1.resolution.has_value() && f2.resolution.has_value() &&
       f0.resolution.value() == f1.resolution.value() &&
       f0.resolution.value() == f2.resolution.value() &&
-      f1.offset == f0.offset + 4u && f2.offset == f0.offset + 8u;
+      f1.offset == f0.offset + 4u && f2.offset == f0.offset + 8u &&
+      // the triple must fit in the point: the message may be corrupted
+      static_cast<uint64_t>(f0.offset) + 12u <= pc_info.point_step;
   if (!has_triple) {
     return;
   }
-- 
2.43.0


From d15bd367426275a97a9cb6cc3624a18e39c91837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 27/58] fix: lossy preprocessing dropped points farther than
 2^20 voxels from the origin

The voxel key has 21 bits per axis and larger coordinates were truncated:
points in different voxels were considered duplicates and removed.
---
 cloudini_lib/src/ros_msg_utils.cpp | 33 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 385cb11..d017230 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -17,10 +17,12 @@
 #include "cloudini_lib/ros_msg_utils.hpp"
 
 #include <algorithm>
+#include <array>
 #include <cmath>
 #include <cstdint>
 #include <cstring>
 #include <limits>
+#include <set>
 #include <vector>
 
 #include "cloudini_lib/contrib/ankerl/unordered_dense.h"
@@ -36,9 +38,8 @@ namespace {
 // signed values in [-2^20, 2^20-1] ≈ [-1.04M, 1.04M] ticks. At 1mm resolution
 // that's ±1km per axis; at 1cm it's ±10km. Any realistic LIDAR fits.
 //
-// Out-of-range coords silently truncate (would cause false dedup positives).
-// For our DATA corpus (200m max range × 1mm) this is well within the safe
-// region; if encountered, bumping resolution to 1cm gives 10× headroom.
+// Out-of-range coords would be truncated (false dedup positives): check them
+// with fitsVoxelKey21 first.
 inline uint64_t packVoxelKey21(int32_t qx, int32_t qy, int32_t qz) {
   constexpr int64_t kBias = int64_t{1} << 20;
   constexpr uint64_t kAxisMask = (uint64_t{1} << 21) - 1;
@@ -48,6 +49,10 @@ inline uint64_t packVoxelKey21(int32_t qx, int32_t qy, int32_t qz) {
   return ux | (uy << 21) | (uz << 42);
 }
 
+inline bool fitsVoxelKey21(float ticks) {
+  return std::abs(ticks) < 1048575.0f;  // 2^20 - 1; false if NaN
+}
+
 }  // namespace
 
 
@@ -302,6 +307,7 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
   thread_local ankerl::unordered_dense::set<uint64_t> seen;
   seen.clear();
   seen.reserve(n_in);
+  std::set<std::array<double, 3>> seen_far;  // voxels out of the range of packVoxelKey21
 
   std::vector<uint8_t> out;
   out.reserve(pc_info.data.size());
@@ -317,12 +323,21 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
     if (!std::isfinite(fx) || !std::isfinite(fy) || !std::isfinite(fz)) {
       continue;  // drop NaN/inf
     }
-    const uint64_t key = packVoxelKey21(
-        static_cast<int32_t>(std::lround(fx * inv_res)),
-        static_cast<int32_t>(std::lround(fy * inv_res)),
-        static_cast<int32_t>(std::lround(fz * inv_res)));
-    if (!seen.insert(key).second) {
-      continue;  // voxel duplicate
+    const float vx = fx * inv_res;
+    const float vy = fy * inv_res;
+    const float vz = fz * inv_res;
+    if (fitsVoxelKey21(vx) && fitsVoxelKey21(vy) && fitsVoxelKey21(vz)) {
+      const uint64_t key = packVoxelKey21(
+          static_cast<int32_t>(std::lround(vx)), static_cast<int32_t>(std::lround(vy)),
+          static_cast<int32_t>(std::lround(vz)));
+      if (!seen.insert(key).second) {
+        continue;  // voxel duplicate
+      }
+    } else {
+      const auto far_coord = [xyz_res](float value) { return std::round(static_cast<double>(value) / xyz_res); };
+      if (!seen_far.insert({far_coord(fx), far_coord(fy), far_coord(fz)}).second) {
+        continue;  // voxel duplicate
+      }
     }
     const size_t before = out.size();
     out.resize(before + pc_info.point_step);
-- 
2.43.0


From 325e5db731cb2c69a289a8588d69004a85756985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 28/58] fix: binary header with too many fields or too long
 names

Their number and length were silently truncated to 16 bits, and the header
described another cloud.
---
 cloudini_lib/src/cloudini.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 1c18b7e..d417a57 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -355,7 +355,16 @@ void EncodeHeader(const EncodingInfo& header, std::vector<uint8_t>& output, Head
     output_buffer.trim_front(yaml_str.size());
     encode('\0', output_buffer);  // null terminator
   } else {
-    // Binary encoding
+    // Binary encoding. The number of fields and the length of the names are stored in 16 bits
+    constexpr size_t max_u16 = std::numeric_limits<uint16_t>::max();
+    if (header.fields.size() > max_u16) {
+      throw std::runtime_error("Too many fields for the binary header");
+    }
+    for (const auto& field : header.fields) {
+      if (field.name.size() > max_u16) {
+        throw std::runtime_error("Field name too long for the binary header");
+      }
+    }
     output.resize(ComputeHeaderSize(header.fields));
     BufferView output_buffer(output.data(), output.size());
     write_magic(output_buffer);
-- 
2.43.0


From 3a8f77fdbe5e706070c63449bfd08fadb6501eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 29/58] fix: voxel at the limit of the packed key was split in
 two by the lossy preprocessing

---
 cloudini_lib/src/ros_msg_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index d017230..3c94822 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -50,7 +50,8 @@ inline uint64_t packVoxelKey21(int32_t qx, int32_t qy, int32_t qz) {
 }
 
 inline bool fitsVoxelKey21(float ticks) {
-  return std::abs(ticks) < 1048575.0f;  // 2^20 - 1; false if NaN
+  // half integer, to never split a voxel: rounds to less than 2^20 - 1; false if NaN
+  return std::abs(ticks) < 1048574.5f;
 }
 
 }  // namespace
-- 
2.43.0


From 2fbbffd443e92b076365b08616abbb6f59bc6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 30/58] fix: overflow of the size check in the WASM encoding
 functions

---
 cloudini_lib/src/wasm_functions.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index d4350fc..cf79ba6 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -22,6 +22,14 @@
 #include "cloudini_lib/ros_message_definitions.hpp"
 #include "cloudini_lib/ros_msg_utils.hpp"
 
+namespace {
+// true if data_size == width * height * point_step (the product may overflow)
+bool dataSizeMatches(const Cloudini::EncodingInfo& info, size_t data_size) {
+  const uint64_t points_count = static_cast<uint64_t>(info.width) * info.height;
+  return info.point_step != 0 && data_size % info.point_step == 0 && data_size / info.point_step == points_count;
+}
+}  // namespace
+
 uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_yaml_ptr) {
   try {
     const uint8_t* encoded_data = reinterpret_cast<const uint8_t*>(encoded_data_ptr);
@@ -191,9 +199,7 @@ uint32_t cldn_EncodePointcloudMessage(
     }
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
-
-    if (pc_info.data.size() != expected_size) {
+    if (!dataSizeMatches(encoding_info, pc_info.data.size())) {
       return 0;
     }
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
@@ -230,7 +236,7 @@ uint32_t cldn_EncodePointcloudData(
     // Verify data size matches expected size
     uint32_t expected_size = encoding_info.width * encoding_info.height * encoding_info.point_step;
 
-    if (pc_data_size != expected_size) {
+    if (!dataSizeMatches(encoding_info, pc_data_size)) {
       EM_ASM({ console.error('Data size mismatch: expected', $0, 'but got', $1); }, expected_size, pc_data_size);
       return 0;
     }
-- 
2.43.0


From b32176c6f81d4e1751ceb04c2cd6456499d9cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 31/58] fix: blank runs, tabs and trailing blanks in a PCD
 header

---
 cloudini_lib/src/pcl_conversion.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index a8c150e..e322de3 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -18,20 +18,21 @@
 
 #include <pcl/io/pcd_io.h>
 
+#include <algorithm>
 #include <sstream>
 
 namespace Cloudini {
 
-std::vector<std::string_view> splitString(std::string_view str, char delimiter = ' ') {
+std::vector<std::string_view> splitString(std::string_view str, std::string_view delimiters = " \t") {
   std::vector<std::string_view> tokens;
   std::string_view::size_type start = 0;
-  std::string_view::size_type end = 0;
 
-  while ((end = str.find(delimiter, start)) != std::string_view::npos) {
+  // consecutive, leading and trailing delimiters do not create empty tokens
+  while ((start = str.find_first_not_of(delimiters, start)) != std::string_view::npos) {
+    const auto end = std::min(str.find_first_of(delimiters, start), str.size());
     tokens.push_back(str.substr(start, end - start));
-    start = end + 1;
+    start = end;
   }
-  tokens.push_back(str.substr(start));
   return tokens;
 }
 
-- 
2.43.0


From 6fd1570c2eadf462df3a4cfe28ab8fe72a488fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 32/58] fix: the publisher plugin states the format of the
 compressed messages

---
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 36db50c..1437084 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -65,6 +65,7 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   result.point_step = raw.point_step;
   result.row_step = raw.row_step;
   result.is_dense = raw.is_dense;
+  result.format = "cloudini";
 
   // reserve memory for the compressed data
   result.compressed_data.resize(raw.data.size());
-- 
2.43.0


From a1a6a70525ae779e4f0f09af216228750b01cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 33/58] fix: clouds of the PCL subscriber may outlive it

---
 .../cloudini_ros/cloudini_subscriber_pcl.hpp  | 19 ++++++++-----
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 28 +++++++++----------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
index 7f8e5a5..c4f336c 100644
--- a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
+++ b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
@@ -22,6 +22,7 @@
 #include <deque>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <rclcpp/generic_subscription.hpp>
 #include <rclcpp/rclcpp.hpp>
 #include <rclcpp/serialization.hpp>
@@ -66,9 +67,9 @@ class CloudiniSubscriberPCL {
       const rclcpp::QoS& qos_profile = rclcpp::QoS(10));
 
   /**
-   * @brief Destructor - cleans up object pool
+   * @brief Destructor. The object pool is cleaned up when the last cloud in use is released
    */
-  ~CloudiniSubscriberPCL();
+  ~CloudiniSubscriberPCL() = default;
 
   /**
    * @brief Get the underlying ROS2 subscription object
@@ -110,13 +111,17 @@ class CloudiniSubscriberPCL {
   // Node pointer for logging
   rclcpp::Node* node_;
 
-  // Object pool for PCL clouds (avoids repeated allocations)
-  std::deque<pcl::PCLPointCloud2*> cloud_pool_;
-
-  std::mutex pool_mutex_;
-
   // Maximum pool size to prevent unbounded growth
   static constexpr size_t MAX_POOL_SIZE = 4;
+
+  // Object pool for PCL clouds (avoids repeated allocations). It is shared with the deleters of
+  // the clouds handed to the user, because these clouds may outlive the subscriber.
+  struct CloudPool {
+    ~CloudPool();
+    std::deque<pcl::PCLPointCloud2*> clouds;
+    std::mutex mutex;
+  };
+  std::shared_ptr<CloudPool> cloud_pool_ = std::make_shared<CloudPool>();
 };
 
 }  // namespace cloudini_ros
diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index cc0752b..2c0e216 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -52,13 +52,10 @@ CloudiniSubscriberPCL::CloudiniSubscriberPCL(
   RCLCPP_INFO(node_->get_logger(), "CloudiniSubscriberPCL created for topic: %s", topic_name.c_str());
 }
 
-CloudiniSubscriberPCL::~CloudiniSubscriberPCL() {
-  // Clean up all objects in the pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  for (auto* ptr : cloud_pool_) {
+CloudiniSubscriberPCL::CloudPool::~CloudPool() {
+  for (auto* ptr : clouds) {
     delete ptr;
   }
-  cloud_pool_.clear();
 }
 
 std::string CloudiniSubscriberPCL::getTopicName() const {
@@ -69,24 +66,27 @@ pcl::PCLPointCloud2::Ptr CloudiniSubscriberPCL::acquireCloudFromPool() {
   pcl::PCLPointCloud2* raw_ptr = nullptr;
 
   // Try to get from pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  if (!cloud_pool_.empty()) {
-    raw_ptr = cloud_pool_.back();
-    cloud_pool_.pop_back();
-  } else {
+  {
+    std::lock_guard<std::mutex> lock(cloud_pool_->mutex);
+    if (!cloud_pool_->clouds.empty()) {
+      raw_ptr = cloud_pool_->clouds.back();
+      cloud_pool_->clouds.pop_back();
+    }
+  }
+  if (!raw_ptr) {
     // Pool is empty, allocate new
     raw_ptr = new pcl::PCLPointCloud2();
   }
 
   // Create shared_ptr with custom deleter that returns to pool
-  return pcl::PCLPointCloud2::Ptr(raw_ptr, [this](pcl::PCLPointCloud2* ptr) {
-    std::lock_guard<std::mutex> lock(pool_mutex_);
+  return pcl::PCLPointCloud2::Ptr(raw_ptr, [pool = cloud_pool_](pcl::PCLPointCloud2* ptr) {
+    std::lock_guard<std::mutex> lock(pool->mutex);
     // Return to pool if not full, otherwise delete
-    if (cloud_pool_.size() < MAX_POOL_SIZE) {
+    if (pool->clouds.size() < MAX_POOL_SIZE) {
       // Clear the data but keep allocated memory for reuse
       ptr->data.clear();
       ptr->fields.clear();
-      cloud_pool_.push_back(ptr);
+      pool->clouds.push_back(ptr);
     } else {
       delete ptr;
     }
-- 
2.43.0


From 4799d1d28228efebd485641f9f9f6092a8f72c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 34/58] fix: McapConverter keeps the metadata of channels

---
 cloudini_lib/tools/src/mcap_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 22432d6..2d35529 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -100,7 +100,7 @@ void McapConverter::duplicateSchemasAndChannels(
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
     auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
-    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
+    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
   }
-- 
2.43.0


From 920d8187aa6999b9469cd7c2d0d243b0f59e2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 35/58] fix: McapConverter accepts channels without a schema

---
 cloudini_lib/tools/src/mcap_converter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 2d35529..c45854b 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -45,8 +45,9 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
   }
 
   for (const auto& [channel_id, channel_ptr] : reader_->channels()) {
+    // channels may have no schema at all (id 0)
     const auto& schema_ptr = reader_->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name) {
+    if (schema_ptr && (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name)) {
       topics[channel_ptr->topic] = schema_ptr->name;
     }
   }
@@ -99,7 +100,9 @@ void McapConverter::duplicateSchemasAndChannels(
 
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
-    auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
+    // id 0 means that the channel has no schema
+    const mcap::SchemaId new_schema_id =
+        channel_ptr->schemaId == 0 ? mcap::SchemaId(0) : old_to_new_schema_id_.at(channel_ptr->schemaId);
     mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
@@ -171,7 +174,7 @@ void McapConverter::encodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != pointcloud_schema_name) {
+    if (!msg.schema || msg.schema->name != pointcloud_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
@@ -268,7 +271,7 @@ void McapConverter::decodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != compressed_schema_name) {
+    if (!msg.schema || msg.schema->name != compressed_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
-- 
2.43.0


From 9cabe21651373433b93ef0fa138f04dcacd015da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 36/58] fix: McapConverter can open another file

---
 cloudini_lib/tools/src/mcap_converter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index c45854b..23d3701 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -28,6 +28,11 @@
 #include <mcap/writer.hpp>
 
 McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
+  // release the previous file, if any
+  reader_.reset();
+  data_source_.reset();
+  input_stream_.close();
+  input_stream_.clear();
   input_stream_.open(file_in);
   data_source_ = std::make_shared<mcap::FileStreamReader>(input_stream_);
   reader_ = std::make_shared<mcap::McapReader>();
-- 
2.43.0


From 8d4fd6a5864fbea83504f0ce3574e69168a6d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 37/58] fix: McapConverter copies the attachments

---
 cloudini_lib/tools/src/mcap_converter.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 23d3701..19e6650 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -130,6 +130,24 @@ void McapConverter::duplicateSchemasAndChannels(
       throw std::runtime_error("Error copying MCAP metadata: " + status.message);
     }
   }
+
+  // copy the attachments from the reader to the writer
+  for (const auto& [attachment_name, attachment_index] : reader_->attachmentIndexes()) {
+    mcap::Record mcap_record;
+    auto status = mcap::McapReader::ReadRecord(*data_source_, attachment_index.offset, &mcap_record);
+    if (!status.ok()) {
+      throw std::runtime_error("Error reading MCAP attachment record: " + status.message);
+    }
+    mcap::Attachment mcap_attachment;
+    status = mcap::McapReader::ParseAttachment(mcap_record, &mcap_attachment);
+    if (!status.ok()) {
+      throw std::runtime_error("Error parsing MCAP attachment record: " + status.message);
+    }
+    status = writer.write(mcap_attachment);
+    if (!status.ok()) {
+      throw std::runtime_error("Error copying MCAP attachment: " + status.message);
+    }
+  }
 }
 
 mcap::Compression toMcapCompression(Cloudini::CompressionOption compression) {
-- 
2.43.0


From 8080770c7a07e8c69aeb6da64f66f98b22506397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:45 +0000
Subject: [PATCH 38/58] fix: the subscriber plugin accepts messages of empty
 clouds

---
 cloudini_ros/src/cloudini_subscriber_plugin.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index c8d8675..673e7c0 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -28,6 +28,20 @@ CloudiniSubscriber::CloudiniSubscriber() : decoder_(std::make_shared<Cloudini::P
 
 CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
     const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const {
+  // special case: the messages of empty clouds may contain no compressed data at all
+  if (msg.compressed_data.empty() && (msg.width == 0 || msg.height == 0)) {
+    auto empty_cloud = std::make_shared<sensor_msgs::msg::PointCloud2>();
+    empty_cloud->header = msg.header;
+    empty_cloud->height = msg.height;
+    empty_cloud->width = msg.width;
+    empty_cloud->fields = msg.fields;
+    empty_cloud->is_bigendian = false;
+    empty_cloud->point_step = msg.point_step;
+    empty_cloud->row_step = msg.row_step;
+    empty_cloud->is_dense = msg.is_dense;
+    return empty_cloud;
+  }
+
   Cloudini::ConstBufferView input(msg.compressed_data.data(), msg.compressed_data.size());
   auto info = Cloudini::DecodeHeader(input);
 
-- 
2.43.0


From ddad96a5e34d2f83065fbac286fe4810010e4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:45 +0000
Subject: [PATCH 39/58] fix: the PCL subscriber accepts messages of empty
 clouds

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp | 22 +++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index 2c0e216..5ef07e3 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -108,7 +108,27 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
 
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
-    PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    if (pc_info.data.empty() && (pc_info.width == 0 || pc_info.height == 0)) {
+      // special case: the messages of empty clouds may contain no compressed data at all
+      pcl_cloud->width = pc_info.width;
+      pcl_cloud->height = pc_info.height;
+      pcl_cloud->point_step = pc_info.point_step;
+      pcl_cloud->row_step = pc_info.width * pc_info.point_step;
+      pcl_cloud->is_dense = true;
+      pcl_cloud->is_bigendian = false;
+      pcl_cloud->data.clear();
+      pcl_cloud->fields.clear();
+      for (const auto& field : pc_info.fields) {
+        pcl::PCLPointField pcl_field;
+        pcl_field.name = field.name;
+        pcl_field.offset = field.offset;
+        pcl_field.datatype = static_cast<uint8_t>(field.type);
+        pcl_field.count = 1;
+        pcl_cloud->fields.push_back(pcl_field);
+      }
+    } else {
+      PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    }
 
     // STEP 5: Invoke user callback with the decoded PCL cloud
     user_callback_(pcl_cloud);
-- 
2.43.0


From 4d5bb408f526151a9958be51b517f5948e520957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 40/58] fix: the rosbag converter accepts a file of the current
 directory

If the input was a bare file name next to a metadata.yaml, the parent path was
empty, and std::filesystem::canonical("") throws.
---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 66428ba..b9f296b 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -201,7 +201,7 @@ int main(int argc, char** argv) {
     output_filename = parse_result["output"].as<std::string>();
   } else if (!input_metadata.empty()) {
     // When input has metadata.yaml, default output goes to a new sibling directory
-    auto input_dir = std::filesystem::canonical(input_metadata.parent_path());
+    auto input_dir = std::filesystem::canonical(std::filesystem::absolute(input_metadata).parent_path());
     auto suffix = encode ? "_encoded" : "_decoded";
     auto output_dir = input_dir.parent_path() / (input_dir.filename().string() + suffix);
     output_filename = (output_dir / (mcap_file.stem().string() + suffix + ".mcap")).string();
@@ -220,7 +220,7 @@ int main(int argc, char** argv) {
     if (output_dir.empty()) {
       output_dir = std::filesystem::current_path();
     }
-    auto input_dir = std::filesystem::canonical(input_metadata.parent_path());
+    auto input_dir = std::filesystem::canonical(std::filesystem::absolute(input_metadata).parent_path());
     // Canonicalize output_dir only if it already exists
     if (std::filesystem::exists(output_dir)) {
       output_dir = std::filesystem::canonical(output_dir);
-- 
2.43.0


From 81491e1d687f28255f6622e7aa6ad5520f523b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 41/58] fix: the rosbag converter reads the whole profile file

Only the text up to the first blank was used: the remaining fields of
"xyz:0.001; timestamp:remove" were silently ignored.
---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index b9f296b..03a9514 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -312,8 +312,7 @@ int main(int argc, char** argv) {
         // check if it is a file or a string
         if (std::filesystem::exists(profile_str)) {
           std::ifstream file(profile_str);
-          std::string profile;
-          file >> profile;
+          const std::string profile((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
           converter.addProfile(profile);
         } else {
           converter.addProfile(profile_str);
-- 
2.43.0


From 9f88ede2099d82eb56a5f73ea7e150b68997eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 42/58] fix: the rosbag converter refuses to overwrite its
 input

With -o naming the input file, the writer truncated the bag that was being read.
---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 03a9514..8278759 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -233,6 +233,13 @@ int main(int argc, char** argv) {
     }
   }
 
+  // Safety check: prevent overwriting the input while it is being read
+  if (std::filesystem::exists(output_filename) && std::filesystem::exists(mcap_file) &&
+      std::filesystem::equivalent(output_filename, mcap_file)) {
+    std::cerr << "Error: Output and input are the same file: " << mcap_file << std::endl;
+    return 1;
+  }
+
   // Create output directory if it doesn't exist
   auto output_parent = std::filesystem::path(output_filename).parent_path();
   if (!output_parent.empty() && !std::filesystem::exists(output_parent)) {
-- 
2.43.0


From 25dc6e76a58cea494f88478d13d449ed874a9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:30 +0000
Subject: [PATCH 43/58] fix: pcd_to_cloudini_converter honours its options

The options --encoding, --compression and --intensity-resolution were parsed,
but ignored: '-e lossless' wrote a lossy file without saying so.
---
 .../tools/src/pcd_to_cloudini_converter.cpp   | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 8f67512..dfa2710 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -131,7 +131,26 @@ int main(int argc, char** argv) {
     try {
       // Encode the point cloud
       std::vector<uint8_t> serialized_cloud;
-      const size_t encoded_size = Cloudini::PCLPointCloudEncode(input_file, serialized_cloud, resolution_xyz);
+      pcl::PCLPointCloud2 cloud;
+      if (pcl::io::loadPCDFile(input_file.string(), cloud) == -1) {
+        throw std::runtime_error("Failed to load PCD file");
+      }
+      auto info = Cloudini::ConvertToEncodingInfo(cloud, resolution_xyz);
+      info.encoding_opt = encoding_opt;
+      info.compression_opt = compression_opt;
+      // PCL may not recognize UINT64 and INT64 fields: take their type from the header of the file
+      std::ifstream pcd_stream(input_file);
+      const auto pcd_types = Cloudini::ReadEncodingInfoFromPCD(pcd_stream);
+      for (auto& field : info.fields) {
+        if (field.type == Cloudini::FieldType::UNKNOWN) {
+          field.type = pcd_types.at(field.name);
+        }
+        if (field.name == "intensity" && field.type == Cloudini::FieldType::FLOAT32) {
+          field.resolution = resolution_intensity > 0.0 ? std::optional<float>(resolution_intensity) : std::nullopt;
+        }
+      }
+      Cloudini::PointcloudEncoder encoder(info);
+      encoder.encode(Cloudini::ConstBufferView(cloud.data.data(), cloud.data.size()), serialized_cloud);
       // Write to output file
       std::ofstream output_stream(output_file, std::ios::binary);
       if (!output_stream) {
-- 
2.43.0


From e6f0aebac69c00ecce8f3d70ef6516fd722d7cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:30 +0000
Subject: [PATCH 44/58] fix: mcap_cutter accepts channels without a schema

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index ab730b0..97c74c7 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -61,7 +61,8 @@ void McapCutter::cut(
 
   for (const auto& [channel_id, channel_ptr] : reader->channels()) {
     const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name) {
+    // channels may have no schema at all (id 0)
+    if (schema_ptr && schema_ptr->name == pointcloud_schema_name) {
       pointcloud_channels.push_back({channel_id, channel_ptr->topic});
       std::cout << "Found PointCloud2 topic: " << channel_ptr->topic << std::endl;
     }
-- 
2.43.0


From 501f709c6d6b6908017bdcdac7776cb8947c4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:30 +0000
Subject: [PATCH 45/58] fix: mcap_cutter refuses to overwrite its input

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index 97c74c7..4e2a4e0 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -191,6 +191,11 @@ int main(int argc, char** argv) {
     output_filename += ".mcap";
   }
 
+  if (std::filesystem::exists(output_filename) && std::filesystem::equivalent(output_filename, input_file)) {
+    std::cerr << "Error: Output and input are the same file: " << input_file << std::endl;
+    return 1;
+  }
+
   int max_messages = parse_result["max-messages"].as<int>();
   if (max_messages <= 0) {
     std::cerr << "Error: max-messages must be positive." << std::endl;
-- 
2.43.0


From 19cae19326aa88fa08430230a082c36f1b802b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 46/58] fix: mcap_header_inspector accepts channels without a
 schema

---
 cloudini_lib/tools/src/mcap_header_inspector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_header_inspector.cpp b/cloudini_lib/tools/src/mcap_header_inspector.cpp
index 9d89959..4af8b99 100644
--- a/cloudini_lib/tools/src/mcap_header_inspector.cpp
+++ b/cloudini_lib/tools/src/mcap_header_inspector.cpp
@@ -81,7 +81,8 @@ int main(int argc, char** argv) {
     std::vector<mcap::ChannelId> compressed_channels;
     for (const auto& [channel_id, channel_ptr] : reader->channels()) {
       const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-      if (schema_ptr->name == compressed_schema_name) {
+      // channels may have no schema at all (id 0)
+      if (schema_ptr && schema_ptr->name == compressed_schema_name) {
         compressed_channels.push_back(channel_id);
         std::cout << "Found CompressedPointCloud2 topic: " << channel_ptr->topic << std::endl;
       }
-- 
2.43.0


From 7ff706326a822d5c73c4f5b294db3164114f3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:19 +0000
Subject: [PATCH 47/58] fix: the Python decoder knows 64-bit integer fields

INT64 and UINT64 fields silently became their lowest byte.
---
 cloudini_py/cloudini_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index de6a7af..329f65c 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -343,9 +343,11 @@ class CloudiniDecoder:
             'UINT8': np.uint8,
             'UINT16': np.uint16,
             'UINT32': np.uint32,
+            'UINT64': np.uint64,
             'INT8': np.int8,
             'INT16': np.int16,
             'INT32': np.int32,
+            'INT64': np.int64,
         }
 
         # Create structured dtype from fields
-- 
2.43.0


From 881af01323eccbdd4a1fe4a6b2e7f066fb192911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:19 +0000
Subject: [PATCH 48/58] fix: quoted field names in the Python decoder

---
 cloudini_py/cloudini_decoder.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 329f65c..85050ff 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -9,6 +9,8 @@ Copyright 2025 Davide Faconti
 Licensed under the Apache License, Version 2.0
 """
 
+import re
+
 import numpy as np
 from wasmtime import Store, Module, Linker, WasiConfig, Func, Engine, Config
 
@@ -211,6 +213,14 @@ class CloudiniDecoder:
             pass
         return value
 
+    @staticmethod
+    def _parse_yaml_name(value: str) -> str:
+        """Field names are double quoted if they contain characters with a meaning in YAML."""
+        if len(value) < 2 or value[0] != '"' or value[-1] != '"':
+            return value
+        escapes = {'n': '\n', '0': '\0'}
+        return re.sub(r'\\(.)', lambda m: escapes.get(m.group(1), m.group(1)), value[1:-1])
+
     def get_header_info(self, compressed_msg: bytes) -> dict:
         """
         Extract header information from compressed message.
@@ -245,7 +255,7 @@ class CloudiniDecoder:
             in_fields_section = False
 
             for line in yaml_str.split('\n'):
-                stripped = line.strip()
+                stripped = line.strip(' ')
 
                 # Check if we're in the fields section
                 if stripped.startswith('fields:'):
@@ -257,7 +267,7 @@ class CloudiniDecoder:
                     if stripped.startswith('- name:'):
                         if current_field:
                             fields.append(current_field)
-                        current_field = {'name': stripped.split(':', 1)[1].strip()}
+                        current_field = {'name': self._parse_yaml_name(stripped.split(':', 1)[1].strip(' '))}
                     elif stripped and ':' in stripped and not stripped.startswith('-'):
                         # Field property
                         key, value = stripped.split(':', 1)
-- 
2.43.0


From 24566ea2c7a7906f8fe2f6fdfb8740ace3ae9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:19 +0000
Subject: [PATCH 49/58] fix: the Python decoder allocates sufficient memory for
 header and points

The YAML header was written into 4096 bytes and the points into 32 MB whatever
their size, beyond the end of the blocks in the memory of the WASM module.
---
 cloudini_py/cloudini_decoder.py | 42 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 85050ff..716e6d0 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -122,7 +122,8 @@ class CloudiniDecoder:
         # Simple allocator offset (start at 2MB to avoid stack/heap)
         self.alloc_offset = 2 * 1024 * 1024
 
-        self.output_ptr = self.allocate(32 * 1024 * 1024) # allocate 32 megabytes as worst case scenario
+        self.output_size = 32 * 1024 * 1024  # sufficient in most cases, larger clouds get their own memory
+        self.output_ptr = self.allocate(self.output_size)
 
         print("WASM module loaded successfully!")
 
@@ -165,20 +166,8 @@ class CloudiniDecoder:
         if input_ptr == 0:
             raise RuntimeError("Failed to allocate memory for input message")
 
+        large_output_ptr = 0
         try:
-            # Write compressed message to WASM memory
-            self.write_bytes(input_ptr, compressed_msg)
-
-
-            # Convert compressed message to PointCloud2 message
-            actual_size = self.decode_compressed_msg(self.store, input_ptr, len(compressed_msg), self.output_ptr)
-
-            if actual_size == 0:
-                raise RuntimeError("Failed to convert compressed message to PointCloud2")
-
-            # Read the decoded PointCloud2 DDS message
-            points_msg_data = self.read_bytes(self.output_ptr, actual_size)
-
             # Get actual header info from the compressed message
             # This is mandatory - we need correct dimensions to decode properly
             try:
@@ -189,6 +178,26 @@ class CloudiniDecoder:
             if not header_info or 'width' not in header_info:
                 raise RuntimeError("Header info extraction returned incomplete data (missing 'width')")
 
+            points_size = header_info['width'] * header_info['height'] * header_info['point_step']
+            output_ptr = self.output_ptr
+            if points_size > self.output_size:
+                large_output_ptr = self.allocate(points_size)
+                if large_output_ptr == 0:
+                    raise RuntimeError("Failed to allocate memory for the decoded points")
+                output_ptr = large_output_ptr
+
+            # Write compressed message to WASM memory
+            self.write_bytes(input_ptr, compressed_msg)
+
+            # Convert compressed message to PointCloud2 message
+            actual_size = self.decode_compressed_msg(self.store, input_ptr, len(compressed_msg), output_ptr)
+
+            if actual_size == 0:
+                raise RuntimeError("Failed to convert compressed message to PointCloud2")
+
+            # Read the decoded PointCloud2 DDS message
+            points_msg_data = self.read_bytes(output_ptr, actual_size)
+
             # Parse the PointCloud2 message to extract the point cloud data
             # The PointCloud2 message contains the data field with raw point cloud bytes
             point_cloud = self.extract_data_from_pc2_msg(points_msg_data, header_info)
@@ -197,6 +206,8 @@ class CloudiniDecoder:
 
         finally:
             self.deallocate(input_ptr)
+            if large_output_ptr:
+                self.deallocate(large_output_ptr)
 
     @staticmethod
     def _parse_yaml_value(value: str):
@@ -233,7 +244,8 @@ class CloudiniDecoder:
         """
         # Allocate memory for input and output
         input_ptr = self.allocate(len(compressed_msg))
-        yaml_buffer_size = 4096  # Should be enough for YAML header
+        # a field may need up to 8 times more space than in the binary header
+        yaml_buffer_size = 4096 + 8 * len(compressed_msg)
         yaml_ptr = self.allocate(yaml_buffer_size)
 
         try:
-- 
2.43.0


From f3e1a1f45074bb30e3a1534344c3890abcee3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:19 +0000
Subject: [PATCH 50/58] fix: the Python decoder accepts clouds without points

---
 cloudini_py/cloudini_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 716e6d0..a042e3a 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -192,7 +192,7 @@ class CloudiniDecoder:
             # Convert compressed message to PointCloud2 message
             actual_size = self.decode_compressed_msg(self.store, input_ptr, len(compressed_msg), output_ptr)
 
-            if actual_size == 0:
+            if actual_size == 0 and points_size > 0:
                 raise RuntimeError("Failed to convert compressed message to PointCloud2")
 
             # Read the decoded PointCloud2 DDS message
-- 
2.43.0


From 47c34db8da1e1ff28e20b805565cb286a0c47b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 51/58] fix: the Python decoder checks the allocations for the
 header

Otherwise the header would be written to address 0 of the memory of the WASM module.
---
 cloudini_py/cloudini_decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index a042e3a..5f42509 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -249,6 +249,9 @@ class CloudiniDecoder:
         yaml_ptr = self.allocate(yaml_buffer_size)
 
         try:
+            if input_ptr == 0 or yaml_ptr == 0:
+                raise RuntimeError("Failed to allocate memory for the header")
+
             self.write_bytes(input_ptr, compressed_msg)
 
             # Get header as YAML
-- 
2.43.0


From cf7b430976fb73b20af04b0b730a6b47e288a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:12 +0000
Subject: [PATCH 52/58] fix: the Python decoder checks the allocation of its
 output buffer

Otherwise the points would be written to address 0 of the memory of the WASM module.
---
 cloudini_py/cloudini_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 5f42509..5aa0787 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -124,6 +124,8 @@ class CloudiniDecoder:
 
         self.output_size = 32 * 1024 * 1024  # sufficient in most cases, larger clouds get their own memory
         self.output_ptr = self.allocate(self.output_size)
+        if self.output_ptr == 0:
+            raise RuntimeError("Failed to allocate memory for the decoded points")
 
         print("WASM module loaded successfully!")
 
-- 
2.43.0


From a22a6b9165c1200f59ca504369e4ca16d2afec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:37 +0000
Subject: [PATCH 53/58] fix: pcd_to_cloudini_converter reports failed writes

---
 cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index dfa2710..9208116 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -159,6 +159,10 @@ int main(int argc, char** argv) {
       }
       output_stream.write(reinterpret_cast<const char*>(serialized_cloud.data()), serialized_cloud.size());
       output_stream.close();
+      if (!output_stream) {
+        std::cerr << "Error: Failed to write output file: " << output_file << std::endl;
+        return false;
+      }
       return true;
 
     } catch (const std::exception& e) {
-- 
2.43.0


From 3ccdfab5fa7e1e4eb9dc573d8e5c305cabffa647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:37 +0000
Subject: [PATCH 54/58] fix: cloudini_rosbag_converter reports a failed write
 of metadata.yaml

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 8278759..ad22181 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -70,6 +70,10 @@ void generateMetadataYaml(
   std::filesystem::path output_metadata = output_dir / "metadata.yaml";
   std::ofstream out(output_metadata);
   out << content;
+  out.close();
+  if (!out) {
+    throw std::runtime_error("Error writing metadata file: " + output_metadata.string());
+  }
   std::cout << "Metadata file saved as: " << output_metadata << std::endl;
 }
 
-- 
2.43.0


From 559760c4326d2e72ce16bcea104804091c3b4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:19 +0000
Subject: [PATCH 55/58] fix: a failed copy assignment of RosPointCloud2 leaves
 it unchanged, with a valid data view

---
 .../include/cloudini_lib/ros_msg_utils.hpp        | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp b/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
index 1b83ba7..9cec39c 100644
--- a/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
@@ -94,18 +94,9 @@ struct RosPointCloud2 {
     if (this == &other) {
       return *this;
     }
-    cdr_header = other.cdr_header;
-    ros_header = other.ros_header;
-    height = other.height;
-    width = other.width;
-    fields = other.fields;
-    point_step = other.point_step;
-    row_step = other.row_step;
-    is_bigendian = other.is_bigendian;
-    data = other.data;
-    is_dense = other.is_dense;
-    owned_data = other.owned_data;
-    rebindOwnedDataView(other);
+    // if the copy fails (no memory), *this is unchanged
+    RosPointCloud2 copy(other);
+    *this = std::move(copy);
     return *this;
   }
 
-- 
2.43.0


From 915c2b79df15baf185509b87f98ec594a75eba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:19 +0000
Subject: [PATCH 56/58] fix: ReadEncodingInfoFromPCD reports a failed read of
 the header

---
 cloudini_lib/src/pcl_conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index e322de3..0cec9d2 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -63,6 +63,9 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
       break;
     }
   }
+  if (stream.bad()) {
+    throw std::runtime_error("PCD header parsing error: the header can not be read");
+  }
 
   const size_t num_fields = fields_name.size();
 
-- 
2.43.0


From 76635c2ba662a500bc0ebfa47c295a60a9e72877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:23 +0000
Subject: [PATCH 57/58] fix: McapConverter::open leaves nothing open when it
 fails with an exception

---
 cloudini_lib/tools/src/mcap_converter.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 19e6650..fa1c345 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -35,28 +35,28 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
   input_stream_.clear();
   input_stream_.open(file_in);
   data_source_ = std::make_shared<mcap::FileStreamReader>(input_stream_);
-  reader_ = std::make_shared<mcap::McapReader>();
-  auto res = reader_->open(*data_source_);
+  // reader_ is set only if everything succeeds: nothing is open after an exception
+  auto reader = std::make_shared<mcap::McapReader>();
+  auto res = reader->open(*data_source_);
   if (!res.ok()) {
-    reader_.reset();
     throw std::runtime_error("Error opening MCAP file: " + res.message);
   }
 
   TopicsMap topics;
-  res = reader_->readSummary(mcap::ReadSummaryMethod::AllowFallbackScan);
+  res = reader->readSummary(mcap::ReadSummaryMethod::AllowFallbackScan);
   if (!res.ok()) {
-    reader_.reset();
     throw std::runtime_error("Error reading MCAP sumamry: " + res.message);
   }
 
-  for (const auto& [channel_id, channel_ptr] : reader_->channels()) {
+  for (const auto& [channel_id, channel_ptr] : reader->channels()) {
     // channels may have no schema at all (id 0)
-    const auto& schema_ptr = reader_->schema(channel_ptr->schemaId);
+    const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
     if (schema_ptr && (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name)) {
       topics[channel_ptr->topic] = schema_ptr->name;
     }
   }
   topics_ = topics;
+  reader_ = reader;
   return topics;
 }
 
-- 
2.43.0


From 2c41c4828aa2cd2afe69e5f432e90fd8bb527e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:09 +0000
Subject: [PATCH 58/58] fix: topic converter nodes in one process share a
 message counter without synchronisation

---
 cloudini_ros/src/topic_converter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudini_ros/src/topic_converter.cpp b/cloudini_ros/src/topic_converter.cpp
index a1bec21..a641fe0 100644
--- a/cloudini_ros/src/topic_converter.cpp
+++ b/cloudini_ros/src/topic_converter.cpp
@@ -62,6 +62,7 @@ class CloudiniPointcloudConverter : public rclcpp::Node {
 
   uint64_t tot_original_size = 0;
   uint64_t tot_compressed_size = 0;
+  int converted_count_ = 0;
 };
 //-----------------------------------------------------
 
@@ -186,14 +187,13 @@ void CloudiniPointcloudConverter::callback(std::shared_ptr<rclcpp::SerializedMes
   tot_original_size += input_msg.buffer_length;
   tot_compressed_size += output_raw_message_.size();
 
-  static int count = 0;
-  if (count % 20 == 0) {
+  if (converted_count_ % 20 == 0) {
     double average_ratio = static_cast<double>(tot_compressed_size) / tot_original_size;
     tot_compressed_size = 0;
     tot_original_size = 0;
-    RCLCPP_INFO(this->get_logger(), "Converted %d messages, average compression ratio: %.2f", count, average_ratio);
+    RCLCPP_INFO(this->get_logger(), "Converted %d messages, average compression ratio: %.2f", converted_count_, average_ratio);
   }
-  count++;
+  converted_count_++;
 }
 
 RCLCPP_COMPONENTS_REGISTER_NODE(CloudiniPointcloudConverter)
-- 
2.43.0

