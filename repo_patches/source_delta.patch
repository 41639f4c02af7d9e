From f6fbdb0c7f58358069f54bcf70ff6aaf1e637e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 01/33] fix: report the NAL unit length in length-framed
 bitstreams

ParseBitstreamNALULength() stored the size of the length field (2, 4, ...)
as the length of every NAL unit.
---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 8758315..1f7b125 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -237,7 +237,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From 54b06c8a4714782c54f10b0add8c89e8ae7d6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 02/33] fix: do not wrap around when checking a NALU length
 against the buffer

With 8-byte length fields, i + nalu_length can overflow size_t, and a
huge length passed the check (out-of-bounds read).
---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 1f7b125..afbf66a 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -216,7 +216,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From 14896d9d82bf6d6d972c1e692b4dca2895bd9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 03/33] fix: set the parsing options in bitstreams parsed with
 an external state

fdump() uses BitstreamState::parsing_options_, which only the overloads
that keep their own parser state were setting: the other two dumped with
the default options, including a null checksum when add_checksum was off.
---
 src/h264_bitstream_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index afbf66a..660dc7e 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -130,6 +130,7 @@ H264BitstreamParser::ParseBitstream(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -195,6 +196,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
-- 
2.43.0


From 9ab88357aea4670ad3f5042dc200c59b8f42ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 04/33] fix: keep the use-default flags of the 8x8 scaling
 lists apart

The 8x8 scaling lists overwrote UseDefaultScalingMatrix4x4Flag, and
UseDefaultScalingMatrix8x8Flag was never set.
---
 src/h264_pps_parser.cc | 2 +-
 src/h264_sps_parser.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 9c135cf..9e19c57 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -313,7 +313,7 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
                                     pps->UseDefaultScalingMatrix4x4Flag);
           } else {
             (void)pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+                                    pps->UseDefaultScalingMatrix8x8Flag);
           }
         }
       }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 90cfe3a..1c7c022 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -198,7 +198,7 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
           } else {
             (void)sps_data->scaling_list(
                 bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+                sps_data->UseDefaultScalingMatrix8x8Flag);
           }
         }
       }
-- 
2.43.0


From 2685df4cca0459fcddccdd30ae92506d92730d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 05/33] fix: reject parameter sets with a broken scaling list

The result of scaling_list() was ignored: an SPS or PPS with an invalid
or truncated scaling list was accepted, with everything after the broken
element decoded from the wrong bit position.
---
 src/h264_pps_parser.cc | 12 ++++++++----
 src/h264_sps_parser.cc | 16 ++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 9e19c57..3fc0422 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -309,11 +309,15 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
         if (pps->pic_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
+                                   pps->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                    pps->UseDefaultScalingMatrix8x8Flag);
+            if (!pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
+                                   pps->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 1c7c022..1f8216d 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -192,13 +192,17 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
         if (sps_data->seq_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)sps_data->scaling_list(
-                bit_buffer, i, sps_data->ScalingList4x4, 16,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i, sps_data->ScalingList4x4, 16,
+                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)sps_data->scaling_list(
-                bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                sps_data->UseDefaultScalingMatrix8x8Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
+                    sps_data->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
-- 
2.43.0


From 683f66d02b87d61bcd4b183442564e3275bce1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 06/33] fix: reject a slice extension whose scalable slice
 header is invalid

A slice_layer_extension_rbsp() without slice header was returned, so the
NAL unit counted as parsed (and h264nal exited 0).
---
 src/h264_slice_layer_extension_rbsp_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_slice_layer_extension_rbsp_parser.cc b/src/h264_slice_layer_extension_rbsp_parser.cc
index 1b53d6c..3407801 100644
--- a/src/h264_slice_layer_extension_rbsp_parser.cc
+++ b/src/h264_slice_layer_extension_rbsp_parser.cc
@@ -61,6 +61,10 @@ H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(
         H264SliceHeaderInScalableExtensionParser::
             ParseSliceHeaderInScalableExtension(bit_buffer, nal_unit_header,
                                                 bitstream_parser_state);
+    if (slice_layer_extension_rbsp->slice_header_in_scalable_extension ==
+        nullptr) {
+      return nullptr;
+    }
     // if (!slice_skip_flag) {
     //   slice_data_in_scalable_extension()  // specified in Annex G
     // }
-- 
2.43.0


From 092ba2bcf8f123aff3841bd1cb4d8acb9f29fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 07/33] fix: use the NALU sizes to split a STAP-A packet

The parser started looking for the next NALU size wherever the parser of
the previous NAL unit had stopped reading, so any NAL unit whose payload
is not read to its last byte (slices, SEI, AUD) broke the packet. The
packet was also unescaped as a whole, before using the sizes.
---
 src/h264_rtp_parser.cc       |  5 +++++
 src/h264_rtp_stapa_parser.cc | 27 +++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 8fc684f..9e915dc 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -24,6 +24,11 @@ namespace h264nal {
 std::unique_ptr<H264RtpParser::RtpState> H264RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
+  if (length > 0 && (data[0] & 0x1f) == RTP_STAPA_NUT) {
+    // the NAL units in an aggregation packet are unescaped one by one
+    BitBuffer bit_buffer(data, length);
+    return ParseRtp(&bit_buffer, bitstream_parser_state);
+  }
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
diff --git a/src/h264_rtp_stapa_parser.cc b/src/h264_rtp_stapa_parser.cc
index 257c01f..fdc7115 100644
--- a/src/h264_rtp_stapa_parser.cc
+++ b/src/h264_rtp_stapa_parser.cc
@@ -26,8 +26,9 @@ std::unique_ptr<H264RtpStapAParser::RtpStapAState>
 H264RtpStapAParser::ParseRtpStapA(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  // do not unescape the whole packet: the NALU sizes count the bytes in the
+  // packet, so each NAL unit is unescaped on its own
+  BitBuffer bit_buffer(data, length);
   return ParseRtpStapA(&bit_buffer, bitstream_parser_state);
 }
 
@@ -63,9 +64,27 @@ H264RtpStapAParser::ParseRtpStapA(
     }
     rtp_stapa->nal_unit_sizes.push_back(nalu_size);
 
+    // extract the NALU, so that it cannot be parsed past its end, and so
+    // that the next one starts right after it
+    size_t nalu_length = nalu_size;
+    if (bit_buffer->RemainingBitCount() / 8 == nalu_length + 1) {
+      // a single trailing byte cannot hold another NALU size, so it can only
+      // belong to this (the last) NALU
+      nalu_length += 1;
+    }
+    std::vector<uint8_t> nalu_data(nalu_length);
+    for (uint8_t& byte : nalu_data) {
+      if (!bit_buffer->ReadUInt8(byte)) {
+        return nullptr;
+      }
+    }
+    std::vector<uint8_t> unpacked_buffer =
+        UnescapeRbsp(nalu_data.data(), nalu_data.size());
+    BitBuffer nalu_bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+
     // NALU header
     rtp_stapa->nal_unit_headers.push_back(
-        H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H264NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_stapa->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -76,7 +95,7 @@ H264RtpStapAParser::ParseRtpStapA(
     // NALU payload
     rtp_stapa->nal_unit_payloads.push_back(
         H264NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
+            &nalu_bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
             bitstream_parser_state));
     if (rtp_stapa->nal_unit_payloads.back() == nullptr) {
       return nullptr;
-- 
2.43.0


From 7d464d48f3125d4e1331c4810f4e0542f7967c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 08/33] fix: parse the PPS with the chroma_format_idc of its
 SPS

PPS NAL units were always parsed as if the video was 4:2:0. In a 4:4:4
stream, a PPS with transform_8x8_mode_flag and a scaling matrix carries
12 scaling lists instead of 8, and everything after the 8th was misread.
---
 src/h264_nal_unit_payload_parser.cc | 37 +++++++++++++++++------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/h264_nal_unit_payload_parser.cc b/src/h264_nal_unit_payload_parser.cc
index 2db5073..f4c78c8 100644
--- a/src/h264_nal_unit_payload_parser.cc
+++ b/src/h264_nal_unit_payload_parser.cc
@@ -101,22 +101,29 @@ H264NalUnitPayloadParser::ParseNalUnitPayload(
     }
     case PPS_NUT: {
       // pic_parameter_set_rbsp()
-      // TODO(chemag): Fix this
-      // This is a big pita in the h264 standard. The dependency on
-      // this field (`chroma_format_idc`, defined in the SPS) forces the
-      // parser to pass the full SPS map to the PPS parser: This would
-      // allow the PPS parser to first read the `seq_parameter_set_id`
-      // field, and then uses it with the SPS map to get the right
-      // `chroma_format_idc` value tp use.
-      // Unfortunately the SPS map is part of the BitstreamParserState,
-      // which itself depends on the PPS. This creates a circular
-      // dependency.
-      // A better solution would be to pass the SPS map to the PPS
-      // parser. This increases significantly the complexity of the
-      // parser, and the usage of the `chroma_format_idc` field
-      // For now, let's use the most common value, which corresponds
-      // to 4:2:0 subsampling.
+      // The PPS syntax depends on `chroma_format_idc`, which is a field of
+      // the SPS the PPS refers to. Peek the `seq_parameter_set_id` field to
+      // find that SPS (or subset SPS). If it is not known (yet), use the
+      // most common value, which corresponds to 4:2:0 subsampling.
       uint32_t chroma_format_idc = 1;
+      size_t byte_offset = 0;
+      size_t bit_offset = 0;
+      bit_buffer->GetCurrentOffset(&byte_offset, &bit_offset);
+      uint32_t pic_parameter_set_id = 0;
+      uint32_t seq_parameter_set_id = 0;
+      if (bit_buffer->ReadExponentialGolomb(pic_parameter_set_id) &&
+          bit_buffer->ReadExponentialGolomb(seq_parameter_set_id)) {
+        auto sps = bitstream_parser_state->GetSps(seq_parameter_set_id);
+        auto subset_sps =
+            bitstream_parser_state->GetSubsetSps(seq_parameter_set_id);
+        if (sps != nullptr) {
+          chroma_format_idc = sps->sps_data->chroma_format_idc;
+        } else if (subset_sps != nullptr) {
+          chroma_format_idc =
+              subset_sps->seq_parameter_set_data->chroma_format_idc;
+        }
+      }
+      bit_buffer->Seek(byte_offset, bit_offset);
       nal_unit_payload->pps =
           H264PpsParser::ParsePps(bit_buffer, chroma_format_idc);
       if (nal_unit_payload->pps != nullptr) {
-- 
2.43.0


From 4627359816b2e33b536969bbfa809b80a61b74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 09/33] fix: do not take trailing zero bytes for RBSP data

more_rbsp_data() returned true whenever there was more than one byte
left. Zero bytes after the rbsp_trailing_bits() (trailing_zero_8bits in
the byte stream, cabac_zero_words) made the PPS parser read the optional
fields from them.
---
 src/h264_common.cc | 49 +++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/h264_common.cc b/src/h264_common.cc
index 0cd4c46..1fe45c5 100644
--- a/src/h264_common.cc
+++ b/src/h264_common.cc
@@ -285,38 +285,29 @@ bool more_rbsp_data(BitBuffer* bit_buffer) {
   // > in the RBSP is specified by the application (or in Annex B for
   // > applications that use the byte stream format).
 
-  // Here we do the following simplification:
-  // (1) We know that rbsp_trailing_bits() is limited to at most 1 byte. Its
-  // definition is:
-  // > rbsp_trailing_bits() {
-  // >   rbsp_stop_one_bit // equal to 1
-  // >   while( !byte_aligned() )
-  // >     rbsp_alignment_zero_bit // equal to 0
-  // >   }
-  // where byte_aligned() is a Bool stating whether the position of the
-  // bitstream is in a byte boundary. So, if there is more than 1 byte
-  // left (8 bits left), clearly "there is more data in the RBSP before the
-  // rbsp_trailing_bits()"
-  if (remaining_bitcount > 8) {
-    return true;
-  }
+  // Whatever comes after the rbsp_stop_one_bit is zero: not only the
+  // rbsp_alignment_zero_bit's, but also the zero bytes that may follow the
+  // RBSP (cabac_zero_word, trailing_zero_8bits). So there is no more data
+  // if the remaining bits are a one followed only by zeroes.
+  size_t byte_offset = 0;
+  size_t bit_offset = 0;
+  bit_buffer->GetCurrentOffset(&byte_offset, &bit_offset);
 
-  // (2) if we are indeed in the last byte, we just need to know whether the
-  // rest of the byte is [1, 0, ..., 0]. For that, we want to peek in the
-  // bit buffer (not read).
-  // So we first read (peek) the remaining bits.
-  uint32_t remaining_bits;
-  if (!bit_buffer->PeekBits(remaining_bitcount, remaining_bits)) {
-    // this should not happen: we do not have remaining_bits bits left.
-    return false;
+  uint32_t bits = 0;
+  bit_buffer->ReadBits(1, bits);
+  bool more_data = (bits == 0);
+  while (!more_data && bit_buffer->RemainingBitCount() > 0) {
+    remaining_bitcount = bit_buffer->RemainingBitCount();
+    bit_buffer->ReadBits(
+        static_cast<size_t>(remaining_bitcount > 32 ? 32 : remaining_bitcount),
+        bits);
+    more_data = (bits != 0);
   }
-  // and then check for the actual values to be 100..000
-  bool is_rbsp_trailing_bits =
-      (remaining_bits == (unsigned int)(1 << (remaining_bitcount - 1)));
 
-  // if the actual values to be 100..000, we are already at the
-  // rbsp_trailing_bits, which means there is no more RBSP data
-  return !is_rbsp_trailing_bits;
+  // return the bit buffer to the original state
+  bit_buffer->Seek(byte_offset, bit_offset);
+
+  return more_data;
 }
 
 bool rbsp_trailing_bits(BitBuffer* bit_buffer) {
-- 
2.43.0


From e4f65e123b1975cb8cb17e32d2ce11c279b65808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 10/33] fix: read the extension data of prefix NAL units where
 the standard has it

Section G.7.3.2.12.1: the second more_rbsp_data() is the else of the
nal_ref_idc condition, and rbsp_trailing_bits() always follows the
extension flag.
---
 src/h264_prefix_nal_unit_parser.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 11c3d79..9541eaa 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -78,19 +78,19 @@ H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(
           return nullptr;
         }
       }
-      rbsp_trailing_bits(bit_buffer);
-
-    } else if (more_rbsp_data(bit_buffer)) {
-      while (more_rbsp_data(bit_buffer)) {
-        // additional_prefix_nal_unit_extension_data_flag  u(1)
-        if (!bit_buffer->ReadBits(
-                1, prefix_nal_unit_svc
-                       ->additional_prefix_nal_unit_extension_data_flag)) {
-          return nullptr;
-        }
+    }
+    rbsp_trailing_bits(bit_buffer);
+
+  } else if (more_rbsp_data(bit_buffer)) {
+    while (more_rbsp_data(bit_buffer)) {
+      // additional_prefix_nal_unit_extension_data_flag  u(1)
+      if (!bit_buffer->ReadBits(
+              1, prefix_nal_unit_svc
+                     ->additional_prefix_nal_unit_extension_data_flag)) {
+        return nullptr;
       }
-      rbsp_trailing_bits(bit_buffer);
     }
+    rbsp_trailing_bits(bit_buffer);
   }
 
   return prefix_nal_unit_svc;
-- 
2.43.0


From 39fa8a0daec36eadc40edf94e8ea07d6f79a0e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 11/33] fix: dump the parsed fields that were missing from the
 dump

cpb_size_scale (HRD parameters) and
additional_prefix_nal_unit_extension_flag (prefix NAL unit).
---
 src/h264_hrd_parameters_parser.cc  | 3 +++
 src/h264_prefix_nal_unit_parser.cc | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/h264_hrd_parameters_parser.cc b/src/h264_hrd_parameters_parser.cc
index 28f4737..76d5e58 100644
--- a/src/h264_hrd_parameters_parser.cc
+++ b/src/h264_hrd_parameters_parser.cc
@@ -123,6 +123,9 @@ void H264HrdParametersParser::HrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_scale: %u", bit_rate_scale);
 
+  fdump_indent_level(outfp, indent_level);
+  fprintf(outfp, "cpb_size_scale: %u", cpb_size_scale);
+
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 9541eaa..1021812 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -152,6 +152,10 @@ void H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState::fdump(
       // dec_ref_base_pic_marking()
     }
 
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "additional_prefix_nal_unit_extension_flag: %u",
+            additional_prefix_nal_unit_extension_flag);
+
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "additional_prefix_nal_unit_extension_data_flag: %u",
             additional_prefix_nal_unit_extension_data_flag);
-- 
2.43.0


From ff1a04aa5ba4660242ee8c6f3d025965736068b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 12/33] fix: use the PPS default number of references in
 scalable slice headers

Without num_ref_idx_active_override_flag, the number of entries in the
pred_weight_table() was taken to be 1, as slice_header() does not.
---
 src/h264_slice_header_in_scalable_extension_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index 58e3c17..ca9b899 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -341,6 +341,12 @@ H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(
             return nullptr;
           }
         }
+      } else {
+        // use the default values from the PPS
+        shise->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        shise->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
       }
     }
 
-- 
2.43.0


From d2bdf0ac9af62e8e23f98f51fd59e22f459bf35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:38 +0000
Subject: [PATCH 13/33] fix: dump signed syntax elements as signed values

---
 ...ice_header_in_scalable_extension_parser.cc | 20 +++++++++----------
 src/h264_slice_header_parser.cc               |  4 ++--
 src/h264_sps_svc_extension_parser.cc          |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index ca9b899..c2dc9a2 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -769,7 +769,7 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (bottom_field_pic_order_in_frame_present_flag && !field_pic_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "delta_pic_order_cnt_bottom: %u",
+      fprintf(outfp, "delta_pic_order_cnt_bottom: %i",
               delta_pic_order_cnt_bottom);
     }
   }
@@ -858,7 +858,7 @@ void H264SliceHeaderInScalableExtensionParser::
   }
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "slice_qp_delta: %u", slice_qp_delta);
+  fprintf(outfp, "slice_qp_delta: %i", slice_qp_delta);
 
   if (deblocking_filter_control_present_flag) {
     fdump_indent_level(outfp, indent_level);
@@ -867,11 +867,11 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
@@ -892,10 +892,10 @@ void H264SliceHeaderInScalableExtensionParser::
 
       if (disable_inter_layer_deblocking_filter_idc != 1) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %i",
                 inter_layer_slice_alpha_c0_offset_div2);
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %i",
                 inter_layer_slice_beta_offset_div2);
       }
     }
@@ -915,16 +915,16 @@ void H264SliceHeaderInScalableExtensionParser::
       }
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_left_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_left_offset: %i",
               scaled_ref_layer_left_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_top_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_top_offset: %i",
               scaled_ref_layer_top_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_right_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_right_offset: %i",
               scaled_ref_layer_right_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_bottom_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_bottom_offset: %i",
               scaled_ref_layer_bottom_offset);
     }
   }
diff --git a/src/h264_slice_header_parser.cc b/src/h264_slice_header_parser.cc
index 9055bd5..1ad5e4b 100644
--- a/src/h264_slice_header_parser.cc
+++ b/src/h264_slice_header_parser.cc
@@ -694,11 +694,11 @@ void H264SliceHeaderParser::SliceHeaderState::fdump(FILE* outfp,
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
diff --git a/src/h264_sps_svc_extension_parser.cc b/src/h264_sps_svc_extension_parser.cc
index a126e96..0d9197e 100644
--- a/src/h264_sps_svc_extension_parser.cc
+++ b/src/h264_sps_svc_extension_parser.cc
@@ -166,19 +166,19 @@ void H264SpsSvcExtensionParser::SpsSvcExtensionState::fdump(
     }
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %i",
             seq_scaled_ref_layer_left_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %i",
             seq_scaled_ref_layer_top_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %i",
             seq_scaled_ref_layer_right_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %i",
             seq_scaled_ref_layer_bottom_offset);
   }
 
-- 
2.43.0


From 47e10f6f8a02a838e2c8941f4a7d8dc3083b3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:58 +0000
Subject: [PATCH 14/33] fix: accept the documented --nalu-length-bytes -1

---
 tools/h264nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 5370fa5..af85ede 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -305,7 +305,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From 13fcd4e8250e0a7fa67eff10c745a749ed0f62d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:58 +0000
Subject: [PATCH 15/33] fix: do not dump unset NAL unit fields

---
 include/h264_nal_unit_parser.h | 6 +++---
 src/h264_nal_unit_parser.cc    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/h264_nal_unit_parser.h b/include/h264_nal_unit_parser.h
index 9730fe1..bb1868f 100644
--- a/include/h264_nal_unit_parser.h
+++ b/include/h264_nal_unit_parser.h
@@ -36,11 +36,11 @@ class H264NalUnitParser {
 #endif  // FDUMP_DEFINE
 
     // NAL Unit offset in the full blob
-    size_t offset;
+    size_t offset = 0;
     // NAL Unit length
-    size_t length;
+    size_t length = 0;
     // NAL Unit parsed length
-    size_t parsed_length;
+    size_t parsed_length = 0;
     // NAL Unit checksum
     std::shared_ptr<NaluChecksum> checksum;
 
diff --git a/src/h264_nal_unit_parser.cc b/src/h264_nal_unit_parser.cc
index 1c5abb5..87021e3 100644
--- a/src/h264_nal_unit_parser.cc
+++ b/src/h264_nal_unit_parser.cc
@@ -113,7 +113,7 @@ void H264NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From d77c61dc62271133c54a26ae464c39d7500e3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:26 +0000
Subject: [PATCH 16/33] fix: read and write non-symmetric codes at both ends of
 their range

---
 src/rtc_common.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 2cff42a..067f167 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -217,7 +217,15 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  // num_values may be 1 << 31, which needs all the 32 bits
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
+
+  if (count_bits == 1) {
+    // a single value takes no bits
+    val = 0;
+    return true;
+  }
 
   if (!ReadBits(count_bits - 1, val)) {
     return false;
@@ -324,6 +332,10 @@ bool BitBufferWriter::WriteBits(uint64_t val, size_t bit_count) {
   if (bit_count > RemainingBitCount()) {
     return false;
   }
+  if (bit_count == 0) {
+    // nothing to write
+    return true;
+  }
   size_t total_bits = bit_count;
 
   // For simplicity, push the bits we want to read from val to the highest bits.
@@ -369,7 +381,9 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  // num_values may be 1 << 31, which needs all the 32 bits
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -381,7 +395,9 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  // num_values may be 1 << 31, which needs all the 32 bits
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From 41c61d3c2fab50eecd0007f8dececac864b88d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:06 +0000
Subject: [PATCH 17/33] fix: h264nal-split took the sample aspect ratio for the
 resolution

The regex for width/height also matched sar_width/sar_height, which come
first in the dump of an SPS with an extended SAR, so resolution changes
were missed (or seen where there were none).
---
 tools/h264nal-split.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-split.py b/tools/h264nal-split.py
index ba4c9d8..c7d55cb 100755
--- a/tools/h264nal-split.py
+++ b/tools/h264nal-split.py
@@ -64,8 +64,9 @@ def parse_nal_units(content):
         if type_m:
             nal["nal_unit_type"] = int(type_m.group(1))
 
-        width_m = re.search(r"width: (\d+)", nal_text)
-        height_m = re.search(r"height: (\d+)", nal_text)
+        # \b: do not match sar_width/sar_height in the VUI
+        width_m = re.search(r"\bwidth: (\d+)", nal_text)
+        height_m = re.search(r"\bheight: (\d+)", nal_text)
         if width_m and height_m:
             nal["width"] = int(width_m.group(1))
             nal["height"] = int(height_m.group(1))
-- 
2.43.0


From eae74cb828f2042209fdf88142a539a44df2a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:06 +0000
Subject: [PATCH 18/33] fix: reading a directory as the input file aborted

fopen() works on a directory, and ftell() reports a size near INT64_MAX,
so the buffer allocation threw. Report the failed read instead.
---
 src/h264_utils.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/h264_utils.cc b/src/h264_utils.cc
index 1f0beee..8a1aaaa 100644
--- a/src/h264_utils.cc
+++ b/src/h264_utils.cc
@@ -51,10 +51,17 @@ int H264Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     return -1;
   }
   fseek(infp, 0, SEEK_SET);
-  // read file into buffer
-  buffer.resize(static_cast<size_t>(size));
-  size_t bytes_read = fread(reinterpret_cast<char*>(buffer.data()), 1,
-                            static_cast<size_t>(size), infp);
+  // read file into buffer. Grow it as the data comes in: the size reported for
+  // something that is not a regular file (a directory) means nothing.
+  constexpr size_t chunk_size = 65536;
+  std::vector<uint8_t> temp(chunk_size);
+  size_t bytes_read = 0;
+  size_t chunk = 0;
+  buffer.clear();
+  while ((chunk = fread(temp.data(), 1, chunk_size, infp)) > 0) {
+    buffer.insert(buffer.end(), temp.data(), temp.data() + chunk);
+    bytes_read += chunk;
+  }
   // clean up
   fclose(infp);
   if (bytes_read != static_cast<size_t>(size)) {
-- 
2.43.0


From 9fdbb334545f79b72db47c5f49647fdc664264b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:24 +0000
Subject: [PATCH 19/33] fix: the tool reported success when its output could
 not be written

A full disk left a cut-short dump and exit status 0.
---
 tools/h264nal.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index af85ede..ab7ebde 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -558,8 +558,14 @@ int main(int argc, char** argv) {
 #endif  // FDUMP_DEFINE
 
   // clean-up FD
-  if (must_close_fp) {
-    fclose(outfp);
+  bool write_error = fflush(outfp) != 0 || ferror(outfp) != 0;
+  if (must_close_fp && fclose(outfp) != 0) {
+    write_error = true;
+  }
+  if (write_error) {
+    fprintf(stderr, "Could not write output file: \"%s\"\n",
+            must_close_fp ? options.outfile : "stdout");
+    return -1;
   }
 
   // 5. report how the parse went
-- 
2.43.0


From ea1d14ee133ab17f33789dae9b7d1c5ba4fdff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:22 +0000
Subject: [PATCH 20/33] fix: dpb_parse: handle slice_type 5 to 9 and SP slices

---
 tools/h264nal-dpb_parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 77daa00..104e0aa 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -147,7 +147,8 @@ def parse_frames(content):
 
 
 def slice_type_str(st):
-    return {0: "P", 1: "B", 2: "I", 3: "SP", 4: "SI"}.get(st, f"?{st}")
+    # slice_type 5 to 9 mean the same as 0 to 4 (Table 7-6)
+    return {0: "P", 1: "B", 2: "I", 3: "SP", 4: "SI"}.get(st % 5, f"?{st}")
 
 
 def frame_type_str(frame):
@@ -302,7 +303,7 @@ def simulate_dpb(sps, frames, outfile):
 
         dpb_before = dpb_str(dpb)
 
-        if frame["slice_type"] in (0, 1) and dpb:
+        if frame["slice_type"] % 5 in (0, 1, 3) and dpb:
             ref_list = build_ref_pic_list0(dpb, frame)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
-- 
2.43.0


From 1abb25b81453e6b33a8bc4843f4dff07b867ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:27 +0000
Subject: [PATCH 21/33] fix: dpb_parse: keep the current picture after memory
 management operations

---
 tools/h264nal-dpb_parse.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 104e0aa..e8286d4 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -394,6 +394,18 @@ def simulate_dpb(sps, frames, outfile):
                         }
                     )
                 i += 1
+            # the current picture is a short-term reference unless it was
+            # marked as long-term (Section 8.2.5.1), and it counts as having
+            # had frame_num 0 after MMCO5 (Section 7.4.3)
+            if 6 not in ops:
+                dpb.append(
+                    {
+                        "frame_num": 0 if 5 in ops else frame["frame_num"],
+                        "is_ltr": False,
+                        "ltr_idx": -1,
+                        "abs_frame": abs_frame,
+                    }
+                )
         elif frame["is_ref"]:
             dpb.append(
                 {
-- 
2.43.0


From ed523753771d2a54b4a2c1d4851d45538cd1fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:27 +0000
Subject: [PATCH 22/33] fix: dpb_parse: MMCO2 did not remove the long-term
 picture

---
 tools/h264nal-dpb_parse.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index e8286d4..b16908f 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -98,6 +98,12 @@ def parse_frames(content):
                 r"memory_management_control_operation \{ ([^}]*)\}", nal_text
             )
             diff_m = re.search(r"difference_of_pic_nums_minus1 \{ ([^}]*)\}", nal_text)
+            # the reference list modification may dump a list of this name too
+            ltpn_m = re.search(
+                r"dec_ref_pic_marking \{.*long_term_pic_num \{ ([^}]*)\}",
+                nal_text,
+                re.DOTALL,
+            )
             ltfi_m = re.search(r"long_term_frame_idx \{ ([^}]*)\}", nal_text)
             mltfi_m = re.search(r"max_long_term_frame_idx_plus1 \{ ([^}]*)\}", nal_text)
             frame["mmco"] = [int(x) for x in mmco_m.group(1).split()] if mmco_m else []
@@ -106,6 +112,9 @@ def parse_frames(content):
                 if diff_m and diff_m.group(1).strip()
                 else []
             )
+            frame["long_term_pic_num"] = (
+                [int(x) for x in ltpn_m.group(1).split()] if ltpn_m else []
+            )
             frame["long_term_frame_idx"] = (
                 [int(x) for x in ltfi_m.group(1).split()]
                 if ltfi_m and ltfi_m.group(1).strip()
@@ -336,6 +345,7 @@ def simulate_dpb(sps, frames, outfile):
                 )
         elif frame["mmco"]:
             diff_idx = 0
+            ltpn_idx = 0
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
@@ -354,7 +364,13 @@ def simulate_dpb(sps, frames, outfile):
                         if not (not e["is_ltr"] and e["frame_num"] == pic_num_to_remove)
                     ]
                 elif op == 2:
-                    pass
+                    lt_pic_num = frame["long_term_pic_num"][ltpn_idx]
+                    ltpn_idx += 1
+                    dpb = [
+                        e
+                        for e in dpb
+                        if not (e["is_ltr"] and e["ltr_idx"] == lt_pic_num)
+                    ]
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-- 
2.43.0


From 1b409060ceea4e5e910d5e800b36c20e0d4c1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:40 +0000
Subject: [PATCH 23/33] fix: dpb_parse: a picture may be put in the reference
 list more than once

---
 tools/h264nal-dpb_parse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index b16908f..347d3f7 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -192,6 +192,12 @@ def build_ref_pic_list0(dpb, frame):
     return strs + ltrs
 
 
+def move_to(ref_list, entry, ref_idx):
+    """Put a picture at ref_idx, dropping later copies (Section 8.2.4.3)."""
+    rest = [e for e in ref_list[ref_idx:] if e is not entry]
+    return ref_list[:ref_idx] + [entry] + rest
+
+
 def apply_rplm(ref_list, frame, max_frame_num):
     if not frame.get("rplm_l0"):
         return ref_list
@@ -223,8 +229,7 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                ref_list = move_to(ref_list, ref_list[found], ref_idx)
                 ref_idx += 1
         elif idc == 2:
             lt_num = lt_pic_nums[lt_idx]
@@ -235,8 +240,7 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                ref_list = move_to(ref_list, ref_list[found], ref_idx)
                 ref_idx += 1
 
     return ref_list
-- 
2.43.0


From 04bb03ff33bacb175baa3ece2eb57f419eb5dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:40 +0000
Subject: [PATCH 24/33] fix: dpb_parse: the sliding window keeps one frame, and
 ends with long-term frames only

---
 tools/h264nal-dpb_parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 347d3f7..05df0e5 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -437,7 +437,8 @@ def simulate_dpb(sps, frames, outfile):
             )
             str_count = sum(1 for e in dpb if not e["is_ltr"])
             ltr_count = sum(1 for e in dpb if e["is_ltr"])
-            while str_count + ltr_count > max_num_ref_frames:
+            # Section 8.2.5.3: at least one reference frame is kept
+            while str_count > 0 and str_count + ltr_count > max(max_num_ref_frames, 1):
                 for j, e in enumerate(dpb):
                     if not e["is_ltr"]:
                         dpb.pop(j)
-- 
2.43.0


From f7cd19953ffee7274662154138d5bca8f4151b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:40 +0000
Subject: [PATCH 25/33] fix: dpb_parse: MMCO3 releases the frame that had the
 long-term index

---
 tools/h264nal-dpb_parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 05df0e5..e737ac4 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -381,6 +381,9 @@ def simulate_dpb(sps, frames, outfile):
                     pic_num = frame["frame_num"] - (diff + 1)
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == ltf_idx)
+                    ]
                     for e in dpb:
                         if not e["is_ltr"] and e["frame_num"] == pic_num:
                             e["is_ltr"] = True
-- 
2.43.0


From e3242d6d4511032780a0c591b80a4b564b13b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:40 +0000
Subject: [PATCH 26/33] fix: dpb_parse: take frame_num wrapping around into
 account

---
 tools/h264nal-dpb_parse.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index e737ac4..bf3cdac 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -179,10 +179,13 @@ def dpb_str(dpb):
     return ";".join(entry_str(e) for e in dpb)
 
 
-def build_ref_pic_list0(dpb, frame):
+def build_ref_pic_list0(dpb, frame, max_frame_num):
+    # in the order of FrameNumWrap (Section 8.2.4.1): frame_num values above
+    # the current one are from before it wrapped around
     strs = sorted(
         [e for e in dpb if not e["is_ltr"]],
-        key=lambda e: e["frame_num"],
+        key=lambda e: e["frame_num"]
+        - (max_frame_num if e["frame_num"] > frame["frame_num"] else 0),
         reverse=True,
     )
     ltrs = sorted(
@@ -251,7 +254,7 @@ def refs_used_str(ref_list, num_active):
     return ";".join(entry_str(e) for e in active)
 
 
-def mmco_str(frame):
+def mmco_str(frame, max_frame_num):
     if frame.get("is_idr"):
         if frame.get("long_term_reference_flag", 0):
             return "IDR:LTR[0]"
@@ -271,14 +274,14 @@ def mmco_str(frame):
         elif op == 1:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             parts.append(f"MMCO1:rm_STR(fn={pic_num})")
         elif op == 2:
             parts.append("MMCO2:rm_LTR")
         elif op == 3:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             ltf = frame["long_term_frame_idx"][ltfi_idx]
             ltfi_idx += 1
             parts.append(f"MMCO3:STR(fn={pic_num})->LTR[{ltf}]")
@@ -317,7 +320,7 @@ def simulate_dpb(sps, frames, outfile):
         dpb_before = dpb_str(dpb)
 
         if frame["slice_type"] % 5 in (0, 1, 3) and dpb:
-            ref_list = build_ref_pic_list0(dpb, frame)
+            ref_list = build_ref_pic_list0(dpb, frame, max_frame_num)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
             refs = refs_used_str(ref_list, num_active)
@@ -326,7 +329,7 @@ def simulate_dpb(sps, frames, outfile):
 
         ft = frame_type_str(frame)
         ref_mark = "Y" if frame["is_ref"] else "N"
-        mmco = mmco_str(frame)
+        mmco = mmco_str(frame, max_frame_num)
 
         if frame["is_idr"]:
             if frame.get("long_term_reference_flag", 0):
@@ -361,7 +364,9 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 1:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num_to_remove = frame["frame_num"] - (diff + 1)
+                    pic_num_to_remove = (
+                        frame["frame_num"] - (diff + 1)
+                    ) % max_frame_num
                     dpb = [
                         e
                         for e in dpb
@@ -378,7 +383,7 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num = frame["frame_num"] - (diff + 1)
+                    pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
                     dpb = [
-- 
2.43.0


From 22d3f77bcdeb6799d1a0bd54be088483abea8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:19 +0000
Subject: [PATCH 27/33] fix: dpb_parse: use the parameter sets each picture
 refers to

---
 tools/h264nal-dpb_parse.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index bf3cdac..1088868 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -27,10 +27,16 @@ def run_h264nal(input_path, h264nal_path):
     return result.stdout
 
 
+def get_id(nal_text, name):
+    return int(re.search(rf"\b{name}: (\d+)", nal_text).group(1))
+
+
 def parse_frames(content):
     nal_units = re.split(r"^nal_unit \{", content, flags=re.MULTILINE)
     sps = {}
-    pps = {}
+    # parameter sets by id: a picture uses the ones it refers to
+    sps_by_id = {}
+    pps_by_id = {}
     frames = []
 
     for nal_text in nal_units[1:]:
@@ -40,6 +46,8 @@ def parse_frames(content):
         nal_type = int(nal_type_m.group(1))
 
         if nal_type == 7:
+            sps = {}
+            sps_by_id[get_id(nal_text, "seq_parameter_set_id")] = sps
             sps["log2_max_frame_num_minus4"] = int(
                 re.search(r"log2_max_frame_num_minus4: (\d+)", nal_text).group(1)
             )
@@ -52,6 +60,8 @@ def parse_frames(content):
             continue
 
         if nal_type == 8:
+            pps = {"sps_id": get_id(nal_text, "seq_parameter_set_id")}
+            pps_by_id[get_id(nal_text, "pic_parameter_set_id")] = pps
             pps["num_ref_idx_l0_default_active_minus1"] = int(
                 re.search(
                     r"num_ref_idx_l0_default_active_minus1: (\d+)", nal_text
@@ -66,6 +76,7 @@ def parse_frames(content):
         if not first_mb_m or int(first_mb_m.group(1)) != 0:
             continue
 
+        pps = pps_by_id[get_id(nal_text, "pic_parameter_set_id")]
         slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1))
         frame_num = int(re.search(r"frame_num: (\d+)", nal_text).group(1))
         nal_ref_idc = int(re.search(r"nal_ref_idc: (\d+)", nal_text).group(1))
@@ -77,6 +88,7 @@ def parse_frames(content):
             "nal_ref_idc": nal_ref_idc,
             "is_idr": nal_type == 5,
             "is_ref": nal_ref_idc > 0,
+            "sps": sps_by_id[pps["sps_id"]],
         }
 
         override_m = re.search(r"num_ref_idx_active_override_flag: (\d+)", nal_text)
@@ -85,7 +97,7 @@ def parse_frames(content):
             frame["num_ref_idx_l0_active"] = int(l0_m.group(1)) + 1
         else:
             frame["num_ref_idx_l0_active"] = (
-                pps.get("num_ref_idx_l0_default_active_minus1", 0) + 1
+                pps["num_ref_idx_l0_default_active_minus1"] + 1
             )
 
         if nal_type == 5:
@@ -298,10 +310,7 @@ def mmco_str(frame, max_frame_num):
     return ";".join(parts)
 
 
-def simulate_dpb(sps, frames, outfile):
-    max_frame_num = 1 << (sps["log2_max_frame_num_minus4"] + 4)
-    max_num_ref_frames = sps["max_num_ref_frames"]
-
+def simulate_dpb(frames, outfile):
     dpb = []
     gop_num = 0
     gop_frame = 0
@@ -312,6 +321,9 @@ def simulate_dpb(sps, frames, outfile):
     )
 
     for abs_frame, frame in enumerate(frames):
+        max_frame_num = 1 << (frame["sps"]["log2_max_frame_num_minus4"] + 4)
+        max_num_ref_frames = frame["sps"]["max_num_ref_frames"]
+
         if frame["is_idr"]:
             dpb = []
             gop_num += 1 if abs_frame > 0 else 0
@@ -516,10 +528,10 @@ def main():
 
     if args.output:
         with open(args.output, "w") as f:
-            simulate_dpb(sps, frames, f)
+            simulate_dpb(frames, f)
         print(f"Wrote {args.output}", file=sys.stderr)
     else:
-        simulate_dpb(sps, frames, sys.stdout)
+        simulate_dpb(frames, sys.stdout)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From dc2fc93c700fb455cf8738e94430a5a98e689f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:56 +0000
Subject: [PATCH 28/33] fix: the tool did not build in the small footprint
 configuration

---
 tools/h264nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index ab7ebde..3e4acb0 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -555,7 +555,6 @@ int main(int argc, char** argv) {
       }
     }
   }
-#endif  // FDUMP_DEFINE
 
   // clean-up FD
   bool write_error = fflush(outfp) != 0 || ferror(outfp) != 0;
@@ -567,6 +566,7 @@ int main(int argc, char** argv) {
             must_close_fp ? options.outfile : "stdout");
     return -1;
   }
+#endif  // FDUMP_DEFINE
 
   // 5. report how the parse went
   //   kExitOk: every NAL unit parsed
-- 
2.43.0


From 7d1683ecfb38bbff33814152973e28c90fc4fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:40 +0000
Subject: [PATCH 29/33] fix: do not move the position when a non-symmetric read
 fails

---
 src/rtc_common.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 067f167..ddfc32a 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -227,6 +227,11 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
     return true;
   }
 
+  // Store off the current byte/bit offset, in case we want to restore them due
+  // to a failed parse.
+  size_t original_byte_offset = byte_offset_;
+  size_t original_bit_offset = bit_offset_;
+
   if (!ReadBits(count_bits - 1, val)) {
     return false;
   }
@@ -237,6 +242,7 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
 
   uint32_t extra_bit;
   if (!ReadBits(/*bit_count=*/1, extra_bit)) {
+    RTC_CHECK(Seek(original_byte_offset, original_bit_offset));
     return false;
   }
 
-- 
2.43.0


From 891d5a09831196cfbe0352620f18c8053d29ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:50 +0000
Subject: [PATCH 30/33] fix: restore the position after a failed Exp-Golomb
 read also without assertions

---
 src/rtc_common.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index ddfc32a..306249c 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -21,7 +21,13 @@
 namespace h264nal {
 
 #define RTC_DCHECK(cond) assert(cond)
+// RTC_CHECK conditions may have side effects (e.g. Seek()), so they must be
+// evaluated even where assert() is compiled out
+#ifdef NDEBUG
+#define RTC_CHECK(cond) static_cast<void>(cond)
+#else
 #define RTC_CHECK(cond) assert(cond)
+#endif
 
 #define RTC_DCHECK_LE(v1, v2) RTC_DCHECK((v1) <= (v2))
 #define RTC_DCHECK_LT(v1, v2) RTC_DCHECK((v1) < (v2))
-- 
2.43.0


From 9ce2c0eabb00df6f8f8b1dbbc274d8cfe62d1532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:30 +0000
Subject: [PATCH 31/33] fix: tell Constrained High from Progressive High

---
 src/h264_sps_parser.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 1f8216d..1a86f6d 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -513,12 +513,14 @@ ProfileType H264SpsDataParser::SpsDataState::GetProfileType() const noexcept {
       return ProfileType::EXTENDED;
 
     case 100:  // High profiles
+      // A.2.4.2: Constrained High is Progressive High (constraint_set4_flag)
+      // with constraint_set5_flag as well
+      if (constraint_set4_flag == 1 && constraint_set5_flag == 1) {
+        return ProfileType::CONSTRAINED_HIGH;
+      }
       if (constraint_set4_flag == 1) {
         return ProfileType::PROGRESSIVE_HIGH;
       }
-      if (constraint_set5_flag == 1) {
-        return ProfileType::CONSTRAINED_HIGH;
-      }
       return ProfileType::HIGH;
 
     case 110:
-- 
2.43.0


From b8917456236ad6960c7f98fb0b6042a7c159c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:50 +0000
Subject: [PATCH 32/33] fix: list a picture once in the DPB report

Slices of the second and third colour plane, and of redundant coded
pictures, start at macroblock 0 too, so a picture with them got several
rows and was entered in the DPB several times.
---
 tools/h264nal-dpb_parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 1088868..a116056 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -76,6 +76,12 @@ def parse_frames(content):
         if not first_mb_m or int(first_mb_m.group(1)) != 0:
             continue
 
+        # one row per picture: the other colour planes and redundant coded
+        # pictures of a picture have slices that start at macroblock 0 too
+        again_m = re.search(r"\b(colour_plane_id|redundant_pic_cnt): [1-9]", nal_text)
+        if again_m:
+            continue
+
         pps = pps_by_id[get_id(nal_text, "pic_parameter_set_id")]
         slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1))
         frame_num = int(re.search(r"frame_num: (\d+)", nal_text).group(1))
-- 
2.43.0


From 16a3fcb84cded70c773bd6c2abb02da7cfb1e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:43 +0000
Subject: [PATCH 33/33] fix: accept file names that are not valid text in the
 conformance summary

A name that is not valid UTF-8 ended the script with a traceback, and the
rows of all the other files were lost with it.
---
 tools/h264nal-conformance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-conformance.py b/tools/h264nal-conformance.py
index 21f5634..0be8539 100755
--- a/tools/h264nal-conformance.py
+++ b/tools/h264nal-conformance.py
@@ -86,6 +86,8 @@ def run_h264nal(input_path, h264nal_path, timeout):
             ],
             capture_output=True,
             text=True,
+            # the messages may quote a file name that is not valid text
+            errors="surrogateescape",
             timeout=timeout,
         )
     except subprocess.TimeoutExpired:
@@ -278,10 +280,13 @@ def main(argv):
         rows.append(analyze_file(input_path, options.h264nal_path,
                                  options.timeout))
 
+    # surrogateescape: write file names that are not valid text as they are
     if options.outfile is None:
+        sys.stdout.reconfigure(errors="surrogateescape")
         write_csv(sys.stdout, rows)
     else:
-        with open(options.outfile, "w", newline="") as fout:
+        with open(options.outfile, "w", newline="",
+                  errors="surrogateescape") as fout:
             write_csv(fout, rows)
 
     if not options.quiet:
-- 
2.43.0

