From 3babbcad2b0e910b13093da22e40d6dad0706a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:13 +0000
Subject: [PATCH 01/37] fix: report the NAL unit length, not the length-field
 width, in length-prefixed framing

---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 8758315..1f7b125 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -237,7 +237,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From 39ad97ef06d11846e02aa9e024ddb7a6f36b0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:34 +0000
Subject: [PATCH 02/37] fix: avoid size overflow when a NAL unit length field
 holds a huge value

---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 1f7b125..afbf66a 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -216,7 +216,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From aaf8cc0209ccfc771267967c43ce020ca2a3cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:38 +0000
Subject: [PATCH 03/37] fix: keep the parsing options in the stateful
 ParseBitstream overloads

---
 src/h264_bitstream_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index afbf66a..660dc7e 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -130,6 +130,7 @@ H264BitstreamParser::ParseBitstream(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -195,6 +196,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
-- 
2.43.0


From 5b4fae464c11ba959247bca80bc82ac47a1c9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:14 +0000
Subject: [PATCH 04/37] fix: do not dereference a checksum that was never
 computed when dumping

---
 src/h264_nal_unit_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_nal_unit_parser.cc b/src/h264_nal_unit_parser.cc
index 1c5abb5..87021e3 100644
--- a/src/h264_nal_unit_parser.cc
+++ b/src/h264_nal_unit_parser.cc
@@ -113,7 +113,7 @@ void H264NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From 75151804dda49d7904aa94cec0dbc77d9286da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 05/37] fix: split STAP-A packets by their NAL unit sizes and
 unescape each unit on its own

---
 src/h264_rtp_parser.cc       |  5 +++++
 src/h264_rtp_stapa_parser.cc | 24 ++++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 8fc684f..6411c46 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -24,6 +24,11 @@ namespace h264nal {
 std::unique_ptr<H264RtpParser::RtpState> H264RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
+  if (length > 0 && (data[0] & 0x1f) == RTP_STAPA_NUT) {
+    // the STAP-A parser unescapes each aggregated NAL unit
+    BitBuffer stapa_bit_buffer(data, length);
+    return ParseRtp(&stapa_bit_buffer, bitstream_parser_state);
+  }
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
diff --git a/src/h264_rtp_stapa_parser.cc b/src/h264_rtp_stapa_parser.cc
index 257c01f..20a3e75 100644
--- a/src/h264_rtp_stapa_parser.cc
+++ b/src/h264_rtp_stapa_parser.cc
@@ -26,8 +26,8 @@ std::unique_ptr<H264RtpStapAParser::RtpStapAState>
 H264RtpStapAParser::ParseRtpStapA(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  // the aggregate is not escaped as a whole: each aggregated NAL unit is
+  BitBuffer bit_buffer(data, length);
   return ParseRtpStapA(&bit_buffer, bitstream_parser_state);
 }
 
@@ -63,9 +63,25 @@ H264RtpStapAParser::ParseRtpStapA(
     }
     rtp_stapa->nal_unit_sizes.push_back(nalu_size);
 
+    // NALU: exactly nalu_size bytes, which are escaped on their own. A
+    // single byte left after it cannot hold another size, so it can only
+    // belong to this unit.
+    uint64_t nalu_bytes = nalu_size;
+    if (bit_buffer->RemainingBitCount() == 8 * (nalu_bytes + 1)) {
+      nalu_bytes += 1;
+    }
+    std::vector<uint8_t> nalu(static_cast<size_t>(nalu_bytes));
+    for (uint8_t& nalu_byte : nalu) {
+      if (!bit_buffer->ReadUInt8(nalu_byte)) {
+        return nullptr;
+      }
+    }
+    std::vector<uint8_t> unpacked_nalu = UnescapeRbsp(nalu.data(), nalu.size());
+    BitBuffer nalu_bit_buffer(unpacked_nalu.data(), unpacked_nalu.size());
+
     // NALU header
     rtp_stapa->nal_unit_headers.push_back(
-        H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H264NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_stapa->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -76,7 +92,7 @@ H264RtpStapAParser::ParseRtpStapA(
     // NALU payload
     rtp_stapa->nal_unit_payloads.push_back(
         H264NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
+            &nalu_bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
             bitstream_parser_state));
     if (rtp_stapa->nal_unit_payloads.back() == nullptr) {
       return nullptr;
-- 
2.43.0


From 150846d33272cc671fe8d3a1c0b0dc5a69e51163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:31 +0000
Subject: [PATCH 06/37] fix: dump signed syntax elements as signed

---
 ...ice_header_in_scalable_extension_parser.cc | 20 +++++++++----------
 src/h264_slice_header_parser.cc               |  4 ++--
 src/h264_sps_svc_extension_parser.cc          |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index 58e3c17..a69e19e 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -763,7 +763,7 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (bottom_field_pic_order_in_frame_present_flag && !field_pic_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "delta_pic_order_cnt_bottom: %u",
+      fprintf(outfp, "delta_pic_order_cnt_bottom: %i",
               delta_pic_order_cnt_bottom);
     }
   }
@@ -852,7 +852,7 @@ void H264SliceHeaderInScalableExtensionParser::
   }
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "slice_qp_delta: %u", slice_qp_delta);
+  fprintf(outfp, "slice_qp_delta: %i", slice_qp_delta);
 
   if (deblocking_filter_control_present_flag) {
     fdump_indent_level(outfp, indent_level);
@@ -861,11 +861,11 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
@@ -886,10 +886,10 @@ void H264SliceHeaderInScalableExtensionParser::
 
       if (disable_inter_layer_deblocking_filter_idc != 1) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %i",
                 inter_layer_slice_alpha_c0_offset_div2);
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %i",
                 inter_layer_slice_beta_offset_div2);
       }
     }
@@ -909,16 +909,16 @@ void H264SliceHeaderInScalableExtensionParser::
       }
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_left_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_left_offset: %i",
               scaled_ref_layer_left_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_top_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_top_offset: %i",
               scaled_ref_layer_top_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_right_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_right_offset: %i",
               scaled_ref_layer_right_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_bottom_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_bottom_offset: %i",
               scaled_ref_layer_bottom_offset);
     }
   }
diff --git a/src/h264_slice_header_parser.cc b/src/h264_slice_header_parser.cc
index 9055bd5..1ad5e4b 100644
--- a/src/h264_slice_header_parser.cc
+++ b/src/h264_slice_header_parser.cc
@@ -694,11 +694,11 @@ void H264SliceHeaderParser::SliceHeaderState::fdump(FILE* outfp,
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
diff --git a/src/h264_sps_svc_extension_parser.cc b/src/h264_sps_svc_extension_parser.cc
index a126e96..0d9197e 100644
--- a/src/h264_sps_svc_extension_parser.cc
+++ b/src/h264_sps_svc_extension_parser.cc
@@ -166,19 +166,19 @@ void H264SpsSvcExtensionParser::SpsSvcExtensionState::fdump(
     }
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %i",
             seq_scaled_ref_layer_left_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %i",
             seq_scaled_ref_layer_top_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %i",
             seq_scaled_ref_layer_right_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %i",
             seq_scaled_ref_layer_bottom_offset);
   }
 
-- 
2.43.0


From 90a80c4094246d81e6019750217ab385984b4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:34 +0000
Subject: [PATCH 07/37] fix: dump cpb_size_scale

---
 src/h264_hrd_parameters_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h264_hrd_parameters_parser.cc b/src/h264_hrd_parameters_parser.cc
index 28f4737..76d5e58 100644
--- a/src/h264_hrd_parameters_parser.cc
+++ b/src/h264_hrd_parameters_parser.cc
@@ -123,6 +123,9 @@ void H264HrdParametersParser::HrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_scale: %u", bit_rate_scale);
 
+  fdump_indent_level(outfp, indent_level);
+  fprintf(outfp, "cpb_size_scale: %u", cpb_size_scale);
+
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
-- 
2.43.0


From 4b1ca6fb8bc6e9e28363751db0f02bef593c9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 08/37] fix: record 8x8 default-matrix flags in their own list
 and reject broken scaling lists

---
 src/h264_pps_parser.cc | 12 ++++++++----
 src/h264_sps_parser.cc | 16 ++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 9c135cf..3fc0422 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -309,11 +309,15 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
         if (pps->pic_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
+                                   pps->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
+                                   pps->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 90cfe3a..1f8216d 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -192,13 +192,17 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
         if (sps_data->seq_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)sps_data->scaling_list(
-                bit_buffer, i, sps_data->ScalingList4x4, 16,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i, sps_data->ScalingList4x4, 16,
+                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)sps_data->scaling_list(
-                bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
+                    sps_data->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
-- 
2.43.0


From c9973602dd68456bc76306ae8dc5e96853bf677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:24 +0000
Subject: [PATCH 09/37] fix: infer the active reference counts of scalable
 slices from the PPS

---
 src/h264_slice_header_in_scalable_extension_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index a69e19e..c2dc9a2 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -341,6 +341,12 @@ H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(
             return nullptr;
           }
         }
+      } else {
+        // use the default values from the PPS
+        shise->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        shise->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
       }
     }
 
-- 
2.43.0


From b15d32c57dc30f14085112313960fabcc1f4c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 10/37] fix: reject a scalable slice whose header cannot be
 parsed

---
 src/h264_slice_layer_extension_rbsp_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_slice_layer_extension_rbsp_parser.cc b/src/h264_slice_layer_extension_rbsp_parser.cc
index 1b53d6c..3407801 100644
--- a/src/h264_slice_layer_extension_rbsp_parser.cc
+++ b/src/h264_slice_layer_extension_rbsp_parser.cc
@@ -61,6 +61,10 @@ H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(
         H264SliceHeaderInScalableExtensionParser::
             ParseSliceHeaderInScalableExtension(bit_buffer, nal_unit_header,
                                                 bitstream_parser_state);
+    if (slice_layer_extension_rbsp->slice_header_in_scalable_extension ==
+        nullptr) {
+      return nullptr;
+    }
     // if (!slice_skip_flag) {
     //   slice_data_in_scalable_extension()  // specified in Annex G
     // }
-- 
2.43.0


From 7066a2a119241d0aabb1daed9288a504a8ac3860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:58 +0000
Subject: [PATCH 11/37] fix: apply the extension-data branch of
 prefix_nal_unit_svc() to nal_ref_idc equal to 0

---
 src/h264_prefix_nal_unit_parser.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 11c3d79..9541eaa 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -78,19 +78,19 @@ H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(
           return nullptr;
         }
       }
-      rbsp_trailing_bits(bit_buffer);
-
-    } else if (more_rbsp_data(bit_buffer)) {
-      while (more_rbsp_data(bit_buffer)) {
-        // additional_prefix_nal_unit_extension_data_flag  u(1)
-        if (!bit_buffer->ReadBits(
-                1, prefix_nal_unit_svc
-                       ->additional_prefix_nal_unit_extension_data_flag)) {
-          return nullptr;
-        }
+    }
+    rbsp_trailing_bits(bit_buffer);
+
+  } else if (more_rbsp_data(bit_buffer)) {
+    while (more_rbsp_data(bit_buffer)) {
+      // additional_prefix_nal_unit_extension_data_flag  u(1)
+      if (!bit_buffer->ReadBits(
+              1, prefix_nal_unit_svc
+                     ->additional_prefix_nal_unit_extension_data_flag)) {
+        return nullptr;
       }
-      rbsp_trailing_bits(bit_buffer);
     }
+    rbsp_trailing_bits(bit_buffer);
   }
 
   return prefix_nal_unit_svc;
-- 
2.43.0


From 4a0214cbf680c062df0b5151855143caf715a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:01 +0000
Subject: [PATCH 12/37] fix: dump additional_prefix_nal_unit_extension_flag

---
 src/h264_prefix_nal_unit_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 9541eaa..1021812 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -152,6 +152,10 @@ void H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState::fdump(
       // dec_ref_base_pic_marking()
     }
 
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "additional_prefix_nal_unit_extension_flag: %u",
+            additional_prefix_nal_unit_extension_flag);
+
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "additional_prefix_nal_unit_extension_data_flag: %u",
             additional_prefix_nal_unit_extension_data_flag);
-- 
2.43.0


From 8ea42e78139a5c90f40787250adaef095fd8a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:05 +0000
Subject: [PATCH 13/37] fix: report unimplemented subset SPS extensions instead
 of misreading what follows them

---
 src/h264_subset_sps_parser.cc | 59 ++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/h264_subset_sps_parser.cc b/src/h264_subset_sps_parser.cc
index 2276462..f0aa7c4 100644
--- a/src/h264_subset_sps_parser.cc
+++ b/src/h264_subset_sps_parser.cc
@@ -68,6 +68,11 @@ H264SubsetSpsParser::ParseSubsetSps(BitBuffer* bit_buffer) noexcept {
 
     if (subset_sps->svc_vui_parameters_present_flag == 1) {
       // svc_vui_parameters_extension() // specified in Annex G
+      // Not parsing it leaves the bit buffer positioned in the middle of
+      // the subset SPS, so stop here rather than misread the rest.
+      report_unimplemented("svc_vui_parameters_extension()",
+                           "subset_seq_parameter_set_rbsp()");
+      return subset_sps;
     }
 
   } else if (subset_sps->seq_parameter_set_data->profile_idc == 118 ||
@@ -79,15 +84,9 @@ H264SubsetSpsParser::ParseSubsetSps(BitBuffer* bit_buffer) noexcept {
     }
 
     // seq_parameter_set_mvc_extension() // specified in Annex H
-
-    // mvc_vui_parameters_present_flag  u(1)
-    if (!bit_buffer->ReadBits(1, subset_sps->mvc_vui_parameters_present_flag)) {
-      return nullptr;
-    }
-
-    if (subset_sps->mvc_vui_parameters_present_flag == 1) {
-      // mvc_vui_parameters_extension()  // specified in Annex H
-    }
+    report_unimplemented("seq_parameter_set_mvc_extension()",
+                         "subset_seq_parameter_set_rbsp()");
+    return subset_sps;
 
   } else if (subset_sps->seq_parameter_set_data->profile_idc == 138 ||
              subset_sps->seq_parameter_set_data->profile_idc == 135) {
@@ -97,6 +96,9 @@ H264SubsetSpsParser::ParseSubsetSps(BitBuffer* bit_buffer) noexcept {
     }
 
     // seq_parameter_set_mvcd_extension(()  // specified in Annex I
+    report_unimplemented("seq_parameter_set_mvcd_extension()",
+                         "subset_seq_parameter_set_rbsp()");
+    return subset_sps;
 
   } else if (subset_sps->seq_parameter_set_data->profile_idc == 139) {
     // bit_equal_to_one  u(1)
@@ -107,6 +109,9 @@ H264SubsetSpsParser::ParseSubsetSps(BitBuffer* bit_buffer) noexcept {
     // seq_parameter_set_mvcd_extension()  // specified in Annex I
 
     // seq_parameter_set_3davc_extension()  // specified in Annex J
+    report_unimplemented("seq_parameter_set_mvcd_extension()",
+                         "subset_seq_parameter_set_rbsp()");
+    return subset_sps;
   }
 
   // additional_extension2_flag  u(1)
@@ -135,6 +140,8 @@ void H264SubsetSpsParser::SubsetSpsState::fdump(
   fprintf(outfp, "subset_sps {");
   indent_level = indent_level_incr(indent_level);
 
+  bool unimplemented = false;
+
   fdump_indent_level(outfp, indent_level);
   seq_parameter_set_data->fdump(outfp, indent_level, parsing_options);
 
@@ -149,6 +156,9 @@ void H264SubsetSpsParser::SubsetSpsState::fdump(
 
     if (svc_vui_parameters_present_flag == 1) {
       // svc_vui_parameters_extension() // specified in Annex G
+      fdump_indent_level(outfp, indent_level);
+      fdump_unimplemented(outfp, "svc_vui_parameters_extension()");
+      unimplemented = true;
     }
 
   } else if (seq_parameter_set_data->profile_idc == 118 ||
@@ -158,14 +168,9 @@ void H264SubsetSpsParser::SubsetSpsState::fdump(
     fprintf(outfp, "bit_equal_to_one: %u", bit_equal_to_one);
 
     // seq_parameter_set_mvc_extension() // specified in Annex H
-
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "mvc_vui_parameters_present_flag: %u",
-            mvc_vui_parameters_present_flag);
-
-    if (mvc_vui_parameters_present_flag == 1) {
-      // mvc_vui_parameters_extension()  // specified in Annex H
-    }
+    fdump_unimplemented(outfp, "seq_parameter_set_mvc_extension()");
+    unimplemented = true;
 
   } else if (seq_parameter_set_data->profile_idc == 138 ||
              seq_parameter_set_data->profile_idc == 135) {
@@ -173,6 +178,9 @@ void H264SubsetSpsParser::SubsetSpsState::fdump(
     fprintf(outfp, "bit_equal_to_one: %u", bit_equal_to_one);
 
     // seq_parameter_set_mvcd_extension(()  // specified in Annex I
+    fdump_indent_level(outfp, indent_level);
+    fdump_unimplemented(outfp, "seq_parameter_set_mvcd_extension()");
+    unimplemented = true;
 
   } else if (seq_parameter_set_data->profile_idc == 139) {
     fdump_indent_level(outfp, indent_level);
@@ -181,15 +189,22 @@ void H264SubsetSpsParser::SubsetSpsState::fdump(
     // seq_parameter_set_mvcd_extension()  // specified in Annex I
 
     // seq_parameter_set_3davc_extension()  // specified in Annex J
+    fdump_indent_level(outfp, indent_level);
+    fdump_unimplemented(outfp, "seq_parameter_set_mvcd_extension()");
+    unimplemented = true;
   }
 
-  fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "additional_extension2_flag: %u", additional_extension2_flag);
-
-  if (additional_extension2_flag == 1) {
+  // nothing after an unimplemented structure was parsed
+  if (!unimplemented) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "additional_extension2_data_flag: %u",
-            additional_extension2_data_flag);
+    fprintf(outfp, "additional_extension2_flag: %u",
+            additional_extension2_flag);
+
+    if (additional_extension2_flag == 1) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "additional_extension2_data_flag: %u",
+              additional_extension2_data_flag);
+    }
   }
 
   indent_level = indent_level_decr(indent_level);
-- 
2.43.0


From f966b44eba95e464e9759ba1233bdbc9121a2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:26 +0000
Subject: [PATCH 14/37] fix: leave trailing zero bytes out of the NAL units of
 an Annex B stream

---
 src/h264_bitstream_parser.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 660dc7e..9cc8f5d 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -87,6 +87,16 @@ H264BitstreamParser::FindNaluIndices(const uint8_t* data,
   if (it != sequences.rend())
     it->payload_size = length - it->payload_start_offset;
 
+  // Section B.1.1: the zero bytes between the end of a NAL unit and the next
+  // start code (or the end of the stream) are trailing_zero_8bits, and not
+  // part of the NAL unit, whose last byte shall not be equal to 0.
+  for (NaluIndex& index : sequences) {
+    while (index.payload_size > 0 &&
+           data[index.payload_start_offset + index.payload_size - 1] == 0) {
+      --index.payload_size;
+    }
+  }
+
   return sequences;
 }
 
-- 
2.43.0


From e9d371f16f69e13707a47bc87a7bca17583be37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 15/37] fix: do not shift out of range or touch the buffer when
 writing 0 or more than 64 bits

---
 src/rtc_common.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 2cff42a..78397ee 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -321,9 +321,14 @@ bool BitBufferWriter::WriteUInt32(uint32_t val) {
 }
 
 bool BitBufferWriter::WriteBits(uint64_t val, size_t bit_count) {
-  if (bit_count > RemainingBitCount()) {
+  if (bit_count > 64 || bit_count > RemainingBitCount()) {
     return false;
   }
+  if (bit_count == 0) {
+    // nothing to write: the code below would shift by 64 and touch a byte
+    // that may be past the end of the buffer
+    return true;
+  }
   size_t total_bits = bit_count;
 
   // For simplicity, push the bits we want to read from val to the highest bits.
-- 
2.43.0


From 511ae90e4bf5d0b916c895eac6c0fa0ff96dda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 16/37] fix: handle the smallest and largest alphabets in
 non-symmetric codes

---
 src/rtc_common.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 78397ee..358e576 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -217,9 +217,12 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
-  if (!ReadBits(count_bits - 1, val)) {
+  // a single possible value takes no bits at all
+  val = 0;
+  if (count_bits > 1 && !ReadBits(count_bits - 1, val)) {
     return false;
   }
 
@@ -374,7 +377,8 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -386,7 +390,8 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From e2bd08e11fb16a95531c21e2174f052b7debc6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:04 +0000
Subject: [PATCH 17/37] fix: parse a PPS with the chroma format of the SPS it
 refers to

---
 src/h264_nal_unit_payload_parser.cc | 36 +++++++++++++++++------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/h264_nal_unit_payload_parser.cc b/src/h264_nal_unit_payload_parser.cc
index 2db5073..166a548 100644
--- a/src/h264_nal_unit_payload_parser.cc
+++ b/src/h264_nal_unit_payload_parser.cc
@@ -101,22 +101,28 @@ H264NalUnitPayloadParser::ParseNalUnitPayload(
     }
     case PPS_NUT: {
       // pic_parameter_set_rbsp()
-      // TODO(chemag): Fix this
-      // This is a big pita in the h264 standard. The dependency on
-      // this field (`chroma_format_idc`, defined in the SPS) forces the
-      // parser to pass the full SPS map to the PPS parser: This would
-      // allow the PPS parser to first read the `seq_parameter_set_id`
-      // field, and then uses it with the SPS map to get the right
-      // `chroma_format_idc` value tp use.
-      // Unfortunately the SPS map is part of the BitstreamParserState,
-      // which itself depends on the PPS. This creates a circular
-      // dependency.
-      // A better solution would be to pass the SPS map to the PPS
-      // parser. This increases significantly the complexity of the
-      // parser, and the usage of the `chroma_format_idc` field
-      // For now, let's use the most common value, which corresponds
-      // to 4:2:0 subsampling.
+      // The number of scaling lists depends on `chroma_format_idc`, a field
+      // of the SPS the PPS refers to: peek the `seq_parameter_set_id` field
+      // to find it. If that SPS was never received, use the most common
+      // value, which corresponds to 4:2:0 subsampling.
       uint32_t chroma_format_idc = 1;
+      size_t byte_offset = 0;
+      size_t bit_offset = 0;
+      bit_buffer->GetCurrentOffset(&byte_offset, &bit_offset);
+      uint32_t pps_id_tmp = 0;
+      uint32_t sps_id = 0;
+      if (bit_buffer->ReadExponentialGolomb(pps_id_tmp) &&
+          bit_buffer->ReadExponentialGolomb(sps_id)) {
+        auto sps_it = bitstream_parser_state->sps.find(sps_id);
+        auto subset_sps_it = bitstream_parser_state->subset_sps.find(sps_id);
+        if (sps_it != bitstream_parser_state->sps.end()) {
+          chroma_format_idc = sps_it->second->sps_data->chroma_format_idc;
+        } else if (subset_sps_it != bitstream_parser_state->subset_sps.end()) {
+          chroma_format_idc =
+              subset_sps_it->second->seq_parameter_set_data->chroma_format_idc;
+        }
+      }
+      bit_buffer->Seek(byte_offset, bit_offset);
       nal_unit_payload->pps =
           H264PpsParser::ParsePps(bit_buffer, chroma_format_idc);
       if (nal_unit_payload->pps != nullptr) {
-- 
2.43.0


From cb2e18000d575bb2a9ce134344eecbf78375582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:10 +0000
Subject: [PATCH 18/37] fix: parse the NAL unit header extension of a
 fragmented SVC NAL unit

---
 include/h264_nal_unit_header_parser.h |  3 ++
 src/h264_nal_unit_header_parser.cc    | 41 ++++++++++++++++-----------
 src/h264_rtp_fua_parser.cc            | 13 +++++++--
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/include/h264_nal_unit_header_parser.h b/include/h264_nal_unit_header_parser.h
index 6c3d616..6979ea7 100644
--- a/include/h264_nal_unit_header_parser.h
+++ b/include/h264_nal_unit_header_parser.h
@@ -48,6 +48,9 @@ class H264NalUnitHeaderParser {
       const uint8_t* data, size_t length) noexcept;
   static std::unique_ptr<NalUnitHeaderState> ParseNalUnitHeader(
       BitBuffer* bit_buffer) noexcept;
+  // Parse the part of the NAL unit header after nal_unit_type.
+  static bool ParseNalUnitHeaderExtension(
+      BitBuffer* bit_buffer, NalUnitHeaderState& nal_unit_header) noexcept;
   // Parses nalu type from the given buffer
   static bool GetNalUnitType(const uint8_t* data, const size_t length,
                              NalUnitType& naluType) noexcept;
diff --git a/src/h264_nal_unit_header_parser.cc b/src/h264_nal_unit_header_parser.cc
index 547fac2..8eb706d 100644
--- a/src/h264_nal_unit_header_parser.cc
+++ b/src/h264_nal_unit_header_parser.cc
@@ -63,19 +63,28 @@ H264NalUnitHeaderParser::ParseNalUnitHeader(BitBuffer* bit_buffer) noexcept {
     return nullptr;
   }
 
-  if (nal_unit_header->nal_unit_type == 14 ||
-      nal_unit_header->nal_unit_type == 20 ||
-      nal_unit_header->nal_unit_type == 21) {
-    if (nal_unit_header->nal_unit_type != 21) {
+  if (!ParseNalUnitHeaderExtension(bit_buffer, *nal_unit_header)) {
+    return nullptr;
+  }
+
+  return nal_unit_header;
+}
+
+bool H264NalUnitHeaderParser::ParseNalUnitHeaderExtension(
+    BitBuffer* bit_buffer, NalUnitHeaderState& nal_unit_header) noexcept {
+  if (nal_unit_header.nal_unit_type == 14 ||
+      nal_unit_header.nal_unit_type == 20 ||
+      nal_unit_header.nal_unit_type == 21) {
+    if (nal_unit_header.nal_unit_type != 21) {
       // svc_extension_flag  u(1)
-      if (!bit_buffer->ReadBits(1, nal_unit_header->svc_extension_flag)) {
-        return nullptr;
+      if (!bit_buffer->ReadBits(1, nal_unit_header.svc_extension_flag)) {
+        return false;
       }
 
     } else {
       // avc_3d_extension_flag  u(1)
-      if (!bit_buffer->ReadBits(1, nal_unit_header->avc_3d_extension_flag)) {
-        return nullptr;
+      if (!bit_buffer->ReadBits(1, nal_unit_header.avc_3d_extension_flag)) {
+        return false;
       }
     }
 
@@ -85,32 +94,32 @@ H264NalUnitHeaderParser::ParseNalUnitHeader(BitBuffer* bit_buffer) noexcept {
     // silently: the bytes they occupy would then be read as the start of the
     // payload, and everything after would be parsed from the wrong bit
     // offset. Give up instead, and say why.
-    if (nal_unit_header->svc_extension_flag) {
+    if (nal_unit_header.svc_extension_flag) {
       // nal_unit_header_svc_extension()  // specified in Annex F
-      nal_unit_header->nal_unit_header_svc_extension =
+      nal_unit_header.nal_unit_header_svc_extension =
           H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(
               bit_buffer);
-      if (nal_unit_header->nal_unit_header_svc_extension == nullptr) {
-        return nullptr;
+      if (nal_unit_header.nal_unit_header_svc_extension == nullptr) {
+        return false;
       }
 
-    } else if (nal_unit_header->avc_3d_extension_flag) {
+    } else if (nal_unit_header.avc_3d_extension_flag) {
       // nal_unit_header_3davc_extension()  // specified in Annex I
       // TODO(chemag): add support for nal_unit_header_3davc_extension()
       report_unimplemented("nal_unit_header_3davc_extension()",
                            "nal_unit_header()");
-      return nullptr;
+      return false;
 
     } else {
       // nal_unit_header_mvc_extension()  // specified in Annex G
       // TODO(chemag): add support for nal_unit_header_mvc_extension()
       report_unimplemented("nal_unit_header_mvc_extension()",
                            "nal_unit_header()");
-      return nullptr;
+      return false;
     }
   }
 
-  return nal_unit_header;
+  return true;
 }
 
 #ifdef FDUMP_DEFINE
diff --git a/src/h264_rtp_fua_parser.cc b/src/h264_rtp_fua_parser.cc
index 6009c9f..1b59c55 100644
--- a/src/h264_rtp_fua_parser.cc
+++ b/src/h264_rtp_fua_parser.cc
@@ -63,10 +63,17 @@ std::unique_ptr<H264RtpFuAParser::RtpFuAState> H264RtpFuAParser::ParseRtpFuA(
     return rtp_fua;
   }
 
-  // start of a fragmented NAL: keep reading
+  // start of a fragmented NAL: keep reading. The FU header replaces the first
+  // byte of the NAL unit header, any header extension follows it.
+  H264NalUnitHeaderParser::NalUnitHeaderState nal_unit_header;
+  nal_unit_header.nal_ref_idc = rtp_fua->nal_ref_idc;
+  nal_unit_header.nal_unit_type = rtp_fua->fu_type;
+  if (!H264NalUnitHeaderParser::ParseNalUnitHeaderExtension(bit_buffer,
+                                                            nal_unit_header)) {
+    return nullptr;
+  }
   rtp_fua->nal_unit_payload = H264NalUnitPayloadParser::ParseNalUnitPayload(
-      bit_buffer, rtp_fua->nal_ref_idc, rtp_fua->fu_type,
-      bitstream_parser_state);
+      bit_buffer, nal_unit_header, bitstream_parser_state);
   if (rtp_fua->nal_unit_payload == nullptr) {
     return nullptr;
   }
-- 
2.43.0


From 783d00fbce31a5a93bcdf41aee113eff368e03d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:39 +0000
Subject: [PATCH 19/37] fix: report a directory given as input file as
 unreadable

---
 src/h264_utils.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/h264_utils.cc b/src/h264_utils.cc
index 1f0beee..58f605f 100644
--- a/src/h264_utils.cc
+++ b/src/h264_utils.cc
@@ -51,6 +51,14 @@ int H264Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     return -1;
   }
   fseek(infp, 0, SEEK_SET);
+  // a directory can be opened and claims a (huge) size: check that there is
+  // something to read before trusting it
+  if (fgetc(infp) == EOF) {
+    fprintf(stderr, "Could not read input file: \"%s\"\n", filename);
+    fclose(infp);
+    return -1;
+  }
+  fseek(infp, 0, SEEK_SET);
   // read file into buffer
   buffer.resize(static_cast<size_t>(size));
   size_t bytes_read = fread(reinterpret_cast<char*>(buffer.data()), 1,
-- 
2.43.0


From 52ff83d6b2466930f9246e92319cc5987b8d8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:42 +0000
Subject: [PATCH 20/37] fix: do not write before an empty checksum output
 buffer

---
 src/h264_common.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h264_common.cc b/src/h264_common.cc
index 0cd4c46..d82f884 100644
--- a/src/h264_common.cc
+++ b/src/h264_common.cc
@@ -458,6 +458,9 @@ std::shared_ptr<NaluChecksum> NaluChecksum::GetNaluChecksum(
 void NaluChecksum::fdump(char* output, int output_len) const {
   int i = 0;
   int oi = 0;
+  if (output_len <= 0) {
+    return;
+  }
   while (i < length) {
     // make sure there is space in the output buffer
     if (oi + 2 >= output_len) {
-- 
2.43.0


From 2f73cac18055cb6277a9af91432cc465ffa12016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 21/37] fix: accept the documented -1 for --nalu-length-bytes

---
 tools/h264nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 5370fa5..af85ede 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -305,7 +305,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From edc2d1ed2005ba0bf4c9abccc8f3af9360eb52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 22/37] fix: split tool took the sample aspect ratio for the
 resolution

---
 tools/h264nal-split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-split.py b/tools/h264nal-split.py
index ba4c9d8..da2eba5 100755
--- a/tools/h264nal-split.py
+++ b/tools/h264nal-split.py
@@ -64,8 +64,8 @@ def parse_nal_units(content):
         if type_m:
             nal["nal_unit_type"] = int(type_m.group(1))
 
-        width_m = re.search(r"width: (\d+)", nal_text)
-        height_m = re.search(r"height: (\d+)", nal_text)
+        width_m = re.search(r"\bwidth: (\d+)", nal_text)
+        height_m = re.search(r"\bheight: (\d+)", nal_text)
         if width_m and height_m:
             nal["width"] = int(width_m.group(1))
             nal["height"] = int(height_m.group(1))
-- 
2.43.0


From 0164bfe98f2003dfed567ca635e38df6fd889457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:05 +0000
Subject: [PATCH 23/37] fix: report Constrained High only when both constraint
 flags are set

---
 src/h264_sps_parser.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 1f8216d..1909e4d 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -513,12 +513,13 @@ ProfileType H264SpsDataParser::SpsDataState::GetProfileType() const noexcept {
       return ProfileType::EXTENDED;
 
     case 100:  // High profiles
+      // Section A.2.4.2: Constrained High has both flags set
+      if (constraint_set4_flag == 1 && constraint_set5_flag == 1) {
+        return ProfileType::CONSTRAINED_HIGH;
+      }
       if (constraint_set4_flag == 1) {
         return ProfileType::PROGRESSIVE_HIGH;
       }
-      if (constraint_set5_flag == 1) {
-        return ProfileType::CONSTRAINED_HIGH;
-      }
       return ProfileType::HIGH;
 
     case 110:
-- 
2.43.0


From 5c4154c6b9e32eb10f2afee00639719425d992e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:32 +0000
Subject: [PATCH 24/37] fix: rewind after a failed Exp-Golomb read in builds
 without assertions

---
 src/rtc_common.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 358e576..5b298ba 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -261,7 +261,8 @@ bool BitBuffer::ReadExponentialGolomb(uint32_t& val) {
   // read the value.
   size_t value_bit_count = zero_bit_count + 1;
   if (value_bit_count > 32 || !ReadBits(value_bit_count, val)) {
-    RTC_CHECK(Seek(original_byte_offset, original_bit_offset));
+    // not inside RTC_CHECK(), which is an assert() and goes away under NDEBUG
+    Seek(original_byte_offset, original_bit_offset);
     return false;
   }
   val -= 1;
-- 
2.43.0


From af960987d5d2f590f1d690be13b9ffb7f3308bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:24 +0000
Subject: [PATCH 25/37] fix: dpb_parse: handle slice types 3 and 5 to 9

slice_type values 5 to 9 (all slices of the picture have the same type)
were shown as '?5' to '?9' and got no reference list; neither did SP.
---
 tools/h264nal-dpb_parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 77daa00..759c5f2 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -66,7 +66,8 @@ def parse_frames(content):
         if not first_mb_m or int(first_mb_m.group(1)) != 0:
             continue
 
-        slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1))
+        # slice_type values 5..9 are 0..4 for all the slices of the picture
+        slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1)) % 5
         frame_num = int(re.search(r"frame_num: (\d+)", nal_text).group(1))
         nal_ref_idc = int(re.search(r"nal_ref_idc: (\d+)", nal_text).group(1))
 
@@ -302,7 +303,7 @@ def simulate_dpb(sps, frames, outfile):
 
         dpb_before = dpb_str(dpb)
 
-        if frame["slice_type"] in (0, 1) and dpb:
+        if frame["slice_type"] in (0, 1, 3) and dpb:
             ref_list = build_ref_pic_list0(dpb, frame)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
-- 
2.43.0


From ad8fb8b081a532c493f9639e3f03e7d2060bcbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:24 +0000
Subject: [PATCH 26/37] fix: dpb_parse: take the reference count from the PPS
 the slice names

The default of the last PPS seen was used, whatever its id.
---
 tools/h264nal-dpb_parse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 759c5f2..1334876 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -52,7 +52,8 @@ def parse_frames(content):
             continue
 
         if nal_type == 8:
-            pps["num_ref_idx_l0_default_active_minus1"] = int(
+            pps_id = int(re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1))
+            pps[pps_id] = int(
                 re.search(
                     r"num_ref_idx_l0_default_active_minus1: (\d+)", nal_text
                 ).group(1)
@@ -85,8 +86,11 @@ def parse_frames(content):
             l0_m = re.search(r"num_ref_idx_l0_active_minus1: (\d+)", nal_text)
             frame["num_ref_idx_l0_active"] = int(l0_m.group(1)) + 1
         else:
+            pps_id = int(
+                re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1)
+            )
             frame["num_ref_idx_l0_active"] = (
-                pps.get("num_ref_idx_l0_default_active_minus1", 0) + 1
+                pps.get(pps_id, 0) + 1
             )
 
         if nal_type == 5:
-- 
2.43.0


From 61e56e47d35abf472452fcc5ff391d153ce21433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:16 +0000
Subject: [PATCH 27/37] fix: dpb_parse: account for frame_num wrapping around

After a wrap, short-term pictures were listed in the wrong order, and MMCO 1
and 3 looked for a negative frame_num and left the picture alone.
---
 tools/h264nal-dpb_parse.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 1334876..3df1a58 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -174,10 +174,16 @@ def dpb_str(dpb):
     return ";".join(entry_str(e) for e in dpb)
 
 
-def build_ref_pic_list0(dpb, frame):
+def frame_num_wrap(entry, frame, max_frame_num):
+    if entry["frame_num"] > frame["frame_num"]:
+        return entry["frame_num"] - max_frame_num
+    return entry["frame_num"]
+
+
+def build_ref_pic_list0(dpb, frame, max_frame_num):
     strs = sorted(
         [e for e in dpb if not e["is_ltr"]],
-        key=lambda e: e["frame_num"],
+        key=lambda e: frame_num_wrap(e, frame, max_frame_num),
         reverse=True,
     )
     ltrs = sorted(
@@ -242,7 +248,7 @@ def refs_used_str(ref_list, num_active):
     return ";".join(entry_str(e) for e in active)
 
 
-def mmco_str(frame):
+def mmco_str(frame, max_frame_num):
     if frame.get("is_idr"):
         if frame.get("long_term_reference_flag", 0):
             return "IDR:LTR[0]"
@@ -262,14 +268,14 @@ def mmco_str(frame):
         elif op == 1:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             parts.append(f"MMCO1:rm_STR(fn={pic_num})")
         elif op == 2:
             parts.append("MMCO2:rm_LTR")
         elif op == 3:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             ltf = frame["long_term_frame_idx"][ltfi_idx]
             ltfi_idx += 1
             parts.append(f"MMCO3:STR(fn={pic_num})->LTR[{ltf}]")
@@ -308,7 +314,7 @@ def simulate_dpb(sps, frames, outfile):
         dpb_before = dpb_str(dpb)
 
         if frame["slice_type"] in (0, 1, 3) and dpb:
-            ref_list = build_ref_pic_list0(dpb, frame)
+            ref_list = build_ref_pic_list0(dpb, frame, max_frame_num)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
             refs = refs_used_str(ref_list, num_active)
@@ -317,7 +323,7 @@ def simulate_dpb(sps, frames, outfile):
 
         ft = frame_type_str(frame)
         ref_mark = "Y" if frame["is_ref"] else "N"
-        mmco = mmco_str(frame)
+        mmco = mmco_str(frame, max_frame_num)
 
         if frame["is_idr"]:
             if frame.get("long_term_reference_flag", 0):
@@ -351,7 +357,9 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 1:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num_to_remove = frame["frame_num"] - (diff + 1)
+                    pic_num_to_remove = (
+                        frame["frame_num"] - (diff + 1)
+                    ) % max_frame_num
                     dpb = [
                         e
                         for e in dpb
@@ -362,7 +370,7 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num = frame["frame_num"] - (diff + 1)
+                    pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
                     for e in dpb:
-- 
2.43.0


From 177e9f85c95add2d9ece9f42e0c638d75f835c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:16 +0000
Subject: [PATCH 28/37] fix: dpb_parse: keep the picture that carries MMCO
 operations

A reference picture with adaptive marking becomes a short-term reference
unless MMCO 6 makes it a long-term one; it was dropped. After MMCO 5 its
frame_num is inferred to be 0.
---
 tools/h264nal-dpb_parse.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 3df1a58..5f70dbb 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -349,6 +349,8 @@ def simulate_dpb(sps, frames, outfile):
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
+            is_self_ltr = False
+            self_frame_num = frame["frame_num"]
             i = 0
             while i < len(ops):
                 op = ops[i]
@@ -391,6 +393,8 @@ def simulate_dpb(sps, frames, outfile):
                         ]
                 elif op == 5:
                     dpb = []
+                    # inferred for the picture once it is decoded
+                    self_frame_num = 0
                 elif op == 6:
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
@@ -399,13 +403,23 @@ def simulate_dpb(sps, frames, outfile):
                     ]
                     dpb.append(
                         {
-                            "frame_num": frame["frame_num"],
+                            "frame_num": self_frame_num,
                             "is_ltr": True,
                             "ltr_idx": ltf_idx,
                             "abs_frame": abs_frame,
                         }
                     )
+                    is_self_ltr = True
                 i += 1
+            if not is_self_ltr:
+                dpb.append(
+                    {
+                        "frame_num": self_frame_num,
+                        "is_ltr": False,
+                        "ltr_idx": -1,
+                        "abs_frame": abs_frame,
+                    }
+                )
         elif frame["is_ref"]:
             dpb.append(
                 {
-- 
2.43.0


From 000bb82a1a280853cb33edabf38918421454f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:16 +0000
Subject: [PATCH 29/37] fix: dpb_parse: implement MMCO 2

The long-term picture to remove stayed in the DPB.
---
 tools/h264nal-dpb_parse.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 5f70dbb..13ef9dc 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -103,6 +103,12 @@ def parse_frames(content):
                 r"memory_management_control_operation \{ ([^}]*)\}", nal_text
             )
             diff_m = re.search(r"difference_of_pic_nums_minus1 \{ ([^}]*)\}", nal_text)
+            # ref_pic_list_modification() has an element of the same name
+            ltpn_m = re.search(
+                r"dec_ref_pic_marking \{.*long_term_pic_num \{ ([^}]*)\}",
+                nal_text,
+                flags=re.DOTALL,
+            )
             ltfi_m = re.search(r"long_term_frame_idx \{ ([^}]*)\}", nal_text)
             mltfi_m = re.search(r"max_long_term_frame_idx_plus1 \{ ([^}]*)\}", nal_text)
             frame["mmco"] = [int(x) for x in mmco_m.group(1).split()] if mmco_m else []
@@ -111,6 +117,9 @@ def parse_frames(content):
                 if diff_m and diff_m.group(1).strip()
                 else []
             )
+            frame["long_term_pic_num"] = (
+                [int(x) for x in ltpn_m.group(1).split()] if ltpn_m else []
+            )
             frame["long_term_frame_idx"] = (
                 [int(x) for x in ltfi_m.group(1).split()]
                 if ltfi_m and ltfi_m.group(1).strip()
@@ -346,6 +355,7 @@ def simulate_dpb(sps, frames, outfile):
                 )
         elif frame["mmco"]:
             diff_idx = 0
+            ltpn_idx = 0
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
@@ -368,7 +378,11 @@ def simulate_dpb(sps, frames, outfile):
                         if not (not e["is_ltr"] and e["frame_num"] == pic_num_to_remove)
                     ]
                 elif op == 2:
-                    pass
+                    ltpn = frame["long_term_pic_num"][ltpn_idx]
+                    ltpn_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == ltpn)
+                    ]
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-- 
2.43.0


From 618272bf13e22da1225fddaca7a13857c82b02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:16 +0000
Subject: [PATCH 30/37] fix: dpb_parse: free the long-term index that MMCO 3
 assigns

Two pictures ended up with the same LongTermFrameIdx.
---
 tools/h264nal-dpb_parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 13ef9dc..85535ea 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -389,6 +389,9 @@ def simulate_dpb(sps, frames, outfile):
                     pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == ltf_idx)
+                    ]
                     for e in dpb:
                         if not e["is_ltr"] and e["frame_num"] == pic_num:
                             e["is_ltr"] = True
-- 
2.43.0


From 0cce30894b0c1dcef9e9bcd6a2590cd632ac96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:16 +0000
Subject: [PATCH 31/37] fix: dpb_parse: let list modification repeat a picture

A picture named twice was moved instead of being listed twice (as encoders
use for weighted prediction).
---
 tools/h264nal-dpb_parse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 85535ea..62d0399 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -202,6 +202,13 @@ def build_ref_pic_list0(dpb, frame, max_frame_num):
     return strs + ltrs
 
 
+def move_to(ref_list, found, ref_idx):
+    # entries before ref_idx stay: a picture may be listed more than once
+    entry = ref_list[found]
+    rest = [e for e in ref_list[ref_idx:] if e is not entry]
+    return ref_list[:ref_idx] + [entry] + rest
+
+
 def apply_rplm(ref_list, frame, max_frame_num):
     if not frame.get("rplm_l0"):
         return ref_list
@@ -233,8 +240,7 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                ref_list = move_to(ref_list, found, ref_idx)
                 ref_idx += 1
         elif idc == 2:
             lt_num = lt_pic_nums[lt_idx]
@@ -245,8 +251,7 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                ref_list = move_to(ref_list, found, ref_idx)
                 ref_idx += 1
 
     return ref_list
-- 
2.43.0


From a1ac056699ace7991018c5cf7306f1dd7eeac2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:52 +0000
Subject: [PATCH 32/37] fix: dpb_parse: end the sliding window when only
 long-term pictures are left

A stream with more long-term pictures than max_num_ref_frames looped forever.
---
 tools/h264nal-dpb_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 62d0399..6f27b69 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -453,7 +453,7 @@ def simulate_dpb(sps, frames, outfile):
             )
             str_count = sum(1 for e in dpb if not e["is_ltr"])
             ltr_count = sum(1 for e in dpb if e["is_ltr"])
-            while str_count + ltr_count > max_num_ref_frames:
+            while str_count and str_count + ltr_count > max_num_ref_frames:
                 for j, e in enumerate(dpb):
                     if not e["is_ltr"]:
                         dpb.pop(j)
-- 
2.43.0


From c0cb7db8113b878d0784fe258ba84cd5192f11f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 33/37] fix: build the tool in the small footprint
 configuration

---
 tools/h264nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index af85ede..68305f1 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -555,12 +555,12 @@ int main(int argc, char** argv) {
       }
     }
   }
-#endif  // FDUMP_DEFINE
 
   // clean-up FD
   if (must_close_fp) {
     fclose(outfp);
   }
+#endif  // FDUMP_DEFINE
 
   // 5. report how the parse went
   //   kExitOk: every NAL unit parsed
-- 
2.43.0


From 8695e08bf9ee16537de8b96e4a86bb3801a09692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:29 +0000
Subject: [PATCH 34/37] fix: report output that could not be written

---
 tools/h264nal.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 68305f1..d6d3618 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -556,9 +556,16 @@ int main(int argc, char** argv) {
     }
   }
 
-  // clean-up FD
+  // clean-up FD. Output is buffered, so that an output that cannot be
+  // written may only show up here
+  bool write_error = fflush(outfp) != 0 || ferror(outfp) != 0;
   if (must_close_fp) {
-    fclose(outfp);
+    write_error |= fclose(outfp) != 0;
+  }
+  if (write_error) {
+    fprintf(stderr, "Could not write output file: \"%s\"\n",
+            must_close_fp ? options.outfile : "-");
+    return -1;
   }
 #endif  // FDUMP_DEFINE
 
-- 
2.43.0


From 40250bcbcbbbdebfe2026baad858daba231ac865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 35/37] fix: RTP packet parser rewinds to the position it was
 called at, not to the start of the buffer

---
 src/h264_rtp_parser.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 6411c46..2661c0a 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -41,6 +41,9 @@ std::unique_ptr<H264RtpParser::RtpState> H264RtpParser::ParseRtp(
   auto rtp = std::make_unique<RtpState>();
 
   // peek a pseudo-nal_unit_header
+  size_t byte_offset;
+  size_t bit_offset;
+  bit_buffer->GetCurrentOffset(&byte_offset, &bit_offset);
   rtp->nal_unit_header =
       H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer);
   if (rtp->nal_unit_header == nullptr) {
@@ -49,7 +52,7 @@ std::unique_ptr<H264RtpParser::RtpState> H264RtpParser::ParseRtp(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  bit_buffer->Seek(0, 0);
+  bit_buffer->Seek(byte_offset, bit_offset);
 
   if (rtp->nal_unit_header->nal_unit_type <= 23) {
     // rtp_single()
-- 
2.43.0


From 0deea9ebe932542180a4d04293cf384fe7090cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:53 +0000
Subject: [PATCH 36/37] fix: dpb_parse keeps the last reference picture when
 max_num_ref_frames is 0

---
 tools/h264nal-dpb_parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 6f27b69..7d7bc45 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -308,7 +308,8 @@ def mmco_str(frame, max_frame_num):
 
 def simulate_dpb(sps, frames, outfile):
     max_frame_num = 1 << (sps["log2_max_frame_num_minus4"] + 4)
-    max_num_ref_frames = sps["max_num_ref_frames"]
+    # a stream that predicts from no picture still holds the last one
+    max_num_ref_frames = max(sps["max_num_ref_frames"], 1)
 
     dpb = []
     gop_num = 0
-- 
2.43.0


From 6ec11cd568946d0b1179ad67d741848637ce7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 37/37] fix: dpb_parse uses the SPS of each picture, not the
 last SPS of the stream

---
 tools/h264nal-dpb_parse.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 7d7bc45..dcbcd4d 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -29,8 +29,11 @@ def run_h264nal(input_path, h264nal_path):
 
 def parse_frames(content):
     nal_units = re.split(r"^nal_unit \{", content, flags=re.MULTILINE)
+    # the sps read last, and all of them by id
     sps = {}
+    sps_by_id = {}
     pps = {}
+    pps_sps_id = {}
     frames = []
 
     for nal_text in nal_units[1:]:
@@ -40,6 +43,9 @@ def parse_frames(content):
         nal_type = int(nal_type_m.group(1))
 
         if nal_type == 7:
+            sps = {}
+            sps_id = int(re.search(r"seq_parameter_set_id: (\d+)", nal_text).group(1))
+            sps_by_id[sps_id] = sps
             sps["log2_max_frame_num_minus4"] = int(
                 re.search(r"log2_max_frame_num_minus4: (\d+)", nal_text).group(1)
             )
@@ -58,6 +64,9 @@ def parse_frames(content):
                     r"num_ref_idx_l0_default_active_minus1: (\d+)", nal_text
                 ).group(1)
             )
+            pps_sps_id[pps_id] = int(
+                re.search(r"seq_parameter_set_id: (\d+)", nal_text).group(1)
+            )
             continue
 
         if nal_type not in (1, 5):
@@ -81,14 +90,14 @@ def parse_frames(content):
             "is_ref": nal_ref_idc > 0,
         }
 
+        pps_id = int(re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1))
+        frame["sps"] = sps_by_id.get(pps_sps_id.get(pps_id), sps)
+
         override_m = re.search(r"num_ref_idx_active_override_flag: (\d+)", nal_text)
         if override_m and int(override_m.group(1)) == 1:
             l0_m = re.search(r"num_ref_idx_l0_active_minus1: (\d+)", nal_text)
             frame["num_ref_idx_l0_active"] = int(l0_m.group(1)) + 1
         else:
-            pps_id = int(
-                re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1)
-            )
             frame["num_ref_idx_l0_active"] = (
                 pps.get(pps_id, 0) + 1
             )
@@ -306,11 +315,7 @@ def mmco_str(frame, max_frame_num):
     return ";".join(parts)
 
 
-def simulate_dpb(sps, frames, outfile):
-    max_frame_num = 1 << (sps["log2_max_frame_num_minus4"] + 4)
-    # a stream that predicts from no picture still holds the last one
-    max_num_ref_frames = max(sps["max_num_ref_frames"], 1)
-
+def simulate_dpb(frames, outfile):
     dpb = []
     gop_num = 0
     gop_frame = 0
@@ -321,6 +326,11 @@ def simulate_dpb(sps, frames, outfile):
     )
 
     for abs_frame, frame in enumerate(frames):
+        sps = frame["sps"]
+        max_frame_num = 1 << (sps["log2_max_frame_num_minus4"] + 4)
+        # a stream that predicts from no picture still holds the last one
+        max_num_ref_frames = max(sps["max_num_ref_frames"], 1)
+
         if frame["is_idr"]:
             dpb = []
             gop_num += 1 if abs_frame > 0 else 0
@@ -524,10 +534,10 @@ def main():
 
     if args.output:
         with open(args.output, "w") as f:
-            simulate_dpb(sps, frames, f)
+            simulate_dpb(frames, f)
         print(f"Wrote {args.output}", file=sys.stderr)
     else:
-        simulate_dpb(sps, frames, sys.stdout)
+        simulate_dpb(frames, sys.stdout)
 
 
 if __name__ == "__main__":
-- 
2.43.0

