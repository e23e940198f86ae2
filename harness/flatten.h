// Library results as plain Nodes (same names as the reference model), and
// the comparison of the two.
#pragma once
#include "ref.h"

#include "h264_bitstream_parser.h"
#include "h264_bitstream_parser_state.h"
#include "h264_common.h"
#include "h264_nal_unit_parser.h"
#include "h264_sps_extension_parser.h"
#include "rtc_common.h"

using namespace h264nal;

struct Out {
  Node* n;
  string pre;
  Out sub(const string& name) const {
    n->block.insert(pre + name);
    return Out{n, pre + name + "."};
  }
  void s(const char* k, i64 v) const { n->val[pre + k] = v; }
  template <class T>
  void v(const char* k, const vector<T>& x) const {
    auto& o = n->vec[pre + k];
    o.clear();
    for (auto e : x) o.push_back((i64)e);
  }
  // pairs; an inner list of another size is flagged with a marker
  template <class T>
  void v2(const char* k, const vector<vector<T>>& x) const {
    auto& o = n->vec[pre + k];
    o.clear();
    for (auto& e : x) {
      for (auto f : e) o.push_back((i64)f);
      if (e.size() != 2) o.push_back(-99999999999ll - (i64)e.size());
    }
  }
};
#define S_(f) o.s(#f, (i64)x.f)
#define V_(f) o.v(#f, x.f)
#define VV_(f) o.v2(#f, x.f)

inline void flat(const H264HrdParametersParser::HrdParametersState& x, Out o) {
  S_(cpb_cnt_minus1); S_(bit_rate_scale); S_(cpb_size_scale);
  V_(bit_rate_value_minus1); V_(cpb_size_value_minus1); V_(cbr_flag);
  S_(initial_cpb_removal_delay_length_minus1);
  S_(cpb_removal_delay_length_minus1); S_(dpb_output_delay_length_minus1);
  S_(time_offset_length);
}
inline void flat(const H264VuiParametersParser::VuiParametersState& x, Out o) {
  S_(aspect_ratio_info_present_flag); S_(aspect_ratio_idc); S_(sar_width);
  S_(sar_height); S_(overscan_info_present_flag); S_(overscan_appropriate_flag);
  S_(video_signal_type_present_flag); S_(video_format);
  S_(video_full_range_flag); S_(colour_description_present_flag);
  S_(colour_primaries); S_(transfer_characteristics); S_(matrix_coefficients);
  S_(chroma_loc_info_present_flag); S_(chroma_sample_loc_type_top_field);
  S_(chroma_sample_loc_type_bottom_field); S_(timing_info_present_flag);
  S_(num_units_in_tick); S_(time_scale); S_(fixed_frame_rate_flag);
  S_(nal_hrd_parameters_present_flag); S_(vcl_hrd_parameters_present_flag);
  if (x.nal_hrd_parameters) flat(*x.nal_hrd_parameters, o.sub("nal_hrd_parameters"));
  if (x.vcl_hrd_parameters) flat(*x.vcl_hrd_parameters, o.sub("vcl_hrd_parameters"));
  S_(low_delay_hrd_flag); S_(pic_struct_present_flag);
  S_(bitstream_restriction_flag); S_(motion_vectors_over_pic_boundaries_flag);
  S_(max_bytes_per_pic_denom); S_(max_bits_per_mb_denom);
  S_(log2_max_mv_length_horizontal); S_(log2_max_mv_length_vertical);
  S_(max_num_reorder_frames); S_(max_dec_frame_buffering);
}
inline void flat(const H264SpsDataParser::SpsDataState& x, Out o) {
  S_(profile_idc); S_(constraint_set0_flag); S_(constraint_set1_flag);
  S_(constraint_set2_flag); S_(constraint_set3_flag); S_(constraint_set4_flag);
  S_(constraint_set5_flag); S_(reserved_zero_2bits); S_(level_idc);
  S_(seq_parameter_set_id); S_(chroma_format_idc);
  S_(separate_colour_plane_flag); S_(bit_depth_luma_minus8);
  S_(bit_depth_chroma_minus8); S_(qpprime_y_zero_transform_bypass_flag);
  S_(seq_scaling_matrix_present_flag); V_(seq_scaling_list_present_flag);
  V_(ScalingList4x4); V_(UseDefaultScalingMatrix4x4Flag); V_(ScalingList8x8);
  V_(UseDefaultScalingMatrix8x8Flag); S_(delta_scale);
  S_(log2_max_frame_num_minus4); S_(pic_order_cnt_type);
  S_(log2_max_pic_order_cnt_lsb_minus4); S_(delta_pic_order_always_zero_flag);
  S_(offset_for_non_ref_pic); S_(offset_for_top_to_bottom_field);
  S_(num_ref_frames_in_pic_order_cnt_cycle); V_(offset_for_ref_frame);
  S_(max_num_ref_frames); S_(gaps_in_frame_num_value_allowed_flag);
  S_(pic_width_in_mbs_minus1); S_(pic_height_in_map_units_minus1);
  S_(frame_mbs_only_flag); S_(mb_adaptive_frame_field_flag);
  S_(direct_8x8_inference_flag); S_(frame_cropping_flag);
  S_(frame_crop_left_offset); S_(frame_crop_right_offset);
  S_(frame_crop_top_offset); S_(frame_crop_bottom_offset);
  S_(vui_parameters_present_flag);
  if (x.vui_parameters) flat(*x.vui_parameters, o.sub("vui_parameters"));
}
inline void flat(const H264SpsParser::SpsState& x, Out o) {
  if (x.sps_data) flat(*x.sps_data, o.sub("sps_data"));
}
inline void flat(const H264SpsExtensionParser::SpsExtensionState& x, Out o) {
  S_(seq_parameter_set_id); S_(aux_format_idc); S_(bit_depth_aux_minus8);
  S_(alpha_incr_flag); S_(alpha_opaque_value); S_(alpha_transparent_value);
  S_(additional_extension_flag);
}
inline void flat(const H264SpsSvcExtensionParser::SpsSvcExtensionState& x, Out o) {
  S_(inter_layer_deblocking_filter_control_present_flag);
  S_(extended_spatial_scalability_idc); S_(chroma_phase_x_plus1_flag);
  S_(chroma_phase_y_plus1); S_(seq_ref_layer_chroma_phase_x_plus1_flag);
  S_(seq_ref_layer_chroma_phase_y_plus1); S_(seq_scaled_ref_layer_left_offset);
  S_(seq_scaled_ref_layer_top_offset); S_(seq_scaled_ref_layer_right_offset);
  S_(seq_scaled_ref_layer_bottom_offset); S_(seq_tcoeff_level_prediction_flag);
  S_(adaptive_tcoeff_level_prediction_flag); S_(slice_header_restriction_flag);
}
inline void flat(const H264SubsetSpsParser::SubsetSpsState& x, Out o) {
  if (x.seq_parameter_set_data) flat(*x.seq_parameter_set_data, o.sub("sps_data"));
  if (x.seq_parameter_set_svc_extension)
    flat(*x.seq_parameter_set_svc_extension, o.sub("seq_parameter_set_svc_extension"));
  S_(svc_vui_parameters_present_flag); S_(bit_equal_to_one);
  S_(additional_extension2_flag); S_(additional_extension2_data_flag);
}
inline void flat(const H264PpsParser::PpsState& x, Out o) {
  S_(pic_parameter_set_id); S_(seq_parameter_set_id);
  S_(entropy_coding_mode_flag); S_(bottom_field_pic_order_in_frame_present_flag);
  S_(num_slice_groups_minus1); S_(slice_group_map_type); V_(run_length_minus1);
  V_(top_left); V_(bottom_right); S_(slice_group_change_direction_flag);
  S_(slice_group_change_rate_minus1); S_(pic_size_in_map_units_minus1);
  V_(slice_group_id); S_(num_ref_idx_l0_default_active_minus1);
  S_(num_ref_idx_l1_default_active_minus1); S_(weighted_pred_flag);
  S_(weighted_bipred_idc); S_(pic_init_qp_minus26); S_(pic_init_qs_minus26);
  S_(chroma_qp_index_offset); S_(deblocking_filter_control_present_flag);
  S_(constrained_intra_pred_flag); S_(redundant_pic_cnt_present_flag);
  S_(transform_8x8_mode_flag); S_(pic_scaling_matrix_present_flag);
  V_(pic_scaling_list_present_flag); V_(ScalingList4x4);
  V_(UseDefaultScalingMatrix4x4Flag); V_(ScalingList8x8);
  V_(UseDefaultScalingMatrix8x8Flag); S_(delta_scale);
  S_(second_chroma_qp_index_offset);
}
inline void flat(const H264RefPicListModificationParser::RefPicListModificationState& x, Out o) {
  S_(ref_pic_list_modification_flag_l0); V_(modification_of_pic_nums_idc);
  V_(abs_diff_pic_num_minus1); V_(long_term_pic_num);
  S_(ref_pic_list_modification_flag_l1);
}
inline void flat(const H264PredWeightTableParser::PredWeightTableState& x, Out o) {
  S_(luma_log2_weight_denom); S_(chroma_log2_weight_denom);
  V_(luma_weight_l0_flag); V_(luma_weight_l0); V_(luma_offset_l0);
  V_(chroma_weight_l0_flag); VV_(chroma_weight_l0); VV_(chroma_offset_l0);
  V_(luma_weight_l1_flag); V_(luma_weight_l1); V_(luma_offset_l1);
  V_(chroma_weight_l1_flag); VV_(chroma_weight_l1); VV_(chroma_offset_l1);
}
inline void flat(const H264DecRefPicMarkingParser::DecRefPicMarkingState& x, Out o) {
  S_(no_output_of_prior_pics_flag); S_(long_term_reference_flag);
  S_(adaptive_ref_pic_marking_mode_flag);
  V_(memory_management_control_operation); V_(difference_of_pic_nums_minus1);
  V_(long_term_pic_num); V_(long_term_frame_idx);
  V_(max_long_term_frame_idx_plus1);
}
inline void flat(const H264SliceHeaderParser::SliceHeaderState& x, Out o) {
  S_(first_mb_in_slice); S_(slice_type); S_(pic_parameter_set_id);
  S_(colour_plane_id); S_(frame_num); S_(field_pic_flag); S_(bottom_field_flag);
  S_(idr_pic_id); S_(pic_order_cnt_lsb); S_(delta_pic_order_cnt_bottom);
  V_(delta_pic_order_cnt); S_(redundant_pic_cnt); S_(direct_spatial_mv_pred_flag);
  S_(num_ref_idx_active_override_flag); S_(num_ref_idx_l0_active_minus1);
  S_(num_ref_idx_l1_active_minus1);
  if (x.ref_pic_list_modification) flat(*x.ref_pic_list_modification, o.sub("ref_pic_list_modification"));
  if (x.pred_weight_table) flat(*x.pred_weight_table, o.sub("pred_weight_table"));
  if (x.dec_ref_pic_marking) flat(*x.dec_ref_pic_marking, o.sub("dec_ref_pic_marking"));
  S_(cabac_init_idc); S_(sp_for_switch_flag); S_(slice_qp_delta);
  S_(slice_qs_delta); S_(disable_deblocking_filter_idc);
  S_(slice_alpha_c0_offset_div2); S_(slice_beta_offset_div2);
  S_(slice_group_change_cycle);
}
inline void flat(const H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState& x, Out o) {
  S_(first_mb_in_slice); S_(slice_type); S_(pic_parameter_set_id);
  S_(colour_plane_id); S_(frame_num); S_(field_pic_flag); S_(bottom_field_flag);
  S_(idr_pic_id); S_(pic_order_cnt_lsb); S_(delta_pic_order_cnt_bottom);
  V_(delta_pic_order_cnt); S_(redundant_pic_cnt); S_(direct_spatial_mv_pred_flag);
  S_(num_ref_idx_active_override_flag); S_(num_ref_idx_l0_active_minus1);
  S_(num_ref_idx_l1_active_minus1);
  if (x.ref_pic_list_modification) flat(*x.ref_pic_list_modification, o.sub("ref_pic_list_modification"));
  S_(base_pred_weight_table_flag);
  if (x.pred_weight_table) flat(*x.pred_weight_table, o.sub("pred_weight_table"));
  if (x.dec_ref_pic_marking) flat(*x.dec_ref_pic_marking, o.sub("dec_ref_pic_marking"));
  S_(store_ref_base_pic_flag); S_(cabac_init_idc); S_(slice_qp_delta);
  S_(disable_deblocking_filter_idc); S_(slice_alpha_c0_offset_div2);
  S_(slice_beta_offset_div2); S_(slice_group_change_cycle); S_(ref_layer_dq_id);
  S_(disable_inter_layer_deblocking_filter_idc);
  S_(inter_layer_slice_alpha_c0_offset_div2);
  S_(inter_layer_slice_beta_offset_div2); S_(constrained_intra_resampling_flag);
  S_(ref_layer_chroma_phase_x_plus1_flag); S_(ref_layer_chroma_phase_y_plus1);
  S_(scaled_ref_layer_left_offset); S_(scaled_ref_layer_top_offset);
  S_(scaled_ref_layer_right_offset); S_(scaled_ref_layer_bottom_offset);
  S_(slice_skip_flag); S_(num_mbs_in_slice_minus1); S_(adaptive_base_mode_flag);
  S_(default_base_mode_flag); S_(adaptive_motion_prediction_flag);
  S_(default_motion_prediction_flag); S_(adaptive_residual_prediction_flag);
  S_(default_residual_prediction_flag); S_(tcoeff_level_prediction_flag);
  S_(scan_idx_start); S_(scan_idx_end);
}
inline void flat(const H264PrefixNalUnitRbspParser::PrefixNalUnitRbspState& y, Out o1) {
  if (!y.prefix_nal_unit_svc) return;
  auto& x = *y.prefix_nal_unit_svc;
  Out o = o1.sub("prefix_nal_unit_svc");
  S_(store_ref_base_pic_flag); S_(additional_prefix_nal_unit_extension_flag);
  S_(additional_prefix_nal_unit_extension_data_flag);
}
inline void flat(const H264NalUnitHeaderParser::NalUnitHeaderState& x, Out o) {
  S_(forbidden_zero_bit); S_(nal_ref_idc); S_(nal_unit_type);
  S_(svc_extension_flag); S_(avc_3d_extension_flag);
  if (x.nal_unit_header_svc_extension) {
    auto& y = *x.nal_unit_header_svc_extension;
    Out p = o.sub("nal_unit_header_svc_extension");
#define S2_(f) p.s(#f, (i64)y.f)
    S2_(idr_flag); S2_(priority_id); S2_(no_inter_layer_pred_flag);
    S2_(dependency_id); S2_(quality_id); S2_(temporal_id);
    S2_(use_ref_base_pic_flag); S2_(discardable_flag); S2_(output_flag);
    S2_(reserved_three_2bits);
#undef S2_
  }
}
inline void flat(const H264NalUnitPayloadParser::NalUnitPayloadState& x, Out o) {
  if (x.sps) flat(*x.sps, o.sub("sps"));
  if (x.pps) flat(*x.pps, o.sub("pps"));
  if (x.slice_layer_without_partitioning_rbsp) {
    Out p = o.sub("slice_layer_without_partitioning_rbsp");
    if (x.slice_layer_without_partitioning_rbsp->slice_header)
      flat(*x.slice_layer_without_partitioning_rbsp->slice_header, p.sub("slice_header"));
  }
  if (x.prefix_nal_unit) flat(*x.prefix_nal_unit, o.sub("prefix_nal_unit_rbsp"));
  if (x.subset_sps) flat(*x.subset_sps, o.sub("subset_sps"));
  if (x.slice_layer_extension_rbsp) {
    Out p = o.sub("slice_layer_extension_rbsp");
    auto& y = *x.slice_layer_extension_rbsp;
    if (y.slice_header_in_scalable_extension)
      flat(*y.slice_header_in_scalable_extension, p.sub("slice_header_in_scalable_extension"));
    if (y.slice_header) flat(*y.slice_header, p.sub("slice_header"));
  }
}
inline bool payload_any(const H264NalUnitPayloadParser::NalUnitPayloadState& x) {
  return x.sps || x.pps || x.slice_layer_without_partitioning_rbsp ||
         x.prefix_nal_unit || x.subset_sps || x.slice_layer_extension_rbsp;
}
inline Node flat_nal(const H264NalUnitParser::NalUnitState& x) {
  Node n;
  Out o{&n, ""};
  if (x.nal_unit_header) flat(*x.nal_unit_header, o.sub("nal_unit_header"));
  if (x.nal_unit_payload) flat(*x.nal_unit_payload, o);
  return n;
}
template <class T>
inline Node flat_one(const T& x, const string& name) {
  Node n;
  Out o{&n, ""};
  flat(x, o.sub(name));
  return n;
}

inline string leaf(const string& p) {
  size_t i = p.rfind('.');
  return i == string::npos ? p : p.substr(i + 1);
}
inline i64 default_of(const string& name) {
  return leaf(name) == "chroma_format_idc" ? 1 : 0;
}
inline bool free_when_absent(const string& name) {
  string l = leaf(name);
  return l == "second_chroma_qp_index_offset" ||
         l == "num_ref_idx_l0_active_minus1" ||
         l == "num_ref_idx_l1_active_minus1";
}
inline string lst(const vector<i64>& v) {
  string s = fmt("(%zu)[", v.size());
  for (size_t i = 0; i < v.size() && i < 40; i++) s += fmt("%" PRId64 " ", v[i]);
  return s + "]";
}

// First difference between what the model expects and what the library
// reports; empty when they agree. `field` receives the field name.
inline string compare(const Node& ref, const Node& lib, string* field) {
  static const vector<i64> none;
  if (ref.block != lib.block) {
    for (auto& b : ref.block)
      if (!lib.block.count(b)) {
        *field = b;
        return "substructure " + b + " coded but not reported";
      }
    for (auto& b : lib.block)
      if (!ref.block.count(b)) {
        *field = b;
        return "substructure " + b + " reported but not coded";
      }
  }
  for (auto& kv : lib.val) {
    auto it = ref.val.find(kv.first);
    if (it == ref.val.end() && free_when_absent(kv.first)) continue;
    i64 e = it == ref.val.end() ? default_of(kv.first) : it->second;
    if (e != kv.second) {
      *field = kv.first;
      return fmt("%s: coded %" PRId64 " reported %" PRId64, kv.first.c_str(), e, kv.second);
    }
  }
  for (auto& kv : lib.vec) {
    auto it = ref.vec.find(kv.first);
    const vector<i64>& e = it == ref.vec.end() ? none : it->second;
    if (e != kv.second) {
      *field = kv.first;
      return kv.first + ": coded " + lst(e) + " reported " + lst(kv.second);
    }
  }
  for (auto& kv : ref.val)
    if (!lib.val.count(kv.first)) {
      *field = kv.first;
      return kv.first + " not reported";
    }
  for (auto& kv : ref.vec)
    if (!lib.vec.count(kv.first)) {
      *field = kv.first;
      return kv.first + " not reported";
    }
  return "";
}

inline u64 digest(const Node& n) {
  u64 h = 1469598103934665603ull;
  for (auto& b : n.block) h = fnvs(b, h);
  for (auto& kv : n.val) {
    h = fnvs(kv.first, h);
    h = fnv(&kv.second, 8, h);
  }
  for (auto& kv : n.vec) {
    h = fnvs(kv.first, h);
    if (!kv.second.empty()) h = fnv(kv.second.data(), 8 * kv.second.size(), h);
  }
  return h;
}
// digest of the shape of a structure: which elements were coded
inline u64 shape(const Node& n) {
  u64 h = 99;
  for (auto& c : n.coded) h = fnvs(c, h);
  for (auto& kv : n.vec) {
    size_t z = kv.second.size();
    h = fnv(&z, sizeof z, h);
  }
  return h;
}
inline Node only_payload(const Node& n) {
  Node o;
  auto keep = [](const string& k) { return k.compare(0, 15, "nal_unit_header") != 0; };
  for (auto& x : n.val) if (keep(x.first)) o.val.insert(x);
  for (auto& x : n.vec) if (keep(x.first)) o.vec.insert(x);
  for (auto& x : n.coded) if (keep(x)) o.coded.insert(x);
  for (auto& x : n.block) if (keep(x)) o.block.insert(x);
  return o;
}

// Digest of the remembered parameter sets
inline Node flat_state(const H264BitstreamParserState& st) {
  Node n;
  Out o{&n, ""};
  for (auto& x : st.sps) if (x.second) flat(*x.second, o.sub(fmt("sps[%u]", x.first)));
  for (auto& x : st.pps) if (x.second) flat(*x.second, o.sub(fmt("pps[%u]", x.first)));
  for (auto& x : st.subset_sps) if (x.second) flat(*x.second, o.sub(fmt("subset_sps[%u]", x.first)));
  return n;
}

// Do the remembered sets equal the model's? (ids and content)
inline string compare_state(const RefState& ref, const H264BitstreamParserState& st, string* field) {
  auto ids = [&](const char* kind, auto& a, auto& b) -> string {
    auto i = a.begin();
    auto j = b.begin();
    for (; i != a.end() || j != b.end(); ++i, ++j) {
      i64 x = i == a.end() ? -1 : i->first, y = j == b.end() ? -1 : (i64)j->first;
      if (x != y) {
        *field = kind;
        return fmt("%s ids differ: expected %" PRId64 " found %" PRId64, kind, x, y);
      }
    }
    return "";
  };
  string e;
  if (!(e = ids("sps", ref.sps, st.sps)).empty()) return e;
  if (!(e = ids("pps", ref.pps, st.pps)).empty()) return e;
  if (!(e = ids("subset_sps", ref.subset, st.subset_sps)).empty()) return e;
  for (auto& x : st.sps) {
    if (!x.second) { *field = "sps"; return "null stored sps"; }
    e = compare(only_payload(*ref.sps.at(x.first).n), flat_one(*x.second, "sps"), field);
    if (!e.empty()) return fmt("stored sps %u: ", x.first) + e;
  }
  for (auto& x : st.pps) {
    if (!x.second) { *field = "pps"; return "null stored pps"; }
    e = compare(only_payload(*ref.pps.at(x.first).n), flat_one(*x.second, "pps"), field);
    if (!e.empty()) return fmt("stored pps %u: ", x.first) + e;
  }
  for (auto& x : st.subset_sps) {
    if (!x.second) { *field = "subset_sps"; return "null stored subset sps"; }
    e = compare(only_payload(*ref.subset.at(x.first).n), flat_one(*x.second, "subset_sps"), field);
    if (!e.empty()) return fmt("stored subset sps %u: ", x.first) + e;
  }
  return "";
}
