// Flattening of h264nal's public state structs into name -> values tables.
#pragma once
#include "core.h"
#include "h264_bitstream_parser.h"
#include "h264_common.h"
#include "h264_nal_unit_parser.h"
#include "h264_rtp_parser.h"
#include "h264_sps_extension_parser.h"
#include "h264_utils.h"
#include "rtc_common.h"

struct Flat {
  std::map<std::string, std::vector<int64_t>> f;
  std::set<std::string> vecs;
  std::map<std::string, Flat> sub;
};
template <class T> void flat_put(std::vector<int64_t>& o, const T& v) { o.push_back((int64_t)v); }
template <class T> void flat_put(std::vector<int64_t>& o, const std::vector<T>& v) { for (auto& e : v) flat_put(o, e); }
#define FS(n) flat_put(o.f[#n], x.n);
#define FV(n) flat_put(o.f[#n], x.n); o.vecs.insert(#n);

inline Flat flat(const h264nal::H264HrdParametersParser::HrdParametersState& x) {
  Flat o;
  FS(cpb_cnt_minus1) FS(bit_rate_scale) FS(cpb_size_scale) FV(bit_rate_value_minus1) FV(cpb_size_value_minus1) FV(cbr_flag) FS(initial_cpb_removal_delay_length_minus1) 
  FS(cpb_removal_delay_length_minus1) FS(dpb_output_delay_length_minus1) FS(time_offset_length) 
  return o;
}
inline Flat flat(const h264nal::H264VuiParametersParser::VuiParametersState& x) {
  Flat o;
  FS(aspect_ratio_info_present_flag) FS(aspect_ratio_idc) FS(sar_width) FS(sar_height) FS(overscan_info_present_flag) FS(overscan_appropriate_flag) FS(video_signal_type_present_flag) 
  FS(video_format) FS(video_full_range_flag) FS(colour_description_present_flag) FS(colour_primaries) FS(transfer_characteristics) FS(matrix_coefficients) 
  FS(chroma_loc_info_present_flag) FS(chroma_sample_loc_type_top_field) FS(chroma_sample_loc_type_bottom_field) FS(timing_info_present_flag) FS(num_units_in_tick) 
  FS(time_scale) FS(fixed_frame_rate_flag) FS(nal_hrd_parameters_present_flag) FS(vcl_hrd_parameters_present_flag) FS(low_delay_hrd_flag) FS(pic_struct_present_flag) 
  FS(bitstream_restriction_flag) FS(motion_vectors_over_pic_boundaries_flag) FS(max_bytes_per_pic_denom) FS(max_bits_per_mb_denom) FS(log2_max_mv_length_horizontal) 
  FS(log2_max_mv_length_vertical) FS(max_num_reorder_frames) FS(max_dec_frame_buffering) 
  if (x.nal_hrd_parameters) o.sub["nal_hrd_parameters"] = flat(*x.nal_hrd_parameters);
  if (x.vcl_hrd_parameters) o.sub["vcl_hrd_parameters"] = flat(*x.vcl_hrd_parameters);
  return o;
}
inline Flat flat(const h264nal::H264SpsDataParser::SpsDataState& x) {
  Flat o;
  FS(profile_idc) FS(constraint_set0_flag) FS(constraint_set1_flag) FS(constraint_set2_flag) FS(constraint_set3_flag) FS(constraint_set4_flag) FS(constraint_set5_flag) 
  FS(reserved_zero_2bits) FS(level_idc) FS(seq_parameter_set_id) FS(chroma_format_idc) FS(separate_colour_plane_flag) FS(bit_depth_luma_minus8) FS(bit_depth_chroma_minus8) 
  FS(qpprime_y_zero_transform_bypass_flag) FS(seq_scaling_matrix_present_flag) FV(seq_scaling_list_present_flag) FV(ScalingList4x4) FV(UseDefaultScalingMatrix4x4Flag) 
  FV(ScalingList8x8) FV(UseDefaultScalingMatrix8x8Flag) FS(delta_scale) FS(log2_max_frame_num_minus4) FS(pic_order_cnt_type) FS(log2_max_pic_order_cnt_lsb_minus4) 
  FS(delta_pic_order_always_zero_flag) FS(offset_for_non_ref_pic) FS(offset_for_top_to_bottom_field) FS(num_ref_frames_in_pic_order_cnt_cycle) FV(offset_for_ref_frame) 
  FS(max_num_ref_frames) FS(gaps_in_frame_num_value_allowed_flag) FS(pic_width_in_mbs_minus1) FS(pic_height_in_map_units_minus1) FS(frame_mbs_only_flag) 
  FS(mb_adaptive_frame_field_flag) FS(direct_8x8_inference_flag) FS(frame_cropping_flag) FS(frame_crop_left_offset) FS(frame_crop_right_offset) FS(frame_crop_top_offset) 
  FS(frame_crop_bottom_offset) FS(vui_parameters_present_flag) 
  if (x.vui_parameters) o.sub["vui_parameters"] = flat(*x.vui_parameters);
  return o;
}
inline Flat flat(const h264nal::H264PpsParser::PpsState& x) {
  Flat o;
  FS(chroma_format_idc) FS(pic_parameter_set_id) FS(seq_parameter_set_id) FS(entropy_coding_mode_flag) FS(bottom_field_pic_order_in_frame_present_flag) 
  FS(num_slice_groups_minus1) FS(slice_group_map_type) FV(run_length_minus1) FV(top_left) FV(bottom_right) FS(slice_group_change_direction_flag) FS(slice_group_change_rate_minus1) 
  FS(pic_size_in_map_units_minus1) FV(slice_group_id) FS(num_ref_idx_l0_default_active_minus1) FS(num_ref_idx_l1_default_active_minus1) FS(weighted_pred_flag) 
  FS(weighted_bipred_idc) FS(pic_init_qp_minus26) FS(pic_init_qs_minus26) FS(chroma_qp_index_offset) FS(deblocking_filter_control_present_flag) FS(constrained_intra_pred_flag) 
  FS(redundant_pic_cnt_present_flag) FS(transform_8x8_mode_flag) FS(pic_scaling_matrix_present_flag) FV(pic_scaling_list_present_flag) FV(ScalingList4x4) 
  FV(UseDefaultScalingMatrix4x4Flag) FV(ScalingList8x8) FV(UseDefaultScalingMatrix8x8Flag) FS(delta_scale) FS(second_chroma_qp_index_offset) 
  return o;
}
inline Flat flat(const h264nal::H264SpsSvcExtensionParser::SpsSvcExtensionState& x) {
  Flat o;
  FS(ChromaArrayType) FS(inter_layer_deblocking_filter_control_present_flag) FS(extended_spatial_scalability_idc) FS(chroma_phase_x_plus1_flag) FS(chroma_phase_y_plus1) 
  FS(seq_ref_layer_chroma_phase_x_plus1_flag) FS(seq_ref_layer_chroma_phase_y_plus1) FS(seq_scaled_ref_layer_left_offset) FS(seq_scaled_ref_layer_top_offset) 
  FS(seq_scaled_ref_layer_right_offset) FS(seq_scaled_ref_layer_bottom_offset) FS(seq_tcoeff_level_prediction_flag) FS(adaptive_tcoeff_level_prediction_flag) 
  FS(slice_header_restriction_flag) 
  return o;
}
inline Flat flat(const h264nal::H264SubsetSpsParser::SubsetSpsState& x) {
  Flat o;
  FS(svc_vui_parameters_present_flag) FS(bit_equal_to_one) FS(mvc_vui_parameters_present_flag) FS(additional_extension2_flag) FS(additional_extension2_data_flag) 
  
  if (x.seq_parameter_set_data) o.sub["sps_data"] = flat(*x.seq_parameter_set_data);
  if (x.seq_parameter_set_svc_extension) o.sub["seq_parameter_set_svc_extension"] = flat(*x.seq_parameter_set_svc_extension);
  return o;
}
inline Flat flat(const h264nal::H264SpsExtensionParser::SpsExtensionState& x) {
  Flat o;
  FS(seq_parameter_set_id) FS(aux_format_idc) FS(bit_depth_aux_minus8) FS(alpha_incr_flag) FS(alpha_opaque_value) FS(alpha_transparent_value) FS(additional_extension_flag) 
  
  return o;
}
inline Flat flat(const h264nal::H264RefPicListModificationParser::RefPicListModificationState& x) {
  Flat o;
  FS(slice_type) FS(ref_pic_list_modification_flag_l0) FV(modification_of_pic_nums_idc) FV(abs_diff_pic_num_minus1) FV(long_term_pic_num) FS(ref_pic_list_modification_flag_l1) 
  
  return o;
}
inline Flat flat(const h264nal::H264PredWeightTableParser::PredWeightTableState& x) {
  Flat o;
  FS(chroma_array_type) FS(slice_type) FS(num_ref_idx_l0_active_minus1) FS(num_ref_idx_l1_active_minus1) FS(luma_log2_weight_denom) FS(chroma_log2_weight_denom) 
  FV(luma_weight_l0_flag) FV(luma_weight_l0) FV(luma_offset_l0) FV(chroma_weight_l0_flag) FV(chroma_weight_l0) FV(chroma_offset_l0) FV(luma_weight_l1_flag) 
  FV(luma_weight_l1) FV(luma_offset_l1) FV(chroma_weight_l1_flag) FV(chroma_weight_l1) FV(chroma_offset_l1) 
  return o;
}
inline Flat flat(const h264nal::H264DecRefPicMarkingParser::DecRefPicMarkingState& x) {
  Flat o;
  FS(IdrPicFlag) FS(no_output_of_prior_pics_flag) FS(long_term_reference_flag) FS(adaptive_ref_pic_marking_mode_flag) FV(memory_management_control_operation) 
  FV(difference_of_pic_nums_minus1) FV(long_term_pic_num) FV(long_term_frame_idx) FV(max_long_term_frame_idx_plus1) 
  return o;
}
inline Flat flat(const h264nal::H264SliceHeaderParser::SliceHeaderState& x) {
  Flat o;
  FS(nal_ref_idc) FS(nal_unit_type) FS(separate_colour_plane_flag) FS(log2_max_frame_num_minus4) FS(frame_mbs_only_flag) FS(pic_order_cnt_type) FS(bottom_field_pic_order_in_frame_present_flag) 
  FS(delta_pic_order_always_zero_flag) FS(redundant_pic_cnt_present_flag) FS(weighted_pred_flag) FS(weighted_bipred_idc) FS(entropy_coding_mode_flag) FS(deblocking_filter_control_present_flag) 
  FS(num_slice_groups_minus1) FS(slice_group_map_type) FS(pic_width_in_mbs_minus1) FS(pic_height_in_map_units_minus1) FS(slice_group_change_rate_minus1) 
  FS(first_mb_in_slice) FS(slice_type) FS(pic_parameter_set_id) FS(colour_plane_id) FS(frame_num) FS(field_pic_flag) FS(bottom_field_flag) FS(idr_pic_id) 
  FS(pic_order_cnt_lsb) FS(delta_pic_order_cnt_bottom) FV(delta_pic_order_cnt) FS(redundant_pic_cnt) FS(direct_spatial_mv_pred_flag) FS(num_ref_idx_active_override_flag) 
  FS(num_ref_idx_l0_active_minus1) FS(num_ref_idx_l1_active_minus1) FS(cabac_init_idc) FS(sp_for_switch_flag) FS(slice_qp_delta) FS(slice_qs_delta) FS(disable_deblocking_filter_idc) 
  FS(slice_alpha_c0_offset_div2) FS(slice_beta_offset_div2) FS(slice_group_change_cycle) 
  if (x.ref_pic_list_modification) o.sub["ref_pic_list_modification"] = flat(*x.ref_pic_list_modification);
  if (x.pred_weight_table) o.sub["pred_weight_table"] = flat(*x.pred_weight_table);
  if (x.dec_ref_pic_marking) o.sub["dec_ref_pic_marking"] = flat(*x.dec_ref_pic_marking);
  return o;
}
inline Flat flat(const h264nal::H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState& x) {
  Flat o;
  FS(nal_ref_idc) FS(nal_unit_type) FS(separate_colour_plane_flag) FS(log2_max_frame_num_minus4) FS(frame_mbs_only_flag) FS(pic_order_cnt_type) FS(bottom_field_pic_order_in_frame_present_flag) 
  FS(delta_pic_order_always_zero_flag) FS(redundant_pic_cnt_present_flag) FS(weighted_pred_flag) FS(weighted_bipred_idc) FS(no_inter_layer_pred_flag) FS(quality_id) 
  FS(ChromaArrayType) FS(slice_header_restriction_flag) FS(use_ref_base_pic_flag) FS(idr_flag) FS(entropy_coding_mode_flag) FS(deblocking_filter_control_present_flag) 
  FS(num_slice_groups_minus1) FS(slice_group_map_type) FS(pic_width_in_mbs_minus1) FS(pic_height_in_map_units_minus1) FS(slice_group_change_rate_minus1) 
  FS(inter_layer_deblocking_filter_control_present_flag) FS(extended_spatial_scalability_idc) FS(adaptive_tcoeff_level_prediction_flag) FS(first_mb_in_slice) 
  FS(slice_type) FS(pic_parameter_set_id) FS(colour_plane_id) FS(frame_num) FS(field_pic_flag) FS(bottom_field_flag) FS(idr_pic_id) FS(pic_order_cnt_lsb) 
  FS(delta_pic_order_cnt_bottom) FV(delta_pic_order_cnt) FS(redundant_pic_cnt) FS(direct_spatial_mv_pred_flag) FS(num_ref_idx_active_override_flag) FS(num_ref_idx_l0_active_minus1) 
  FS(num_ref_idx_l1_active_minus1) FS(base_pred_weight_table_flag) FS(store_ref_base_pic_flag) FS(cabac_init_idc) FS(slice_qp_delta) FS(disable_deblocking_filter_idc) 
  FS(slice_alpha_c0_offset_div2) FS(slice_beta_offset_div2) FS(slice_group_change_cycle) FS(ref_layer_dq_id) FS(disable_inter_layer_deblocking_filter_idc) 
  FS(inter_layer_slice_alpha_c0_offset_div2) FS(inter_layer_slice_beta_offset_div2) FS(constrained_intra_resampling_flag) FS(ref_layer_chroma_phase_x_plus1_flag) 
  FS(ref_layer_chroma_phase_y_plus1) FS(scaled_ref_layer_left_offset) FS(scaled_ref_layer_top_offset) FS(scaled_ref_layer_right_offset) FS(scaled_ref_layer_bottom_offset) 
  FS(slice_skip_flag) FS(num_mbs_in_slice_minus1) FS(adaptive_base_mode_flag) FS(default_base_mode_flag) FS(adaptive_motion_prediction_flag) FS(default_motion_prediction_flag) 
  FS(adaptive_residual_prediction_flag) FS(default_residual_prediction_flag) FS(tcoeff_level_prediction_flag) FS(scan_idx_start) FS(scan_idx_end) 
  if (x.ref_pic_list_modification) o.sub["ref_pic_list_modification"] = flat(*x.ref_pic_list_modification);
  if (x.pred_weight_table) o.sub["pred_weight_table"] = flat(*x.pred_weight_table);
  if (x.dec_ref_pic_marking) o.sub["dec_ref_pic_marking"] = flat(*x.dec_ref_pic_marking);
  return o;
}
inline Flat flat(const h264nal::H264NalUnitHeaderSvcExtensionParser::NalUnitHeaderSvcExtensionState& x) {
  Flat o;
  FS(idr_flag) FS(priority_id) FS(no_inter_layer_pred_flag) FS(dependency_id) FS(quality_id) FS(temporal_id) FS(use_ref_base_pic_flag) FS(discardable_flag) 
  FS(output_flag) FS(reserved_three_2bits) 
  return o;
}
inline Flat flat(const h264nal::H264NalUnitHeaderParser::NalUnitHeaderState& x) {
  Flat o;
  FS(forbidden_zero_bit) FS(nal_ref_idc) FS(nal_unit_type) FS(svc_extension_flag) FS(avc_3d_extension_flag) 
  if (x.nal_unit_header_svc_extension) o.sub["nal_unit_header_svc_extension"] = flat(*x.nal_unit_header_svc_extension);
  return o;
}
inline Flat flat(const h264nal::H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState& x) {
  Flat o;
  FS(nal_ref_idc) FS(use_ref_base_pic_flag) FS(idr_flag) FS(store_ref_base_pic_flag) FS(additional_prefix_nal_unit_extension_flag)
  FS(additional_prefix_nal_unit_extension_data_flag)
  return o;
}
#undef FS
#undef FV

// Compare everything the reference decoded against the library's struct:
// every decoded element must be there with its value, every vector the
// reference did not fill must be empty, every sub-structure must be present
// exactly when the reference decoded it.
inline std::string vecstr(const std::vector<int64_t>& v) { Node n("", Node::VEC); n.v = v; return n.str(); }
inline const std::set<std::string>& inherited() {
  static const std::set<std::string> s = {"ChromaArrayType", "IdrPicFlag", "adaptive_tcoeff_level_prediction_flag", "bit_equal_to_one", "mvc_vui_parameters_present_flag", "additional_extension2_data_flag", "additional_extension2_flag", "additional_prefix_nal_unit_extension_data_flag", "bottom_field_pic_order_in_frame_present_flag", "chroma_array_type", "chroma_format_idc", "deblocking_filter_control_present_flag", "delta_pic_order_always_zero_flag", "delta_scale", "entropy_coding_mode_flag", "extended_spatial_scalability_idc", "frame_mbs_only_flag", "idr_flag", "inter_layer_deblocking_filter_control_present_flag", "log2_max_frame_num_minus4", "nal_ref_idc", "nal_unit_type", "no_inter_layer_pred_flag", "num_ref_idx_l0_active_minus1", "num_ref_idx_l1_active_minus1", "num_slice_groups_minus1", "pic_height_in_map_units_minus1", "pic_order_cnt_type", "pic_width_in_mbs_minus1", "quality_id", "redundant_pic_cnt_present_flag", "separate_colour_plane_flag", "slice_group_change_rate_minus1", "slice_group_map_type", "slice_header_restriction_flag", "slice_type", "use_ref_base_pic_flag", "weighted_bipred_idc", "weighted_pred_flag"};
  return s;
}
inline void compare(const Node& ref, const Flat& got, const std::string& path) {
  std::set<std::string> seen;
  for (auto& k : ref.kids) {
    seen.insert(k->name);
    std::string p = path + "." + k->name;
    if (k->k == Node::STRUCT) {
      auto it = got.sub.find(k->name);
      if (it == got.sub.end()) fail(p + ": structure present in the bitstream but missing from the decoded state");
      compare(*k, it->second, p);
      continue;
    }
    auto it = got.f.find(k->name);
    if (it == got.f.end()) throw HarnessError("no such field: " + p);
    if (it->second != k->v) fail(p + ": decoded " + vecstr(it->second) + ", bitstream says " + vecstr(k->v));
  }
  // an element that is not in the bitstream reads as zero (its inferred value
  // is traced by the walker where it is something else); copies of elements of
  // the surrounding structures are not checked
  for (auto& v : got.f)
    if (!got.vecs.count(v.first) && !seen.count(v.first) && v.second.size() == 1 && v.second[0] != 0 && !inherited().count(v.first))
      fail(path + "." + v.first + ": reads " + std::to_string(v.second[0]) + " but the element is not in the bitstream");
  for (auto& v : got.vecs) if (!seen.count(v) && !got.f.at(v).empty()) fail(path + "." + v + ": decoded " + vecstr(got.f.at(v)) + " but the element is not in the bitstream");
  for (auto& s : got.sub) if (!seen.count(s.first)) fail(path + "." + s.first + ": decoded but not in the bitstream");
}
