// Reference model of the H.264 syntax h264nal decodes, written from the
// syntax tables of Rec. ITU-T H.264 (7.3.x, E.1.x, F/G.7.3.x). One walker per
// syntax structure serves both as the generator (values chosen from the tape,
// bits written) and as the reference parser (bits read, verdict computed).
#pragma once
#include "core.h"

struct Reject { std::string why; };
struct Unimplemented { std::string what; };  // syntax h264nal refuses on purpose

enum Hard { HARD, SOFT };

struct Ctx {
  bool gen;
  Tape* t = nullptr;
  BitW w;
  BitR* r = nullptr;
  Node root;
  std::vector<Node*> st;
  bool lax = false;        // saw a value outside the standard's range that the
                           // library is not known to check: either verdict is fine
  bool opaque = false;     // input the standard gives no meaning to: nothing to compare
  int fault_at = -1;       // generator: index of the range-checked element to break
  int hard_seen = 0;       // range-checked elements met so far
  std::string fault_name;
  bool big = false;        // generator: allow long loops
  bool want_unimpl = false;  // generator: may choose syntax h264nal does not implement
  Ctx(Tape& tp) : gen(true), t(&tp) { st.push_back(&root); }
  Ctx(BitR& rd) : gen(false), r(&rd) { st.push_back(&root); }

  void open(const char* n) { auto x = std::make_unique<Node>(n, Node::STRUCT); Node* p = x.get(); st.back()->kids.push_back(std::move(x)); st.push_back(p); }
  void close() { st.pop_back(); }
  void rec(const char* n, int64_t v) { if (!n) return; auto x = std::make_unique<Node>(n, Node::SCALAR); x->v.push_back(v); st.back()->kids.push_back(std::move(x)); }
  void recv(const char* n, int64_t v) {
    if (!n) return;
    Node* x = st.back()->find(n);
    if (!x) { auto y = std::make_unique<Node>(n, Node::VEC); x = y.get(); st.back()->kids.push_back(std::move(y)); }
    x->v.push_back(v);
  }
  void setv(const char* n, const std::vector<int64_t>& v) {
    Node* x = st.back()->find(n);
    if (!x) { auto y = std::make_unique<Node>(n, Node::VEC); x = y.get(); st.back()->kids.push_back(std::move(y)); }
    x->v = v;
  }
  void touchv(const char* n) { if (!st.back()->find(n)) st.back()->kids.push_back(std::make_unique<Node>(n, Node::VEC)); }

  void chk(const char* n, int64_t v, int64_t lo, int64_t hi, Hard h) {
    if (v >= lo && v <= hi) return;
    if (h == HARD) throw Reject{std::string(n) + "=" + std::to_string(v) + " outside [" + std::to_string(lo) + "," + std::to_string(hi) + "]"};
    lax = true;
  }
  // raw codes -------------------------------------------------------------
  uint32_t raw_u(int n, uint64_t v) { if (gen) { w.u(n, v); return (uint32_t)v; } return (uint32_t)r->u(n); }

  uint32_t u(int n, const char* name) {
    uint32_t v;
    if (gen) { uint64_t m = n >= 32 ? 0xffffffffull : (1ull << n) - 1; v = n == 1 ? t->below(2) : (uint32_t)t->pick(0, (int64_t)m); w.u(n, v); }
    else v = (uint32_t)r->u(n);
    rec(name, v); return v;
  }
  uint32_t uvec(int n, const char* name) {
    uint32_t v;
    if (gen) { v = n == 1 ? t->below(2) : (uint32_t)t->pick(0, (int64_t)((1ull << n) - 1)); w.u(n, v); } else v = (uint32_t)r->u(n);
    recv(name, v); return v;
  }
  // u(n) restricted to a set when generating
  uint32_t uset(int n, const char* name, const std::vector<uint32_t>& s) {
    uint32_t v;
    if (gen) { v = s[t->below((uint32_t)s.size())]; w.u(n, v); } else v = (uint32_t)r->u(n);
    rec(name, v); return v;
  }
  // u(n) with a hard range
  uint32_t urange(int n, const char* name, int64_t lo, int64_t hi, Hard h) {
    uint32_t v;
    if (gen) {
      v = (uint32_t)t->pick(lo, hi);
      if (h == HARD && hard_seen++ == fault_at && lo > 0) { fault_name = name; w.u(n, (uint32_t)t->below((uint32_t)lo)); rec(name, v); return v; }
      w.u(n, v);
    } else { v = (uint32_t)r->u(n); chk(name, v, lo, hi, h); }
    rec(name, v); return v;
  }
  uint32_t flag_p(const char* name, uint32_t num, uint32_t den) {  // biased flag
    uint32_t v;
    if (gen) { v = t->coin(num, den) ? 1 : 0; w.u(1, v); } else v = (uint32_t)r->u(1);
    rec(name, v); return v;
  }
  uint64_t read_ue() { bool ok; uint64_t v = r->ue(ok); if (!ok) throw Reject{"exp-golomb code longer than 32 bits"}; return v; }
  int64_t genval(const char* name, int64_t lo, int64_t hi, int64_t ghi, Hard h, int64_t absmax, bool& bad, int64_t& badv) {
    bad = false;
    int64_t v = t->pick(lo, ghi < hi ? ghi : hi);
    if (h == HARD && hard_seen++ == fault_at) {
      bad = true; fault_name = name;
      int64_t above = t->below(3) ? hi + 1 + t->below(3) : t->pick(hi + 1, absmax);
      badv = above > absmax ? absmax : above;
      if (lo < 0 && t->below(2)) { badv = lo - 1 - (int64_t)t->below(3); if (badv < -absmax) badv = -absmax; }
    }
    return v;
  }
  static constexpr int64_t UEMAX = 4294967294ll;
  static constexpr int64_t SEMAX = 2147483647ll;
  uint32_t ue_(const char* name, int64_t lo, int64_t hi, Hard h, int64_t ghi, bool vec) {
    int64_t v;
    if (gen) {
      bool bad; int64_t bv;
      v = genval(name, lo, hi, ghi, h, UEMAX, bad, bv);
      w.ue(bad ? bv : v);
    } else { v = (int64_t)read_ue(); chk(name, v, lo, hi, h); }
    if (vec) recv(name, v); else rec(name, v);
    return (uint32_t)v;
  }
  uint32_t ue(const char* n, int64_t lo, int64_t hi, Hard h = HARD, int64_t ghi = UEMAX) { return ue_(n, lo, hi, h, ghi, false); }
  uint32_t uev(const char* n, int64_t lo, int64_t hi, Hard h = HARD, int64_t ghi = UEMAX) { return ue_(n, lo, hi, h, ghi, true); }
  int32_t se_(const char* name, int64_t lo, int64_t hi, Hard h, bool vec) {
    int64_t v;
    if (gen) { bool bad; int64_t bv; v = genval(name, lo, hi, hi, h, SEMAX, bad, bv); w.se(bad ? bv : v); }
    else { v = se_of(read_ue()); chk(name, v, lo, hi, h); }
    if (vec) recv(name, v); else rec(name, v);
    return (int32_t)v;
  }
  int32_t se(const char* n, int64_t lo = -SEMAX, int64_t hi = SEMAX, Hard h = SOFT) { return se_(n, lo, hi, h, false); }
  int32_t sev(const char* n, int64_t lo = -SEMAX, int64_t hi = SEMAX, Hard h = SOFT) { return se_(n, lo, hi, h, true); }
  // a do-while style element with an explicit generator choice
  uint32_t ue_choice(const char* name, int64_t hi, uint32_t chosen) {
    int64_t v;
    if (gen) {
      v = chosen;
      if (hard_seen++ == fault_at) { fault_name = name; w.ue(hi + 1 + t->below(3)); } else w.ue(v);
    } else { v = (int64_t)read_ue(); chk(name, v, 0, hi, HARD); }
    recv(name, v); return (uint32_t)v;
  }
  bool more() {  // more_rbsp_data()
    size_t q = r->end; while (q > r->p && !r->peekbit(q - 1)) q--;
    if (q == r->p && r->end > r->p) opaque = true;  // no rbsp_stop_one_bit
    return r->more_rbsp_data();
  }
  size_t bitpos() const { return gen ? w.n : r->p; }
};

// ------------------------------------------------------------------ models
struct SpsM {
  uint32_t profile_idc = 0, id = 0, chroma_format_idc = 1, separate = 0, bd_luma = 0, bd_chroma = 0;
  uint32_t cs[6] = {0};
  uint32_t log2_fn = 0, poc_type = 0, log2_poc = 0, delta_zero = 0, fmo = 1;
  uint32_t w_mbs1 = 0, h_mu1 = 0, crop = 0, cl = 0, cr = 0, ct = 0, cb = 0;
  bool vui = false; uint32_t timing = 0, nuit = 0, ts = 0;
  uint32_t chroma_array_type() const { return separate ? 0 : chroma_format_idc; }
};
struct PpsM {
  uint32_t id = 0, sps_id = 0, cabac = 0, bfpo = 0, nsg1 = 0, map_type = 0, change_rate1 = 0, l0 = 0, l1 = 0, wp = 0, wb = 0, dbf = 0, redundant = 0;
  uint32_t chroma_format_idc_used = 1; bool used_transform_lists = false;
};
struct SvcM { uint32_t ildfc = 0, ess = 0, adaptive_tcoeff = 0, restriction = 0; };
struct SubM { SpsM sps; bool has_svc = false; SvcM svc; };
struct RefState {
  std::map<uint32_t, SpsM> sps;
  std::map<uint32_t, PpsM> pps;
  std::map<uint32_t, SubM> sub;
};
struct SvcHdr { uint32_t idr = 0, no_ilp = 0, quality = 0, use_ref_base = 0; };

inline bool is_high_profile(uint32_t p) {
  for (uint32_t x : {100u, 110u, 122u, 244u, 44u, 83u, 86u, 118u, 128u, 138u, 139u, 134u, 135u}) if (p == x) return true;
  return false;
}
inline int ceil_log2_u(uint64_t n) { int k = 0; while ((1ull << k) < n) k++; return k; }  // ceil(log2(n)), n >= 1
// Ceil(Log2(a / b + 1)) with exact division: smallest k with b*2^k >= a + b
inline int change_cycle_bits(uint64_t pic, uint64_t rate) { int k = 0; while ((rate << k) < pic + rate) k++; return k; }

// scaling_list() 7.3.2.1.1.1; returns the decoded list
inline std::vector<int64_t> w_scaling_list(Ctx& c, int size, bool& use_default, int64_t& last_delta) {
  std::vector<int64_t> l; int last = 8, next = 8; use_default = false;
  int mode = c.gen ? c.t->below(5) : 0;  // 0 default, 1 flat run, else random
  int stop = c.gen ? (int)c.t->below(size + 1) : 0;
  for (int j = 0; j < size; j++) {
    if (next != 0) {
      int64_t d;
      if (c.gen) {
        int want;
        if (mode == 0) want = 0;
        else if (mode == 1) want = j >= stop ? 0 : 1 + (int)c.t->below(255);
        else if (mode == 2) want = 1 + (int)c.t->below(255);
        else if (mode == 3) want = j >= stop ? 0 : last;
        else want = (int)c.t->below(256);
        d = ((want - last + 128) % 256 + 256) % 256 - 128;
        if (c.hard_seen++ == c.fault_at) { c.fault_name = "delta_scale"; c.w.se(c.t->below(2) ? 128 + c.t->below(3) : -129 - (int64_t)c.t->below(3)); }
        else c.w.se(d);
      } else { d = se_of(c.read_ue()); c.chk("delta_scale", d, -128, 127, HARD); }
      last_delta = d;
      next = (int)(((int64_t)last + d + 256) % 256);
      if (j == 0 && next == 0) use_default = true;
    }
    int v = next == 0 ? last : next;
    l.push_back(v); last = v;
  }
  return l;
}
// n lists, the first six 4x4. Presence flag, last transmitted lists and
// use-default flags end up in the trace under the library's field names.
inline void w_scaling_matrix(Ctx& c, int n, const char* present) {
  std::vector<int64_t> l4, l8, d4, d8; int64_t last_delta = 0; bool any = false;
  for (int i = 0; i < n; i++) {
    uint32_t f;
    if (c.gen) { f = c.t->coin(1, 3) ? 1 : 0; c.w.u(1, f); } else f = (uint32_t)c.r->u(1);
    c.recv(present, f);
    if (!f) continue;
    bool ud; any = true;
    auto l = w_scaling_list(c, i < 6 ? 16 : 64, ud, last_delta);
    auto& L = i < 6 ? l4 : l8; auto& D = i < 6 ? d4 : d8; size_t ix = i < 6 ? i : i - 6;
    L = l; while (D.size() <= ix) D.push_back(0); D[ix] = ud;
  }
  c.setv("ScalingList4x4", l4); c.setv("ScalingList8x8", l8);
  c.setv("UseDefaultScalingMatrix4x4Flag", d4); c.setv("UseDefaultScalingMatrix8x8Flag", d8);
  if (any) c.rec("delta_scale", last_delta);  // the last one
}

// hrd_parameters() E.1.2
inline void w_hrd(Ctx& c, const char* node) {
  c.open(node);
  uint32_t n = c.ue("cpb_cnt_minus1", 0, 31);
  c.u(4, "bit_rate_scale"); c.u(4, "cpb_size_scale");
  for (uint32_t i = 0; i <= n; i++) { c.uev("bit_rate_value_minus1", 0, Ctx::UEMAX, SOFT); c.uev("cpb_size_value_minus1", 0, Ctx::UEMAX, SOFT); c.uvec(1, "cbr_flag"); }
  c.u(5, "initial_cpb_removal_delay_length_minus1"); c.u(5, "cpb_removal_delay_length_minus1");
  c.u(5, "dpb_output_delay_length_minus1"); c.u(5, "time_offset_length");
  c.close();
}
// vui_parameters() E.1.1
inline void w_vui(Ctx& c, SpsM* s) {
  c.open("vui_parameters");
  if (c.u(1, "aspect_ratio_info_present_flag")) {
    uint32_t idc;
    if (c.gen) { idc = c.t->coin(1, 2) ? 255 : (uint32_t)c.t->pick(0, 255); c.w.u(8, idc); } else idc = (uint32_t)c.r->u(8);
    c.rec("aspect_ratio_idc", idc);
    if (idc == 255) { c.u(16, "sar_width"); c.u(16, "sar_height"); }
  }
  if (c.u(1, "overscan_info_present_flag")) c.u(1, "overscan_appropriate_flag");
  if (c.u(1, "video_signal_type_present_flag")) {
    c.u(3, "video_format"); c.u(1, "video_full_range_flag");
    if (c.u(1, "colour_description_present_flag")) { c.u(8, "colour_primaries"); c.u(8, "transfer_characteristics"); c.u(8, "matrix_coefficients"); }
  }
  if (c.u(1, "chroma_loc_info_present_flag")) { c.ue("chroma_sample_loc_type_top_field", 0, 5); c.ue("chroma_sample_loc_type_bottom_field", 0, 5); }
  uint32_t timing = c.u(1, "timing_info_present_flag"), nuit = 0, ts = 0;
  if (timing) {
    nuit = c.urange(32, "num_units_in_tick", 1, 0xffffffffll, HARD);
    ts = c.urange(32, "time_scale", 1, 0xffffffffll, HARD);
    c.u(1, "fixed_frame_rate_flag");
  }
  if (s) { s->timing = timing; s->nuit = nuit; s->ts = ts; }
  uint32_t a = c.flag_p("nal_hrd_parameters_present_flag", 1, 3);
  if (a) w_hrd(c, "nal_hrd_parameters");
  uint32_t b = c.flag_p("vcl_hrd_parameters_present_flag", 1, 3);
  if (b) w_hrd(c, "vcl_hrd_parameters");
  if (a || b) c.u(1, "low_delay_hrd_flag");
  c.u(1, "pic_struct_present_flag");
  if (c.u(1, "bitstream_restriction_flag")) {
    c.u(1, "motion_vectors_over_pic_boundaries_flag");
    c.ue("max_bytes_per_pic_denom", 0, 16); c.ue("max_bits_per_mb_denom", 0, 16);
    c.ue("log2_max_mv_length_horizontal", 0, 16); c.ue("log2_max_mv_length_vertical", 0, 16);
    c.ue("max_num_reorder_frames", 0, 16); c.ue("max_dec_frame_buffering", 0, 16);
  }
  c.close();
}
struct SpsGen {  // generator preferences
  std::vector<uint32_t> profiles = {66, 77, 88, 100, 110, 122, 144, 244, 44, 100, 122, 244, 83, 86, 118, 128, 138, 139, 134, 135, 0, 255};
  int64_t id_hi = 31;
  int64_t dim_hi = 1055;
};
// seq_parameter_set_data() 7.3.2.1.1
inline SpsM w_sps_data(Ctx& c, const SpsGen& g = SpsGen()) {
  SpsM s;
  c.open("sps_data");
  s.profile_idc = c.uset(8, "profile_idc", g.profiles);
  static const char* csn[6] = {"constraint_set0_flag", "constraint_set1_flag", "constraint_set2_flag", "constraint_set3_flag", "constraint_set4_flag", "constraint_set5_flag"};
  for (int i = 0; i < 6; i++) s.cs[i] = c.u(1, csn[i]);
  {  // reserved_zero_2bits
    uint32_t v; if (c.gen) { v = c.t->coin(1, 16) ? c.t->below(4) : 0; c.w.u(2, v); } else v = (uint32_t)c.r->u(2);
    if (!c.gen && v) c.lax = true;
    c.rec("reserved_zero_2bits", v);
  }
  c.u(8, "level_idc");
  s.id = c.ue("seq_parameter_set_id", 0, 31, HARD, g.id_hi);
  if (is_high_profile(s.profile_idc)) {
    s.chroma_format_idc = c.ue("chroma_format_idc", 0, 3);
    if (s.chroma_format_idc == 3) s.separate = c.u(1, "separate_colour_plane_flag");
    s.bd_luma = c.ue("bit_depth_luma_minus8", 0, 6); s.bd_chroma = c.ue("bit_depth_chroma_minus8", 0, 6);
    c.u(1, "qpprime_y_zero_transform_bypass_flag");
    if (c.flag_p("seq_scaling_matrix_present_flag", 1, 3)) w_scaling_matrix(c, s.chroma_format_idc != 3 ? 8 : 12, "seq_scaling_list_present_flag");
  } else c.rec("chroma_format_idc", 1);  // inferred, 7.4.2.1.1
  s.log2_fn = c.ue("log2_max_frame_num_minus4", 0, 12);
  s.poc_type = c.ue("pic_order_cnt_type", 0, 2);
  if (s.poc_type == 0) s.log2_poc = c.ue("log2_max_pic_order_cnt_lsb_minus4", 0, 12);
  else if (s.poc_type == 1) {
    s.delta_zero = c.u(1, "delta_pic_order_always_zero_flag");
    c.se("offset_for_non_ref_pic"); c.se("offset_for_top_to_bottom_field");
    uint32_t n = c.ue("num_ref_frames_in_pic_order_cnt_cycle", 0, 255, HARD, c.big ? 255 : 12);
    for (uint32_t i = 0; i < n; i++) c.sev("offset_for_ref_frame");
  }
  c.ue("max_num_ref_frames", 0, 16);
  c.u(1, "gaps_in_frame_num_value_allowed_flag");
  s.w_mbs1 = c.ue("pic_width_in_mbs_minus1", 0, 1055, HARD, g.dim_hi);
  s.h_mu1 = c.ue("pic_height_in_map_units_minus1", 0, 1055, HARD, g.dim_hi);
  s.fmo = c.u(1, "frame_mbs_only_flag");
  if (!s.fmo) c.u(1, "mb_adaptive_frame_field_flag");
  c.u(1, "direct_8x8_inference_flag");
  s.crop = c.u(1, "frame_cropping_flag");
  if (s.crop) {
    int cat = s.chroma_array_type();
    int swc = cat == 1 || cat == 2 ? 2 : 1, shc = cat == 1 ? 2 : 1;
    int64_t ux = swc, uy = shc * (2 - (int)s.fmo);
    int64_t W = 16ll * (s.w_mbs1 + 1), H = 16ll * (2 - (int)s.fmo) * (s.h_mu1 + 1);
    auto axis = [&](const char* a, const char* b, int64_t U, int64_t D, uint32_t& va, uint32_t& vb) {
      int64_t room = D / U - 1;  // a + b <= room
      if (c.gen && room > 16880) room = 16880;
      if (c.gen) {
        int64_t x = c.t->pick(0, room), y = c.t->pick(0, room - x);
        if (c.t->below(2)) std::swap(x, y);
        int64_t X = x, Y = y;
        if (c.hard_seen++ == c.fault_at) { c.fault_name = "frame_crop"; switch (c.t->below(4)) { case 0: Y = D / U - x; break; case 1: X = D / U - y; break; case 2: X = c.t->pick(16880, Ctx::UEMAX); break; default: Y = c.t->pick(16880, Ctx::UEMAX); } }
        va = x; vb = y; c.w.ue(X); c.rec(a, x); c.w.ue(Y); c.rec(b, y);
      } else {
        va = (uint32_t)c.read_ue(); c.rec(a, va); if (va > 16880) c.lax = true;
        vb = (uint32_t)c.read_ue(); c.rec(b, vb); if (vb > 16880) c.lax = true;
      }
    };
    axis("frame_crop_left_offset", "frame_crop_right_offset", ux, W, s.cl, s.cr);
    axis("frame_crop_top_offset", "frame_crop_bottom_offset", uy, H, s.ct, s.cb);
    if (!c.gen) {
      if (((int64_t)s.cl + s.cr) * ux >= W) throw Reject{"horizontal cropping leaves no sample"};
      if (((int64_t)s.ct + s.cb) * uy >= H) throw Reject{"vertical cropping leaves no sample"};
    }
  }
  s.vui = c.u(1, "vui_parameters_present_flag");
  if (s.vui) w_vui(c, &s);
  c.close();
  return s;
}
inline void w_trailing(Ctx& c) {  // rbsp_trailing_bits(), tolerant like the library
  if (c.gen) { c.w.trailing(); return; }
  // the library ignores malformed trailing bits; only the position matters
}
struct PpsGen { int64_t id_hi = 255, sps_id_hi = 31; int64_t map_units = 64; std::vector<uint32_t> sps_ids; bool want_ext = true; uint32_t pic_size_hint = 0; };
// pic_parameter_set_rbsp() 7.3.2.2. chroma_of: seq_parameter_set_id -> chroma_format_idc
inline PpsM w_pps(Ctx& c, const std::function<uint32_t(uint32_t)>& chroma_of, const PpsGen& g = PpsGen()) {
  PpsM p;
  c.open("pps");
  p.id = c.ue("pic_parameter_set_id", 0, 255, HARD, g.id_hi);
  if (c.gen && !g.sps_ids.empty() && c.fault_at != c.hard_seen) {
    uint32_t v = g.sps_ids[c.t->below((uint32_t)g.sps_ids.size())]; c.hard_seen++; c.w.ue(v); c.rec("seq_parameter_set_id", v); p.sps_id = v;
  } else p.sps_id = c.ue("seq_parameter_set_id", 0, 31, HARD, g.sps_id_hi);
  p.cabac = c.u(1, "entropy_coding_mode_flag");
  p.bfpo = c.u(1, "bottom_field_pic_order_in_frame_present_flag");
  if (c.gen && c.t->coin(1, 2) && c.fault_at != c.hard_seen) { c.hard_seen++; c.w.ue(0); c.rec("num_slice_groups_minus1", 0); p.nsg1 = 0; }
  else p.nsg1 = c.ue("num_slice_groups_minus1", 0, 7);
  if (p.nsg1 > 0) {
    p.map_type = c.ue("slice_group_map_type", 0, 6);
    if (p.map_type == 0) { for (uint32_t i = 0; i <= p.nsg1; i++) c.uev("run_length_minus1", 0, Ctx::UEMAX, SOFT); }
    else if (p.map_type == 2) { for (uint32_t i = 0; i < p.nsg1; i++) { c.uev("top_left", 0, Ctx::UEMAX, SOFT); c.uev("bottom_right", 0, Ctx::UEMAX, SOFT); } }
    else if (p.map_type >= 3 && p.map_type <= 5) { c.u(1, "slice_group_change_direction_flag"); 
      // 7.4.2.2: 0..PicSizeInMapUnits-1; larger values are decodable too
      p.change_rate1 = c.ue("slice_group_change_rate_minus1", 0, 4294967293ll, SOFT, c.gen && c.t->coin(3, 4) ? 2000 : 4294967293ll); }
    else if (p.map_type == 6) {
      uint32_t n = c.ue("pic_size_in_map_units_minus1", 0, 139263, HARD, c.big ? 139263 : g.map_units);
      int k = ceil_log2_u(p.nsg1 + 1);
      for (uint32_t i = 0; i <= n; i++) {
        if (c.gen) { uint32_t v = c.t->below(p.nsg1 + 1); c.w.u(k, v); c.recv("slice_group_id", v); }
        else { uint32_t v = (uint32_t)c.r->u(k); if (v > p.nsg1) c.lax = true; c.recv("slice_group_id", v); }
      }
    }
  }
  p.l0 = c.ue("num_ref_idx_l0_default_active_minus1", 0, 31); p.l1 = c.ue("num_ref_idx_l1_default_active_minus1", 0, 31);
  p.wp = c.u(1, "weighted_pred_flag");
  { uint32_t v; if (c.gen) { v = c.t->below(3); c.w.u(2, v); } else { v = (uint32_t)c.r->u(2); if (v == 3) c.lax = true; } c.rec("weighted_bipred_idc", v); p.wb = v; }
  c.se("pic_init_qp_minus26", -62, 25, SOFT); c.se("pic_init_qs_minus26", -26, 25, SOFT); c.se("chroma_qp_index_offset", -12, 12, SOFT);
  p.dbf = c.u(1, "deblocking_filter_control_present_flag"); c.u(1, "constrained_intra_pred_flag"); p.redundant = c.u(1, "redundant_pic_cnt_present_flag");
  bool ext = c.gen ? (g.want_ext && c.t->coin(1, 2)) : c.more();
  if (ext) {
    uint32_t t8 = c.u(1, "transform_8x8_mode_flag");
    uint32_t cf = chroma_of(p.sps_id); p.chroma_format_idc_used = cf;
    if (c.flag_p("pic_scaling_matrix_present_flag", 1, 2)) { p.used_transform_lists = t8; w_scaling_matrix(c, 6 + (cf != 3 ? 2 : 6) * (int)t8, "pic_scaling_list_present_flag"); }
    c.se("second_chroma_qp_index_offset", -12, 12, SOFT);
  }
  w_trailing(c);
  c.close();
  return p;
}
// ref_pic_list_modification() 7.3.3.1
inline void w_rplm(Ctx& c, uint32_t slice_type) {
  c.open("ref_pic_list_modification");
  auto list = [&](const char* flag) {
    if (!c.flag_p(flag, 1, 3)) return;
    int left = c.gen ? (int)c.t->below(c.big ? 40 : 6) : 0;
    while (true) {
      uint32_t op = c.ue_choice("modification_of_pic_nums_idc", 3, left-- > 0 ? c.t->below(3) : 3);
      if (op == 0 || op == 1) c.uev("abs_diff_pic_num_minus1", 0, Ctx::UEMAX, SOFT);
      else if (op == 2) c.uev("long_term_pic_num", 0, Ctx::UEMAX, SOFT);
      else break;
    }
  };
  uint32_t m = slice_type % 5;
  if (m != 2 && m != 4) list("ref_pic_list_modification_flag_l0");
  if (m == 1) list("ref_pic_list_modification_flag_l1");
  c.close();
}
// pred_weight_table() 7.3.3.2
inline void w_pwt(Ctx& c, uint32_t slice_type, uint32_t cat, uint32_t l0, uint32_t l1) {
  c.open("pred_weight_table");
  c.ue("luma_log2_weight_denom", 0, 7);
  if (cat != 0) c.ue("chroma_log2_weight_denom", 0, 7);
  auto list = [&](uint32_t n, const char* lf, const char* lw, const char* lo, const char* cf, const char* cw, const char* co) {
    for (uint32_t i = 0; i <= n; i++) {
      if (c.uvec(1, lf)) { c.sev(lw, -128, 127, SOFT); c.sev(lo, -128, 127, SOFT); }
      if (cat != 0 && c.uvec(1, cf)) for (int j = 0; j < 2; j++) { c.sev(cw, -128, 127, SOFT); c.sev(co, -128, 127, SOFT); }
    }
  };
  list(l0, "luma_weight_l0_flag", "luma_weight_l0", "luma_offset_l0", "chroma_weight_l0_flag", "chroma_weight_l0", "chroma_offset_l0");
  if (slice_type % 5 == 1) list(l1, "luma_weight_l1_flag", "luma_weight_l1", "luma_offset_l1", "chroma_weight_l1_flag", "chroma_weight_l1", "chroma_offset_l1");
  c.close();
}
// dec_ref_pic_marking() 7.3.3.3
inline void w_drpm(Ctx& c, uint32_t idr) {
  c.open("dec_ref_pic_marking");
  if (idr) { c.u(1, "no_output_of_prior_pics_flag"); c.u(1, "long_term_reference_flag"); }
  else if (c.flag_p("adaptive_ref_pic_marking_mode_flag", 1, 2)) {
    int left = c.gen ? (int)c.t->below(c.big ? 40 : 7) : 0;
    while (true) {
      uint32_t op = c.ue_choice("memory_management_control_operation", 6, left-- > 0 ? 1 + c.t->below(6) : 0);
      if (op == 1 || op == 3) c.uev("difference_of_pic_nums_minus1", 0, Ctx::UEMAX, SOFT);
      if (op == 2) c.uev("long_term_pic_num", 0, Ctx::UEMAX, SOFT);
      if (op == 3 || op == 6) c.uev("long_term_frame_idx", 0, Ctx::UEMAX, SOFT);
      if (op == 4) c.uev("max_long_term_frame_idx_plus1", 0, Ctx::UEMAX, SOFT);
      if (op == 0) break;
    }
  }
  c.close();
}
struct SliceGen { std::vector<uint32_t> pps_ids; };
inline uint32_t w_pps_ref(Ctx& c, const SliceGen& g) {
  if (c.gen && !g.pps_ids.empty() && c.fault_at != c.hard_seen) {
    uint32_t v = g.pps_ids[c.t->below((uint32_t)g.pps_ids.size())]; c.hard_seen++; c.w.ue(v); c.rec("pic_parameter_set_id", v); return v;
  }
  return c.ue("pic_parameter_set_id", 0, 255, HARD);
}
// slice_header() 7.3.3
inline void w_slice_header(Ctx& c, const RefState& st, uint32_t ref_idc, uint32_t nut, const SliceGen& g = SliceGen()) {
  c.open("slice_header");
  c.ue("first_mb_in_slice", 0, 139263);
  uint32_t type = c.ue("slice_type", 0, 9), m = type % 5;
  uint32_t pid = w_pps_ref(c, g);
  auto pi = st.pps.find(pid); if (pi == st.pps.end()) throw Reject{"no PPS " + std::to_string(pid)};
  const PpsM& p = pi->second;
  auto si = st.sps.find(p.sps_id); if (si == st.sps.end()) throw Reject{"no SPS " + std::to_string(p.sps_id)};
  const SpsM& s = si->second;
  bool isP = m == 0, isB = m == 1, isI = m == 2, isSP = m == 3, isSI = m == 4;
  if (s.separate) c.u(2, "colour_plane_id");
  c.u(s.log2_fn + 4, "frame_num");
  uint32_t field = 0;
  if (!s.fmo) { field = c.u(1, "field_pic_flag"); if (field) c.u(1, "bottom_field_flag"); }
  uint32_t idr = nut == 5;
  if (idr) c.ue("idr_pic_id", 0, 65535);
  if (s.poc_type == 0) { c.u(s.log2_poc + 4, "pic_order_cnt_lsb"); if (p.bfpo && !field) c.se("delta_pic_order_cnt_bottom"); }
  if (s.poc_type == 1 && !s.delta_zero) { c.sev("delta_pic_order_cnt"); if (p.bfpo && !field) c.sev("delta_pic_order_cnt"); }
  if (p.redundant) c.ue("redundant_pic_cnt", 0, 127);
  if (isB) c.u(1, "direct_spatial_mv_pred_flag");
  uint32_t l0 = p.l0, l1 = p.l1;
  if (isP || isSP || isB) {
    if (c.u(1, "num_ref_idx_active_override_flag")) { l0 = c.ue("num_ref_idx_l0_active_minus1", 0, 31); if (isB) l1 = c.ue("num_ref_idx_l1_active_minus1", 0, 31); }
    else { c.rec("num_ref_idx_l0_active_minus1", l0); c.rec("num_ref_idx_l1_active_minus1", l1); }  // inferred, 7.4.3
  }
  if (nut == 20 || nut == 21) throw Unimplemented{"ref_pic_list_mvc_modification()"};
  w_rplm(c, type);
  if ((p.wp && (isP || isSP)) || (p.wb == 1 && isB)) w_pwt(c, type, s.chroma_array_type(), l0, l1);
  if (ref_idc != 0) w_drpm(c, idr);
  if (p.cabac && !isI && !isSI) c.ue("cabac_init_idc", 0, 2);
  int64_t q = 51 + 6 * (int64_t)s.bd_luma;
  c.se("slice_qp_delta", -q, q, HARD);
  if (isSP || isSI) { if (isSP) c.u(1, "sp_for_switch_flag"); c.se("slice_qs_delta", -51, 51, SOFT); }
  if (p.dbf) { if (c.ue("disable_deblocking_filter_idc", 0, 2) != 1) { c.se("slice_alpha_c0_offset_div2", -6, 6, SOFT); c.se("slice_beta_offset_div2", -6, 6, SOFT); } }
  if (p.nsg1 > 0 && p.map_type >= 3 && p.map_type <= 5) {
    int k = change_cycle_bits((uint64_t)(s.w_mbs1 + 1) * (s.h_mu1 + 1), (uint64_t)p.change_rate1 + 1);
    c.u(k, "slice_group_change_cycle");
  }
  c.close();
}
// seq_parameter_set_svc_extension() F.7.3.2.1.4 (G in older editions)
inline SvcM w_sps_svc(Ctx& c, uint32_t cat) {
  SvcM v;
  c.open("seq_parameter_set_svc_extension");
  v.ildfc = c.u(1, "inter_layer_deblocking_filter_control_present_flag");
  v.ess = c.u(2, "extended_spatial_scalability_idc");
  if (!c.gen && v.ess == 3) c.lax = true;
  if (cat == 1 || cat == 2) c.u(1, "chroma_phase_x_plus1_flag");
  if (cat == 1) c.u(2, "chroma_phase_y_plus1");
  if (v.ess == 1) {
    if (cat > 0) { c.u(1, "seq_ref_layer_chroma_phase_x_plus1_flag"); c.u(2, "seq_ref_layer_chroma_phase_y_plus1"); }
    c.se("seq_scaled_ref_layer_left_offset", -32768, 32767, SOFT); c.se("seq_scaled_ref_layer_top_offset", -32768, 32767, SOFT);
    c.se("seq_scaled_ref_layer_right_offset", -32768, 32767, SOFT); c.se("seq_scaled_ref_layer_bottom_offset", -32768, 32767, SOFT);
  }
  if (c.u(1, "seq_tcoeff_level_prediction_flag")) v.adaptive_tcoeff = c.u(1, "adaptive_tcoeff_level_prediction_flag");
  v.restriction = c.u(1, "slice_header_restriction_flag");
  c.close();
  return v;
}
// subset_seq_parameter_set_rbsp() 7.3.2.1.3. `skipped` reports extensions the
// library does not decode (the rest of the RBSP is then not comparable).
inline SubM w_subset_sps(Ctx& c, bool& skipped, const SpsGen& g = SpsGen()) {
  SubM m; skipped = false;
  c.open("subset_sps");
  m.sps = w_sps_data(c, g);
  uint32_t p = m.sps.profile_idc;
  if (p == 83 || p == 86) {
    m.has_svc = true; m.svc = w_sps_svc(c, m.sps.chroma_array_type());
    if (c.flag_p("svc_vui_parameters_present_flag", 0, 1)) skipped = true;
  } else if (p == 118 || p == 128 || p == 134 || p == 138 || p == 135 || p == 139) skipped = true;
  if (!skipped) {
    if (c.flag_p("additional_extension2_flag", 1, 4)) {
      if (c.gen) { int n = c.t->below(20); for (int i = 0; i < n; i++) c.w.bit(c.t->below(2)); }
      else while (c.more()) c.r->bit();
    }
  }
  w_trailing(c);
  c.close();
  return m;
}
// seq_parameter_set_extension_rbsp() 7.3.2.1.2
inline void w_sps_extension(Ctx& c) {
  c.open("sps_extension");
  c.ue("seq_parameter_set_id", 0, 31);
  uint32_t aux = c.ue("aux_format_idc", 0, 3, SOFT);
  if (aux != 0) {
    uint32_t bd = c.ue("bit_depth_aux_minus8", 0, 4);
    c.u(1, "alpha_incr_flag"); c.u(bd + 9, "alpha_opaque_value"); c.u(bd + 9, "alpha_transparent_value");
  }
  c.u(1, "additional_extension_flag");
  w_trailing(c);
  c.close();
}
// nal_unit_header_svc_extension() F.7.3.1.1
inline SvcHdr w_svc_hdr(Ctx& c) {
  SvcHdr h;
  c.open("nal_unit_header_svc_extension");
  h.idr = c.u(1, "idr_flag"); c.u(6, "priority_id"); h.no_ilp = c.u(1, "no_inter_layer_pred_flag"); c.u(3, "dependency_id");
  { uint32_t v; if (c.gen) { v = c.t->coin(2, 3) ? 0 : c.t->below(16); c.w.u(4, v); } else v = (uint32_t)c.r->u(4); c.rec("quality_id", v); h.quality = v; }
  c.u(3, "temporal_id"); h.use_ref_base = c.flag_p("use_ref_base_pic_flag", 1, 6); c.u(1, "discardable_flag"); c.u(1, "output_flag");
  { uint32_t v; if (c.gen) { v = c.t->coin(1, 16) ? c.t->below(4) : 3; c.w.u(2, v); } else { v = (uint32_t)c.r->u(2); if (v != 3) c.lax = true; } c.rec("reserved_three_2bits", v); }
  c.close();
  return h;
}
// slice_header_in_scalable_extension() F.7.3.3.4
inline void w_svc_slice(Ctx& c, const RefState& st, uint32_t ref_idc, const SvcHdr& h, const SliceGen& g = SliceGen()) {
  c.open("slice_header_in_scalable_extension");
  c.ue("first_mb_in_slice", 0, 139263);
  uint32_t type;
  if (c.gen && c.fault_at != c.hard_seen) { static const uint32_t ts[6] = {0, 1, 2, 5, 6, 7}; type = ts[c.t->below(6)]; c.hard_seen++; c.w.ue(type); c.rec("slice_type", type); }
  else type = c.ue("slice_type", 0, 9);
  uint32_t m = type % 5;
  if (m > 2) c.lax = true;  // SP/SI do not exist in the scalable extension
  uint32_t pid = w_pps_ref(c, g);
  auto pi = st.pps.find(pid); if (pi == st.pps.end()) throw Reject{"no PPS " + std::to_string(pid)};
  const PpsM& p = pi->second;
  auto si = st.sub.find(p.sps_id); if (si == st.sub.end()) throw Reject{"no subset SPS " + std::to_string(p.sps_id)};
  if (!si->second.has_svc) throw Reject{"subset SPS without SVC extension"};
  const SpsM& s = si->second.sps; const SvcM& x = si->second.svc;
  bool isP = m == 0, isB = m == 1, isI = m == 2;
  if (s.separate) c.u(2, "colour_plane_id");
  c.u(s.log2_fn + 4, "frame_num");
  uint32_t field = 0;
  if (!s.fmo) { field = c.u(1, "field_pic_flag"); if (field) c.u(1, "bottom_field_flag"); }
  if (h.idr) c.ue("idr_pic_id", 0, 65535);
  if (s.poc_type == 0) { c.u(s.log2_poc + 4, "pic_order_cnt_lsb"); if (p.bfpo && !field) c.se("delta_pic_order_cnt_bottom"); }
  if (s.poc_type == 1 && !s.delta_zero) { c.sev("delta_pic_order_cnt"); if (p.bfpo && !field) c.sev("delta_pic_order_cnt"); }
  if (p.redundant) c.ue("redundant_pic_cnt", 0, 127);
  if (h.quality == 0) {
    if (isB) c.u(1, "direct_spatial_mv_pred_flag");
    uint32_t l0 = p.l0, l1 = p.l1;
    if (isP || isB) {
      if (c.u(1, "num_ref_idx_active_override_flag")) { l0 = c.ue("num_ref_idx_l0_active_minus1", 0, 31); if (isB) l1 = c.ue("num_ref_idx_l1_active_minus1", 0, 31); }
      else { c.rec("num_ref_idx_l0_active_minus1", l0); c.rec("num_ref_idx_l1_active_minus1", l1); }
    }
    w_rplm(c, type);
    if ((p.wp && isP) || (p.wb == 1 && isB)) {
      uint32_t base = 0;
      if (!h.no_ilp) base = c.u(1, "base_pred_weight_table_flag");
      if (h.no_ilp || !base) w_pwt(c, type, s.chroma_array_type(), l0, l1);
    }
    if (ref_idc != 0) {
      w_drpm(c, h.idr);
      if (!x.restriction) {
        uint32_t store = c.flag_p("store_ref_base_pic_flag", h.idr || c.want_unimpl ? 1 : 0, h.idr || c.want_unimpl ? 2 : 1);
        if ((h.use_ref_base || store) && !h.idr) throw Unimplemented{"dec_ref_base_pic_marking()"};
      }
    }
  }
  if (p.cabac && !isI) c.ue("cabac_init_idc", 0, 2);
  c.se("slice_qp_delta", -51 - 6 * (int64_t)s.bd_luma, 51 + 6 * (int64_t)s.bd_luma, SOFT);
  if (p.dbf) { if (c.ue("disable_deblocking_filter_idc", 0, 6) != 1) { c.se("slice_alpha_c0_offset_div2", -6, 6, SOFT); c.se("slice_beta_offset_div2", -6, 6, SOFT); } }
  if (p.nsg1 > 0 && p.map_type >= 3 && p.map_type <= 5) c.u(change_cycle_bits((uint64_t)(s.w_mbs1 + 1) * (s.h_mu1 + 1), (uint64_t)p.change_rate1 + 1), "slice_group_change_cycle");
  if (!h.no_ilp && h.quality == 0) {
    c.ue("ref_layer_dq_id", 0, 127, SOFT);
    if (x.ildfc) { if (c.ue("disable_inter_layer_deblocking_filter_idc", 0, 6, SOFT) != 1) { c.se("inter_layer_slice_alpha_c0_offset_div2", -6, 6, SOFT); c.se("inter_layer_slice_beta_offset_div2", -6, 6, SOFT); } }
    c.u(1, "constrained_intra_resampling_flag");
    if (x.ess == 2) {
      if (s.chroma_array_type() > 0) { c.u(1, "ref_layer_chroma_phase_x_plus1_flag"); c.u(2, "ref_layer_chroma_phase_y_plus1"); }
      c.se("scaled_ref_layer_left_offset", -32768, 32767, SOFT); c.se("scaled_ref_layer_top_offset", -32768, 32767, SOFT);
      c.se("scaled_ref_layer_right_offset", -32768, 32767, SOFT); c.se("scaled_ref_layer_bottom_offset", -32768, 32767, SOFT);
    }
  }
  uint32_t skip = 0;
  if (!h.no_ilp) {
    skip = c.u(1, "slice_skip_flag");
    if (skip) c.ue("num_mbs_in_slice_minus1", 0, Ctx::UEMAX, SOFT);
    else {
      uint32_t dbm = 0;
      if (!c.u(1, "adaptive_base_mode_flag")) dbm = c.u(1, "default_base_mode_flag");
      if (!dbm) { if (!c.u(1, "adaptive_motion_prediction_flag")) c.u(1, "default_motion_prediction_flag"); }
      if (!c.u(1, "adaptive_residual_prediction_flag")) c.u(1, "default_residual_prediction_flag");
    }
    if (x.adaptive_tcoeff) c.u(1, "tcoeff_level_prediction_flag");
  }
  if (!x.restriction && !skip) { c.u(4, "scan_idx_start"); c.u(4, "scan_idx_end"); }
  c.close();
}
// prefix_nal_unit_svc() F.7.3.2.12.1
inline void w_prefix_svc(Ctx& c, uint32_t ref_idc, uint32_t use_ref_base, uint32_t idr) {
  c.open("prefix_nal_unit_svc");
  if (ref_idc != 0) {
    uint32_t store = c.flag_p("store_ref_base_pic_flag", idr || c.want_unimpl ? 1 : 0, idr || c.want_unimpl ? 2 : 1);
    if ((use_ref_base || store) && !idr) throw Unimplemented{"dec_ref_base_pic_marking()"};
    uint32_t f = c.flag_p("additional_prefix_nal_unit_extension_flag", 1, 3);
    if (f) {
      if (c.gen) { int n = c.t->below(20); for (int i = 0; i < n; i++) c.w.bit(c.t->below(2)); }
      else while (c.more()) c.r->bit();
    }
    w_trailing(c);
  }
  c.close();
}
// nal_unit() header 7.3.1
struct HdrM { uint32_t forbidden = 0, ref_idc = 0, nut = 0, svc_flag = 0; SvcHdr svc; };
inline HdrM w_nal_header(Ctx& c, int want_nut = -1, int want_ref = -1) {
  HdrM h;
  c.open("nal_unit_header");
  { uint32_t v; if (c.gen) { v = 0; c.w.u(1, v); } else { v = (uint32_t)c.r->u(1); if (v) c.lax = true; } c.rec("forbidden_zero_bit", v); h.forbidden = v; }
  { uint32_t v; if (c.gen) { v = want_ref >= 0 ? want_ref : c.t->below(4); c.w.u(2, v); } else v = (uint32_t)c.r->u(2); c.rec("nal_ref_idc", v); h.ref_idc = v; }
  { uint32_t v; if (c.gen) { v = want_nut >= 0 ? want_nut : c.t->below(32); c.w.u(5, v); } else v = (uint32_t)c.r->u(5); c.rec("nal_unit_type", v); h.nut = v; }
  if (h.nut == 14 || h.nut == 20) {
    h.svc_flag = c.flag_p("svc_extension_flag", c.want_unimpl ? 3 : 15, c.want_unimpl ? 4 : 16);
    if (!h.svc_flag) throw Unimplemented{"nal_unit_header_mvc_extension()"};
    h.svc = w_svc_hdr(c);
  } else if (h.nut == 21) {
    if (c.u(1, "avc_3d_extension_flag")) throw Unimplemented{"nal_unit_header_3davc_extension()"};
    throw Unimplemented{"nal_unit_header_mvc_extension()"};
  }
  c.close();
  return h;
}
