// Generators: valid NAL units, faulty ones, histories, byte mutations.
#pragma once
#include "decode.h"

struct GenNal {
  Bytes nal;                 // unescaped NAL unit (header + RBSP)
  std::unique_ptr<Node> hdr, pay;  // what was written
  uint32_t nut = 0, ref_idc = 0;
  HdrM h;
  std::string what;
  std::string fault;         // name of the broken element, if any
  size_t hdr_bits = 0;
  int hard = 0;              // range-checked elements in the payload
  SpsM sps; PpsM pps; SubM sub;
  bool trailing = false;     // RBSP written with rbsp_trailing_bits
  bool unimpl = false;
  bool rejected = false;     // generator itself hit a dead end (no usable parameter set)
};
inline std::vector<uint32_t> keys(const std::map<uint32_t, SpsM>& m) { std::vector<uint32_t> k; for (auto& e : m) k.push_back(e.first); return k; }
template <class M> std::vector<uint32_t> keys_of(const M& m) { std::vector<uint32_t> k; for (auto& e : m) k.push_back(e.first); return k; }

struct GenOpt {
  int fault_at = -1;
  bool big = false;
  bool small_ids = false;
  bool allow_unimpl = false;
  int want_ref = -1;
  SpsGen sg; PpsGen pg;
};
// one NAL unit of type nut, valid under st (except for fault_at)
inline GenNal gen_nal(Tape& t, uint32_t nut, const RefState& st, const GenOpt& o = GenOpt()) {
  GenNal g; g.nut = nut;
  Ctx c(t); c.big = o.big; c.want_unimpl = o.allow_unimpl;
  {
    Ctx hc(t); hc.want_unimpl = o.allow_unimpl;
    int want_ref = o.want_ref;
    if (want_ref < 0) { if (nut == 5 || nut == 7 || nut == 8 || nut == 15) want_ref = 1 + t.below(3); else if (nut == 6 || (nut >= 9 && nut <= 12)) want_ref = t.coin(1, 8) ? t.below(4) : 0; }
    try { g.h = w_nal_header(hc, (int)nut, want_ref); }
    catch (const Unimplemented&) { g.unimpl = true; while (hc.w.n % 8) hc.w.bit(t.below(2)); if (nut == 14 || nut == 20 || nut == 21) { for (int i = 0; i < 16; i++) hc.w.bit(t.below(2)); } }
    g.ref_idc = g.h.ref_idc;
    g.hdr = take_root(hc);
    c.w = hc.w; g.hdr_bits = hc.w.n;
  }
  c.fault_at = o.fault_at;
  SpsGen sg = o.sg; PpsGen pg = o.pg;
  if (o.small_ids) { sg.id_hi = 3; pg.id_hi = 4; pg.sps_id_hi = 3; }
  if (!g.unimpl) try {
    switch (nut) {
      case 7: g.sps = w_sps_data(c, sg); c.w.trailing(); g.trailing = true; break;
      case 8: {
        g.pps = w_pps(c, [&](uint32_t id) { return chroma_for(st, id); }, pg); g.trailing = true; break;
      }
      case 1: case 5: {
        SliceGen slg; for (auto& p : st.pps) if (st.sps.count(p.second.sps_id)) slg.pps_ids.push_back(p.first);
        w_slice_header(c, st, g.ref_idc, nut, slg); break;
      }
      case 14: w_prefix_svc(c, g.ref_idc, g.h.svc.use_ref_base, g.h.svc.idr); if (!g.ref_idc) {} else g.trailing = true; break;
      case 15: { bool sk; if (sg.profiles.size() > 4) { if (t.coin(7, 8)) sg.profiles = {83, 86}; else sg.profiles = {66, 77, 100, 83, 86, 244}; } g.sub = w_subset_sps(c, sk, sg); g.trailing = true; break; }
      case 20: {
        SliceGen slg; for (auto& p : st.pps) { auto s = st.sub.find(p.second.sps_id); if (s != st.sub.end() && s->second.has_svc) slg.pps_ids.push_back(p.first); }
        w_svc_slice(c, st, g.ref_idc, g.h.svc, slg); break;
      }
      default: { int n = t.below(12); for (int i = 0; i < n; i++) c.w.u(8, t.below(256)); c.w.u(8, 0x80); break; }
    }
  } catch (const Unimplemented&) { g.unimpl = true; }
  catch (const Reject&) { g.rejected = true; /* e.g. slice with no matching parameter set */ }
  g.fault = c.fault_name; g.hard = c.hard_seen;
  g.pay = take_root(c);
  if (!g.trailing && (nut == 1 || nut == 5 || nut == 20)) {  // slice data
    int n = t.below(40); for (int i = 0; i < n; i++) c.w.bit(t.below(2));
    c.w.trailing();
  }
  if (c.w.n % 8) c.w.align0();
  g.nal = c.w.b;
  g.what = "nut" + std::to_string(nut) + " " + g.hdr->str() + " " + g.pay->str() + (g.fault.empty() ? "" : " fault=" + g.fault);
  return g;
}
// a byte/bit level mutation
inline std::string mutate(Tape& t, Bytes& b, size_t from = 1) {
  if (b.size() <= from) { b.push_back((uint8_t)t.below(256)); return "append"; }
  switch (t.below(7)) {
    case 0: { size_t k = from + t.below((uint32_t)(b.size() - from)); b.resize(k); return "truncate@" + std::to_string(k); }
    case 1: { size_t k = from * 8 + t.below((uint32_t)((b.size() - from) * 8)); b[k / 8] ^= 0x80 >> (k % 8); return "flip@" + std::to_string(k); }
    case 2: { int n = 1 + t.below(6); for (int i = 0; i < n; i++) { size_t k = from * 8 + t.below((uint32_t)((b.size() - from) * 8)); b[k / 8] ^= 0x80 >> (k % 8); } return "flips"; }
    case 3: { size_t k = from + t.below((uint32_t)(b.size() - from)); b[k] = (uint8_t)t.below(256); return "byte@" + std::to_string(k); }
    case 4: { size_t k = from + t.below((uint32_t)(b.size() - from)); b.insert(b.begin() + k, (uint8_t)t.below(256)); return "insert@" + std::to_string(k); }
    case 5: { size_t k = from + t.below((uint32_t)(b.size() - from)); b.erase(b.begin() + k); return "erase@" + std::to_string(k); }
    default: { size_t k = from + t.below((uint32_t)(b.size() - from)); int n = 1 + t.below(8); for (int i = 0; i < n && k + i < b.size(); i++) b[k + i] = t.coin(1, 2) ? 0 : 0xff; return "run@" + std::to_string(k); }
  }
}
// sanity of the harness itself: reparsing what was generated gives it back
inline void self_check(const GenNal& g, const RefNal& r) {
  if (!r.hdr_ok || !r.pay) throw HarnessError("generated NAL not accepted by the reference parser: " + r.why + " " + g.what);
  if (r.pay->str() != g.pay->str()) throw HarnessError("reference parser disagrees with generator: " + r.pay->str() + " vs " + g.what);
}
// state in the code under test mirrored by the reference
struct Pair { H264BitstreamParserState lib; RefState ref; };
inline std::unique_ptr<NalState> lib_parse(const Bytes& nal_unescaped, H264BitstreamParserState* st, ParsingOptions po = ParsingOptions(), bool escape = true) {
  Bytes e = escape ? ref_escape(nal_unescaped) : nal_unescaped;
  // exact-size heap copy so that any over-read is caught
  std::unique_ptr<uint8_t[]> p(new uint8_t[e.size() ? e.size() : 1]);
  std::copy(e.begin(), e.end(), p.get());
  return H264NalUnitParser::ParseNalUnit(p.get(), e.size(), st, po);
}
// push a valid NAL through both sides, failing on disagreement
inline bool step(Pair& pr, const Bytes& nal, RefNal* out = nullptr) {
  Bytes u = ref_unescape(ref_escape(nal));
  RefNal r = ref_decode(nal, pr.ref);
  if (u != nal) throw HarnessError("escape/unescape not inverse");
  auto n = lib_parse(nal, &pr.lib);
  bool ok = check_nal(r, n.get());
  if (ok && !r.opaque) ref_commit(r, pr.ref);
  if (out) *out = std::move(r);
  return ok;
}

// ---------------------------------------------------------------- sequences
struct StepOpt { bool svc = true; int broken = 25; /* percent */ bool unimpl = false; bool big_opaque = false; };
struct Step { Bytes nal; std::string what; };
// the next NAL unit of a history: new, repeated, changed, broken or unrelated
inline Step gen_step(Tape& t, const RefState& st, const std::vector<Bytes>& prior, const StepOpt& so) {
  Step o;
  uint32_t k = t.below(100);
  GenOpt q; q.small_ids = true; q.allow_unimpl = so.unimpl && t.coin(1, 3);
  if (t.coin(1, 2)) q.sg.dim_hi = 12;
  if (!prior.empty() && k < 12) { o.nal = prior[t.below((uint32_t)prior.size())]; o.what = "again"; }
  else {
    uint32_t nut;
    if (st.sps.empty() && !(so.svc && t.coin(1, 5))) nut = 7;
    else if (st.pps.empty() && t.coin(3, 4)) nut = 8;
    else if (k < 27) nut = 7;
    else if (k < 45) nut = 8;
    else if (k < 65) nut = t.coin(1, 3) ? 5 : 1;
    else if (k < 90 && so.svc) { static const uint32_t a[8] = {15, 14, 20, 15, 20, 20, 15, 8}; nut = a[t.below(8)]; }
    else { static const uint32_t a[26] = {6, 9, 0, 2, 3, 4, 10, 11, 12, 13, 16, 17, 18, 19, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 21, 6}; nut = a[t.below(26)]; if (nut == 21 && !so.unimpl) nut = 6; }
    if (nut == 8) {
      std::vector<uint32_t> ids = keys_of(st.sps); if (so.svc) for (auto x : keys_of(st.sub)) ids.push_back(x);
      if (t.coin(7, 8)) q.pg.sps_ids = ids;
      q.pg.map_units = 8;
    }
    if (nut == 15) q.sg.profiles = {83, 86};
    GenNal g = gen_nal(t, nut, st, q);
    o.nal = g.nal; o.what = "nut" + std::to_string(nut);
    if (!has_decoder(nut) && so.big_opaque && t.coin(1, 6)) {
      size_t n = t.coin(1, 4) ? 65500 + t.below(100) : 200 + t.below(400); uint8_t v = (uint8_t)(1 + t.below(255));
      if (o.nal.size() < n) o.nal.insert(o.nal.end() - 1, n - o.nal.size(), v);
      o.what += " long";
    }
  }
  if ((int)t.below(100) >= 100 - so.broken) o.what += " " + mutate(t, o.nal, t.coin(1, 12) ? 0 : 1);
  return o;
}
inline std::string nals_str(const std::vector<Bytes>& v, size_t each = 200) { std::string s; for (auto& b : v) s += "[" + hex(b, each) + "] "; return s; }
// a sequence on the reference side only; `st` ends up as the state after it
inline std::vector<Bytes> gen_seq(Tape& t, int n, const StepOpt& so, RefState& st) {
  std::vector<Bytes> v;
  for (int i = 0; i < n; i++) {
    Step s = gen_step(t, st, v, so);
    if (s.nal.empty()) s.nal.push_back(0x09);
    RefNal r = ref_decode(s.nal, st);
    if (r.hdr_ok && r.pay && r.v != RefNal::REJECT) ref_commit(r, st);
    v.push_back(s.nal);
  }
  return v;
}
