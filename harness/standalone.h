// Every structure parser that can be called on its own, with the reference
// walker for the same structure.
#pragma once
#include "gen.h"

struct StCtx {  // everything a structure needs from its surroundings
  uint32_t slice_type = 0, cat = 1, l0 = 0, l1 = 0, idr = 0, ref_idc = 1, urb = 0, nut = 1, cf = 1;
  HdrM h; Bytes hdr_bytes;
  Pair* pr = nullptr;
  std::string str() const { return "slice_type=" + std::to_string(slice_type) + " ChromaArrayType=" + std::to_string(cat) + " l0=" + std::to_string(l0) + " l1=" + std::to_string(l1) + " idr=" + std::to_string(idr) + " nal_ref_idc=" + std::to_string(ref_idc) + " use_ref_base=" + std::to_string(urb) + " nut=" + std::to_string(nut) + " chroma_format_idc=" + std::to_string(cf); }
};
// when set, every structure state that a standalone parser returned is dumped
struct StDump { FILE* fp = nullptr; int indent = -1; ParsingOptions po; };
inline StDump& st_dump() { static StDump d; return d; }
template <class S> auto st_dump1(const S& s, int) -> decltype(s.fdump((FILE*)nullptr, 0, ParsingOptions())) { auto& d = st_dump(); if (d.fp) s.fdump(d.fp, d.indent, d.po); }
template <class S> auto st_dump1(const S& s, long) -> decltype(s.fdump((FILE*)nullptr, 0)) { auto& d = st_dump(); if (d.fp) s.fdump(d.fp, d.indent); }
template <class S> void st_dump1(const S&, ...) {}  // builds without dumping
struct StKind {
  const char* name; const char* node; bool needs_state;
  void (*walk)(Ctx&, const StCtx&, const RefState&);
  // returns whether the parser accepted; fills the flat state
  bool (*data)(const uint8_t*, size_t, StCtx&, Flat&);
  bool (*bits)(BitBuffer*, StCtx&, Flat&);
};
inline std::unique_ptr<H264NalUnitHeaderParser::NalUnitHeaderState> st_hdr(const StCtx& x) { return H264NalUnitHeaderParser::ParseNalUnitHeader(x.hdr_bytes.data(), x.hdr_bytes.size()); }
#define ST(call, conv) [](const uint8_t* d, size_t n, StCtx& x, Flat& f) -> bool { (void)x; auto s = call(d, n ARGS); if (!s) return false; st_dump1(*s, 0); f = conv; return true; }, [](BitBuffer* b, StCtx& x, Flat& f) -> bool { (void)x; auto s = call(b ARGS); if (!s) return false; st_dump1(*s, 0); f = conv; return true; }
inline const std::vector<StKind>& st_kinds() {
  static const std::vector<StKind> k = {
#define ARGS
    {"hrd_parameters", "hrd", false, [](Ctx& c, const StCtx&, const RefState&) { w_hrd(c, "hrd"); }, ST(H264HrdParametersParser::ParseHrdParameters, flat(*s))},
    {"vui_parameters", "vui_parameters", false, [](Ctx& c, const StCtx&, const RefState&) { w_vui(c, nullptr); }, ST(H264VuiParametersParser::ParseVuiParameters, flat(*s))},
    {"sps_data", "sps_data", false, [](Ctx& c, const StCtx&, const RefState&) { w_sps_data(c); }, ST(H264SpsDataParser::ParseSpsData, flat(*s))},
    {"sps", "sps_data", false, [](Ctx& c, const StCtx&, const RefState&) { w_sps_data(c); }, ST(H264SpsParser::ParseSps, flat(*s->sps_data))},
    {"subset_sps", "subset_sps", false, [](Ctx& c, const StCtx&, const RefState&) { SpsGen g; g.profiles = {83, 86, 83, 86, 100, 66, 244}; bool sk; w_subset_sps(c, sk, g); if (sk) c.opaque = true; }, ST(H264SubsetSpsParser::ParseSubsetSps, flat(*s))},
    {"sps_extension", "sps_extension", false, [](Ctx& c, const StCtx&, const RefState&) { w_sps_extension(c); }, ST(H264SpsExtensionParser::ParseSpsExtension, flat(*s))},
    {"nal_unit_header_svc_extension", "nal_unit_header_svc_extension", false, [](Ctx& c, const StCtx&, const RefState&) { w_svc_hdr(c); }, ST(H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension, flat(*s))},
#undef ARGS
#define ARGS , x.cat
    {"seq_parameter_set_svc_extension", "seq_parameter_set_svc_extension", false, [](Ctx& c, const StCtx& x, const RefState&) { w_sps_svc(c, x.cat); }, ST(H264SpsSvcExtensionParser::ParseSpsSvcExtension, flat(*s))},
#undef ARGS
#define ARGS , x.cf
    {"pps", "pps", false, [](Ctx& c, const StCtx& x, const RefState&) { w_pps(c, [&](uint32_t) { return x.cf; }); }, ST(H264PpsParser::ParsePps, flat(*s))},
#undef ARGS
#define ARGS , x.slice_type
    {"ref_pic_list_modification", "ref_pic_list_modification", false, [](Ctx& c, const StCtx& x, const RefState&) { w_rplm(c, x.slice_type); }, ST(H264RefPicListModificationParser::ParseRefPicListModification, flat(*s))},
#undef ARGS
#define ARGS , x.idr
    {"dec_ref_pic_marking", "dec_ref_pic_marking", false, [](Ctx& c, const StCtx& x, const RefState&) { w_drpm(c, x.idr); }, ST(H264DecRefPicMarkingParser::ParseDecRefPicMarking, flat(*s))},
#undef ARGS
#define ARGS , x.cat, x.slice_type, x.l0, x.l1
    {"pred_weight_table", "pred_weight_table", false, [](Ctx& c, const StCtx& x, const RefState&) { w_pwt(c, x.slice_type, x.cat, x.l0, x.l1); }, ST(H264PredWeightTableParser::ParsePredWeightTable, flat(*s))},
#undef ARGS
#define ARGS , x.ref_idc, x.urb, x.idr
    {"prefix_nal_unit_svc", "prefix_nal_unit_svc", false, [](Ctx& c, const StCtx& x, const RefState&) { w_prefix_svc(c, x.ref_idc, x.urb, x.idr); }, ST(H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc, flat(*s))},
#undef ARGS
#define ARGS , 1, x.ref_idc, x.urb, x.idr
    {"prefix_nal_unit_rbsp", "prefix_nal_unit_svc", false, [](Ctx& c, const StCtx& x, const RefState&) { w_prefix_svc(c, x.ref_idc, x.urb, x.idr); }, ST(H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp, flat(*s->prefix_nal_unit_svc))},
#undef ARGS
#define ARGS , x.ref_idc, x.nut, &x.pr->lib
    {"slice_header", "slice_header", true, [](Ctx& c, const StCtx& x, const RefState& st) { SliceGen g; for (auto& p : st.pps) if (st.sps.count(p.second.sps_id)) g.pps_ids.push_back(p.first); w_slice_header(c, st, x.ref_idc, x.nut, g); }, ST(H264SliceHeaderParser::ParseSliceHeader, flat(*s))},
    {"slice_layer_without_partitioning_rbsp", "slice_header", true, [](Ctx& c, const StCtx& x, const RefState& st) { SliceGen g; for (auto& p : st.pps) if (st.sps.count(p.second.sps_id)) g.pps_ids.push_back(p.first); w_slice_header(c, st, x.ref_idc, x.nut, g); }, ST(H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp, flat(*s->slice_header))},
#undef ARGS
#define ARGS , *hh, &x.pr->lib
#undef ST
#define ST(call, conv) [](const uint8_t* d, size_t n, StCtx& x, Flat& f) -> bool { auto hh = st_hdr(x); if (!hh) throw HarnessError("bad header"); auto s = call(d, n ARGS); if (!s) return false; st_dump1(*s, 0); f = conv; return true; }, [](BitBuffer* b, StCtx& x, Flat& f) -> bool { auto hh = st_hdr(x); if (!hh) throw HarnessError("bad header"); auto s = call(b ARGS); if (!s) return false; st_dump1(*s, 0); f = conv; return true; }
    {"slice_header_in_scalable_extension", "slice_header_in_scalable_extension", true, [](Ctx& c, const StCtx& x, const RefState& st) { SliceGen g; for (auto& p : st.pps) { auto s = st.sub.find(p.second.sps_id); if (s != st.sub.end() && s->second.has_svc) g.pps_ids.push_back(p.first); } w_svc_slice(c, st, x.ref_idc, x.h.svc, g); }, ST(H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension, flat(*s))},
    {"slice_layer_extension_rbsp", "slice_header_in_scalable_extension", true, [](Ctx& c, const StCtx& x, const RefState& st) { SliceGen g; for (auto& p : st.pps) { auto s = st.sub.find(p.second.sps_id); if (s != st.sub.end() && s->second.has_svc) g.pps_ids.push_back(p.first); } w_svc_slice(c, st, x.ref_idc, x.h.svc, g); }, ST(H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp, flat(*s->slice_header_in_scalable_extension))},
#undef ARGS
#undef ST
  };
  return k;
}
// context of the structure, drawn from the tape
inline StCtx st_context(Tape& t, const StKind& k, Pair& pr) {
  StCtx x; x.pr = &pr;
  x.slice_type = t.below(10);
  if (!strcmp(k.name, "pred_weight_table")) { static const uint32_t ts[6] = {0, 1, 3, 5, 6, 8}; x.slice_type = ts[t.below(6)]; }
  x.cat = t.below(4); x.cf = t.below(4);
  x.l0 = t.coin(1, 8) ? 31 - t.below(2) : t.below(5); x.l1 = t.coin(1, 8) ? 31 - t.below(2) : t.below(5);
  x.idr = t.below(2); x.ref_idc = t.below(4); x.urb = t.coin(1, 4); x.nut = t.below(2) ? 5 : 1;
  if (!strcmp(k.node, "slice_header_in_scalable_extension")) {
    Ctx c(t); x.h = HdrM();
    c.open("nal_unit_header"); c.w.u(1, 0); c.w.u(2, x.ref_idc); c.w.u(5, 20); c.w.u(1, 1); x.h.ref_idc = x.ref_idc; x.h.nut = 20; x.h.svc_flag = 1; x.h.svc = w_svc_hdr(c);
    x.hdr_bytes = c.w.b; x.nut = 20;
  }
  return x;
}
struct StRef { RefNal::V v = RefNal::ACCEPT; bool unimpl = false, opaque = false; std::string why; std::unique_ptr<Node> n; size_t bits = 0; };
inline StRef st_parse(const StKind& k, const Bytes& b, const StCtx& x, const RefState& st, size_t from = 0) {
  StRef o; BitR r(b, from); Ctx c(r);
  try { k.walk(c, x, st); o.v = c.lax || c.opaque ? RefNal::EITHER : RefNal::ACCEPT; o.n = take_root(c); o.bits = r.p - from; }
  catch (const Reject& e) { o.v = c.opaque ? RefNal::EITHER : RefNal::REJECT; o.why = e.why; }
  catch (const EndOfData&) { o.v = c.opaque ? RefNal::EITHER : RefNal::REJECT; o.why = "data ends inside the structure"; }
  catch (const Unimplemented& e) { o.v = c.opaque ? RefNal::EITHER : RefNal::REJECT; o.unimpl = true; o.why = e.what; }
  o.opaque = c.opaque;
  return o;
}
struct StGen { Bytes b; std::string what, fault; int hard = 0; size_t bits = 0; bool ok = true; };
inline StGen st_gen(Tape& t, const StKind& k, const StCtx& x, const RefState& st, int fault_at, bool big) {
  StGen g; Ctx c(t); c.fault_at = fault_at; c.big = big;
  try { k.walk(c, x, st); } catch (const Reject&) { g.ok = false; } catch (const Unimplemented&) { g.ok = false; }
  g.bits = c.w.n; g.hard = c.hard_seen; g.fault = c.fault_name;
  g.what = std::string(k.name) + " " + take_root(c)->str();
  // structures that end an RBSP write their own trailing bits; the others are
  // followed by whatever comes next in the enclosing structure
  bool rbsp = !strcmp(k.name, "sps"), own = !strcmp(k.name, "subset_sps") || !strcmp(k.name, "sps_extension") || !strcmp(k.name, "pps") || !strncmp(k.name, "prefix", 6);
  if (own) c.w.align0();
  else { if (!rbsp) { int pad = t.below(3); while (pad--) c.w.bit(t.below(2)); } c.w.trailing(); }
  g.b = c.w.b;
  return g;
}
inline void st_check(const StKind& k, const StRef& r, bool got, const Flat& f, const char* how) {
  std::string tag = std::string(k.name) + " (" + how + "): ";
  if (r.v == RefNal::REJECT) { if (got) fail(tag + "accepted although it must be rejected: " + r.why); return; }
  if (!got) { if (r.v == RefNal::ACCEPT) fail(tag + "valid structure rejected"); return; }
  if (r.opaque || !r.n) return;
  Node* n = r.n->find(k.node); if (!n) throw HarnessError("no node");
  compare(*n, f, k.name);
}
// parameter sets for the kinds that need them, through both sides
inline std::string st_state(Tape& t, Pair& pr, bool svc) {
  std::string s; GenOpt o; o.small_ids = true;
  auto add = [&](uint32_t nut) {
    GenOpt q = o; if (nut == 8) { q.pg.sps_ids = svc ? keys_of(pr.ref.sub) : keys_of(pr.ref.sps); q.pg.map_units = 8; }
    if (nut == 15) q.sg.profiles = {83, 86};
    if (t.coin(1, 3)) q.sg.dim_hi = 12;
    GenNal g = gen_nal(t, nut, pr.ref, q); s += "[" + hex(g.nal, 300) + "] "; note("context " + s);
    RefNal r = ref_decode(g.nal, pr.ref); auto n = lib_parse(g.nal, &pr.lib);
    if (n && n->nal_unit_payload && n->nal_unit_payload->IsPayloadParsed(nut) && !r.opaque && r.pay) ref_commit(r, pr.ref);
  };
  add(svc ? 15 : 7); if (t.coin(1, 3)) add(svc ? 15 : 7);
  int n = 1 + t.below(2); while (n--) add(8);
  return s;
}
