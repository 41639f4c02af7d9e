// Reference decoding of one NAL unit and comparison with h264nal's result.
#pragma once
#include "flat.h"
#include "model.h"

using namespace h264nal;
using NalState = H264NalUnitParser::NalUnitState;

struct RefNal {
  bool hdr_ok = false;
  bool unimpl = false;          // syntax the tool refuses: must be reported
  std::string why;
  enum V { NONE, ACCEPT, REJECT, EITHER } v = NONE;  // NONE: no payload decoder for this type
  bool opaque = false, skipped = false;
  HdrM h;
  std::unique_ptr<Node> hdr, pay;
  bool lax = false;             // met a value the library may or may not refuse
  size_t bits = 0;              // position right after the last decoded element
  SpsM sps; PpsM pps; SubM sub;
};
inline bool has_decoder(uint32_t nut) { return nut == 1 || nut == 5 || nut == 7 || nut == 8 || nut == 14 || nut == 15 || nut == 20; }
inline std::unique_ptr<Node> take_root(Ctx& c) { auto n = std::make_unique<Node>("root", Node::STRUCT); n->kids = std::move(c.root.kids); return n; }

inline uint32_t chroma_for(const RefState& st, uint32_t sps_id) {
  auto i = st.sps.find(sps_id); if (i != st.sps.end()) return i->second.chroma_format_idc;
  auto j = st.sub.find(sps_id); if (j != st.sub.end()) return j->second.sps.chroma_format_idc;
  return 1;
}
// chroma_format_idc is ambiguous when both an SPS and a subset SPS have that id
inline bool chroma_ambiguous(const RefState& st, uint32_t sps_id) {
  auto i = st.sps.find(sps_id); auto j = st.sub.find(sps_id);
  return i != st.sps.end() && j != st.sub.end() && (i->second.chroma_format_idc == 3) != (j->second.sps.chroma_format_idc == 3);
}
inline void ref_payload(RefNal& o, BitR& r, const RefState& st) {
  Ctx c(r);
  try {
    switch (o.h.nut) {
      case 1: case 5: w_slice_header(c, st, o.h.ref_idc, o.h.nut); break;
      case 7: o.sps = w_sps_data(c); break;
      case 8:
        o.pps = w_pps(c, [&](uint32_t id) { if (chroma_ambiguous(st, id)) c.opaque = true; return chroma_for(st, id); });
        break;
      case 14: w_prefix_svc(c, o.h.ref_idc, o.h.svc.use_ref_base, o.h.svc.idr); break;
      case 15: o.sub = w_subset_sps(c, o.skipped); break;
      case 20: w_svc_slice(c, st, o.h.ref_idc, o.h.svc); break;
      default: o.v = RefNal::NONE; o.bits = r.p; return;
    }
    o.bits = r.p;
    o.v = c.lax || c.opaque || o.skipped ? RefNal::EITHER : RefNal::ACCEPT;
    o.opaque = c.opaque; o.lax = c.lax;
    o.pay = take_root(c);
  }
  catch (const Reject& x) { o.lax = c.lax; o.v = c.opaque ? RefNal::EITHER : RefNal::REJECT; o.opaque = c.opaque; o.why = x.why; }
  catch (const EndOfData&) { o.lax = c.lax; o.v = c.opaque || o.skipped ? RefNal::EITHER : RefNal::REJECT; o.opaque = c.opaque || o.skipped; o.why = "data ends inside the structure"; }
  catch (const Unimplemented& x) { o.lax = c.lax; o.v = c.opaque ? RefNal::EITHER : RefNal::REJECT; o.opaque = c.opaque; o.unimpl = true; o.why = x.what; }
}
inline RefNal ref_decode(const Bytes& unescaped, const RefState& st) {
  RefNal o;
  BitR r(unescaped);
  {
    Ctx c(r);
    try { o.h = w_nal_header(c); o.hdr_ok = true; o.hdr = take_root(c); }
    catch (const EndOfData&) { o.why = "data ends inside the header"; return o; }
    catch (const Unimplemented& x) { o.unimpl = true; o.why = x.what; return o; }
  }
  ref_payload(o, r, st);
  return o;
}
inline void ref_commit(const RefNal& o, RefState& st) {
  if (o.h.nut == 7) st.sps[o.sps.id] = o.sps;
  else if (o.h.nut == 8) st.pps[o.pps.id] = o.pps;
  else if (o.h.nut == 15) st.sub[o.sub.sps.id] = o.sub;
}
inline Flat flat_payload(const H264NalUnitPayloadParser::NalUnitPayloadState& p, uint32_t nut) {
  Flat o;
  if (p.sps) { if (!p.sps->sps_data) fail("SPS without sps_data"); o.sub["sps_data"] = flat(*p.sps->sps_data); }
  if (p.pps) o.sub["pps"] = flat(*p.pps);
  if (p.slice_layer_without_partitioning_rbsp) { auto& s = *p.slice_layer_without_partitioning_rbsp; if (!s.slice_header) fail("slice layer without slice_header"); o.sub["slice_header"] = flat(*s.slice_header); }
  if (p.prefix_nal_unit) { auto& s = *p.prefix_nal_unit; if (s.prefix_nal_unit_svc) o.sub["prefix_nal_unit_svc"] = flat(*s.prefix_nal_unit_svc); }
  if (p.subset_sps) o.sub["subset_sps"] = flat(*p.subset_sps);
  if (p.slice_layer_extension_rbsp) { auto& s = *p.slice_layer_extension_rbsp; if (s.slice_header_in_scalable_extension) o.sub["slice_header_in_scalable_extension"] = flat(*s.slice_header_in_scalable_extension); if (s.slice_header) o.sub["slice_header"] = flat(*s.slice_header); }
  (void)nut;
  return o;
}
// Compare; returns whether the payload was decoded (accepted).
inline bool check_payload(const RefNal& r, const H264NalUnitPayloadParser::NalUnitPayloadState* p, uint32_t nut) {
  if (!p) fail("null nal_unit_payload");
  bool parsed = p->IsPayloadParsed(nut);
  std::string tag = "nal_unit_type " + std::to_string(nut) + ": ";
  switch (r.v) {
    case RefNal::NONE: {
      if (!parsed) fail(tag + "a type without decoder is reported as not decoded");
      if (p->sps || p->pps || p->slice_layer_without_partitioning_rbsp || p->prefix_nal_unit || p->subset_sps || p->slice_layer_extension_rbsp) fail(tag + "payload of another type was decoded");
      return false;
    }
    case RefNal::REJECT:
      if (parsed) fail(tag + "decoded although it must be rejected: " + r.why);
      return false;
    case RefNal::ACCEPT:
      if (!parsed) fail(tag + "valid payload rejected");
      break;
    case RefNal::EITHER:
      if (!parsed) return false;
      break;
  }
  int present = !!p->sps + !!p->pps + !!p->slice_layer_without_partitioning_rbsp + !!p->prefix_nal_unit + !!p->subset_sps + !!p->slice_layer_extension_rbsp;
  if (present != 1) fail(tag + std::to_string(present) + " payload structures for one NAL unit");
  if (!r.opaque && r.pay) {
    Flat f = flat_payload(*p, nut);
    compare(*r.pay, f, "");
  }
  return true;
}
inline bool check_nal(const RefNal& r, const NalState* n) {
  if (!r.hdr_ok) { if (n) fail("NAL unit with an undecodable header was kept: " + r.why); return false; }
  if (!n) fail("NAL unit with a decodable header was dropped");
  if (!n->nal_unit_header) fail("null nal_unit_header");
  Flat f; f.sub["nal_unit_header"] = flat(*n->nal_unit_header);
  compare(*r.hdr, f, "");
  return check_payload(r, n->nal_unit_payload.get(), r.h.nut);
}

// ---------------------------------------------------------------- full states as text, for library-vs-library equality
inline std::string repr(const Flat& f) {
  std::string s = "{";
  for (auto& e : f.f) { s += e.first + "="; for (auto v : e.second) s += std::to_string(v) + ","; s += ";"; }
  for (auto& e : f.sub) s += e.first + repr(e.second);
  return s + "}";
}
inline std::string repr_payload(const H264NalUnitPayloadParser::NalUnitPayloadState* p, uint32_t nut) {
  if (!p) return "null";
  std::string s = p->IsPayloadParsed(nut) ? "parsed " : "unparsed ";
  s += repr(flat_payload(*p, nut));
  if (p->slice_layer_without_partitioning_rbsp) s += "slwp" + std::to_string(p->slice_layer_without_partitioning_rbsp->nal_ref_idc) + "," + std::to_string(p->slice_layer_without_partitioning_rbsp->nal_unit_type);
  if (p->prefix_nal_unit) s += "prefix";
  return s;
}
inline std::string repr_hdr(const H264NalUnitHeaderParser::NalUnitHeaderState* h) { return h ? repr(flat(*h)) : "null"; }
inline std::string checksum_str(const NalState* n) { if (!n->checksum) return "none"; char b[256] = {}; n->checksum->fdump(b, sizeof b); return b; }
inline std::string repr_nal(const NalState* n, bool checksum = true) {
  if (!n) return "null";
  std::string s = "hdr" + repr_hdr(n->nal_unit_header.get());
  s += " parsed_length=" + std::to_string(n->parsed_length);
  if (checksum) s += " checksum=" + checksum_str(n);
  return s + " " + repr_payload(n->nal_unit_payload.get(), n->nal_unit_header ? n->nal_unit_header->nal_unit_type : 0);
}
inline std::string repr_state(const H264BitstreamParserState& st) {
  std::string s;
  for (auto& e : st.sps) s += "sps" + std::to_string(e.first) + (e.second ? repr(flat(*e.second->sps_data)) : "null");
  for (auto& e : st.pps) s += "pps" + std::to_string(e.first) + (e.second ? repr(flat(*e.second)) : "null");
  for (auto& e : st.subset_sps) s += "sub" + std::to_string(e.first) + (e.second ? repr(flat(*e.second)) : "null");
  return s;
}
// first difference, for messages
inline void same(const char* what, const std::string& a, const std::string& b) {
  if (a == b) return;
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = i > 60 ? i - 60 : 0;
  fail(std::string(what) + " differ: ..." + a.substr(s, 160) + " / ..." + b.substr(s, 160));
}
