// The text dump against the reference trace and the decoded state.
#include "corpus.h"
#include "dumptree.h"
#include "standalone.h"

namespace {
ParsingOptions opts(uint32_t m) { ParsingOptions o; o.add_offset = m & 1; o.add_length = m & 2; o.add_parsed_length = m & 4; o.add_checksum = m & 8; o.add_resolution = m & 16; return o; }
std::set<std::string> dropped(const ParsingOptions& o) {
  std::set<std::string> d;
  if (!o.add_offset) d.insert("nal_unit/offset");
  if (!o.add_length) d.insert("nal_unit/length");
  if (!o.add_parsed_length) d.insert("nal_unit/parsed_length");
  if (!o.add_checksum) d.insert("nal_unit/checksum");
  if (!o.add_resolution) { d.insert("sps_data/width"); d.insert("sps_data/height"); }
  return d;
}
const DNode& need(const DNode& d, const char* n) { auto* x = d.find(n); if (!x || x->k != DNode::BLOCK) fail(std::string(n) + " is not in the dump"); return *x; }
void value(const DNode& d, const char* n, int64_t want) { auto* x = d.find(n); int64_t v; if (!x) fail(std::string(n) + " is not in the dump"); if (!to_num(x->text, v) || v != want) fail(std::string(n) + " dumped as " + x->text + ", is " + std::to_string(want)); }
void sps_extras(const H264SpsDataParser::SpsDataState& s, const DNode& d, bool resolution) {
  auto* p = d.find("profile"); std::string nm; profileTypeToString(s.profile_type, nm);
  if (!p || p->text != nm) fail("profile dumped as '" + (p ? p->text : std::string("(nothing)")) + "', is '" + nm + "'");
  if (resolution) { int w = -1, h = -1; s.getResolution(&w, &h); value(d, "width", w); value(d, "height", h); }
  else if (d.find("width") || d.find("height")) fail("resolution dumped although not asked for");
}
// the dump of a payload; `r` may be null (no reference trace: state values only)
void payload_dump(const Node* pay, const H264NalUnitPayloadParser::NalUnitPayloadState& p, uint32_t nut, const DNode& d, bool resolution) {
  Flat f = flat_payload(p, nut);
  auto sub = [&](const char* n, const DNode& dn) { Node* k = pay ? pay->find(n) : nullptr; auto it = f.sub.find(n); if (it != f.sub.end()) check_dump(k, it->second, dn, n); };
  if (p.sps) { auto& x = need(need(d, "sps"), "sps_data"); sub("sps_data", x); sps_extras(*p.sps->sps_data, x, resolution); }
  else if (p.pps) sub("pps", need(d, "pps"));
  else if (p.slice_layer_without_partitioning_rbsp) sub("slice_header", need(need(d, "slice_layer_without_partitioning_rbsp"), "slice_header"));
  else if (p.prefix_nal_unit) { auto& x = need(d, "prefix_nal_unit_rbsp"); if (p.prefix_nal_unit->prefix_nal_unit_svc) sub("prefix_nal_unit_svc", need(x, "prefix_nal_unit_svc")); }
  else if (p.subset_sps) { auto& x = need(d, "subset_sps"); sub("subset_sps", x); sps_extras(*p.subset_sps->seq_parameter_set_data, need(x, "sps_data"), resolution); }
  else if (p.slice_layer_extension_rbsp) { auto& x = need(d, "slice_layer_extension_rbsp"); if (p.slice_layer_extension_rbsp->slice_header_in_scalable_extension) sub("slice_header_in_scalable_extension", need(x, "slice_header_in_scalable_extension")); }
  else if (!d.kids.empty()) fail("the dump of an undecoded payload contains " + d.kids[0].name);
}
void header_dump(const Node* hdr, const H264NalUnitHeaderParser::NalUnitHeaderState& h, const DNode& d) { check_dump(hdr, flat(h), d, "nal_unit_header"); }
void nal_dump(const RefNal* r, const NalState& n, const DNode& d, const ParsingOptions& po) {
  auto opt = [&](const char* nm, bool on, int64_t v) { if (on) value(d, nm, v); else if (d.find(nm)) fail(std::string(nm) + " dumped although not asked for"); };
  opt("offset", po.add_offset, (int64_t)n.offset); opt("length", po.add_length, (int64_t)n.length); opt("parsed_length", po.add_parsed_length, (int64_t)n.parsed_length);
  auto* c = d.find("checksum");
  if (po.add_checksum && n.checksum) { if (!c || c->text != "0x" + checksum_str(&n)) fail("checksum dumped as " + (c ? c->text : std::string("(nothing)")) + ", is " + checksum_str(&n)); }
  else if (c) fail("checksum dumped although not asked for");
  header_dump(r && r->hdr ? r->hdr->find("nal_unit_header") : nullptr, *n.nal_unit_header, need(d, "nal_unit_header"));
  payload_dump(r && r->pay && !r->opaque ? r->pay.get() : nullptr, *n.nal_unit_payload, n.nal_unit_header->nal_unit_type, need(d, "nal_unit_payload"), po.add_resolution);
}
const DNode& only(const DNode& top, const char* n) { if (top.kids.size() != 1 || top.kids[0].name != n) fail("the dump is not one " + std::string(n) + " structure"); return top.kids[0]; }

// one NAL unit after its context: values, forms, options
void c14_nal(Tape& t, Info& info) {
  Pair pr; std::string s; static const uint32_t kinds[24] = {7, 7, 7, 8, 8, 8, 1, 1, 1, 1, 5, 5, 5, 14, 14, 15, 15, 20, 20, 20, 20, 6, 9, 21};
  uint32_t nut = kinds[t.below(24)]; if (nut == 21) nut = t.below(32);
  bool svc = nut == 15 || nut == 20;
  if (nut == 1 || nut == 5 || nut == 20 || nut == 8) s = st_state(t, pr, svc);
  GenOpt o; o.big = t.coin(1, 40);
  if (nut == 8) { o.pg.sps_ids = svc ? keys_of(pr.ref.sub) : keys_of(pr.ref.sps); if (t.coin(1, 6)) o.pg.sps_ids.clear(); }
  GenNal g = gen_nal(t, nut, pr.ref, o); Bytes nal = g.nal;
  if (t.coin(1, 8)) mutate(t, nal, t.coin(1, 6) ? 0 : (g.hdr_bits + 7) / 8);
  uint32_t mp = t.coin(1, 2) ? 31 : t.below(32), m = t.below(32), form = t.below(6);
  note("context " + s + " nal(unescaped)=" + hex(nal, 600) + " parse options " + std::to_string(mp) + " dump options " + std::to_string(m) + " | " + g.what.substr(0, 1200));
  RefNal r = ref_decode(nal, pr.ref);
  auto n = lib_parse(nal, &pr.lib, opts(mp)); if (!n) { info.label("dropped"); return; }
  if (!n->nal_unit_header || !n->nal_unit_payload) fail("NAL unit without header or payload");
  n->offset = t.coin(1, 3) ? t.next() : t.below(5000);  // as the stream parsers set it
  std::string full = capture_forms([&](FILE* fp, int ind) { n->fdump(fp, ind, opts(31)); }, form);
  DNode ft = dump_tree(full); nal_dump(r.hdr_ok ? &r : nullptr, *n, only(ft, "nal_unit"), opts(31));
  if (m != 31) {
    std::string part = m & 1 || t.coin(1, 4) ? capture_forms([&](FILE* fp, int ind) { n->fdump(fp, ind, opts(m)); }, form / 2) : capture([&](FILE* fp) { n->fdump(fp, -1, opts(m)); });
    DNode pt = dump_tree(part); nal_dump(r.hdr_ok ? &r : nullptr, *n, only(pt, "nal_unit"), opts(m));
    same("a dump option changes more than its own field: dumps", dump_str(pt), dump_str(ft, dropped(opts(m))));
  }
  info.nt(fnv(nal, fnv(s.data(), s.size(), mp * 32 + m)));
  bool parsed = r.v == RefNal::ACCEPT || r.v == RefNal::EITHER;
  info.label((parsed ? "decoded " : "header only ") + std::to_string(r.h.nut));
  info.sample = full.substr(0, 400);
}
// structures dumped on their own
void c14_struct(Tape& t, Info& info) {
  auto& ks = st_kinds(); const StKind& k = ks[t.below((uint32_t)ks.size())]; Pair pr; std::string s;
  if (k.needs_state) s = st_state(t, pr, !strcmp(k.node, "slice_header_in_scalable_extension"));
  StCtx x = st_context(t, k, pr); StGen g = st_gen(t, k, x, pr.ref, -1, t.coin(1, 40)); uint32_t form = t.below(6);
  note("context " + s + " " + x.str() + " bytes " + hex(g.b, 600) + " " + g.what.substr(0, 1000));
  StRef r = st_parse(k, g.b, x, pr.ref); Flat f; bool ok = false;
  auto& sd = st_dump(); sd.po = opts(31);
  std::string full = capture_forms([&](FILE* fp, int ind) { sd.fp = fp; sd.indent = ind; f = Flat(); BitBuffer bb(g.b.data(), g.b.size()); ok = k.bits(&bb, x, f); sd.fp = nullptr; }, form);
  if (!ok || !r.n) { info.label("rejected"); return; }
  DNode top = dump_tree(full); if (top.kids.size() != 1) fail("the dump of " + std::string(k.name) + " is not one structure");
  const DNode* d = &top.kids[0]; std::string want = !strcmp(k.node, "hrd") ? "hrd_parameters" : k.node;
  while (d->name != want) { const DNode* in = nullptr; for (auto& c : d->kids) if (c.k == DNode::BLOCK) { in = &c; break; } if (!in) { if (d == &top.kids[0]) break; fail(want + " is not in the dump of " + k.name); } d = in; }
  check_dump(r.opaque ? nullptr : r.n->find(k.node), f, *d, k.name);
  info.nt(fnv(g.b, fnv(x.str().data(), x.str().size()))); info.label(k.name); info.sample = full.substr(0, 300);
}
// a whole stream: one dump per NAL unit, in order, with where it lies
void c14_stream(Tape& t, Info& info) {
  auto v = some_nals(t, 1 + t.below(6)); bool annexb = t.below(2); int w = 2 + (int)t.below(3); Bytes buf = annexb ? frame_annexb(t, v) : frame_length(v, w);
  uint32_t m = t.coin(1, 2) ? 31 : t.below(32), m2 = t.below(32); note("options " + std::to_string(m) + (annexb ? " annexb " : " length-framed ") + hex(buf, 1500));
  H264BitstreamParserState st; auto s = annexb ? H264BitstreamParser::ParseBitstream(buf.data(), buf.size(), &st, opts(m)) : H264BitstreamParser::ParseBitstreamNALULength(buf.data(), buf.size(), (size_t)w, &st, opts(m));
  int ind = t.coin(1, 2) ? -1 : (int)t.below(3);
  std::string all = capture([&](FILE* fp) { s->fdump(fp, ind, opts(m2)); }), sum;
  for (auto& n : s->nal_units) {
    std::string one = capture([&](FILE* fp) { n->fdump(fp, ind, opts(m)); });
    DNode d = dump_tree(one); nal_dump(nullptr, *n, only(d, "nal_unit"), opts(m));
    if (m & 1) { if (n->offset > buf.size() || n->length > buf.size() - n->offset) fail("dumped position lies outside the buffer"); if ((buf[n->offset] & 31) != n->nal_unit_header->nal_unit_type) fail("no such NAL unit at the dumped offset"); }
    sum += one + "\n";
  }
  same("stream dump and NAL unit dumps", all, sum);
  if (ind < 0) { size_t lines = 0; for (char c : all) lines += c == '\n'; eq("lines of the one-line form", lines, s->nal_units.size()); }
  info.nt(fnv(buf, m * 32 + m2)); info.label(annexb ? "annexb" : "length-framed"); info.sample = all.substr(0, 300);
}
// RTP packets
void c14_rtp(Tape& t, Info& info) {
  std::vector<Bytes> v = some_nals(t, 1 + t.below(4)); H264BitstreamParserState st; uint32_t k = t.below(3); Bytes b; std::string ctx;
  for (size_t i = 0; i + 1 < v.size() && k != 1; i++) { H264NalUnitParser::ParseNalUnit(v[i].data(), v[i].size(), &st, opts(31)); ctx += "[" + hex(v[i], 200) + "] "; }
  if (k == 0) b = v.back();
  else if (k == 1) { b.push_back((uint8_t)(t.below(4) << 5 | 24)); for (auto& n : v) { b.push_back((uint8_t)(n.size() >> 8)); b.push_back((uint8_t)n.size()); append(b, n); } }
  else { Bytes n = v.back(); uint8_t h = n.empty() ? 0 : n[0]; b = {(uint8_t)((h & 0x60) | 28), (uint8_t)((t.below(2) ? 0x80 : t.below(8) << 5) | (h & 31))}; if (!n.empty()) b.insert(b.end(), n.begin() + 1, n.end()); }
  uint32_t m = t.below(2) ? 16 : 0, form = t.below(6); note("context " + ctx + " packet " + hex(b, 1500));
  auto s = H264RtpParser::ParseRtp(b.data(), b.size(), &st); if (!s) { info.label("rejected"); return; }
  std::string full = capture_forms([&](FILE* fp, int ind) { s->fdump(fp, ind, opts(m)); }, form);
  DNode top = dump_tree(full); const DNode& d = only(top, "rtp"); header_dump(nullptr, *s->nal_unit_header, need(d, "nal_unit_header")); uint32_t nut = s->nal_unit_header->nal_unit_type;
  value(need(d, "nal_unit_header"), "nal_unit_type", nut); value(need(d, "nal_unit_header"), "nal_ref_idc", s->nal_unit_header->nal_ref_idc);
  if (s->rtp_single) { auto& x = need(d, "rtp_single"); header_dump(nullptr, *s->rtp_single->nal_unit_header, need(x, "nal_unit_header")); payload_dump(nullptr, *s->rtp_single->nal_unit_payload, nut, need(x, "nal_unit_payload"), m & 16); }
  else if (s->rtp_stapa) {
    auto& x = need(d, "rtp_stapa"); auto& a = *s->rtp_stapa; header_dump(nullptr, *a.header, need(x, "nal_unit_header"));
    for (size_t i = 0; i < a.nal_unit_sizes.size(); i++) {
      auto* z = x.find("nal_unit_size", i); auto* h = x.find("nal_unit_header", i + 1); auto* p = x.find("nal_unit_payload", i); int64_t q;
      if (!z || !h || !p) fail("aggregated NAL unit " + std::to_string(i) + " is not in the dump");
      if (!to_num(z->text, q) || q != (int64_t)a.nal_unit_sizes[i]) fail("nal_unit_size dumped as " + z->text);
      header_dump(nullptr, *a.nal_unit_headers[i], *h); value(*h, "nal_unit_type", a.nal_unit_headers[i]->nal_unit_type); payload_dump(nullptr, *a.nal_unit_payloads[i], a.nal_unit_headers[i]->nal_unit_type, *p, m & 16);
    }
    if (x.find("nal_unit_size", a.nal_unit_sizes.size())) fail("more NAL units dumped than aggregated");
  } else if (s->rtp_fua) {
    auto& x = need(d, "rtp_fua"); auto& a = *s->rtp_fua; header_dump(nullptr, *a.header, need(x, "nal_unit_header"));
    value(x, "s_bit", a.s_bit); value(x, "e_bit", a.e_bit); value(x, "r_bit", a.r_bit); value(x, "fu_type", a.fu_type);
    if (a.s_bit) { auto& p = need(x, "nal_unit_payload"); if (a.nal_unit_payload) payload_dump(nullptr, *a.nal_unit_payload, a.fu_type, p, m & 16); } else if (x.find("nal_unit_payload")) fail("payload dumped for a later fragment");
  }
  info.nt(fnv(b)); info.label(s->rtp_single ? "single" : s->rtp_stapa ? "stap-a" : s->rtp_fua ? "fu-a" : "other"); info.sample = full.substr(0, 300);
}
}  // namespace
PROP("C14", "nal", c14_nal, 120000, 3000000, "one grammar-generated NAL unit after its parameter sets (one in eight mutated), dumped with every option, with a random option subset, one-line and indented; non-trivial: it has a decodable header; distinct by (parameter sets, NAL unit, options)");
PROP("C14", "structure", c14_struct, 80000, 2000000, "one of the structure parsers called on its own on generated content, dumped one-line and indented; non-trivial: accepted; distinct by (context, bytes)");
PROP("C14", "stream", c14_stream, 25000, 600000, "one to six generated or recorded NAL units, Annex B or length-framed, dumped as a stream and one by one; every case is non-trivial; distinct by (buffer, options)");
PROP("C14", "rtp", c14_rtp, 40000, 1000000, "single NAL unit, STAP-A and FU-A packets carrying generated or recorded NAL units; non-trivial: accepted; distinct by packet");
