// Parameter-set state over histories (C11), unimplemented reporting (C16),
// determinism and isolation (C18).
#include "runner.h"
#include "standalone.h"

namespace {
// ---------------------------------------------------------------- C11
struct Stored { std::map<uint32_t, std::shared_ptr<RefNal>> sps, pps, sub; };
void check_state(const H264BitstreamParserState& lib, const Stored& m) {
  auto ids = [](const char* k, auto& a, auto& b) {
    std::string x, y; for (auto& e : a) x += std::to_string(e.first) + " "; for (auto& e : b) y += std::to_string(e.first) + " ";
    if (x != y) fail(std::string(k) + " ids in force: " + x + ", expected: " + y);
  };
  ids("SPS", lib.sps, m.sps); ids("PPS", lib.pps, m.pps); ids("subset SPS", lib.subset_sps, m.sub);
  for (auto& e : m.sps) { auto p = lib.GetSps(e.first); if (!p || !p->sps_data) fail("stored SPS missing"); Flat f; f.sub["sps_data"] = flat(*p->sps_data); compare(*e.second->pay, f, "stored SPS " + std::to_string(e.first)); }
  for (auto& e : m.pps) { auto p = lib.GetPps(e.first); if (!p) fail("stored PPS missing"); Flat f; f.sub["pps"] = flat(*p); compare(*e.second->pay, f, "stored PPS " + std::to_string(e.first)); }
  for (auto& e : m.sub) { auto p = lib.GetSubsetSps(e.first); if (!p) fail("stored subset SPS missing"); Flat f; f.sub["subset_sps"] = flat(*p); compare(*e.second->pay, f, "stored subset SPS " + std::to_string(e.first)); }
  for (uint32_t id : {0u, 1u, 5u, 31u, 32u, 255u, 256u, 4294967295u}) {
    CHECK(!!lib.GetSps(id) == !!m.sps.count(id), "GetSps " + std::to_string(id));
    CHECK(!!lib.GetPps(id) == !!m.pps.count(id), "GetPps " + std::to_string(id));
    CHECK(!!lib.GetSubsetSps(id) == !!m.sub.count(id), "GetSubsetSps " + std::to_string(id));
  }
}
void c11_history(Tape& t, Info& info) {
  Pair pr; Stored m; std::vector<Bytes> prior; std::string log;
  StepOpt so; so.svc = t.coin(1, 2); so.broken = t.coin(1, 3) ? 0 : 25; so.unimpl = t.coin(1, 3);
  int n = 3 + t.below(t.coin(1, 6) ? 40 : 14);
  int slices = 0, replaced = 0, broken = 0; uint64_t h = 0;
  for (int i = 0; i < n; i++) {
    Step s = gen_step(t, pr.ref, prior, so);
    log += "[" + hex(s.nal, 120) + "] "; note("history " + log);
    RefNal r = ref_decode(s.nal, pr.ref);
    std::unique_ptr<NalState> nal;
    // one NAL at a time, or as a one-unit stream into the same state
    uint32_t via = t.below(4); bool whole = via >= 2 && !s.nal.empty() && s.nal.back() != 0;
    if (!whole) nal = lib_parse(s.nal, &pr.lib);
    else {
      Bytes e = ref_escape(s.nal), f = {0, 0, 1}; if (via == 3) { f.clear(); uint32_t z = (uint32_t)e.size(); for (int b = 3; b >= 0; b--) f.push_back(z >> (8 * b)); }
      f.insert(f.end(), e.begin(), e.end());
      std::unique_ptr<uint8_t[]> p(new uint8_t[f.size()]); std::copy(f.begin(), f.end(), p.get());
      auto bs = via == 3 ? H264BitstreamParser::ParseBitstreamNALULength(p.get(), f.size(), 4, &pr.lib, ParsingOptions()) : H264BitstreamParser::ParseBitstream(p.get(), f.size(), &pr.lib, ParsingOptions());
      if (!bs) { if (r.hdr_ok) fail("no bitstream"); } else if (bs->nal_units.size() > 1) fail("one NAL unit became " + std::to_string(bs->nal_units.size())); else if (bs->nal_units.size() == 1) nal = std::move(bs->nal_units[0]);
    }
    bool ok = check_nal(r, nal.get());
    if (ok && r.opaque) break;  // content the standard does not define
    if (ok) {
      auto keep = std::make_shared<RefNal>(std::move(r));
      ref_commit(*keep, pr.ref);
      if (keep->h.nut == 7) { replaced += m.sps.count(keep->sps.id); m.sps[keep->sps.id] = keep; }
      if (keep->h.nut == 8) { replaced += m.pps.count(keep->pps.id); m.pps[keep->pps.id] = keep; }
      if (keep->h.nut == 15) { replaced += m.sub.count(keep->sub.sps.id); m.sub[keep->sub.sps.id] = keep; }
      if (keep->h.nut == 1 || keep->h.nut == 5 || keep->h.nut == 20) slices++;
    } else broken++;
    check_state(pr.lib, m);
    prior.push_back(s.nal); h = fnv(s.nal, h + 1);
  }
  if (slices && replaced) info.nt(h);
  info.label(slices ? "with slices" : "no slice"); if (replaced) info.label("parameter set replaced"); if (broken) info.label("with undecoded NAL units");
  info.sample = std::to_string(prior.size()) + " NAL units, " + std::to_string(slices) + " slices decoded, " + std::to_string(replaced) + " replacements: " + log.substr(0, 600);
}

// many parameter sets at once: every id, in any order, over and over
void c11_many(Tape& t, Info& info) {
  Pair pr; Stored m; std::string log; int n = t.coin(1, 3) ? 300 + (int)t.below(900) : 40 + (int)t.below(260), slices = 0, replaced = 0; uint64_t h = 0;
  uint32_t ids = t.coin(2, 3) ? 256 : 1 + t.below(256), sids = t.coin(2, 3) ? 32 : 1 + t.below(32); bool dense = t.below(2); std::vector<Bytes> all;
  for (int i = 0; i < n; i++) {
    BitW w; uint32_t k = t.below(20); Bytes nal; if (i < 2) k = 0;
    if (k < 4) {  // an SPS, or a subset SPS without extension
      bool sub = k == 3; w.u(8, sub ? 0x6f : 0x67); uint32_t pr_[3] = {66, 77, 100}; uint32_t p = pr_[t.below(3)]; w.u(8, p); w.u(8, t.below(64) << 2); w.u(8, 10 + t.below(30)); w.ue(t.below(sids)); if (p == 100) { w.ue(t.below(3)); w.ue(t.below(7)); w.ue(0); w.bit(0); w.bit(0); }
      w.ue(t.below(13)); w.ue(2); w.ue(t.below(17)); w.bit(t.below(2)); w.ue(t.below(100)); w.ue(t.below(100)); bool f = t.below(2); w.bit(f); if (!f) w.bit(t.below(2)); w.bit(1); w.bit(0); w.bit(0); if (sub) w.bit(0); w.trailing(); nal = w.b;
    } else if (k < 17) {
      w.u(8, 0x68); w.ue(dense ? (uint32_t)i % ids : t.below(ids)); w.ue(t.below(sids)); w.bit(t.below(2)); w.bit(t.below(2)); w.ue(0); w.ue(t.below(32)); w.ue(t.below(32)); w.bit(t.below(2)); w.u(2, t.below(3)); w.se((int64_t)t.below(40) - 20); w.se((int64_t)t.below(40) - 20); w.se((int64_t)t.below(20) - 10); w.bit(t.below(2)); w.bit(t.below(2)); w.bit(t.below(2)); w.trailing(); nal = w.b;
      if (t.coin(1, 40)) nal.resize(2 + t.below((uint32_t)nal.size() - 2));
    } else if (k < 19) { nal = gen_nal(t, t.below(2) ? 1 : 5, pr.ref).nal; }
    else { static const uint8_t o[6] = {6, 9, 10, 11, 12, 13}; nal = {o[t.below(6)], 0x10, 0x80}; }
    log += "[" + hex(nal, 40) + "] "; note("history of " + std::to_string(i + 1) + ", ending " + (log.size() > 3000 ? log.substr(log.size() - 3000) : log));
    RefNal r = ref_decode(nal, pr.ref); auto u = lib_parse(nal, &pr.lib); bool ok = check_nal(r, u.get()); if (ok && r.opaque) break;
    if (ok) {
      auto keep = std::make_shared<RefNal>(std::move(r)); ref_commit(*keep, pr.ref);
      if (keep->h.nut == 7) { replaced += m.sps.count(keep->sps.id); m.sps[keep->sps.id] = keep; }
      if (keep->h.nut == 8) { replaced += m.pps.count(keep->pps.id); m.pps[keep->pps.id] = keep; }
      if (keep->h.nut == 15) { replaced += m.sub.count(keep->sub.sps.id); m.sub[keep->sub.sps.id] = keep; }
      if (keep->h.nut == 1 || keep->h.nut == 5) slices++;
    }
    if (i % 97 == 96) check_state(pr.lib, m);
    h = fnv(nal, h + 1);
  }
  check_state(pr.lib, m);
  if (slices && replaced) info.nt(h);
  info.label(m.pps.size() > 128 ? "more than 128 PPSs" : m.pps.size() > 16 ? "17-128 PPSs" : "few PPSs"); info.sample = std::to_string(n) + " NAL units, " + std::to_string(m.sps.size()) + " SPSs, " + std::to_string(m.pps.size()) + " PPSs, " + std::to_string(m.sub.size()) + " subset SPSs, " + std::to_string(slices) + " slices";
}

// ---------------------------------------------------------------- C16
uint64_t unimpl_count() { return (uint64_t)get_unimplemented_count(); }
void expect_delta(uint64_t before, bool unimpl, bool lax, const std::string& why) {
  uint64_t d = unimpl_count() - before;
  if (unimpl) { if (d != 1 && !(lax && d == 0)) fail("unimplemented syntax (" + why + ") counted " + std::to_string(d) + " times instead of once"); }
  else if (d != 0) fail("nothing unimplemented in this input but the count grew by " + std::to_string(d) + (why.empty() ? "" : " (" + why + ")"));
}
void c16_history(Tape& t, Info& info) {
  Pair pr; std::vector<Bytes> prior; std::string log; StepOpt so; so.svc = true; so.unimpl = true; so.broken = 20;
  int n = 3 + t.below(12), hits = 0; uint64_t h = 0;
  if (t.coin(1, 8)) reset_unimplemented_count();
  for (int i = 0; i < n; i++) {
    Step s = gen_step(t, pr.ref, prior, so);
    log += "[" + hex(s.nal, 120) + "] "; note("history " + log);
    RefNal r = ref_decode(s.nal, pr.ref);
    uint64_t before = unimpl_count();
    auto nal = lib_parse(s.nal, &pr.lib);
    // known finding: skipped subset SPS extensions are not counted (class excluded here)
    bool skipped_class = r.hdr_ok && r.h.nut == 15 && r.skipped;
    if (!r.opaque && !skipped_class) {
      expect_delta(before, r.unimpl, r.lax, r.why);
      bool ok = check_nal(r, nal.get());
      if (r.unimpl) { hits++; info.label(r.why); CHECK(!ok, "structure with unimplemented syntax reported as decoded"); }
      if (ok) ref_commit(r, pr.ref);
    } else if (skipped_class && !r.opaque && !r.lax && unimpl_count() > before + 1) fail("a skipped subset SPS extension counted " + std::to_string(unimpl_count() - before) + " times");
    if (skipped_class && unimpl_count() == before && nal && nal->nal_unit_payload && nal->nal_unit_payload->IsPayloadParsed(15)) info.label("known finding: subset SPS extension skipped without being counted");
    if ((r.opaque || skipped_class) && nal && nal->nal_unit_payload && nal->nal_unit_payload->IsPayloadParsed(r.h.nut)) { if (r.opaque || !r.pay) break; ref_commit(r, pr.ref); }
    prior.push_back(s.nal); h = fnv(s.nal, h + 1);
  }
  if (hits) info.nt(h); else info.label("nothing unimplemented");
  info.sample = std::to_string(hits) + " unimplemented in: " + log.substr(0, 600);
}
void c16_structure(Tape& t, Info& info) {
  auto& ks = st_kinds(); const StKind* kp = &ks[t.below((uint32_t)ks.size())]; Pair pr; std::string pre;
  if (t.coin(3, 4)) { std::vector<const StKind*> v; for (auto& q : ks) if (!strncmp(q.name, "prefix", 6) || !strncmp(q.name, "slice", 5)) v.push_back(&q); kp = v[t.below((uint32_t)v.size())]; }
  const StKind& k = *kp;
  if (k.needs_state) pre = st_state(t, pr, !strcmp(k.node, "slice_header_in_scalable_extension"));
  StCtx x = st_context(t, k, pr);
  if (!strcmp(k.node, "slice_header") && t.coin(1, 2)) x.nut = 20 + t.below(2);  // MVC slices
  x.urb = t.below(2);
  Ctx c(t); c.want_unimpl = t.coin(3, 4);
  try { k.walk(c, x, pr.ref); } catch (const Reject&) {} catch (const Unimplemented&) {}
  for (int i = 0; i < 40; i++) c.w.bit(t.below(2));
  c.w.trailing(); Bytes b = c.w.b;
  if (t.coin(1, 4)) mutate(t, b, 0);
  note(pre + k.name + " " + x.str() + " bytes=" + hex(b, 400));
  StRef r = st_parse(k, b, x, pr.ref);
  if (r.opaque || !strcmp(k.name, "subset_sps")) return;
  for (int form = 0; form < 2; form++) {
    uint64_t before = unimpl_count(); Flat f; bool got;
    Bytes e = form ? b : ref_escape(b); std::unique_ptr<uint8_t[]> p(new uint8_t[e.size() ? e.size() : 1]); std::copy(e.begin(), e.end(), p.get());
    if (form) { BitBuffer bb(p.get(), e.size()); got = k.bits(&bb, x, f); } else got = k.data(p.get(), e.size(), x, f);
    expect_delta(before, r.unimpl, true, r.why);
    if (r.unimpl) { CHECK(unimpl_count() == before + 1, r.why); CHECK(!got, r.why); }
  }
  if (r.unimpl) { info.nt(fnv(b, fnv(k.name, strlen(k.name)))); info.label(std::string(k.name) + ": " + r.why); }
  info.sample = std::string(k.name) + " " + x.str() + " " + hex(b, 60) + " " + r.why;
}

// ---------------------------------------------------------------- C18
ParsingOptions rnd_opts(Tape& t) { ParsingOptions o; o.add_offset = t.below(2); o.add_length = t.below(2); o.add_parsed_length = t.below(2); o.add_checksum = t.below(2); o.add_resolution = t.below(2); return o; }
// parse escaped bytes from a buffer with its own alignment and surroundings
struct Placed {
  std::unique_ptr<uint8_t[]> p; size_t off, n, total;
  Placed(Tape& t, const Bytes& e) { off = t.below(17); size_t tail = t.below(9); n = e.size(); total = off + n + tail; p.reset(new uint8_t[total ? total : 1]); uint8_t fill = (uint8_t)t.next(); memset(p.get(), fill, total); std::copy(e.begin(), e.end(), p.get() + off); }
};
std::string content(const NalState* n) { return repr_nal(n, false); }
void c18_isolation(Tape& t, Info& info) {
  StepOpt so; so.svc = t.coin(1, 2); so.broken = 15; so.unimpl = t.coin(1, 4);
  RefState ra, rb; auto A = gen_seq(t, 3 + t.below(8), so, ra), B = gen_seq(t, 3 + t.below(8), so, rb);
  note("A: " + nals_str(A) + " B: " + nals_str(B));
  // alone
  std::vector<std::string> wantA, wantAs, wantB, wantBs;
  { H264BitstreamParserState s; for (auto& n : A) { wantA.push_back(content(lib_parse(n, &s).get())); wantAs.push_back(repr_state(s)); } }
  { H264BitstreamParserState s; for (auto& n : B) { wantB.push_back(content(lib_parse(n, &s).get())); wantBs.push_back(repr_state(s)); } }
  // interleaved, with other options, other buffers; results kept
  auto sa = std::make_unique<H264BitstreamParserState>(), sb = std::make_unique<H264BitstreamParserState>();
  std::vector<std::unique_ptr<NalState>> keepA, keepB;
  size_t i = 0, j = 0;
  while (i < A.size() || j < B.size()) {
    bool a = j >= B.size() || (i < A.size() && t.below(2));
    const Bytes& nal = a ? A[i] : B[j];
    Bytes e = ref_escape(nal); Placed p(t, e);
    std::unique_ptr<uint8_t[]> before(new uint8_t[p.total ? p.total : 1]); memcpy(before.get(), p.p.get(), p.total);
    ParsingOptions po = rnd_opts(t);
    auto r = H264NalUnitParser::ParseNalUnit(p.p.get() + p.off, p.n, a ? sa.get() : sb.get(), po);
    CHECK(memcmp(before.get(), p.p.get(), p.total) == 0, "the input buffer was modified");
    memset(p.p.get(), 0xa5, p.total);
    same("result alone and result interleaved", a ? wantA[i] : wantB[j], content(r.get()));
    same("state alone and state interleaved", a ? wantAs[i] : wantBs[j], repr_state(a ? *sa : *sb));
    if (a) { keepA.push_back(std::move(r)); i++; } else { keepB.push_back(std::move(r)); j++; }
  }
  for (size_t k = 0; k < A.size(); k++) same("result when made and after later NAL units", wantA[k], content(keepA[k].get()));
  sa.reset();
  for (size_t k = 0; k < A.size(); k++) same("result when made and after its state is gone", wantA[k], content(keepA[k].get()));
  keepA.clear();
  for (size_t k = 0; k < B.size(); k++) same("result when made and after the other stream is gone", wantB[k], content(keepB[k].get()));
  same("state after other results are gone", wantBs.back(), repr_state(*sb));
  keepB.clear();
  same("state after its results are gone", wantBs.back(), repr_state(*sb));
  // again from the start, in the same process
  { H264BitstreamParserState s; for (size_t k = 0; k < A.size(); k++) same("first and second parse", wantA[k], content(lib_parse(A[k], &s).get())); }
  uint64_t h = 0; int parsed = 0; for (auto& n : A) h = fnv(n, h + 1); for (auto& n : B) h = fnv(n, h + 1); for (auto& w : wantA) parsed += w.find(" parsed ") != std::string::npos;
  if (parsed >= 2) info.nt(h);
  info.label(ra.pps.empty() ? "no PPS" : "with PPS");
  info.sample = std::to_string(A.size()) + "+" + std::to_string(B.size()) + " NAL units interleaved: " + nals_str(A, 40).substr(0, 400);
}
void c18_stream(Tape& t, Info& info) {
  StepOpt so; so.svc = t.coin(1, 2); so.broken = 15; RefState ra; auto A = gen_seq(t, 2 + t.below(8), so, ra);
  Bytes f; for (auto& n : A) { if (t.below(2)) f.push_back(0); f.push_back(0); f.push_back(0); f.push_back(1); Bytes e = ref_escape(n); f.insert(f.end(), e.begin(), e.end()); }
  note("stream " + hex(f, 1500));
  auto dump = [&](const H264BitstreamParser::BitstreamState* b, bool with) { std::string s; if (!b) return std::string("null"); for (auto& n : b->nal_units) s += std::to_string(n->offset) + "+" + std::to_string(n->length) + " " + repr_nal(n.get(), with) + "\n"; return s; };
  std::string want;
  { auto b = H264BitstreamParser::ParseBitstream(f.data(), f.size(), ParsingOptions()); want = dump(b.get(), false); }
  for (int k = 0; k < 3; k++) {
    Placed p(t, f); std::unique_ptr<uint8_t[]> before(new uint8_t[p.total]); memcpy(before.get(), p.p.get(), p.total);
    ParsingOptions po = rnd_opts(t);
    std::unique_ptr<H264BitstreamParser::BitstreamState> b;
    if (t.below(2)) b = H264BitstreamParser::ParseBitstream(p.p.get() + p.off, p.n, po);
    else { H264BitstreamParserState s; b = H264BitstreamParser::ParseBitstream(p.p.get() + p.off, p.n, &s, po); }
    CHECK(memcmp(before.get(), p.p.get(), p.total) == 0, "the input buffer was modified");
    p.p.reset();
    same("two parses of the same stream", want, dump(b.get(), false));
    if (b) { CHECK(b->parsing_options_.add_checksum == po.add_checksum && b->parsing_options_.add_offset == po.add_offset && b->parsing_options_.add_length == po.add_length && b->parsing_options_.add_parsed_length == po.add_parsed_length && b->parsing_options_.add_resolution == po.add_resolution, "parsing options not kept");
      for (auto& n : b->nal_units) CHECK(!!n->checksum == po.add_checksum, "checksum present without being asked for, or the other way round"); }
  }
  info.nt(fnv(f)); info.sample = hex(f, 120);
}
// one buffer reused for NAL units of one length that differ in a byte or two
void c18_reuse(Tape& t, Info& info) {
  StepOpt so; so.svc = t.coin(1, 2); so.broken = 10; RefState ra; auto A = gen_seq(t, 2 + t.below(5), so, ra); Bytes e = ref_escape(A.back());
  if (e.size() < 2) e.resize(2 + t.below(30), 0x80);
  std::vector<Bytes> v = {e}; int k = 1 + (int)t.below(4); for (int i = 0; i < k; i++) { Bytes x = v[t.below((uint32_t)v.size())]; for (int m = 1 + (int)t.below(2); m--;) x[t.below((uint32_t)x.size())] ^= (uint8_t)(1 << t.below(8)); v.push_back(x); }
  std::vector<int> order; for (int i = 0; i < 3 + k; i++) order.push_back((int)t.below((uint32_t)v.size()));
  std::string d; for (auto& x : v) d += " " + hex(x, 300); note("context " + nals_str(A) + " variants" + d);
  Bytes arena = e; ParsingOptions po = rnd_opts(t); po.add_checksum = true; auto sa = std::make_unique<H264BitstreamParserState>(), sb = std::make_unique<H264BitstreamParserState>(); for (size_t i = 0; i + 1 < A.size(); i++) { lib_parse(A[i], sa.get()); lib_parse(A[i], sb.get()); } std::vector<std::unique_ptr<uint8_t[]>> keep;
  for (int i : order) {
    std::copy(v[i].begin(), v[i].end(), arena.begin()); auto a = H264NalUnitParser::ParseNalUnit(arena.data(), arena.size(), sa.get(), po);
    keep.emplace_back(new uint8_t[e.size()]); std::copy(v[i].begin(), v[i].end(), keep.back().get()); auto b = H264NalUnitParser::ParseNalUnit(keep.back().get(), e.size(), sb.get(), po);
    same("NAL unit in a buffer of its own and in a reused one", repr_nal(b.get(), true), repr_nal(a.get(), true)); same("state after them", repr_state(*sb), repr_state(*sa));
    auto x = UnescapeRbsp(arena.data(), arena.size()); CHECK(x == ref_unescape(v[i]), "unescaped from a reused buffer");
  }
  uint64_t h = 0; for (auto& x : v) h = fnv(x, h + 1); info.nt(h); info.sample = d.substr(0, 400);
}
}  // namespace
PROP("C18", "reuse", c18_reuse, 8000, 800000, "two to five NAL units of one length, a byte or two apart, parsed in any order from one reused buffer and from buffers of their own; every case is non-trivial; distinct by the NAL units");
PROP("C11", "history", c11_history, 60000, 3000000, "3-42 NAL units with SPS/PPS ids 0-3: new, repeated, byte-mutated, truncated, SVC, unrelated types; after each, the NAL unit and every stored parameter set are compared with the reference; non-trivial: a parameter set is replaced and a slice decoded; distinct by the NAL unit bytes");
PROP("C11", "many", c11_many, 1500, 60000, "40-1200 NAL units over all 32 SPS and 256 PPS ids: SPSs, subset SPSs, PPSs (some cut short), slices, other types; non-trivial: a slice decoded and a parameter set replaced; distinct by the history");
PROP("C16", "history", c16_history, 60000, 3000000, "3-14 NAL units, a third of them free to use MVC/3D-AVC header extensions, reference base picture marking; non-trivial: at least one NAL unit uses unimplemented syntax; distinct by the NAL unit bytes");
PROP("C16", "structure", c16_structure, 120000, 6000000, "one standalone structure parser call, both forms, slices also with nal_unit_type 20/21; non-trivial: the structure needs unimplemented syntax; distinct by structure and bytes");
PROP("C18", "isolation", c18_isolation, 25000, 1200000, "two histories of 3-10 NAL units parsed alone, then interleaved with random options and buffer placements, results and states compared during and after; non-trivial: at least two payloads decoded; distinct by the NAL unit bytes");
PROP("C18", "stream", c18_stream, 25000, 1200000, "one Annex B stream parsed repeatedly with random options, placements and state overloads; non-trivial: every case; distinct by stream bytes");
#ifdef SMALL_FOOTPRINT
PROP("C24", "history", c11_history, 20000, 1000000, "small footprint build: histories as for C11");
PROP("C24", "many", c11_many, 300, 10000, "small footprint build: histories with many parameter sets as for C11");
PROP("C24", "unimplemented", c16_history, 15000, 800000, "small footprint build: histories as for C16");
PROP("C24", "uncounted", c16_structure, 30000, 1500000, "small footprint build: structures as for C16");
PROP("C24", "stream", c18_stream, 8000, 400000, "small footprint build: streams as for C18");
#endif
