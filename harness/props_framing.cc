// Framing equivalence (C12), RTP (C13), checksum and parsed length (C17).
#include "gen.h"
#include "runner.h"

namespace {
struct Buf {  // exact-size heap buffer
  std::unique_ptr<uint8_t[]> p; size_t n;
  explicit Buf(const Bytes& b) : p(new uint8_t[b.size() ? b.size() : 1]), n(b.size()) { std::copy(b.begin(), b.end(), p.get()); }
};
void put(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
std::string bare(const NalState* n, bool len) {
  if (!n) return "null";
  return "hdr" + repr_hdr(n->nal_unit_header.get()) + (len ? " parsed_length=" + std::to_string(n->parsed_length) : "") + " checksum=" + checksum_str(n) + " " + repr_payload(n->nal_unit_payload.get(), n->nal_unit_header->nal_unit_type);
}
// NAL units (escaped) that can stand in a byte stream: non-empty, last byte not zero
std::vector<Bytes> stream_nals(Tape& t, int n, const StepOpt& so, RefState& st) {
  auto v = gen_seq(t, n, so, st);
  for (auto& b : v) { if (b.empty() || b.back() == 0) b.push_back(0x80); b = ref_escape(b); }
  return v;
}
// ---------------------------------------------------------------- C12
// very many units, or very long ones: what lies where is known by construction
void c12_many(Tape& t, Info& info) {
  bool longu = t.coin(1, 4); size_t n = longu ? 1 + t.below(6) : t.coin(1, 12) ? 60000 + t.below(12000) : 200 + t.below(9000); uint32_t a = 1 + t.below(1u << 20), sh = t.below(3);
  struct U { size_t off, len; uint8_t h; }; static const uint8_t hs[8] = {0x09, 0x06, 0x0c, 0x67, 0x68, 0x41, 0x1f, 0x65};
  int nb = longu ? 3 + (int)t.below(3) : 1 + (int)t.below(5); Bytes f, g; std::vector<U> w, x;
  for (size_t i = 0; i < n; i++) {
    a = a * 1664525u + 1013904223u; uint8_t hd = hs[(a >> 24) % 8]; size_t len = 1 + (a >> 16) % (sh == 0 ? 2 : 7);
    if (longu && t.coin(1, 2)) { static const size_t z[8] = {65535, 65536, 65537, 131072, 1048576, 1048577, 300000, 2000000}; len = z[t.below(8)]; hd = 0x0c; }
    if ((a >> 10) % 3) f.push_back(0); f.push_back(0); f.push_back(0); f.push_back(1); w.push_back({f.size(), len, hd}); f.push_back(hd); f.insert(f.end(), len - 1, 0xff);
    for (int k = nb - 1; k >= 0; k--) g.push_back((uint8_t)((uint64_t)len >> (8 * k))); x.push_back({g.size(), len, hd}); g.push_back(hd); g.insert(g.end(), len - 1, 0xff);
  }
  note(std::to_string(n) + " NAL units, " + std::to_string(f.size()) + " bytes of Annex B, length fields of " + std::to_string(nb) + " bytes; starts " + hex(f, 300));
  auto verify = [&](const char* how, const H264BitstreamParser::BitstreamState* bs, const std::vector<U>& e) {
    if (!bs) fail(std::string(how) + ": no result"); eq((std::string(how) + ": NAL units").c_str(), bs->nal_units.size(), e.size());
    for (size_t i = 0; i < e.size(); i++) {
      auto& u = bs->nal_units[i]; std::string id = std::string(how) + ": NAL unit " + std::to_string(i); if (!u || !u->nal_unit_header) fail(id + " is null");
      if (u->offset != e[i].off || u->length != e[i].len) fail(id + " at " + std::to_string(u->offset) + "+" + std::to_string(u->length) + ", expected " + std::to_string(e[i].off) + "+" + std::to_string(e[i].len));
      eq((id + ": nal_unit_type").c_str(), u->nal_unit_header->nal_unit_type, e[i].h & 31); eq((id + ": nal_ref_idc").c_str(), u->nal_unit_header->nal_ref_idc, e[i].h >> 5);
    }
  };
  { Buf b(f); auto ix = H264BitstreamParser::FindNaluIndices(b.p.get(), b.n); eq("NAL units found", ix.size(), n); for (size_t i = 0; i < n; i++) { eq("payload_start_offset", ix[i].payload_start_offset, w[i].off); eq("payload_size", ix[i].payload_size, w[i].len); }
    H264BitstreamParserState s; auto bs = H264BitstreamParser::ParseBitstream(b.p.get(), b.n, &s, ParsingOptions()); verify("Annex B", bs.get(), w); }
  { Buf b(g); H264BitstreamParserState s; auto bs = H264BitstreamParser::ParseBitstreamNALULength(b.p.get(), b.n, (size_t)nb, &s, ParsingOptions()); verify("length-framed", bs.get(), x);
    if (nb == 4) { auto ix = H264BitstreamParser::FindNaluIndicesExplicitFraming(b.p.get(), b.n); eq("length-framed NAL units found", ix.size(), n); for (size_t i = 0; i < n; i++) { eq("payload_start_offset", ix[i].payload_start_offset, x[i].off); eq("payload_size", ix[i].payload_size, x[i].len); } } }
  info.nt(fnv(f)); info.label(longu ? "long units" : n > 60000 ? "over 60000 units" : "200-9200 units"); info.sample = std::to_string(n) + " units in " + std::to_string(f.size()) + " bytes";
}
struct Want { size_t off, len; std::string r; };
void c12_framing(Tape& t, Info& info) {
  StepOpt so; so.svc = t.coin(1, 2); so.broken = t.coin(1, 2) ? 0 : 20; so.unimpl = t.coin(1, 3); so.big_opaque = true;
  RefState rs; auto E = stream_nals(t, 1 + t.below(9), so, rs);
  std::string in = nals_str(E, 120); note("NAL units (escaped) " + in);
  std::vector<std::string> R; H264BitstreamParserState seq; int nulls = 0, decoded = 0; std::vector<std::string> states;
  for (auto& e : E) { Buf b(e); auto n = H264NalUnitParser::ParseNalUnit(b.p.get(), b.n, &seq, ParsingOptions()); R.push_back(bare(n.get(), true)); nulls += !n; decoded += R.back().find(" parsed ") != std::string::npos; states.push_back(repr_state(seq)); }
  auto verify = [&](const char* how, const H264BitstreamParser::BitstreamState* bs, const std::vector<Want>& w, bool len) {
    if (!bs) fail(std::string(how) + ": no result");
    size_t k = 0;
    for (auto& x : w) {
      if (x.r == "null") continue;
      if (k >= bs->nal_units.size()) fail(std::string(how) + ": only " + std::to_string(k) + " NAL units, one at offset " + std::to_string(x.off) + " is missing");
      auto& n = bs->nal_units[k++];
      if (!n) fail("null NAL unit in the list");
      if (n->offset != x.off || n->length != x.len) fail(std::string(how) + ": NAL unit " + std::to_string(k - 1) + " at " + std::to_string(n->offset) + "+" + std::to_string(n->length) + ", expected " + std::to_string(x.off) + "+" + std::to_string(x.len));
      std::string g = bare(n.get(), len), want = x.r;
      if (!len) { size_t i = want.find(" parsed_length="), j = want.find(' ', i + 1); if (i != std::string::npos) want.erase(i, j - i); }
      same(how, want, g);
    }
    if (k != bs->nal_units.size()) fail(std::string(how) + ": " + std::to_string(bs->nal_units.size() - k) + " extra NAL units");
  };
  {  // Annex B
    Bytes f; std::vector<Want> w; bool pad = so.broken == 0 && t.coin(1, 4);
    int g = t.coin(1, 4) ? 1 + t.below(5) : 0; while (g--) f.push_back((uint8_t)(2 + t.below(254)));
    for (size_t i = 0; i < E.size(); i++) {
      // trailing_zero_8bits after a NAL unit that was decoded (one cut short might be completed by them)
      if (pad && t.coin(1, 3) && (i == 0 || R[i - 1].find(" parsed ") != std::string::npos)) { int z = 1 + t.below(3); while (z--) { f.push_back(0); if (i) w.back().len++; } f.push_back(0); }
      else if (t.below(2)) f.push_back(0);
      f.push_back(0); f.push_back(0); f.push_back(1); w.push_back({f.size(), E[i].size(), R[i]}); put(f, E[i]);
    }
    note("Annex B " + hex(f, 1500) + " of " + in);
    Buf b(f); H264BitstreamParserState s;
    std::unique_ptr<H264BitstreamParser::BitstreamState> bs;
    if (t.below(3)) { bs = H264BitstreamParser::ParseBitstream(b.p.get(), b.n, &s, ParsingOptions()); same("state after single NAL units and after Annex B", states.back(), repr_state(s)); }
    else bs = H264BitstreamParser::ParseBitstream(b.p.get(), b.n, ParsingOptions());
    verify("Annex B", bs.get(), w, !pad);
  }
  {  // length-framed
    size_t mx = 0; for (auto& e : E) mx = std::max(mx, e.size());
    int lo = mx < 256 ? 1 : mx < 65536 ? 2 : 3, nb = t.coin(1, 3) ? lo : lo + (int)t.below((uint32_t)(9 - lo));
    Bytes f; std::vector<Want> w;
    for (size_t i = 0; i < E.size(); i++) { for (int k = nb - 1; k >= 0; k--) f.push_back(k > 7 ? 0 : (uint8_t)((uint64_t)E[i].size() >> (8 * k))); w.push_back({f.size(), E[i].size(), R[i]}); put(f, E[i]); }
    uint32_t tail = t.below(5); size_t keep = E.size();
    if (tail == 1) {  // cut anywhere
      size_t cut = t.below((uint32_t)f.size() + 1); f.resize(cut); keep = 0; while (keep < w.size() && w[keep].off + w[keep].len <= cut) keep++; 
    } else if (tail == 2) { for (int k = 0; k < nb; k++) f.push_back(0); put(f, Bytes(3 + t.below(6), 0x67)); }       // a zero length ends the stream
    else if (tail == 3) { for (int k = 0; k < nb; k++) f.push_back(0xff); put(f, Bytes(t.below(8), 0x09)); }  // a length past the end
    else if (tail == 4) {  // a length past the end in its high bytes only; what it says in its low bytes is there
      Bytes x = E[t.below((uint32_t)E.size())]; int hi = (int)t.below((uint32_t)nb), lb = x.size() < 256 ? 1 : x.size() < 65536 ? 2 : 3;
      if (hi < nb - lb && (nb - 1 - hi > 2 || ((size_t)1 << (8 * (nb - 1 - hi))) > x.size())) {
        for (int k = nb - 1; k >= 0; k--) f.push_back((uint8_t)((k > 7 ? 0 : (uint64_t)x.size() >> (8 * k)) | (k == nb - 1 - hi ? 1 + t.below(255) : 0)));
        put(f, x);
      }
    }
    w.resize(keep);
    note("length-framed(" + std::to_string(nb) + ") " + hex(f, 1500) + " of " + in);
    Buf b(f); H264BitstreamParserState s;
    std::unique_ptr<H264BitstreamParser::BitstreamState> bs;
    if (t.below(3)) { bs = H264BitstreamParser::ParseBitstreamNALULength(b.p.get(), b.n, nb, &s, ParsingOptions()); same("state after single NAL units and after length-framed", keep ? states[keep - 1] : "", repr_state(s)); }
    else bs = H264BitstreamParser::ParseBitstreamNALULength(b.p.get(), b.n, nb, ParsingOptions());
    verify("length-framed", bs.get(), w, true);
    info.label("width " + std::to_string(nb));
  }
  {  // no length field: the buffer is one NAL unit
    Buf b(E[0]); auto bs = H264BitstreamParser::ParseBitstreamNALULength(b.p.get(), b.n, 0, ParsingOptions());
    verify("single NAL unit", bs.get(), {{0, E[0].size(), R[0]}}, true);
  }
  uint64_t h = 0; for (auto& e : E) h = fnv(e, h + 1);
  if (decoded >= 2) info.nt(h);
  if (nulls) info.label("with undecodable header");
  info.sample = std::to_string(E.size()) + " NAL units: " + in.substr(0, 500);
}
// ---------------------------------------------------------------- C13
#ifndef SMALL_FOOTPRINT
using Rtp = H264RtpParser::RtpState;
std::unique_ptr<Rtp> rtp_data(const Bytes& e, H264BitstreamParserState* s) { Buf b(e); return H264RtpParser::ParseRtp(b.p.get(), b.n, s); }
std::string single_repr(const NalState* n) { return n ? repr_hdr(n->nal_unit_header.get()) + repr_payload(n->nal_unit_payload.get(), n->nal_unit_header->nal_unit_type) : "null"; }
void c13_rtp(Tape& t, Info& info) {
  H264BitstreamParserState direct, viaA, viaB; std::vector<Bytes> prior; RefState rs; std::string log; uint64_t h = 0; bool rich = false;
  StepOpt so; so.svc = t.coin(1, 2); so.broken = 15; so.unimpl = t.coin(1, 4);
  int n = 2 + t.below(8);
  auto make = [&]() {
    Step s = gen_step(t, rs, prior, so); if (s.nal.empty()) s.nal.push_back(9);
    RefNal r = ref_decode(s.nal, rs); if (r.hdr_ok && r.pay && r.v != RefNal::REJECT) ref_commit(r, rs);
    prior.push_back(s.nal); return ref_escape(s.nal);
  };
  auto sync = [&](const char* what) { same(what, repr_state(direct), repr_state(viaA)); same(what, repr_state(direct), repr_state(viaB)); };
  for (int i = 0; i < n; i++) {
    uint32_t k = t.below(10);
    if (k < 3) {  // single NAL unit packet
      Bytes e = make(); uint32_t nut = e[0] & 31; if (nut > 23) { e[0] = (uint8_t)((e[0] & 0xe0) | 12); prior.back()[0] = e[0]; }
      log += " single " + hex(e, 100); note(log); h = fnv(e, h + 1);
      Buf b(e); auto want = H264NalUnitParser::ParseNalUnit(b.p.get(), b.n, &direct, ParsingOptions());
      auto r = rtp_data(e, &viaA);
      CHECK(!!r == !!want, "single NAL unit packet accepted by one of ParseRtp / ParseNalUnit only");
      std::unique_ptr<H264RtpSingleParser::RtpSingleState> q;
      if (t.below(2)) q = H264RtpSingleParser::ParseRtpSingle(b.p.get(), b.n, &viaB);
      else { Buf u(ref_unescape(e)); BitBuffer bb(u.p.get(), u.n); q = H264RtpSingleParser::ParseRtpSingle(&bb, &viaB); }
      CHECK(!!q == !!want, "single NAL unit packet accepted by one of ParseRtpSingle / ParseNalUnit only");
      if (r) {
        CHECK(r->rtp_single && !r->rtp_stapa && !r->rtp_fua, "wrong packet kind");
        same("packet header", repr_hdr(want->nal_unit_header.get()), repr_hdr(r->nal_unit_header.get()));
        same("single NAL unit packet", single_repr(want.get()), repr_hdr(r->rtp_single->nal_unit_header.get()) + repr_payload(r->rtp_single->nal_unit_payload.get(), want->nal_unit_header->nal_unit_type));
        same("rtp_single", single_repr(want.get()), repr_hdr(q->nal_unit_header.get()) + repr_payload(q->nal_unit_payload.get(), want->nal_unit_header->nal_unit_type));
      }
      sync("state after a single NAL unit packet"); info.label("single");
    } else if (k < 6) {  // STAP-A
      int m = t.coin(1, 12) ? 0 : 1 + t.below(4); Bytes p; p.push_back((uint8_t)(t.below(4) << 5 | 24)); std::vector<Bytes> in; 
      // now and then a packet of very many units (the made ones and delimiters), or with a very large unit
      int extra = t.coin(1, 25) ? (t.below(2) ? 28 + (int)t.below(10) : (int)t.below(300)) : 0, large = t.coin(1, 25) && m ? (int)t.below((uint32_t)m) : -1; size_t room = 65535;
      if (large >= 0) { static const uint32_t z[6] = {32767, 32768, 32769, 65534, 65535, 40000}; uint32_t q = t.below(8); room = q < 6 ? z[q] : 1000 + t.below(64536); }
      for (int j = 0; j < m + extra; j++) { Bytes e = j < m ? make() : Bytes{9, (uint8_t)(j << 5 | 16)}; if (j == large && e.size() < room) e.resize(room, (uint8_t)(0x80 + t.below(128))); if (e.size() > 65535) e.resize(65535); p.push_back(e.size() >> 8); p.push_back(e.size() & 255); put(p, e); in.push_back(e); h = fnv(e, h + 1); }
      log += " STAP-A " + hex(p, 200); note(log);
      if (m && t.coin(1, 6)) {  // last unit's size does not fit
        Bytes bad = p; size_t at = p.size() - in.back().size() - 2; uint32_t z = (uint32_t)in.back().size();
        if ((t.below(2) || z > 65000) && z) bad.resize(p.size() - 1 - t.below(z)); else { z += 1 + t.below(3) * 100; bad[at] = z >> 8; bad[at + 1] = z & 255; }
        note(log + " STAP-A with a size past the end " + hex(bad, 200));
        H264BitstreamParserState scratch; auto r = rtp_data(bad, &scratch);
        CHECK(!r, "STAP-A packet with a NALU size past its end accepted"); info.label("stap-a oversize");
      }
      bool ok = true; std::vector<std::unique_ptr<NalState>> want;
      for (auto& e : in) { Buf b(e); auto w = H264NalUnitParser::ParseNalUnit(b.p.get(), b.n, &direct, ParsingOptions()); if (!w) ok = false; want.push_back(std::move(w)); if (!ok) break; }
      auto r = rtp_data(p, &viaA);
      std::unique_ptr<H264RtpStapAParser::RtpStapAState> q; { Buf b(p); if (t.below(2)) q = H264RtpStapAParser::ParseRtpStapA(b.p.get(), b.n, &viaB); else { BitBuffer bb(b.p.get(), b.n); q = H264RtpStapAParser::ParseRtpStapA(&bb, &viaB); } }
      if (!ok) { CHECK(!r && !q, "STAP-A packet with an undecodable NAL unit header accepted"); info.label("stap-a bad header"); break; }
      CHECK(r && q, "valid STAP-A packet rejected");
      CHECK(r->rtp_stapa && !r->rtp_single && !r->rtp_fua, "wrong packet kind");
      eq("packet header type", r->nal_unit_header->nal_unit_type, 24);
      for (const auto* a : {r->rtp_stapa.get(), q.get()}) {
        eq("NAL units in the STAP-A packet", a->nal_unit_sizes.size(), in.size()); eq("headers", a->nal_unit_headers.size(), in.size()); eq("payloads", a->nal_unit_payloads.size(), in.size());
        eq("STAP-A header type", a->header->nal_unit_type, 24); eq("STAP-A header ref_idc", a->header->nal_ref_idc, p[0] >> 5 & 3);
        for (size_t j = 0; j < in.size(); j++) {
          eq("nal_unit_size", a->nal_unit_sizes[j], in[j].size());
          same("NAL unit in a STAP-A packet and alone", single_repr(want[j].get()), repr_hdr(a->nal_unit_headers[j].get()) + repr_payload(a->nal_unit_payloads[j].get(), want[j]->nal_unit_header->nal_unit_type));
        }
      }
      sync("state after a STAP-A packet"); info.label("stap-a of " + std::to_string(m)); if (extra) info.label("stap-a with more than four units"); if (large >= 0) info.label("stap-a with a large unit"); if (m >= 2) rich = true;
    } else if (k < 9) {  // FU-A
      Bytes e = make(); if (t.coin(1, 60)) e.resize(e.size() + 66000, 0x55); uint32_t nut = e[0] & 31, nri = e[0] >> 5 & 3; bool s_bit = t.coin(2, 3), e_bit = t.below(2), r_bit = t.coin(1, 8);
      size_t frag = e.size() - 1; if (t.below(2) && frag) frag = t.below((uint32_t)frag + 1);
      Bytes p = {(uint8_t)(nri << 5 | 28), (uint8_t)(s_bit << 7 | e_bit << 6 | r_bit << 5 | nut)}; p.insert(p.end(), e.begin() + 1, e.begin() + 1 + frag);
      log += " FU-A " + hex(p, 100); note(log); h = fnv(p, h + 1);
      std::string before = repr_state(viaA);
      auto r = rtp_data(p, &viaA);
      std::unique_ptr<H264RtpFuAParser::RtpFuAState> q; { Buf b(p); if (t.below(2)) q = H264RtpFuAParser::ParseRtpFuA(b.p.get(), b.n, nri, &viaB); else { Buf u(ref_unescape(p)); BitBuffer bb(u.p.get(), u.n); q = H264RtpFuAParser::ParseRtpFuA(&bb, nri, &viaB); } }
      CHECK(r && q, "FU-A packet rejected"); CHECK(r->rtp_fua && !r->rtp_single && !r->rtp_stapa, "wrong packet kind");
      for (const auto* a : {r->rtp_fua.get(), q.get()}) {
        eq("s_bit", a->s_bit, s_bit); eq("e_bit", a->e_bit, e_bit); eq("r_bit", a->r_bit, r_bit); eq("fu_type", a->fu_type, nut); eq("FU-A header type", a->header->nal_unit_type, 28); eq("FU-A nal_ref_idc", a->nal_ref_idc, nri); eq("FU indicator nal_ref_idc", a->header->nal_ref_idc, nri);
        if (!s_bit) CHECK(!a->nal_unit_payload, "payload decoded from a fragment that is not the first"); else CHECK(a->nal_unit_payload, "no payload in the first fragment");
      }
      if (s_bit && nut != 14 && nut != 20 && nut != 21) {
        Bytes part(e.begin(), e.begin() + 1 + frag); Buf b(part); auto want = H264NalUnitParser::ParseNalUnit(b.p.get(), b.n, &direct, ParsingOptions());
        if (!want) throw HarnessError("one-byte header rejected");
        for (const auto* a : {r->rtp_fua.get(), q.get()}) same("start of a NAL unit in an FU-A packet and alone", repr_payload(want->nal_unit_payload.get(), nut), repr_payload(a->nal_unit_payload.get(), nut));
        if (has_decoder(nut)) rich = true;
      } else same("state before and after a fragment that decodes nothing", before, repr_state(viaA));
      sync("state after an FU-A packet"); info.label(s_bit ? "fu-a start" : "fu-a other");
    } else {  // packet types without a decoder
      static const uint8_t ty[6] = {25, 26, 27, 29, 30, 31}; uint32_t ref = t.below(4); uint8_t ty0 = ty[t.below(6)]; Bytes p = {(uint8_t)(ref << 5 | ty0)}; int m = t.below(20); while (m--) p.push_back((uint8_t)t.next());
      log += " other " + hex(p, 40); note(log);
      std::string before = repr_state(viaA); auto r = rtp_data(p, &viaA);
      CHECK(r && r->nal_unit_header, "packet of an undecoded type rejected"); CHECK(!r->rtp_single && !r->rtp_stapa && !r->rtp_fua, "packet of an undecoded type decoded");
      eq("packet type", r->nal_unit_header->nal_unit_type, ty0); eq("nal_ref_idc", r->nal_unit_header->nal_ref_idc, ref);
      same("state around an undecoded packet", before, repr_state(viaA)); info.label("other type");
    }
  }
  { H264BitstreamParserState s; CHECK(!rtp_data({}, &s), "empty packet accepted"); CHECK(!rtp_data({28}, &s), "FU-A packet without FU header accepted"); }
  if (rich) info.nt(h);
  info.sample = log.substr(0, 700);
}
#endif
// ---------------------------------------------------------------- C17
std::string ref_checksum(const Bytes& u) {
  uint64_t s = 0;
  for (size_t i = 0; i < u.size(); i += 4) { uint32_t w = 0; for (size_t j = 0; j < 4; j++) w = w << 8 | (i + j < u.size() ? u[i + j] : 0); s += w; while (s >> 32) s = (s & 0xffffffffu) + (s >> 32); }
  char b[16]; snprintf(b, sizeof b, "%08x", (uint32_t)~(uint32_t)s); return b;
}
void c17_checksum(Tape& t, Info& info) {
  Bytes u; uint32_t kind = t.below(6);
  u.push_back((uint8_t)(t.below(4) << 5 | (kind == 0 ? 7 : (uint32_t)6 + 3 * t.below(3))));
  if (kind < 4) { size_t n = kind == 3 ? t.below(70000) : t.below(80); uint32_t mode = t.below(4); uint8_t v = (uint8_t)t.next(); uint64_t x = t.next() * 2654435761ull + 88172645463325252ull; for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; u.push_back(mode == 0 ? 0xff : mode == 1 ? v : mode == 2 ? ((x >> 8) & 7 ? 0xff : (uint8_t)x) : (uint8_t)(x >> 24)); } }
  else { RefState rs; StepOpt so; auto v = gen_seq(t, 1 + t.below(5), so, rs); u = v.back(); }
  if (kind >= 4 && u.empty()) return;
  if (u.size() >= 8 && t.coin(1, 3)) {   // one word chosen so that the sum's low half lies next to a carry
    size_t at = 4 * (1 + t.below((uint32_t)(u.size() / 4 - 1))); for (size_t j = 0; j < 4; j++) u[at + j] = 0;
    uint64_t sum = 0; for (size_t i = 0; i < u.size(); i += 4) { uint32_t w = 0; for (size_t j = 0; j < 4; j++) w = w << 8 | (i + j < u.size() ? u[i + j] : 0); sum += w; }
    uint32_t target = (uint32_t)(t.below(2) ? 0u - t.below(2 + (uint32_t)(u.size() / 3)) : t.below(2) ? 0x10000u * t.below(3) - t.below(4) : t.below(3)), w = target - (uint32_t)sum;
    for (size_t j = 0; j < 4; j++) u[at + j] = (uint8_t)(w >> (24 - 8 * j));
    info.label("sum steered next to a carry");
  }
  note("unescaped NAL unit " + hex(u, 1500));
  std::string want = ref_checksum(u);
  // directly
  { Buf b(u); BitBuffer bb(b.p.get(), b.n); auto c = NaluChecksum::GetNaluChecksum(&bb); CHECK(c, "no checksum"); same("checksum", want, c->GetPrintableChecksum());
    size_t by, bi; bb.GetCurrentOffset(&by, &bi); CHECK(by == 0 && bi == 0, "computing the checksum moved the reader");
    eq("checksum length", c->GetLength(), 4); std::string raw; for (int i = 0; i < 4; i++) { char x[4]; snprintf(x, sizeof x, "%02x", (unsigned char)c->GetChecksum()[i]); raw += x; } same("raw checksum", want, raw); }
  // through every framing, with and without the option
  Bytes e = ref_escape(u);
  for (int k = 0; k < 2; k++) {
    ParsingOptions po; po.add_checksum = k == 0; po.add_parsed_length = t.below(2); po.add_offset = t.below(2); po.add_length = t.below(2); po.add_resolution = t.below(2);
    auto chk = [&](const char* how, const NalState* n) { if (!n) return; CHECK(!!n->checksum == po.add_checksum, std::string(how) + ": checksum present"); if (n->checksum) same(how, want, n->checksum->GetPrintableChecksum()); };
    H264BitstreamParserState s;
    { Buf b(e); chk("ParseNalUnit", H264NalUnitParser::ParseNalUnit(b.p.get(), b.n, &s, po).get()); }
    { Buf b(u); chk("ParseNalUnitUnescaped", H264NalUnitParser::ParseNalUnitUnescaped(b.p.get(), b.n, &s, po).get()); }
    { Bytes f = {0, 0, 1}; put(f, e); Buf b(f); auto bs = H264BitstreamParser::ParseBitstream(b.p.get(), b.n, &s, po); if (bs && bs->nal_units.size()) chk("Annex B", bs->nal_units[0].get()); }
    { Bytes f = {0, (uint8_t)(e.size() >> 16), (uint8_t)(e.size() >> 8), (uint8_t)e.size()}; put(f, e); Buf b(f); auto bs = H264BitstreamParser::ParseBitstreamNALULength(b.p.get(), b.n, 4, &s, po); if (bs && bs->nal_units.size()) chk("length-framed", bs->nal_units[0].get()); }
  }
  if (u.size() > 1) info.nt(u);
  info.label("length mod 4 = " + std::to_string(u.size() % 4)); info.sample = std::to_string(u.size()) + " bytes " + hex(u, 40) + " checksum " + want;
}
void c17_parsed(Tape& t, Info& info) {
  Pair pr; StepOpt so; so.svc = t.coin(1, 2); so.broken = 0; std::vector<Bytes> prior; std::string log; uint64_t h = 0; int hits = 0;
  int n = 2 + t.below(10);
  for (int i = 0; i < n; i++) {
    Step s = gen_step(t, pr.ref, prior, so);
    log += "[" + hex(s.nal, 120) + "] "; note(log);
    RefNal r = ref_decode(s.nal, pr.ref);
    ParsingOptions po; po.add_checksum = t.below(2); po.add_parsed_length = t.below(2);
    auto nal = lib_parse(s.nal, &pr.lib, po);
    if (!nal) { prior.push_back(s.nal); continue; }
    uint32_t nut = r.h.nut; bool ok = nal->nal_unit_payload && nal->nal_unit_payload->IsPayloadParsed(nut);
    CHECK(nal->parsed_length <= s.nal.size(), "parsed_length beyond the NAL unit");
    if (ok && (r.v == RefNal::ACCEPT || r.v == RefNal::NONE || (r.v == RefNal::EITHER && !r.opaque && !r.skipped))) {
      size_t want = (r.bits + 7) / 8;
      if (nut == 7 || nut == 8 || nut == 15 || (nut == 14 && r.h.ref_idc)) {
        // the whole NAL unit, provided nothing but rbsp_trailing_bits follows the last element
        size_t b = r.bits; auto bit = [&](size_t i) { return s.nal[i / 8] >> (7 - i % 8) & 1; };
        bool tr = b < s.nal.size() * 8 ? bit(b) == 1 && (b / 8 + 1) == s.nal.size() : false;
        for (size_t i = b + 1; tr && i < s.nal.size() * 8; i++) if (bit(i)) tr = false;
        if (b == s.nal.size() * 8) tr = true;
        if (!tr) { info.label("odd trailing bits"); if (r.pay && !r.opaque) ref_commit(r, pr.ref); prior.push_back(s.nal); if (r.opaque) break; continue; }
        want = s.nal.size();
      }
      eq("parsed_length", nal->parsed_length, want, "nal_unit_type " + std::to_string(nut));
      hits++; info.label("nut " + std::to_string(nut));
    }
    if (ok && r.pay) { if (r.opaque) break; ref_commit(r, pr.ref); }
    prior.push_back(s.nal); h = fnv(s.nal, h + 1);
  }
  if (hits) info.nt(h);
  info.sample = log.substr(0, 500);
}
}  // namespace
PROP("C12", "framing", c12_framing, 40000, 2000000, "1-9 NAL units (mixed kinds, some broken, up to 64 KiB) parsed one by one, as Annex B with random start codes, leading garbage and zero padding, and with 1-8 byte lengths, cut or followed by bad lengths; non-trivial: at least two payloads decoded; distinct by the NAL unit bytes");
#ifndef SMALL_FOOTPRINT
PROP("C12", "many", c12_many, 400, 20000, "200-9200, 60000-72000 or a few very long (up to 2 MB) NAL units, as Annex B and with length fields; every case is non-trivial; distinct by stream");
PROP("C02", "many", c12_many, 300, 15000, "200-9200, 60000-72000 or a few very long (up to 2 MB) NAL units, as Annex B and with length fields; every case is non-trivial; distinct by stream");
PROP("C13", "rtp", c13_rtp, 50000, 2500000, "2-9 packets over one session: single, STAP-A of 0-4 units (1 in 25 with up to 300, 1 in 25 with a unit of up to 65535 bytes; also with bad sizes), FU-A fragments, other types; non-trivial: a STAP-A of two or more, or an FU-A start of a decodable type; distinct by packet bytes");
#endif
PROP("C17", "checksum", c17_checksum, 120000, 5000000, "random, constant and carry-heavy NAL units (and ones steered so that folding the carries carries again) of 1 to 70000 bytes and generated ones, through every framing; non-trivial: more than the header byte; distinct by bytes");
PROP("C17", "parsed", c17_parsed, 40000, 2000000, "2-11 valid NAL units; parsed length compared with the reference bit position; non-trivial: at least one compared; distinct by the NAL unit bytes");
#ifdef SMALL_FOOTPRINT
PROP("C24", "framing", c12_framing, 8000, 400000, "small footprint build: NAL units and framings as for C12");
PROP("C24", "units", c12_many, 60, 3000, "small footprint build: very many or very long NAL units as for C12");
PROP("C24", "checksum", c17_checksum, 20000, 1000000, "small footprint build: NAL units as for C17");
PROP("C24", "parsed", c17_parsed, 8000, 400000, "small footprint build: NAL units as for C17, parsed length");
#endif
