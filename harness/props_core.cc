// Stream splitting, emulation prevention, bit reader/writer, derived SPS
// values and classification tables.
#include "tables.h"
#include <cmath>
#include "gen.h"
#include "runner.h"

namespace {
std::unique_ptr<uint8_t[]> exact(const Bytes& b) { std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() ? b.size() : 1]); std::copy(b.begin(), b.end(), p.get()); return p; }

// ------------------------------------------------------------ byte strings
Bytes gen_bytes(Tape& t, size_t max) {
  Bytes b; size_t n = t.below((uint32_t)max + 1); uint32_t mode = t.below(4);
  for (size_t i = 0; i < n; i++) {
    uint32_t k = t.next();
    switch (mode) {
      case 0: b.push_back((uint8_t)(k % 4)); break;                       // 0..3 only
      case 1: b.push_back(k % 3 ? 0 : (uint8_t)((k >> 8) % 5)); break;    // mostly zero
      case 2: { static const uint8_t a[8] = {0, 0, 0, 1, 3, 2, 0x67, 0xff}; b.push_back(a[k % 8]); break; }
      default: b.push_back(k % 4 ? (uint8_t)(k >> 8) : 0);
    }
  }
  return b;
}
// ------------------------------------------------------------ C02
// Naive model: a start code prefix is 00 00 01 with at least one byte after
// it; the zero byte in front of it, if any, belongs to the start code; a NAL
// unit runs to the next start code, or to the end of the buffer.
struct Ix { size_t s, p, n; };
std::vector<Ix> ref_annexb(const Bytes& b) {
  std::vector<Ix> v;
  for (size_t i = 0; i + 3 < b.size();) {
    if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) {
      size_t s = i > 0 && b[i - 1] == 0 ? i - 1 : i;
      if (!v.empty()) v.back().n = s - v.back().p;
      v.push_back({s, i + 3, 0});
      i += 3;
    } else i++;
  }
  if (!v.empty()) v.back().n = b.size() - v.back().p;
  return v;
}
void check_indices(const Bytes& b, const std::vector<Ix>& ref, const std::vector<H264BitstreamParser::NaluIndex>& got) {
  std::string ctx = "buffer " + hex(b, 200);
  eq("number of NAL units found", got.size(), ref.size(), ctx);
  for (size_t i = 0; i < ref.size(); i++) {
    eq(("start_offset of NAL unit " + std::to_string(i)).c_str(), got[i].start_offset, ref[i].s, ctx);
    eq(("payload_start_offset of NAL unit " + std::to_string(i)).c_str(), got[i].payload_start_offset, ref[i].p, ctx);
    eq(("payload_size of NAL unit " + std::to_string(i)).c_str(), got[i].payload_size, ref[i].n, ctx);
  }
}
void c02_find(Tape& t, Info& info) {
  Bytes b;
  if (t.coin(1, 3)) b = gen_bytes(t, 60);
  else {  // NAL-like payloads glued with start codes of all sorts
    int n = t.below(7);
    if (t.coin(1, 3)) { Bytes x = gen_bytes(t, 6); b.insert(b.end(), x.begin(), x.end()); }
    for (int i = 0; i < n; i++) {
      int z = t.coin(1, 4) ? (int)t.below(9) : 2 + (int)t.below(2);
      for (int k = 0; k < z; k++) b.push_back(0);
      b.push_back(1);
      size_t len = t.coin(1, 60) ? t.range(0, 70000) : t.below(14);
      if (len > 64) { uint8_t f = (uint8_t)t.next(); for (size_t k = 0; k < len; k++) b.push_back((uint8_t)(f + k * 7)); }
      else { Bytes x = gen_bytes(t, 14); if (t.coin(1, 2)) x = ref_escape(x); b.insert(b.end(), x.begin(), x.end()); }
    }
    if (t.coin(1, 4)) { int z = t.below(6); while (z--) b.push_back(0); if (t.coin(1, 2)) b.push_back(1); }
  }
  note("buffer=" + hex(b, 500));
  auto p = exact(b);
  auto ref = ref_annexb(b);
  check_indices(b, ref, H264BitstreamParser::FindNaluIndices(p.get(), b.size()));
  // ParseBitstream() visits exactly these, in order
  H264BitstreamParserState st; ParsingOptions po;
  auto bs = H264BitstreamParser::ParseBitstream(p.get(), b.size(), &st, po);
  CHECK(bs != nullptr, "ParseBitstream returned null");
  size_t k = 0;
  for (auto& x : ref) {
    Bytes raw(b.begin() + x.p, b.begin() + x.p + x.n);
    RefState rs; RefNal rn = ref_decode(ref_unescape(raw), rs);
    if (!rn.hdr_ok) continue;
    CHECK(k < bs->nal_units.size(), "a NAL unit with a decodable header is missing from ParseBitstream");
    eq("offset", bs->nal_units[k]->offset, x.p); eq("length", bs->nal_units[k]->length, x.n);
    eq("nal_unit_type", bs->nal_units[k]->nal_unit_header->nal_unit_type, raw[0] & 31);
    k++;
  }
  eq("NAL units in ParseBitstream", bs->nal_units.size(), k);
  // metamorphic: the pieces tile the buffer from the first start code to the end
  if (ref.size() > 0) info.nt(b);
  info.label(ref.empty() ? "none" : ref.size() == 1 ? "one" : "many");
  if (b.size() > 65536) info.label("over-64KiB");
  info.sample = std::to_string(ref.size()) + " NAL units in " + hex(b, 60);
}
void c02_explicit(Tape& t, Info& info) {
  Bytes b; int n = t.below(6);
  for (int i = 0; i < n; i++) {
    size_t len = t.coin(1, 60) ? t.range(0, 70000) : t.below(12);
    uint32_t dec = (uint32_t)len;
    if (t.coin(1, 10)) dec = t.coin(1, 2) ? (uint32_t)t.pick(0, 0xffffffffll) : (uint32_t)len + t.below(4);
    for (int k = 3; k >= 0; k--) b.push_back((uint8_t)(dec >> (8 * k)));
    for (size_t k = 0; k < len; k++) b.push_back((uint8_t)(len > 64 ? k * 13 : t.next()));
  }
  if (t.coin(1, 3)) { Bytes x = gen_bytes(t, 5); b.insert(b.end(), x.begin(), x.end()); }
  note("buffer=" + hex(b, 500));
  std::vector<Ix> ref; size_t o = 0;
  while (b.size() - o >= 4) {
    uint64_t z = (uint64_t)b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3];
    if (z > b.size() - o - 4) break;
    ref.push_back({o, o + 4, (size_t)z}); o += 4 + z;
  }
  auto p = exact(b);
  check_indices(b, ref, H264BitstreamParser::FindNaluIndicesExplicitFraming(p.get(), b.size()));
  if (!ref.empty()) info.nt(b);
  info.sample = std::to_string(ref.size()) + " units in " + hex(b, 60);
}
// ------------------------------------------------------------ C03
void c03_unescape(Tape& t, Info& info) {
  Bytes b = gen_bytes(t, t.coin(1, 200) ? 3000 : 40);
  note("bytes=" + hex(b, 500));
  auto p = exact(b);
  Bytes got = UnescapeRbsp(p.get(), b.size()), want = ref_unescape(b);
  if (got != want) fail("UnescapeRbsp(" + hex(b) + ") = " + hex(got) + ", expected " + hex(want));
  Bytes e = ref_escape(b); auto pe = exact(e);
  Bytes back = UnescapeRbsp(pe.get(), e.size());
  if (back != b) fail("UnescapeRbsp does not undo escaping of " + hex(b) + ": got " + hex(back));
  if (e.size() != b.size() || want.size() != b.size()) info.nt(b);
  info.label(e.size() - b.size() == 0 ? "no-escapes" : e.size() - b.size() == 1 ? "1-escape" : "2+-escapes");
  info.sample = hex(b, 60) + " escapes to " + hex(e, 60);
}
// the data/length entry points decode an escaped NAL unit to what the
// unescaped bit buffer gives
void c03_entry(Tape& t, Info& info) {
  RefState rs; GenOpt o; o.sg.id_hi = 3;
  static const uint32_t nuts[4] = {7, 7, 8, 15};
  GenNal g = gen_nal(t, nuts[t.below(4)], rs, o);
  Bytes e = ref_escape(g.nal);
  bool esc = e != g.nal;
  note("nal=" + hex(g.nal, 500));
  Bytes rb(g.nal.begin() + 1, g.nal.end()), re = ref_escape(rb);
  auto p = exact(e), pr = exact(re), pu = exact(g.nal), pru = exact(rb);
  ParsingOptions po; H264BitstreamParserState s1, s2;
  BitBuffer bu(pu.get(), g.nal.size());
  auto a = H264NalUnitParser::ParseNalUnit(p.get(), e.size(), &s1, po);
  auto u = H264NalUnitParser::ParseNalUnit(&bu, &s2, po);
  CHECK(a && u, "NAL unit dropped");
  RefNal r = ref_decode(g.nal, rs);
  check_nal(r, a.get()); check_nal(r, u.get());
  BitBuffer br(pru.get(), rb.size());
  auto cmp = [&](const char* w, const Flat& x, const char* top) { Node* n = r.pay ? r.pay->find(top) : nullptr; if (n) compare(*n, x, std::string(w)); };
  if (r.v == RefNal::ACCEPT) {
    if (g.nut == 7) {
      auto x = H264SpsParser::ParseSps(pr.get(), re.size()); auto y = H264SpsParser::ParseSps(&br);
      CHECK(x && y, "ParseSps rejects a valid SPS"); cmp("ParseSps(data)", flat(*x->sps_data), "sps_data"); cmp("ParseSps(BitBuffer)", flat(*y->sps_data), "sps_data");
    } else if (g.nut == 8) {
      auto x = H264PpsParser::ParsePps(pr.get(), re.size(), 1); auto y = H264PpsParser::ParsePps(&br, 1);
      CHECK(x && y, "ParsePps rejects a valid PPS"); cmp("ParsePps(data)", flat(*x), "pps"); cmp("ParsePps(BitBuffer)", flat(*y), "pps");
    } else {
      auto x = H264SubsetSpsParser::ParseSubsetSps(pr.get(), re.size()); auto y = H264SubsetSpsParser::ParseSubsetSps(&br);
      CHECK(x && y, "ParseSubsetSps rejects a valid subset SPS"); cmp("ParseSubsetSps(data)", flat(*x), "subset_sps"); cmp("ParseSubsetSps(BitBuffer)", flat(*y), "subset_sps");
    }
  }
  if (esc) info.nt(g.nal);
  info.label(esc ? "escaped" : "no-escapes");
  info.sample = hex(e, 80);
}
// ------------------------------------------------------------ C04
struct BitModel {
  std::vector<uint8_t> bits; size_t p = 0;
  size_t left() const { return bits.size() - p; }
  uint64_t get(size_t at, size_t n) const { uint64_t v = 0; for (size_t i = 0; i < n; i++) v = v << 1 | bits[at + i]; return v; }
  // 0 ok, 1 fail
  bool ue(uint64_t& v) { size_t z = 0; while (p + z < bits.size() && !bits[p + z]) z++; if (z > 31 || left() < 2 * z + 1) return false; v = get(p + z, z + 1) - 1; p += 2 * z + 1; return true; }
};
BitModel model_of(const Bytes& b) { BitModel m; for (auto x : b) for (int i = 7; i >= 0; i--) m.bits.push_back((x >> i) & 1); return m; }
Bytes bytes_of(const BitModel& m) { Bytes b; for (size_t i = 0; i < m.bits.size(); i += 8) { uint8_t x = 0; for (int k = 0; k < 8; k++) x = x << 1 | m.bits[i + k]; b.push_back(x); } return b; }
void check_pos(BitBuffer& b, const BitModel& m, const std::string& log) {
  size_t by = 9999, bi = 9999; b.GetCurrentOffset(&by, &bi);
  eq("byte offset", by, m.p / 8, log); eq("bit offset", bi, m.p % 8, log);
  eq("RemainingBitCount", b.RemainingBitCount(), m.left(), log);
  eq("byte_aligned", byte_aligned(&b), m.p % 8 == 0, log);
  eq("get_current_offset", get_current_offset(&b), (m.p + 7) / 8, log);
}
// one read-side operation on both; appends to log
// a position in a large buffer: anywhere, or just before a power of two (in bits or bytes)
size_t deep(Tape& t, size_t bits) { size_t q = t.below((uint32_t)bits + 1); if (t.coin(2, 3)) { size_t e = (size_t)1 << (9 + t.below(12)); q = e - std::min<size_t>(e, t.below(80)); } return std::min(q, bits); }
void read_op(Tape& t, BitBuffer& b, BitModel& m, std::string& log) {
  uint32_t k = t.below(15);
  auto done = [&](const std::string& s) { log += s + ";"; note(log); };
  switch (k) {
    case 0: case 1: {  // ReadBits 32
      size_t n = t.coin(1, 10) ? (t.coin(1, 2) ? 0 : 33 + t.below(70)) : 1 + t.below(32); uint32_t v = 0xdeadbeef;
      done("ReadBits32(" + std::to_string(n) + ")");
      bool ok = b.ReadBits(n, v), want = n >= 1 && n <= 32 && n <= m.left();
      eq("ReadBits(uint32) result", ok, want, log);
      if (ok) { eq("ReadBits(uint32) value", v, m.get(m.p, n), log); m.p += n; } break;
    }
    case 2: {
      size_t n = t.coin(1, 10) ? (t.coin(1, 2) ? 0 : 65 + t.below(70)) : 1 + t.below(64); uint64_t v = 0;
      done("ReadBits64(" + std::to_string(n) + ")");
      bool ok = b.ReadBits(n, v), want = n >= 1 && n <= 64 && n <= m.left();
      eq("ReadBits(uint64) result", ok, want, log);
      if (ok) { if (v != m.get(m.p, n)) fail("ReadBits(uint64) value [" + log + "]"); m.p += n; } break;
    }
    case 3: {
      size_t n = t.coin(1, 10) ? (t.coin(1, 2) ? 0 : 33 + t.below(70)) : 1 + t.below(32); uint32_t v = 0;
      done("PeekBits32(" + std::to_string(n) + ")");
      bool ok = b.PeekBits(n, v), want = n >= 1 && n <= 32 && n <= m.left();
      eq("PeekBits(uint32) result", ok, want, log);
      if (ok) eq("PeekBits(uint32) value", v, m.get(m.p, n), log); break;
    }
    case 4: {
      size_t n = t.coin(1, 10) ? (t.coin(1, 2) ? 0 : 65 + t.below(70)) : 1 + t.below(64); uint64_t v = 0;
      done("PeekBits64(" + std::to_string(n) + ")");
      bool ok = b.PeekBits(n, v), want = n >= 1 && n <= 64 && n <= m.left();
      eq("PeekBits(uint64) result", ok, want, log);
      if (ok && v != m.get(m.p, n)) fail("PeekBits(uint64) value [" + log + "]"); break;
    }
    case 5: { uint8_t v; done("ReadUInt8"); bool ok = b.ReadUInt8(v); eq("ReadUInt8 result", ok, m.left() >= 8, log); if (ok) { eq("ReadUInt8", v, m.get(m.p, 8), log); m.p += 8; } break; }
    case 6: { uint16_t v; done("ReadUInt16"); bool ok = b.ReadUInt16(v); eq("ReadUInt16 result", ok, m.left() >= 16, log); if (ok) { eq("ReadUInt16", v, m.get(m.p, 16), log); m.p += 16; } break; }
    case 7: { uint32_t v; done("ReadUInt32"); bool ok = b.ReadUInt32(v); eq("ReadUInt32 result", ok, m.left() >= 32, log); if (ok) { eq("ReadUInt32", v, m.get(m.p, 32), log); m.p += 32; } break; }
    case 8: case 9: { uint32_t v; uint64_t w; done("ReadExponentialGolomb"); bool ok = b.ReadExponentialGolomb(v), want = m.ue(w); eq("ReadExponentialGolomb result", ok, want, log); if (ok) eq("ReadExponentialGolomb", v, w, log); break; }
    case 10: { int32_t v; uint64_t w; done("ReadSignedExponentialGolomb"); bool ok = b.ReadSignedExponentialGolomb(v), want = m.ue(w); eq("ReadSignedExponentialGolomb result", ok, want, log); if (ok) eq("ReadSignedExponentialGolomb", v, se_of(w), log); break; }
    case 11: {
      size_t n = t.coin(1, 12) ? (size_t)-1 - t.below(9) : m.bits.size() > 600 && t.coin(1, 3) ? t.below((uint32_t)m.bits.size() + 9) : t.below(70); bool by = t.below(2);
      if (by && n < ((size_t)1 << 32)) n /= 8;
      if (by && n >= 100 && t.below(2)) n = (size_t)1 << 61;
      done(std::string(by ? "ConsumeBytes(" : "ConsumeBits(") + std::to_string(n) + ")");
      bool ok = by ? b.ConsumeBytes(n) : b.ConsumeBits(n);
      bool want = by ? n <= m.left() / 8 : n <= m.left();
      eq("Consume result", ok, want, log); if (want) m.p += by ? n * 8 : n; break;
    }
    case 12: {
      size_t by = t.coin(1, 8) ? (size_t)t.pick(0, 1ll << 40) : m.bits.size() > 600 && t.below(2) ? deep(t, m.bits.size()) / 8 : t.below((uint32_t)(m.bits.size() / 8 + 2)), bi = t.coin(1, 8) ? t.below(12) : t.below(8);
      done("Seek(" + std::to_string(by) + "," + std::to_string(bi) + ")");
      bool want = bi <= 7 && by <= m.bits.size() / 8 && by * 8 + bi <= m.bits.size();
      eq("Seek result", b.Seek(by, bi), want, log); if (want) m.p = by * 8 + bi; break;
    }
    case 13: {
      uint32_t n = t.coin(1, 3) ? (uint32_t)t.pick(1, 1ll << 31) : 1 + t.below(70); uint32_t v = 0;
      done("ReadNonSymmetric(" + std::to_string(n) + ")");
      int cb = 0; for (uint32_t x = n; x; x >>= 1) cb++;
      uint64_t kk = (1ull << cb) - n; bool want; uint64_t w = 0; size_t len = cb - 1;
      if (m.left() < (size_t)cb - 1) want = false;
      else { w = m.get(m.p, cb - 1); want = true; if (w >= kk) { if (m.left() < (size_t)cb) want = false; else { w = m.get(m.p, cb) - kk; len = cb; } } }
      bool ok = b.ReadNonSymmetric(n, v);
      eq("ReadNonSymmetric result", ok, want, log);
      if (ok) { eq("ReadNonSymmetric", v, w, log); m.p += len; }
      break;
    }
    default: {
      done("rbsp");
      size_t last = m.bits.size(); while (last > m.p && !m.bits[last - 1]) last--;
      if (last > m.p) eq("more_rbsp_data", more_rbsp_data(&b), last - 1 > m.p, log);      // unspecified when no stop bit is left
      else if (m.left() == 0) eq("more_rbsp_data at the end", more_rbsp_data(&b), 0, log);
      check_pos(b, m, log + "after more_rbsp_data");
      if (t.coin(1, 2)) {
        bool want = m.left() > 0 && m.bits[m.p] == 1; size_t q = m.p + 1; while (want && q % 8) { if (m.bits[q]) want = false; q++; }
        done("rbsp_trailing_bits");
        eq("rbsp_trailing_bits", rbsp_trailing_bits(&b), want, log);
        if (want) m.p = q; else b.Seek(m.p / 8, m.p % 8);
      }
    }
  }
  check_pos(b, m, log);
}
void c04_read(Tape& t, Info& info) {
  Bytes by; size_t n = t.coin(1, 400) ? t.below(t.coin(1, 3) ? 70000 : 9000) : t.below(28); uint32_t mode = t.below(4);
  uint32_t lcg = n > 64 ? t.next() : 0;
  for (size_t i = 0; i < n; i++) { uint32_t k = n > 64 ? (lcg = lcg * 1664525u + 1013904223u) >> 8 : t.next(); by.push_back(mode == 0 ? (uint8_t)k : mode == 1 ? (k % 4 ? 0 : (uint8_t)(k >> 8)) : mode == 2 ? (uint8_t)(1u << (k % 8)) : (k % 3 ? 0xff : (uint8_t)(k >> 8))); }
  auto p = exact(by); BitBuffer b(p.get(), n); BitModel m = model_of(by);
  std::string log = "bytes " + hex(by, 200) + " (" + std::to_string(n) + "): "; note(log);
  check_pos(b, m, log); if (n > 64) info.label("large buffer");
  if (n > 64 && t.coin(3, 4)) { size_t q = deep(t, n * 8); b.Seek(q / 8, q % 8); m.p = q; check_pos(b, m, log); }
  int ops = 1 + t.below(24);
  for (int i = 0; i < ops; i++) read_op(t, b, m, log);
  if (n > 0) info.nt(fnv(log.data(), log.size()));
  info.sample = log.substr(0, 500);
}
void c04_write(Tape& t, Info& info) {
  size_t n = t.coin(1, 800) ? 41 + t.below(t.coin(1, 3) ? 70000 : 9000) : 1 + t.below(40); Bytes by; uint8_t fill = (uint8_t)t.next(); for (size_t i = 0; i < n; i++) by.push_back(fill);
  auto p = exact(by); BitBufferWriter b(p.get(), n); BitModel m = model_of(by);
  std::string log = "fill " + std::to_string(fill) + " size " + std::to_string(n) + ": ";
  if (n > 40) { size_t q = deep(t, n * 8); b.Seek(q / 8, q % 8); m.p = q; log += "Seek " + std::to_string(q) + ";"; info.label("large buffer"); }
  auto put = [&](uint64_t v, size_t k) { for (size_t i = 0; i < k; i++) m.bits[m.p + i] = (v >> (k - 1 - i)) & 1; m.p += k; };
  int ops = 1 + t.below(20); bool wrote = false;
  for (int i = 0; i < ops; i++) {
    uint32_t k = t.below(8);
    bool ok, want;
    switch (k) {
      case 0: case 1: {
        size_t c = 1 + t.below(64); uint64_t v = (uint64_t)t.next() << 32 | t.next(); if (t.below(2)) v &= (c == 64 ? ~0ull : (1ull << c) - 1);
        log += "WriteBits(" + std::to_string(v) + "," + std::to_string(c) + ");"; note(log);
        ok = b.WriteBits(v, c); want = c <= m.left(); if (want) put(c == 64 ? v : v & ((1ull << c) - 1), c); break;
      }
      case 2: { uint32_t v = t.next(); int c = 8 << t.below(3); log += "WriteUInt" + std::to_string(c) + "(" + std::to_string(v) + ");"; note(log); ok = c == 8 ? b.WriteUInt8((uint8_t)v) : c == 16 ? b.WriteUInt16((uint16_t)v) : b.WriteUInt32(v); want = (size_t)c <= m.left(); if (want) put(c == 32 ? v : v & ((1u << c) - 1), c); break; }
      case 3: case 4: { uint32_t v = (uint32_t)t.pick(0, 0xffffffffll); log += "WriteUE(" + std::to_string(v) + ");"; note(log); ok = b.WriteExponentialGolomb(v); int c = 0; for (uint64_t x = (uint64_t)v + 1; x; x >>= 1) c++; want = v != 0xffffffffu && (size_t)(2 * c - 1) <= m.left(); if (want) put((uint64_t)v + 1, 2 * c - 1); break; }
      case 5: { int32_t v = (int32_t)t.pick(-2147483648ll, 2147483647ll); log += "WriteSE(" + std::to_string(v) + ");"; note(log); ok = b.WriteSignedExponentialGolomb(v); uint64_t u = v > 0 ? 2ull * v - 1 : 2ull * (uint64_t)(-(int64_t)v); int c = 0; for (uint64_t x = u + 1; x; x >>= 1) c++; want = v != INT32_MIN && (size_t)(2 * c - 1) <= m.left(); if (want) put(u + 1, 2 * c - 1); break; }
      case 6: {
        uint32_t nv = t.coin(1, 3) ? (uint32_t)t.pick(1, 1ll << 31) : 1 + t.below(70), v = (uint32_t)t.pick(0, (int64_t)nv - 1);
        log += "WriteNonSymmetric(" + std::to_string(v) + "," + std::to_string(nv) + ");"; note(log);
        int cb = 0; for (uint32_t x = nv; x; x >>= 1) cb++; uint64_t kk = (1ull << cb) - nv; size_t len = v < kk ? cb - 1 : cb;
        eq("SizeNonSymmetricBits", BitBufferWriter::SizeNonSymmetricBits(v, nv), len, log);
        ok = b.WriteNonSymmetric(v, nv); want = len <= m.left(); if (want) put(v < kk ? v : v + kk, len); break;
      }
      default: { read_op(t, b, m, log); ok = want = true; }
    }
    eq("write result", ok, want, log);
    if (want && k != 7) wrote = true;
    check_pos(b, m, log);
    Bytes now(p.get(), p.get() + n), exp = bytes_of(m);
    if (now != exp) fail("buffer is " + hex(now, 200) + ", expected " + hex(exp, 200) + " after " + log);
  }
  if (wrote) info.nt(fnv(log.data(), log.size()));
  info.sample = log.substr(0, 500);
}
// ------------------------------------------------------------ C06
void check_derived(const H264SpsDataParser::SpsDataState& d, const SpsM& s, const std::string& ctx) {
  int cat = s.separate ? 0 : (int)s.chroma_format_idc;
  eq("ChromaArrayType", d.getChromaArrayType(), cat, ctx);
  int sw = cat == 1 || cat == 2 ? 2 : cat == 3 ? 1 : -1, sh = cat == 1 ? 2 : cat == 2 || cat == 3 ? 1 : -1;
  eq("SubWidthC", d.getSubWidthC(), sw, ctx); eq("SubHeightC", d.getSubHeightC(), sh, ctx);
  int64_t ux = cat == 0 ? 1 : sw, uy = (cat == 0 ? 1 : sh) * (2 - (int64_t)s.fmo);
  eq("CropUnitX", d.getCropUnitX(), ux, ctx); eq("CropUnitY", d.getCropUnitY(), uy, ctx);
  int64_t W = 16 * ((int64_t)s.w_mbs1 + 1) - ux * ((int64_t)s.cl + s.cr), H = 16 * (2 - (int64_t)s.fmo) * ((int64_t)s.h_mu1 + 1) - uy * ((int64_t)s.ct + s.cb);
  int w = 77, h = 78, rc = d.getResolution(&w, &h);
  if (W > 0 && H > 0) { eq("getResolution()", rc, 0, ctx); eq("width", w, W, ctx); eq("height", h, H, ctx); }
  else { eq("getResolution()", rc, -1, ctx); eq("width", w, -1, ctx); eq("height", h, -1, ctx); }
}
void c06_parsed(Tape& t, Info& info) {
  RefState rs; GenOpt o; uint32_t nut = t.coin(1, 5) ? 15 : 7;
  if (t.coin(1, 3)) o.sg.dim_hi = 20;
  GenNal g = gen_nal(t, nut, rs, o);
  note("nal=" + hex(g.nal, 500) + " " + g.what.substr(0, 1500));
  RefNal r = ref_decode(g.nal, rs); self_check(g, r);
  if (r.v != RefNal::ACCEPT) { info.label("skipped"); return; }
  H264BitstreamParserState st; auto n = lib_parse(g.nal, &st);
  if (!n || !n->nal_unit_payload) fail("valid parameter set dropped");
  const H264SpsDataParser::SpsDataState* d = nullptr;
  if (nut == 7) { if (!n->nal_unit_payload->sps) fail("valid SPS rejected"); d = n->nal_unit_payload->sps->sps_data.get(); eq("SpsState::getChromaArrayType", n->nal_unit_payload->sps->getChromaArrayType(), r.sps.chroma_array_type()); }
  else { if (!n->nal_unit_payload->subset_sps) fail("valid subset SPS rejected"); d = n->nal_unit_payload->subset_sps->seq_parameter_set_data.get(); }
  const SpsM& s = nut == 7 ? r.sps : r.sub.sps;
  check_derived(*d, s, g.what.substr(0, 400));
  if (s.vui) {
    CHECK(d->vui_parameters != nullptr, "vui missing");
    if (s.timing) {
      float f = d->vui_parameters->getFramerate(); double want = (double)s.ts / (2.0 * s.nuit);
      if (!(std::fabs((double)f - want) <= want * 1e-6)) fail("getFramerate() = " + std::to_string(f) + ", expected " + std::to_string(want) + " for time_scale " + std::to_string(s.ts) + " num_units_in_tick " + std::to_string(s.nuit));
      info.label("framerate");
    }
  }
  int ty; const char* nm = ref_profile_name(s.profile_idc, s.cs, ty);
  eq("GetProfileType()", d->GetProfileType(), ty, g.what.substr(0, 200));
  std::string str; profileTypeToString(d->GetProfileType(), str);
  if (ty && str != nm) fail("profile name is " + str + ", expected " + nm);
  info.nt(g.nal); info.label("cat" + std::to_string(s.chroma_array_type()) + (s.crop ? "-crop" : "") + (s.fmo ? "" : "-interlaced"));
  info.label(std::string("profile ") + nm);
  info.sample = g.what.substr(0, 400);
}
void c06_fields(Tape& t, Info& info) {
  H264SpsDataParser::SpsDataState d; SpsM s;
  s.chroma_format_idc = t.below(4); s.separate = s.chroma_format_idc == 3 ? t.below(2) : 0; s.fmo = t.below(2);
  int64_t hi = t.coin(1, 2) ? 40 : 1055;
  s.w_mbs1 = (uint32_t)t.pick(0, hi); s.h_mu1 = (uint32_t)t.pick(0, hi);
  int64_t cw = 16 * (s.w_mbs1 + 1), ch = 32 * (s.h_mu1 + 1);
  s.crop = 1;
  s.cl = (uint32_t)t.pick(0, t.coin(1, 3) ? 4 : cw); s.cr = (uint32_t)t.pick(0, t.coin(1, 3) ? 4 : cw / 2); s.ct = (uint32_t)t.pick(0, t.coin(1, 3) ? 4 : ch); s.cb = (uint32_t)t.pick(0, t.coin(1, 3) ? 4 : ch / 2);
  d.chroma_format_idc = s.chroma_format_idc; d.separate_colour_plane_flag = s.separate; d.frame_mbs_only_flag = s.fmo; d.pic_width_in_mbs_minus1 = s.w_mbs1; d.pic_height_in_map_units_minus1 = s.h_mu1;
  d.frame_cropping_flag = 1; d.frame_crop_left_offset = s.cl; d.frame_crop_right_offset = s.cr; d.frame_crop_top_offset = s.ct; d.frame_crop_bottom_offset = s.cb;
  std::string ctx = "chroma_format_idc " + std::to_string(s.chroma_format_idc) + " separate " + std::to_string(s.separate) + " frame_mbs_only " + std::to_string(s.fmo) + " mbs " + std::to_string(s.w_mbs1 + 1) + "x" + std::to_string(s.h_mu1 + 1) + " crop " + std::to_string(s.cl) + "," + std::to_string(s.cr) + "," + std::to_string(s.ct) + "," + std::to_string(s.cb);
  note(ctx);
  check_derived(d, s, ctx);
  int x; CHECK(d.getResolution(nullptr, &x) == -1 && d.getResolution(&x, nullptr) == -1, "getResolution() with a null output");
  info.nt(fnv(ctx.data(), ctx.size())); info.sample = ctx;
}
// ------------------------------------------------------------ C20
const char* kNames[32] = {"unspecified", "coded_slice_of_non_idr_picture", "coded_slice_data_partition_a", "coded_slice_data_partition_b", "coded_slice_data_partition_c", "coded_slice_of_idr_picture", "sei", "sps", "pps", "aud", "eoseq", "eostream", "filler_data", "sps_extension", "prefix", "subset_sps", "rsv16", "rsv17", "rsv18", "coded_slice_of_auxiliary_coded_picture", "coded_slice_extension", "rsv21", "rsv22", "rsv23", "unspec24", "unspec25", "unspec26", "unspec27", "unspec28", "unspec29", "unspec30", "unspec31"};
// the public names for the table values, which callers compare with decoded fields
void named_values() {
  static const struct { const char* n; int got, want; } k[] = {
#define V(x, v) {#x, (int)x, v}
    V(UNSPECIFIED_NUT, 0), V(CODED_SLICE_OF_NON_IDR_PICTURE_NUT, 1), V(CODED_SLICE_DATA_PARTITION_A_NUT, 2), V(CODED_SLICE_DATA_PARTITION_B_NUT, 3), V(CODED_SLICE_DATA_PARTITION_C_NUT, 4), V(CODED_SLICE_OF_IDR_PICTURE_NUT, 5),
    V(SEI_NUT, 6), V(SPS_NUT, 7), V(PPS_NUT, 8), V(AUD_NUT, 9), V(EOSEQ_NUT, 10), V(EOSTREAM_NUT, 11), V(FILLER_DATA_NUT, 12), V(SPS_EXTENSION_NUT, 13), V(PREFIX_NUT, 14), V(SUBSET_SPS_NUT, 15),
    V(RSV16_NUT, 16), V(RSV17_NUT, 17), V(RSV18_NUT, 18), V(CODED_SLICE_OF_AUXILIARY_CODED_PICTURE_NUT, 19), V(CODED_SLICE_EXTENSION, 20), V(RSV21_NUT, 21), V(RSV22_NUT, 22), V(RSV23_NUT, 23), V(RTP_STAPA_NUT, 24), V(RTP_FUA_NUT, 28),
    V(UNSPEC24_NUT, 24), V(UNSPEC25_NUT, 25), V(UNSPEC26_NUT, 26), V(UNSPEC27_NUT, 27), V(UNSPEC28_NUT, 28), V(UNSPEC29_NUT, 29), V(UNSPEC30_NUT, 30), V(UNSPEC31_NUT, 31),
    V(SliceType::P, 0), V(SliceType::B, 1), V(SliceType::I, 2), V(SliceType::SP, 3), V(SliceType::SI, 4), V(SliceType::P_ALL, 5), V(SliceType::B_ALL, 6), V(SliceType::I_ALL, 7), V(SliceType::SP_ALL, 8), V(SliceType::SI_ALL, 9),
    V(SvcSliceType::EPa, 0), V(SvcSliceType::EBa, 1), V(SvcSliceType::EIa, 2), V(SvcSliceType::EPb, 5), V(SvcSliceType::EBb, 6), V(SvcSliceType::EIb, 7),
#undef V
  };
  for (auto& e : k) eq(e.n, e.got, e.want, "value of the public constant");
}
void c20_tables(Tape& t, Info& info) {
  named_values();
  uint32_t v = t.coin(3, 4) ? t.below(40) : (uint32_t)t.pick(0, 0xffffffffll);
  note("nal_unit_type " + std::to_string(v));
  std::string ctx = "nal_unit_type " + std::to_string(v);
  std::string nm = NalUnitTypeToString(v);
  if (v < 32) { if (nm != kNames[v]) fail("NalUnitTypeToString(" + std::to_string(v) + ") = " + nm + ", expected " + kNames[v]); }
  else for (auto k : kNames) if (nm == k) fail("NalUnitTypeToString(" + std::to_string(v) + ") = " + nm + ", the name of another type");
  eq("IsSliceSegment", IsSliceSegment(v), (v >= 1 && v <= 5) || v == 19 || v == 20, ctx);
  eq("IsNalUnitTypeReserved", IsNalUnitTypeReserved(v), (v >= 16 && v <= 18) || (v >= 21 && v <= 23), ctx);
  if (v != 0) eq("IsNalUnitTypeUnspecified", IsNalUnitTypeUnspecified(v), v >= 24 && v <= 31, ctx);
  // every header byte: fields, GetNalUnitType
  uint8_t hb = (uint8_t)t.next(); Bytes nal = {hb}; size_t extra = t.below(6); for (size_t i = 0; i < extra; i++) nal.push_back((uint8_t)t.next());
  note("header bytes " + hex(nal));
  RefState rs; RefNal r = ref_decode(nal, rs);
  auto p = exact(nal);
  auto h = H264NalUnitHeaderParser::ParseNalUnitHeader(p.get(), nal.size());
  if (r.hdr_ok != (h != nullptr)) fail(std::string("NAL unit header ") + hex(nal) + (h ? " accepted" : " rejected"));
  if (h) { Flat f; f.sub["nal_unit_header"] = flat(*h); compare(*r.hdr, f, ""); }
  NalUnitType nt = (NalUnitType)99;
  bool ok = H264NalUnitHeaderParser::GetNalUnitType(p.get(), nal.size(), nt);
  if (r.hdr_ok) CHECK(ok, "GetNalUnitType fails on " + hex(nal)); if (ok) eq("GetNalUnitType", nt, hb & 31, hex(nal));
  CHECK(!H264NalUnitHeaderParser::GetNalUnitType(p.get(), 0, nt), "GetNalUnitType succeeds on empty input");
  // profile table, all profile_idc and constraint flags
  H264SpsDataParser::SpsDataState d; uint32_t cs[6]; uint32_t fl = t.next();
  for (int i = 0; i < 6; i++) cs[i] = (fl >> i) & 1;
  static const uint32_t ps[9] = {66, 77, 88, 100, 110, 122, 144, 244, 44};
  d.profile_idc = t.coin(1, 2) ? ps[t.below(9)] : t.below(256);
  d.constraint_set0_flag = cs[0]; d.constraint_set1_flag = cs[1]; d.constraint_set2_flag = cs[2]; d.constraint_set3_flag = cs[3]; d.constraint_set4_flag = cs[4]; d.constraint_set5_flag = cs[5];
  int ty; std::string str; ref_profile_name(d.profile_idc, cs, ty);
  std::string pc = "profile_idc " + std::to_string(d.profile_idc) + " flags " + std::to_string(fl & 63);
  note(pc);
  int got = d.GetProfileType();
  eq("GetProfileType", got, ty, pc);
  static const char* pn[18] = {nullptr, "Baseline", "Constrained Baseline", "Main", "Extended", "High", "Progressive High", "Constrained High", "High 10", "Progressive High 10", "High 10 Intra", "High 4:2:2", "High 4:2:2 Intra", "High 4:4:4", "High 4:4:4 Intra", "High 4:4:4 Predictive", "High 4:4:4 Predictive Intra", "CAVLC 4:4:4 Intra"};
  int q = 1 + (int)t.below(17); profileTypeToString((ProfileType)q, str);
  if (str != pn[q]) fail("profileTypeToString(" + std::to_string(q) + ") = " + str + ", expected " + pn[q]);
  info.nt(fnv(nal, v + 1000003ull * fl)); info.sample = ctx + " header " + hex(nal) + " " + pc;
}
}  // namespace
PROP("C02", "find", c02_find, 900000, 60000000, "byte strings over zero-heavy alphabets and NAL-like pieces glued with start codes of 1-9 bytes, sometimes over 64 KiB; non-trivial: at least one start code in the buffer; distinct by buffer");
PROP("C02", "explicit", c02_explicit, 300000, 20000000, "4-byte length framed buffers with true, wrong and truncated lengths; non-trivial: at least one unit; distinct by buffer");
PROP("C03", "unescape", c03_unescape, 2000000, 100000000, "byte strings over zero-heavy alphabets; non-trivial: the string contains an emulation prevention byte or needs one; distinct by bytes");
PROP("C03", "entry", c03_entry, 60000, 4000000, "valid SPS/PPS/subset SPS NAL units, parsed escaped and unescaped through every entry point; non-trivial: the NAL unit needs escaping; distinct by bytes");
PROP("C04", "read", c04_read, 800000, 60000000, "1-24 random reader operations over a 0-27 byte (1 in 400: up to 70000) buffer, against a bit-string model; non-trivial: non-empty buffer; distinct by buffer and operation log");
PROP("C04", "write", c04_write, 400000, 30000000, "1-20 random writer and reader operations over a 1-40 byte (1 in 800: up to 70000) buffer, whole buffer compared after each; non-trivial: a write succeeded; distinct by operation log");
PROP("C06", "parsed", c06_parsed, 200000, 10000000, "valid SPS and subset SPS NAL units; derived values compared with the standard's formulas; non-trivial: accepted; distinct by NAL unit");
PROP("C06", "fields", c06_fields, 400000, 20000000, "SPS field combinations set directly, including cropping that leaves no picture; every case is non-trivial; distinct by field values");
PROP("C20", "tables", c20_tables, 400000, 20000000, "nal_unit_type values, NAL unit header bytes and profile/constraint flag combinations; every case is non-trivial; distinct by (type, header bytes, flags)");
#ifdef SMALL_FOOTPRINT
PROP("C24", "find", c02_find, 100000, 5000000, "small footprint build: byte strings as for C02");
PROP("C24", "unescape", c03_unescape, 200000, 8000000, "small footprint build: byte strings as for C03");
PROP("C24", "bits", c04_read, 100000, 6000000, "small footprint build: reader operations as for C04");
PROP("C24", "tables", c20_tables, 60000, 3000000, "small footprint build: values as for C20");
PROP("C24", "derived", c06_parsed, 40000, 1500000, "small footprint build: SPSs as for C06");
#endif
