// Drives one public entry point of the library on arbitrary bytes, then dumps
// whatever came back. Shared by the property-based check and the fuzz target.
#pragma once
#include <time.h>

#include "standalone.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

struct Exact {  // exact-size heap buffer, so that any over-read is caught
  std::unique_ptr<uint8_t[]> p; size_t n;
  explicit Exact(const Bytes& b) : p(new uint8_t[b.size() ? b.size() : 1]), n(b.size()) { std::copy(b.begin(), b.end(), p.get()); }
};
struct DumpTo { FILE* fp; int indent; ParsingOptions po; };
inline const char* const kEntries[] = {"annexb", "annexb+state", "length", "length+state", "nal", "nal unescaped", "nal bits", "rtp", "rtp single", "rtp stap-a", "rtp fu-a", "header", "payload", "payload bits", "structure", "structure bits", "utilities", "indices", "nal sequence"};
inline const uint32_t kNumEntries = sizeof kEntries / sizeof *kEntries;
inline uint64_t& g_biggest() { static uint64_t b = 0; return b; }
inline void hook_malloc(const volatile void*, size_t n) { if (n > g_biggest()) g_biggest() = n; }

inline uint32_t wild(Tape& t) { return t.coin(1, 3) ? (uint32_t)t.pick(0, 0xffffffffll) : t.below(40); }
// entry: index into kEntries. `st` carries parameter sets between calls.
inline void drive(const Bytes& d, uint32_t entry, Tape& t, Pair& pr, const DumpTo& to) {
  H264BitstreamParserState* st = &pr.lib;
  ParsingOptions po; po.add_offset = t.below(2); po.add_length = t.below(2); po.add_parsed_length = t.below(2); po.add_checksum = t.below(2); po.add_resolution = t.below(2);
  Exact b(d); const uint8_t* p = b.p.get(); size_t n = b.n;
  auto dump = [&](auto& s) { if (s) s->fdump(to.fp, to.indent, to.po); };
  switch (entry) {
    case 0: { auto s = H264BitstreamParser::ParseBitstream(p, n, po); dump(s); if (s) for (auto& x : s->nal_units) dump(x); break; }
    case 1: { auto s = H264BitstreamParser::ParseBitstream(p, n, st, po); dump(s); break; }
    case 2: case 3: {
      size_t w = t.below(10); if (t.coin(1, 12)) { static const size_t odd[6] = {9, 16, 1000, (size_t)1 << 31, (size_t)-1, (size_t)-8}; w = odd[t.below(6)]; }
      std::unique_ptr<H264BitstreamParser::BitstreamState> s;
      if (entry == 2) s = H264BitstreamParser::ParseBitstreamNALULength(p, n, w, po); else s = H264BitstreamParser::ParseBitstreamNALULength(p, n, w, st, po);
      dump(s); if (s) for (auto& x : s->nal_units) dump(x);
      break;
    }
    case 4: { auto s = H264NalUnitParser::ParseNalUnit(p, n, st, po); dump(s); break; }
    case 5: { auto s = H264NalUnitParser::ParseNalUnitUnescaped(p, n, st, po); dump(s); break; }
    case 6: { BitBuffer bb(p, n); auto s = H264NalUnitParser::ParseNalUnit(&bb, st, po); dump(s); break; }
    case 7: { auto s = H264RtpParser::ParseRtp(p, n, st); dump(s); break; }
    case 8: { auto s = H264RtpSingleParser::ParseRtpSingle(p, n, st); dump(s); break; }
    case 9: { auto s = H264RtpStapAParser::ParseRtpStapA(p, n, st); dump(s); break; }
    case 10: { auto s = H264RtpFuAParser::ParseRtpFuA(p, n, wild(t), st); dump(s); break; }
    case 11: { auto s = H264NalUnitHeaderParser::ParseNalUnitHeader(p, n); if (s) s->fdump(to.fp, to.indent); NalUnitType nt; H264NalUnitHeaderParser::GetNalUnitType(p, n, nt); BitBuffer bb(p, n); s = H264NalUnitHeaderParser::ParseNalUnitHeader(&bb); if (s) s->fdump(to.fp, to.indent); break; }
    case 12: case 13: {
      Bytes hb = {(uint8_t)(t.below(4) << 5 | t.below(32)), (uint8_t)t.next(), (uint8_t)t.next(), (uint8_t)t.next()};
      auto h = H264NalUnitHeaderParser::ParseNalUnitHeader(hb.data(), hb.size()); if (!h) break;
      std::unique_ptr<H264NalUnitPayloadParser::NalUnitPayloadState> s;
      if (entry == 12) s = H264NalUnitPayloadParser::ParseNalUnitPayload(p, n, *h, st);
      else { BitBuffer bb(p, n); if (t.below(2)) s = H264NalUnitPayloadParser::ParseNalUnitPayload(&bb, *h, st); else s = H264NalUnitPayloadParser::ParseNalUnitPayload(&bb, wild(t), h->nal_unit_type, st); }
      if (s) { s->fdump(to.fp, to.indent, h->nal_unit_type, to.po); (void)s->IsPayloadParsed(h->nal_unit_type); }
      break;
    }
    case 14: case 15: {
      auto& ks = st_kinds(); const StKind& k = ks[t.below((uint32_t)ks.size())]; StCtx x = st_context(t, k, pr);
      if (t.coin(1, 2)) { x.slice_type = wild(t); x.cat = wild(t); x.cf = wild(t); x.l0 = wild(t); x.l1 = wild(t); x.idr = wild(t); x.ref_idc = wild(t); x.urb = wild(t); if (x.hdr_bytes.empty()) x.nut = t.below(3) ? 1 + 4 * t.below(2) : wild(t); }
      st_dump().fp = to.fp; st_dump().indent = to.indent; st_dump().po = to.po;
      Flat f; if (entry == 14) k.data(p, n, x, f); else { BitBuffer bb(p, n); if (t.below(2)) bb.ConsumeBits(t.below(12)); k.bits(&bb, x, f); }
      st_dump().fp = nullptr;
      break;
    }
    case 16: {
      auto u = UnescapeRbsp(p, n); (void)u;
      BitBuffer bb(p, n); int k = 1 + t.below(12);
      while (k--) {
        uint32_t v; int32_t sv; size_t by, bi; uint8_t o8; uint16_t o16;
        switch (t.below(14)) {
          case 0: bb.ReadBits(t.below(34), v); break;
          case 1: bb.ReadExponentialGolomb(v); break;
          case 2: bb.ReadSignedExponentialGolomb(sv); break;
          case 3: bb.PeekBits(t.below(34), v); break;
          case 4: bb.ConsumeBits(t.below(2) ? t.below(40) : (size_t)wild(t)); break;
          case 5: bb.ConsumeBytes(t.below(2) ? t.below(9) : (size_t)wild(t)); break;
          case 6: bb.Seek(t.below(2) ? t.below((uint32_t)n + 2) : (size_t)wild(t), t.below(9)); break;
          case 7: bb.ReadUInt8(o8); break;
          case 8: bb.ReadUInt16(o16); break;
          case 9: bb.ReadUInt32(v); break;
          case 10: more_rbsp_data(&bb); break;
          case 11: { bb.GetCurrentOffset(&by, &bi); rbsp_trailing_bits(&bb); if (!bb.Seek(by, bi)) fail("cannot seek back to a position that was reached"); break; }
          case 12: { auto c = NaluChecksum::GetNaluChecksum(&bb); if (c) { char buf[64]; c->fdump(buf, 1 + t.below(64)); } break; }
          default: bb.ReadNonSymmetric(1 + wild(t) % 0x80000000u, v); break;
        }
        bb.GetCurrentOffset(&by, &bi); bb.RemainingBitCount();
      }
      break;
    }
    case 17: { auto v = H264BitstreamParser::FindNaluIndices(p, n); auto w = H264BitstreamParser::FindNaluIndicesExplicitFraming(p, n); for (auto* q : {&v, &w}) for (auto& x : *q) if (x.payload_start_offset > n || x.payload_size > n - x.payload_start_offset) fail("reported NAL unit lies outside the buffer"); break; }
    case 18: {  // keep every result until the end, then dump in another order
      auto v = H264BitstreamParser::FindNaluIndices(p, n); std::vector<std::unique_ptr<NalState>> keep;
      for (auto& x : v) { if (x.payload_size > n || x.payload_start_offset > n - x.payload_size) fail("reported NAL unit lies outside the buffer"); Exact e(Bytes(p + x.payload_start_offset, p + x.payload_start_offset + x.payload_size)); keep.push_back(H264NalUnitParser::ParseNalUnit(e.p.get(), e.n, st, po)); }
      for (size_t i = keep.size(); i--;) dump(keep[i]);
      break;
    }
  }
}
// runs it under the limits: no single allocation out of proportion to the
// input, no CPU time out of proportion to the input
inline void drive_limited(const Bytes& d, uint32_t entry, Tape& t, Pair& pr, const DumpTo& to) {
  static bool hooked = (__sanitizer_install_malloc_and_free_hooks(hook_malloc, [](const volatile void*) {}), true); (void)hooked;
  struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); g_biggest() = 0;
  drive(d, entry, t, pr, to);
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
  double s = (double)(b.tv_sec - a.tv_sec) + 1e-9 * (double)(b.tv_nsec - a.tv_nsec);
  if (g_biggest() > (64u << 20) + 1024ull * d.size()) fail("an allocation of " + std::to_string(g_biggest()) + " bytes for an input of " + std::to_string(d.size()));
  if (s > 4.0 + 2e-4 * (double)d.size()) fail(std::to_string(s) + " s of CPU time for an input of " + std::to_string(d.size()) + " bytes");
}
