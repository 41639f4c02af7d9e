// Several streams parsed at the same time, each with its own parser state.
// Built twice: with AddressSanitizer, and with ThreadSanitizer, which reports
// any conflicting access whether or not it changed a result.
#include <atomic>
#include <thread>

#include "corpus.h"
#include "dumptree.h"

#ifdef PBT_TSAN
#define SUB_NAME "threads-tsan"
#define QUICK 2500
#define THOROUGH 60000
#else
#define SUB_NAME "threads"
#define QUICK 5000
#define THOROUGH 150000
#endif

namespace {
struct Job { uint32_t kind; Bytes buf; int width; std::vector<Bytes> nals; uint32_t opt; int indent; };
std::string work(const Job& j) {
  ParsingOptions po; po.add_offset = j.opt & 1; po.add_length = j.opt & 2; po.add_parsed_length = j.opt & 4; po.add_checksum = j.opt & 8; po.add_resolution = j.opt & 16;
  H264BitstreamParserState st; std::string s;
  auto show = [&](const NalState* n) { s += repr_nal(n, j.opt & 8) + "\n"; if (n) s += capture([&](FILE* fp) { n->fdump(fp, j.indent, po); }); };
  switch (j.kind) {
    case 0: { auto b = H264BitstreamParser::ParseBitstream(j.buf.data(), j.buf.size(), &st, po); for (auto& n : b->nal_units) show(n.get()); break; }
    case 1: { auto b = H264BitstreamParser::ParseBitstreamNALULength(j.buf.data(), j.buf.size(), (size_t)j.width, &st, po); for (auto& n : b->nal_units) show(n.get()); break; }
    case 2: for (auto& n : j.nals) { auto r = H264NalUnitParser::ParseNalUnit(n.data(), n.size(), &st, po); show(r.get()); } break;
    case 3: for (auto& n : j.nals) { auto r = H264RtpParser::ParseRtp(n.data(), n.size(), &st); s += r ? capture([&](FILE* fp) { r->fdump(fp, j.indent, po); }) : "null\n"; } break;
    default: { auto b = H264BitstreamParser::ParseBitstream(j.buf.data(), j.buf.size(), po); s += capture([&](FILE* fp) { b->fdump(fp, j.indent, po); }); for (auto& x : H264BitstreamParser::FindNaluIndices(j.buf.data(), j.buf.size())) s += std::to_string(x.start_offset) + "," + std::to_string(x.payload_size) + ";"; break; }
  }
  return s + repr_state(st);
}
void c18_threads(Tape& t, Info& info) {
  int n = 2 + (int)t.below(3); std::vector<Job> jobs; std::string desc; bool share = t.coin(1, 3);
  for (int i = 0; i < n; i++) {
    Job j; j.nals = share && i ? jobs[0].nals : some_nals(t, 2 + (int)t.below(8)); j.kind = t.below(5); j.width = 2 + (int)t.below(3); j.opt = t.coin(1, 2) ? 31 : t.below(32); j.indent = t.below(2) ? -1 : 0;
    if (j.kind == 3 && t.below(2)) { Bytes b = {(uint8_t)(0x60 | 24)}; for (auto& x : j.nals) { b.push_back((uint8_t)(x.size() >> 8)); b.push_back((uint8_t)x.size()); append(b, x); } j.nals = {b}; }
    j.buf = j.kind == 1 ? frame_length(j.nals, j.width) : frame_annexb(t, j.nals);
    desc += "thread " + std::to_string(i) + ": kind " + std::to_string(j.kind) + " " + hex(j.buf, 700) + " | "; jobs.push_back(std::move(j));
  }
  note(desc);
  int rounds = 2 + (int)t.below(3);
  // alone first or last: what one thread leaves behind must not matter either way
  bool alone_first = t.coin(1, 2); std::vector<std::string> want; uint32_t un = 0, un_got = 0; std::vector<std::vector<std::string>> got((size_t)n, std::vector<std::string>((size_t)rounds));
  auto alone = [&] { reset_unimplemented_count(); for (auto& j : jobs) want.push_back(work(j)); un = get_unimplemented_count(); };
  auto together = [&] {
    reset_unimplemented_count(); std::atomic<int> ready{0}; std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready.load() < n) std::this_thread::yield(); for (int k = 0; k < rounds; k++) got[(size_t)i][(size_t)k] = work(jobs[(size_t)i]); });
    for (auto& x : th) x.join();
    un_got = get_unimplemented_count();
  };
  if (alone_first) { alone(); together(); } else { together(); alone(); }
  for (int i = 0; i < n; i++) for (auto& g : got[(size_t)i]) same("a stream parsed alone and next to others: results", want[(size_t)i], g);
  eq("unimplemented syntax counted by all threads", un_got, un * (uint32_t)rounds);
  uint64_t h = 0; for (auto& j : jobs) h = fnv(j.buf, h + j.kind); info.nt(h); info.label(std::to_string(n) + " threads"); info.sample = desc.substr(0, 300);
}
#ifndef PBT_TSAN
// the unimplemented count under concurrent use: nothing is lost
void c16_threads(Tape& t, Info& info) {
  int n = 2 + (int)t.below(3), per = 200 + (int)t.below(1200); std::vector<std::vector<Bytes>> lists; std::string desc; uint64_t h = 0, want = 0;
  for (int i = 0; i < n; i++) {
    std::vector<Bytes> l; int m = 1 + (int)t.below(3);
    for (int k = 0; k < m; k++) { uint32_t q = t.below(4); uint8_t ref = (uint8_t)(t.below(4) << 5); if (q == 3) l.push_back({(uint8_t)(ref | 9), 0x10}); else { l.push_back({(uint8_t)(ref | (q == 0 ? 20 : q == 1 ? 14 : 21)), (uint8_t)(t.below(128)), (uint8_t)t.next(), (uint8_t)t.next(), 0x80}); want += (uint64_t)per; } h = fnv(l.back(), h); desc += hex(l.back()) + " "; }
    lists.push_back(l); desc += "| ";
  }
  note("per thread " + std::to_string(per) + " times: " + desc);
  reset_unimplemented_count(); std::atomic<int> ready{0}; std::vector<std::thread> th;
  for (int i = 0; i < n; i++) th.emplace_back([&, i] { H264BitstreamParserState st; ready++; while (ready.load() < n) std::this_thread::yield(); for (int k = 0; k < per; k++) for (auto& b : lists[(size_t)i]) H264NalUnitParser::ParseNalUnit(b.data(), b.size(), &st, ParsingOptions()); });
  for (auto& x : th) x.join();
  eq("unimplemented syntax counted by all threads together", get_unimplemented_count(), want);
  if (want) info.nt(h + (uint64_t)n); info.label(std::to_string(n) + " threads"); info.sample = desc.substr(0, 300);
}
#endif
}  // namespace
#ifndef PBT_TSAN
PROP("C16", "threads", c16_threads, 400, 20000, "two to four threads, each parsing one to three NAL units (MVC or 3D-AVC header extensions, delimiters) 200 to 1400 times; non-trivial: at least one needs unimplemented syntax; distinct by the NAL units");
#endif
PROP("C18", SUB_NAME, c18_threads, QUICK, THOROUGH, "two to four streams (generated or recorded, valid and broken) parsed and dumped in as many threads, two to four times over, against the same streams parsed alone; every case is non-trivial; distinct by streams and entry points");
