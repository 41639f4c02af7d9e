// C01: no input makes the library misbehave.
#include "corpus.h"
#include "drive.h"

namespace {
FILE* sink() { static FILE* f = fopen("/dev/null", "w"); return f; }
DumpTo rnd_dump(Tape& t) { DumpTo d; d.fp = sink(); d.indent = (int)t.below(6) - 1; if (t.coin(1, 30)) d.indent = 40; d.po.add_offset = t.below(2); d.po.add_length = t.below(2); d.po.add_parsed_length = t.below(2); d.po.add_checksum = t.below(2); d.po.add_resolution = t.below(2); return d; }

// populated parser state for the calls of one case
void populate(Tape& t, Pair& pr, std::string& log) {
  int n = t.below(4); if (!n) return;
  StepOpt so; so.svc = t.coin(1, 2); so.broken = t.coin(1, 4) ? 30 : 0; RefState rs; auto v = gen_seq(t, 2 + t.below(6), so, rs);
  for (auto& b : v) { log += "[" + hex(b, 200) + "] "; note("state " + log); lib_parse(b, &pr.lib); }
}
// one call on one input
void c01_call(Tape& t, Info& info) {
  uint32_t entry = t.below(kNumEntries); Pair pr; std::string log, kind; populate(t, pr, log);
  if (!log.empty() && (entry == 14 || entry == 15) && t.coin(1, 2)) { }
  Bytes d = input_for(t, entry, kind);
  note("state " + log + " entry " + kEntries[entry] + " bytes " + hex(d, 1500));
  drive_limited(d, entry, t, pr, rnd_dump(t));
  if (d.size() > 4) info.nt(fnv(d, entry + 1));
  info.label(std::string(kEntries[entry]) + " / " + kind); info.sample = std::string(kEntries[entry]) + " " + hex(d, 120) + (log.empty() ? "" : " after " + log.substr(0, 200));
}
// a session: many calls on one state, any entry points
void c01_session(Tape& t, Info& info) {
  Pair pr; int n = 2 + t.below(10); std::string log; uint64_t h = 1;
  for (int i = 0; i < n; i++) {
    static const uint32_t es[] = {1, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 18}; uint32_t e = es[t.below(14)]; std::string k; Bytes d = input_for(t, e, k);
    log += std::string(kEntries[e]) + " " + hex(d, 300) + "; "; note(log);
    drive_limited(d, e, t, pr, rnd_dump(t)); h = fnv(d, h + e);
  }
  info.nt(h); info.sample = log.substr(0, 600);
}
// one syntax structure, generated for its context (valid or with one element
// out of range), mutated, parsed with a possibly different context
void c01_structure(Tape& t, Info& info) {
  auto& ks = st_kinds(); const StKind& k = ks[t.below((uint32_t)ks.size())]; Pair pr; std::string pre;
  if (k.needs_state) pre = st_state(t, pr, !strcmp(k.node, "slice_header_in_scalable_extension"));
  StCtx x = st_context(t, k, pr); StGen g = st_gen(t, k, x, pr.ref, t.coin(1, 3) ? (int)t.below(30) : -1, t.coin(1, 4));
  Bytes b = g.b; mutate_n(t, b);
  if (t.coin(1, 3)) { x.slice_type = wild(t); x.cat = wild(t); x.cf = wild(t); x.l0 = wild(t); x.l1 = wild(t); x.idr = wild(t); x.ref_idc = wild(t); x.urb = wild(t); if (x.hdr_bytes.empty()) x.nut = wild(t); }
  DumpTo to = rnd_dump(t); note(pre + k.name + " " + x.str() + " bytes=" + hex(b, 1200));
  st_dump().fp = to.fp; st_dump().indent = to.indent; st_dump().po = to.po;
  Flat f; { Exact e(b); k.data(e.p.get(), e.n, x, f); } { Exact e(b); BitBuffer bb(e.p.get(), e.n); k.bits(&bb, x, f); }
  st_dump().fp = nullptr;
  info.nt(fnv(b, fnv(k.name, strlen(k.name)))); info.label(k.name); info.sample = std::string(k.name) + " " + hex(b, 100);
}
// memory: everything is released, and repeating a call needs no more of it
void c01_release(Tape& t, Info& info) {
  uint32_t entry = t.below(kNumEntries); std::string kind; Bytes d = input_for(t, entry, kind); Tape ctl(std::vector<uint32_t>{t.next(), t.next(), t.next(), t.next(), t.next(), t.next(), t.next(), t.next(), t.next(), t.next(), t.next(), t.next()});
  StepOpt so; RefState rs; auto v = gen_seq(t, t.below(5), so, rs); DumpTo to = rnd_dump(t);
  note("entry " + std::string(kEntries[entry]) + " bytes " + hex(d, 1500) + " after " + nals_str(v));
  size_t before = 0;
  for (int i = 0; i < 3; i++) {
    { Tape c = ctl; Pair pr; for (auto& n : v) lib_parse(n, &pr.lib); drive(d, entry, c, pr, to); }
    size_t now = __sanitizer_get_current_allocated_bytes();
    if (i == 2 && now > before) fail("repeating the same parse leaves " + std::to_string(now - before) + " more bytes allocated each time");
    before = now;
  }
  if (d.size() > 4) info.nt(fnv(d, entry + 1));
  info.label(kEntries[entry]); info.sample = std::string(kEntries[entry]) + " " + hex(d, 120);
}
// very large inputs made of what is costly to look at: the time grows with the
// size, not with its square
double cpu_of(const Bytes& d, uint32_t entry, const Tape& ctl, const DumpTo& to, const std::vector<Bytes>& pre) {
  Tape c = ctl; Pair pr; for (auto& n : pre) lib_parse(n, &pr.lib); struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); drive(d, entry, c, pr, to); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
  return (double)(b.tv_sec - a.tv_sec) + 1e-9 * (double)(b.tv_nsec - a.tv_nsec);
}
void c01_large(Tape& t, Info& info) {
  static const uint32_t es[] = {1, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 17, 18}; uint32_t e = es[t.below(13)], pat = t.below(10); size_t n = 400000 + (size_t)t.below(2800) * 1000;
  static const std::vector<Bytes> pats = {{0, 0, 3}, {0}, {0, 0, 1}, {0, 0, 1, 9, 16}, {0xff}, {0, 0, 3, 1}, {0, 0, 0, 1, 0x67}, {0, 0, 0, 2, 9, 16}, {0, 2, 9, 16}, {0x80}};
  StepOpt so; RefState rs; auto pre = gen_seq(t, t.below(4), so, rs); Bytes d; bool with_head = t.coin(1, 2);
  if (with_head) d = some_nals(t, 1)[0];
  if (e == 9 || (e == 7 && t.coin(1, 3))) d = {24};
  if (e == 10) d = {28, (uint8_t)(0x80 | t.below(32))};
  Bytes q = pats[pat]; if (t.coin(1, 3)) { size_t m = 1 + t.below(6); q.clear(); while (m--) { static const uint8_t lo[6] = {0, 0, 1, 3, 2, 0xff}; q.push_back(lo[t.below(6)]); } }
  Tape ctl(std::vector<uint32_t>{t.next(), t.next(), t.next(), t.next(), t.next(), t.next(), t.next(), t.next()}); DumpTo to = rnd_dump(t);
  size_t h = d.size(); while (d.size() < n) append(d, q);
  Bytes quarter(d.begin(), d.begin() + (long)(h + (d.size() - h) / 4));
  note("entry " + std::string(kEntries[e]) + " head " + hex(Bytes(d.begin(), d.begin() + (long)h), 300) + " then " + hex(q) + " up to " + std::to_string(d.size()) + " bytes");
  double a = cpu_of(quarter, e, ctl, to, pre), b = cpu_of(d, e, ctl, to, pre);
  if (b > 3 && b > 9 * std::max(a, 0.05)) { a = std::max(a, cpu_of(quarter, e, ctl, to, pre)); b = std::min(b, cpu_of(d, e, ctl, to, pre)); if (b > 3 && b > 9 * std::max(a, 0.05)) fail(std::to_string(b) + " s of CPU time for " + std::to_string(d.size()) + " bytes, " + std::to_string(a) + " s for a quarter of them"); }

  info.nt(fnv(d, e + 1)); info.label(kEntries[e]); info.sample = std::string(kEntries[e]) + " " + hex(q) + " repeated to " + std::to_string(d.size()) + " bytes";
}
}  // namespace
PROP("C01", "large", c01_large, 160, 6000, "0.4 to 3.2 MB made of a short pattern (escapes, start codes, zeros, length fields) behind a NAL unit or on its own, at one of 13 entry points, against a quarter of it: CPU time stays proportional; every case is non-trivial; distinct by bytes and entry point");
PROP("C01", "call", c01_call, 200000, 12000000, "one call of one of 19 entry points on random, recorded or generated-then-mutated bytes after 0-7 stored parameter sets, result dumped; non-trivial: more than 4 input bytes; distinct by entry point and bytes");
PROP("C01", "session", c01_session, 25000, 1500000, "2-11 calls of mixed entry points on one parser state; non-trivial: every case; distinct by the bytes");
PROP("C01", "structure", c01_structure, 150000, 8000000, "one standalone structure parser on generated, one-element-out-of-range or mutated bits, arbitrary context arguments, both call forms, result dumped; non-trivial: every case; distinct by structure and bytes");
PROP("C01", "release", c01_release, 40000, 2000000, "a parse and dump repeated three times; allocated bytes compared; non-trivial: more than 4 input bytes; distinct by entry point and bytes");
