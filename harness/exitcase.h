#pragma once
#include "tool.h"

inline std::string clip(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
// exit status against the reference decoder, without asking the library
inline void exit_case(Tape& t, Info& info, bool unimpl) {
  StepOpt so; so.svc = t.coin(1, 2); so.broken = t.coin(1, 2) ? 0 : 15; so.unimpl = unimpl; RefState rs; std::vector<Bytes> v; int n = 1 + (int)t.below(6); bool many = t.coin(1, 60); if (many) n = 1;
  bool sure = true, un = false, bad = false, dropped = false;
  for (int i = 0; i < n; i++) {
    Step s = gen_step(t, rs, v, so); if (many && unimpl && t.coin(2, 3)) { static const uint8_t k[3] = {14, 20, 21}; s.nal = {(uint8_t)(t.below(4) << 5 | k[t.below(3)]), (uint8_t)t.below(128), (uint8_t)t.below(256), (uint8_t)t.below(256), 0x80}; } if (s.nal.size() < 2) s.nal = {0x09, 0x10}; while (s.nal.size() > 1 && !s.nal.back()) s.nal.pop_back();
    RefNal r = ref_decode(s.nal, rs);
    // verdicts the standard leaves open, and skipped subset SPS extensions (known finding), are not judged
    if (r.opaque || r.skipped || r.v == RefNal::EITHER) sure = false;
    if (r.h.nut == 15 && r.hdr_ok) { uint32_t p = r.sub.sps.profile_idc; if (p != 83 && p != 86 && p != 66 && p != 77 && p != 100 && p != 244) sure = false; }
    un |= r.unimpl; if (!r.hdr_ok) dropped = true; else bad |= r.v == RefNal::REJECT;
    if (r.hdr_ok && r.pay && r.v != RefNal::REJECT) ref_commit(r, rs);
    v.push_back(ref_escape(s.nal));
  }
  // the same unit over and over: the verdict stays, and counts reach round numbers
  if (many && sure) { static const size_t k[8] = {256, 512, 1024, 255, 257, 128, 65536, 4096}; size_t c = k[t.below(t.coin(1, 6) ? 8 : 4)]; if (v[0].size() > 40 && c > 1024) c = 256; v.resize(c, v[0]); info.label("many units"); }
  if (!sure) { info.label("not judged"); return; }
  // 1 to 4 length bytes (all units here are short enough for 2), one unit on its own, or Annex B
  int width = -1; if (t.coin(1, 3)) { size_t big = 0; for (auto& b : v) big = std::max(big, b.size()); width = 1 + (int)t.below(4); if (big > 255 && width == 1) width = 2; if (big > 65535) width = 4; if (v.size() == 1 && t.below(2)) width = 0; }
  // a unit without a decodable header is missing from the result; only with start codes does the tool count those
  if (dropped) { if (width < 0) bad = true; else if (!bad && !un) { info.label("not judged"); return; } }
  Bytes buf = width < 0 ? frame_annexb(t, v) : width == 0 ? v[0] : frame_length(v, width); int rc = un ? 2 : bad ? 1 : 0; std::string in = g_scratch + "/in.264"; put_file(in, buf); put_file(g_scratch + "/none", Bytes());
  note("exit status of h264nal on " + std::to_string(v.size()) + " NAL units " + hex(buf, 2000));
  std::vector<std::string> argv = {g_tool, "-i", in}; if (t.below(2)) argv.push_back("--dump-length"); if (width >= 0) argv.push_back("--nalu-length-bytes=" + std::to_string(width));
  Ran r = run_program(argv, g_scratch + "/none", g_scratch + "/stdout");
  if (r.rc != rc) fail("exit status " + std::to_string(r.rc) + ", expected " + std::to_string(rc) + (un ? " (unimplemented syntax)" : bad ? " (a NAL unit cannot be decoded)" : " (all NAL units decodable)") + " | " + clip(r.err));
  info.nt(fnv(buf)); info.label("exit " + std::to_string(rc)); info.label(width < 0 ? "annexb" : width == 0 ? "single NAL unit" : "length-framed"); info.sample = "exit " + std::to_string(rc) + " " + hex(buf, 200);
}
