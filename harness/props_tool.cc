// The command-line tools, end to end.
#include "dumptree.h"
#include "exitcase.h"

namespace {
struct Opt { bool length = false, one = true, off = false, len = false, plen = false, sum = false, res = false, cont = false; int width = -1; long fps = 30; };
// a random option list, with repeats and contradictions: the last one counts
std::vector<std::string> gen_opts(Tape& t, Opt& o) {
  std::vector<std::string> a; int n = (int)t.below(9);
  static const char* const nm[6] = {"add-offset", "add-length", "add-parsed-length", "add-checksum", "add-resolution", "add-contents"};
  while (n--) switch (t.below(10)) {
    case 0: { o.length = t.below(2); a.push_back(o.length ? "--dump-length" : "--dump-all"); break; }
    case 1: case 2: { bool v = t.below(2); o.one = v; a.push_back(v ? "--as-one-line" : "--no-as-one-line"); break; }
    case 3: { static const long f[9] = {30, 0, 1, 25, 24, 60, 1000, 240, 2147483647}; o.fps = f[t.below(9)]; if (t.below(2)) { a.push_back("--frames-per-second"); a.push_back(std::to_string(o.fps)); } else a.push_back("--frames-per-second=" + std::to_string(o.fps)); break; }
    case 4: {  // verbosity: one step prints nothing, and --quiet takes any number back
      uint32_t k = t.below(4); if (k == 0) a.insert(a.begin(), t.below(2) ? "-d" : "--debug"); if (k == 1) a.insert(a.end(), 1 + t.below(3), "--debug"); a.push_back("--quiet"); break; }
    default: { uint32_t k = t.below(6); bool v = t.coin(2, 3); bool* f[6] = {&o.off, &o.len, &o.plen, &o.sum, &o.res, &o.cont}; *f[k] = v; a.push_back(std::string(v ? "--" : "--no-") + nm[k]); }
  }
  return a;
}
bool g_maybe = false;  // set by expected(): the exit status may be 0 or 1
std::string expected(const Bytes& buf, const Opt& o, int& rc) {
  ParsingOptions all; H264BitstreamParserState st; std::string s;
  ParsingOptions po; po.add_offset = o.off || o.cont; po.add_length = o.len || o.cont || o.length; po.add_parsed_length = o.plen; po.add_checksum = o.sum; po.add_resolution = o.res;
  reset_unimplemented_count();
  auto bs = o.width < 0 ? H264BitstreamParser::ParseBitstream(buf.data(), buf.size(), &st, all) : H264BitstreamParser::ParseBitstreamNALULength(buf.data(), buf.size(), (size_t)o.width, &st, all);
  uint32_t un = get_unimplemented_count(); size_t bad = 0;
  if (o.width < 0) bad = H264BitstreamParser::FindNaluIndices(buf.data(), buf.size()).size() - bs->nal_units.size();
  if (o.length) s = "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_mb_in_slice\n";
  int num = 0, frame = 0, last = -1; int64_t total = 0;
  auto flush = [&] { if (total > 0) { s += "," + std::to_string(frame) + "," + std::to_string(last) + ",frame,," + std::to_string(total * 8 * o.fps) + ",\n"; } };
  for (auto& n : bs->nal_units) {
    uint32_t nut = n->nal_unit_header->nal_unit_type; if (!n->nal_unit_payload->IsPayloadParsed(nut)) bad++;
    if (o.length) {
      std::string mb;
      if (IsSliceSegment(nut)) {
        auto& sl = n->nal_unit_payload->slice_layer_without_partitioning_rbsp; uint32_t v = sl ? sl->slice_header->first_mb_in_slice : 0; mb = std::to_string(v);
        if (v == 0 && total > 0) { flush(); frame++; total = 0; }
        last = (int)nut; total += (int64_t)n->length;
      }
      s += std::to_string(num++) + "," + std::to_string(frame) + "," + std::to_string(nut) + "," + NalUnitTypeToString(nut) + "," + std::to_string(n->length) + ",," + mb + "\n";
    } else {
      if (!po.add_checksum) n->checksum.reset();
      s += capture([&](FILE* fp) { n->fdump(fp, o.one ? -1 : 0, po); });
      if (o.cont) { s += " contents {"; for (size_t i = 0; i < n->length; i++) { char h[8]; snprintf(h, sizeof h, " %02x", buf[n->offset + i]); s += h; if ((i + 1) % 16 == 0) s += " "; } s += " }"; }
      s += "\n";
    }
  }
  if (o.length) flush();
  rc = un ? 2 : bad ? 1 : 0; g_maybe = false;
  return s;
}
// tokens on each line: the amount of white space between them is not judged
std::string norm(const std::string& s) { std::string o; bool sp = false; for (char c : s) { if (c == ' ') { sp = true; continue; } if (sp && !o.empty() && o.back() != '\n' && c != '\n') o += ' '; sp = false; o += c; } return o; }

Bytes gen_stream(Tape& t, Opt& o, std::string& kind) {
  std::vector<Bytes> v; kind = "generated";
  auto& m = media_nals();
  if (!m.empty() && t.coin(1, 60)) { kind = "recorded"; v = m[t.below((uint32_t)m.size())]; if (v.size() > 40) v.resize(40); size_t z = 0; for (auto& b : v) { if (b.size() > 6000) b.resize(6000); z += b.size(); } }
  else v = some_nals(t, 1 + (int)t.below(t.coin(1, 10) ? 30 : 7));
  // a long unit now and then: several read buffers, more than one byte of length
  if (t.coin(1, 5)) { static const size_t z[6] = {4096, 4095, 4097, 8192, 12288, 5000}; size_t want = z[t.below(6)], have = 0; for (auto& b : v) have += b.size() + 4; Bytes f = {0x0c}; if (have + 6 < want) f.resize(want - have - 5, (uint8_t)(1 + t.below(255))); f.push_back(0x80); v.insert(v.begin() + t.below((uint32_t)v.size() + 1), f); kind += "+long"; }
  if (t.coin(1, 150)) {  // very long units
    static const size_t z[6] = {32768, 40000, 65535, 65536, 70001, 140000}; Bytes f = {(uint8_t)(t.below(2) ? 0x0c : 0x41)}; if (f[0] == 0x41 && !v.empty()) { for (auto& b : v) if (!b.empty() && ((b[0] & 31) == 1 || (b[0] & 31) == 5)) f = b; if (!f.empty() && f.back() == 0) f.push_back(0x80); } f.insert(f.end(), z[t.below(6)], (uint8_t)(4 + t.below(252))); v.insert(v.begin() + t.below((uint32_t)v.size() + 1), f); kind += "+very long"; }
  if (t.coin(1, 150) && !v.empty()) { size_t c = 100 + t.below(500); const std::vector<Bytes> u = v; while (v.size() < c) v.insert(v.end(), u.begin(), u.end()); kind += "+many"; }
  uint32_t k = t.below(10);
  Bytes buf;
  if (k < 6) { o.width = -1; buf = frame_annexb(t, v); if (t.coin(1, 10)) buf.insert(buf.begin(), t.below(4), (uint8_t)t.below(3)); if (t.coin(1, 10)) buf.insert(buf.end(), t.below(4), 0); }
  else if (k < 9) { o.width = 1 + (int)t.below(t.coin(1, 5) ? 9 : 4); size_t mx = 0; for (auto& b : v) mx = std::max(mx, b.size()); if (mx > 4000 && o.width < 2) o.width = 2; if (mx > 65535 && o.width < 3) o.width = 3; buf = frame_length(v, o.width); if (t.coin(1, 8)) buf.insert(buf.end(), 1 + t.below(5), (uint8_t)t.below(3)); }
  else { o.width = 0; buf = v.back(); kind = "single"; }
  if (t.coin(1, 6)) { mutate_n(t, buf); kind += "+mutated"; }
  if (t.coin(1, 40)) { buf = random_bytes(t); kind = "random"; }
  return buf;
}
void c15_dump(Tape& t, Info& info) {
  Opt o; std::string kind; Bytes buf = gen_stream(t, o, kind); auto args = gen_opts(t, o);
  if (o.width >= 0 || t.coin(1, 6)) { args.insert(args.begin() + t.below((uint32_t)args.size() + 1) * 0, "--nalu-length-bytes=" + std::to_string(o.width)); }
  std::string in = g_scratch + "/in.264", out = g_scratch + "/stdout", of = g_scratch + "/out.txt"; put_file(in, buf); unlink(of.c_str());
  bool from_stdin = t.coin(1, 4); uint32_t where = t.below(4);
  std::vector<std::string> argv = {g_tool}; bool first = t.below(2); if (first) { argv.push_back(t.below(2) ? "-i" : "--infile"); argv.push_back(from_stdin ? "-" : in); }
  if (where == 0) { if (t.below(2)) put_file(of, Bytes(50000, 'x')); argv.push_back(t.below(2) ? "-o" : "--outfile"); argv.push_back(of); } else if (where == 1) { argv.push_back("-o"); argv.push_back("-"); }
  argv.insert(argv.end(), args.begin(), args.end()); if (!first) { argv.push_back("-i"); argv.push_back(from_stdin ? "-" : in); }
  note(join(argv) + (from_stdin ? "< " : "with ") + kind + " input " + hex(buf, 2000));
  // an empty file is refused; empty standard input is an empty stream
  int rc; std::string want = expected(buf, o, rc); if (buf.empty() && !from_stdin) { rc = 255; want = ""; }
  if (!from_stdin) put_file(g_scratch + "/none", Bytes());
  Ran r = run_program(argv, from_stdin ? in : g_scratch + "/none", out); std::string got = r.out;
  if (where == 0) { if (!r.out.empty()) fail("output on stdout although -o was given: " + clip(r.out)); if (!get_file(of, got)) { if (rc != 255) fail("no output file was written (exit status " + std::to_string(r.rc) + ")"); got = ""; } else if (rc == 255 && got != std::string(50000, 'x')) fail("output written although the input cannot be read"); else if (rc == 255) got = ""; }
  if (r.rc != rc) fail("exit status " + std::to_string(r.rc) + ", expected " + std::to_string(rc) + " | " + clip(r.err));
  same("tool output and expected output", norm(got), norm(want));
  info.nt(fnv(buf, fnv(join(args).data(), join(args).size()))); info.label("exit " + std::to_string(rc)); info.label(o.length ? "length table" : "dump"); info.label(from_stdin ? "stdin" : "file"); info.label(o.width < 0 ? "annexb" : o.width == 0 ? "single NAL unit" : "length-framed"); info.label(kind);
  info.sample = join(args) + " -> exit " + std::to_string(rc) + " " + want.substr(0, 200);
}
void c15_exit(Tape& t, Info& info) { exit_case(t, info, t.coin(1, 4)); }
void c16_tool(Tape& t, Info& info) { exit_case(t, info, t.coin(3, 4)); }
// usage and I/O errors
void c15_errors(Tape& t, Info& info) {
  std::string in = g_scratch + "/ok.264", of = g_scratch + "/err.txt", none = g_scratch + "/none"; put_file(in, frame_annexb(t, some_nals(t, 3))); put_file(none, Bytes()); unlink(of.c_str());
  std::vector<std::string> a = {g_tool}; std::string what; bool may_create = false; std::string out = g_scratch + "/stdout";
  auto args = [&] { Opt o; for (auto& s : gen_opts(t, o)) a.push_back(s); };
  switch (t.below(10)) {
    case 0: what = "missing input"; args(); a.insert(a.end(), {"-i", g_scratch + "/nosuch", "-o", of}); break;
    case 1: what = "directory as input"; args(); a.insert(a.end(), {"-i", g_scratch, "-o", of}); break;
    case 2: what = "empty input"; args(); a.insert(a.end(), {"-i", none, "-o", of}); break;
    case 3: { what = "unknown option"; static const char* const u[5] = {"--no-such-option", "-z", "--add-nothing", "--dump-some", "-Q"}; a.insert(a.end(), {"-i", in, "-o", of, u[t.below(5)]}); args(); break; }
    case 4: { what = "bad number"; static const char* const o[2] = {"--nalu-length-bytes=", "--frames-per-second="}; static const char* const b[9] = {"abc", "4x", "-2", "99999999999", "-7", "1.5", "0x4", "99999999999999999999", "4 "}; a.insert(a.end(), {"-i", in, "-o", of, std::string(o[t.below(2)]) + b[t.below(9)]}); args(); break; }
    case 5: what = "no input"; args(); a.insert(a.end(), {"-o", of}); break;
    case 6: what = "option without its argument"; a.insert(a.end(), {"-o", of}); args(); { static const char* const u[4] = {"-i", "--infile", "--nalu-length-bytes", "--frames-per-second"}; a.insert(a.end(), {"-i", in, u[t.below(4)]}); } break;
    case 7: what = "output cannot be created"; of = g_scratch + "/nosuchdir/out"; args(); a.insert(a.end(), {"-i", in, "-o", of}); break;
    case 8: what = "output file is full"; of = "/dev/full"; a.insert(a.end(), {"-i", in, "-o", of}); args(); may_create = true; break;
    default: what = "standard output is full"; out = "/dev/full"; a.insert(a.end(), {"-i", in}); args(); may_create = true; break;
  }
  note(what + ": " + join(a));
  if (may_create) { Bytes b; std::string s; get_file(in, s); b.assign(s.begin(), s.end()); Opt o; int rc; std::string e = expected(b, o, rc); bool table = false; for (auto& x : a) { if (x == "--dump-length") table = true; if (x == "--dump-all") table = false; } if (e.empty() && !table) { info.label("nothing to write"); return; } }
  Ran r = run_program(a, none, out);
  if (r.rc != 255) fail(what + ": exit status " + std::to_string(r.rc) + ", expected 255 | " + clip(r.err));
  if (!r.out.empty()) fail(what + ": output on stdout: " + clip(r.out));
  std::string s; if (!may_create && get_file(of, s)) fail(what + ": an output file was written");
  info.nt(fnv(join(a).data(), join(a).size())); info.label(what); info.sample = what;
}

// ---------------------------------------------------------------- h264nal-split.py
void c19_split(Tape& t, Info& info) {
  RefState rs; std::vector<Bytes> v; std::vector<std::pair<int64_t, int64_t>> res; int n = 1 + (int)t.below(t.coin(1, 12) ? 40 : 9); bool sure = true, ok = true;
  // resolutions come from a few dimensions, so that they repeat and return
  GenOpt base; base.small_ids = true; base.sg.dim_hi = 1 + (int)t.below(3); bool again = t.coin(1, 3);
  std::vector<Bytes> spss;
  for (int i = 0; i < n; i++) {
    uint32_t k = t.below(10); Bytes nal; GenOpt o = base;
    if (k < 5 || rs.sps.empty()) { if (again && !spss.empty() && t.coin(1, 3)) nal = spss[t.below((uint32_t)spss.size())]; else { nal = gen_nal(t, 7, rs, o).nal; spss.push_back(nal); } }
    else if (k < 6) { o.pg.sps_ids = keys_of(rs.sps); o.pg.map_units = 8; nal = gen_nal(t, 8, rs, o).nal; }
    else if (k < 7) { o.sg.profiles = {83, 86, 100, 66}; nal = gen_nal(t, 15, rs, o).nal; }
    else if (k < 9 && !rs.pps.empty()) nal = gen_nal(t, t.below(2) ? 1 : 5, rs, o).nal;
    else nal = gen_nal(t, t.below(2) ? 6 : 12, rs, o).nal;
    if (t.coin(1, 100)) mutate(t, nal, 1);
    while (nal.size() > 1 && !nal.back()) nal.pop_back();
    RefNal r = ref_decode(nal, rs);
    if (r.opaque || r.skipped || r.v == RefNal::EITHER) sure = false;
    if (!r.hdr_ok || r.v == RefNal::REJECT) ok = false;
    if (r.hdr_ok && r.pay && r.v != RefNal::REJECT) ref_commit(r, rs);
    std::pair<int64_t, int64_t> z(-1, -1); if (r.h.nut == 7 && r.pay) if (Node* s = r.pay->find("sps_data")) resolution(*s, z.first, z.second);
    v.push_back(ref_escape(nal)); res.push_back(z);
  }
  if (t.coin(1, 60)) {  // a great many changes: two of the SPSs above, in turn
    std::vector<size_t> a; for (size_t i = 0; i < v.size(); i++) if (res[i].first >= 0 && (a.empty() || res[i] != res[a[0]])) { a.push_back(i); if (a.size() == 2) break; }
    if (a.size() == 2) { int m = t.coin(1, 6) ? 1000 + (int)t.below(40) : 90 + (int)t.below(200); for (int i = 0; i < m; i++) { size_t k = a[i & 1]; v.push_back(v[k]); res.push_back(res[k]); } info.label("many changes"); }
  }
  if (!sure) { info.label("not judged"); return; }
  // a long segment, of a size near a power of two
  size_t pad_at = v.size(), pad_to = 0; if (t.coin(1, 25)) { pad_at = t.below((uint32_t)v.size()); pad_to = ((size_t)1 << (12 + t.below(10))) + t.below(40); pad_to -= std::min<size_t>(pad_to, 20); info.label("long segment"); }
  Bytes buf; std::vector<size_t> cuts; std::pair<int64_t, int64_t> cur(-1, -1);
  for (size_t i = 0; i < v.size(); i++) {
    int z = 2 + (int)t.below(2); if (t.coin(1, 12)) z += (int)t.below(4); buf.insert(buf.end(), (size_t)z, 0); buf.push_back(1);
    if (res[i].first >= 0) { if (cur.first >= 0 && res[i] != cur) cuts.push_back(buf.size() - (z >= 3 ? 4 : 3)); cur = res[i]; }
    append(buf, v[i]);
    if (i == pad_at) { size_t start = cuts.empty() ? 0 : cuts.back(); if (buf.size() - start + 6 < pad_to) { size_t fill = pad_to - (buf.size() - start) - 5; buf.insert(buf.end(), {0, 0, 0, 1, 0x0c}); buf.insert(buf.end(), fill, 0xff); } }
  }
  if (t.coin(1, 8)) buf.insert(buf.end(), t.below(4), 0);
  std::string dir = g_scratch + "/split"; mkdir(dir.c_str(), 0777);
  auto list = [&] { std::set<std::string> f; if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') f.insert(e->d_name); closedir(d); } return f; };
  for (auto& f : list()) unlink((dir + "/" + f).c_str());
  static const char* const base_ext[4][2] = {{"foo", ".264"}, {"a.b", ".h264"}, {"noext", ""}, {"x y", ".264"}}; uint32_t nm = t.below(4); std::string b = base_ext[nm][0], ext = base_ext[nm][1], in = dir + "/" + b + ext; put_file(in, buf); put_file(g_scratch + "/none", Bytes());
  note("split " + std::to_string(cuts.size()) + " cuts expected, stream " + hex(buf, 3000));
  const char* py = getenv("PBT_PYTHON"); if (!py) py = "/usr/bin/python3";
  Ran r = run_program({py, "-S", g_repo + "/tools/h264nal-split.py", "-i", in, "--h264nal-path", g_tool}, g_scratch + "/none", g_scratch + "/stdout");
  auto files = list(); std::string now; if (!get_file(in, now) || now != std::string(buf.begin(), buf.end())) fail("the input file was changed"); files.erase(b + ext);
  if (!ok) { if (r.rc == 0) fail("the tool reports success on a stream that does not decode"); if (!files.empty()) fail("segments written for a stream that does not decode"); info.label("undecodable"); info.nt(fnv(buf)); return; }
  if (r.rc != 0) fail("exit status " + std::to_string(r.rc) + " | " + clip(r.err));
  std::vector<size_t> bounds = {0}; for (auto c : cuts) bounds.push_back(c); bounds.push_back(buf.size());
  if (cuts.empty()) { if (!files.empty()) fail("a stream with one resolution was split into " + std::to_string(files.size()) + " segments"); }
  else {
    std::string whole;
    for (size_t i = 0; i + 1 < bounds.size(); i++) {
      char x[16]; snprintf(x, sizeof x, ".%02d", (int)i + 1); std::string f = b + x + ext, s; if (!get_file(dir + "/" + f, s)) fail("segment " + f + " is missing; " + std::to_string(files.size()) + " segments written, " + std::to_string(cuts.size() + 1) + " expected");
      whole += s; if (s.size() != bounds[i + 1] - bounds[i]) fail("segment " + f + " has " + std::to_string(s.size()) + " bytes; the next resolution change is " + std::to_string(bounds[i + 1] - bounds[i]) + " bytes on");
      files.erase(f);
    }
    if (!files.empty()) fail("unexpected file " + *files.begin());
    if (whole != std::string(buf.begin(), buf.end())) fail("the segments together are not the original stream");
  }
  info.nt(fnv(buf)); info.label(cuts.empty() ? "no cut" : cuts.size() < 3 ? "1-2 cuts" : cuts.size() < 9 ? "3-8 cuts" : "9 or more cuts"); info.sample = std::to_string(cuts.size()) + " cuts in " + hex(buf, 300);
}
}  // namespace
PROP("C15", "dump", c15_dump, 30000, 400000, "a stream (generated, recorded, mutated, random or empty; Annex B, length-framed or a single NAL unit; file or standard input) and a random option list with repeats; the tool's output and exit status against the library; every case is non-trivial; distinct by (stream, options)");
PROP("C15", "exit", c15_exit, 12000, 200000, "one to six generated or broken NAL units, Annex B, length-framed or alone; exit status against the reference decoder; non-trivial: the standard leaves no verdict open; distinct by stream");
PROP("C15", "errors", c15_errors, 5000, 60000, "usage and I/O errors: missing, empty or unreadable input, unknown options, bad numbers, output that cannot be created or written; distinct by command line");
PROP("C16", "tool", c16_tool, 10000, 200000, "one to six NAL units, Annex B, length-framed or alone, most with syntax that may be unimplemented; exit status of the tool against the reference decoder; non-trivial: the standard leaves no verdict open; distinct by stream");
PROP("C19", "split", c19_split, 8000, 100000, "one to forty NAL units with SPSs over a few resolutions (1 in 60 with 90 to 1040 changes, 1 in 25 with a segment of 4 KiB to 2 MiB), mixed start codes, file names with and without extension; h264nal-split.py end to end; non-trivial: the standard leaves no verdict open; distinct by stream");
