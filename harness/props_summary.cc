// h264nal-conformance.py, end to end: one CSV row per stream.
#include "tables.h"
#include "tool.h"

namespace {
std::vector<std::vector<std::string>> read_csv(const std::string& s) {
  std::vector<std::vector<std::string>> rows; std::vector<std::string> row; std::string f; bool q = false, any = false;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (q) { if (c != '"') f += c; else if (i + 1 < s.size() && s[i + 1] == '"') { f += '"'; i++; } else q = false; continue; }
    if (c == '"') { q = true; any = true; } else if (c == ',') { row.push_back(f); f.clear(); any = true; }
    else if (c == '\r') {} else if (c == '\n') { if (any || !f.empty()) { row.push_back(f); rows.push_back(row); } row.clear(); f.clear(); any = false; }
    else { f += c; any = true; }
  }
  if (q) fail("the CSV ends inside a quoted field"); if (any || !f.empty()) { row.push_back(f); rows.push_back(row); }
  return rows;
}
struct Row { std::string dir, file, resolution, profile, level; long nalus = 0, slices = 0, headers = 0; int status = 0; /* exit status; -1: cannot be run, -2: any failure */ bool judge_profile = true, judge_level = true; };
void add_unique(std::string& list, const std::string& v, std::vector<std::string>& seen) { for (auto& s : seen) if (s == v) return; seen.push_back(v); if (seen.size() > 1) list += ";"; list += v; }

// a stream and the row it must give
Bytes gen_file(Tape& t, Row& row) {
  RefState rs; std::vector<Bytes> v, seen; std::vector<std::string> res, prof, lev; int n = 1 + (int)t.below(t.coin(1, 8) ? 25 : 8); GenOpt base; base.small_ids = true; base.sg.dim_hi = 1 + (int)t.below(4);
  StepOpt so; so.svc = t.coin(1, 2); so.broken = t.coin(1, 2) ? 0 : 12; so.unimpl = t.coin(1, 8); bool un = false, bad = false;
  for (int i = 0; i < n; i++) {
    Bytes nal;
    if (t.coin(1, 3)) { GenOpt o = base; bool sub = so.svc && t.coin(1, 3); if (sub) o.sg.profiles = {83, 86, 66, 100}; nal = gen_nal(t, sub ? 15 : 7, rs, o).nal; if (nal.size() > 3 && t.below(2)) { static const uint8_t l[12] = {9, 10, 11, 12, 13, 20, 22, 30, 41, 51, 62, 11}; nal[3] = l[t.below(12)]; if (t.below(2)) nal[2] ^= 0x10; } }
    else { Step s = gen_step(t, rs, seen, so); nal = s.nal; }
    if (nal.size() < 2) nal = {0x09, 0x10}; while (nal.size() > 1 && !nal.back()) nal.pop_back();
    RefNal r = ref_decode(nal, rs);
    if (r.opaque || r.skipped || r.v == RefNal::EITHER) continue;   // verdicts the standard leaves open
    if (r.h.nut == 15 && r.hdr_ok) { uint32_t p = r.sub.sps.profile_idc; if (p != 83 && p != 86 && p != 66 && p != 77 && p != 100 && p != 244) continue; }
    un |= r.unimpl; bad |= !r.hdr_ok || r.v == RefNal::REJECT; bool got = r.hdr_ok && r.pay && r.v != RefNal::REJECT;
    if (got) ref_commit(r, rs);
    if (r.hdr_ok) { row.nalus++; bool sl = r.h.nut == 1 || r.h.nut == 5 || r.h.nut == 20; row.slices += sl; row.headers += sl && got; }
    if (got && (r.h.nut == 7 || r.h.nut == 15)) {
      Node* sps = r.pay->find("sps_data"); if (!sps) if (Node* sub = r.pay->find("subset_sps")) sps = sub->find("sps_data"); if (!sps) throw HarnessError("no sps_data in the reference trace");
      const SpsM& m = r.h.nut == 7 ? r.sps : r.sub.sps; int64_t lv = sps->get("level_idc"); int64_t w, h; resolution(*sps, w, h);
      if (w > 0 && h > 0) add_unique(row.resolution, std::to_string(w) + "x" + std::to_string(h), res); else add_unique(row.resolution, "-1x-1", res);
      int ty; const char* nm = ref_profile_name(m.profile_idc, m.cs, ty); add_unique(row.profile, nm, prof);
      uint32_t p = m.profile_idc; bool high = p == 44 || p == 100 || p == 110 || p == 122 || p == 244, low = p == 66 || p == 77 || p == 88, b = high ? lv == 9 : lv == 11 && m.cs[3];
      if (!high && !low && (lv == 9 || (lv == 11 && m.cs[3]))) row.judge_level = false;
      add_unique(row.level, b ? "1b" : std::to_string(lv / 10) + "." + std::to_string(lv % 10), lev);
    }
    v.push_back(ref_escape(nal)); seen.push_back(nal);
    // a long stream: the same unit many times (a unit sent again decodes the same, and changes nothing)
    if (i + 1 == n && t.coin(1, 30) && r.hdr_ok) { long k = 50 + (long)t.below(1500), sl = r.h.nut == 1 || r.h.nut == 5 || r.h.nut == 20; row.nalus += k; row.slices += k * sl; row.headers += k * (sl && got); while (k--) v.push_back(ref_escape(nal)); }
  }
  if (v.empty()) { v.push_back({0x09, 0x10}); row.nalus = 1; }
  row.status = un ? 2 : bad ? 1 : 0;
  return frame_annexb(t, v);
}
void c22_rows(Tape& t, Info& info) {
  std::string top = g_scratch + "/conf"; mkdir(top.c_str(), 0777); put_file(g_scratch + "/none", Bytes());
  static const char* const dirs[3] = {"one", "two.d", "with, comma"}; for (auto d : dirs) mkdir((top + "/" + d).c_str(), 0777);
  static const char* const names[13] = {"a.264", "b, c.h264", "q\"uote.264", "noext", "x y.jsv", "d;e.26l", "bits", "\xc3\xbc.264", "-dash.264", ".hidden", "two\nlines.264", "\xff\xfe.264", "0"};
  std::string cwd; if (t.coin(1, 3)) cwd = top + "/" + dirs[t.below(3)];
  std::vector<Row> rows; std::vector<std::string> args; std::string log; uint32_t nf = 1 + t.below(t.coin(1, 30) ? 30 : 3); uint64_t h = 1; std::set<std::string> used;
  for (uint32_t i = 0; i < nf; i++) {
    Row r; r.dir = dirs[t.below(3)]; r.file = names[t.below(t.coin(1, 3) ? 13 : 7)]; std::string path = top + "/" + r.dir + "/" + r.file;
    auto arg = [&](const std::string& f) { std::string d = top + "/" + r.dir; if (cwd.empty() || t.below(3) == 0) return d + "/" + f; if (cwd == d) return (t.below(2) ? "" : "./") + f; return "../" + r.dir + "/" + f; };  // from the current directory
    if (t.coin(1, 12)) { args.push_back(top + "/" + r.dir); continue; }           // directories are skipped
    if (t.coin(1, 25)) { r.file = "nosuch"; r.status = -2; if (t.coin(1, 4)) r.file += "\xe9"; args.push_back(arg(r.file)); rows.push_back(r); continue; }
    if (!used.insert(path).second) { continue; }
    Bytes b; if (t.coin(1, 30)) r.status = -2; else b = gen_file(t, r);  /* an empty file cannot be read */ put_file(path, b); h = fnv(b, h); log += r.dir + "/" + r.file + ": " + hex(b, 1500) + "; "; args.push_back(arg(r.file)); rows.push_back(r);
  }
  if (args.empty()) return;
  std::string tool = g_tool, out = g_scratch + "/stdout", of = g_scratch + "/conf.csv"; unlink(of.c_str()); int fake = -1; bool slow = false;
  // a tool that cannot be started, dies, or complains: never a clean row
  if (t.coin(1, 12)) {
    fake = (int)t.below(5); tool = g_scratch + "/fake"; std::string s = "#!/bin/sh\n";
    if (fake == 0) { unlink(tool.c_str()); tool = g_scratch + "/nosuchtool"; } else if (fake == 1) s += "exec '" + g_tool + "' \"$@\" 2>/dev/null; exit 0\n"; else if (fake == 2) s += "'" + g_tool + "' \"$@\" 2>/dev/null\nkill -9 $$\n"; else if (fake == 3) s += "'" + g_tool + "' \"$@\" 2>/dev/null\necho odd >&2\nexit 0\n"; else s += "'" + g_tool + "' \"$@\" 2>/dev/null\nexit 7\n";
    if (fake == 2 && t.coin(1, 4)) { slow = true; s = "#!/bin/sh\nexec sleep 40\n"; }  // does not end in the time allowed
    if (fake) { put_file(tool, Bytes(s.begin(), s.end())); chmod(tool.c_str(), 0755); }
    if (fake != 1) for (auto& r : rows) { r.status = fake == 0 ? -1 : -2; if (fake == 0 || slow) { std::string d = r.dir, f = r.file; r = Row(); r.dir = d; r.file = f; r.status = -1; } }
  }
  const char* py = getenv("PBT_PYTHON"); if (!py) py = "/usr/bin/python3";
  std::vector<std::string> argv = {py, "-S", g_repo + "/tools/h264nal-conformance.py", "--h264nal", tool}; bool to_file = t.below(2); if (to_file) { argv.push_back(t.below(2) ? "-o" : "--output"); argv.push_back(of); } if (t.below(2)) argv.push_back(t.below(2) ? "-q" : "--quiet"); if (slow) { argv.push_back("--timeout"); argv.push_back("1"); } argv.push_back("--"); argv.insert(argv.end(), args.begin(), args.end());
  note("h264nal-conformance.py on " + log);
  Ran x = run_program(argv, g_scratch + "/none", out, cwd); if (x.rc) fail("exit status " + std::to_string(x.rc) + " | " + x.err.substr(0, 300));
  std::string csv = x.out; if (to_file) { if (!x.out.empty()) fail("output on stdout although -o was given"); if (!get_file(of, csv)) fail("no output file"); }
  auto got = read_csv(csv); static const char* const cols[10] = {"input_dir", "input_file", "resolution", "profile", "level", "number_of_nalus", "number_of_slice_nalus", "number_of_slice_header_nalus", "h264nal_status", "slice_header_status"};
  if (got.empty() || got[0] != std::vector<std::string>(cols, cols + 10)) fail("the header line is not the ten column names: " + csv.substr(0, 300));
  eq("rows", (int64_t)got.size() - 1, (int64_t)rows.size(), csv.substr(0, 400));
  bool clean = true;
  for (size_t i = 0; i < rows.size(); i++) {
    auto& g = got[i + 1]; auto& r = rows[i]; if (g.size() != 10) fail("row with " + std::to_string(g.size()) + " columns");
    auto col = [&](int k, const std::string& want) { if (g[(size_t)k] != want) fail(std::string(cols[k]) + " of " + r.dir + "/" + r.file + " is '" + g[(size_t)k] + "', expected '" + want + "'"); };
    col(0, r.dir); col(1, r.file); col(2, r.resolution); if (r.judge_profile) col(3, r.profile); if (r.judge_level) col(4, r.level);
    col(5, std::to_string(r.nalus)); col(6, std::to_string(r.slices)); col(7, std::to_string(r.headers));
    const std::string& st = g[8]; std::string head = st.substr(0, st.find(';'));
    if (r.status == 0) { if (st != "0") fail("a stream that decodes completely has status '" + st.substr(0, 200) + "'"); }
    else { clean = false; if (st == "0") fail("a stream with exit status " + std::to_string(r.status) + " is reported as clean"); bool inv = head.find("invalid") != std::string::npos, uni = head.find("unimplemented") != std::string::npos; if (r.status == 1 && (!inv || uni)) fail("status of a broken stream: '" + st.substr(0, 200) + "'"); if (r.status == 2 && (inv || !uni)) fail("status of a stream with unimplemented syntax: '" + st.substr(0, 200) + "'"); }
    std::string frac = std::to_string(r.headers) + "/" + std::to_string(r.slices);
    if (r.headers == r.slices) col(9, "0"); else { clean = false; if (g[9] == "0" || (" " + g[9]).find(" " + frac) == std::string::npos) fail("slice_header_status is '" + g[9] + "', expected " + frac); }
    info.label("status " + std::to_string(r.status)); if (r.headers != r.slices) info.label("slice headers missing"); if (!r.resolution.empty()) info.label(r.resolution.find(';') == std::string::npos ? "one resolution" : "several resolutions"); if (r.level.find("1b") != std::string::npos && r.judge_level) info.label("level 1b");
  }
  (void)clean; if (fake >= 0) info.label(slow ? "tool does not end" : "stand-in tool " + std::to_string(fake));
  if (!rows.empty()) info.nt(h + (uint64_t)(fake + 1)); info.sample = csv.substr(std::min(csv.size(), csv.find('\n') + 1), 300);
}
}  // namespace
PROP("C22", "rows", c22_rows, 5000, 80000, "one to three, rarely up to 30, files (1-25 generated NAL units, rarely up to 1500 more with repeated and changing SPSs, SVC, broken and unimplemented ones; directories, empty and missing files; awkward names, absolute and relative paths) through h264nal-conformance.py, sometimes with a tool that cannot start, dies or complains; non-trivial: at least one row; distinct by stream bytes");
