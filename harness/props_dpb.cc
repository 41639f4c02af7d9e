// h264nal-dpb_parse.py, end to end, against the reference marking process of
// clauses 8.2.4 and 8.2.5 for frames.
#include "tool.h"

namespace {
struct Ref { int64_t fn; bool lt; int64_t idx; int64_t poc; };
struct MSps { uint32_t id = 0, profile = 77, l2fn = 4, poc = 0, l2poc = 4, max_ref = 1; bool planes = false, interlaced = false, gaps = false, always_zero = false; };
struct MPps { uint32_t id = 0, sps = 0, l0 = 0, l1 = 0; bool cabac = false, deblock = false, bottom = false, wp = false, redundant = false; };
struct Exp { int64_t gop, gop_frame, frame_num; uint32_t ref_idc; std::string type; std::vector<std::string> refs, p_refs; /* p_refs: list 0 made as for a P picture */ std::multiset<std::string> before, after; std::vector<std::vector<std::string>> ops; };
std::string ent(const Ref& r) { return "fn=" + std::to_string(r.fn) + (r.lt ? "/LTR[" + std::to_string(r.idx) + "]" : "/STR"); }
std::multiset<std::string> ents(const std::vector<Ref>& d) { std::multiset<std::string> s; for (auto& r : d) s.insert(ent(r)); return s; }

Bytes sps_nal(const MSps& s) {
  BitW w; w.u(8, 0x67); w.u(8, s.profile); w.u(8, 0); w.u(8, 30); w.ue(s.id);
  if (s.profile >= 100) { w.ue(s.planes ? 3 : 1); if (s.planes) w.bit(1); w.ue(0); w.ue(0); w.bit(0); w.bit(0); }
  w.ue(s.l2fn - 4); w.ue(s.poc); if (!s.poc) w.ue(s.l2poc - 4); else if (s.poc == 1) { w.bit(s.always_zero); w.se(-1); w.se(1); w.ue(1); w.se(4); }
  w.ue(s.max_ref); w.bit(s.gaps); w.ue(3); w.ue(3); w.bit(!s.interlaced); if (s.interlaced) w.bit(s.id & 1); w.bit(1); w.bit(0); w.bit(0); w.trailing(); return w.b;
}
Bytes pps_nal(const MPps& p) {
  BitW w; w.u(8, 0x68); w.ue(p.id); w.ue(p.sps); w.bit(p.cabac); w.bit(p.bottom); w.ue(0); w.ue(p.l0); w.ue(p.l1); w.bit(p.wp); w.u(2, 0); w.se(0); w.se(0); w.se(0); w.bit(p.deblock); w.bit(0); w.bit(p.redundant); w.trailing(); return w.b;
}
struct Mod { uint32_t idc, v; };
struct Pic {
  bool idr = false; uint32_t ref_idc = 0, type = 0, frame_num = 0, poc_lsb = 0, idr_id = 0; bool override_ = false; uint32_t l0 = 0, l1 = 0;
  bool rplm = false, rplm1 = false; std::vector<Mod> mods, mods1; bool no_out = false, lt_flag = false, adaptive = false; std::vector<std::vector<int64_t>> mmco;  // {op, args in coding order}
};
Bytes slice_nal(const Pic& p, const MSps& s, const MPps& pp, uint32_t first_mb, bool all_same, Tape& t, uint32_t redundant = 0, uint32_t plane = 0) {
  BitW w; w.u(8, p.ref_idc << 5 | (p.idr ? 5 : 1)); w.ue(first_mb); w.ue(p.type + (all_same ? 5 : 0)); w.ue(pp.id); if (s.planes) w.u(2, plane); w.u((int)s.l2fn, p.frame_num); if (s.interlaced) w.bit(0); if (p.idr) w.ue(p.idr_id);
  if (!s.poc) { w.u((int)s.l2poc, p.poc_lsb); if (pp.bottom) w.se((int64_t)t.below(3) - 1); }
  if (s.poc == 1 && !s.always_zero) { w.se((int64_t)t.below(3) - 1); if (pp.bottom) w.se((int64_t)t.below(3) - 1); }
  if (pp.redundant) w.ue(redundant);
  uint32_t k = p.type; if (k == 1) w.bit((int)t.below(2));
  if (k == 0 || k == 3 || k == 1) { w.bit(p.override_); if (p.override_) { w.ue(p.l0); if (k == 1) w.ue(p.l1); } }
  if (k != 2 && k != 4) { w.bit(p.rplm); if (p.rplm) { for (auto& m : p.mods) { w.ue(m.idc); w.ue(m.v); } w.ue(3); } }
  if (k == 1) { w.bit(p.rplm1); if (p.rplm1) { for (auto& m : p.mods1) { w.ue(m.idc); w.ue(m.v); } w.ue(3); } }
  if (pp.wp && (k == 0 || k == 3)) { w.ue(t.below(8)); if (!s.planes) w.ue(t.below(8)); uint32_t n = p.override_ ? p.l0 : pp.l0; for (uint32_t i = 0; i <= n; i++) { bool f = t.below(2); w.bit(f); if (f) { w.se(3); w.se(-2); } if (s.planes) continue; f = t.below(2); w.bit(f); if (f) for (int j = 0; j < 4; j++) w.se(j - 2); } }
  if (p.ref_idc) {
    if (p.idr) { w.bit(p.no_out); w.bit(p.lt_flag); }
    else { w.bit(p.adaptive); if (p.adaptive) { for (auto& m : p.mmco) for (auto v : m) w.ue((uint64_t)v); w.ue(0); } }
  }
  if (pp.cabac && k != 2 && k != 4) w.ue(t.below(3));
  w.se((int64_t)t.below(5) - 2); if (k == 3 || k == 4) { if (k == 3) w.bit((int)t.below(2)); w.se(0); }
  if (pp.deblock) { uint32_t d = t.below(3); w.ue(d); if (d != 1) { w.se(0); w.se(0); } }
  int tail = 1 + (int)t.below(12); while (tail--) w.u(8, 1 + t.below(254)); w.trailing(); return w.b;
}
void c23_dpb(Tape& t, Info& info) {
  std::vector<Bytes> v; std::vector<Exp> rows;
  std::map<uint32_t, MSps> spss; std::map<uint32_t, MPps> ppss;
  bool many = t.coin(1, 3), rare_idr = t.below(2);
  auto new_sps = [&](uint32_t id) { MSps s; s.id = id; static const uint32_t pr[6] = {66, 77, 88, 66, 100, 244}; s.profile = pr[t.below(t.coin(1, 3) ? 6 : 3)]; s.planes = s.profile == 244 && t.coin(2, 3); s.interlaced = s.profile != 66 && t.coin(1, 5); s.gaps = t.coin(1, 5); s.always_zero = t.below(2); s.l2fn = t.coin(2, 3) ? 4 : 4 + t.below(13); s.poc = t.coin(1, 4) ? 1 + t.below(2) : 0; s.l2poc = 4 + t.below(13); s.max_ref = t.coin(1, 12) ? 0 : 1 + t.below(t.coin(1, 4) ? 16 : 5); return s; };
  auto new_pps = [&](uint32_t id, const MSps& s) { MPps p; p.id = id; p.sps = s.id; p.l0 = t.below(t.coin(1, 4) ? 16 : 4); p.l1 = t.below(4); p.cabac = s.profile >= 77 && s.profile != 88 && t.below(2); p.deblock = t.below(2); p.bottom = t.coin(1, 4); p.wp = s.profile != 66 && t.coin(1, 4); p.redundant = (s.profile == 66 || s.profile == 88) && t.coin(1, 4); return p; };
  auto put_sps = [&](const MSps& s) { spss[s.id] = s; v.push_back(sps_nal(s)); };
  auto put_pps = [&](const MPps& p) { ppss[p.id] = p; v.push_back(pps_nal(p)); };
  auto filler = [&] { if (t.coin(1, 6)) { static const uint8_t k[4] = {9, 6, 12, 24}; v.push_back({k[t.below(4)], 0x10, 0x80}); } };
  uint32_t ns = many ? 1 + t.below(3) : 1;
  for (uint32_t i = 0; i < ns; i++) put_sps(new_sps(many ? t.below(32) : 0));
  uint32_t np = 0; for (auto& s : spss) { uint32_t k = 1 + (many ? t.below(2) : t.coin(1, 3)); while (k--) { put_pps(new_pps(np, s.second)); np++; } }
  MSps act; std::vector<Ref> d; int64_t prev_ref = 0, gop = 0, gop_frame = 0, max_lt = 0; /* max_long_term_frame_idx_plus1 */ uint32_t poc = 0, idr_id = 0; std::set<int64_t> pocs; bool reorder = false;
  int n = 1 + (int)t.below(t.coin(1, 3) ? 60 : 14); if (t.coin(1, 120)) { n = 200 + (int)t.below(900); rare_idr = true; } bool must_idr = true; int mm = 0, wraps = 0, dups = 0, red_pics = 0, plane_pics = 0;
  for (int i = 0; i < n; i++) {
    filler();
    Pic p; p.idr = must_idr || t.coin(1, n > 100 ? 700 : rare_idr ? 80 : 15);
    if (p.idr) {
      // parameter sets may be sent anew before an IDR picture
      if (i && many && t.coin(1, 3)) { auto it = spss.begin(); std::advance(it, t.below((uint32_t)spss.size())); MSps s = new_sps(it->first); put_sps(s); for (auto& q : ppss) if (q.second.sps == s.id) { MPps x = new_pps(q.first, s); x.sps = s.id; put_pps(x); } }
      else if (i && t.coin(1, 4)) v.push_back(sps_nal(spss[act.id]));
      auto it = spss.begin(); std::advance(it, t.below((uint32_t)spss.size())); if (i == 0 || many) act = it->second;
    } else if (t.coin(1, 15)) { std::vector<MPps> c; for (auto& q : ppss) if (q.second.sps == act.id) c.push_back(q.second); MPps x = c[t.below((uint32_t)c.size())]; if (t.below(2)) { MPps y = new_pps(x.id, act); x = y; } put_pps(x); }
    std::vector<MPps> c; for (auto& q : ppss) if (q.second.sps == act.id) c.push_back(q.second);
    const MPps pp = c[t.below((uint32_t)c.size())];
    const int64_t M = (int64_t)1 << act.l2fn, cap = std::max<int64_t>(act.max_ref, 1);
    if (i && p.idr) { gop++; } if (p.idr) { gop_frame = 0; d.clear(); max_lt = 0; poc = 0; pocs.clear(); reorder = t.below(2) && n < 300; p.idr_id = idr_id++ & 0xffff; }
    p.frame_num = p.idr ? 0 : (uint32_t)((prev_ref + 1) % M); // output order: the decoding order, or any order within a range the coded bits can tell apart
    int64_t cur_poc = 2 * (int64_t)poc++; if (!p.idr && act.l2poc > 10 && reorder) { cur_poc = 2 * (1 + (int64_t)t.below(500)); while (!pocs.insert(cur_poc).second) cur_poc = cur_poc % 1000 + 2; }
    p.poc_lsb = (uint32_t)cur_poc & ((1u << act.l2poc) - 1);
    p.ref_idc = p.idr ? 1 + t.below(3) : t.coin(3, 4) ? 1 + t.below(3) : 0;
    uint32_t k = t.below(10); if (act.profile == 77 && t.coin(1, 5)) k = 9; p.type = p.idr ? 2 : d.empty() ? 2 : k < 6 ? 0 : k < 8 ? 2 : act.profile == 88 ? (t.below(2) ? 3 : 4) : act.profile == 77 && act.poc == 0 ? 1 : 0;
    if (p.type == 1 && act.profile != 77) p.type = 0;
    Exp e; e.gop = gop; e.gop_frame = gop_frame++; e.frame_num = p.frame_num; e.ref_idc = p.ref_idc; e.before = ents(d); static const char* const tn[5] = {"P", "B", "I", "SP", "SI"}; e.type = p.idr ? "IDR" : tn[p.type];
    // reference list 0
    auto wrap = [&](const Ref& r) { return r.fn > (int64_t)p.frame_num ? r.fn - M : r.fn; };
    if (p.type == 0 || p.type == 3 || p.type == 1) {
      p.override_ = t.coin(1, 3); p.l0 = t.below(t.coin(1, 4) ? 16 : 4); p.l1 = t.below(4); size_t active = (p.override_ ? p.l0 : pp.l0) + 1;
      std::vector<const Ref*> st, lt; for (auto& r : d) (r.lt ? lt : st).push_back(&r);
      std::sort(st.begin(), st.end(), [&](const Ref* a, const Ref* b) { return wrap(*a) > wrap(*b); }); std::sort(lt.begin(), lt.end(), [](const Ref* a, const Ref* b) { return a->idx < b->idx; });
      for (size_t j = 1; j < st.size(); j++) if (st[j]->fn > st[j - 1]->fn) { wraps++; break; }
      std::vector<const Ref*> l = st; l.insert(l.end(), lt.begin(), lt.end()); l.resize(active, nullptr); std::vector<const Ref*> lp = l;
      // 8.2.4.2.3: pictures before this one in output order, nearest first, then those after it
      if (p.type == 1) { std::sort(st.begin(), st.end(), [&](const Ref* a, const Ref* b) { bool x = a->poc < cur_poc, y = b->poc < cur_poc; return x != y ? x : x ? a->poc > b->poc : a->poc < b->poc; }); l = st; l.insert(l.end(), lt.begin(), lt.end()); l.resize(active, nullptr); }
      // 8.2.4.3: insert, then drop later copies of the same picture
      auto place = [&](std::vector<const Ref*>& x, size_t j, const Ref* r) { x.push_back(nullptr); for (size_t q = x.size() - 1; q > j; q--) x[q] = x[q - 1]; x[j] = r; size_t o = j + 1; for (size_t q = j + 1; q < x.size(); q++) if (x[q] != r) x[o++] = x[q]; x.resize(active); };
      p.rplm = t.coin(1, 3);
      for (int list = 0; list < 2; list++) if (list == 0 ? p.rplm : p.type == 1 && (p.rplm1 = t.coin(1, 3))) {
        int64_t pred = p.frame_num; size_t nm = t.below((uint32_t)std::min<size_t>(list ? (p.override_ ? p.l1 : pp.l1) + 1 : active, 5) + 1); std::set<const Ref*> used;
        for (size_t j = 0; j < nm; j++) {
          const Ref& r = d[t.below((uint32_t)d.size())]; Mod m; if (!used.insert(&r).second) dups++;
          if (r.lt) { m.idc = 2; m.v = (uint32_t)r.idx; } else { bool add = t.below(2); int64_t df = ((add ? r.fn - pred : pred - r.fn) % M + M) % M; if (df == 0) df = M; m.idc = add; m.v = (uint32_t)(df - 1); pred = r.fn; }
          (list ? p.mods1 : p.mods).push_back(m); if (!list) { place(l, j, &r); place(lp, j, &r); }
        }
      }
      for (auto r : l) if (r) e.refs.push_back(ent(*r));
      for (auto r : lp) if (r) e.p_refs.push_back(ent(*r));
    }
    // marking
    std::vector<Ref> a = d;
    if (p.idr) { p.no_out = t.below(2); p.lt_flag = t.coin(1, 4); max_lt = p.lt_flag; a = {{0, p.lt_flag, 0, cur_poc}}; e.ops = {{p.lt_flag ? "LTR[0]" : "STR"}}; }
    else if (p.ref_idc) {
      int64_t nst = 0; for (auto& r : a) nst += !r.lt; bool full = (int64_t)a.size() >= cap;
      p.adaptive = (full && !nst) || t.coin(2, 5);
      if (!p.adaptive) { if (full) { size_t b = a.size(); for (size_t j = 0; j < a.size(); j++) if (!a[j].lt && (b == a.size() || wrap(a[j]) < wrap(a[b]))) b = j; a.erase(a.begin() + (long)b); } a.push_back({p.frame_num, false, 0, cur_poc}); e.ops = {{"sliding_window"}}; }
      else {
        bool self = false; int64_t sidx = 0; int64_t lt_new = max_lt; mm++;
        auto op = [&](std::vector<int64_t> o, std::vector<std::string> words) { p.mmco.push_back(o); words.insert(words.begin(), "MMCO" + std::to_string(o[0]) + ":"); e.ops.push_back(words); };
        auto num = [](const char* a1, int64_t x, const char* b1) { return a1 + std::to_string(x) + b1; };
        auto drop_st = [&](size_t j) { int64_t df = p.frame_num - wrap(a[j]); op({1, df - 1}, {num("fn=", a[j].fn, ")")}); a.erase(a.begin() + (long)j); };
        auto drop_lt = [&](size_t j) { op({2, a[j].idx}, {}); a.erase(a.begin() + (long)j); };
        auto limit = [&](int64_t m) { op({4, m}, {num("=", m - 1, "")}); lt_new = m; for (size_t j = 0; j < a.size();) if (a[j].lt && a[j].idx >= m) a.erase(a.begin() + (long)j); else j++; };
        if (t.coin(1, 12)) { op({5}, {}); a.clear(); lt_new = 0; a.push_back({0, false, 0, 0}); }
        else {
          int want = (int)t.below(4); bool had4 = false;
          if (t.coin(1, 3) && !had4) { limit(t.below((uint32_t)cap + 1)); had4 = true; }
          while (want-- && !a.empty()) {
            size_t j = t.below((uint32_t)a.size()); uint32_t what = t.below(3);
            if (a[j].lt) { if (what == 0) drop_lt(j); }
            else if (what < 2 && lt_new > 0) { int64_t ix = t.below((uint32_t)lt_new), df = p.frame_num - wrap(a[j]); op({3, df - 1, ix}, {num("fn=", a[j].fn, ")"), num("LTR[", ix, "]")}); for (size_t q = 0; q < a.size();) if (a[q].lt && a[q].idx == ix) { a.erase(a.begin() + (long)q); if (q < j) j--; } else q++; a[j].lt = true; a[j].idx = ix; }
            else drop_st(j);
          }
          if (!had4 && t.coin(1, 8)) { limit(t.below((uint32_t)cap + 1)); }
          if (lt_new > 0 && t.coin(1, 3)) { self = true; sidx = t.below((uint32_t)lt_new); }
          // room for this picture
          auto size_after = [&] { int64_t z = (int64_t)a.size(); if (self) for (auto& r : a) if (r.lt && r.idx == sidx) z--; return z + 1; };
          while (size_after() > cap) { size_t j = t.below((uint32_t)a.size()); if (a[j].lt && self && a[j].idx == sidx) { j = 0; while (a[j].lt && a[j].idx == sidx) j++; } if (a[j].lt) drop_lt(j); else drop_st(j); }
          if (self) { op({6, sidx}, {num("LTR[", sidx, "]")}); for (size_t q = 0; q < a.size();) if (a[q].lt && a[q].idx == sidx) a.erase(a.begin() + (long)q); else q++; a.push_back({p.frame_num, true, sidx, cur_poc}); }
          else a.push_back({p.frame_num, false, 0, cur_poc});
        }
        max_lt = lt_new;
      }
    }
    e.after = ents(a); rows.push_back(e);
    bool all_same = t.below(2); int k2 = t.coin(1, 4) ? 1 + (int)t.below(2) : 0;
    // one slice or more, for each colour plane; redundant coded pictures behind the primary one
    int reds = pp.redundant && t.coin(1, 2) ? 1 + (int)t.below(2) : 0; if (reds) red_pics++; if (act.planes) plane_pics++;
    for (int rd = 0; rd <= reds; rd++) for (uint32_t pl = 0; pl < (act.planes ? 3u : 1u); pl++) for (int j = 0; j <= k2; j++) if (!rd || t.coin(2, 3)) v.push_back(slice_nal(p, act, pp, 4 * (uint32_t)j, all_same, t, (uint32_t)rd, pl));
    bool five = !p.mmco.empty() && p.mmco[0][0] == 5;
    d = a; if (p.ref_idc) prev_ref = five ? 0 : p.frame_num;
    if (five) { poc = 1; pocs.clear(); }
    // a short-term frame must be gone before its frame_num comes round again
    must_idr = false; for (auto& r : d) if (!r.lt && r.fn == (prev_ref + 1) % M) must_idr = true;
  }
  filler();
  std::vector<Bytes> esc; for (auto& b : v) esc.push_back(ref_escape(b));
  bool broken = t.coin(1, 25); if (broken) { Bytes b = sps_nal(act); b.resize(4); esc.insert(esc.begin() + t.below((uint32_t)esc.size() + 1), b); }
  Bytes buf = frame_annexb(t, esc); std::string in = g_scratch + "/dpb.264", of = g_scratch + "/dpb.csv", out = g_scratch + "/stdout"; put_file(in, buf); put_file(g_scratch + "/none", Bytes()); unlink(of.c_str());
  const char* py = getenv("PBT_PYTHON"); if (!py) py = "/usr/bin/python3"; bool to_file = t.below(2);
  std::vector<std::string> argv = {py, "-S", g_repo + "/tools/h264nal-dpb_parse.py", t.below(2) ? "-i" : "--input", in, "--h264nal-path", g_tool}; if (to_file) { argv.push_back(t.below(2) ? "-o" : "--output"); argv.push_back(of); }
  note("h264nal-dpb_parse.py on " + std::to_string(rows.size()) + " pictures: " + hex(buf, 4000));
  Ran x = run_program(argv, g_scratch + "/none", out); std::string csv = x.out, f; bool wrote = get_file(of, f); if (to_file && wrote) { if (!x.out.empty()) fail("output on stdout although -o was given"); csv = f; }
  if (broken) { if (x.rc == 0) fail("the tool reports success on a stream that does not decode"); if (!csv.empty()) fail("rows written for a stream that does not decode"); info.label("undecodable"); info.nt(fnv(buf)); return; }
  if (x.rc) fail("exit status " + std::to_string(x.rc) + " | " + x.err.substr(x.err.size() > 400 ? x.err.size() - 400 : 0)); if (to_file && !wrote) fail("no output file");
  auto split = [](const std::string& s, char c) { std::vector<std::string> o; std::string w; for (char ch : s) if (ch == c) { o.push_back(w); w.clear(); } else w += ch; o.push_back(w); return o; };
  auto set = [&](const std::string& s) { std::multiset<std::string> o; if (!s.empty()) for (auto& w : split(s, ';')) o.insert(w); return o; };
  auto text = [](const std::multiset<std::string>& s) { std::string o; for (auto& w : s) o += w + " "; return o; };
  auto lines = split(csv, '\n'); if (!lines.empty() && lines.back().empty()) lines.pop_back(); if (lines.empty()) fail("no output");
  if (lines[0] != "abs_frame,gop,gop_frame,type,frame_num,nal_ref_idc,ref,refs_used,dpb_before_decode,mmco,dpb_after_mmco") fail("header line is " + lines[0]);
  eq("rows", (int64_t)lines.size() - 1, (int64_t)rows.size(), "");
  for (size_t i = 0; i < rows.size(); i++) {
    auto g = split(lines[i + 1], ','); auto& e = rows[i]; std::string at = "picture " + std::to_string(i) + " (" + lines[i + 1] + "): "; if (g.size() != 11) fail(at + std::to_string(g.size()) + " columns");
    auto col = [&](size_t k, const std::string& w, const char* nm) { if (g[k] != w) fail(at + nm + " is " + g[k] + ", expected " + w); };
    col(0, std::to_string(i), "abs_frame"); col(1, std::to_string(e.gop), "gop"); col(2, std::to_string(e.gop_frame), "gop_frame"); col(3, e.type, "type"); col(4, std::to_string(e.frame_num), "frame_num"); col(5, std::to_string(e.ref_idc), "nal_ref_idc"); col(6, e.ref_idc ? "Y" : "N", "ref");
    auto b = set(g[8]), a = set(g[10]); std::multiset<std::string> eb = e.type == "IDR" ? std::multiset<std::string>() : e.before;
    if (b != eb) fail(at + "reference pictures before decoding, expected " + text(eb)); if (a != e.after) fail(at + "reference pictures after marking, expected " + text(e.after));
    auto list = [](const std::vector<std::string>& x) { std::string w; for (auto& r : x) w += (w.empty() ? "" : ";") + r; return w; };
    if (e.type == "B" && g[7] != list(e.refs) && g[7] == list(e.p_refs)) info.label("known finding: list 0 of a B picture not in output order"); else col(7, list(e.refs), "refs_used");
    auto ops = g[9].empty() ? std::vector<std::string>() : split(g[9], ';'); if (ops.size() != e.ops.size()) fail(at + std::to_string(e.ops.size()) + " marking operations expected");
    for (size_t j = 0; j < ops.size(); j++) for (auto& w : e.ops[j]) if (ops[j].find(w) == std::string::npos) fail(at + "marking operation " + ops[j] + ", expected " + w);
  }
  info.nt(fnv(buf)); if (red_pics) info.label("redundant pictures"); if (plane_pics) info.label("separate colour planes"); if (mm) info.label("memory management operations"); if (wraps) info.label("frame_num wrapped"); if (dups) info.label("one picture twice in the list"); if (spss.size() > 1) info.label("several SPSs"); info.label(rows.size() < 5 ? "1-4 pictures" : rows.size() < 15 ? "5-14 pictures" : "15 or more pictures"); info.sample = lines.back();
}
}  // namespace
PROP("C23", "dpb", c23_dpb, 6000, 100000, "a conforming history of 1-60 (1 in 120: 200-1100) coded frames (IDR, I, P, B, SP, SI; single and several slices, redundant coded pictures, separate colour planes; frame_num wrapping; sliding window and memory management operations 1-6; list modifications; one or several parameter sets) through h264nal-dpb_parse.py, one in 25 with an SPS that cannot be decoded; every case is non-trivial; distinct by stream");
