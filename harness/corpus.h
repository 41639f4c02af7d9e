// Inputs for the robustness checks: generated, mutated, recorded, random.
#pragma once
#include <dirent.h>

#include <algorithm>

#include "gen.h"
#include "runner.h"

// NAL units (escaped) of the streams in media/, read once
inline const std::vector<std::vector<Bytes>>& media_nals() {
  static const std::vector<std::vector<Bytes>> all = [] {
    std::vector<std::vector<Bytes>> out; std::vector<std::string> names;
    if (DIR* d = opendir((g_repo + "/media").c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".264") names.push_back(n); } closedir(d); }
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
      Bytes b; if (FILE* f = fopen((g_repo + "/media/" + n).c_str(), "rb")) { uint8_t buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k); fclose(f); }
      std::vector<Bytes> v; size_t start = 0; bool open = false; size_t i = 0;  // own splitter
      for (; i + 2 < b.size(); i++) if (!b[i] && !b[i + 1] && b[i + 2] == 1) {
        if (open) { size_t e = i; while (e > start && b[e - 1] == 0) e--; v.push_back(Bytes(b.begin() + start, b.begin() + e)); }
        start = i + 3; open = true; i += 2;
      }
      if (open) v.push_back(Bytes(b.begin() + start, b.end()));
      if (!v.empty()) out.push_back(v);
    }
    return out;
  }();
  return all;
}
// a run of NAL units (escaped): generated or recorded
inline std::vector<Bytes> some_nals(Tape& t, int n) {
  auto& m = media_nals();
  if (!m.empty() && t.coin(1, 4)) {
    auto& v = m[t.below((uint32_t)m.size())]; std::vector<Bytes> o; size_t head = std::min<size_t>(v.size(), 6), at = t.below((uint32_t)v.size());
    for (size_t i = 0; i < head; i++) if (v[i].size() < 400) o.push_back(v[i]);   // parameter sets come first
    for (int i = 0; i < n && at + (size_t)i < v.size(); i++) { Bytes b = v[at + (size_t)i]; if (b.size() > 300) b.resize(40 + t.below(260)); o.push_back(b); }
    return o;
  }
  StepOpt so; so.svc = t.coin(1, 2); so.broken = t.coin(1, 2) ? 30 : 0; so.unimpl = t.coin(1, 3); RefState rs;
  auto v = gen_seq(t, n, so, rs); for (auto& b : v) b = ref_escape(b);
  return v;
}
inline void append(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
inline Bytes frame_annexb(Tape& t, const std::vector<Bytes>& v) { Bytes f; for (auto& n : v) { if (t.below(2)) f.push_back(0); f.push_back(0); f.push_back(0); f.push_back(1); append(f, n); } return f; }
inline Bytes frame_length(const std::vector<Bytes>& v, int w) { Bytes f; for (auto& n : v) { for (int k = w - 1; k >= 0; k--) f.push_back(k > 7 ? 0 : (uint8_t)((uint64_t)n.size() >> (8 * k))); append(f, n); } return f; }
inline Bytes random_bytes(Tape& t) {
  size_t n = t.coin(1, 40) ? 1000 + t.below(60000) : t.below(t.coin(1, 3) ? 300 : 40); Bytes b; uint32_t mode = t.below(6);
  static const uint8_t al[16] = {0, 0, 0, 1, 1, 2, 3, 3, 0x67, 0x68, 0x65, 0x41, 0xff, 0x80, 0x74, 0x6f};
  uint64_t x = ((uint64_t)t.next() << 32 | t.next()) | 1;
  for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; uint8_t r = (uint8_t)(x >> 24); b.push_back(mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? al[r & 15] : mode == 3 ? (uint8_t)(1u << (r & 7)) : r); }
  if (n && mode != 2 && t.coin(2, 3)) b[0] = (uint8_t)(t.below(4) << 5 | t.below(32));
  return b;
}
// several mutations, or none
inline void mutate_n(Tape& t, Bytes& b) { if (t.coin(1, 3)) return; int k = 1 + t.below(4); while (k-- && !b.empty()) mutate(t, b, 0); }
// bytes of the kind entry point `entry` (see drive.h) expects, usually mutated
inline Bytes input_for(Tape& t, uint32_t entry, std::string& kind) {
  if (t.coin(1, 5)) { kind = "random"; return random_bytes(t); }
  Bytes b; kind = "structured";
  switch (entry) {
    case 0: case 1: case 17: case 18: b = frame_annexb(t, some_nals(t, 1 + t.below(8))); break;
    case 2: case 3: b = frame_length(some_nals(t, 1 + t.below(8)), 1 + t.below(9)); if (t.coin(1, 6)) { int k = t.below(9); while (k--) b.push_back(t.below(2) ? 0xff : (uint8_t)t.next()); } break;
    case 7: case 8: case 9: case 10: {
      auto v = some_nals(t, 1 + t.below(4)); uint32_t k = t.below(3); if (entry == 9) k = 1; if (entry == 10) k = 2; if (entry == 8) k = 0;
      if (k == 0) b = v.back();
      else if (k == 1) { b.push_back((uint8_t)(t.below(4) << 5 | 24)); for (auto& n : v) { size_t z = n.size(); if (t.coin(1, 12)) z = t.below(70000); b.push_back((uint8_t)(z >> 8)); b.push_back((uint8_t)z); append(b, n); } }
      else { Bytes n = v.back(); uint8_t h = n.empty() ? 0 : n[0]; b = {(uint8_t)((h & 0x60) | 28), (uint8_t)(t.below(8) << 5 | (h & 31))}; if (!n.empty()) b.insert(b.end(), n.begin() + 1, n.end()); }
      break;
    }
    case 12: case 13: case 14: case 15: { Bytes n = some_nals(t, 1 + t.below(3)).back(); if (entry & 1) n = ref_unescape(n); b = n; if (!b.empty()) b.erase(b.begin()); break; }
    default: b = some_nals(t, 1 + t.below(4)).back(); break;
  }
  mutate_n(t, b);
  return b;
}
