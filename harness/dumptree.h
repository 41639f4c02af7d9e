// Text dumps read back into a tree, and compared with what was decoded.
#pragma once
#include <errno.h>

#include "decode.h"

struct DNode {
  std::string name;
  enum K { SCALAR, BLOCK } k = BLOCK;
  std::string text;                 // scalar: value tokens joined with one space
  std::vector<int64_t> nums;        // block: bare numbers in it, inner lists flattened
  std::vector<DNode> kids;
  const DNode* find(const std::string& n, size_t nth = 0) const { for (auto& c : kids) if (c.name == n && !nth--) return &c; return nullptr; }
  // tokens again, without the fields named in `drop` ("parent/field")
  void ser(std::string& o, const std::set<std::string>& drop) const {
    if (k == SCALAR) { o += name + ": " + text + " "; return; }
    o += name + " { "; for (auto v : nums) o += std::to_string(v) + " ";
    for (auto& c : kids) if (!drop.count(name + "/" + c.name)) c.ser(o, drop);
    o += "} ";
  }
};
inline std::vector<std::string> dump_tokens(const std::string& s) {
  std::vector<std::string> v; std::string w; auto end = [&] { if (!w.empty()) { v.push_back(w); w.clear(); } };
  for (char c : s) { if (c == ' ' || c == '\n' || c == '\t') end(); else if (c == '{' || c == '}') { end(); v.push_back(std::string(1, c)); } else w += c; }
  end(); return v;
}
inline bool to_num(const std::string& s, int64_t& v) { if (s.empty()) return false; char* e; errno = 0; v = strtoll(s.c_str(), &e, 0); return !*e && !errno && (isdigit((unsigned char)s[0]) || (s[0] == '-' && s.size() > 1)); }
inline void dump_block(const std::vector<std::string>& t, size_t& i, DNode& o, int depth) {
  if (depth > 60) fail("dump nests without end");
  for (;;) {
    if (i >= t.size()) { if (depth) fail("dump ends inside " + o.name); return; }
    const std::string& w = t[i]; int64_t n;
    if (w == "}") { if (!depth) fail("dump has an unmatched }"); i++; return; }
    if (w == "{") { i++; DNode in; dump_block(t, i, in, depth + 1); o.nums.insert(o.nums.end(), in.nums.begin(), in.nums.end()); continue; }
    if (w.size() > 1 && w.back() == ':') {
      DNode c; c.k = DNode::SCALAR; c.name = w.substr(0, w.size() - 1); i++;
      while (i < t.size() && t[i] != "{" && t[i] != "}" && t[i].back() != ':' && !(i + 1 < t.size() && t[i + 1] == "{")) { c.text += (c.text.empty() ? "" : " ") + t[i]; i++; }
      o.kids.push_back(c); continue;
    }
    if (i + 1 < t.size() && t[i + 1] == "{") { DNode c; c.name = w; i += 2; dump_block(t, i, c, depth + 1); o.kids.push_back(std::move(c)); continue; }
    if (to_num(w, n)) { o.nums.push_back(n); i++; continue; }
    i++;  // a remark, such as "unimplemented"
  }
}
inline DNode dump_tree(const std::string& s) { auto t = dump_tokens(s); size_t i = 0; DNode r; r.name = "top"; dump_block(t, i, r, 0); return r; }
inline std::string dump_str(const DNode& d, const std::set<std::string>& drop = {}) { std::string o; d.ser(o, drop); return o; }

template <class F> std::string capture(F f) {
  char* p = nullptr; size_t n = 0; FILE* fp = open_memstream(&p, &n);
  f(fp); fclose(fp); std::string s(p, n); free(p); return s;
}
// the one-line form has no line breaks, indented forms have the same tokens
template <class F> std::string capture_forms(F f, uint32_t which) {
  std::string one = capture([&](FILE* fp) { f(fp, -1); });
  if (one.find('\n') != std::string::npos) fail("the one-line form contains a line break: " + one.substr(0, 300));
  static const int ind[6] = {0, 1, 2, 5, 0, 9};
  std::string in = capture([&](FILE* fp) { f(fp, ind[which % 6]); });
  auto a = dump_tokens(one), b = dump_tokens(in);
  if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; fail("the one-line and the indented form differ at token " + std::to_string(i) + ": '" + (i < a.size() ? a[i] : "") + "' / '" + (i < b.size() ? b[i] : "") + "'"); }
  if (one.size() > 40 && in.find('\n') == std::string::npos) fail("the indented form has no line break");
  return one;
}

inline const DNode* dump_sub(const DNode& d, const std::string& name, const Flat& got) {
  if (auto* x = d.find(name)) return x;
  if (name == "nal_hrd_parameters") return d.find("hrd_parameters", 0);
  if (name == "vcl_hrd_parameters") return d.find("hrd_parameters", got.sub.count("nal_hrd_parameters") ? 1 : 0);
  return nullptr;
}
// every element decoded from the bitstream is in the dump, in its structure,
// with its value; whatever else is dumped of the state has the state's value
inline void check_dump(const Node* ref, const Flat& got, const DNode& d, const std::string& path) {
  std::map<std::string, int> times;
  for (auto& c : d.kids) {
    bool is_field = got.f.count(c.name) != 0;
    if (!is_field) continue;
    if (++times[c.name] > 1) fail(path + "." + c.name + ": dumped twice");
    auto& v = got.f.at(c.name);
    if (c.k == DNode::SCALAR) { int64_t n; if (!to_num(c.text, n) || v.size() != 1 || v[0] != n) fail(path + "." + c.name + ": dumped " + c.text + ", decoded " + vecstr(v)); }
    else { if (!c.kids.empty() || c.nums != v) fail(path + "." + c.name + ": dumped " + vecstr(c.nums) + ", decoded " + vecstr(v)); }
  }
  if (!ref) return;
  // values the standard infers, which the walker records although no bits are there
  auto inferred = [&](const std::string& n) {
    if (n == "chroma_format_idc") return !ref->has("bit_depth_luma_minus8");
    if (n == "num_ref_idx_l0_active_minus1" || n == "num_ref_idx_l1_active_minus1") return !ref->get("num_ref_idx_active_override_flag");
    return false;
  };
  for (auto& k : ref->kids) {
    if (k->k == Node::STRUCT) {
      auto it = got.sub.find(k->name); if (it == got.sub.end()) fail(path + "." + k->name + ": missing from the decoded state");
      const DNode* s = dump_sub(d, k->name, got);
      if (!s || s->k != DNode::BLOCK) fail(path + "." + k->name + ": structure decoded but not dumped");
      check_dump(k.get(), it->second, *s, path + "." + k->name);
      continue;
    }
    if (k->v.empty()) continue;
    const DNode* c = d.find(k->name);
    if (!c) { if (k->k == Node::SCALAR && inferred(k->name)) continue; fail(path + "." + k->name + ": in the bitstream (" + vecstr(k->v) + ") but not dumped"); }
    int64_t n;
    if (k->k == Node::SCALAR) { if (c->k != DNode::SCALAR || !to_num(c->text, n) || n != k->v[0]) fail(path + "." + k->name + ": dumped " + c->text + ", bitstream says " + std::to_string(k->v[0])); }
    else if (c->k != DNode::BLOCK || c->nums != k->v) fail(path + "." + k->name + ": dumped " + vecstr(c->nums) + ", bitstream says " + vecstr(k->v));
  }
}
