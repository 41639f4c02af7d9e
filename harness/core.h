// Core of the property-based-testing engine: choice tape, bit strings,
// reference emulation-prevention, trace trees.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

using Bytes = std::vector<uint8_t>;

// ---------------------------------------------------------------- tape
// Every random decision is one 32-bit word on the tape. A case is fully
// determined by its tape; shrinking edits the tape; replay feeds it back.
struct Tape {
  std::vector<uint32_t> w;   // recorded (or supplied) words
  size_t pos = 0;
  size_t hi = 0;             // words needed to replay (probes may read ahead)
  bool replay = false;       // true: only supplied words, then zeros
  uint64_t s = 1;
  volatile uint32_t* sink = nullptr;   // copy of the words in shared memory
  volatile uint32_t* sink_n = nullptr;
  size_t sink_cap = 0;
  explicit Tape(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  explicit Tape(std::vector<uint32_t> words) : w(std::move(words)), replay(true) {}
  uint32_t next() {
    if (replay) { uint32_t v = pos < w.size() ? w[pos] : 0u; pos++; if (pos > hi) hi = pos; return v; }
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    uint32_t v = (uint32_t)z;
    w.push_back(v);
    if (sink && pos < sink_cap) { sink[pos] = v; if (*sink_n < pos + 1) *sink_n = (uint32_t)pos + 1; }
    pos++;
    if (pos > hi) hi = pos;
    return v;
  }
  Tape probe() const { return *this; }
  void probed(const Tape& p) { if (p.hi > hi) hi = p.hi; }
  // uniform in [0, n); small words map to small values so tapes shrink well
  uint32_t below(uint32_t n) { return n <= 1 ? 0 : next() % n; }
  uint64_t range(uint64_t lo, uint64_t hi) {  // inclusive
    if (hi <= lo) return lo;
    uint64_t span = hi - lo;
    if (span < 0xffffffffull) return lo + next() % (uint32_t)(span + 1);
    uint64_t v = ((uint64_t)next() << 32) | next();
    return span == ~0ull ? v : lo + v % (span + 1);
  }
  bool coin(uint32_t num, uint32_t den) {  // true with probability num/den
    return next() % den >= den - num;      // word 0 -> false
  }
  // boundary-biased value in [lo, hi]
  int64_t pick(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    uint32_t k = below(8);
    switch (k) {
      case 0: return lo;
      case 1: { int64_t v = lo + below(4); return v > hi ? hi : v; }
      case 2: return hi;
      case 3: { int64_t v = hi - below(3); return v < lo ? lo : v; }
      case 4: {  // small magnitude around zero / lo
        int64_t v = (int64_t)below(17) - 8;
        if (v < lo || v > hi) v = lo + below(9);
        return v > hi ? hi : v;
      }
      case 5: {  // around a power of two
        int b = below(33);
        int64_t v = (1ll << b) - 1 + (int64_t)below(3);
        if (coin(1, 3)) v = -v;
        if (v < lo || v > hi) return lo + (int64_t)range(0, (uint64_t)(hi - lo));
        return v;
      }
      default: return lo + (int64_t)range(0, (uint64_t)(hi - lo));
    }
  }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv(const Bytes& b, uint64_t h = 1469598103934665603ull) { return fnv(b.data(), b.size(), h); }

inline std::string hex(const uint8_t* p, size_t n, size_t max = 160) {
  std::string s; char t[4];
  for (size_t i = 0; i < n && i < max; i++) { snprintf(t, sizeof t, "%02x", p[i]); s += t; }
  if (n > max) s += "...(" + std::to_string(n) + " bytes)";
  return s;
}
inline std::string hex(const Bytes& b, size_t max = 160) { return hex(b.data(), b.size(), max); }

// ---------------------------------------------------------------- failure
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] inline void fail(const std::string& m) { throw Fail(m); }
#define CHECK(cond, msg) do { if (!(cond)) fail(std::string(#cond) + ": " + (msg)); } while (0)
template <class A, class B> void eq(const char* what, A a, B b, const std::string& ctx = "") {
  if ((long long)a != (long long)b)
    fail(std::string(what) + ": got " + std::to_string((long long)a) + ", expected " + std::to_string((long long)b) + (ctx.empty() ? "" : " [" + ctx + "]"));
}
// an error of the harness itself (never reported as a violation)
struct HarnessError : std::logic_error { using std::logic_error::logic_error; };

// ---------------------------------------------------------------- bits
struct BitW {
  Bytes b; size_t n = 0;
  void bit(int v) { if (n % 8 == 0) b.push_back(0); if (v) b[n / 8] |= 0x80 >> (n % 8); n++; }
  void u(int k, uint64_t v) { for (int i = k - 1; i >= 0; i--) bit((v >> i) & 1); }
  void ue(uint64_t v) { uint64_t x = v + 1; int k = 0; while (x >> (k + 1)) k++; for (int i = 0; i < k; i++) bit(0); u(k + 1, x); }
  void se(int64_t v) { ue(v > 0 ? 2 * (uint64_t)v - 1 : 2 * (uint64_t)(-v)); }
  void trailing() { bit(1); while (n % 8) bit(0); }
  void align0() { while (n % 8) bit(0); }
  bool aligned() const { return n % 8 == 0; }
};
struct EndOfData {};
struct BitR {
  const Bytes* b; size_t p = 0, end;
  explicit BitR(const Bytes& x, size_t from = 0) : b(&x), p(from), end(x.size() * 8) {}
  int peekbit(size_t i) const { return ((*b)[i / 8] >> (7 - i % 8)) & 1; }
  int bit() { if (p >= end) throw EndOfData(); int v = peekbit(p); p++; return v; }
  uint64_t u(int k) { if (end - p < (size_t)k) throw EndOfData(); uint64_t v = 0; while (k--) v = v << 1 | bit(); return v; }
  // ok=false if more than 31 leading zeros (outside what ue(v) allows here)
  uint64_t ue(bool& ok) {
    int z = 0; size_t s = p;
    ok = true;
    while (true) { if (p >= end) { p = s; throw EndOfData(); } if (bit()) break; z++; }
    if (z > 31) { ok = false; return 0; }
    if (end - p < (size_t)z) { p = s; throw EndOfData(); }
    return ((1ull << z) | u(z)) - 1;
  }
  // last one bit in the whole payload, spec 7.2 more_rbsp_data()
  bool more_rbsp_data() const {
    size_t q = end; 
    while (q > p && !peekbit(q - 1)) q--;
    if (q == p) return end > p;  // no stop bit at all: unspecified; library says "some data"
    return q - 1 > p;
  }
};
inline int64_t se_of(uint64_t k) { return (k & 1) ? (int64_t)((k + 1) / 2) : -(int64_t)(k / 2); }

// ---------------------------------------------------------------- emulation prevention (spec 7.3.1 / 7.4.1.1)
inline Bytes ref_unescape(const Bytes& in) {
  Bytes out; int zeros = 0;
  for (uint8_t c : in) {
    if (zeros >= 2 && c == 3) { zeros = 0; continue; }
    out.push_back(c);
    zeros = c == 0 ? zeros + 1 : 0;
  }
  return out;
}
inline Bytes ref_escape(const Bytes& in) {
  Bytes out; int zeros = 0;
  for (uint8_t c : in) {
    if (zeros >= 2 && c <= 3) { out.push_back(3); zeros = 0; }
    out.push_back(c);
    zeros = c == 0 ? zeros + 1 : 0;
  }
  return out;
}

// ---------------------------------------------------------------- trace tree
struct Node {
  std::string name;
  enum K { SCALAR, VEC, STRUCT } k = STRUCT;
  std::vector<int64_t> v;
  std::vector<std::unique_ptr<Node>> kids;
  Node() {}
  Node(std::string n, K kk) : name(std::move(n)), k(kk) {}
  Node* find(const char* n) const { for (auto& c : kids) if (c->name == n) return c.get(); return nullptr; }
  int64_t get(const char* n, int64_t d = 0) const { Node* x = find(n); return x && !x->v.empty() ? x->v[0] : d; }
  bool has(const char* n) const { return find(n) != nullptr; }
  std::string str() const {
    std::string s = name;
    if (k == SCALAR) return s + "=" + std::to_string(v[0]);
    if (k == VEC) { s += "=["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; if (i > 24) { s += "...(" + std::to_string(v.size()) + ")"; break; } s += std::to_string(v[i]); } return s + "]"; }
    s += "{"; for (size_t i = 0; i < kids.size(); i++) { if (i) s += " "; s += kids[i]->str(); } return s + "}";
  }
};
