// Property registry and per-case bookkeeping.
#pragma once
#include "core.h"

struct Info {            // what one case reports about itself
  bool nontrivial = false;
  uint64_t hash = 0;     // identity of the case (distinctness)
  std::vector<std::string> labels;
  std::string sample;    // human-readable description of the case
  void nt(uint64_t h) { nontrivial = true; hash = h; }
  void nt(const Bytes& b) { nt(fnv(b)); }
  void label(const std::string& l) { labels.push_back(l); }
};
using PropFn = void (*)(Tape&, Info&);
struct Prop {
  const char* id;
  const char* sub;       // a property may have several sub-checks
  PropFn fn;
  long quick, thorough;  // case counts
  const char* rule;      // generation + non-triviality rule
};
std::vector<Prop>& props();
struct Reg { Reg(const Prop& p) { props().push_back(p); } };
#define PROP_CAT2(a, b) a##b
#define PROP_CAT(a, b) PROP_CAT2(a, b)
#define PROP(id, sub, fn, quick, thorough, rule) static Reg PROP_CAT(reg_, __COUNTER__)(Prop{id, sub, fn, quick, thorough, rule})

extern std::string g_scratch;   // per-process scratch directory
extern std::string g_tool;      // path of the h264nal tool under test
extern std::string g_repo;      // path of the tree under test
// last thing a case says before it may crash: a description for the replay file
void note(const std::string& s);
