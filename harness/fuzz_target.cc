// Coverage-guided fuzzing (libFuzzer) of the same drivers as the
// property-based checks. FUZZ_MODE=robust (C01): any entry point, oracle =
// sanitizers and limits. FUZZ_MODE=diff (C11): a NAL unit history, oracle =
// the reference decoder and parameter-set maps.
#include "corpus.h"
#include "drive.h"

std::string g_scratch, g_tool, g_repo;
void note(const std::string&) {}
extern "C" size_t LLVMFuzzerMutate(uint8_t*, size_t, size_t);
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=512:quarantine_size_mb=8:malloc_context_size=4:detect_stack_use_after_return=0"; }

static bool diff_mode() { static bool d = getenv("FUZZ_MODE") && !strcmp(getenv("FUZZ_MODE"), "diff"); return d; }
static const size_t kHead = 42;  // entry, state seed, 10 control words

static void robust(const uint8_t* p, size_t n) {
  if (n < kHead) return;
  uint32_t entry = p[0] % kNumEntries; std::vector<uint32_t> w(10); memcpy(w.data(), p + 2, 40); Tape t(w);
  Bytes d(p + kHead, p + n); Pair pr;
  if (p[1]) { Tape s((uint64_t)p[1]); try { st_state(s, pr, p[1] & 1); if (p[1] & 2) st_state(s, pr, !(p[1] & 1)); } catch (const HarnessError&) {} }
  static FILE* f = fopen("/dev/null", "w"); DumpTo to; to.fp = f; to.indent = (int)(t.below(6)) - 1;
  drive_limited(d, entry, t, pr, to);
}
static void diff(const uint8_t* p, size_t n) {  // 2-byte length, NAL unit (unescaped), ...
  Pair pr; size_t i = 0;
  while (i + 2 <= n) {
    size_t z = (size_t)p[i] << 8 | p[i + 1]; i += 2; z = std::min(z, n - i); if (!z) continue;
    Bytes nal(p + i, p + i + z); i += z;
    RefNal r = ref_decode(nal, pr.ref); auto x = lib_parse(nal, &pr.lib); bool ok = check_nal(r, x.get());
    if (r.opaque) return;
    if (ok) ref_commit(r, pr.ref);
    // what is stored is what the reference has
    if (pr.lib.sps.size() != pr.ref.sps.size() || pr.lib.pps.size() != pr.ref.pps.size() || pr.lib.subset_sps.size() != pr.ref.sub.size()) fail("stored parameter sets differ from the reference");
  }
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* p, size_t n) {
  try { if (diff_mode()) diff(p, n); else robust(p, n); }
  catch (const Fail& f) { fprintf(stderr, "ORACLE: %s\n", f.what()); abort(); }
  catch (const HarnessError& f) { fprintf(stderr, "harness: %s\n", f.what()); }
  return 0;
}
static Bytes fresh(uint64_t seed) {
  Tape t(seed); Bytes o;
  if (diff_mode()) {
    StepOpt so; so.svc = t.below(2); so.broken = 10; so.unimpl = t.coin(1, 4); RefState rs; auto v = gen_seq(t, 1 + t.below(7), so, rs);
    for (auto& b : v) { if (b.size() > 2000) b.resize(2000); o.push_back((uint8_t)(b.size() >> 8)); o.push_back((uint8_t)b.size()); append(o, b); }
    return o;
  }
  uint32_t e = t.below(kNumEntries); o.push_back((uint8_t)e); o.push_back((uint8_t)t.below(t.below(2) ? 1 : 256)); for (int i = 0; i < 40; i++) o.push_back((uint8_t)t.below(256));
  std::string k; append(o, input_for(t, e, k));
  return o;
}
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* d, size_t n, size_t max, unsigned seed) {
  uint32_t k = seed % 16;
  if (k == 0 || n < 2) { Bytes f = fresh(seed * 2654435761u + 1); if (f.size() > max) f.resize(max); memcpy(d, f.data(), f.size()); return f.size(); }
  if (k == 1 && diff_mode()) { Bytes f = fresh(seed * 40503u + 7); if (n + f.size() <= max) { memcpy(d + n, f.data(), f.size()); return n + f.size(); } }
  if (k < 6 && n > kHead && !diff_mode()) { Tape t((uint64_t)seed); Bytes b(d + kHead, d + n); mutate(t, b, 0); if (b.size() + kHead > max) b.resize(max - kHead); memcpy(d + kHead, b.data(), b.size()); return kHead + b.size(); }
  if (k < 8 && diff_mode()) { Tape t((uint64_t)seed); for (int q = 0; q < 1 + (int)(seed >> 8) % 3; q++) { size_t i = 2 + t.below((uint32_t)n - 1); if (i < n) d[i] ^= (uint8_t)(1u << t.below(8)); } return n; }
  return LLVMFuzzerMutate(d, n, max);
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  g_repo = getenv("PBT_REPO") ? getenv("PBT_REPO") : "/repo";
  if (const char* dir = getenv("FUZZ_SEEDS")) {  // write a starting corpus
    for (int i = 0; i < 400; i++) { Bytes b = fresh(1000 + (uint64_t)i); if (FILE* f = fopen((std::string(dir) + "/seed" + std::to_string(i)).c_str(), "wb")) { fwrite(b.data(), 1, b.size(), f); fclose(f); } }
    exit(0);
  }
  return 0;
}
