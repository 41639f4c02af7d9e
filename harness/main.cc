// Runner: executes cases in forked workers, shrinks failures, writes replays.
//   pbt run <prop> <tier> <seed> <jobs> <outdir> [scale]
//   pbt replay <file>
//   pbt list
#include "runner.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>

std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
std::string g_scratch, g_tool, g_repo;

namespace {
const size_t kMaxWords = 1 << 20;
struct Shm {
  volatile int64_t cur;         // index being run, -1 none
  volatile int64_t done;        // cases finished
  volatile uint32_t nwords;     // words consumed by the running case
  volatile uint32_t kind;       // 0 running, 1 Fail, 2 harness error, 3 finished
  char msg[8192];
  char note[8192];
  char sample[4096];
  uint32_t words[kMaxWords];
};
Shm* g_shm = nullptr;
std::string g_outdir;

Shm* new_shm() {
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm*)p;
}
uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a ^ (b * 0x9E3779B97F4A7C15ull); z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; return z; }
uint64_t case_seed(uint64_t seed, const Prop& p, int64_t idx) {
  uint64_t h = fnv(p.id, strlen(p.id)); h = fnv(p.sub, strlen(p.sub), h);
  return mix(mix(h, seed + 1), (uint64_t)idx + 7);
}
void arm() {  // CPU-time limit per case: a case that spins this long hangs
  struct itimerval it = {{0, 0}, {20, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}
void on_prof(int) { const char* m = "HANG: case used 20 s of CPU time\n"; snprintf(g_shm->msg, sizeof g_shm->msg, "%s", m); _exit(77); }
void silence(const std::string& log) {
  int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); close(fd); (void)log;
}
// run one case in this process; returns kind
int run_case(const Prop& p, Tape& t, Info& info) {
  g_shm->note[0] = 0; g_shm->msg[0] = 0; g_shm->kind = 0;
  arm();
  try { p.fn(t, info); }
  catch (const Fail& f) { snprintf(g_shm->msg, sizeof g_shm->msg, "%s", f.what()); g_shm->kind = 1; }
  catch (const HarnessError& f) { snprintf(g_shm->msg, sizeof g_shm->msg, "%s", f.what()); g_shm->kind = 2; }
  catch (const std::exception& f) { snprintf(g_shm->msg, sizeof g_shm->msg, "exception out of the code under test or the harness: %s", f.what()); g_shm->kind = 1; }
  if (!g_shm->kind) g_shm->kind = 3;
  return (int)g_shm->kind;
}
struct Outcome { int kind; std::string msg, note; };  // kind: 1 fail, 2 harness, 3 ok, 4 crash
std::string crash_text(int status, const std::string& logbase, pid_t pid) {
  std::string s;
  if (WIFSIGNALED(status)) s = std::string("killed by signal ") + std::to_string(WTERMSIG(status));
  else s = "exited with status " + std::to_string(WEXITSTATUS(status));
  std::ifstream f(logbase + "." + std::to_string(pid));
  std::string l; int n = 0; std::string got;
  while (std::getline(f, l) && n < 60) {
    if (l.find("ERROR:") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find(" of size ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("    #") != std::string::npos || l.find("SUMMARY") != std::string::npos) { got += "\n  " + l; n++; }
  }
  if (n > 14) { got = got.substr(0, 1800); }
  unlink((logbase + "." + std::to_string(pid)).c_str());
  return s + got;
}
Outcome run_forked(const Prop& p, const std::vector<uint32_t>& words, std::vector<uint32_t>* used, std::string* sample = nullptr) {
  Shm* save = g_shm; static Shm* mine = new_shm(); g_shm = mine;
  mine->kind = 0; mine->msg[0] = mine->note[0] = mine->sample[0] = 0; mine->nwords = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGPROF, on_prof);
    silence("");
    setpgid(0, 0);
    Tape t(words); Info info;
    int k = run_case(p, t, info);
    g_shm->nwords = (uint32_t)std::min(t.hi, kMaxWords);
    snprintf(g_shm->sample, sizeof g_shm->sample, "%s", info.sample.c_str());
    _exit(k);
  }
  int st = 0; waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) >= 1 && WEXITSTATUS(st) <= 3 && (int)mine->kind == WEXITSTATUS(st)) { o.kind = WEXITSTATUS(st); o.msg = mine->msg; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.kind = 4; o.msg = mine->msg; }
  else { o.kind = 4; o.msg = "CRASH: " + crash_text(st, g_outdir + "/san", pid); }
  o.note = mine->note;
  if (used) { *used = words; if (mine->nwords && mine->nwords < used->size()) used->resize(mine->nwords); }
  if (sample) *sample = mine->sample;
  g_shm = save;
  return o;
}
// Re-run the history of cases start, start+stride, ..., last in one process.
// For failures that need what earlier cases left behind in the process.
Outcome run_batch(const Prop& p, uint64_t seed, int64_t start, int64_t stride, int64_t last) {
  Shm* save = g_shm; Shm* m = new_shm(); g_shm = m;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGPROF, on_prof); silence("");
    int k = 3;
    for (int64_t i = start; i <= last; i += stride) { Tape t(case_seed(seed, p, i)); Info info; k = run_case(p, t, info); if (k != 3) break; }
    _exit(k);
  }
  int st = 0; waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) >= 1 && WEXITSTATUS(st) <= 3 && (int)m->kind == WEXITSTATUS(st)) { o.kind = WEXITSTATUS(st); o.msg = m->msg; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.kind = 4; o.msg = m->msg; }
  else { o.kind = 4; o.msg = "CRASH: " + crash_text(st, g_outdir + "/san", pid); }
  o.note = m->note; munmap(m, sizeof *m); g_shm = save;
  return o;
}
bool bad(const Outcome& o) { return o.kind == 1 || o.kind == 4; }

// words used by case (seed), even if it crashes
std::vector<uint32_t> words_of(const Prop& p, uint64_t seed) {
  Shm* save = g_shm; Shm* m = new_shm(); g_shm = m;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGPROF, on_prof); silence("");
    struct T : Tape { using Tape::Tape; };
    Tape t(seed); t.sink = m->words; t.sink_n = &m->nwords; t.sink_cap = kMaxWords;
    Info info; run_case(p, t, info); _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  unlink((g_outdir + "/san." + std::to_string(pid)).c_str());
  std::vector<uint32_t> w(m->words, m->words + m->nwords);
  munmap(m, sizeof *m); g_shm = save;
  return w;
}
std::vector<uint32_t> shrink(const Prop& p, std::vector<uint32_t> best, Outcome& out) {
  auto t0 = std::chrono::steady_clock::now();
  auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < 45; };
  int runs = 0;
  auto attempt = [&](std::vector<uint32_t> c) {
    if (runs++ > 6000 || !left()) return false;
    std::vector<uint32_t> used; Outcome o = run_forked(p, c, &used);
    if (!bad(o)) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    best = used; out = o; return true;
  };
  bool progress = true;
  while (progress && left() && runs < 6000) {
    progress = false;
    for (size_t k = best.size(); k >= 1; k /= 2) {          // delete blocks
      for (size_t i = 0; i + k <= best.size() && left();) {
        auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) progress = true; else i += k;
      }
    }
    for (size_t k = std::min<size_t>(best.size(), 64); k >= 1; k /= 2)  // zero blocks
      for (size_t i = 0; i + k <= best.size() && left(); i += k) {
        auto c = best; bool nz = false;
        for (size_t j = i; j < i + k; j++) { if (c[j]) nz = true; c[j] = 0; }
        if (nz && attempt(c)) progress = true;
      }
    for (size_t i = 0; i < best.size() && left(); i++) {     // minimise words
      for (uint32_t v : {1u, 2u, 3u, 5u, 8u}) { if (i >= best.size() || best[i] <= v) break; auto c = best; c[i] = v; if (attempt(c)) { progress = true; break; } }
      if (i < best.size() && best[i] > 255) { auto c = best; c[i] &= 255; if (attempt(c)) progress = true; }
    }
  }
  return best;
}
std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o;
}
void rm_rf(const std::string& d) { if (d.size() > 8 && d.find("/pbt-scratch") != std::string::npos) { std::string c = "rm -rf -- '" + d + "'"; if (system(c.c_str())) {} } }
}  // namespace

void note(const std::string& s) { if (g_shm) snprintf(g_shm->note, sizeof g_shm->note, "%s", s.c_str()); }

static int cmd_run(const std::string& id, const std::string& tier, uint64_t seed, int jobs, const std::string& out, double scale) {
  auto t0 = std::chrono::steady_clock::now();
  g_outdir = out;
  std::ostringstream js;
  int nviol = 0; bool harness_err = false; bool first = true;
  // wall-clock guard: a slow machine explores fewer cases, it does not fail
  double budget = getenv("PBT_BUDGET_S") ? atof(getenv("PBT_BUDGET_S")) : 1e9;
  int nsubs = 0; for (auto& p : props()) if (id == p.id) nsubs++;
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  Shm* stopper = new_shm();
  js << "{\"subs\":[";
  for (auto& p : props()) {
    if (id != p.id) continue;
    long n = (long)((tier == "quick" ? p.quick : p.thorough) * scale);
    if (n < 1) n = 1;
    auto s0 = std::chrono::steady_clock::now();
    double until = elapsed() + std::max(5.0, (budget - elapsed()) / nsubs); nsubs--; stopper->kind = 0;
    std::vector<pid_t> pids; std::vector<Shm*> shms; std::vector<int64_t> failed; std::map<int64_t, Outcome> first_seen; std::string herr;
    for (int j = 0; j < jobs; j++) {
      Shm* m = new_shm(); m->cur = -1; m->done = 0; shms.push_back(m);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        g_shm = m; signal(SIGPROF, on_prof); silence("");
        g_scratch = out + "/pbt-scratch-" + std::to_string(j); mkdir(g_scratch.c_str(), 0777);
        std::set<uint64_t> seen; std::map<std::string, long> labels; std::vector<std::string> samples;
        int rc = 0;
        for (int64_t i = j; i < n; i += jobs) {
          if (stopper->kind || ((m->done & 15) == 15 && elapsed() > until)) break;
          m->cur = i;
          Tape t(case_seed(seed, p, i)); Info info;
          int k = run_case(p, t, info);
          if (k == 1) { rc = 1; stopper->kind = 1; break; }
          if (k == 2) { rc = 2; break; }
          m->done = m->done + 1;
          for (auto& l : info.labels) labels[l]++;
          if (info.nontrivial && (seen.size() > 3000000 || seen.insert(info.hash).second) && samples.size() < 2 && !info.sample.empty() && t.w.size() > 8) samples.push_back(info.sample.substr(0, 900));
        }
        std::string f = out + "/" + p.id + "." + p.sub + "." + std::to_string(j) + ".cov";
        FILE* fp = fopen(f.c_str(), "w");
        for (auto& s : samples) { for (auto& ch : s) if (ch == '\n') ch = ' '; fprintf(fp, "S %s\n", s.c_str()); }
        for (auto& l : labels) fprintf(fp, "L %ld %s\n", l.second, l.first.c_str());
        for (auto h : seen) fprintf(fp, "H %llx\n", (unsigned long long)h);
        fclose(fp);
        if (!rc) m->cur = -1;
        _exit(rc == 0 ? 0 : 40 + rc);
      }
      pids.push_back(pid);
    }
    std::vector<Outcome> outs;
    for (int j = 0; j < jobs; j++) {
      int st; waitpid(pids[j], &st, 0);
      Shm* m = shms[j];
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { harness_err = true; herr = m->msg; fprintf(stdout, "HARNESS-ERROR %s/%s case %lld: %s | %s\n", p.id, p.sub, (long long)m->cur, m->msg, m->note); continue; }
      failed.push_back((int64_t)m->cur);
      Outcome& fs = first_seen[(int64_t)m->cur]; fs.kind = 1; fs.note = m->note; fs.msg = m->msg;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 41)) { fs.kind = 4; fs.msg += "CRASH: " + crash_text(st, out + "/san", pids[j]); }
    }
    std::sort(failed.begin(), failed.end());
    long done = 0; std::set<uint64_t> all; std::map<std::string, long> labels; std::vector<std::string> samples;
    for (int j = 0; j < jobs; j++) {
      done += shms[j]->done;
      std::string f = out + "/" + p.id + "." + p.sub + "." + std::to_string(j) + ".cov";
      std::ifstream in(f); std::string l;
      while (std::getline(in, l)) {
        if (l[0] == 'S') { if (samples.size() < 4) samples.push_back(l.substr(2)); }
        else if (l[0] == 'L') { char* e; long c = strtol(l.c_str() + 2, &e, 10); labels[e + 1] += c; }
        else if (l[0] == 'H') all.insert(strtoull(l.c_str() + 2, nullptr, 16));
      }
      unlink(f.c_str());
      munmap(shms[j], sizeof(Shm));
      rm_rf(out + "/pbt-scratch-" + std::to_string(j));
    }
    int shown = 0;
    g_scratch = out + "/pbt-scratch-m"; mkdir(g_scratch.c_str(), 0777);
    for (int64_t i : failed) {
      if (shown >= 2) break;
      auto w = words_of(p, case_seed(seed, p, i));
      // a failure of a concurrent case depends on the schedule: it is tried again
      // several times, and stands as seen if that schedule does not come back
      bool sched = !strncmp(p.sub, "threads", 7); int tries = sched ? 25 : 1;
      Outcome o; for (int r = 0; r < tries; r++) { o = run_forked(p, w, nullptr); if (o.kind != 3) break; }
      if (o.kind == 2) { harness_err = true; fprintf(stdout, "HARNESS-ERROR %s/%s case %lld: %s\n", p.id, p.sub, (long long)i, o.msg.c_str()); continue; }
      int64_t bstart = -1;  // >= 0: the failure needs the cases before it in the same process
      if (bad(o)) {
        w = shrink(p, w, o);
        int again = 0;
        for (int r = 0; r < 3; r++) again += bad(run_forked(p, w, nullptr));
        if (!again && !sched) { harness_err = true; fprintf(stdout, "HARNESS-ERROR %s/%s case %lld: shrunk case does not fail again\n", p.id, p.sub, (long long)i); continue; }
      } else if (sched) {
        o = first_seen[i];
      } else {
        o = run_batch(p, seed, i % jobs, jobs, i);
        if (!bad(o)) { harness_err = true; fprintf(stdout, "HARNESS-ERROR %s/%s case %lld did not reproduce\n", p.id, p.sub, (long long)i); continue; }
        bstart = i % jobs;   // shorten the history from the front
        for (int64_t k = (i - bstart) / jobs; k >= 1; k /= 2)
          while (bstart + k * jobs <= i) { Outcome q = run_batch(p, seed, bstart + k * jobs, jobs, i); if (!bad(q)) break; o = q; bstart += k * jobs; }
      }
      shown++; nviol++;
      std::string rp = out + "/../replay"; mkdir(rp.c_str(), 0777);
      std::string rf = rp + "/" + p.id + "-" + p.sub + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay";
      char real[4096]; if (realpath(rp.c_str(), real)) rf = std::string(real) + "/" + p.id + "-" + p.sub + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay";
      std::ofstream f(rf);
      f << "property " << p.id << "\nsub " << p.sub;
      if (bstart >= 0) f << "\nbatch " << seed << " " << bstart << " " << jobs << " " << i;
      else { f << "\nwords " << w.size(); for (auto x : w) f << " " << x; }
      f << "\nmessage " << jesc(o.msg) << "\nnote " << jesc(o.note) << "\n";
      f.close();
      printf("FAILURE %s/%s: %s\n  input: %s\n", p.id, p.sub, o.msg.c_str(), o.note.c_str());
      printf("VIOLATION property=%s replay=%s\n", p.id, rf.c_str());
    }
    rm_rf(g_scratch);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - s0).count();
    if (!first) js << ",";
    first = false;
    js << "{\"sub\":\"" << p.sub << "\",\"evaluations\":" << done << ",\"distinct_nontrivial\":" << all.size() << ",\"rule\":\"" << jesc(p.rule) << "\",\"wall_s\":" << wall << ",\"failures\":" << failed.size() << ",\"labels\":{";
    bool ff = true; for (auto& l : labels) { if (!ff) js << ","; ff = false; js << "\"" << jesc(l.first) << "\":" << l.second; }
    js << "},\"samples\":["; ff = true; for (auto& s : samples) { if (!ff) js << ","; ff = false; js << "\"" << jesc(s) << "\""; }
    js << "]}";
    printf("SUB %s/%s cases=%ld nontrivial=%zu wall=%.1f failures=%zu\n", p.id, p.sub, done, all.size(), wall, failed.size());
    fflush(stdout);
  }
  js << "],\"violations\":" << nviol << ",\"wall_s\":" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "}";
  std::ofstream(out + "/" + id + ".result.json") << js.str();
  if (nviol) return 1;
  return harness_err ? 3 : 0;
}
static int cmd_replay(const std::string& file) {
  std::ifstream f(file); std::string l, id, sub; std::vector<uint32_t> w; bool batch = false; uint64_t bseed = 0; int64_t ba = 0, bs = 1, bl = 0;
  while (std::getline(f, l)) {
    std::istringstream s(l); std::string k; s >> k;
    if (k == "property") s >> id; else if (k == "sub") s >> sub;
    else if (k == "batch") { batch = true; s >> bseed >> ba >> bs >> bl; }
    else if (k == "words") { size_t n; s >> n; uint32_t x; while (n-- && s >> x) w.push_back(x); }
  }
  char tmp[] = "/tmp/pbt-scratchXXXXXX"; g_outdir = mkdtemp(tmp); g_scratch = g_outdir;
  int rc = 3;
  for (auto& p : props()) if (id == p.id && sub == p.sub) {
    std::string sample;
    Outcome o;
    for (int r = 0; r < (strncmp(p.sub, "threads", 7) ? 1 : 25); r++) { o = batch ? run_batch(p, bseed, ba, bs, bl) : run_forked(p, w, nullptr, &sample); if (o.kind != 3) break; }
    printf("%s/%s: %s %s\n  input: %s\n", id.c_str(), sub.c_str(), bad(o) ? "FAILS" : o.kind == 2 ? "HARNESS-ERROR" : "passes", o.msg.c_str(), o.note.c_str());
    if (bad(o)) printf("VIOLATION property=%s replay=%s\n", id.c_str(), file.c_str());
    rc = bad(o) ? 1 : o.kind == 2 ? 3 : 0;
  }
  rm_rf(g_outdir);
  return rc;
}
extern "C" const char* __asan_default_options() { return "abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=512:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=6:symbolize=1:log_path=stderr"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=86"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=86:report_signal_unsafe=0"; }
extern "C" void __sanitizer_set_report_path(const char*);

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) {
  if (const char* e = getenv("PBT_TOOL")) g_tool = e;
  g_repo = getenv("PBT_REPO") ? getenv("PBT_REPO") : "/repo";
  std::string c = argc > 1 ? argv[1] : "";
  if (c == "list") { for (auto& p : props()) printf("%s %s %ld %ld\n", p.id, p.sub, p.quick, p.thorough); return 0; }
  if (c == "replay" && argc > 2) { __sanitizer_set_report_path("/tmp/pbt-replay-san"); return cmd_replay(argv[2]); }
  if (c == "run" && argc > 6) {
    mkdir(argv[6], 0777);
    __sanitizer_set_report_path((std::string(argv[6]) + "/san").c_str());
    return cmd_run(argv[2], argv[3], strtoull(argv[4], nullptr, 10), atoi(argv[5]), argv[6], argc > 7 ? atof(argv[7]) : 1.0);
  }
  fprintf(stderr, "usage: pbt run PROP TIER SEED JOBS OUTDIR [SCALE] | replay FILE | list\n");
  return 2;
}
#endif
