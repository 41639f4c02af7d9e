// Running programs on scratch files, and the tool's option handling as a model.
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "corpus.h"

extern char** environ;
inline void put_file(const std::string& p, const Bytes& b) { FILE* f = fopen(p.c_str(), "wb"); if (!f) throw HarnessError("cannot write " + p); if (b.size() && fwrite(b.data(), 1, b.size(), f) != b.size()) throw HarnessError("cannot write " + p); if (fclose(f)) throw HarnessError("cannot write " + p); }
inline bool get_file(const std::string& p, std::string& s) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; s.clear(); char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, k); fclose(f); return true; }
struct Ran { int rc = -1; std::string out, err; };
// rc: exit status, or 1000 + signal
inline Ran run_program(const std::vector<std::string>& argv, const std::string& in, const std::string& out, const std::string& cwd = "") {
  std::vector<char*> a; for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str())); a.push_back(nullptr);
  static const std::vector<std::string> envs = [] { std::vector<std::string> v; for (char** e = environ; *e; e++) if (strncmp(*e, "ASAN_OPTIONS", 12) && strncmp(*e, "UBSAN_OPTIONS", 13)) v.push_back(*e); v.push_back("ASAN_OPTIONS=exitcode=86:detect_leaks=0:abort_on_error=0:max_allocation_size_mb=2000:allocator_may_return_null=0"); v.push_back("UBSAN_OPTIONS=halt_on_error=1:exitcode=86"); v.push_back("PYTHONDONTWRITEBYTECODE=1"); return v; }();
  std::vector<char*> ev; for (auto& s : envs) ev.push_back(const_cast<char*>(s.c_str())); ev.push_back(nullptr);
  std::string err = g_scratch + "/stderr";
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, in.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (!cwd.empty()) posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  pid_t pid; int r = posix_spawn(&pid, a[0], &fa, nullptr, a.data(), ev.data()); posix_spawn_file_actions_destroy(&fa);
  if (r) throw HarnessError("cannot run " + argv[0]);
  int st = 0, waited = 0;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; if (w < 0 && errno != EINTR) throw HarnessError("waitpid");
    usleep(waited < 200 ? 300 : 2000);
    if (++waited > 30000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); fail("the program did not end within a minute"); }
  }
  Ran o; o.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  if (out.compare(0, 5, "/dev/")) get_file(out, o.out);
  get_file(err, o.err);
  return o;
}
inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
// picture size after cropping, from the decoded fields
inline void resolution(const Node& s, int64_t& w, int64_t& h) {
  int64_t cf = s.get("chroma_format_idc", 1), cat = s.get("separate_colour_plane_flag") ? 0 : cf, fm = s.get("frame_mbs_only_flag");
  int64_t cux = cat == 1 || cat == 2 ? 2 : 1, cuy = (cat == 1 ? 2 : 1) * (2 - fm);
  w = 16 * (s.get("pic_width_in_mbs_minus1") + 1) - cux * (s.get("frame_crop_left_offset") + s.get("frame_crop_right_offset"));
  h = 16 * (2 - fm) * (s.get("pic_height_in_map_units_minus1") + 1) - cuy * (s.get("frame_crop_top_offset") + s.get("frame_crop_bottom_offset"));
}
