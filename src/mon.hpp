// Monitor runtime shared by all drivers: options, counters, violations, replay files, hang and crash capture.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(undefined_behavior_sanitizer) || defined(__SANITIZE_ADDRESS__) || defined(VP_SAN)
#include <sanitizer/common_interface_defs.h>
#define VP_HAVE_SAN 1
#endif

namespace mon {
struct Opts { std::string mode, out, replay_dir, replay; uint64_t seed = 1, cases = 1000; int shard = 0, nshards = 1; bool thorough = false; };
inline Opts g;
inline std::map<std::string, uint64_t> counts;
inline std::unordered_set<uint64_t> distinct;
inline std::vector<std::string> samples;
inline std::map<std::string, std::string> fails; // key -> detail
inline uint64_t evaluations = 0;
inline char cur[8192]; // description of the running case, printed on a crash
inline char cur_path[512];

inline void count(const std::string &k, uint64_t n = 1) { counts[k] += n; }
inline uint64_t hash(std::string_view s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline void seen(std::string_view a, std::string_view b = {}) { distinct.insert(hash(b, hash(a) * 31 + 7)); }
inline std::string hexs(std::string_view b, size_t max = 3000) {
  std::string o; char t[4];
  for (size_t i = 0; i < b.size() && i < max; ++i) { std::snprintf(t, sizeof t, "%02x", (unsigned char)b[i]); o += t; }
  if (b.size() > max) o += "...";
  return o;
}
inline std::string unhex(std::string_view h) {
  std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::strtol(std::string(h.substr(i, 2)).c_str(), nullptr, 16);
  return o;
}
// the running case: what a crash or a hang is attributed to
inline void begin(const char *what, std::string_view bytes = {}) {
  int n = std::snprintf(cur, sizeof cur - 1, "%s bytes=", what);
  static const char *d = "0123456789abcdef";
  for (size_t i = 0; i < bytes.size() && n + 3 < (int)sizeof cur; ++i) { cur[n++] = d[(unsigned char)bytes[i] >> 4]; cur[n++] = d[bytes[i] & 15]; }
  cur[n] = 0;
  ++evaluations;
  alarm(40);
}
inline void raw_out(const char *s) { (void)!write(1, s, std::strlen(s)); }
inline void dump_cur(const char *why) {
  int fd = open(cur_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { (void)!write(fd, why, std::strlen(why)); (void)!write(fd, "\n", 1); (void)!write(fd, cur, std::strlen(cur)); (void)!write(fd, "\n", 1); close(fd); }
  raw_out("\nCRASHED-IN "); raw_out(cur_path); raw_out("\n");
}
inline void on_alarm(int) { dump_cur("hang"); raw_out("HANG\n"); _exit(97); }
inline void on_death() { dump_cur("sanitizer report or fatal signal"); }
inline void on_sig(int s) { dump_cur(s == SIGABRT ? "abort" : "fatal signal"); _exit(96); }

inline void fail(const std::string &key, const std::string &detail) {
  if (fails.count(key)) { count("repeated-violations"); return; }
  fails[key] = detail;
  std::string path = g.replay_dir + "/" + g.mode + "-" + std::to_string(g.shard) + "-" + std::to_string(fails.size()) + ".txt";
  if (FILE *f = std::fopen(path.c_str(), "w")) {
    std::fprintf(f, "%s\nseed=%llu shard=%d cases=%llu mode=%s\n%s\ncase: %s\n", key.c_str(), (unsigned long long)g.seed, g.shard, (unsigned long long)g.cases, g.mode.c_str(), detail.c_str(), cur);
    std::fclose(f);
  }
  std::printf("FAIL\t%s\t%s\n", key.c_str(), path.c_str());
  std::fprintf(stderr, "%s: %.1500s\n", key.c_str(), detail.c_str());
  std::fflush(stdout);
  if (fails.size() >= 25) { std::printf("TOO-MANY\n"); std::fflush(stdout); std::exit(10); }
}
inline void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s.substr(0, 600)); }
inline std::string jesc(const std::string &s) {
  std::string o; char t[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { std::snprintf(t, sizeof t, "\\u%04x", c); o += t; } else o += (char)c; }
  return o;
}
inline void write_stats() {
  if (g.out.empty()) return;
  FILE *f = std::fopen(g.out.c_str(), "w"); if (!f) return;
  std::fprintf(f, "{\"evaluations\":%llu,\"counts\":{", (unsigned long long)evaluations);
  bool first = true;
  for (auto &[k, v] : counts) { std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  std::fprintf(f, "},\"distinct\":[");
  first = true; for (uint64_t h : distinct) { std::fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 11)); first = false; }
  std::fprintf(f, "],\"samples\":[");
  first = true; for (auto &s : samples) { std::fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  std::fprintf(f, "],\"fails\":{");
  first = true; for (auto &[k, v] : fails) { std::fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(k).c_str(), jesc(v.substr(0, 800)).c_str()); first = false; }
  std::fprintf(f, "}}\n"); std::fclose(f);
}
inline int finish() { alarm(0); write_stats(); std::printf("DONE evaluations=%llu distinct=%zu fails=%zu\n", (unsigned long long)evaluations, distinct.size(), fails.size()); std::fflush(stdout); return fails.empty() ? 0 : 10; }
inline void init(int argc, char **argv) {
  g.replay_dir = ".";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--mode") g.mode = val(); else if (a == "--seed") g.seed = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") g.cases = std::strtoull(val().c_str(), nullptr, 10); else if (a == "--shard") g.shard = std::atoi(val().c_str());
    else if (a == "--nshards") g.nshards = std::atoi(val().c_str()); else if (a == "--out") g.out = val();
    else if (a == "--replay-dir") g.replay_dir = val(); else if (a == "--replay") g.replay = val(); else if (a == "--thorough") g.thorough = true;
  }
  std::snprintf(cur_path, sizeof cur_path, "%s/%s-crash-%d.txt", g.replay_dir.c_str(), g.mode.c_str(), g.shard);
  std::signal(SIGALRM, on_alarm);
#ifdef VP_HAVE_SAN
  __sanitizer_set_death_callback(on_death);
#endif
  std::signal(SIGABRT, on_sig);
#ifndef VP_HAVE_SAN
  std::signal(SIGSEGV, on_sig); std::signal(SIGBUS, on_sig); std::signal(SIGFPE, on_sig); std::signal(SIGILL, on_sig);
#endif
}
} // namespace mon
