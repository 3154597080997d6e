// Shared runtime of every harness: random source, failure reporting, evidence
// counters, watchdog. Output protocol on stdout, read by run.py:
//   VIOL <key> <tab> <message>      a property violation (process exits 1)
//   KNOWN <key> <tab> <message>     a violation run.py listed as known
//   STAT <name> <number>            evidence counter
//   SAMPLE <text>                   one executed case, written out
// State hashes are written to the file named by VT_HASHES.
#pragma once
#include <boost/segmented_tree/seq.hpp>

#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VT_ASAN 1
#endif
#endif
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vt {
using u64 = std::uint64_t;
using u32 = std::uint32_t;

// What the stack held before must not show up in new elements.
__attribute__((noinline)) inline void dirty_stack() { volatile unsigned char x[3000]; for (auto& c : x) c = 0xB7; asm volatile("" ::: "memory"); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::size_t below(std::size_t n) { return n ? static_cast<std::size_t>(next() % n) : 0; }
  std::size_t in(std::size_t lo, std::size_t hi) { return lo + below(hi - lo + 1); }
  bool one_in(std::size_t n) { return below(n) == 0; }
};

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}

// ---------------------------------------------------------------- reporting
struct Step { const char* op; long a, b, c; };
struct State {
  char unit[96] = "?";
  u64 seed = 1, scale = 1, only_case = ~0ull;
  unsigned shard = 0, shards = 1;
  u64 case_id = 0;
  Step ring[64];
  unsigned long steps = 0;
  std::map<std::string, long> ctr;
  std::unordered_set<u64> hashes;
  std::set<std::string> known;       // keys of known findings
  std::map<std::string, std::string> known_seen;
  unsigned samples = 0;
  bool dying = false;
};
inline State& st() { static State* s = new State; return *s; }

inline void step(const char* op, long a = -1, long b = -1, long c = -1) {
  State& s = st();
  s.ring[s.steps++ & 63] = Step{op, a, b, c};
}
inline long& ctr(const char* n) { return st().ctr[n]; }
#define VT_COUNT(name) do { static long& vt_c_ = ::vt::ctr(name); ++vt_c_; } while (0)
#define VT_ADD(name, k) do { static long& vt_c_ = ::vt::ctr(name); vt_c_ += static_cast<long>(k); } while (0)

inline std::string trace(unsigned n = 12) {
  State& s = st();
  std::string out;
  unsigned long lo = s.steps > n ? s.steps - n : 0;
  for (unsigned long i = lo; i < s.steps; ++i) {
    Step const& t = s.ring[i & 63];
    char b[160];
    if (t.b < 0) snprintf(b, sizeof b, "%s(%ld)", t.op, t.a);
    else if (t.c < 0) snprintf(b, sizeof b, "%s(%ld,%ld)", t.op, t.a, t.b);
    else snprintf(b, sizeof b, "%s(%ld,%ld,%ld)", t.op, t.a, t.b, t.c);
    if (!out.empty()) out += "; ";
    out += b;
  }
  return out;
}
inline void flush_stats() {
  State& s = st();
  for (auto const& k : s.ctr) printf("STAT %s %ld\n", k.first.c_str(), k.second);
  for (auto const& k : s.known_seen) printf("KNOWN %s\t%s\n", k.first.c_str(), k.second.c_str());
  if (char const* f = getenv("VT_HASHES"))
    if (FILE* h = fopen(f, "wb")) {
      unsigned long n = 0;
      for (u64 v : s.hashes) { if (n++ == 300000) break; fwrite(&v, 8, 1, h); }
      fclose(h);
    }
  fflush(stdout);
}
struct KnownFinding {};
[[noreturn]] inline void report(const char* key, std::string const& msg) {
  State& s = st();
  s.dying = true;
  printf("VIOL %s\tunit=%s seed=%llu shard=%u/%u case=%llu after %lu steps: %s | last steps: %s\n", key, s.unit,
         (unsigned long long)s.seed, s.shard, s.shards, (unsigned long long)s.case_id, s.steps,
         msg.c_str(), trace().c_str());
  flush_stats();
  _Exit(1);
}
[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(const char* key, const char* fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  report(key, b);
}
#define VT_CHECK(cond, key, ...) do { if (__builtin_expect(!(cond), 0)) ::vt::fail(key, __VA_ARGS__); } while (0)

inline void on_death(const char* what) {
  State& s = st();
  if (s.dying) return;
  s.dying = true;
  printf("VIOL %s\tunit=%s seed=%llu shard=%u/%u case=%llu after %lu steps | last steps: %s\n", what, s.unit,
         (unsigned long long)s.seed, s.shard, s.shards, (unsigned long long)s.case_id, s.steps, trace().c_str());
  fflush(stdout);
}
inline void on_sanitizer() { on_death("sanitizer-report"); }
inline void on_signal(int sig) {
  on_death(sig == SIGPROF ? "does-not-terminate" : sig == SIGABRT ? "abort" : "crash");
  _Exit(sig == SIGPROF ? 3 : 1);
}
// CPU-time watchdog, per case: far above any legitimate case (run.py repeats
// the run before it believes the watchdog).
inline void watchdog(unsigned cpu_seconds = 90) {
  itimerval t{};
  t.it_value.tv_sec = cpu_seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}
inline void begin_case(u64 id) {
  st().case_id = id;
  st().steps = 0;
  VT_COUNT("cases");
  watchdog();
}
inline void sample(std::string const& text) {
  if (st().samples < 3) { ++st().samples; printf("SAMPLE %s\n", text.c_str()); }
}
inline bool my_case(u64 id) {
  State& s = st();
  if (s.only_case != ~0ull) return id == s.only_case;
  return id % s.shards == s.shard;
}
inline u64 case_seed(u64 id) {
  u64 h = mix(st().seed, 77);
  for (const char* p = st().unit; *p; ++p) h = mix(h, (unsigned char)*p);
  return mix(h, id);
}
inline void saw(u64 h) { auto& s = st().hashes; if (s.size() < 400000) s.insert(h); }

inline void init(int argc, char** argv, const char* unit) {
  State& s = st();
  snprintf(s.unit, sizeof s.unit, "%s", unit);
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    u64 v = strtoull(argv[i + 1], nullptr, 10);
    if (k == "--seed") s.seed = v;
    else if (k == "--scale") s.scale = v;
    else if (k == "--shard") s.shard = (unsigned)v;
    else if (k == "--shards") s.shards = (unsigned)v;
    else if (k == "--case") s.only_case = v;
    else if (k == "--known") {
      std::string t = argv[i + 1], c;
      for (char ch : t + ",") { if (ch == ',') { if (!c.empty()) s.known.insert(c); c.clear(); } else c += ch; }
    } else { fprintf(stderr, "unknown option %s\n", k.c_str()); exit(2); }
  }
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_sanitizer);
#ifndef VT_ASAN
  signal(SIGSEGV, on_signal);
  signal(SIGBUS, on_signal);
  signal(SIGFPE, on_signal);
  signal(SIGILL, on_signal);
#endif
  signal(SIGABRT, on_signal);
  signal(SIGPROF, on_signal);
}
inline int finish() {
  watchdog(0);
  flush_stats();
  return 0;
}
}  // namespace vt
