// Runner shared by all monitors: deterministic cases, violation reports,
// allocation accounting / fault injection, per-case CPU watchdog, counters,
// edge coverage of the code under test, progress file for crash attribution.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <stdexcept>

namespace H {

// ---------------------------------------------------------------- random
inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> T const & pick(std::vector<T> const & v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- violations
struct Violation {
  std::string key, msg;
};

struct Ctx {
  Rng r;
  uint64_t idx = 0;
  std::string trace;
  bool verbose = false;
  std::string sample;             // description of the case (evidence)
  uint64_t sig = 0;               // signature of the case
  bool nontrivial = false;
  void log(std::string const & s) {
    if (verbose) { std::fprintf(stderr, "  . %s\n", s.c_str()); std::fflush(stderr); }
    if (trace.size() < 20000) { trace += s; trace += '\n'; }
  }
  void mark(uint64_t h) { sig = mix64(sig ^ h); nontrivial = true; }
  void mark(std::string const & s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; mark(h); }
  void count(char const * name, uint64_t n = 1);
  // reports a violation but lets the case go on (once per key and process)
  void soft(std::string const & key, std::string const & msg);
  [[noreturn]] void fail(std::string const & key, std::string const & msg) { throw Violation{key, msg}; }
  void require(bool ok, std::string const & key, std::string const & msg) { if (!ok) fail(key, msg); }
  template <class F> void require_f(bool ok, std::string const & key, F f) { if (!ok) fail(key, f()); }
};

// ---------------------------------------------------------------- allocation accounting
struct AllocState {
  std::atomic<long> live_blocks{0}, live_bytes{0};
  std::atomic<long> total_bytes{0}, total_blocks{0};
  std::atomic<long> max_request{0};
  std::atomic<long> fail_at{-1};      // countdown: the allocation that brings it to 0 fails (-1 off)
  std::atomic<long> fails{0};
  std::atomic<bool> sticky{false};    // once failed, all later ones fail too while armed
  std::atomic<bool> counting{false};
  std::atomic<long> request_cap{1L << 30}; // bigger requests throw bad_alloc
  std::atomic<long> capped{0};
};
extern AllocState A;

// property entry points, defined by each monitor
extern char const * PROPERTY;
extern char const * RULE;
void run_case(Ctx & c);                    // one case; throws Violation
uint64_t default_cases(bool thorough);     // number of cases
void monitor_setup();                      // once per process
extern bool LEAK_CHECK;                    // per-case leak accounting
extern unsigned CPU_LIMIT_S;               // per-case CPU limit

// current input, kept in the progress file so that a crash can be attributed
void set_input(void const * p, size_t n);

// edge coverage of the code under test
size_t cov_total();
size_t cov_hit();
// number of edges never seen before in this process (cheap novelty signal)
size_t cov_new();

std::string hex(void const * p, size_t n);
std::string quote(std::string const & s);
bool thorough();
} // namespace H

#define HCAT(a) (std::ostringstream() << a).str()
namespace H { inline std::string cat_(std::ostream & o) { return static_cast<std::ostringstream&>(o).str(); } }
#define STR(expr) ([&]{ std::ostringstream o_; o_.precision(17); o_ << expr; return o_.str(); }())
#define REQ(cond, key, expr) do { if (!(cond)) c.fail(key, STR(expr)); } while (0)
