#include "h.hh"
#include <ctime>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <typeinfo>
#include <cxxabi.h>

#if defined(__has_feature)
#  if __has_feature(thread_sanitizer)
#    define H_TSAN 1
#  endif
#endif

extern "C" int __llvm_profile_write_file(void) __attribute__((weak));
namespace H {
AllocState A;
unsigned char FILL = 0xA5; bool FILL_ON = false;

static std::map<std::string, uint64_t> g_counts;
void Ctx::count(char const * name, uint64_t n) { g_counts[name] += n; }

struct Progress {
  volatile uint64_t idx;
  volatile uint64_t state;      // 0 idle, 1 in a case, 2 done
  volatile uint64_t input_len;
  volatile uint64_t hang;
  unsigned char input[1 << 20];
};
static Progress * g_prog = nullptr;
void set_input(void const * p, size_t n) {
  if (!g_prog) return;
  if (n > sizeof(g_prog->input)) n = sizeof(g_prog->input);
  if (n) std::memcpy(g_prog->input, p, n);
  g_prog->input_len = n;
}

std::string hex(void const * p, size_t n) {
  static char const * d = "0123456789abcdef";
  std::string s;
  auto q = static_cast<unsigned char const *>(p);
  for (size_t i = 0; i < n; ++i) { s += d[q[i] >> 4]; s += d[q[i] & 15]; }
  return s;
}
std::string quote(std::string const & s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
    else if (ch < 32 || ch > 126) { char b[8]; std::snprintf(b, 8, "\\x%02x", ch); o += b; }
    else o += char(ch);
  }
  return o + "\"";
}
static bool g_thorough = false;
bool thorough() { return g_thorough; }

static void on_alarm(int) {
  if (g_prog) g_prog->hang = 1;
  _exit(77);
}
static void arm(unsigned s) {
  itimerval t{}; t.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &t, nullptr);
}
} // namespace H

// ---------------------------------------------------------------- coverage
static std::vector<std::pair<char *, char *>> & cov_ranges() { static auto * v = new std::vector<std::pair<char *, char *>>; return *v; }
extern "C" __attribute__((no_sanitize("all")))
void __sanitizer_cov_8bit_counters_init(char * b, char * e) {
  for (auto & p : cov_ranges()) if (p.first == b) return;
  cov_ranges().push_back({b, e});
}
extern "C" void __sanitizer_cov_pcs_init(uintptr_t const *, uintptr_t const *) {}
static std::vector<unsigned char> g_seen;
namespace H {
size_t cov_total() { size_t n = 0; for (auto & p : cov_ranges()) n += size_t(p.second - p.first); return n; }
static __attribute__((no_sanitize("all"))) size_t cov_collect() {
  if (g_seen.empty()) g_seen.assign(cov_total(), 0);
  size_t k = 0, fresh = 0;
  for (auto & p : cov_ranges())
    for (char * q = p.first; q < p.second; ++q, ++k)
      if (*q) {
        unsigned char bucket = 0, v = (unsigned char)*q;
        bucket = v == 1 ? 1 : v == 2 ? 2 : v < 4 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
        if (!(g_seen[k] & bucket)) { g_seen[k] |= bucket; ++fresh; }
        *q = 0;
      }
  return fresh;
}
size_t cov_new() { return cov_collect(); }
size_t cov_hit() { cov_collect(); size_t n = 0; for (auto b : g_seen) n += b != 0; return n; }
} // namespace H

// ---------------------------------------------------------------- operator new
#ifndef H_TSAN
#include <malloc.h>
#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    include <sanitizer/allocator_interface.h>
#    define H_ASAN 1
#  endif
#endif
static std::size_t h_size(void * p) {
#ifdef H_ASAN
  return __sanitizer_get_ownership(p) ? __sanitizer_get_allocated_size(p) : 0; // not owned: std::free below reports it
#else
  return malloc_usable_size(p);
#endif
}
static void * h_alloc(std::size_t n) {
  auto & A = H::A;
  if (A.counting.load(std::memory_order_relaxed)) {
    A.total_bytes += long(n); A.total_blocks++;
    if (long(n) > A.max_request) A.max_request = long(n);
    if (long(n) > A.request_cap || long(n) < 0) { A.capped++; throw std::bad_alloc(); }
    long f = A.fail_at.load(std::memory_order_relaxed);
    if (f >= 0) {
      if (f == 0) { A.fails++; if (!A.sticky) A.fail_at = -1; throw std::bad_alloc(); }
      A.fail_at = f - 1;
    }
  }
  void * p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (H::FILL_ON) std::memset(p, H::FILL, n);
  A.live_blocks++; A.live_bytes += long(h_size(p));
  return p;
}
static void h_free(void * p) {
  if (!p) return;
  auto & A = H::A;
  A.live_blocks--; A.live_bytes -= long(h_size(p));
  std::free(p);
}
void * operator new(std::size_t n) { return h_alloc(n); }
void * operator new[](std::size_t n) { return h_alloc(n); }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { try { return h_alloc(n); } catch (...) { return nullptr; } }
void * operator new[](std::size_t n, std::nothrow_t const &) noexcept { try { return h_alloc(n); } catch (...) { return nullptr; } }
void operator delete(void * p) noexcept { h_free(p); }
void operator delete[](void * p) noexcept { h_free(p); }
void operator delete(void * p, std::size_t) noexcept { h_free(p); }
void operator delete[](void * p, std::size_t) noexcept { h_free(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { h_free(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { h_free(p); }
#endif

// ---------------------------------------------------------------- main
using namespace H;

struct Found { uint64_t idx; std::string key, msg, trace; };
static std::vector<Found> g_soft;
void H::Ctx::soft(std::string const & key, std::string const & msg) { count("soft"); for (auto & f : g_soft) if (f.key == key) return; g_soft.push_back(Found{idx, key, msg, trace}); }

static bool one(uint64_t seed, uint64_t idx, bool verbose, Ctx & c, Found & f) {
  c = Ctx();
  c.idx = idx; c.verbose = verbose;
  uint64_t ph = 0; for (char const * p = PROPERTY; *p; ++p) ph = ph * 131 + (unsigned char)*p;
  c.r = Rng(mix64(mix64(seed) ^ mix64(idx * 2 + 1) ^ mix64(ph << 20)));
  c.trace.reserve(24000); c.sample.reserve(4000);
  try { run_case(c); return false; }
  catch (Violation const & v) { f = Found{idx, v.key, v.msg, c.trace}; return true; }
  catch (std::exception const & e) {
    int st = 0; char * dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    f = Found{idx, "unexpected-exception", std::string("an operation that has to succeed threw ") + (dn ? dn : "?") + ": " + e.what(), c.trace};
    std::free(dn);
    return true;
  }
}

int main(int argc, char ** argv) {
  uint64_t seed = 1, shard = 0, shards = 1, cases = 0, from = 0; long long only = -1;
  std::string progress, result; bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--shard") shard = std::stoull(val());
    else if (a == "--shards") shards = std::stoull(val());
    else if (a == "--from") from = std::stoull(val());
    else if (a == "--cases") cases = std::stoull(val());
    else if (a == "--only") only = std::stoll(val());
    else if (a == "--progress") progress = val();
    else if (a == "--result") result = val();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--cpu") CPU_LIMIT_S = unsigned(std::stoul(val()));
    else if (a == "-v") verbose = true;
    else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) { perror("progress"); return 3; }
    g_prog = static_cast<Progress *>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  signal(SIGPROF, on_alarm);
  if (!cases) cases = default_cases(g_thorough);
  monitor_setup();
  std::unordered_set<uint64_t> sigs;
  std::vector<Found> found;
  std::vector<std::string> samples;
  uint64_t done = 0, nontrivial = 0;
  Ctx c; Found f;
  auto step = [&](uint64_t idx) {
    if (g_prog) { g_prog->idx = idx; g_prog->input_len = 0; g_prog->state = 1; }
    arm(CPU_LIMIT_S); clock_t t0 = clock();
    c.count("__warm", 0);
    c = Ctx(); f = Found();
    long b0 = A.live_blocks, y0 = A.live_bytes;
    bool bad = one(seed, idx, verbose, c, f);
    long held = 0;
    if (!bad && LEAK_CHECK) {
      // what the context itself holds does not count
      std::string sample = c.sample; uint64_t sig = c.sig; bool nt = c.nontrivial;
      c = Ctx(); long b1 = A.live_blocks;
      // sample holds at most one block
      held = b1 - b0 - (sample.capacity() > 15 ? 1 : 0);
      if (held > 0) {
        // may be a one-time cache of the library or of the monitor: only growth in every one of three repetitions is a leak
        bool leak = true;
        long y1 = A.live_bytes; (void)y0;
        for (int rep = 0; rep < 3 && leak; ++rep) {
          long bb = A.live_blocks;
          { Ctx c2; Found f2; one(seed, idx, false, c2, f2); }
          leak = A.live_blocks - bb > 0;
        }
        if (leak) { bad = true; f = Found{idx, "leak", "memory is still allocated after the last container of this case is gone (" + std::to_string((A.live_bytes - y1) / 3) + " bytes per repetition)", ""}; Ctx c3; Found f3; one(seed, idx, false, c3, f3); f.trace = c3.trace; }
      }
      c.sample = sample; c.sig = sig; c.nontrivial = nt;
    }
    arm(0);
    if (char const * slow = std::getenv("H_SLOW")) { double t = double(clock() - t0) / CLOCKS_PER_SEC; if (t > 1.5) if (FILE * sf = std::fopen(slow, "a")) { std::fprintf(sf, "%s case %llu: %.1f s\n", PROPERTY, (unsigned long long)idx, t); std::fclose(sf); } }
    if (g_prog) g_prog->state = 0;
    ++done;
    if (c.nontrivial) { ++nontrivial; sigs.insert(c.sig); }
    if (samples.size() < 3 && !c.sample.empty()) samples.push_back(c.sample);
    if (bad) found.push_back(f);
  };
  if (only >= 0) step(uint64_t(only));
  else for (uint64_t blk = from / shards; blk * shards < cases; ++blk) { // a different place of each block of cases, so that every shard gets all kinds
    uint64_t i = blk * shards + (shard + blk) % shards; if (i >= cases || i < from) continue;
    step(i); if (found.size() >= 3) break;
  }
  for (auto & v : g_soft) found.push_back(v);
  if (g_prog) g_prog->state = 2;
  auto line = [](std::string const & s) { std::string o; for (char ch : s) { if (ch == '\n') o += "\\n"; else if (ch == '\r') o += "\\r"; else if (ch == '\t') o += "\\t"; else if (ch == '\\') o += "\\\\"; else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) { char b[8]; std::snprintf(b, 8, "\\x%02x", (unsigned char)ch); o += b; } else o += ch; } return o; };
  FILE * out = result.empty() ? stdout : std::fopen(result.c_str(), "w");
  if (!out) { perror("result"); return 3; }
  std::fprintf(out, "cases\t%llu\nnontrivial\t%llu\n", (unsigned long long)done, (unsigned long long)nontrivial);
  for (auto & p : g_counts) if (p.first != "__warm") std::fprintf(out, "count\t%s\t%llu\n", line(p.first).c_str(), (unsigned long long)p.second);
  size_t hit = cov_hit();
  std::fprintf(out, "cov\t%zu\t%zu\n", hit, cov_total());
  for (auto & s : samples) std::fprintf(out, "sample\t%s\n", line(s).c_str());
  for (auto & v : found) std::fprintf(out, "violation\t%llu\t%s\t%s\t%s\n", (unsigned long long)v.idx, line(v.key).c_str(), line(v.msg).c_str(), line(v.trace).c_str());
  std::fprintf(out, "rule\t%s\n", line(RULE).c_str());
  std::fprintf(out, "end\n");
  if (!result.empty()) {
    std::fclose(out);
    FILE * sf = std::fopen((result + ".sig").c_str(), "wb");
    if (sf) { for (uint64_t s : sigs) std::fwrite(&s, 8, 1, sf); std::fclose(sf); }
    FILE * cf = std::fopen((result + ".cov").c_str(), "wb");
    if (cf) { if (!g_seen.empty()) std::fwrite(g_seen.data(), 1, g_seen.size(), cf); std::fclose(cf); }
  }
  std::fflush(nullptr);
  if (__llvm_profile_write_file) __llvm_profile_write_file();  // coverage builds only
  _exit(found.empty() ? 0 : 1);
}
