// C03: no use of the C++ API corrupts or leaks memory.
#include "ops.hh"
using namespace G;
namespace H {
extern unsigned char FILL; extern bool FILL_ON;
char const * PROPERTY = "C03";
char const * RULE = "one case = a history of 30..60 random calls out of 140 operations (setters, getters const and not, indexed access, push, promotion, conversion, copy between overlapping nodes, merge, collapse, erase, compare, print, serialise) on random nodes of three containers, run under ASan/UBSan/libstdc++ assertions; executed twice with different fill bytes of fresh memory and the digests of all results compared (uninitialised reads), and all blocks counted at the end (leaks). Non-trivial: at least 10 calls returned normally; distinct by the digest of the history.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 150000 : 12000; }
void monitor_setup() {}
}
static uint64_t history(Ctx & c, Rng r, bool log, unsigned & okc) {
  Opt o; o.max_depth = 3; o.pointers = true;
  Dig d; okc = 0;
  std::vector<std::unique_ptr<Gc>> pool;
  for (int k = 0; k < 3; ++k) pool.push_back(std::make_unique<Gc>());
  unsigned n = 30 + unsigned(r.below(30));
  for (unsigned s = 0; s < n; ++s) {
    size_t ia = r.below(3), ib = r.below(3);
    for (auto & p : pool) if (nodes(*p, 1500) > 700 || height(*p) > 40) p->clear();
    string pa = "$" + std::to_string(ia), pb = "$" + std::to_string(ib);
    Gc & a = node(r, *pool[ia], pa); Gc & b = node(r, *pool[ib], pb);
    unsigned op = unsigned(r.below(NOPS));
    string nm;
    if (log) c.log("call " + std::to_string(s) + ": op " + std::to_string(op) + " on " + pa + " (" + tname(a.get_type()) + "), other " + pb);
    try { nm = do_op(r, op, a, b, d, o); ++okc; if (log) c.log("   " + nm); }
    catch (Violation const &) { throw; }
    catch (std::exception const & e) { d.add(uint64_t(99)); if (log) c.log(string("   threw ") + string(e.what()).substr(0, 80)); }
    if (log) { c.count("calls"); if (nm.empty()) c.count("calls_that_threw"); if (!nm.empty()) { size_t q = nm.find(' '); c.count(("op " + nm.substr(0, q)).c_str()); } }
    if (s % 16 == 15) for (auto & p : pool) d.add(hash(observe(*p)));
  }
  for (auto & p : pool) d.add(hash(observe(*p)));
  return d.h;
}
void H::run_case(Ctx & c) {
  unsigned ok1 = 0, ok2 = 0;
  FILL_ON = true; FILL = 0xA5;
  uint64_t d1 = history(c, c.r, true, ok1);
  FILL = 0x5A;
  uint64_t d2 = history(c, c.r, false, ok2);
  FILL_ON = false;
  REQ(d1 == d2, "uninitialised-read", "the results of the same history depend on the contents of fresh memory");
  c.count("histories_compared");
  if (ok1 >= 10) c.mark(d1);
  if (c.idx < 16) c.sample = c.trace.substr(0, 1500);
}
