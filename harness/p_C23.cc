// C23: every allocation of every operation fails once.
#include "tweak.hh"
#include "ops.hh"
#include "codec.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C23";
char const * RULE = "one case = one operation (all 140 of the C++ interface in turn, copies, merges, the first JSON reader, the writers of the text formats, table reading, growth of nested vectors and maps) on random states of two containers; the operation is run once undisturbed to count its allocations, then again from the same state for each allocation index (up to 80 sampled when there are more), with that allocation failing, alone or with all later ones; it must throw (or give the undisturbed result), afterwards both containers are read completely, containers and operands that are only read must be unchanged, then they are written, cleared and destroyed under ASan with all blocks counted. Non-trivial: at least one allocation failed inside the operation; distinct by operation, state and failing index.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 1000000 : 60000; }
void monitor_setup() { silence(); }
}
struct Armed { Armed(long k, bool sticky) { A.fails = 0; A.sticky = sticky; A.fail_at = k; A.counting = true; } ~Armed() { A.fail_at = -1; A.sticky = false; A.counting = false; } };
constexpr unsigned EXTRA = 13; // the generated or third-party parsers behind the other readers end the program when memory runs out
// operations beyond ops.hh; txt_only: the only product is text in a stream, which reports by its state
static string extra(Rng & r, unsigned op, Gc & g, Gc const & h, Dig & d, Opt const & o, string const & text) {
  auto read = [&](auto f) { std::istringstream is(text); bool ok = f(is); if (!ok) throw std::runtime_error("reader returned false"); };
  switch (op) {
  case 0: g["a"]["b"][3]["c"] = h; return "nested growth";
  case 1: { auto & v = g.set_vector(); for (int k = 0; k < 6; ++k) v.push_back(h); return "vector of copies"; }
  case 2: { auto & m = g.set_map(); for (int k = 0; k < 6; ++k) m["key number " + std::to_string(k)] = h; return "map of copies"; }
  case 3: { vector<Gc> vv(2, h); vv.push_back(g); vv.insert(vv.begin(), h); g = vv[2]; return "through std::vector"; }
  case 4: { vector<uint8_t> b(size_t(h.mem_size())); h.serialize(b); g.de_serialize(b); return "serialize, de_serialize"; }
  case 5: { for (int k = 0; k < 5; ++k) { g.push_int(k); g.push_real(k + 0.5); g.push_string("a string that needs memory of its own"); } return "pushes"; }
  case 6: g.set_vec_string(vector<string>{"a string that needs memory of its own", "another one that needs memory too", "x"}); return "set_vec_string";
  case 7: g.set_string("a string that needs memory of its own"); return "set_string";
  case 8: { std::ostringstream s; h.to_json(s); return "to_json (text)"; }
  case 9: { std::ostringstream s; h.to_yaml(s); return "to_yaml (text)"; }
  case 10: { std::ostringstream s; h.to_toml(s); return "to_toml (text)"; }
  case 11: read([&](auto & is) { return g.from_json(is); }); return "from_json (reader)";
  default: { std::istringstream is(text); g.readFormattedData(is, "#", " \t"); return "readFormattedData (reader)"; }
  }
}
static bool is_const(unsigned op) {
  if (op >= NOPS) { op -= NOPS; return op >= 8 && op <= 10; }
  return op == 11 || op == 12 || (op >= 20 && op <= 30) || (op >= 33 && op <= 50) || (op >= 53 && op <= 53) || (op >= 73 && op <= 86) || (op >= 93 && op <= 98) || (op >= 103 && op <= 106) || op == 108 || op == 111 || op == 113 || op == 115 || op == 117 || op == 119 || op == 123 || (op >= 125 && op <= 131);
}
void H::run_case(Ctx & c) {
  unsigned op = unsigned(c.idx % (NOPS + EXTRA)); Rng & r = c.r;
  Opt o; o.max_depth = 2; o.pointers = r.chance(1, 4); o.bigvec = r.chance(1, 4);
  Value av = r.chance(1, 3) ? gvalue(r, o) : gtyped(r, T(r.below(NT)), o), bv = r.chance(1, 3) ? grelated(r, av, o) : gvalue(r, o);
  string text;
  if (op >= NOPS + 11) {
    Opt q; q.max_depth = 2; q.finite = true; q.pointers = q.complexes = q.notype = false; q.utf8 = true; q.nul = false; Value t = gtyped(r, T::MAP, q); Gc g; build(g, t); std::ostringstream s; s.precision(17);
    switch (op - NOPS) { case 11: g.to_json(s); break; default: s << "a b c\n1 2 3\n4 5 6\n# x\n7 8 9\n"; }
    text = s.str();
  }
  uint64_t seed = r.next(); bool inner = r.chance(1, 3);
  struct Res { bool threw = false, returned = false; uint64_t dig = 0; Value a, b; string name; long allocs = 0, fails = 0; };
  auto attempt = [&](long k, bool sticky) {
    Res res; auto a = std::make_unique<Gc>(), b = std::make_unique<Gc>(); build(*a, av); build(*b, bv);
    Rng q(seed); string pa, pb; Gc & na = inner ? node(q, *a, pa) : *a; Gc & nb = inner ? node(q, *b, pb) : *b; Dig d; string nm; long t0 = A.total_blocks;
    {
      Armed arm(k, sticky);
      try { if (op == 130) { d.add(uint64_t(na.compare_content(nb).empty())); nm = "compare_content"; } else if (op < NOPS) nm = do_op(q, op, na, nb, d, o); else nm = extra(q, op - NOPS, na, nb, d, o, text); res.returned = true; }
      catch (Violation const &) { A.fail_at = -1; throw; }
      catch (std::exception const &) { A.fail_at = -1; res.threw = true; }
    }
    res.allocs = A.total_blocks - t0; res.fails = A.fails; res.dig = d.h; res.name = nm;
    res.a = observe(*a); res.b = observe(*b);
    // still usable
    if (res.fails) {
      Gc copy(*a), copy2; copy2 = *b;
      REQ(same(observe(copy), res.a) && same(observe(copy2), res.b), "unusable-after", "a copy of the container differs after allocation " << k << " failed");
      if (q.chance(1, 2)) { Value nv = gtyped(q, T(q.below(NT)), o); Gc * m = nullptr; store(q, *a, nv, m); std::unique_ptr<Gc> own(m); if (!m) REQ(same(observe(*a), nv), "unusable-after", "a value stored after the failed allocation " << k << " is not read back: " << diff(observe(*a), nv)); }
      if (q.chance(1, 2)) { a->clear(); REQ(a->get_type() == T::NOTYPE, "unusable-after", "clear"); }
      if (q.chance(1, 2)) { b->clear(); }
    }
    return res;
  };
  Res clean = attempt(-1, false);
  string what = STR("op " << op << " (" << (clean.returned ? clean.name : string("throws undisturbed")) << ") on " << show(av, 120) << ", other " << show(bv, 80)); c.log(what);
  c.count("operations");
  bool text_out = op == 20 || op == 129 || op == 131 || (op >= NOPS + 8 && op <= NOPS + 10); // a stream keeps the failure in its state
  vector<long> ks; long cap = thorough() ? 200 : 80;
  if (clean.allocs <= cap) for (long k = 0; k < clean.allocs; ++k) ks.push_back(k); else for (long k = 0; k < cap; ++k) ks.push_back(long(r.below(uint64_t(clean.allocs))));
  for (long k : ks) {
    bool sticky = r.chance(1, 4); c.log(STR("allocation " << k << " of " << clean.allocs << " fails" << (sticky ? ", and all later ones" : "")));
    Res res = attempt(k, sticky);
    if (!res.fails) continue;
    c.count("failed_allocations"); c.mark(mix64(c.idx * 1000003 + uint64_t(k) * 2 + sticky));
    if (res.returned && !text_out) REQ(!clean.threw && res.dig == clean.dig && same(res.a, clean.a), "failure-ignored", what << ": allocation " << k << " failed, yet the operation returned with another result than undisturbed");
    REQ(same(res.b, bv), "operand-changed", what << ": allocation " << k << " failed and changed the other container: " << diff(res.b, bv));
    if (is_const(op)) REQ(same(res.a, av), "operand-changed", what << ": allocation " << k << " failed and a reading operation changed the container: " << diff(res.a, av));
    if (res.threw) c.count("reported_by_exception");
  }
  if (c.idx < 40) c.sample = what;
}
