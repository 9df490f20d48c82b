// C08: compare_content decides exact equality.
#include "tweak.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C08";
char const * RULE = "one case = a random tree and a second one that is a copy, the same data built again, the tree with a change at exactly one place (a leaf, one bit of a number, one byte of a string or key, a size, a shape, a type, a missing entry), or unrelated; compare_content is called in both orders (and of a tree with itself and with a part of itself) and must give the empty text exactly when the reference comparison of the two models finds no difference; both trees are re-read afterwards. Non-trivial: at least one pair compared; distinct by pair.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 2000000 : 200000; }
void monitor_setup() {}
}
// equality as the library documents it: numbers by value
static bool neq(double a, double b) { return a == b; }
static bool ceq(Value const & a, Value const & b) {
  if (a.t != b.t || a.nr != b.nr || a.nc != b.nc) return false;
  switch (a.t) {
  case T::REAL: return neq(a.r, b.r);
  case T::COMPLEX: return a.c == b.c;
  case T::VEC_REAL: case T::MAT_REAL: return a.vr == b.vr;
  case T::VEC_COMPLEX: case T::MAT_COMPLEX: return a.vc == b.vc;
  case T::VECTOR: if (a.v.size() != b.v.size()) return false; for (size_t k = 0; k < a.v.size(); ++k) if (!ceq(a.v[k], b.v[k])) return false; return true;
  case T::MAP: { if (a.m.size() != b.m.size()) return false; auto y = b.m.begin(); for (auto x = a.m.begin(); x != a.m.end(); ++x, ++y) if (x->first != y->first || !ceq(x->second, y->second)) return false; return true; }
  default: return same(a, b);
  }
}
static void cmp(Ctx & c, Gc const & a, Gc const & b, Value const & va, Value const & vb, string const & how) {
  bool want = ceq(va, vb);
  string s = c.r.chance(1, 2) ? a.compare_content(b) : a.compare_content(b, "prefix: ");
  c.count("comparisons"); c.count(want ? "equal_pairs" : "different_pairs");
  REQ(s.empty() == want, want ? "equal-reported-different" : "difference-missed", how << ": " << show(va) << " against " << show(vb) << " gives " << quote(s.substr(0, 300)) << (want ? "" : " although " + diff(va, vb)));
}
void H::run_case(Ctx & c) {
  Opt o; o.deep = true; o.huge = 5000; o.nan = false; o.max_depth = 4;
  Value v = c.idx % 3 == 0 ? gtyped(c.r, T((c.idx / 3) % NT), o) : gvalue(c.r, o), w = v;
  unsigned mode = unsigned(c.r.below(10)); char const * how = "";
  if (mode == 0) how = "equal trees";
  else if (mode == 1) { w = c.r.chance(1, 2) ? gtyped(c.r, v.t, o) : gvalue(c.r, o); how = "unrelated trees"; }
  else { unsigned n = mode < 8 ? 1 : 2; for (unsigned k = 0; k < n; ++k) tweak(c.r, w, o); how = "trees differing in one place"; }
  if (c.r.chance(1, 250)) { // chains that differ, if at all, only near the bottom
    Opt q = o; q.max_depth = 1; q.deep = false; v = w = gvalue(c.r, q, 0); if (c.r.chance(4, 5)) tweak(c.r, w, q);
    for (unsigned n = glevels(c.r); n--;) { Value x, y; if (c.r.chance(1, 2)) { x.t = T::VECTOR; if (c.r.chance(1, 4)) x.v.push_back(gvalue(c.r, q, 1)); y = x; x.v.push_back(v); y.v.push_back(w); } else { x = mk(T::MAP); if (c.r.chance(1, 4)) x.m[gkey(c.r, q)] = gvalue(c.r, q, 1); y = x; string k = gkey(c.r, q); x.m[k] = v; y.m[k] = w; } v = std::move(x); w = std::move(y); }
    how = "chains"; c.count("deep_chains");
  }
  Gc a, b; build(a, v); build(b, w);
  c.log(string(how) + ": " + show(v) + " and " + show(w));
  cmp(c, a, b, v, w, how); cmp(c, b, a, w, v, how);
  if (c.r.chance(1, 4)) { cmp(c, a, a, v, v, "a tree with itself"); Gc t(a); cmp(c, t, a, v, v, "a copy"); }
  if (c.r.chance(1, 8) && v.t == T::VECTOR && !v.v.empty()) { size_t k = c.r.below(v.v.size()); Gc const & ca = a; cmp(c, a, ca[unsigned(k)], v, v.v[k], "a tree with a part of it"); }
  string d = diff(observe(a), v); REQ(d.empty(), "compare-changed-container", d);
  d = diff(observe(b), w); REQ(d.empty(), "compare-changed-container", d);
  c.mark(hash(v)); c.mark(hash(w));
  if (c.idx % 2000 < 2) c.sample = string(how) + ": " + show(v, 150) + " / " + show(w, 150);
}
