// C10: collapse compacts and changes nothing else.
#include "promo.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C10";
char const * RULE = "one case = a tree rich in generic vectors (uniform scalars, mixed numeric kinds, strings, equal-length and ragged rows, rows of rows, empty, null and map elements, at all depths) collapsed; the result must be the compaction computed on the model, and independently every leaf of the original must be found at its position with its value; a second collapse must change nothing. Non-trivial: at least one generic vector was present; distinct by tree.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 1500000 : 160000; }
void monitor_setup() {}
}
// every leaf of a, by position, is in b (whatever the representation)
static bool num_eq(Num const & x, Num const & y) { if (x.is_int && y.is_int) return x.n == y.n; cplx p = x.is_int ? cplx(nearest(x), 0) : cplx(x.re, x.im), q = y.is_int ? cplx(nearest(y), 0) : cplx(y.re, y.im); return beq(p, q) || p == q; }
static string contained(Value const & a, Value const & b, string path) {
  if (a.t == T::MAP) {
    if (b.t != T::MAP || a.m.size() != b.m.size()) return path + ": map " + show(a, 100) + " became " + show(b, 100);
    for (auto & kv : a.m) { auto it = b.m.find(kv.first); if (it == b.m.end()) return path + ": key " + quote(kv.first) + " lost"; string s = contained(kv.second, it->second, path + "." + quote(kv.first)); if (!s.empty()) return s; }
    return "";
  }
  if (a.t != T::VECTOR) { string d = diff(a, b, path); return d; }
  if (b.t == T::VECTOR) { if (a.v.size() != b.v.size()) return path + ": size"; for (size_t k = 0; k < a.v.size(); ++k) { string s = contained(a.v[k], b.v[k], path + "[" + std::to_string(k) + "]"); if (!s.empty()) return s; } return ""; }
  if (is_vec(b.t)) {
    if (count_of(b) != a.v.size()) return path + ": " + std::to_string(a.v.size()) + " elements became " + std::to_string(count_of(b));
    for (size_t k = 0; k < a.v.size(); ++k) {
      Value e = elem(b, k); if (same(e, a.v[k])) continue;
      if (!is_scalar(a.v[k].t) || nums(a.v[k]).empty() || nums(e).empty() || !num_eq(nums(a.v[k])[0], nums(e)[0])) return path + "[" + std::to_string(k) + "]: " + show(a.v[k], 100) + " became " + show(e, 100);
    }
    return "";
  }
  if (is_mat(b.t)) {
    if (b.nc != a.v.size()) return path + ": " + std::to_string(a.v.size()) + " rows became " + std::to_string(b.nc) + " columns";
    auto all = nums(b);
    for (size_t k = 0; k < a.v.size(); ++k) {
      Value row = a.v[k]; vector<Num> rn;
      if (row.t == T::VECTOR) { for (auto & x : row.v) { auto q = nums(x); if (q.size() != 1) return path + ": a row of other things became a column"; rn.push_back(q[0]); } } else rn = nums(row);
      if (rn.size() != b.nr) return path + ": row of " + std::to_string(rn.size()) + " in a column of " + std::to_string(b.nr);
      for (size_t i = 0; i < rn.size(); ++i) if (!num_eq(rn[i], all[k * b.nr + i])) return path + "[" + std::to_string(k) + "][" + std::to_string(i) + "]: value changed";
    }
    return "";
  }
  return path + ": " + show(a, 100) + " became " + show(b, 100);
}
static Value rich(Ctx & c, Opt const & o, int depth) {
  if (depth >= 4) return gtyped(c.r, T(c.r.below(8)), o);
  switch (c.r.below(12)) {
  case 0: return gvalue(c.r, o, depth);
  case 1: { Value v = mk(T::MAP); unsigned n = unsigned(c.r.below(4)); for (unsigned k = 0; k < n; ++k) v.m[gkey(c.r, o)] = rich(c, o, depth + 1); return v; }
  default: break;
  }
  Value v = mk(T::VECTOR); unsigned n = c.r.chance(1, 12) ? 0 : 1 + unsigned(c.r.below(5));
  unsigned kind = unsigned(c.r.below(9)); unsigned len = unsigned(c.r.below(4));
  if (depth < 2 && c.r.chance(1, 25)) { n = std::min(gbig(c.r), 600u); kind = unsigned(c.r.below(7)); c.count("long_lists"); }
  else if (depth < 2 && c.r.chance(1, 25)) { len = std::min(gbig(c.r), 600u); c.count("wide_rows"); }
  static const T vt[] = {T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX};
  static const T st[] = {T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX};
  unsigned lo = unsigned(c.r.below(5)), hi = lo + unsigned(c.r.below(5 - lo));
  auto sized = [&](T t, unsigned m) { Value x = mk(t); for (unsigned q = 0; q < m; ++q) switch (t) { case T::VEC_BOOL: x.vb.push_back(c.r.chance(1, 2)); break; case T::VEC_INTEGER: x.vi.push_back(gint(c.r)); break; case T::VEC_LONG: x.vl.push_back(glong(c.r)); break; case T::VEC_REAL: x.vr.push_back(greal(c.r, o)); break; default: x.vc.push_back(gcplx(c.r, o)); } return x; };
  for (unsigned k = 0; k < n; ++k) {
    auto pick = [&] { return lo + c.r.below(hi - lo + 1); };
    switch (kind) {
    case 0: case 1: v.v.push_back(gtyped(c.r, st[pick()], o)); break;
    case 2: v.v.push_back(gtyped(c.r, T::STRING, o)); break;
    case 3: v.v.push_back(sized(vt[pick()], len)); break;
    case 4: v.v.push_back(sized(vt[pick()], len + unsigned(c.r.below(2)))); break;
    case 5: { Value row = mk(T::VECTOR); for (unsigned q = 0; q < len; ++q) row.v.push_back(gtyped(c.r, st[pick()], o)); v.v.push_back(row); break; }
    case 6: v.v.push_back(c.r.chance(1, 2) ? sized(vt[pick()], 1) : gtyped(c.r, st[pick()], o)); break;
    default: v.v.push_back(rich(c, o, depth + 1)); break;
    }
  }
  if (c.r.chance(1, 8) && !v.v.empty()) v.v[c.r.below(v.v.size())] = gtyped(c.r, T(c.r.below(NT)), o, 3);
  return v;
}
static bool any_vector(Value const & v) { if (v.t == T::VECTOR) return true; for (auto & kv : v.m) if (any_vector(kv.second)) return true; return false; }
void H::run_case(Ctx & c) {
  Opt o; o.deep = true; o.max_depth = 3; o.bigvec = c.r.chance(1, 20);
  Value v = rich(c, o, 0);
  if (c.r.chance(1, 3000)) { // rows whose lengths differ by a power of two, or are just long
    static const unsigned k[] = {32767, 32768, 32769, 65535, 65536, 65537}; v = mk(T::VECTOR); unsigned base = unsigned(c.r.below(3)), n = 2 + unsigned(c.r.below(2)); unsigned len = k[c.r.below(6)] + (c.r.chance(1, 2) ? base : 0); bool eq = c.r.chance(1, 3);
    for (unsigned q = 0; q < n; ++q) { unsigned m = eq || (q == 0) ? len : c.r.chance(1, 2) ? base : len % 65536; Value x = mk(c.r.chance(1, 2) ? T::VEC_INTEGER : T::VEC_REAL); for (unsigned p = 0; p < m; ++p) { if (x.t == T::VEC_INTEGER) x.vi.push_back(int32_t(p)); else x.vr.push_back(p + 0.5); } v.v.push_back(x); } if (c.r.chance(1, 2)) std::swap(v.v[0], v.v[n - 1]); c.count("long_rows"); }
  if (lossy(v)) { c.count("set_aside_long_with_real"); return; }
  Gc g; build(g, v); c.log("tree " + show(v));
  g.collapse();
  Value now = observe(g);
  string e = contained(v, now, "$"); REQ(e.empty(), "data-changed", e << " in the collapse of " << show(v));
  string d = diff(now, collapsed(v)); REQ(d.empty(), "wrong-compaction", "collapse of " << show(v) << ": " << d << " (expected on the right)");
  Value again = now; g.collapse(); d = diff(observe(g), again);
  // a generic vector whose rows became vectors is final after one pass
  REQ(d.empty(), "not-idempotent", "second collapse: " << d);
  c.count("collapses"); if (!same(v, now)) c.count("compacted"); if (is_mat(now.t)) c.count("became_matrix"); if (is_vec(now.t)) c.count("became_vector");
  if (any_vector(v)) c.mark(hash(v));
  if (c.idx % 2000 < 2) c.sample = show(v, 200) + " -> " + show(now, 200);
}
