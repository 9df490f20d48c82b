// C07: indexed access addresses exactly the requested element or throws.
#include "promo.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C07";
char const * RULE = "one case = a vector, generic vector or matrix of any type and shape (zero rows or columns included) with unique entries; every index inside, at and beyond the bounds is read by every const accessor, get_number_at, get_complex_number_at, operator(), row and column extractor and matrix operator(), and a sequence of writes through the growing accessors is made; each element is compared with the model by position, all other elements must keep their values, out-of-range const or checked access must throw. Non-trivial: at least one element compared; distinct by contents and the sequence of writes.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 400000 : 12000; }
void monitor_setup() {}
}
static unsigned idx(Ctx & c, unsigned n) {
  switch (c.r.below(8)) { case 0: return n; case 1: return n + 1 + unsigned(c.r.below(5)); case 2: return n ? n - 1 : 0; case 3: return 0; case 4: return c.r.chance(1, 4) ? 0x7fffffffu : n; default: return n ? unsigned(c.r.below(n)) : 0; }
}
// a read that must give want, or throw when want is empty
template <class F> static void rd(Ctx & c, Value const & v, string const & what, std::optional<Value> const & want, F f) {
  Value got; bool t = throws([&] { got = f(); });
  c.count("reads");
  if (want) {
    REQ(!t, "valid-index-refused", what << " threw on " << show(v));
    string d = diff(got, *want); REQ(d.empty(), "wrong-element", what << " on " << show(v) << ": " << d << " (expected on the right)");
    c.count("elements_compared");
  } else { REQ(t, "bad-access-accepted", what << " on " << show(v) << " returned " << show(got)); c.count("bad_access_reported"); }
}
static double dnum(Value const & e) { return nearest(nums(e)[0]); }
static cplx cnum(Value const & e) { Num n = nums(e)[0]; return n.is_int ? cplx(nearest(n), 0) : cplx(n.re, n.im); }
// scalar Values that numbers can be read from
static bool is_num(Value const & e, bool cx) { int r = rank_of(e.t); return is_scalar(e.t) && r >= 0 && (cx || r <= 3); }

static void const_reads(Ctx & c, Gc & gm, Value const & v) {
  Gc const & g = gm;
  unsigned n = count_of(v); bool ve = is_vec(v.t), ma = is_mat(v.t), gv = v.t == T::VECTOR;
  if (v.t == T::MAP || is_scalar(v.t) || v.t == T::NOTYPE) n = 0;
  for (unsigned rep = 0; rep < 4; ++rep) {
    unsigned i = idx(c, n); bool in = i < n; string at = "(" + std::to_string(i) + ")";
    using O = std::optional<Value>;
    auto ex = [&](T t) -> O { return v.t == t && in ? O(elem(v, i)) : O(); };
    rd(c, v, "get_bool_at const" + at, ex(T::VEC_BOOL), [&] { return B(g.get_bool_at(i, "w")); });
    rd(c, v, "get_int_at const" + at, ex(T::VEC_INTEGER), [&] { return I(g.get_int_at(i, "w")); });
    rd(c, v, "get_long_at const" + at, ex(T::VEC_LONG), [&] { return L(g.get_long_at(i, "w")); });
    rd(c, v, "get_real_at const" + at, ex(T::VEC_REAL), [&] { return R(g.get_real_at(i, "w")); });
    rd(c, v, "get_complex_at const" + at, ex(T::VEC_COMPLEX), [&] { return C(g.get_complex_at(i, "w")); });
    rd(c, v, "get_string_at const" + at, ex(T::VEC_STRING), [&] { return S(string(g.get_string_at(i, "w"))); });
    rd(c, v, "operator[] const" + at, ex(T::VECTOR), [&] { return observe(g[i]); });
    rd(c, v, "operator() const" + at, ex(T::VECTOR), [&] { return observe(g(i, "w")); });
    rd(c, v, "operator()" + at, ex(T::VECTOR), [&] { return observe(gm(i, "w")); });
    { O w; if (gv && in && elem(v, i).t == T::POINTER) w = elem(v, i);
      rd(c, v, "get_pointer_at const" + at, w, [&] { Value p = mk(T::POINTER); p.p = g.get_pointer_at<void *>(i); return p; });
      if (w) rd(c, v, "get_pointer_at" + at, w, [&] { Value p = mk(T::POINTER); p.p = gm.get_pointer_at<void *>(i); return p; }); }
    rd(c, v, "get_gc_at const" + at, ex(T::VECTOR), [&] { return observe(g.get_gc_at(i, "w")); });
    { O w; if ((ve || ma || gv) && in && is_num(elem(v, i), false) && v.t != T::VEC_COMPLEX && v.t != T::MAT_COMPLEX) w = R(dnum(elem(v, i)));
      bool skip = (v.t == T::VEC_COMPLEX || v.t == T::MAT_COMPLEX || (gv && in && elem(v, i).t == T::COMPLEX)); // may convert a real one
      if (!skip) rd(c, v, "get_number_at" + at, w, [&] { return R(g.get_number_at(i, "w")); }); }
    { O w; if ((ve || ma || gv) && in && is_num(elem(v, i), true)) w = C(cnum(elem(v, i)));
      rd(c, v, "get_complex_number_at" + at, w, [&] { return C(g.get_complex_number_at(i, "w")); });
      rd(c, v, "get_complex_number_at(re,im)" + at, w, [&] { double a = 1, b = 2; g.get_complex_number_at(i, a, b); return C(cplx(a, b)); }); }
    // matrix elements
    unsigned a = idx(c, v.nr), b = idx(c, v.nc); bool inm = ma && a < v.nr && b < v.nc; string ab = "(" + std::to_string(a) + "," + std::to_string(b) + ")";
    auto em = [&](T t) -> O { return v.t == t && inm ? O(elem(v, a + size_t(b) * v.nr)) : O(); };
    rd(c, v, "get_int_at const" + ab, em(T::MAT_INTEGER), [&] { return I(g.get_int_at(a, b, "w")); });
    rd(c, v, "get_long_at const" + ab, em(T::MAT_LONG), [&] { return L(g.get_long_at(a, b, "w")); });
    rd(c, v, "get_real_at const" + ab, em(T::MAT_REAL), [&] { return R(g.get_real_at(a, b, "w")); });
    rd(c, v, "get_complex_at const" + ab, em(T::MAT_COMPLEX), [&] { return C(g.get_complex_at(a, b, "w")); });
  }
  if (ma) { REQ(g.num_rows() == v.nr && g.num_cols() == v.nc, "shape", "num_rows/num_cols " << g.num_rows() << "x" << g.num_cols() << " for " << show(v)); }
  else if (ve || gv) REQ(g.num_rows() == 1 && g.num_cols() == n, "shape", "num_rows, num_cols " << g.num_rows() << "," << g.num_cols() << " for " << show(v));
  REQ(g.get_num_elements() == count_of(v), "shape", "get_num_elements " << g.get_num_elements() << " for " << show(v));
}
// matrix helpers
template <class MT, class X> static void mat_reads(Ctx & c, MT & m, Value const & v, vector<X> const & e) {
  MT const & k = m;
  auto eq = [](X const & a, X const & b) { return std::memcmp(&a, &b, sizeof(X)) == 0; };
  REQ(k.num_rows() == v.nr && k.num_cols() == v.nc && k.numRows() == v.nr && k.numCols() == v.nc && k.size() == e.size(), "shape", "matrix shape of " << show(v));
  for (unsigned i = 0; i <= v.nr + 1; ++i) for (unsigned j = 0; j <= v.nc + 1; ++j) {
    bool in = i < v.nr && j < v.nc; X x{}, y{};
    bool t1 = throws([&] { x = k(i, j); }), t2 = throws([&] { y = m(i, j); });
    REQ(t1 == !in && t2 == !in, in ? "valid-index-refused" : "bad-access-accepted", "mat(" << i << "," << j << ") of " << show(v));
    if (in) { REQ(eq(x, e[i + size_t(j) * v.nr]) && eq(y, x), "wrong-element", "mat(" << i << "," << j << ") of " << show(v)); c.count("elements_compared"); }
    else c.count("bad_access_reported");
  }
  unsigned big = unsigned(c.r.below(4)) * 7 + 3;
  for (unsigned i = 0; i <= v.nr; ++i) {
    vector<X> want; if (i < v.nr) for (unsigned j = 0; j < v.nc; ++j) want.push_back(e[i + size_t(j) * v.nr]);
    vector<X> got(big); bool t = throws([&] { if (i & 1) k.getRow(i, got); else k.get_row(i, got); });
    REQ(t == (i >= v.nr), t ? "valid-index-refused" : "bad-access-accepted", "get_row(" << i << ") of " << show(v));
    if (!t) { REQ(got.size() == want.size(), "wrong-element", "get_row(" << i << ") of " << show(v) << " gives " << got.size() << " entries"); for (size_t q = 0; q < want.size(); ++q) REQ(eq(got[q], want[q]), "wrong-element", "get_row(" << i << ")[" << q << "] of " << show(v)); }
    std::unique_ptr<X[]> p(new X[v.nc + 1]()); X guard = X(17); p[v.nc] = guard;
    t = throws([&] { if (i & 1) k.get_row(i, p.get()); else k.getRow(i, p.get()); });
    REQ(t == (i >= v.nr), t ? "valid-index-refused" : "bad-access-accepted", "get_row(" << i << ",ptr) of " << show(v));
    REQ(eq(p[v.nc], guard), "wrote-beyond", "get_row(" << i << ",ptr) of " << show(v));
    if (!t) for (size_t q = 0; q < want.size(); ++q) REQ(eq(p[q], want[q]), "wrong-element", "get_row(" << i << ",ptr)[" << q << "] of " << show(v));
    c.count("rows_compared");
  }
  for (unsigned j = 0; j <= v.nc; ++j) {
    vector<X> want; if (j < v.nc) for (unsigned i = 0; i < v.nr; ++i) want.push_back(e[i + size_t(j) * v.nr]);
    vector<X> got(big); bool t = throws([&] { if (j & 1) k.getColumn(j, got); else k.get_column(j, got); });
    REQ(t == (j >= v.nc), t ? "valid-index-refused" : "bad-access-accepted", "get_column(" << j << ") of " << show(v));
    if (!t) { REQ(got.size() == want.size(), "wrong-element", "get_column(" << j << ") of " << show(v) << " gives " << got.size() << " entries"); for (size_t q = 0; q < want.size(); ++q) REQ(eq(got[q], want[q]), "wrong-element", "get_column(" << j << ")[" << q << "] of " << show(v)); }
    std::unique_ptr<X[]> p(new X[v.nr + 1]()); X guard = X(17); p[v.nr] = guard;
    t = throws([&] { if (j & 1) k.get_column(j, p.get()); else k.getColumn(j, p.get()); });
    REQ(t == (j >= v.nc), t ? "valid-index-refused" : "bad-access-accepted", "get_column(" << j << ",ptr) of " << show(v));
    REQ(eq(p[v.nr], guard), "wrote-beyond", "get_column(" << j << ",ptr) of " << show(v));
    if (!t) for (size_t q = 0; q < want.size(); ++q) REQ(eq(p[q], want[q]), "wrong-element", "get_column(" << j << ",ptr)[" << q << "] of " << show(v));
    c.count("columns_compared");
  }
}
// numeric or exact equality of two elements (a promotion may have changed the representation)
static bool same_elem(Value const & a, Value const & b) {
  if (a.t == b.t) return same(a, b);
  auto x = nums(a), y = nums(b);
  if (x.size() != 1 || y.size() != 1 || !is_scalar(a.t) || !is_scalar(b.t)) return false;
  if (x[0].is_int && y[0].is_int) return x[0].n == y[0].n;
  return beq(cnum(a), cnum(b)) || cnum(a) == cnum(b);
}
static vector<Value> elems(Value const & v) {
  vector<Value> o;
  if (v.t == T::NOTYPE) return o;
  if (is_scalar(v.t) || v.t == T::MAP) { o.push_back(v); return o; }
  for (size_t k = 0; k < count_of(v); ++k) o.push_back(elem(v, k));
  return o;
}
static bool is_default(Value const & e) {
  switch (e.t) { case T::NOTYPE: return true; case T::POINTER: return e.p == nullptr; case T::BOOL: return !e.b; case T::INTEGER: return e.i == 0; case T::LONG: return e.l == 0; case T::REAL: return e.r == 0; case T::COMPLEX: return e.c == cplx(0, 0); case T::STRING: return e.s.empty(); default: return false; }
}
// one write through a growing accessor
static void grow(Ctx & c, Gc & g, Value & v, Opt const & o) {
  vector<Value> before = elems(v); unsigned n = unsigned(before.size());
  unsigned i = c.r.chance(1, 3) ? n + unsigned(c.r.below(6)) : n ? unsigned(c.r.below(n)) : unsigned(c.r.below(3));
  unsigned k = unsigned(c.r.below(7));
  static const T et[] = {T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::STRING, T::VECTOR};
  static const T vt[] = {T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX, T::VEC_STRING, T::VECTOR};
  Value x = k < 6 ? gtyped(c.r, et[k], o) : gvalue(c.r, o, 2); bool write = k != 0;
  string what = string(k == 0 ? "get_bool_at" : k == 1 ? "get_int_at" : k == 2 ? "get_long_at" : k == 3 ? "get_real_at" : k == 4 ? "get_complex_at" : k == 5 ? "get_string_at" : "operator[]") + "(" + std::to_string(i) + ")";
  if (k == 6 && v.t != T::VECTOR && v.t != T::NOTYPE) return;   // replaces the container by design
  c.log(what + " = " + show(x, 60) + " on " + show(v));
  Value first;
  bool t = throws([&] {
    switch (k) {
    case 0: first = B(g.get_bool_at(i)); break;
    case 1: { auto & e = c.r.chance(1, 2) ? g.get_int_at(i) : g.get_int_at(int(i)); first = I(e); e = x.i; break; }
    case 2: { auto & e = c.r.chance(1, 2) ? g.get_long_at(i) : g.get_long_at(int(i)); first = L(e); e = x.l; break; }
    case 3: { auto & e = c.r.chance(1, 2) ? g.get_real_at(i) : g.get_real_at(int(i)); first = R(e); e = x.r; break; }
    case 4: { auto & e = c.r.chance(1, 2) ? g.get_complex_at(i) : g.get_complex_at(int(i)); first = C(e); e = x.c; break; }
    case 5: { auto & e = c.r.chance(1, 2) ? g.get_string_at(i) : g.get_string_at(int(i)); first = S(e); e = x.s; break; }
    default: { Gc & e = c.r.chance(1, 2) ? g[i] : g.get_gc_at(i); first = observe(e); build(e, x); break; }
    }
  });
  Value now = observe(g); vector<Value> after = elems(now);
  int rk = rank_of(v.t);
  bool must = v.t == T::NOTYPE || v.t == vt[k] || ((is_vec(v.t) || (is_scalar(v.t) && k <= 2)) && rk >= 0 && k < 5 && k > 0 && rk <= int(k)) ||
              (v.t == T::VECTOR && (k == 6 || i >= n || before[i].t == T::NOTYPE || before[i].t == et[k]));
  if (t) {
    REQ(!must, "valid-index-refused", what << " threw on " << show(v));
    REQ(after.size() >= n, "elements-lost", what << " threw on " << show(v) << " and left " << show(now));
    for (unsigned q = 0; q < n; ++q) REQ(same_elem(after[q], before[q]), "neighbour-changed", what << " threw on " << show(v) << " and left " << show(now));
    c.count("bad_access_reported");
  } else {
    if (v.t == T::VECTOR && i < n && k < 6) REQ(before[i].t == et[k] || before[i].t == T::NOTYPE, "bad-access-accepted", what << " on " << show(v) << " gave " << show(first));
    if (k > 0 && k < 5 && rk >= 0 && rk <= int(k) && (is_vec(v.t) || k <= 2)) REQ(now.t == vt[k], "representation", what << " on " << show(v) << " left " << show(now));
    unsigned size = std::max(n, i + 1);
    REQ(after.size() == size, "wrong-size", what << " on " << show(v) << " left " << after.size() << " elements: " << show(now));
    if (i < n && before[i].t != T::NOTYPE) REQ(same_elem(first, before[i]), "wrong-element", what << " on " << show(v) << " read " << show(first));
    else REQ(is_default(first), "wrong-element", what << " on " << show(v) << " created " << show(first));
    for (unsigned q = 0; q < size; ++q) {
      if (q == i) { if (write) REQ(same_elem(after[q], x), "wrong-element", what << " = " << show(x) << " on " << show(v) << " left " << show(now)); }
      else if (q < n) REQ(same_elem(after[q], before[q]), "neighbour-changed", what << " on " << show(v) << " changed element " << q << ": " << show(now));
      else REQ(is_default(after[q]), "wrong-element", what << " on " << show(v) << " filled element " << q << " with " << show(after[q]));
    }
    c.count("writes"); if (i >= n) c.count("growing_writes");
  }
  v = now;
}
// one write through get_*_at(i,j)
static void grow2(Ctx & c, Gc & g, Value & v, Opt const & o) {
  unsigned k = unsigned(c.r.below(4)); int w = int(k) + 1;
  static const T et[] = {T::INTEGER, T::LONG, T::REAL, T::COMPLEX}; static const T mt[] = {T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX};
  unsigned nr = v.nr, nc = v.nc; if (is_vec(v.t)) { nr = count_of(v); nc = 1; }
  unsigned i = idx(c, nr), j = idx(c, nc);
  if (v.t == T::NOTYPE) { i %= 8; j %= 8; nr = i + 1; nc = j + 1; }
  Value x = gtyped(c.r, et[k], o), first; vector<Value> before = v.t == T::NOTYPE ? vector<Value>() : elems(v);
  string what = string("get_") + (k == 0 ? "int" : k == 1 ? "long" : k == 2 ? "real" : "complex") + "_at(" + std::to_string(i) + "," + std::to_string(j) + ")";
  c.log(what + " = " + show(x, 60) + " on " + show(v));
  bool t = throws([&] { switch (k) {
    case 0: { auto & e = g.get_int_at(i, j); first = I(e); e = x.i; break; }
    case 1: { auto & e = g.get_long_at(i, j); first = L(e); e = x.l; break; }
    case 2: { auto & e = g.get_real_at(i, j); first = R(e); e = x.r; break; }
    default: { auto & e = g.get_complex_at(i, j); first = C(e); e = x.c; break; } } });
  Value now = observe(g);
  bool in = i < nr && j < nc;
  if (v.t == mt[k] || v.t == T::NOTYPE) REQ(t == !in, t ? "valid-index-refused" : "bad-access-accepted", what << " on " << show(v));
  if (!in) REQ(t, "bad-access-accepted", what << " on " << show(v));
  if (in && is_vec(v.t) && rank_of(v.t) >= 0 && rank_of(v.t) <= w && v.t != T::VEC_COMPLEX) REQ(!t, "valid-index-refused", what << " on " << show(v));
  if (!t) {
    REQ(now.t == mt[k] && now.nr == nr && now.nc == nc, "shape", what << " on " << show(v) << " left " << show(now));
    vector<Value> after = elems(now);
    for (size_t q = 0; q < after.size(); ++q) {
      if (q == i + size_t(j) * nr) { REQ(same_elem(after[q], x), "wrong-element", what << " = " << show(x) << " on " << show(v) << " left " << show(now)); REQ(before.empty() ? is_default(first) : same_elem(first, before[q]), "wrong-element", what << " on " << show(v) << " read " << show(first)); }
      else REQ(before.empty() ? is_default(after[q]) : same_elem(after[q], before[q]), "neighbour-changed", what << " on " << show(v) << " left " << show(now));
    }
    c.count("matrix_writes");
  } else {
    vector<Value> after = elems(now); REQ(after.size() == before.size() || before.empty(), "elements-lost", what << " threw on " << show(v) << " and left " << show(now));
    for (size_t q = 0; q < before.size(); ++q) REQ(same_elem(after[q], before[q]), "neighbour-changed", what << " threw on " << show(v) << " and left " << show(now));
    c.count("bad_access_reported");
  }
  v = now; (void)w;
}
void H::run_case(Ctx & c) {
  Opt o; o.huge = 1500; o.huge_max = 33000; o.max_depth = 2; o.max_kids = 7; o.nan = false; o.subnormal = false;
  static const T ts[] = {T::VEC_POINTER, T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX, T::VEC_STRING, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX, T::VECTOR, T::VECTOR, T::NOTYPE};
  Value v = c.r.chance(1, 15) ? gtyped(c.r, T(c.r.below(NT)), o) : gtyped(c.r, ts[c.idx % 14], o);
  o.huge = 0;
  // entries unique enough to tell positions apart
  auto uniq = [&](auto & e, auto f) { for (size_t k = 0; k < e.size(); ++k) if (c.r.chance(3, 4)) e[k] = f(k); };
  int base = c.r.range(1, 1000);
  uniq(v.vi, [&](size_t k) { return int32_t(base + int(k) * 3); }); uniq(v.vl, [&](size_t k) { return (int64_t(1) << 40) + base + int64_t(k); });
  uniq(v.vr, [&](size_t k) { return base + double(k) / 8; }); uniq(v.vc, [&](size_t k) { return cplx(base + double(k), -double(k) - 1); });
  uniq(v.vs, [&](size_t k) { return "s" + std::to_string(base + int(k)); });
  if (v.t == T::VECTOR && c.r.chance(1, 2)) for (size_t k = 0; k < v.v.size(); ++k) v.v[k] = gtyped(c.r, T(c.r.below(8)), o);
  Gc g; build(g, v);
  c.log("container " + show(v)); c.mark(hash(v)); string first = show(v, 150);
  const_reads(c, g, v);
  switch (v.t) {
  case T::MAT_INTEGER: mat_reads(c, g.get_mat_int(), v, v.vi); break;
  case T::MAT_LONG: mat_reads(c, g.get_mat_long(), v, v.vl); break;
  case T::MAT_REAL: mat_reads(c, g.get_mat_real(), v, v.vr); break;
  case T::MAT_COMPLEX: mat_reads(c, g.get_mat_complex(), v, v.vc); break;
  default: break;
  }
  { string d = diff(observe(g), v); REQ(d.empty(), "read-changed-container", d); }
  unsigned n = unsigned(c.r.below(count_of(v) > 5000 ? 3 : 8));
  for (unsigned k = 0; k < n; ++k) { if (is_mat(v.t) || c.r.chance(1, 5)) grow2(c, g, v, o); else grow(c, g, v, o); c.mark(hash(v)); }
  const_reads(c, g, v);
  { string d = diff(observe(g), v); REQ(d.empty(), "read-changed-container", d); }
  if (c.idx % 700 < 2) c.sample = first + ", " + std::to_string(n) + " writes, now " + show(v, 150);
}
