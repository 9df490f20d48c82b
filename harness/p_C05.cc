// C05: numeric reads convert exactly or fail.
#include "promo.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C05";
char const * RULE = "one case = a stored number (limits of all integer types, neighbours of powers of two, fractions, infinities, NaN, complex with and without imaginary part) as scalar, map entry, vector, matrix or generic vector, read through every converting reader to int, uint, long, ulong, float, double and complex; each result must be the same number, the nearest float, or a reported failure with output and container unchanged, and exactly representable values must not be refused. Non-trivial: at least one conversion compared; distinct by value and container type.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 600000 : 120000; }
void monitor_setup() {}
}
struct Ex { bool ok; __int128 n; }; // the integer the number is equal to, if any
static Ex exact(Num const & a) {
  if (a.is_int) return {true, a.n};
  if (a.im != 0 || a.im != a.im) return {false, 0};
  if (!std::isfinite(a.re) || a.re != std::floor(a.re)) return {false, 0};
  if (std::fabs(a.re) >= 1e30) return {false, 0};
  return {true, (__int128)a.re};
}
template <class X> static bool fits(__int128 n) { return n >= (__int128)std::numeric_limits<X>::min() && n <= (__int128)std::numeric_limits<X>::max(); }
static string i128(__int128 n) { bool neg = n < 0; if (neg) n = -n; string s; do { s.insert(s.begin(), char('0' + int(n % 10))); n /= 10; } while (n); return neg ? "-" + s : s; }

// integer conversion of one number: f returns true and sets x, or false/throws
template <class X, class F> static void int_read(Ctx & c, char const * name, Value const & v, Num const & a, bool must, F f) {
  X x = X(0x5b); X const keep = x;
  bool ok = false, thrown = false;
  try { ok = f(x); } catch (Violation const &) { throw; } catch (std::bad_alloc const &) { throw; } catch (std::exception const &) { thrown = true; }
  Ex e = exact(a);
  c.count("int_conversions");
  if (ok && !thrown) REQ(e.ok && (__int128)x == e.n, "wrong-number", name << " of " << show(v) << " gave " << i128(x));
  else {
    if (e.ok && fits<X>(e.n) && must) c.fail("representable-refused", STR(name << " of " << show(v) << " reported a failure although the value is representable"));
    if (!thrown) REQ(x == keep, "output-touched", name << " of " << show(v) << " reported failure but set the output to " << i128(x));
    c.count("int_refused");
  }
}
static bool nearest_ok(double got, Num const & a) { return beq(got, nearest(a)); }
template <class F> static void real_read(Ctx & c, char const * name, Value const & v, Num const & a, F f) {
  double x = 3.25e7, keep = x; bool ok = false, thrown = false;
  try { ok = f(x); } catch (Violation const &) { throw; } catch (std::exception const &) { thrown = true; }
  c.count("real_conversions");
  bool im0 = a.is_int || a.im == 0;
  if (ok && !thrown) REQ(im0 && nearest_ok(x, a), "wrong-number", name << " of " << show(v) << " gave " << x);
  else { if (!thrown) REQ(beq(x, keep), "output-touched", name << " of " << show(v) << " reported failure but set the output"); }
  return;
}
void H::run_case(Ctx & c) {
  Opt o; o.subnormal = false; o.max_depth = 1;
  static const T sc[] = {T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::LONG, T::REAL, T::COMPLEX};
  unsigned mode = unsigned(c.idx % 4);
  if (mode < 2) {
    Value v = gtyped(c.r, sc[c.r.below(8)], o);
    if (v.t == T::COMPLEX && c.r.chance(1, 2)) v.c = cplx(c.r.chance(1, 2) ? double(glong(c.r)) : greal(c.r, o), c.r.chance(3, 4) ? (c.r.chance(1, 2) ? 0.0 : -0.0) : v.c.imag());
    Num a = nums(v)[0];
    if (!a.is_int && a.im != 0) {}
    Gc m; string key = gkey(c.r, o); build(m[key], v); m["zz other"] = 1;
    Gc const & k = m(key); Gc const & mk = m;
    c.log("stored " + show(v) + " under key " + quote(key));
    bool cx = v.t == T::COMPLEX; (void)cx;
    // scalar readers
    int_read<int32_t>(c, "get_value<int>", v, a, true, [&](int32_t & x) { k.get_value(x); return true; });
    int_read<uint32_t>(c, "get_value<uint>", v, a, true, [&](uint32_t & x) { k.get_value(x); return true; });
    int_read<int64_t>(c, "get_value<long>", v, a, true, [&](int64_t & x) { k.get_value(x, "w"); return true; });
    int_read<uint64_t>(c, "get_value<ulong>", v, a, true, [&](uint64_t & x) { k.get_value(x, "w"); return true; });
    int_read<int32_t>(c, "get_as_int", v, a, true, [&](int32_t & x) { x = k.get_as_int(); return true; });
    int_read<uint32_t>(c, "get_as_uint", v, a, true, [&](uint32_t & x) { x = k.get_as_uint(); return true; });
    int_read<int64_t>(c, "get_as_long", v, a, true, [&](int64_t & x) { x = k.get_as_long(); return true; });
    int_read<uint64_t>(c, "get_as_ulong", v, a, true, [&](uint64_t & x) { x = k.get_as_ulong(); return true; });
    int_read<int32_t>(c, "get_map_int(key)", v, a, true, [&](int32_t & x) { x = mk.get_map_int(key); return true; });
    int_read<int32_t>(c, "get_map_int(keys)", v, a, true, [&](int32_t & x) { x = mk.get_map_int(vector<string>{"missing key", key}, "w"); return true; });
    int_read<int32_t>(c, "get_if_exists(int)", v, a, true, [&](int32_t & x) { return mk.get_if_exists(std::string_view(key), x); });
    int_read<uint32_t>(c, "get_if_exists(uint)", v, a, true, [&](uint32_t & x) { return mk.get_if_exists(std::string_view(key), x); });
    int_read<int64_t>(c, "get_if_exists(long)", v, a, true, [&](int64_t & x) { return mk.get_if_exists(std::string_view(key), x); });
    int_read<uint64_t>(c, "get_if_exists(ulong)", v, a, true, [&](uint64_t & x) { return mk.get_if_exists(std::string_view(key), x); });
    vector<string> ks{"nokey", key};
    int_read<int32_t>(c, "get_if_exists(keys,int)", v, a, true, [&](int32_t & x) { return mk.get_if_exists(ks, x); });
    int_read<uint64_t>(c, "get_if_exists(keys,ulong)", v, a, true, [&](uint64_t & x) { return mk.get_if_exists(ks, x); });
    bool im0 = a.is_int || a.im == 0;
    auto must_real = [&](char const * nm, bool accepts_cx, auto f) {
      bool want = v.t != T::COMPLEX || (accepts_cx && im0);
      double x = 0; bool ok = false;
      try { ok = f(x); } catch (Violation const &) { throw; } catch (std::exception const &) {}
      c.count("real_conversions");
      REQ(ok == want || (ok && im0), "real-refused", nm << " of " << show(v) << (ok ? " was accepted" : " was refused"));
      if (ok) REQ(nearest_ok(x, a), "wrong-number", nm << " of " << show(v) << " gave " << x);
    };
    must_real("get_number", false, [&](double & x) { x = k.get_number(); return true; });
    must_real("get_value<double>", true, [&](double & x) { k.get_value(x); return true; });
    must_real("get_map_number(key)", false, [&](double & x) { x = mk.get_map_number(key); return true; });
    must_real("get_if_exists(real)", true, [&](double & x) { return mk.get_if_exists(std::string_view(key), x); });
    real_read(c, "get_if_exists(real)", v, a, [&](double & x) { return mk.get_if_exists(std::string_view(key), x); });
    { float x = 1; bool ok = false; try { k.get_value(x); ok = true; } catch (std::exception const &) {} c.count("real_conversions");
      REQ(ok == im0, "real-refused", "get_value<float> of " << show(v) << (ok ? " accepted" : " refused"));
      if (ok) { float w = a.is_int ? float(int64_t(a.n)) : float(a.re); REQ(std::memcmp(&w, &x, 4) == 0 || (w != w && x != x), "wrong-number", "get_value<float> of " << show(v) << " gave " << x); } }
    { cplx want = a.is_int ? cplx(nearest(a), 0) : cplx(a.re, a.im); cplx z = k.get_complex_number(); double re = 0, im = 0; k.get_complex_number(re, im); cplx y(9, 9); bool ok = mk.get_if_exists(std::string_view(key), y); c.count("complex_conversions", 3);
      REQ(beq(z, want) && beq(cplx(re, im), want) && ok && beq(y, want), "wrong-number", "get_complex_number/get_if_exists(complex) of " << show(v) << " gave " << num(z) << " " << num(y)); }
    { bool b = false, keep = b; bool ok = mk.get_if_exists(std::string_view(key), b); REQ(ok == (v.t == T::BOOL) && (ok ? b == v.b : b == keep), "wrong-number", "get_if_exists(bool) of " << show(v)); string s = "keep"; ok = mk.get_if_exists(std::string_view(key), s); REQ(!ok && s == "keep", "wrong-number", "get_if_exists(string) of " << show(v)); }
    { // missing key: nothing is touched
      int32_t x = 11; double d = 2.5; bool b = true; string s = "q"; cplx z(1, 2); uint32_t u = 3; int64_t l = 4; uint64_t ul = 5; std::string_view mi("no such key here");
      bool any = mk.get_if_exists(mi, x) | mk.get_if_exists(mi, d) | mk.get_if_exists(mi, b) | mk.get_if_exists(mi, s) | mk.get_if_exists(mi, z) | mk.get_if_exists(mi, u) | mk.get_if_exists(mi, l) | mk.get_if_exists(mi, ul);
      REQ(!any && x == 11 && d == 2.5 && b && s == "q" && z == cplx(1, 2) && u == 3 && l == 4 && ul == 5, "output-touched", "get_if_exists of a missing key"); }
    string e = diff(observe(k), v); REQ(e.empty(), "container-changed", e);
    c.mark(hash(v));
    if (c.idx < 64) c.sample = "scalar " + show(v);
    return;
  }
  if (c.idx % 12 == 3) { // what is no number must be refused by every reader of one number
    static const T nn[] = {T::NOTYPE, T::POINTER, T::STRING, T::VEC_POINTER, T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX, T::VEC_STRING, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX, T::VECTOR, T::MAP};
    Value v = gtyped(c.r, nn[(c.idx / 12) % 16], o); if (v.t == T::STRING && c.r.chance(1, 2)) v.s = std::to_string(gint(c.r));
    Gc m; string key = gkey(c.r, o); build(m[key], v); m["zz other"] = 1; Gc const & mk = m; Gc const & k = mk(key); c.log("stored " + show(v) + " under key " + quote(key));
    std::string_view kv(key); vector<string> ks{"nokey", key}, k1{key};
    auto no = [&](char const * nm, auto x, auto f) { auto const keep = x; bool ok = false; try { ok = f(x); } catch (Violation const &) { throw; } catch (std::bad_alloc const &) { throw; } catch (std::exception const &) {} c.count("non_numbers"); REQ(!ok, "no-number-accepted", nm << " of " << show(v) << " was accepted"); REQ(x == keep, "output-touched", nm << " of " << show(v) << " reported failure but set the output"); };
    no("get_value<int>", int32_t(91), [&](auto & x) { k.get_value(x); return true; }); no("get_value<uint>", uint32_t(91), [&](auto & x) { k.get_value(x); return true; }); no("get_value<long>", int64_t(91), [&](auto & x) { k.get_value(x); return true; }); no("get_value<ulong>", uint64_t(91), [&](auto & x) { k.get_value(x); return true; });
    no("get_value<double>", 91.5, [&](auto & x) { k.get_value(x); return true; }); no("get_value<float>", 91.5f, [&](auto & x) { k.get_value(x); return true; });
    no("get_as_int", int32_t(91), [&](auto & x) { x = k.get_as_int(); return true; }); no("get_as_uint", uint32_t(91), [&](auto & x) { x = k.get_as_uint(); return true; }); no("get_as_long", int64_t(91), [&](auto & x) { x = k.get_as_long(); return true; }); no("get_as_ulong", uint64_t(91), [&](auto & x) { x = k.get_as_ulong(); return true; });
    no("get_number", 91.5, [&](auto & x) { x = k.get_number(); return true; }); no("get_complex_number", cplx(91.5, 2), [&](auto & x) { x = k.get_complex_number(); return true; }); no("get_complex_number(re,im)", 91.5, [&](auto & x) { double im = 0; k.get_complex_number(x, im); return true; });
    no("get_map_int(key)", int32_t(91), [&](auto & x) { x = mk.get_map_int(key); return true; }); no("get_map_int(keys)", int32_t(91), [&](auto & x) { x = mk.get_map_int(k1, "w"); return true; }); no("get_map_number(key)", 91.5, [&](auto & x) { x = mk.get_map_number(key); return true; }); no("get_map_number(keys)", 91.5, [&](auto & x) { x = mk.get_map_number(k1, "w"); return true; });
    no("get_if_exists(int)", int32_t(91), [&](auto & x) { return mk.get_if_exists(kv, x); }); no("get_if_exists(uint)", uint32_t(91), [&](auto & x) { return mk.get_if_exists(kv, x); }); no("get_if_exists(long)", int64_t(91), [&](auto & x) { return mk.get_if_exists(kv, x); }); no("get_if_exists(ulong)", uint64_t(91), [&](auto & x) { return mk.get_if_exists(kv, x); });
    no("get_if_exists(real)", 91.5, [&](auto & x) { return mk.get_if_exists(kv, x); }); no("get_if_exists(complex)", cplx(91.5, 2), [&](auto & x) { return mk.get_if_exists(kv, x); }); no("get_if_exists(bool)", true, [&](auto & x) { return mk.get_if_exists(kv, x); });
    no("get_if_exists(keys,int)", int32_t(91), [&](auto & x) { return mk.get_if_exists(ks, x); }); no("get_if_exists(keys,uint)", uint32_t(91), [&](auto & x) { return mk.get_if_exists(ks, x); }); no("get_if_exists(keys,long)", int64_t(91), [&](auto & x) { return mk.get_if_exists(ks, x); }); no("get_if_exists(keys,ulong)", uint64_t(91), [&](auto & x) { return mk.get_if_exists(ks, x); }); no("get_if_exists(keys,real)", 91.5, [&](auto & x) { return mk.get_if_exists(ks, x); }); no("get_if_exists(keys,complex)", cplx(91.5, 2), [&](auto & x) { return mk.get_if_exists(ks, x); });
    if (v.t != T::STRING) no("get_if_exists(string)", string("keep"), [&](auto & x) { return mk.get_if_exists(kv, x); });
    string e = diff(observe(k), v); REQ(e.empty(), "container-changed", e); c.mark(hash(v)); return;
  }
  // lists
  static const T li[] = {T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX, T::VECTOR, T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::NOTYPE, T::STRING, T::MAP, T::POINTER, T::VEC_POINTER, T::VEC_STRING};
  T t = li[c.r.below(mode == 2 ? 15 : 21)];
  Value v;
  bool small = c.r.chance(1, 2); // representable everywhere
  unsigned low = c.r.chance(1, 3) ? 2 : 100000; auto tame = [&](Value & x) { for (auto & e : x.vi) if (small) e = int(c.r.below(std::min(low, 1000u))); for (auto & e : x.vl) if (small) e = int(c.r.below(low)); for (auto & e : x.vr) if (small) e = double(c.r.below(100000)); for (auto & e : x.vc) if (small) e = double(c.r.below(1000)); if (small) { if (x.t == T::INTEGER) x.i = int(c.r.below(1000)); if (x.t == T::LONG) x.l = int(c.r.below(1000)); if (x.t == T::REAL) x.r = double(c.r.below(1000)); if (x.t == T::COMPLEX) x.c = double(c.r.below(1000)); } };
  if (t == T::VECTOR) { // generic vector of numbers, or of equal-length columns
    v.t = t; unsigned n = unsigned(c.r.below(5)), rows = unsigned(c.r.below(4)); if (c.r.chance(1, 12)) n = 5 + unsigned(c.r.below(c.r.chance(1, 6) ? 300 : 36)); if (c.r.chance(1, 12)) rows = 4 + unsigned(c.r.below(c.r.chance(1, 6) ? 300 : 36)); bool cols = c.r.chance(1, 2), ragged = c.r.chance(1, 8);
    for (unsigned k = 0; k < n; ++k) {
      Value x;
      if (cols) { static const T ct[] = {T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX}; x = mk(ct[c.r.below(5)]); unsigned m = rows + (ragged ? unsigned(c.r.below(2)) : 0); for (unsigned q = 0; q < m; ++q) { Value y = gtyped(c.r, T::LONG, o); switch (x.t) { case T::VEC_BOOL: x.vb.push_back(y.l & 1); break; case T::VEC_INTEGER: x.vi.push_back(gint(c.r)); break; case T::VEC_LONG: x.vl.push_back(y.l); break; case T::VEC_REAL: x.vr.push_back(greal(c.r, o)); break; default: x.vc.push_back(gcplx(c.r, o)); } } }
      else x = gtyped(c.r, sc[c.r.below(8)], o);
      tame(x); v.v.push_back(x);
    }
  } else if (c.idx % 1999 == 3) { t = li[c.idx / 1999 % 9]; Opt h = o; h.huge_max = 70000; do v = ghuge(c.r, h, t); while (count_of(v) < 65536 && c.r.chance(3, 4)); small = small || c.r.chance(1, 2); tame(v); c.count("huge_lists");
  } else { v = gtyped(c.r, t, o); tame(v); }
  Gc g; build(g, v); Gc const & k = g;
  c.log("stored " + show(v));
  vector<Num> want; bool numeric = true, flat = true;
  if (v.t == T::VECTOR) { for (auto & x : v.v) { auto a = nums(x); if (a.size() == 1 && is_scalar(x.t)) want.push_back(a[0]); else flat = false; } }
  else { want = nums(v); numeric = rank_of(v.t) >= 0 || v.t == T::NOTYPE; }
  auto list = [&](char const * name, auto tag, auto f) {
    using X = decltype(tag);
    vector<X> w(2, X(7));
    bool thrown = throws([&] { f(w); });
    c.count("list_conversions");
    if (!thrown) {
      REQ((flat && numeric && w.size() == want.size()) || (count_of(v) == 0 && w.empty()), "wrong-list", name << " of " << show(v) << " gave " << w.size() << " elements");
      for (size_t q = 0; q < w.size(); ++q) {
        if constexpr (std::is_integral_v<X>) { Ex e = exact(want[q]); REQ(e.ok && (__int128)w[q] == e.n, "wrong-number", name << " of " << show(v) << " gave " << i128(w[q]) << " at " << q); }
        else if constexpr (std::is_same_v<X, double>) REQ((want[q].is_int || want[q].im == 0) && nearest_ok(w[q], want[q]), "wrong-number", name << " of " << show(v) << " gave " << w[q] << " at " << q);
        else REQ(beq(w[q], want[q].is_int ? cplx(nearest(want[q]), 0) : cplx(want[q].re, want[q].im)), "wrong-number", name << " of " << show(v) << " gave " << num(w[q]) << " at " << q);
        c.count("list_elements");
      }
    } else {
      c.count("list_refused");
      // everything small and integral is representable in every type
      bool easy = numeric && flat && v.t != T::NOTYPE;
      for (auto & n : want) { Ex e = exact(n); __int128 lo = 0, hi = 1000000000; if constexpr (std::is_integral_v<X>) { lo = std::numeric_limits<X>::min(); hi = std::numeric_limits<X>::max(); if (std::is_same_v<X, uint32_t> && n.is_int) hi = std::numeric_limits<int32_t>::max(); } if (!e.ok || e.n < lo || e.n > hi) easy = false; if (v.t == T::VECTOR && !n.is_int) easy = false; }
      if constexpr (std::is_same_v<X, double>) if (v.t == T::VEC_REAL || v.t == T::MAT_REAL || v.t == T::VEC_LONG || v.t == T::MAT_LONG || v.t == T::VEC_INTEGER || v.t == T::MAT_INTEGER || v.t == T::VEC_BOOL) easy = true;
      if constexpr (std::is_same_v<X, cplx>) if (numeric && flat && v.t != T::NOTYPE) easy = true;
      REQ(!easy, "representable-refused", name << " of " << show(v) << " threw");
    }
    string e = diff(observe(k), v); REQ(e.empty(), "container-changed", name << ": " << e);
  };
  list("copyto_vec_int", int32_t(), [&](auto & w) { k.copyto_vec_int(w); });
  list("copyto_vec_uint", uint32_t(), [&](auto & w) { k.copyto_vec_uint(w); });
  list("copyto_vec_long", int64_t(), [&](auto & w) { k.copyto_vec_long(w); });
  list("copyto_vec_ulong", uint64_t(), [&](auto & w) { k.copyto_vec_ulong(w); });
  list("copyto_vec_real", double(), [&](auto & w) { k.copyto_vec_real(w); });
  list("copyto_vec_complex", cplx(), [&](auto & w) { k.copyto_vec_complex(w); });
  // matrices: column by column
  unsigned nr = 0, nc = 0; vector<Num> mw; bool shape = true;
  if (v.t == T::NOTYPE) { nr = nc = 1; mw.push_back(N(int32_t(0))); }
  else if (is_scalar(v.t) && numeric) { nr = nc = 1; mw = want; }
  else if (is_vec(v.t) && numeric) { nr = unsigned(want.size()); nc = 1; mw = want; }
  else if (is_mat(v.t)) { nr = v.nr; nc = v.nc; mw = want; }
  else if (v.t == T::VECTOR) { nc = unsigned(v.v.size()); nr = nc ? count_of(v.v[0]) : 0; for (auto & x : v.v) { auto a = nums(x); if (a.size() != nr) shape = false; mw.insert(mw.end(), a.begin(), a.end()); } if (!nc) shape = false; }
  else shape = false;
  auto matr = [&](char const * name, auto m, bool must, auto f) {
    using X = std::decay_t<decltype(m[0])>;
    m.resize(2, 3);
    bool thrown = throws([&] { f(m); });
    c.count("matrix_conversions");
    if (!thrown) {
      REQ(shape && m.num_rows() == nr && m.num_cols() == nc && m.size() == mw.size(), "wrong-shape", name << " of " << show(v) << " gave " << m.num_rows() << "x" << m.num_cols() << " (" << m.size() << ")");
      for (unsigned j = 0; j < nc; ++j) for (unsigned i = 0; i < nr; ++i) {
        Num const & n = mw[i + size_t(j) * nr]; X x = m(i, j);
        if constexpr (std::is_integral_v<X>) { Ex e = exact(n); REQ(e.ok && (__int128)x == e.n, "wrong-number", name << " of " << show(v) << " gave " << i128(x) << " at " << i << "," << j); }
        else if constexpr (std::is_same_v<X, double>) REQ((n.is_int || n.im == 0) && nearest_ok(x, n), "wrong-number", name << " of " << show(v) << " gave " << x << " at " << i << "," << j);
        else REQ(beq(x, n.is_int ? cplx(nearest(n), 0) : cplx(n.re, n.im)), "wrong-number", name << " of " << show(v) << " gave " << num(x) << " at " << i << "," << j);
        c.count("matrix_elements");
      }
    } else { c.count("matrix_refused"); REQ(!(must && shape), "representable-refused", name << " of " << show(v) << " threw"); }
    string e = diff(observe(k), v); REQ(e.empty(), "container-changed", name << ": " << e);
  };
  int rk = rank_of(v.t);
  bool vs_ok = v.t == T::VECTOR; if (vs_ok) for (auto & x : v.v) if (!is_vec(x.t) || rank_of(x.t) < 0) vs_ok = false;
  matr("copyto_mat_int", Gc::mat_int_type(), v.t == T::NOTYPE || (rk >= 0 && rk <= 1), [&](auto & m) { k.copyto_mat_int(m); });
  matr("copyto_mat_long", Gc::mat_long_type(), v.t == T::NOTYPE || (rk >= 0 && rk <= 2), [&](auto & m) { k.copyto_mat_long(m); });
  matr("copyto_mat_real", Gc::mat_real_type(), v.t == T::NOTYPE || (rk >= 0 && rk <= 3), [&](auto & m) { k.copyto_mat_real(m); });
  matr("copyto_mat_complex", Gc::mat_complex_type(), v.t == T::NOTYPE || rk >= 0 || vs_ok, [&](auto & m) { k.copyto_mat_complex(m); });
  c.mark(hash(v));
  if (c.idx < 64) c.sample = "list " + show(v, 200);
}
