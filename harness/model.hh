// Reference model of a container: an independent tree of values, how to read
// it out of a container (observe) and how to put it into one (build).
#pragma once
#include "h.hh"
#include <GenericContainer/GenericContainer.hh>
#include <complex>
#include <cmath>
#include <climits>
#include <cfloat>
#include <memory>
#include <functional>
#include <optional>
#include <algorithm>
#include <set>

namespace M {
using namespace H;
using GC_namespace::GenericContainer;
using GC_namespace::GC_type;
using Gc = GenericContainer;
using cplx = std::complex<double>;
using std::string;
using std::vector;
typedef GC_namespace::GC_type T;

struct Value {
  T t = T::NOTYPE;
  void * p = nullptr; bool b = false; int32_t i = 0; int64_t l = 0; double r = 0; cplx c{0, 0}; string s;
  vector<void *> vp; vector<bool> vb; vector<int32_t> vi; vector<int64_t> vl; vector<double> vr; vector<cplx> vc; vector<string> vs;
  unsigned nr = 0, nc = 0;           // matrices: entries column by column in vi/vl/vr/vc
  vector<Value> v;
  std::map<string, Value> m;
  Value() = default;
};

inline Value mk(T t) { Value v; v.t = t; return v; }
inline Value P(void * x) { Value v; v.t = T::POINTER; v.p = x; return v; }
inline Value B(bool x) { Value v; v.t = T::BOOL; v.b = x; return v; }
inline Value I(int32_t x) { Value v; v.t = T::INTEGER; v.i = x; return v; }
inline Value L(int64_t x) { Value v; v.t = T::LONG; v.l = x; return v; }
inline Value R(double x) { Value v; v.t = T::REAL; v.r = x; return v; }
inline Value C(cplx x) { Value v; v.t = T::COMPLEX; v.c = x; return v; }
inline Value S(string x) { Value v; v.t = T::STRING; v.s = std::move(x); return v; }
inline Value VI(vector<int32_t> x) { Value v; v.t = T::VEC_INTEGER; v.vi = std::move(x); return v; }
inline Value VL(vector<int64_t> x) { Value v; v.t = T::VEC_LONG; v.vl = std::move(x); return v; }
inline Value VR(vector<double> x) { Value v; v.t = T::VEC_REAL; v.vr = std::move(x); return v; }
inline Value VC(vector<cplx> x) { Value v; v.t = T::VEC_COMPLEX; v.vc = std::move(x); return v; }
inline Value VB(vector<bool> x) { Value v; v.t = T::VEC_BOOL; v.vb = std::move(x); return v; }
inline Value VS(vector<string> x) { Value v; v.t = T::VEC_STRING; v.vs = std::move(x); return v; }
inline Value VV(vector<Value> x) { Value v; v.t = T::VECTOR; v.v = std::move(x); return v; }

inline char const * tname(T t) {
  static char const * n[] = {"NOTYPE", "pointer", "bool_type", "int_type", "long_type", "real_type", "complex_type", "string_type",
    "vec_pointer_type", "vec_bool_type", "vec_int_type", "vec_long_type", "vec_real_type", "vec_complex_type", "vec_string_type",
    "mat_int_type", "mat_long_type", "mat_real_type", "mat_complex_type", "vector_type", "map_type"};
  return unsigned(t) < 21 ? n[unsigned(t)] : "?";
}
constexpr unsigned NT = 21;
inline bool is_mat(T t) { return t >= T::MAT_INTEGER && t <= T::MAT_COMPLEX; }
inline bool is_vec(T t) { return t >= T::VEC_POINTER && t <= T::VEC_STRING; }
inline bool is_scalar(T t) { return t >= T::POINTER && t <= T::STRING; }

inline bool beq(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
inline bool beq(cplx a, cplx b) { return beq(a.real(), b.real()) && beq(a.imag(), b.imag()); }

inline unsigned count_of(Value const & v) {
  switch (v.t) {
  case T::NOTYPE: return 0;
  case T::VEC_POINTER: return unsigned(v.vp.size());
  case T::VEC_BOOL: return unsigned(v.vb.size());
  case T::VEC_INTEGER: case T::MAT_INTEGER: return unsigned(v.vi.size());
  case T::VEC_LONG: case T::MAT_LONG: return unsigned(v.vl.size());
  case T::VEC_REAL: case T::MAT_REAL: return unsigned(v.vr.size());
  case T::VEC_COMPLEX: case T::MAT_COMPLEX: return unsigned(v.vc.size());
  case T::VEC_STRING: return unsigned(v.vs.size());
  case T::VECTOR: return unsigned(v.v.size());
  case T::MAP: return unsigned(v.m.size());
  default: return 1;
  }
}

inline string num(double x) { char b[40]; std::snprintf(b, 40, "%.17g", x); return b; }
inline string num(cplx x) { return "(" + num(x.real()) + "," + num(x.imag()) + ")"; }
inline string show(Value const & v, size_t lim = 600) {
  string o;
  auto list = [&](auto const & a, auto f, char const * pre) {
    o += pre; o += "[";
    for (size_t k = 0; k < a.size(); ++k) { if (k) o += ","; if (o.size() > lim) { o += "..."; break; } o += f(a[k]); }
    o += "]";
  };
  auto fi = [](auto x) { return std::to_string(x); };
  auto fr = [](auto x) { return num(x); };
  auto fs = [](string const & x) { return quote(x.size() > 80 ? x.substr(0, 80) + "~" : x); };
  auto fp = [](void * x) { char b[32]; std::snprintf(b, 32, "%p", x); return string(b); };
  auto shp = [&](char const * n) { return string(n) + std::to_string(v.nr) + "x" + std::to_string(v.nc); };
  switch (v.t) {
  case T::NOTYPE: return "null";
  case T::POINTER: return fp(v.p);
  case T::BOOL: return v.b ? "true" : "false";
  case T::INTEGER: return "i" + fi(v.i);
  case T::LONG: return "l" + fi(v.l);
  case T::REAL: return "r" + num(v.r);
  case T::COMPLEX: return "c" + num(v.c);
  case T::STRING: return fs(v.s);
  case T::VEC_POINTER: list(v.vp, fp, "P"); break;
  case T::VEC_BOOL: list(v.vb, [](bool x) { return string(x ? "t" : "f"); }, "B"); break;
  case T::VEC_INTEGER: list(v.vi, fi, "I"); break;
  case T::VEC_LONG: list(v.vl, fi, "L"); break;
  case T::VEC_REAL: list(v.vr, fr, "R"); break;
  case T::VEC_COMPLEX: list(v.vc, fr, "C"); break;
  case T::VEC_STRING: list(v.vs, fs, "S"); break;
  case T::MAT_INTEGER: list(v.vi, fi, shp("MI").c_str()); break;
  case T::MAT_LONG: list(v.vl, fi, shp("ML").c_str()); break;
  case T::MAT_REAL: list(v.vr, fr, shp("MR").c_str()); break;
  case T::MAT_COMPLEX: list(v.vc, fr, shp("MC").c_str()); break;
  case T::VECTOR: list(v.v, [&](Value const & x) { return show(x, lim / 2); }, "V"); break;
  case T::MAP: { o = "{"; bool first = true; for (auto & kv : v.m) { if (!first) o += ", "; first = false; if (o.size() > lim) { o += "..."; break; } o += fs(kv.first) + ":" + show(kv.second, lim / 2); } o += "}"; break; }
  }
  return o;
}

// exact comparison; returns the first difference or ""
inline string diff(Value const & a, Value const & b, string const & path = "$") {
  if (a.t != b.t) return path + ": type " + tname(a.t) + " (" + show(a, 120) + ") != " + tname(b.t) + " (" + show(b, 120) + ")";
  auto list = [&](auto const & x, auto const & y, auto eq) -> string {
    if (x.size() != y.size()) return path + ": size " + std::to_string(x.size()) + " != " + std::to_string(y.size());
    for (size_t k = 0; k < x.size(); ++k) if (!eq(x[k], y[k])) return path + "[" + std::to_string(k) + "]: " + show(a, 200) + " != " + show(b, 200);
    return "";
  };
  auto eq = [](auto const & x, auto const & y) { return x == y; };
  auto be = [](auto const & x, auto const & y) { return beq(x, y); };
  auto bad = [&](bool same) { return same ? string() : path + ": " + show(a, 200) + " != " + show(b, 200); };
  if (is_mat(a.t) && (a.nr != b.nr || a.nc != b.nc)) return path + ": shape " + std::to_string(a.nr) + "x" + std::to_string(a.nc) + " != " + std::to_string(b.nr) + "x" + std::to_string(b.nc);
  switch (a.t) {
  case T::NOTYPE: return "";
  case T::POINTER: return bad(a.p == b.p);
  case T::BOOL: return bad(a.b == b.b);
  case T::INTEGER: return bad(a.i == b.i);
  case T::LONG: return bad(a.l == b.l);
  case T::REAL: return bad(beq(a.r, b.r));
  case T::COMPLEX: return bad(beq(a.c, b.c));
  case T::STRING: return bad(a.s == b.s);
  case T::VEC_POINTER: return list(a.vp, b.vp, eq);
  case T::VEC_BOOL: return list(a.vb, b.vb, eq);
  case T::VEC_INTEGER: case T::MAT_INTEGER: return list(a.vi, b.vi, eq);
  case T::VEC_LONG: case T::MAT_LONG: return list(a.vl, b.vl, eq);
  case T::VEC_REAL: case T::MAT_REAL: return list(a.vr, b.vr, be);
  case T::VEC_COMPLEX: case T::MAT_COMPLEX: return list(a.vc, b.vc, be);
  case T::VEC_STRING: return list(a.vs, b.vs, eq);
  case T::VECTOR:
    if (a.v.size() != b.v.size()) return path + ": size " + std::to_string(a.v.size()) + " != " + std::to_string(b.v.size());
    for (size_t k = 0; k < a.v.size(); ++k) { string d = diff(a.v[k], b.v[k], path + "[" + std::to_string(k) + "]"); if (!d.empty()) return d; }
    return "";
  case T::MAP: {
    auto x = a.m.begin(); auto y = b.m.begin();
    for (; x != a.m.end() && y != b.m.end(); ++x, ++y) {
      if (x->first != y->first) return path + ": key " + quote(x->first) + " != " + quote(y->first);
      string d = diff(x->second, y->second, path + "." + quote(x->first)); if (!d.empty()) return d;
    }
    if (x != a.m.end()) return path + ": key " + quote(x->first) + " only in the first";
    if (y != b.m.end()) return path + ": key " + quote(y->first) + " only in the second";
    return "";
  }
  }
  return path + ": unknown type";
}
inline bool same(Value const & a, Value const & b) { return diff(a, b).empty(); }

inline uint64_t hash(Value const & v) {
  uint64_t h = mix64(uint64_t(v.t) + 77);
  auto add = [&](uint64_t x) { h = mix64(h ^ x); };
  auto addb = [&](void const * p, size_t n) { uint64_t k = 1469598103934665603ull; auto q = static_cast<unsigned char const *>(p); for (size_t i = 0; i < n; ++i) k = (k ^ q[i]) * 1099511628211ull; add(k); };
  add(uint64_t(v.p)); add(v.b); add(uint64_t(v.i)); add(uint64_t(v.l)); addb(&v.r, 8); addb(&v.c, 16); addb(v.s.data(), v.s.size());
  addb(v.vp.data(), v.vp.size() * 8); for (bool b : v.vb) add(b); addb(v.vi.data(), v.vi.size() * 4); addb(v.vl.data(), v.vl.size() * 8); addb(v.vr.data(), v.vr.size() * 8); addb(v.vc.data(), v.vc.size() * 16);
  for (auto & s : v.vs) addb(s.data(), s.size());
  add(v.nr); add(v.nc);
  for (auto & x : v.v) add(hash(x));
  for (auto & x : v.m) { addb(x.first.data(), x.first.size()); add(hash(x.second)); }
  return h;
}

// Reads a container through its const readers only.
inline Value observe(Gc const & g, int depth = 0) {
  Value v; v.t = g.get_type();
  if (depth > 3000) throw std::runtime_error("observe: too deep");
  auto mat = [&](auto const & m, auto & out) { v.nr = m.num_rows(); v.nc = m.num_cols(); out.assign(m.begin(), m.end()); };
  switch (v.t) {
  case T::NOTYPE: break;
  case T::POINTER: v.p = g.get_pvoid(); break;
  case T::BOOL: v.b = g.get_bool(); break;
  case T::INTEGER: v.i = g.get_int(); break;
  case T::LONG: v.l = g.get_long(); break;
  case T::REAL: v.r = g.get_real(); break;
  case T::COMPLEX: v.c = g.get_complex(); break;
  case T::STRING: v.s = string(g.get_string()); break;
  case T::VEC_POINTER: v.vp = g.get_vec_pointer(); break;
  case T::VEC_BOOL: v.vb = g.get_vec_bool(); break;
  case T::VEC_INTEGER: v.vi = g.get_vec_int(); break;
  case T::VEC_LONG: v.vl = g.get_vec_long(); break;
  case T::VEC_REAL: v.vr = g.get_vec_real(); break;
  case T::VEC_COMPLEX: v.vc = g.get_vec_complex(); break;
  case T::VEC_STRING: v.vs = g.get_vec_string(); break;
  case T::MAT_INTEGER: mat(g.get_mat_int(), v.vi); break;
  case T::MAT_LONG: mat(g.get_mat_long(), v.vl); break;
  case T::MAT_REAL: mat(g.get_mat_real(), v.vr); break;
  case T::MAT_COMPLEX: mat(g.get_mat_complex(), v.vc); break;
  case T::VECTOR: for (auto const & x : g.get_vector()) v.v.push_back(observe(x, depth + 1)); break;
  case T::MAP: for (auto const & x : g.get_map()) v.m.emplace(x.first, observe(x.second, depth + 1)); break;
  default: throw Violation{"bad-type-tag", "a container carries the type tag " + std::to_string(int(v.t)) + ", which is no type"};
  }
  return v;
}

// Puts a value into a container by one plain route.
template <class MT, class E> MT make_mat(Value const & v, vector<E> const & e) { MT m(v.nr, v.nc); for (size_t k = 0; k < e.size(); ++k) m[k] = e[k]; return m; }
inline void build(Gc & g, Value const & v) {
  switch (v.t) {
  case T::NOTYPE: g.clear(); break;
  case T::POINTER: g.set_pointer(v.p); break;
  case T::BOOL: g.set_bool(v.b); break;
  case T::INTEGER: g.set_int(v.i); break;
  case T::LONG: g.set_long(v.l); break;
  case T::REAL: g.set_real(v.r); break;
  case T::COMPLEX: g.set_complex(v.c); break;
  case T::STRING: g.set_string(v.s); break;
  case T::VEC_POINTER: g.set_vec_pointer(v.vp); break;
  case T::VEC_BOOL: g.set_vec_bool(v.vb); break;
  case T::VEC_INTEGER: g.set_vec_int(v.vi); break;
  case T::VEC_LONG: g.set_vec_long(v.vl); break;
  case T::VEC_REAL: g.set_vec_real(v.vr); break;
  case T::VEC_COMPLEX: g.set_vec_complex(v.vc); break;
  case T::VEC_STRING: g.set_vec_string(v.vs); break;
  case T::MAT_INTEGER: g.set_mat_int(make_mat<Gc::mat_int_type>(v, v.vi)); break;
  case T::MAT_LONG: g.set_mat_long(make_mat<Gc::mat_long_type>(v, v.vl)); break;
  case T::MAT_REAL: g.set_mat_real(make_mat<Gc::mat_real_type>(v, v.vr)); break;
  case T::MAT_COMPLEX: g.set_mat_complex(make_mat<Gc::mat_complex_type>(v, v.vc)); break;
  case T::VECTOR: { g.clear(); auto & x = g.set_vector(unsigned(v.v.size())); for (size_t k = 0; k < v.v.size(); ++k) build(x[k], v.v[k]); break; }
  case T::MAP: { g.clear(); auto & x = g.set_map(); for (auto & kv : v.m) build(x[kv.first], kv.second); break; }
  }
}

// runs f; 0 = returned, 1 = threw std::exception (what() kept)
template <class F> bool throws(F f, string * what = nullptr) {
  try { f(); return false; }
  catch (Violation const &) { throw; }
  catch (std::bad_alloc const &) { throw Violation{"bad-alloc", "bad_alloc although no allocation failure was injected"}; }
  catch (std::exception const & e) { if (what) *what = e.what(); return true; }
}

// all numbers of a numeric value as complex long double pairs, for value comparison
struct Num { bool is_int = true; __int128 n = 0; double re = 0, im = 0; };
inline Num N(bool x) { Num a; a.n = x; return a; }
inline Num N(int32_t x) { Num a; a.n = x; return a; }
inline Num N(int64_t x) { Num a; a.n = x; return a; }
inline Num N(double x) { Num a; a.is_int = false; a.re = x; return a; }
inline Num N(cplx x) { Num a; a.is_int = false; a.re = x.real(); a.im = x.imag(); return a; }
// the double nearest to a 64-bit integer is what the FPU gives
inline double nearest(Num const & a) { return a.is_int ? double(int64_t(a.n)) : a.re; }
} // namespace M
