// Reference semantics of promotion and push on the model.
#pragma once
#include "routes.hh"
#include <optional>
namespace G {
enum Target { P_INT, P_LONG, P_REAL, P_COMPLEX, P_VINT, P_VLONG, P_VREAL, P_VCOMPLEX, P_MINT, P_MLONG, P_MREAL, P_MCOMPLEX, P_VECTOR, P_COUNT };
inline char const * target_name(unsigned t) { static char const * n[] = {"int", "long", "real", "complex", "vec_int", "vec_long", "vec_real", "vec_complex", "mat_int", "mat_long", "mat_real", "mat_complex", "vector"}; return n[t]; }
// rank of the element type: 0 bool 1 int 2 long 3 real 4 complex
inline int rank_of(T t) {
  switch (t) {
  case T::BOOL: case T::VEC_BOOL: return 0;
  case T::INTEGER: case T::VEC_INTEGER: case T::MAT_INTEGER: return 1;
  case T::LONG: case T::VEC_LONG: case T::MAT_LONG: return 2;
  case T::REAL: case T::VEC_REAL: case T::MAT_REAL: return 3;
  case T::COMPLEX: case T::VEC_COMPLEX: case T::MAT_COMPLEX: return 4;
  default: return -1;
  }
}
inline vector<Num> nums(Value const & v) {
  vector<Num> o;
  switch (v.t) {
  case T::BOOL: o.push_back(N(v.b)); break;
  case T::INTEGER: o.push_back(N(v.i)); break;
  case T::LONG: o.push_back(N(v.l)); break;
  case T::REAL: o.push_back(N(v.r)); break;
  case T::COMPLEX: o.push_back(N(v.c)); break;
  case T::VEC_BOOL: for (bool x : v.vb) o.push_back(N(x)); break;
  case T::VEC_INTEGER: case T::MAT_INTEGER: for (auto x : v.vi) o.push_back(N(x)); break;
  case T::VEC_LONG: case T::MAT_LONG: for (auto x : v.vl) o.push_back(N(x)); break;
  case T::VEC_REAL: case T::MAT_REAL: for (auto x : v.vr) o.push_back(N(x)); break;
  case T::VEC_COMPLEX: case T::MAT_COMPLEX: for (auto x : v.vc) o.push_back(N(x)); break;
  default: break;
  }
  return o;
}
inline void put(Value & o, int rank, Num const & n) {
  switch (rank) {
  case 1: o.vi.push_back(int32_t(n.n)); break;
  case 2: o.vl.push_back(int64_t(n.n)); break;
  case 3: o.vr.push_back(nearest(n)); break;
  case 4: o.vc.push_back(n.is_int ? cplx(nearest(n), 0) : cplx(n.re, n.im)); break;
  }
}
inline Value list_as(Value const & v, int rank, bool mat, unsigned nr, unsigned nc) {
  Value o; static const T vt[] = {T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX}, mt[] = {T::NOTYPE, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX};
  o.t = mat ? mt[rank] : vt[rank]; o.nr = mat ? nr : 0; o.nc = mat ? nc : 0;
  for (auto & n : nums(v)) put(o, rank, n);
  return o;
}
inline Value elem(Value const & v, size_t k) { // element k of a simple vector as scalar
  switch (v.t) {
  case T::VEC_POINTER: return P(v.vp[k]);
  case T::VEC_BOOL: return B(v.vb[k]);
  case T::VEC_INTEGER: case T::MAT_INTEGER: return I(v.vi[k]);
  case T::VEC_LONG: case T::MAT_LONG: return L(v.vl[k]);
  case T::VEC_REAL: case T::MAT_REAL: return R(v.vr[k]);
  case T::VEC_COMPLEX: case T::MAT_COMPLEX: return C(v.vc[k]);
  case T::VEC_STRING: return S(v.vs[k]);
  case T::VECTOR: return v.v[k];
  default: return v;
  }
}
// the result of promoting v, or nothing when it has to be refused
inline std::optional<Value> promote(Value const & v, unsigned target) {
  int rk = rank_of(v.t);
  bool sc = is_scalar(v.t), ve = is_vec(v.t), ma = is_mat(v.t);
  auto scalar0 = [](int r) { return r == 1 ? I(0) : r == 2 ? L(0) : r == 3 ? R(0) : C(0); };
  if (target <= P_COMPLEX) {
    int want = int(target) + 1;
    if (v.t == T::NOTYPE) return scalar0(want);
    if (sc && rk >= 0 && rk <= want) {
      Num n = nums(v)[0];
      switch (want) { case 1: return I(int32_t(n.n)); case 2: return L(int64_t(n.n)); case 3: return R(nearest(n)); default: return n.is_int ? C(cplx(nearest(n), 0)) : C(cplx(n.re, n.im)); }
    }
    if (want == 4 && ve && rk >= 0 && rk <= 3) return list_as(v, 4, false, 0, 0); // vectors become vectors of complex
    return std::nullopt;
  }
  if (target <= P_VCOMPLEX) {
    int want = int(target) - P_VINT + 1;
    if (v.t == T::NOTYPE) { Value o = list_as(I(0), want, false, 0, 0); return o; }
    if ((sc || ve) && rk >= 0 && rk <= want) return list_as(v, want, false, 0, 0);
    return std::nullopt;
  }
  if (target <= P_MCOMPLEX) {
    int want = int(target) - P_MINT + 1;
    if (v.t == T::NOTYPE) return list_as(I(0), want, true, 1, 1);
    if (ma && rk <= want) return list_as(v, want, true, v.nr, v.nc);
    if (rk < 0 || rk > want) return std::nullopt;
    if (sc) {
      if ((want == 2 || want == 3) && v.t == T::LONG) return std::nullopt;
      if (want == 4 && v.t == T::COMPLEX) return std::nullopt;
      return list_as(v, want, true, 1, 1);
    }
    if (want == 4 && v.t == T::VEC_COMPLEX) return std::nullopt;
    return list_as(v, want, true, unsigned(nums(v).size()), 1);
  }
  // generic vector
  if (v.t == T::VECTOR) return v;
  if (v.t == T::NOTYPE) return VV({Value()});
  if (sc) return VV({v});
  if (ve) { Value o; o.t = T::VECTOR; for (size_t k = 0; k < count_of(v); ++k) o.v.push_back(elem(v, k)); return o; }
  return std::nullopt;
}
inline Gc const & do_promote(Gc & g, unsigned t) {
  switch (t) {
  case P_INT: return g.promote_to_int(); case P_LONG: return g.promote_to_long(); case P_REAL: return g.promote_to_real(); case P_COMPLEX: return g.promote_to_complex();
  case P_VINT: return g.promote_to_vec_int(); case P_VLONG: return g.promote_to_vec_long(); case P_VREAL: return g.promote_to_vec_real(); case P_VCOMPLEX: return g.promote_to_vec_complex();
  case P_MINT: return g.promote_to_mat_int(); case P_MLONG: return g.promote_to_mat_long(); case P_MREAL: return g.promote_to_mat_real(); case P_MCOMPLEX: return g.promote_to_mat_complex();
  default: return g.promote_to_vector();
  }
}
// result of pushing the scalar x on v, or nothing when refused
inline std::optional<Value> push(Value const & v, Value const & x) {
  int rk = rank_of(x.t);
  auto app = [&](Value o) { int r = rank_of(o.t); if (r == 0) o.vb.push_back(x.b); else put(o, r, nums(x)[0]); return o; };
  if (v.t == T::VECTOR) { Value o = v; o.v.push_back(x); return o; }
  if (x.t == T::STRING) {
    if (v.t == T::VEC_STRING) { Value o = v; o.vs.push_back(x.s); return o; }
    auto p = promote(v, P_VECTOR); if (!p) return p; p->v.push_back(x); return p;
  }
  if (is_vec(v.t) && rank_of(v.t) >= rk) return app(v);
  if (x.t == T::BOOL) return std::nullopt;
  auto p = promote(v, unsigned(P_VINT + rk - 1)); if (!p) return p;
  return app(*p);
}
inline void do_push(Rng & r, Gc & g, Value const & x) {
  switch (x.t) {
  case T::BOOL: g.push_bool(x.b); break;
  case T::INTEGER: g.push_int(x.i); break;
  case T::LONG: g.push_long(x.l); break;
  case T::REAL: g.push_real(x.r); break;
  case T::COMPLEX: if (r.chance(1, 2)) g.push_complex(x.c.real(), x.c.imag()); else { cplx z = x.c; g.push_complex(z); } break;
  default: { string pad = x.s + "zz"; g.push_string(std::string_view(pad.data(), x.s.size())); }
  }
}
// compaction of generic vectors
inline int vrank(T t) { return t >= T::VEC_BOOL && t <= T::VEC_COMPLEX ? rank_of(t) : -1; }
inline int srank(T t) { return t >= T::BOOL && t <= T::COMPLEX ? rank_of(t) : -1; }
inline Value collapsed(Value v) {
  if (v.t == T::MAP) { for (auto & kv : v.m) kv.second = collapsed(kv.second); return v; }
  if (v.t != T::VECTOR || v.v.empty()) return v;
  bool str = true, sc = true, ve = true; int mx = 0; size_t len = SIZE_MAX; bool eq = true;
  for (auto & x : v.v) {
    x = collapsed(x);
    if (x.t != T::STRING) str = false;
    if (srank(x.t) < 0) sc = false; else mx = std::max(mx, srank(x.t));
    if (vrank(x.t) < 0) ve = false; else { mx = std::max(mx, vrank(x.t)); if (len == SIZE_MAX) len = count_of(x); eq = eq && len == count_of(x); }
  }
  if (str) { Value o = mk(T::VEC_STRING); for (auto & x : v.v) o.vs.push_back(x.s); return o; }
  if (sc) {
    if (mx == 0) { Value o = mk(T::VEC_BOOL); for (auto & x : v.v) o.vb.push_back(x.b); return o; }
    static const T vt[] = {T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX};
    Value o = mk(vt[mx]); for (auto & x : v.v) put(o, mx, nums(x)[0]); return o;
  }
  if (ve && eq && mx > 0) {
    static const T mt[] = {T::NOTYPE, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX};
    Value o = mk(mt[mx]); o.nr = unsigned(len); o.nc = unsigned(v.v.size()); for (auto & x : v.v) for (auto & n : nums(x)) put(o, mx, n); return o;
  }
  return v;
}
// longs beyond 2^53 cannot share a vector with reals
inline bool lossy(Value const & v) {
  bool big = false, real = false;
  std::function<void(Value const &)> scan = [&](Value const & x) {
    if (x.t == T::LONG || x.t == T::VEC_LONG) for (auto & n : nums(x)) if (n.n > ((__int128)1 << 53) || n.n < -((__int128)1 << 53)) big = true;
    if (rank_of(x.t) >= 3) real = true;
    for (auto & e : x.v) scan(e);
  };
  if (v.t == T::VECTOR) { scan(v); if (big && real) return true; }
  for (auto & e : v.v) if (lossy(e)) return true;
  for (auto & e : v.m) if (lossy(e.second)) return true;
  return false;
}
} // namespace G
