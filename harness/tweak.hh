// Single-place changes of a value (used to build almost-equal pairs).
#pragma once
#include "gen.hh"
namespace G {
inline void tweak_leaf(Rng & r, Value & v, Opt const & o) {
  auto vec = [&](auto & x, auto f, auto change) {
    if (x.empty()) { if (!is_mat(v.t)) x.push_back(f()); else { v.nr++; v.nc = v.nc ? v.nc : 1; x.resize(size_t(v.nr) * v.nc); } return; }
    if (is_mat(v.t) && r.chance(1, 4)) { // another shape with the same number of entries, or one more row
      if (r.chance(1, 2)) { std::swap(v.nr, v.nc); return; }
      v.nr = v.nr + 1; x.resize(size_t(v.nr) * v.nc); return;
    }
    size_t k = r.chance(1, 3) ? x.size() - 1 : r.chance(1, 3) ? 0 : r.below(x.size());
    switch (is_mat(v.t) ? 0 : r.below(6)) {
    case 0: case 1: case 2: x[k] = change(x[k]); break;
    case 3: x.push_back(f()); break;
    case 4: x.pop_back(); break;
    default: std::swap(x[k], x[r.below(x.size())]); break;
    }
  };
  auto ci = [&](auto x) { using X = decltype(x); return r.chance(1, 2) ? X(x ^ (X(1) << r.below(sizeof(X) * 8 - 1))) : X(x == 0 ? 1 : 0); };
  auto cr = [&](double x) { if (r.chance(1, 6)) return -x; if (r.chance(1, 2) && std::isfinite(x)) return std::nextafter(x, r.chance(1, 2) ? 1e308 : -1e308); return greal(r, o); };
  auto cc = [&](cplx x) { return r.chance(1, 2) ? cplx(cr(x.real()), x.imag()) : cplx(x.real(), cr(x.imag())); };
  auto cs = [&](string s) { switch (r.below(5)) { case 0: return s + "x"; case 1: return s.empty() ? string("y") : s.substr(0, s.size() - 1); case 2: { if (s.empty()) return string(1, '\0'); size_t k = r.below(s.size()); s[k] = char(s[k] ^ (1 << r.below(8))); return s; } case 3: return s + string(1, '\0'); default: return gstr(r, o); } };
  switch (v.t) {
  case T::NOTYPE: v = gtyped(r, T(1 + r.below(NT - 1)), o, 3); break;
  case T::POINTER: v.p = gptr(r); break;
  case T::BOOL: v.b = !v.b; break;
  case T::INTEGER: v.i = ci(v.i); break;
  case T::LONG: v.l = ci(v.l); break;
  case T::REAL: v.r = cr(v.r); break;
  case T::COMPLEX: v.c = cc(v.c); break;
  case T::STRING: v.s = cs(v.s); break;
  case T::VEC_POINTER: vec(v.vp, [&] { return gptr(r); }, [&](void *) { return gptr(r); }); break;
  case T::VEC_BOOL: { if (v.vb.empty() || r.chance(1, 4)) v.vb.push_back(false); else if (r.chance(1, 3)) v.vb.pop_back(); else { size_t k = r.below(v.vb.size()); v.vb[k] = !v.vb[k]; } break; }
  case T::VEC_INTEGER: case T::MAT_INTEGER: vec(v.vi, [&] { return gint(r); }, ci); break;
  case T::VEC_LONG: case T::MAT_LONG: vec(v.vl, [&] { return glong(r); }, ci); break;
  case T::VEC_REAL: case T::MAT_REAL: vec(v.vr, [&] { return greal(r, o); }, cr); break;
  case T::VEC_COMPLEX: case T::MAT_COMPLEX: vec(v.vc, [&] { return gcplx(r, o); }, cc); break;
  case T::VEC_STRING: vec(v.vs, [&] { return gstr(r, o); }, cs); break;
  case T::VECTOR: if (v.v.empty() || r.chance(1, 2)) v.v.insert(v.v.begin() + long(r.below(v.v.size() + 1)), gtyped(r, T(r.below(8)), o)); else if (r.chance(1, 3)) v.v.pop_back(); else v.v.erase(v.v.begin() + long(r.below(v.v.size()))); break;
  case T::MAP: {
    if (v.m.empty() || r.chance(1, 3)) { v.m[gkey(r, o)] = gtyped(r, T(r.below(8)), o); break; }
    auto it = v.m.begin(); std::advance(it, long(r.below(v.m.size())));
    if (r.chance(1, 2)) { Value x = it->second; string k = cs(it->first); v.m.erase(it); v.m[k] = x; } // same entry under another key
    else v.m.erase(it);
    break; }
  }
}
// changes one random place of the tree
inline void tweak(Rng & r, Value & v, Opt const & o) {
  if (v.t == T::VECTOR && !v.v.empty() && r.chance(4, 5)) { tweak(r, v.v[r.chance(1, 3) ? v.v.size() - 1 : r.below(v.v.size())], o); return; }
  if (v.t == T::MAP && !v.m.empty() && r.chance(4, 5)) { auto it = v.m.begin(); std::advance(it, long(r.chance(1, 3) ? v.m.size() - 1 : r.below(v.m.size()))); tweak(r, it->second, o); return; }
  if (r.chance(1, 6)) { // same data in another representation
    switch (v.t) {
    case T::BOOL: v = I(v.b); return;
    case T::INTEGER: v = r.chance(1, 2) ? L(v.i) : R(v.i); return;
    case T::LONG: v = R(double(v.l)); return;
    case T::REAL: v = C(cplx(v.r, 0)); return;
    case T::STRING: v = VS({v.s}); return;
    case T::VEC_INTEGER: { Value w = mk(T::VEC_LONG); for (auto x : v.vi) w.vl.push_back(x); v = w; return; }
    case T::VEC_REAL: { Value w = mk(T::MAT_REAL); w.nr = unsigned(v.vr.size()); w.nc = 1; w.vr = v.vr; v = w; return; }
    case T::VEC_STRING: { Value w = mk(T::VECTOR); for (auto & x : v.vs) w.v.push_back(S(x)); v = w; return; }
    case T::MAP: if (v.m.empty()) { v = mk(T::VECTOR); return; } break;
    case T::VECTOR: if (v.v.empty()) { v = Value(); return; } break;
    default: break;
    }
  }
  tweak_leaf(r, v, o);
}
// zeros of either sign in place of some numbers
inline void some_zeros(Rng & r, Value & v) {
  auto z = [&] { return r.chance(1, 2) ? 0.0 : -0.0; };
  if (v.t == T::REAL) v.r = z();
  if (v.t == T::COMPLEX) v.c = cplx(r.chance(1, 2) ? z() : v.c.real(), z());
  for (auto & x : v.vr) if (r.chance(1, 2)) x = z();
  for (auto & x : v.vc) if (r.chance(1, 2)) x = cplx(z(), r.chance(1, 2) ? z() : x.imag());
}
// a value close to v: what a target may hold when v is written over it
inline Value grelated(Rng & r, Value const & v, Opt const & o) {
  Value w = v;
  auto sz = [&](auto & x, auto f) {
    using X = std::decay_t<decltype(x)>; (void)sizeof(X);
    if (is_mat(v.t)) {
      unsigned n = v.nr * v.nc;
      switch (r.below(4)) {
      case 0: std::swap(w.nr, w.nc); break;                                                   // the same count in another shape
      case 1: if (n) { unsigned k = 1 + unsigned(r.below(n)); while (n % k) --k; w.nr = k; w.nc = n / k; } break;
      case 2: w.nr = v.nr + (r.chance(1, 2) ? 1 : 0); w.nc = v.nc + (r.chance(1, 2) ? 1 : 2); break;
      default: if (w.nr > 1) --w.nr; if (w.nc > 1 && r.chance(1, 2)) --w.nc; break;
      }
      x.resize(size_t(w.nr) * w.nc);
    } else switch (r.below(4)) { case 0: x.push_back(f()); break; case 1: if (!x.empty()) x.pop_back(); break; case 2: for (unsigned k = 1 + unsigned(r.below(9)); k--;) x.push_back(f()); break; default: x.resize(x.size() / 2); break; }
    if (r.chance(2, 3)) for (size_t k = 0; k < x.size(); ++k) x[k] = f();
  };
  if (r.chance(1, 8)) { // the same numbers with signed zeros the other way round
    auto z = [](double & x) { if (x == 0) x = -x; };
    z(w.r); { double a = w.c.real(), b = w.c.imag(); z(a); z(b); w.c = cplx(a, b); }
    for (auto & x : w.vr) z(x);
    for (auto & x : w.vc) { double a = x.real(), b = x.imag(); z(a); z(b); x = cplx(a, b); }
    return w;
  }
  switch (r.below(3)) {
  case 0: return w;
  case 1: tweak(r, w, o); return w;
  default: break;
  }
  switch (v.t) {
  case T::VEC_POINTER: sz(w.vp, [&] { return gptr(r); }); break; case T::VEC_BOOL: sz(w.vb, [&] { return r.chance(1, 2); }); break;
  case T::VEC_INTEGER: case T::MAT_INTEGER: sz(w.vi, [&] { return gint(r); }); break; case T::VEC_LONG: case T::MAT_LONG: sz(w.vl, [&] { return glong(r); }); break;
  case T::VEC_REAL: case T::MAT_REAL: sz(w.vr, [&] { return greal(r, o); }); break; case T::VEC_COMPLEX: case T::MAT_COMPLEX: sz(w.vc, [&] { return gcplx(r, o); }); break;
  case T::VEC_STRING: sz(w.vs, [&] { return gstr(r, o); }); break;
  case T::VECTOR: if (w.v.empty()) break; { size_t k = r.below(w.v.size()); w.v[k] = grelated(r, w.v[k], o); if (r.chance(1, 2)) w.v.push_back(gvalue(r, o, 3)); } break;
  case T::MAP: if (w.m.empty()) break; { auto it = w.m.begin(); std::advance(it, long(r.below(w.m.size()))); it->second = grelated(r, it->second, o); if (r.chance(1, 2)) w.m[gkey(r, o)] = gvalue(r, o, 3); } break;
  default: w = gtyped(r, v.t, o, 3); break;
  }
  return w;
}
} // namespace G
