// All ways to put a value into a container (used by several monitors).
#pragma once
#include "gen.hh"
#include <memory>
namespace G {
// Stores v in g through a random route; when the route is a constructor, the
// new container is returned in made (g is left alone). Returns the route.
inline string store(Rng & r, Gc & g, Value const & v, Gc *& made) {
  made = nullptr;
  auto vecfill = [&](auto & x, auto const & e) { for (size_t k = 0; k < e.size(); ++k) x[k] = e[k]; };
  auto szroute = [&](auto f, auto const & e, char const * n) -> string {
    // sizes of zero keep the contents by design; use clear() first then
    if (e.empty()) g.clear();
    auto & x = f(unsigned(e.size())); vecfill(x, e); return n;
  };
  auto pushroute = [&](auto & x, auto const & e, char const * n) -> string { x.clear(); for (size_t k = 0; k < e.size(); ++k) x.push_back(e[k]); return n; };
  auto matroute = [&](auto & m, auto const & e, char const * n) -> string { for (unsigned j = 0; j < v.nc; ++j) for (unsigned i = 0; i < v.nr; ++i) m(i, j) = e[i + size_t(j) * v.nr]; return n; };
  switch (v.t) {
  case T::NOTYPE: g.clear(); return "clear";
  case T::POINTER:
    switch (r.below(6)) {
    case 0: g.set_pointer(v.p); return "set_pointer";
    case 1: g.set(v.p); return "set(void*)";
    case 2: g = v.p; return "operator=(void*)";
    case 3: made = new Gc(v.p); return "GC(void*)";
    case 4: g.set_pointer(nullptr) = v.p; return "set_pointer reference";
    default: g.set_pointer(nullptr); *g.get_ppvoid() = v.p; return "get_ppvoid";
    }
  case T::BOOL:
    switch (r.below(6)) {
    case 0: g.set_bool(v.b); return "set_bool";
    case 1: g.set(v.b); return "set(bool)";
    case 2: g = v.b; return "operator=(bool)";
    case 3: made = new Gc(v.b); return "GC(bool)";
    case 4: g.set_bool(!v.b) = v.b; return "set_bool reference";
    default: g.clear(); g.get_bool() = v.b; return "get_bool on empty";
    }
  case T::INTEGER:
    switch (r.below(9)) {
    case 0: g.set_int(v.i); return "set_int";
    case 1: g.set(v.i); return "set(int)";
    case 2: g = v.i; return "operator=(int)";
    case 3: made = new Gc(v.i); return "GC(int)";
    case 4: g.set_int(5) = v.i; return "set_int reference";
    case 5: g.clear(); g.get_int() = v.i; return "get_int on empty";
    case 6: g = uint32_t(v.i); return "operator=(uint)";
    case 7: made = new Gc(uint32_t(v.i)); return "GC(uint)";
    default: g.set(uint32_t(v.i)); return "set(uint)";
    }
  case T::LONG:
    switch (r.below(9)) {
    case 0: g.set_long(v.l); return "set_long";
    case 1: g.set(v.l); return "set(long)";
    case 2: g = v.l; return "operator=(long)";
    case 3: made = new Gc(v.l); return "GC(long)";
    case 4: g.set_long(5) = v.l; return "set_long reference";
    case 5: g.clear(); g.get_long() = v.l; return "get_long on empty";
    case 6: g = uint64_t(v.l); return "operator=(ulong)";
    case 7: made = new Gc(uint64_t(v.l)); return "GC(ulong)";
    default: g.set(uint64_t(v.l)); return "set(ulong)";
    }
  case T::REAL:
    if (v.r == v.r && double(float(std::fabs(v.r) > FLT_MAX ? 0.3 : v.r)) == v.r && r.chance(1, 3)) {
      switch (r.below(3)) { case 0: g = float(v.r); return "operator=(float)"; case 1: g.set(float(v.r)); return "set(float)"; default: made = new Gc(float(v.r)); return "GC(float)"; }
    }
    switch (r.below(6)) {
    case 0: g.set_real(v.r); return "set_real";
    case 1: g.set(v.r); return "set(double)";
    case 2: g = v.r; return "operator=(double)";
    case 3: made = new Gc(v.r); return "GC(double)";
    case 4: g.set_real(5) = v.r; return "set_real reference";
    default: g.clear(); g.get_real() = v.r; return "get_real on empty";
    }
  case T::COMPLEX: {
    auto ok = [](double x) { return x == x && std::fabs(x) <= FLT_MAX && double(float(x)) == x; };
    if (ok(v.c.real()) && ok(v.c.imag()) && r.chance(1, 3)) {
      std::complex<float> f(float(v.c.real()), float(v.c.imag()));
      switch (r.below(3)) { case 0: g = f; return "operator=(complex<float>)"; case 1: g.set(f); return "set(complex<float>)"; default: made = new Gc(f); return "GC(complex<float>)"; }
    }
    switch (r.below(7)) {
    case 0: g.set_complex(v.c); return "set_complex(z)";
    case 1: g.set_complex(v.c.real(), v.c.imag()); return "set_complex(re,im)";
    case 2: g = v.c; return "operator=(complex)";
    case 3: made = new Gc(v.c); return "GC(complex)";
    case 4: g.set_complex(1, 2) = v.c; return "set_complex reference";
    case 5: g.set(v.c); return "set(complex)";
    default: g.clear(); g.get_complex() = v.c; return "get_complex on empty";
    } }
  case T::STRING: {
    bool nul = v.s.find('\0') != string::npos;
    switch (r.below(nul ? 8 : 11)) {
    case 0: g.set_string(v.s); return "set_string";
    case 1: { string pad = v.s + "tail"; g.set_string(std::string_view(pad.data(), v.s.size())); return "set_string(view, not terminated)"; }
    case 2: g = v.s; return "operator=(string)";
    case 3: made = new Gc(v.s); return "GC(string)";
    case 4: g.set_string("x") = v.s; return "set_string reference";
    case 5: g.set(std::string_view(v.s)); return "set(view)";
    case 6: { string pad = v.s + "tail"; g = std::string_view(pad.data(), v.s.size()); return "operator=(view)"; }
    case 7: { string pad = v.s + "tail"; made = new Gc(std::string_view(pad.data(), v.s.size())); return "GC(view)"; }
    case 8: g = v.s.c_str(); return "operator=(char*)";
    case 9: made = new Gc(v.s.c_str()); return "GC(char*)";
    default: g.set(v.s.c_str()); return "set(char*)";
    } }
  case T::VEC_POINTER:
    switch (r.below(3)) { case 0: g.set_vec_pointer(v.vp); return "set_vec_pointer(v)"; case 1: return szroute([&](unsigned n) -> auto & { return g.set_vec_pointer(n); }, v.vp, "set_vec_pointer(n)"); default: return pushroute(g.set_vec_pointer(), v.vp, "set_vec_pointer() push_back"); }
  case T::VEC_BOOL:
    switch (r.below(4)) { case 0: g.set_vec_bool(v.vb); return "set_vec_bool(v)"; case 1: g = v.vb; return "operator=(vec_bool)"; case 2: return szroute([&](unsigned n) -> auto & { return g.set_vec_bool(n); }, v.vb, "set_vec_bool(n)"); default: return pushroute(g.set_vec_bool(), v.vb, "set_vec_bool() push_back"); }
  case T::VEC_INTEGER:
    switch (r.below(5)) { case 0: g.set_vec_int(v.vi); return "set_vec_int(v)"; case 1: g = v.vi; return "operator=(vec_int)"; case 2: return szroute([&](unsigned n) -> auto & { return g.set_vec_int(n); }, v.vi, "set_vec_int(n)"); case 3: g.clear(); return pushroute(g.get_vec_int(), v.vi, "get_vec_int on empty"); default: return pushroute(g.set_vec_int(), v.vi, "set_vec_int() push_back"); }
  case T::VEC_LONG:
    switch (r.below(5)) { case 0: g.set_vec_long(v.vl); return "set_vec_long(v)"; case 1: g = v.vl; return "operator=(vec_long)"; case 2: return szroute([&](unsigned n) -> auto & { return g.set_vec_long(n); }, v.vl, "set_vec_long(n)"); case 3: g.clear(); return pushroute(g.get_vec_long(), v.vl, "get_vec_long on empty"); default: return pushroute(g.set_vec_long(), v.vl, "set_vec_long() push_back"); }
  case T::VEC_REAL:
    switch (r.below(5)) { case 0: g.set_vec_real(v.vr); return "set_vec_real(v)"; case 1: g = v.vr; return "operator=(vec_real)"; case 2: return szroute([&](unsigned n) -> auto & { return g.set_vec_real(n); }, v.vr, "set_vec_real(n)"); case 3: g.clear(); return pushroute(g.get_vec_real(), v.vr, "get_vec_real on empty"); default: return pushroute(g.set_vec_real(), v.vr, "set_vec_real() push_back"); }
  case T::VEC_COMPLEX:
    switch (r.below(5)) { case 0: g.set_vec_complex(v.vc); return "set_vec_complex(v)"; case 1: g = v.vc; return "operator=(vec_complex)"; case 2: return szroute([&](unsigned n) -> auto & { return g.set_vec_complex(n); }, v.vc, "set_vec_complex(n)"); case 3: g.clear(); return pushroute(g.get_vec_complex(), v.vc, "get_vec_complex on empty"); default: return pushroute(g.set_vec_complex(), v.vc, "set_vec_complex() push_back"); }
  case T::VEC_STRING:
    switch (r.below(4)) { case 0: g.set_vec_string(v.vs); return "set_vec_string(v)"; case 1: g = v.vs; return "operator=(vec_string)"; case 2: return szroute([&](unsigned n) -> auto & { return g.set_vec_string(n); }, v.vs, "set_vec_string(n)"); default: return pushroute(g.set_vec_string(), v.vs, "set_vec_string() push_back"); }
  case T::MAT_INTEGER: { auto m = make_mat<Gc::mat_int_type>(v, v.vi); switch (r.below(3)) { case 0: g.set_mat_int(m); return "set_mat_int(m)"; case 1: g = m; return "operator=(mat_int)"; default: return matroute(g.set_mat_int(v.nr, v.nc), v.vi, "set_mat_int(nr,nc)"); } }
  case T::MAT_LONG: { auto m = make_mat<Gc::mat_long_type>(v, v.vl); switch (r.below(3)) { case 0: g.set_mat_long(m); return "set_mat_long(m)"; case 1: g = m; return "operator=(mat_long)"; default: return matroute(g.set_mat_long(v.nr, v.nc), v.vl, "set_mat_long(nr,nc)"); } }
  case T::MAT_REAL: { auto m = make_mat<Gc::mat_real_type>(v, v.vr); switch (r.below(3)) { case 0: g.set_mat_real(m); return "set_mat_real(m)"; case 1: g = m; return "operator=(mat_real)"; default: return matroute(g.set_mat_real(v.nr, v.nc), v.vr, "set_mat_real(nr,nc)"); } }
  case T::MAT_COMPLEX: { auto m = make_mat<Gc::mat_complex_type>(v, v.vc); switch (r.below(3)) { case 0: g.set_mat_complex(m); return "set_mat_complex(m)"; case 1: g = m; return "operator=(mat_complex)"; default: return matroute(g.set_mat_complex(v.nr, v.nc), v.vc, "set_mat_complex(nr,nc)"); } }
  case T::VECTOR:
    switch (r.below(3)) {
    case 0: build(g, v); return "set_vector(n)";
    case 1: { g.clear(); g.set_vector(); for (size_t k = 0; k < v.v.size(); ++k) build(g[unsigned(k)], v.v[k]); return "set_vector() and operator[]"; }
    default: { auto & x = g.set_vector(); x.clear(); for (auto & e : v.v) { Gc t; build(t, e); x.push_back(t); } return "set_vector() push_back"; }
    }
  case T::MAP:
    switch (r.below(3)) {
    case 0: build(g, v); return "set_map";
    case 1: { g.clear(); g.set_map(); for (auto & kv : v.m) { string pad = kv.first + "zz"; build(g[std::string_view(pad.data(), kv.first.size())], kv.second); } return "set_map and operator[](view)"; }
    default: { auto & x = g.set_map(); x.clear(); for (auto & kv : v.m) { Gc t; build(t, kv.second); x.emplace(kv.first, t); } return "set_map() emplace"; }
    }
  }
  return "?";
}

// Changes the stored value through the reference a reader returns (and v with it).
inline bool modify_through_reference(Rng & r, Gc & g, Value & v) {
  Opt o;
  switch (v.t) {
  case T::POINTER: v.p = gptr(r); g.get_pointer<void *>() = v.p; return true;
  case T::BOOL: v.b = !v.b; g.get_bool() = v.b; return true;
  case T::INTEGER: v.i = gint(r); if (r.chance(1, 2)) g.get_int() = v.i; else *g.get_int_pointer() = v.i; return true;
  case T::LONG: v.l = glong(r); if (r.chance(1, 2)) g.get_long() = v.l; else *g.get_long_pointer() = v.l; return true;
  case T::REAL: v.r = greal(r); if (r.chance(1, 2)) g.get_real() = v.r; else *g.get_real_pointer() = v.r; return true;
  case T::COMPLEX: v.c = gcplx(r); if (r.chance(1, 2)) g.get_complex() = v.c; else *g.get_complex_pointer() = v.c; return true;
  case T::STRING: v.s += gstr(r); g.get_string() = v.s; return true;
  case T::VEC_POINTER: v.vp.push_back(gptr(r)); g.get_vec_pointer().push_back(v.vp.back()); return true;
  case T::VEC_BOOL: v.vb.push_back(true); g.get_vec_bool().push_back(true); return true;
  case T::VEC_INTEGER: v.vi.push_back(gint(r)); g.get_vec_int().push_back(v.vi.back()); return true;
  case T::VEC_LONG: v.vl.push_back(glong(r)); g.get_vec_long().push_back(v.vl.back()); return true;
  case T::VEC_REAL: v.vr.push_back(greal(r)); g.get_vec_real().push_back(v.vr.back()); return true;
  case T::VEC_COMPLEX: v.vc.push_back(gcplx(r)); g.get_vec_complex().push_back(v.vc.back()); return true;
  case T::VEC_STRING: v.vs.push_back(gstr(r)); g.get_vec_string().push_back(v.vs.back()); return true;
  case T::MAT_INTEGER: if (v.vi.empty()) return false; { size_t k = r.below(v.vi.size()); v.vi[k] = gint(r); g.get_mat_int()(unsigned(k % v.nr), unsigned(k / v.nr)) = v.vi[k]; } return true;
  case T::MAT_LONG: if (v.vl.empty()) return false; { size_t k = r.below(v.vl.size()); v.vl[k] = glong(r); g.get_mat_long()(unsigned(k % v.nr), unsigned(k / v.nr)) = v.vl[k]; } return true;
  case T::MAT_REAL: if (v.vr.empty()) return false; { size_t k = r.below(v.vr.size()); v.vr[k] = greal(r); g.get_mat_real()(unsigned(k % v.nr), unsigned(k / v.nr)) = v.vr[k]; } return true;
  case T::MAT_COMPLEX: if (v.vc.empty()) return false; { size_t k = r.below(v.vc.size()); v.vc[k] = gcplx(r); g.get_mat_complex()(unsigned(k % v.nr), unsigned(k / v.nr)) = v.vc[k]; } return true;
  case T::VECTOR: { Value e = gtyped(r, T(r.below(NT)), o, 3); Gc t; build(t, e); g.get_vector().push_back(t); v.v.push_back(e); return true; }
  case T::MAP: { Value e = gtyped(r, T(r.below(NT)), o, 3); string k = gkey(r); Gc t; build(t, e); g.get_map()[k] = t; v.m[k] = e; return true; }
  default: return false;
  }
}
} // namespace G
