// Random operations over a pool of containers: (almost) every member of the
// C++ interface, on any container state. The return values go into a digest.
#pragma once
#include "routes.hh"
#include <fstream>
namespace G {

struct Dig {
  uint64_t h = 0x1234567;
  void raw(void const * p, size_t n) { uint64_t k = 1469598103934665603ull; auto q = static_cast<unsigned char const *>(p); for (size_t i = 0; i < n; ++i) k = (k ^ q[i]) * 1099511628211ull; h = mix64(h ^ k); }
  void add(uint64_t x) { h = mix64(h ^ x); }
  void add(double x) { if (x != x) x = NAN; raw(&x, 8); }
  void add(cplx x) { add(x.real()); add(x.imag()); }
  void add(string const & s) { raw(s.data(), s.size()); }
  template <class X> void vec(vector<X> const & v) { add(uint64_t(v.size())); for (auto x : v) one(x); }
  void one(bool x) { add(uint64_t(x)); } void one(int32_t x) { add(uint64_t(x)); } void one(uint32_t x) { add(uint64_t(x)); } void one(int64_t x) { add(uint64_t(x)); } void one(uint64_t x) { add(x); }
  void one(double x) { add(x); } void one(cplx x) { add(x); } void one(string const & x) { add(x); } void one(void * x) { add(uint64_t(x)); }
};

inline size_t nodes(Gc const & g, size_t lim = 100000) {
  size_t n = 1;
  if (g.get_type() == T::VECTOR) { for (auto & x : g.get_vector()) { n += nodes(x, lim); if (n > lim) return n; } }
  else if (g.get_type() == T::MAP) { for (auto & x : g.get_map()) { n += nodes(x.second, lim); if (n > lim) return n; } }
  else n += g.get_num_elements();
  return n;
}
inline int height(Gc const & g) {
  int n = 0;
  if (g.get_type() == T::VECTOR) for (auto & x : g.get_vector()) n = std::max(n, height(x));
  else if (g.get_type() == T::MAP) for (auto & x : g.get_map()) n = std::max(n, height(x.second));
  return n + 1;
}

// a random node of the tree
inline Gc & node(Rng & r, Gc & g, string & path) {
  Gc * p = &g;
  for (int d = 0; d < 6; ++d) {
    if (r.chance(1, 3)) return *p;
    if (p->get_type() == T::VECTOR && !p->get_vector().empty()) { size_t k = r.below(p->get_vector().size()); path += "[" + std::to_string(k) + "]"; p = &p->get_vector()[k]; }
    else if (p->get_type() == T::MAP && !p->get_map().empty()) { auto it = p->get_map().begin(); std::advance(it, long(r.below(p->get_map().size()))); path += "." + quote(it->first); p = &it->second; }
    else return *p;
  }
  return *p;
}
// a key that often exists
inline string akey(Rng & r, Gc const & g, Opt const & o) {
  if (g.get_type() == T::MAP && !g.get_map().empty() && r.chance(2, 3)) { auto it = g.get_map().begin(); std::advance(it, long(r.below(g.get_map().size()))); return it->first; }
  return gkey(r, o);
}
inline vector<string> keys_(Rng & r, Gc const & g, Opt const & o) { vector<string> k; unsigned n = unsigned(r.below(4)); for (unsigned i = 0; i < n; ++i) k.push_back(akey(r, g, o)); return k; }
inline unsigned anidx(Rng & r, Gc const & g) {
  unsigned n = g.get_num_elements();
  switch (r.below(5)) { case 0: return n; case 1: return n + unsigned(r.below(4)); case 2: return 0; default: return n ? unsigned(r.below(n)) : 0; }
}

constexpr unsigned NOPS = 140;

// Executes operation number op on node g with other node h; returns its name.
// Everything that may legitimately throw std::exception does so to the caller.
inline char const * op_name(unsigned op);
inline string do_op(Rng & r, unsigned op, Gc & g, Gc & h, Dig & d, Opt const & o) {
  Gc const & k = g;
  auto txt = [&](auto f) { std::ostringstream s; f(s); d.add(s.str()); };
  unsigned i = anidx(r, g), j = unsigned(r.below(4)), i2 = unsigned(r.below(4));
  switch (op) {
  case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: { Value v = gtyped(r, T(r.below(NT)), o, 3); Gc * m = nullptr; string s; try { s = store(r, g, v, m); } catch (...) { delete m; throw; } std::unique_ptr<Gc> own(m); if (m) g = *m; return "store " + s + " " + show(v, 100); }
  case 8: g.clear(); return "clear";
  case 9: k.erase(akey(r, g, o)); return "erase";
  case 10: g.free_pointer(); return "free_pointer";
  case 11: { vector<string> w; k.get_keys(w); d.vec(w); return "get_keys(v)"; }
  case 12: d.add(k.get_keys()); return "get_keys";
  case 13: k.push_bool(r.chance(1, 2)); return "push_bool";
  case 14: g.push_int(gint(r)); return "push_int";
  case 15: g.push_long(glong(r)); return "push_long";
  case 16: g.push_real(greal(r, o)); return "push_real";
  case 17: { cplx z = gcplx(r, o); g.push_complex(z); return "push_complex(z)"; }
  case 18: g.push_complex(greal(r, o), greal(r, o)); return "push_complex(re,im)";
  case 19: g.push_string(gstr(r, o)); return "push_string";
  case 20: txt([&](auto & s) { k.info(s); }); return "info";
  case 21: d.add(uint64_t(k.get_num_elements())); d.add(uint64_t(k.num_rows())); d.add(uint64_t(k.num_cols())); d.add(string(k.get_type_name())); return "counts";
  case 22: d.add(k.get_number()); return "get_number";
  case 23: d.add(k.get_complex_number()); return "get_complex_number";
  case 24: { double a, b; k.get_complex_number(a, b); d.add(a); d.add(b); return "get_complex_number(re,im)"; }
  case 25: d.add(uint64_t(k.get_pvoid())); return "get_pvoid";
  case 26: d.add(uint64_t(*k.get_ppvoid())); return "get_ppvoid";
  case 27: { auto p = k.get_int_pointer(); for (unsigned q = 0; q < k.get_num_elements(); ++q) d.one(p[q]); return "get_int_pointer"; }
  case 28: { auto p = k.get_long_pointer(); for (unsigned q = 0; q < k.get_num_elements(); ++q) d.one(p[q]); return "get_long_pointer"; }
  case 29: { auto p = k.get_real_pointer(); for (unsigned q = 0; q < k.get_num_elements(); ++q) d.one(p[q]); return "get_real_pointer"; }
  case 30: { auto p = k.get_complex_pointer(); for (unsigned q = 0; q < k.get_num_elements(); ++q) d.one(p[q]); return "get_complex_pointer"; }
  case 31: { auto p = g.get_int_pointer(); for (unsigned q = 0; q < k.get_num_elements(); ++q) p[q] = p[q] / 2; return "*get_int_pointer="; }
  case 32: { auto p = g.get_real_pointer(); for (unsigned q = 0; q < k.get_num_elements(); ++q) p[q] = -p[q]; return "*get_real_pointer="; }
  case 33: { int32_t x; k.get_value(x); d.one(x); return "get_value<int>"; }
  case 34: { uint32_t x; k.get_value(x); d.one(x); return "get_value<uint>"; }
  case 35: { int64_t x; k.get_value(x); d.one(x); return "get_value<long>"; }
  case 36: { uint64_t x; k.get_value(x); d.one(x); return "get_value<ulong>"; }
  case 37: { float x; k.get_value(x); d.add(double(x)); return "get_value<float>"; }
  case 38: { double x; k.get_value(x); d.add(x); return "get_value<double>"; }
  case 39: d.one(k.get_as_int()); return "get_as_int";
  case 40: d.one(k.get_as_uint()); return "get_as_uint";
  case 41: d.one(k.get_as_long()); return "get_as_long";
  case 42: d.one(k.get_as_ulong()); return "get_as_ulong";
  case 43: d.one(k.get_map_bool(akey(r, g, o))); return "get_map_bool";
  case 44: d.one(k.get_map_bool(keys_(r, g, o), "w")); return "get_map_bool(v)";
  case 45: d.one(k.get_map_int(akey(r, g, o))); return "get_map_int";
  case 46: d.one(k.get_map_int(keys_(r, g, o), "w")); return "get_map_int(v)";
  case 47: d.one(k.get_map_number(akey(r, g, o))); return "get_map_number";
  case 48: d.one(k.get_map_number(keys_(r, g, o), "w")); return "get_map_number(v)";
  case 49: d.one(string(k.get_map_string(akey(r, g, o)))); return "get_map_string";
  case 50: d.one(string(k.get_map_string(keys_(r, g, o), "w"))); return "get_map_string(v)";
  case 51: d.vec(k.get_map_vec_real(akey(r, g, o))); return "get_map_vec_real";
  case 52: d.vec(k.get_map_vec_complex(akey(r, g, o))); return "get_map_vec_complex";
  case 53: d.vec(k.get_map_vec_string(akey(r, g, o))); return "get_map_vec_string";
  case 54: { string a = akey(r, g, o), b = gkey(r, o); switch (r.below(7)) { case 0: d.one(k.get_map_bool({a, b})); break; case 1: d.one(k.get_map_int({a, b})); break; case 2: d.one(k.get_map_number({a, b})); break; case 3: d.one(string(k.get_map_string({a, b}))); break; case 4: d.vec(k.get_map_vec_real({a, b})); break; case 5: d.vec(k.get_map_vec_complex({a, b})); break; default: d.vec(k.get_map_vec_string({a, b})); } return "get_map_*({path})"; }
  case 55: d.one(g.get_bool()); return "get_bool";
  case 56: d.one(g.get_int()); return "get_int";
  case 57: d.one(g.get_long()); return "get_long";
  case 58: d.one(g.get_real()); return "get_real";
  case 59: d.one(g.get_complex()); return "get_complex";
  case 60: d.one(g.get_string()); return "get_string";
  case 61: d.add(uint64_t(g.get_vector().size())); return "get_vector";
  case 62: d.vec(g.get_vec_pointer()); return "get_vec_pointer";
  case 63: d.vec(g.get_vec_bool()); return "get_vec_bool";
  case 64: d.vec(g.get_vec_int()); return "get_vec_int";
  case 65: d.vec(g.get_vec_long()); return "get_vec_long";
  case 66: d.vec(g.get_vec_real()); return "get_vec_real";
  case 67: d.vec(g.get_vec_complex()); return "get_vec_complex";
  case 68: d.vec(g.get_mat_int()); return "get_mat_int";
  case 69: d.vec(g.get_mat_long()); return "get_mat_long";
  case 70: d.vec(g.get_mat_real()); return "get_mat_real";
  case 71: d.vec(g.get_mat_complex()); return "get_mat_complex";
  case 72: d.vec(g.get_vec_string()); return "get_vec_string";
  case 73: { vector<int32_t> w; k.copyto_vec_int(w); d.vec(w); return "copyto_vec_int"; }
  case 74: { vector<uint32_t> w; k.copyto_vec_uint(w); d.vec(w); return "copyto_vec_uint"; }
  case 75: { vector<int64_t> w; k.copyto_vec_long(w); d.vec(w); return "copyto_vec_long"; }
  case 76: { vector<uint64_t> w; k.copyto_vec_ulong(w); d.vec(w); return "copyto_vec_ulong"; }
  case 77: { vector<double> w; k.copyto_vec_real(w); d.vec(w); return "copyto_vec_real"; }
  case 78: { vector<cplx> w; k.copyto_vec_complex(w); d.vec(w); return "copyto_vec_complex"; }
  case 79: { vector<string> w; k.copyto_vec_string(w); d.vec(w); return "copyto_vec_string"; }
  case 80: { Gc::mat_int_type w; k.copyto_mat_int(w); d.vec(w); return "copyto_mat_int"; }
  case 81: { Gc::mat_long_type w; k.copyto_mat_long(w); d.vec(w); return "copyto_mat_long"; }
  case 82: { Gc::mat_real_type w; k.copyto_mat_real(w); d.vec(w); return "copyto_mat_real"; }
  case 83: { Gc::mat_complex_type w; k.copyto_mat_complex(w); d.vec(w); return "copyto_mat_complex"; }
  case 84: d.add(k.get_number_at(i)); return "get_number_at";
  case 85: d.add(k.get_complex_number_at(i)); return "get_complex_number_at";
  case 86: { double a = 0, b = 0; k.get_complex_number_at(i, a, b); d.add(a); d.add(b); return "get_complex_number_at(re,im)"; }
  case 87: d.one(g.get_bool_at(i)); return "get_bool_at";
  case 88: d.one(g.get_int_at(i)); return "get_int_at";
  case 89: d.one(g.get_long_at(i)); return "get_long_at";
  case 90: d.one(g.get_real_at(i)); return "get_real_at";
  case 91: d.one(g.get_complex_at(i)); return "get_complex_at";
  case 92: d.one(g.get_string_at(i)); return "get_string_at";
  case 93: d.one(k.get_bool_at(i, "w")); return "get_bool_at const";
  case 94: d.one(k.get_int_at(i, "w")); return "get_int_at const";
  case 95: d.one(k.get_long_at(i, "w")); return "get_long_at const";
  case 96: d.one(k.get_real_at(i, "w")); return "get_real_at const";
  case 97: d.one(k.get_complex_at(i, "w")); return "get_complex_at const";
  case 98: d.one(string(k.get_string_at(i, "w"))); return "get_string_at const";
  case 99: d.one(g.get_int_at(i2, j)); return "get_int_at(i,j)";
  case 100: d.one(g.get_long_at(i2, j)); return "get_long_at(i,j)";
  case 101: d.one(g.get_real_at(i2, j)); return "get_real_at(i,j)";
  case 102: d.one(g.get_complex_at(i2, j)); return "get_complex_at(i,j)";
  case 103: d.one(k.get_int_at(i2, j, "w")); return "get_int_at(i,j) const";
  case 104: d.one(k.get_long_at(i2, j, "w")); return "get_long_at(i,j) const";
  case 105: d.one(k.get_real_at(i2, j, "w")); return "get_real_at(i,j) const";
  case 106: d.one(k.get_complex_at(i2, j, "w")); return "get_complex_at(i,j) const";
  case 107: d.add(uint64_t(g.get_gc_at(i).get_type())); return "get_gc_at";
  case 108: d.add(uint64_t(k.get_gc_at(i, "w").get_type())); return "get_gc_at const";
  case 109: d.add(uint64_t(g.get_map().size())); return "get_map";
  case 110: d.add(uint64_t(g[i].get_type())); return "operator[](i)";
  case 111: d.add(uint64_t(k[i].get_type())); return "operator[](i) const";
  case 112: { string s = akey(r, g, o); d.add(uint64_t(g[std::string_view(s)].get_type())); return "operator[](key)"; }
  case 113: { string s = akey(r, g, o); d.add(uint64_t(k[std::string_view(s)].get_type())); return "operator[](key) const"; }
  case 114: d.add(uint64_t(g(i, "w").get_type())); return "operator()(i)";
  case 115: d.add(uint64_t(k(i, "w").get_type())); return "operator()(i) const";
  case 116: { string s = akey(r, g, o); d.add(uint64_t(g(std::string_view(s), "w").get_type())); return "operator()(key)"; }
  case 117: { string s = akey(r, g, o); d.add(uint64_t(k(std::string_view(s), "w").get_type())); return "operator()(key) const"; }
  case 118: d.add(uint64_t(g(keys_(r, g, o), "w").get_type())); return "operator()(keys)";
  case 119: d.add(uint64_t(k(keys_(r, g, o), "w").get_type())); return "operator()(keys) const";
  case 120: case 121: g = h; return "operator=(other)";
  case 122: switch (r.below(3)) { case 0: g.load(h); break; case 1: g.from_gc(h); break; default: h.to_gc(g); } return "load/from_gc/to_gc";
  case 123: { Gc t(g); d.add(uint64_t(t.get_num_elements())); return "copy constructor"; }
  case 124: switch (r.below(13)) { case 0: g.promote_to_int(); break; case 1: g.promote_to_long(); break; case 2: g.promote_to_real(); break; case 3: g.promote_to_complex(); break; case 4: g.promote_to_vec_int(); break; case 5: g.promote_to_vec_long(); break; case 6: g.promote_to_vec_real(); break; case 7: g.promote_to_vec_complex(); break; case 8: g.promote_to_mat_int(); break; case 9: g.promote_to_mat_long(); break; case 10: g.promote_to_mat_real(); break; case 11: g.promote_to_mat_complex(); break; default: g.promote_to_vector(); } return "promote_to_*";
  case 125: d.one(k.exists(akey(r, g, o))); d.one(k.exists(keys_(r, g, o))); return "exists";
  case 126: d.one(k.must_exists(keys_(r, g, o), "w")); return "must_exists";
  case 127: { string f = akey(r, g, o); bool b = false; int32_t x = 0; uint32_t u = 0; int64_t l = 0; uint64_t ul = 0; double re = 0; cplx z = 0; string s; d.one(k.get_if_exists(std::string_view(f), b)); d.one(k.get_if_exists(std::string_view(f), x)); d.one(k.get_if_exists(std::string_view(f), u)); d.one(k.get_if_exists(std::string_view(f), l)); d.one(k.get_if_exists(std::string_view(f), ul)); d.one(k.get_if_exists(std::string_view(f), re)); d.one(k.get_if_exists(std::string_view(f), z)); d.one(k.get_if_exists(std::string_view(f), s)); d.one(b); d.one(x); d.one(u); d.one(l); d.one(ul); d.one(re); d.one(z); d.one(s); return "get_if_exists"; }
  case 128: { auto f = keys_(r, g, o); bool b = false; int32_t x = 0; double re = 0; string s; d.one(k.get_if_exists(f, b)); d.one(k.get_if_exists(f, x)); d.one(k.get_if_exists(f, re)); d.one(k.get_if_exists(f, s)); d.one(b); d.one(x); d.one(re); d.one(s); return "get_if_exists(v)"; }
  case 129: if (nodes(g, 300) < 200) txt([&](auto & s) { k.print_content_types(s); }); return "print_content_types";
  case 130: d.add(k.compare_content(h)); return "compare_content";
  case 131: if (nodes(g, 300) < 200) txt([&](auto & s) { k.dump(s); }); return "dump";
  case 132: g.merge(h, "w"); return "merge";
  case 133: g.collapse(); return "collapse";
  case 134: { vector<uint8_t> b(size_t(k.mem_size())); d.add(uint64_t(k.serialize(b))); Gc t; d.add(uint64_t(t.de_serialize(b))); g = t; return "serialize, de_serialize"; }
  case 135: { if (g.get_type() == T::VEC_BOOL) g.set_vec_bool(g.get_vec_bool()); else if (g.get_type() == T::VEC_INTEGER) g.set_vec_int(g.get_vec_int()); else if (g.get_type() == T::VEC_LONG) g = g.get_vec_long(); else if (g.get_type() == T::VEC_REAL) g = g.get_vec_real(); else if (g.get_type() == T::VEC_COMPLEX) g.set_vec_complex(g.get_vec_complex()); else if (g.get_type() == T::VEC_STRING) g = g.get_vec_string(); else if (g.get_type() == T::MAT_REAL) g = g.get_mat_real(); else if (g.get_type() == T::MAT_INTEGER) g.set_mat_int(g.get_mat_int()); else if (g.get_type() == T::COMPLEX) g.set_complex(g.get_complex()); else if (g.get_type() == T::STRING) g.set_string(g.get_string()); return "set to own contents"; }
  case 136: { // matrix helpers
    unsigned q = unsigned(r.below(5));
    if (g.get_type() == T::MAT_INTEGER) { vector<int32_t> w; g.get_mat_int().get_row(q, w); d.vec(w); g.get_mat_int().get_column(q, w); d.vec(w); }
    else if (g.get_type() == T::MAT_LONG) { vector<int64_t> w; g.get_mat_long().get_row(q, w); d.vec(w); g.get_mat_long().get_column(q, w); d.vec(w); }
    else if (g.get_type() == T::MAT_REAL) { vector<double> w; g.get_mat_real().get_column(q, w); d.vec(w); g.get_mat_real().get_row(q, w); d.vec(w); }
    else if (g.get_type() == T::MAT_COMPLEX) { vector<cplx> w; g.get_mat_complex().getRow(q, w); d.vec(w); g.get_mat_complex().getColumn(q, w); d.vec(w); }
    return "get_row/get_column"; }
  case 137: switch (r.below(10)) { case 0: g.set_vec_bool(i % 9); break; case 1: g.set_vec_int(i % 9); break; case 2: g.set_vec_long(i % 9); break; case 3: g.set_vec_real(i % 9); break; case 4: g.set_vec_complex(i % 9); break; case 5: g.set_vec_string(i % 9); break; case 6: g.set_vec_pointer(i % 9); break; case 7: g.set_mat_real(i2, j); break; case 8: g.set_mat_int(i2, j); break; default: g.set_vector(i % 9); } return "set_*(size)";
  case 138: { if (g.get_type() == T::VECTOR && !g.get_vector().empty()) { auto & v = g.get_vector(); if (r.chance(1, 2)) v.erase(v.begin() + long(r.below(v.size()))); else v.insert(v.begin() + long(r.below(v.size())), h.get_type() == T::VECTOR ? Gc(1) : Gc(2.5)); } return "vector insert/erase"; }
  case 139: { if (g.get_type() == T::MAT_REAL) g.get_mat_real().resize(i2, j); else if (g.get_type() == T::MAT_COMPLEX) g.get_mat_complex().resize(i2, j); else if (g.get_type() == T::MAT_LONG) g.get_mat_long().resize(i2, j); else if (g.get_type() == T::MAT_INTEGER) g.get_mat_int().resize(i2, j); return "mat resize"; }
  }
  return "?";
}
} // namespace G
