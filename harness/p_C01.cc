// C01: a stored value is read back exactly, under its own type only.
#include "tweak.hh"
#include "routes.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C01";
char const * RULE = "one case = a container with random previous contents, a random value of one of the 20 types (type limits, special reals, any-byte strings, empty vectors, all shapes) stored through a random setter/constructor/assignment route, read through every matching reader and, refused, through every other typed reader; a second store over it follows. Non-trivial: a typed value was stored and compared; distinct by (previous type, route, value).";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 400000 : 36000; }
void monitor_setup() {}
}

// every reader that has to return the value v of container g
static void matching_readers(Ctx & c, Gc & g, Value const & v) {
  Gc const & k = g;
  REQ(k.get_type() == v.t, "type-tag", "type tag " << tname(k.get_type()) << ", stored " << tname(v.t));
  REQ(string(k.get_type_name()) == tname(v.t), "type-name", "get_type_name() = " << k.get_type_name() << " for " << tname(v.t));
  unsigned n = count_of(v);
  unsigned nr = v.t == T::NOTYPE ? 0 : is_mat(v.t) ? v.nr : 1, nc = is_mat(v.t) ? v.nc : n;
  REQ(k.get_num_elements() == n, "num-elements", "get_num_elements() = " << k.get_num_elements() << " for " << show(v));
  REQ(k.num_rows() == nr && k.get_numRows() == nr, "num-rows", "num_rows() = " << k.num_rows() << " for " << show(v));
  REQ(k.num_cols() == nc && k.get_numCols() == nc, "num-cols", "num_cols() = " << k.num_cols() << " for " << show(v));
  Value o = observe(k);
  string d = diff(o, v);
  REQ(d.empty(), "read-back", "const readers: " << d);
  c.count("reads", 5);
  auto eqv = [&](auto const & a, auto const & b, char const * what) { // vectors
    REQ(a.size() == b.size(), "read-back", what << ": size " << a.size() << " != " << b.size());
    for (size_t i = 0; i < a.size(); ++i) { Value x, y; x.t = y.t = T::NOTYPE; bool same_;
      if constexpr (std::is_same_v<std::decay_t<decltype(a[i])>, double> || std::is_same_v<std::decay_t<decltype(a[i])>, cplx>) same_ = beq(a[i], b[i]); else same_ = a[i] == b[i];
      REQ(same_, "read-back", what << ": element " << i << " differs, stored " << show(v)); }
    c.count("reads");
  };
  auto ptr = [&](auto const * p, auto const & b, char const * what) {
    for (size_t i = 0; i < b.size(); ++i) { bool same_;
      if constexpr (std::is_same_v<std::decay_t<decltype(b[i])>, double> || std::is_same_v<std::decay_t<decltype(b[i])>, cplx>) same_ = beq(p[i], b[i]); else same_ = p[i] == b[i];
      REQ(same_, "read-back", what << ": element " << i << " differs, stored " << show(v)); }
    c.count("reads");
  };
  auto mat = [&](auto const & m, auto const & e, char const * what) {
    REQ(m.num_rows() == v.nr && m.numRows() == v.nr && m.num_cols() == v.nc && m.numCols() == v.nc, "read-back", what << ": shape " << m.num_rows() << "x" << m.num_cols() << " stored " << show(v));
    eqv(m, e, what);
    for (unsigned j = 0; j < v.nc; ++j) for (unsigned i = 0; i < v.nr; ++i) { auto x = m(i, j); auto y = e[i + size_t(j) * v.nr]; bool same_; if constexpr (std::is_floating_point_v<decltype(x)> || std::is_same_v<decltype(x), cplx>) same_ = beq(x, y); else same_ = x == y; REQ(same_, "read-back", what << ": (" << i << "," << j << ") differs, stored " << show(v)); }
  };
  switch (v.t) {
  case T::NOTYPE: break;
  case T::POINTER: {
    REQ(k.get_pvoid() == v.p && *k.get_ppvoid() == v.p, "read-back", "get_pvoid/get_ppvoid");
    REQ(g.get_pointer<char *>() == v.p && k.get_pointer<char *>() == v.p, "read-back", "get_pointer<T>");
    c.count("reads", 4); break; }
  case T::BOOL: REQ(g.get_bool() == v.b && k.get_bool("w") == v.b, "read-back", "get_bool"); c.count("reads", 2); break;
  case T::INTEGER: REQ(g.get_int() == v.i && k.get_int("w") == v.i && g.get_as_int() == v.i && *k.get_int_pointer() == v.i && *g.get_int_pointer() == v.i, "read-back", "get_int/get_as_int/get_int_pointer on " << show(v)); c.count("reads", 5); break;
  case T::LONG: REQ(g.get_long() == v.l && k.get_long("w") == v.l && g.get_as_long() == v.l && *k.get_long_pointer() == v.l && *g.get_long_pointer() == v.l, "read-back", "get_long/get_as_long/get_long_pointer on " << show(v)); c.count("reads", 5); break;
  case T::REAL: { double x = 0; k.get_value(x); REQ(beq(g.get_real(), v.r) && beq(k.get_real("w"), v.r) && beq(k.get_number(), v.r) && beq(x, v.r) && beq(*k.get_real_pointer(), v.r) && beq(*g.get_real_pointer(), v.r), "read-back", "get_real/get_number/get_value/get_real_pointer on " << show(v)); c.count("reads", 6); break; }
  case T::COMPLEX: { double re = 0, im = 0; k.get_complex_number(re, im); REQ(beq(g.get_complex(), v.c) && beq(k.get_complex("w"), v.c) && beq(k.get_complex_number(), v.c) && beq(cplx(re, im), v.c) && beq(*k.get_complex_pointer(), v.c) && beq(*g.get_complex_pointer(), v.c), "read-back", "get_complex/get_complex_number/get_complex_pointer on " << show(v)); c.count("reads", 6); break; }
  case T::STRING: REQ(g.get_string() == v.s && k.get_string("w") == v.s, "read-back", "get_string on " << show(v)); c.count("reads", 2); break;
  case T::VEC_POINTER: eqv(g.get_vec_pointer(), v.vp, "get_vec_pointer"); break;
  case T::VEC_BOOL: eqv(g.get_vec_bool(), v.vb, "get_vec_bool"); break;
  case T::VEC_INTEGER: { eqv(g.get_vec_int(), v.vi, "get_vec_int"); ptr(k.get_int_pointer(), v.vi, "get_int_pointer"); ptr(g.get_int_pointer(), v.vi, "get_int_pointer"); vector<int32_t> w{7}; k.copyto_vec_int(w); eqv(w, v.vi, "copyto_vec_int"); break; }
  case T::VEC_LONG: { eqv(g.get_vec_long(), v.vl, "get_vec_long"); ptr(k.get_long_pointer(), v.vl, "get_long_pointer"); ptr(g.get_long_pointer(), v.vl, "get_long_pointer"); vector<int64_t> w{7}; k.copyto_vec_long(w); eqv(w, v.vl, "copyto_vec_long"); break; }
  case T::VEC_REAL: { eqv(g.get_vec_real(), v.vr, "get_vec_real"); ptr(k.get_real_pointer(), v.vr, "get_real_pointer"); ptr(g.get_real_pointer(), v.vr, "get_real_pointer"); vector<double> w{7}; k.copyto_vec_real(w); eqv(w, v.vr, "copyto_vec_real"); break; }
  case T::VEC_COMPLEX: { eqv(g.get_vec_complex(), v.vc, "get_vec_complex"); ptr(k.get_complex_pointer(), v.vc, "get_complex_pointer"); ptr(g.get_complex_pointer(), v.vc, "get_complex_pointer"); vector<cplx> w{7}; k.copyto_vec_complex(w); eqv(w, v.vc, "copyto_vec_complex"); break; }
  case T::VEC_STRING: { eqv(g.get_vec_string(), v.vs, "get_vec_string"); vector<string> w{"q"}; k.copyto_vec_string(w); eqv(w, v.vs, "copyto_vec_string"); break; }
  case T::MAT_INTEGER: { mat(g.get_mat_int(), v.vi, "get_mat_int"); ptr(k.get_int_pointer(), v.vi, "get_int_pointer"); ptr(g.get_int_pointer(), v.vi, "get_int_pointer"); Gc::mat_int_type w(1, 2); k.copyto_mat_int(w); mat(w, v.vi, "copyto_mat_int"); break; }
  case T::MAT_LONG: { mat(g.get_mat_long(), v.vl, "get_mat_long"); ptr(k.get_long_pointer(), v.vl, "get_long_pointer"); ptr(g.get_long_pointer(), v.vl, "get_long_pointer"); Gc::mat_long_type w(1, 2); k.copyto_mat_long(w); mat(w, v.vl, "copyto_mat_long"); break; }
  case T::MAT_REAL: { mat(g.get_mat_real(), v.vr, "get_mat_real"); ptr(k.get_real_pointer(), v.vr, "get_real_pointer"); ptr(g.get_real_pointer(), v.vr, "get_real_pointer"); Gc::mat_real_type w(1, 2); k.copyto_mat_real(w); mat(w, v.vr, "copyto_mat_real"); break; }
  case T::MAT_COMPLEX: { mat(g.get_mat_complex(), v.vc, "get_mat_complex"); ptr(k.get_complex_pointer(), v.vc, "get_complex_pointer"); ptr(g.get_complex_pointer(), v.vc, "get_complex_pointer"); Gc::mat_complex_type w(1, 2); k.copyto_mat_complex(w); mat(w, v.vc, "copyto_mat_complex"); break; }
  case T::VECTOR: { auto & x = g.get_vector(); REQ(x.size() == v.v.size(), "read-back", "get_vector size"); for (size_t i = 0; i < x.size(); ++i) { string e = diff(observe(x[i]), v.v[i]); REQ(e.empty(), "read-back", "get_vector: " << e); e = diff(observe(k[unsigned(i)]), v.v[i]); REQ(e.empty(), "read-back", "operator[]: " << e); } c.count("reads", 2); break; }
  case T::MAP: { auto & x = g.get_map(); REQ(x.size() == v.m.size(), "read-back", "get_map size"); for (auto & kv : v.m) { auto it = x.find(kv.first); REQ(it != x.end(), "read-back", "get_map misses key " << quote(kv.first)); string e = diff(observe(it->second), kv.second); REQ(e.empty(), "read-back", "get_map: " << e); e = diff(observe(k[kv.first]), kv.second); REQ(e.empty(), "read-back", "operator[]: " << e); } c.count("reads", 2); break; }
  }
  d = diff(observe(k), v);
  REQ(d.empty(), "read-changed-value", "after reading: " << d);
}

// typed readers that have to refuse the type
static void refused_readers(Ctx & c, Gc & g, Value const & v) {
  Gc const & k = g;
  auto ref = [&](char const * name, bool ok_type, auto f) {
    if (ok_type) return;
    bool t = throws(f);
    REQ(t, "wrong-type-accepted", name << " accepted a container of type " << tname(v.t) << " holding " << show(v));
    c.count("refused_reads");
    string d = diff(observe(k), v);
    REQ(d.empty(), "refused-read-changed-value", name << " threw but changed the value: " << d);
  };
  T t = v.t;
  unsigned which = unsigned(c.r.below(3));
  if (which == 0) {
    ref("get_bool const", t == T::BOOL, [&] { (void)k.get_bool(); });
    ref("get_int const", t == T::INTEGER, [&] { (void)k.get_int(); });
    ref("get_long const", t == T::LONG, [&] { (void)k.get_long(); });
    ref("get_real const", t == T::REAL, [&] { (void)k.get_real(); });
    ref("get_complex const", t == T::COMPLEX, [&] { (void)k.get_complex(); });
    ref("get_string const", t == T::STRING, [&] { (void)k.get_string(); });
    ref("get_pvoid", t == T::POINTER, [&] { (void)k.get_pvoid(); });
    ref("get_ppvoid", t == T::POINTER, [&] { (void)k.get_ppvoid(); });
    ref("get_pointer<T> const", t == T::POINTER, [&] { (void)k.get_pointer<int *>(); });
    ref("get_vec_pointer const", t == T::VEC_POINTER, [&] { (void)k.get_vec_pointer(); });
    ref("get_vec_bool const", t == T::VEC_BOOL, [&] { (void)k.get_vec_bool(); });
    ref("get_vec_int const", t == T::VEC_INTEGER, [&] { (void)k.get_vec_int(); });
    ref("get_vec_long const", t == T::VEC_LONG, [&] { (void)k.get_vec_long(); });
    ref("get_vec_real const", t == T::VEC_REAL, [&] { (void)k.get_vec_real(); });
    ref("get_vec_complex const", t == T::VEC_COMPLEX, [&] { (void)k.get_vec_complex(); });
    ref("get_vec_string const", t == T::VEC_STRING, [&] { (void)k.get_vec_string(); });
    ref("get_mat_int const", t == T::MAT_INTEGER, [&] { (void)k.get_mat_int(); });
    ref("get_mat_long const", t == T::MAT_LONG, [&] { (void)k.get_mat_long(); });
    ref("get_mat_real const", t == T::MAT_REAL, [&] { (void)k.get_mat_real(); });
    ref("get_mat_complex const", t == T::MAT_COMPLEX, [&] { (void)k.get_mat_complex(); });
    ref("get_vector const", t == T::VECTOR, [&] { (void)k.get_vector(); });
    ref("get_map const", t == T::MAP, [&] { (void)k.get_map(); });
  } else if (which == 1) {
    // non-const readers create the value on an empty container, so that one is left out
    bool e = t == T::NOTYPE;
    ref("get_bool", e || t == T::BOOL, [&] { (void)g.get_bool(); });
    ref("get_int", e || t == T::INTEGER, [&] { (void)g.get_int(); });
    ref("get_long", e || t == T::LONG, [&] { (void)g.get_long(); });
    ref("get_real", e || t == T::REAL, [&] { (void)g.get_real(); });
    ref("get_complex", e || t == T::COMPLEX, [&] { (void)g.get_complex(); });
    ref("get_string", e || t == T::STRING, [&] { (void)g.get_string(); });
    ref("get_pointer<T>", t == T::POINTER, [&] { (void)g.get_pointer<int *>(); });
    ref("get_vec_pointer", t == T::VEC_POINTER, [&] { (void)g.get_vec_pointer(); });
    ref("get_vec_bool", t == T::VEC_BOOL, [&] { (void)g.get_vec_bool(); });
    ref("get_vec_string", t == T::VEC_STRING, [&] { (void)g.get_vec_string(); });
    ref("get_vector", t == T::VECTOR, [&] { (void)g.get_vector(); });
    ref("get_map", e || t == T::MAP, [&] { (void)g.get_map(); });
    bool numvec = t >= T::VEC_BOOL && t <= T::VEC_COMPLEX, nummat = is_mat(t);
    ref("get_vec_int", e || t == T::VEC_BOOL || t == T::VEC_INTEGER, [&] { (void)g.get_vec_int(); });
    ref("get_vec_long", e || (numvec && t <= T::VEC_LONG), [&] { (void)g.get_vec_long(); });
    ref("get_vec_real", e || (numvec && t <= T::VEC_REAL), [&] { (void)g.get_vec_real(); });
    ref("get_vec_complex", e || numvec, [&] { (void)g.get_vec_complex(); });
    ref("get_mat_int", e || numvec || t == T::MAT_INTEGER, [&] { (void)g.get_mat_int(); });
    ref("get_mat_long", e || numvec || t == T::MAT_INTEGER || t == T::MAT_LONG, [&] { (void)g.get_mat_long(); });
    ref("get_mat_real", e || numvec || (nummat && t <= T::MAT_REAL), [&] { (void)g.get_mat_real(); });
    ref("get_mat_complex", e || numvec || nummat, [&] { (void)g.get_mat_complex(); });
  } else {
    ref("get_int_pointer const", t == T::INTEGER || t == T::VEC_INTEGER || t == T::MAT_INTEGER, [&] { (void)k.get_int_pointer(); });
    ref("get_long_pointer const", t == T::LONG || t == T::VEC_LONG || t == T::MAT_LONG, [&] { (void)k.get_long_pointer(); });
    ref("get_real_pointer const", t == T::REAL || t == T::VEC_REAL || t == T::MAT_REAL, [&] { (void)k.get_real_pointer(); });
    ref("get_complex_pointer const", t == T::COMPLEX || t == T::VEC_COMPLEX || t == T::MAT_COMPLEX, [&] { (void)k.get_complex_pointer(); });
    ref("get_int_pointer", t == T::INTEGER || t == T::VEC_INTEGER || t == T::MAT_INTEGER, [&] { (void)g.get_int_pointer(); });
    ref("get_long_pointer", t == T::LONG || t == T::VEC_LONG || t == T::MAT_LONG, [&] { (void)g.get_long_pointer(); });
    ref("get_real_pointer", t == T::REAL || t == T::VEC_REAL || t == T::MAT_REAL, [&] { (void)g.get_real_pointer(); });
    ref("get_complex_pointer", t == T::COMPLEX || t == T::VEC_COMPLEX || t == T::MAT_COMPLEX, [&] { (void)g.get_complex_pointer(); });
    bool num = t >= T::BOOL && t <= T::COMPLEX;
    int32_t i; uint32_t u; int64_t l; uint64_t ul; double r; float f;
    ref("get_value<int>", num, [&] { k.get_value(i); });
    ref("get_value<uint>", num, [&] { k.get_value(u); });
    ref("get_value<long>", num, [&] { k.get_value(l); });
    ref("get_value<ulong>", num, [&] { k.get_value(ul); });
    ref("get_value<double>", num, [&] { k.get_value(r); });
    ref("get_value<float>", num, [&] { k.get_value(f); });
    ref("get_as_int", num, [&] { (void)k.get_as_int(); });
    ref("get_as_uint", num, [&] { (void)k.get_as_uint(); });
    ref("get_as_long", num, [&] { (void)k.get_as_long(); });
    ref("get_as_ulong", num, [&] { (void)k.get_as_ulong(); });
    ref("get_number", num, [&] { (void)k.get_number(); });
    ref("get_complex_number", num, [&] { (void)k.get_complex_number(); });
    ref("free_pointer", t == T::NOTYPE || t == T::POINTER, [&] { g.free_pointer(); });
  }
}

// a container without a value, whatever it held before, gives an element of the type asked for that starts from nothing
static void untyped_readers(Ctx & c, Gc & g) {
  Value z; unsigned k = unsigned(c.r.below(14)); static const T ty[] = {T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::STRING, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX}; z.t = ty[k];
  switch (k) {
  case 0: (void)g.get_bool(); break; case 1: (void)g.get_int(); break; case 2: (void)g.get_long(); break; case 3: (void)g.get_real(); break; case 4: (void)g.get_complex(); break; case 5: (void)g.get_string(); break;
  case 6: (void)g.get_vec_int(); break; case 7: (void)g.get_vec_long(); break; case 8: (void)g.get_vec_real(); break; case 9: (void)g.get_vec_complex(); break;
  case 10: (void)g.get_mat_int(); break; case 11: (void)g.get_mat_long(); break; case 12: (void)g.get_mat_real(); break; default: (void)g.get_mat_complex(); break;
  }
  string d = diff(observe(g), z); REQ(d.empty(), "starts-dirty", "a cleared container asked for " << tname(z.t) << " does not start from nothing: " << d); c.count("untyped_reads");
}
// texts as a list: a string, a list of strings, a generic vector of strings; nothing else
static void string_list(Ctx & c, Gc const & k, Value const & v) {
  vector<string> w{"q", "r"}, want; bool ok = v.t == T::STRING || v.t == T::VEC_STRING || v.t == T::VECTOR;
  if (v.t == T::STRING) want = {v.s}; else if (v.t == T::VEC_STRING) want = v.vs; else if (v.t == T::VECTOR) for (auto & x : v.v) { if (x.t != T::STRING) ok = false; want.push_back(x.s); }
  bool t = throws([&] { k.copyto_vec_string(w); }); c.count("string_lists"); if (t) c.count("refused_reads");
  REQ(t == !ok, ok ? "matching-refused" : "wrong-type-accepted", "copyto_vec_string of " << show(v, 300) << (t ? " throws" : " is accepted")); if (ok) REQ(w == want, "read-back", "copyto_vec_string of " << show(v, 300) << " gives " << w.size() << " strings, or other ones");
  string d = diff(observe(k), v); REQ(d.empty(), "read-changed", "copyto_vec_string: " << d);
}
void H::run_case(Ctx & c) {
  Opt o; o.deep = true; o.huge = 1200; o.max_depth = 3;
  // previous contents: systematically all types; half of the time the type that is stored next
  T prev = T(c.idx % NT), next = c.r.chance(1, 4) ? prev : T((c.idx / NT) % NT);
  Gc g;
  Value pv = gtyped(c.r, prev, o), v = gtyped(c.r, next, o);
  if (c.r.chance(1, 8)) some_zeros(c.r, v);
  if (prev == next ? c.r.chance(2, 3) : c.r.chance(1, 10)) pv = grelated(c.r, v, o);
  build(g, pv);
  c.log("previous contents " + show(pv));
  string route;
  Gc * made = nullptr;
  { string r = store(c.r, g, v, made); route = r; }
  c.log("store " + show(v) + " by " + route);
  std::unique_ptr<Gc> own(made);
  Gc & h = made ? *made : g;
  c.count(("stored " + string(tname(next))).c_str());
  matching_readers(c, h, v);
  refused_readers(c, h, v);
  matching_readers(c, h, v); string_list(c, h, v);
  if (c.r.chance(1, 12)) { Value s = mk(T::VECTOR); unsigned n = c.r.chance(1, 300) ? 65536 + unsigned(c.r.below(3)) : c.r.chance(1, 20) ? gbig(c.r) : unsigned(c.r.below(6)); for (unsigned q = 0; q < n; ++q) s.v.push_back(S(n > 1000 ? std::to_string(q) : gstr(c.r, o))); if (n && n < 1000 && c.r.chance(1, 4)) s.v[c.r.below(n)] = gtyped(c.r, T(c.r.below(NT)), o, 3); Gc x; build(x, s); c.log("texts " + show(s, 300)); string_list(c, x, s); }
  // modify through the reference a reader gives, and read again
  if (modify_through_reference(c.r, h, v)) { c.log("modified through a reference: " + show(v)); c.count("modified_by_reference"); matching_readers(c, h, v); }
  c.mark(mix64(uint64_t(prev)) ^ hash(v)); c.mark(route);
  if (c.idx < 64) c.sample = "previous " + show(pv, 100) + " ; store " + show(v, 150) + " by " + route;
  // a second store over it
  if (c.r.chance(1, 8)) { some_zeros(c.r, v); build(h, v); }
  Value w = c.r.chance(1, 3) ? grelated(c.r, v, o) : gtyped(c.r, T(c.r.below(NT)), o);
  Gc * made2 = nullptr; string r2 = store(c.r, h, w, made2); std::unique_ptr<Gc> own2(made2);
  c.log("store " + show(w) + " by " + r2);
  matching_readers(c, made2 ? *made2 : h, w);
  if (made2) matching_readers(c, h, v);
  h.clear();
  REQ(h.get_type() == T::NOTYPE && h.get_num_elements() == 0, "clear", "clear() leaves " << tname(h.get_type()));
  untyped_readers(c, h);
}
