// C06: maps behave as dictionaries.
#include "routes.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C06";
char const * RULE = "one case = a history of 20..60 map operations on one container (insertion and replacement through operator[], operator(), get_map() and typed setters, erase, clear, change to another type and back) with keys of any bytes given as non-terminated views, checked after each step against a std::map model; after each step all look-ups (existence, single key, several keys, path, typed, optional, key lists) are made for present and absent keys and the container is re-read to see that no look-up changed it. Non-trivial: at least one look-up compared; distinct by the history.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 200000 : 8000; }
void monitor_setup() {}
}
static string pad_; // backing storage of the last view
static std::string_view view(Ctx & c, string const & k) { pad_ = k + (c.r.chance(1, 2) ? "z" : "a") + "tail"; return std::string_view(pad_.data(), k.size()); }

static string some_key(Ctx & c, Value const & v, Opt const & o) {
  if (v.t == T::MAP && !v.m.empty() && c.r.chance(3, 5)) { auto it = v.m.begin(); std::advance(it, long(c.r.below(v.m.size()))); string k = it->first; switch (c.r.below(8)) { case 0: return k + "z"; case 1: return k.empty() ? k : k.substr(0, k.size() - 1); case 2: return k + string(1, '\0'); default: return k; } }
  return gkey(c.r, o);
}
static Value const * find(Value const & v, string const & k) { if (v.t != T::MAP) return nullptr; auto it = v.m.find(k); return it == v.m.end() ? nullptr : &it->second; }

// f(): reads; expected Value or "must throw"
template <class F> static void look(Ctx & c, Gc const & g, Value const & v, char const * what, string const & key, Value const * want, bool type_ok, F f) {
  Value got; bool thrown = throws([&] { got = f(); });
  c.count("look_ups");
  if (want && type_ok) {
    REQ(!thrown, "present-key-not-found", what << " key " << quote(key) << " threw in " << show(v));
    string d = diff(got, *want);
    REQ(d.empty(), "wrong-entry", what << " key " << quote(key) << ": " << d << " (expected on the right)");
    c.count("look_ups_present");
  } else REQ(thrown, want ? "wrong-type-accepted" : "absent-key-found", what << " key " << quote(key) << " returned " << show(got) << " in " << show(v));
  (void)g;
}
static bool num_ok(Value const & w) { return w.t == T::BOOL || w.t == T::INTEGER || w.t == T::LONG || w.t == T::REAL; }
static double numv(Value const & w) { return w.t == T::BOOL ? w.b : w.t == T::INTEGER ? w.i : w.t == T::LONG ? double(w.l) : w.r; }
// integers a value is exactly equal to (int32), used for get_map_int
static bool as_int(Value const & w, int32_t & x) {
  switch (w.t) {
  case T::BOOL: x = w.b; return true;
  case T::INTEGER: x = w.i; return true;
  case T::LONG: if (w.l < INT_MIN || w.l > INT_MAX) return false; x = int32_t(w.l); return true;
  case T::REAL: if (!(w.r >= INT_MIN && w.r <= INT_MAX) || w.r != std::floor(w.r)) return false; x = int32_t(w.r); return true;
  case T::COMPLEX: if (w.c.imag() != 0 || !(w.c.real() >= INT_MIN && w.c.real() <= INT_MAX) || w.c.real() != std::floor(w.c.real())) return false; x = int32_t(w.c.real()); return true;
  default: return false;
  }
}
template <class F1, class F2, class F3> static void typed(Ctx & c, Gc const & g, Value const & v, char const * nm, vector<string> const & ks, vector<string> const & path, T t, F1 one, F2 several, F3 bypath) {
  string const & k = ks[0];
  Value const * w = find(v, k);
  look(c, g, v, (string(nm) + "(key)").c_str(), k, w, w && w->t == t, [&] { return one(k); });
  Value const * f = nullptr; string fk; for (auto & x : ks) if ((f = find(v, x))) { fk = x; break; }
  look(c, g, v, (string(nm) + "(keys)").c_str(), fk, f, f && f->t == t, [&] { return several(ks); });
  Value const * p = &v; string ps; for (auto & x : path) { ps += "/" + x; p = p ? find(*p, x) : nullptr; }
  look(c, g, v, (string(nm) + "(path)").c_str(), ps, p, p && p->t == t, [&] { return bypath(path); });
}
#define PATH(fn) [&](vector<string> const & q) -> decltype(auto) { switch (q.size()) { case 1: return g.fn({q[0]}); case 2: return g.fn({q[0], q[1]}); default: return g.fn({q[0], q[1], q[2]}); } }

static void lookups(Ctx & c, Gc & gm, Value const & v, Opt const & o) {
  Gc const & g = gm;
  vector<string> ks; unsigned n = 1 + unsigned(c.r.below(3)); for (unsigned q = 0; q < n; ++q) ks.push_back(some_key(c, v, o));
  vector<string> path; { Value const * p = &v; unsigned m = 1 + unsigned(c.r.below(3)); for (unsigned q = 0; q < m; ++q) { static Value none; string k = some_key(c, p ? *p : none, o); path.push_back(k); p = p ? find(*p, k) : nullptr; } }
  string k = ks[0]; Value const * w = find(v, k);
  Value const * first = nullptr; string firstk; for (auto & x : ks) if (find(v, x)) { first = find(v, x); firstk = x; break; }
  if (v.t == T::MAP && !w) c.count("absent_keys");
  // existence
  REQ(g.exists(view(c, k)) == (w != nullptr), "exists", "exists(" << quote(k) << ") is " << (w == nullptr) << " in " << show(v));
  REQ(g.exists(ks) == (first != nullptr), "exists", "exists(keys) wrong, first present " << quote(firstk) << " in " << show(v));
  c.count("look_ups", 2);
  { string s; bool t = throws([&] { s = g.must_exists(ks, "where"); }); REQ(t == (first == nullptr), "must-exists", "must_exists " << (t ? "threw" : "did not throw") << " in " << show(v)); if (!t) REQ(s == firstk, "must-exists", "must_exists gave " << quote(s) << ", first present is " << quote(firstk)); }
  // untyped access
  look(c, g, v, "operator[] const", k, w, true, [&] { return observe(g[view(c, k)]); });
  look(c, g, v, "operator() const", k, w, true, [&] { return observe(g(view(c, k), "w")); });
  look(c, g, v, "operator()", k, w, true, [&] { return observe(gm(view(c, k), "w")); });
  look(c, g, v, "operator()(keys) const", firstk, first, true, [&] { return observe(g(ks, "w")); });
  look(c, g, v, "operator()(keys)", firstk, first, true, [&] { return observe(gm(ks, "w")); });
  // typed access
  // listed finding: the real/complex vector look-ups by key widen a narrower entry in place
  auto widens = [&](Value const * x, int rank) { return x && (x->t == T::NOTYPE || (x->t >= T::VEC_BOOL && x->t < (rank == 3 ? T::VEC_REAL : T::VEC_COMPLEX))); };
  unsigned which = unsigned(c.r.below(7));
  if (which == 2 && (widens(w, 3) || widens(first, 3))) which = 0;
  if (which == 3 && (widens(w, 4) || widens(first, 4))) which = 0;
  switch (which) {
  case 0: typed(c, g, v, "get_map_bool", ks, path, T::BOOL, [&](string const & x) { return B(g.get_map_bool(view(c, x))); }, [&](vector<string> const & q) { return B(g.get_map_bool(q, "w")); }, [&](vector<string> const & q) { return B(PATH(get_map_bool)(q)); }); break;
  case 1: typed(c, g, v, "get_map_string", ks, path, T::STRING, [&](string const & x) { return S(string(g.get_map_string(view(c, x)))); }, [&](vector<string> const & q) { return S(string(g.get_map_string(q, "w"))); }, [&](vector<string> const & q) { return S(string(PATH(get_map_string)(q))); }); break;
  case 2: typed(c, g, v, "get_map_vec_real", ks, path, T::VEC_REAL, [&](string const & x) { return VR(g.get_map_vec_real(view(c, x))); }, [&](vector<string> const & q) { return VR(g.get_map_vec_real(q, "w")); }, [&](vector<string> const & q) { return VR(PATH(get_map_vec_real)(q)); }); break;
  case 3: typed(c, g, v, "get_map_vec_complex", ks, path, T::VEC_COMPLEX, [&](string const & x) { return VC(g.get_map_vec_complex(view(c, x))); }, [&](vector<string> const & q) { return VC(g.get_map_vec_complex(q, "w")); }, [&](vector<string> const & q) { return VC(PATH(get_map_vec_complex)(q)); }); break;
  case 4: typed(c, g, v, "get_map_vec_string", ks, path, T::VEC_STRING, [&](string const & x) { return VS(g.get_map_vec_string(view(c, x))); }, [&](vector<string> const & q) { return VS(g.get_map_vec_string(q, "w")); }, [&](vector<string> const & q) { return VS(PATH(get_map_vec_string)(q)); }); break;
  case 5: {
    int32_t x = 0; bool ok = w && as_int(*w, x); Value e = I(x);
    look(c, g, v, "get_map_int(key)", k, w ? &e : nullptr, ok, [&] { return I(g.get_map_int(view(c, k))); });
    ok = first && as_int(*first, x); e = I(x);
    look(c, g, v, "get_map_int(keys)", firstk, first ? &e : nullptr, ok, [&] { return I(g.get_map_int(ks, "w")); });
    Value const * p = &v; string ps; for (auto & y : path) { ps += "/" + y; p = p ? find(*p, y) : nullptr; }
    // the path form may or may not convert: an integer entry must be found, an unrepresentable one refused
    if (p && p->t == T::INTEGER) look(c, g, v, "get_map_int(path)", ps, p, true, [&] { return I(PATH(get_map_int)(path)); });
    else if (!p || !as_int(*p, x)) look(c, g, v, "get_map_int(path)", ps, nullptr, false, [&] { return I(PATH(get_map_int)(path)); });
    break; }
  default: {
    Value e; if (w) e = R(numv(*w)); 
    if (!w || w->t != T::COMPLEX) look(c, g, v, "get_map_number(key)", k, w ? &e : nullptr, w && num_ok(*w), [&] { return R(g.get_map_number(view(c, k))); });
    if (first) e = R(numv(*first));
    if (!first || first->t != T::COMPLEX) look(c, g, v, "get_map_number(keys)", firstk, first ? &e : nullptr, first && num_ok(*first), [&] { return R(g.get_map_number(ks, "w")); });
    Value const * p = &v; string ps; for (auto & y : path) { ps += "/" + y; p = p ? find(*p, y) : nullptr; }
    if (p) e = R(numv(*p));
    if (!p || p->t != T::COMPLEX) look(c, g, v, "get_map_number(path)", ps, p ? &e : nullptr, p && num_ok(*p), [&] { return R(PATH(get_map_number)(path)); });
    break; }
  }
  // optional access: true with the entry's value, or false with the output untouched
  { bool b = false; for (int init = 0; init < 2; ++init) { b = init; bool r = g.get_if_exists(view(c, k), b); bool want = w && w->t == T::BOOL; REQ(r == want && b == (want ? w->b : bool(init)), "get-if-exists", "get_if_exists(bool) of " << quote(k) << " gave " << r << "," << b << " in " << show(v)); } }
  { string s = "keep"; bool r = g.get_if_exists(view(c, k), s); bool want = w && w->t == T::STRING; REQ(r == want && s == (want ? w->s : "keep"), "get-if-exists", "get_if_exists(string) of " << quote(k) << " gave " << r << "," << quote(s) << " in " << show(v)); }
  { int32_t x = 77, y = 0; bool r = g.get_if_exists(view(c, k), x); bool want = w && as_int(*w, y); REQ(r == want && x == (want ? y : 77), "get-if-exists", "get_if_exists(int) of " << quote(k) << " gave " << r << "," << x << " in " << show(v)); }
  if (!w || !num_ok(*w)) { // absent, or no number: refused for every numeric type
    uint32_t u = 71; int64_t l = 72; uint64_t ul = 73; cplx z(74, 75); bool cx = w && w->t == T::COMPLEX;
    bool r = cx ? false : g.get_if_exists(view(c, k), u) || g.get_if_exists(view(c, k), l) || g.get_if_exists(view(c, k), ul) || g.get_if_exists(view(c, k), z);
    REQ(!r && u == 71 && l == 72 && ul == 73 && z == cplx(74, 75), "get-if-exists", "get_if_exists of a numeric type accepts or sets its output for " << quote(k) << " in " << show(v)); }
  { double x = 77.5; bool r = g.get_if_exists(view(c, k), x); if (w && num_ok(*w)) REQ(r && beq(x, numv(*w)), "get-if-exists", "get_if_exists(real) of " << quote(k) << " gave " << r << "," << x << " in " << show(v)); else if (!w || w->t != T::COMPLEX) REQ(!r && x == 77.5, "get-if-exists", "get_if_exists(real) of " << quote(k) << " gave " << r << "," << x << " in " << show(v)); }
  { // several keys: the first one that holds such a value
    string s = "keep"; bool r = g.get_if_exists(ks, s); Value const * f = nullptr; for (auto & x : ks) { f = find(v, x); if (f && f->t == T::STRING) break; f = nullptr; }
    REQ(r == (f != nullptr) && s == (f ? f->s : "keep"), "get-if-exists", "get_if_exists(keys,string) gave " << r << "," << quote(s) << " in " << show(v));
    bool b = true; r = g.get_if_exists(ks, b); f = nullptr; for (auto & x : ks) { f = find(v, x); if (f && f->t == T::BOOL) break; f = nullptr; }
    REQ(r == (f != nullptr) && b == (f ? f->b : true), "get-if-exists", "get_if_exists(keys,bool) gave " << r << "," << b << " in " << show(v));
    int32_t x = 5, y = 0; r = g.get_if_exists(ks, x); bool ok = false; for (auto & q : ks) { Value const * z = find(v, q); if (z && as_int(*z, y)) { ok = true; break; } }
    REQ(r == ok && x == (ok ? y : 5), "get-if-exists", "get_if_exists(keys,int) gave " << r << "," << x << " in " << show(v)); }
  if (k.find('\0') == string::npos) { string s = "keep"; bool r = g.get_if_exists(k.c_str(), s); bool want = w && w->t == T::STRING; REQ(r == want && s == (want ? w->s : "keep"), "get-if-exists", "get_if_exists(char*,string) of " << quote(k)); }
  c.count("optional_look_ups", 9);
  // key lists
  vector<string> keys{"old"}, wk; g.get_keys(keys); string joined;
  if (v.t == T::MAP) for (auto & kv : v.m) { wk.push_back(kv.first); joined += (joined.empty() && wk.size() == 1 ? "" : ", ") + kv.first; }
  REQ(keys == wk, "get-keys", "get_keys(vector) lists " << keys.size() << " keys of " << wk.size() << " in " << show(v));
  REQ(g.get_keys() == joined, "get-keys", "get_keys() gives " << quote(g.get_keys()) << ", expected " << quote(joined));
  REQ(g.get_num_elements() == count_of(v), "count", "get_num_elements() " << g.get_num_elements() << " for " << show(v));
  string d = diff(observe(g), v);
  REQ(d.empty(), "look-up-changed-map", "after the look-ups: " << d);
}

// get_map_vec_real/complex by key: the entry may be widened in place (listed finding); anything else is judged as usual
static void widening(Ctx & c, Opt const & o) {
  static const T ts[] = {T::NOTYPE, T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL};
  Value v = mk(T::MAP); v.m["a"] = gtyped(c.r, ts[c.r.below(5)], o, 1); v.m["b"] = I(3);
  Gc m; build(m, v); Gc const & g = m;
  bool cx = c.r.chance(1, 2), keys = c.r.chance(1, 2);
  bool t = throws([&] { if (cx) { if (keys) g.get_map_vec_complex(vector<string>{"zz", "a"}, "w"); else g.get_map_vec_complex("a"); } else { if (keys) g.get_map_vec_real(vector<string>{"zz", "a"}, "w"); else g.get_map_vec_real("a"); } });
  Value now = observe(g);
  REQ(same(now.m["b"], v.m["b"]) && now.m.size() == 2, "look-up-changed-map", "get_map_vec_* changed another entry: " << show(now));
  if (same(now, v)) return;
  REQ(!t, "look-up-changed-map", "get_map_vec_* threw and changed " << show(v) << " to " << show(now));
  c.soft("const-look-up-widens", STR("get_map_vec_" << (cx ? "complex" : "real") << "(key) of " << show(v) << " changed the const container to " << show(now)));
}
void H::run_case(Ctx & c) {
  if (c.idx % 40 == 39) { Opt o; widening(c, o); c.mark(c.r.next()); return; }
  Opt o; o.max_depth = 2; o.bigvec = false; o.max_kids = 4; o.subnormal = false;
  Value v; auto g = std::make_unique<Gc>();
  if (c.r.chance(1, 2)) { v = gtyped(c.r, c.r.chance(4, 5) ? T::MAP : T(c.r.below(NT)), o); build(*g, v); }
  c.log("start " + show(v)); c.mark(hash(v));
  unsigned n = 20 + unsigned(c.r.below(40));
  static const T pick[] = {T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::STRING, T::STRING, T::VEC_REAL, T::VEC_COMPLEX, T::VEC_STRING, T::MAP, T::MAP, T::NOTYPE, T::VECTOR};
  for (unsigned s = 0; s < n; ++s) {
    string k = some_key(c, v, o);
    unsigned op = unsigned(c.r.below(24));
    Value x = c.r.chance(4, 5) ? gtyped(c.r, pick[c.r.below(sizeof pick / sizeof *pick)], o, 1) : gvalue(c.r, o, 2);
    Gc * made = nullptr;
    auto put = [&](Gc & e) { Value old = observe(e); (void)old; string route = store(c.r, e, x, made); std::unique_ptr<Gc> own(made); if (made) e = *made; return route; };
    if (op < 9) {
      c.log("g[" + quote(k) + "] = " + show(x, 100));
      if (v.t != T::MAP) { v = mk(T::MAP); }
      put((*g)[view(c, k)]); v.m[k] = x; c.count("insertions");
    } else if (op < 11) {
      c.log("g[" + quote(k) + "] only");
      if (v.t != T::MAP) v = mk(T::MAP);
      Value e = observe((*g)[view(c, k)]); Value w = v.m.count(k) ? v.m[k] : Value(); v.m[k] = w;
      string d = diff(e, w); REQ(d.empty(), "wrong-entry", "operator[] of " << quote(k) << ": " << d);
    } else if (op < 13) {
      c.log("get_map()[" + quote(k) + "] = " + show(x, 100));
      if (v.t == T::NOTYPE) continue;
      if (v.t == T::MAP) { build(g->get_map()[k], x); v.m[k] = x; }
      else { REQ(throws([&] { g->get_map(); }), "wrong-type-accepted", "get_map on " << show(v)); }
    } else if (op < 17) {
      c.log("erase " + quote(k));
      bool t = throws([&] { g->erase(view(c, k)); });
      REQ(t == (v.t != T::MAP), "erase", "erase of " << quote(k) << (t ? " threw" : " did not throw") << " on " << show(v));
      v.m.erase(k); c.count("erasures");
    } else if (op < 18) {
      // into a nested map
      c.log("g[" + quote(k) + "][sub]");
      string k2 = gkey(c.r, o);
      if (v.t != T::MAP) v = mk(T::MAP);
      put((*g)[k][k2]); Value & e = v.m[k]; if (e.t != T::MAP) e = mk(T::MAP); e.m[k2] = x;
    } else if (op < 20) {
      Gc * e = nullptr; bool t = throws([&] { e = &(*g)(view(c, k), "w"); });
      REQ(t == (find(v, k) == nullptr), t ? "present-key-not-found" : "absent-key-found", "operator()(" << quote(k) << ") in " << show(v));
      if (!t) { c.log("g(" + quote(k) + ") = " + show(x, 100)); put(*e); v.m[k] = x; c.count("replacements"); }
    } else if (op < 21) {
      vector<string> q{some_key(c, v, o), k}; Gc * e = nullptr; bool t = throws([&] { e = &(*g)(q, "w"); });
      string f = find(v, q[0]) ? q[0] : k; REQ(t == (find(v, f) == nullptr), t ? "present-key-not-found" : "absent-key-found", "operator()(keys) in " << show(v));
      if (!t) { c.log("g({..}) = " + show(x, 100)); put(*e); v.m[f] = x; }
    } else if (op < 22) { if (c.r.chance(1, 4)) { c.log("clear"); g->clear(); v = Value(); } }
    else if (op < 23) { if (c.r.chance(1, 4)) { c.log("store " + show(x, 100)); put(*g); v = x; } }
    else { Gc t(*g); g = std::make_unique<Gc>(t); c.log("copied"); }
    c.mark(op); c.mark(k);
    string d = diff(observe(*g), v);
    REQ(d.empty(), "map-history", "after step " << s << ": " << d << " (expected on the right)");
    c.count("steps");
    if (s % 3 == 0 || s + 1 == n) lookups(c, *g, v, o);
  }
  if (c.idx % 500 < 2) c.sample = std::to_string(n) + " steps ending in " + show(v, 200);
}
