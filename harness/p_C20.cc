// C20: the C interface against a model of named trees with a cursor.
#include "promo.hh"
#include "codec.hh"
#include <GenericContainer/GenericContainerInterface_C.h>
using namespace G;
namespace H {
char const * PROPERTY = "C20";
char const * RULE = "one case = a history of 10..90 C calls (new, select, delete, mem_ptr, push/pop/reset head, set, push, read, navigate, key iteration, dump; about a quarter of them misuses: wrong type, bad position, missing key, pop of the root, negative size, no container selected) over up to 5 named containers, mirrored on a model holding per name a tree, a cursor stack and the pending keys; every returned code and value is compared with the model, and after each mutating call the whole tree of every container is observed and compared, so that a change to an unselected one shows. Wrong-type reads are made on throw-away containers. Non-trivial: at least one value was read back; distinct by call history.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 200000 : 12000; }
void monitor_setup() { silence(); }
}
struct Step { bool key; unsigned i; string k; };
struct Tree { Value root; vector<Step> path; std::set<string> keys; bool iter = false; };
static Value & at(Tree & t) { Value * v = &t.root; for (auto & s : t.path) v = s.key ? &v->m[s.k] : &v->v[s.i]; return *v; }
struct World {
  Ctx & c; std::map<string, Tree> trees; string act; bool has = false; // act valid if has
  explicit World(Ctx & c_) : c(c_) {}
  Tree & cur() { return trees[act]; }
  Value & top() { return at(cur()); }
  void check_all(string const & what) {
    for (auto & kv : trees) {
      Value got = observe(*static_cast<Gc *>(GC_mem_ptr(kv.first.c_str())));
      string d = diff(got, kv.second.root);
      REQ(d.empty(), kv.first == act && has ? "wrong-tree" : "other-container-changed", "after " << what << ", container " << quote(kv.first) << ": " << d << " (expected on the right)");
      c.count("trees_compared");
    }
    if (has) GC_select(act.c_str()); else { GC_new("tmp"); GC_delete("tmp"); } // back to the selection before
  }
};
static string cstr(Rng & r) { Opt o; o.nul = false; return gstr(r, o); }
static string ckey(Rng & r) { Opt o; o.nul = false; return gkey(r, o); }
static bool zero(double x) { return x == 0; }

// reads at the cursor; every reader whose type fits, and out-of-range positions
static void reads(World & w) {
  Ctx & c = w.c; Value const v = w.top(); Rng & r = c.r;
  auto num = [&](double a, double b, char const * f) { REQ(beq(a, b), "wrong-value", f << " gives " << M::num(a) << " for " << show(v)); c.count("values_read"); };
  REQ(GC_get_type() == int(v.t), "wrong-value", "GC_get_type " << GC_get_type() << " for " << show(v));
  REQ(string(GC_get_type_name()) == tname(v.t), "wrong-value", "GC_get_type_name " << GC_get_type_name() << " for " << show(v));
  if (v.t != T::NOTYPE) { int n = GC_get_vector_size(); REQ(n == int(count_of(v)), "wrong-value", "GC_get_vector_size " << n << " for " << show(v)); }
  if (is_mat(v.t)) REQ(GC_get_matrix_num_rows() == int(v.nr) && GC_get_matrix_num_cols() == int(v.nc), "wrong-value", "matrix size " << GC_get_matrix_num_rows() << "x" << GC_get_matrix_num_cols() << " for " << show(v));
  c.count("reads_at_cursor");
  switch (v.t) {
  case T::BOOL: REQ(GC_get_bool() == int(v.b), "wrong-value", "GC_get_bool for " << show(v)); c.count("values_read"); return;
  case T::INTEGER: REQ(GC_get_int() == v.i, "wrong-value", "GC_get_int " << GC_get_int() << " for " << show(v)); c.count("values_read"); return;
  case T::LONG: REQ(GC_get_long() == v.l, "wrong-value", "GC_get_long " << GC_get_long() << " for " << show(v)); c.count("values_read"); return;
  case T::REAL: num(GC_get_real(), v.r, "GC_get_real"); return;
  case T::COMPLEX: { auto z = GC_get_complex(); num(z.real, v.c.real(), "GC_get_complex"); num(z.imag, v.c.imag(), "GC_get_complex"); num(GC_get_complex_re(), v.c.real(), "GC_get_complex_re"); num(GC_get_complex_im(), v.c.imag(), "GC_get_complex_im"); return; }
  case T::STRING: { char const * s = GC_get_string(); REQ(s && v.s == s, "wrong-value", "GC_get_string for " << show(v)); c.count("values_read"); return; }
  default: break;
  }
  int n = int(count_of(v));
  static const int far[] = {-1, INT_MIN, INT_MAX, -7};
  for (int q = 0; q < 4; ++q) {
    int p = r.chance(1, 4) ? (r.chance(1, 2) ? n : r.chance(1, 2) ? n + 1 : far[r.below(4)]) : int(r.below(unsigned(n) + 1));
    bool in = p >= 0 && p < n;
    string ps = "(" + std::to_string(p) + ")";
    auto val = [&](double a, double b, char const * f) { REQ(beq(a, in ? b : 0), in ? "wrong-value" : "bad-position", f << ps << " gives " << M::num(a) << " for " << show(v)); c.count(in ? "values_read" : "bad_positions"); };
    auto cz = [&](cplx z) { auto g = GC_get_complex_at_pos(p); val(g.real, z.real(), "GC_get_complex_at_pos"); val(g.imag, z.imag(), "GC_get_complex_at_pos.im"); val(GC_get_complex_real_at_pos(p), z.real(), "GC_get_complex_real_at_pos"); val(GC_get_complex_imag_at_pos(p), z.imag(), "GC_get_complex_imag_at_pos"); };
    switch (v.t) {
    case T::VEC_BOOL: val(GC_get_bool_at_pos(p), in ? double(v.vb[size_t(p)]) : 0, "GC_get_bool_at_pos"); break;
    case T::VEC_INTEGER: val(GC_get_int_at_pos(p), in ? double(v.vi[size_t(p)]) : 0, "GC_get_int_at_pos"); val(GC_get_real_at_pos(p), in ? double(v.vi[size_t(p)]) : 0, "GC_get_real_at_pos"); cz(in ? cplx(v.vi[size_t(p)]) : cplx()); break;
    case T::VEC_LONG: val(GC_get_real_at_pos(p), in ? double(v.vl[size_t(p)]) : 0, "GC_get_real_at_pos"); cz(in ? cplx(double(v.vl[size_t(p)])) : cplx()); break;
    case T::VEC_REAL: val(GC_get_real_at_pos(p), in ? v.vr[size_t(p)] : 0, "GC_get_real_at_pos"); cz(in ? cplx(v.vr[size_t(p)], 0) : cplx()); break;
    case T::VEC_COMPLEX: cz(in ? v.vc[size_t(p)] : cplx()); break;
    case T::VEC_STRING: { char const * s = GC_get_string_at_pos(p); REQ(in ? (s && v.vs[size_t(p)] == s) : s == nullptr, in ? "wrong-value" : "bad-position", "GC_get_string_at_pos" << ps << " gives " << (s ? quote(s) : string("NULL")) << " for " << show(v)); c.count(in ? "values_read" : "bad_positions"); break; }
    case T::VECTOR: {
      T et = in ? v.v[size_t(p)].t : T::NOTYPE; if (!in) et = T::INTEGER;
      Value e = in ? v.v[size_t(p)] : I(0);
      if (et == T::BOOL) val(GC_get_bool_at_pos(p), e.b, "GC_get_bool_at_pos");
      if (et == T::INTEGER) { val(GC_get_int_at_pos(p), e.i, "GC_get_int_at_pos"); val(GC_get_real_at_pos(p), e.i, "GC_get_real_at_pos"); }
      if (et == T::REAL) val(GC_get_real_at_pos(p), e.r, "GC_get_real_at_pos");
      if (et == T::COMPLEX) cz(e.c);
      if (et == T::STRING) { char const * s = GC_get_string_at_pos(p); REQ(s && e.s == s, "wrong-value", "GC_get_string_at_pos" << ps << " for " << show(v)); c.count("values_read"); }
      break;
    }
    case T::MAT_REAL: case T::MAT_COMPLEX: {
      int i = r.chance(1, 4) ? int(v.nr) + r.range(-1, 1) : int(r.below(v.nr + 1)), j = r.chance(1, 4) ? int(v.nc) + r.range(-1, 1) : int(r.below(v.nc + 1));
      if (r.chance(1, 10)) i = far[r.below(4)];
      if (r.chance(1, 10)) j = far[r.below(4)];
      bool im = i >= 0 && j >= 0 && i < int(v.nr) && j < int(v.nc); size_t k = im ? size_t(i) + size_t(j) * v.nr : 0;
      auto mval = [&](double a, double b, char const * f) { REQ(beq(a, im ? b : 0), im ? "wrong-value" : "bad-position", f << "(" << i << "," << j << ") gives " << M::num(a) << " for " << show(v)); c.count(im ? "values_read" : "bad_positions"); };
      if (v.t == T::MAT_REAL) mval(GC_get_real_at_coor(i, j), im ? v.vr[k] : 0, "GC_get_real_at_coor");
      else { cplx z = im ? v.vc[k] : cplx(); auto g = GC_get_complex_at_coor(i, j); mval(g.real, z.real(), "GC_get_complex_at_coor"); mval(g.imag, z.imag(), "GC_get_complex_at_coor.im"); mval(GC_get_complex_real_at_coor(i, j), z.real(), "GC_get_complex_real_at_coor"); mval(GC_get_complex_imag_at_coor(i, j), z.imag(), "GC_get_complex_imag_at_coor"); }
      break;
    }
    default: return;
    }
  }
}
// all readers in turn on a container whose content may not fit them
static void any_reader(Ctx & c, unsigned k, int p, int q) {
  switch (k) {
  case 0: GC_get_bool(); break; case 1: GC_get_int(); break; case 2: GC_get_long(); break; case 3: GC_get_real(); break;
  case 4: GC_get_complex(); break; case 5: GC_get_complex_re(); break; case 6: GC_get_complex_im(); break; case 7: GC_get_string(); break;
  case 8: GC_get_bool_at_pos(p); break; case 9: GC_get_int_at_pos(p); break; case 10: GC_get_real_at_pos(p); break; case 11: GC_get_complex_at_pos(p); break;
  case 12: GC_get_complex_real_at_pos(p); break; case 13: GC_get_complex_imag_at_pos(p); break; case 14: GC_get_string_at_pos(p); break;
  case 15: GC_get_real_at_coor(p, q); break; case 16: GC_get_complex_at_coor(p, q); break; case 17: GC_get_complex_real_at_coor(p, q); break; case 18: GC_get_complex_imag_at_coor(p, q); break;
  case 19: GC_get_vector_size(); break; case 20: GC_get_matrix_num_rows(); break; case 21: GC_get_matrix_num_cols(); break; case 22: GC_get_type(); break; default: GC_get_type_name(); break;
  }
  (void)c;
}
// scalar reader on a scalar of another type: neutral value
static void scalar_mismatch(Ctx & c, Value const & v) {
  auto neutral = [&](bool ok, char const * f) { REQ(ok, "wrong-type-read", f << " did not give the neutral value for " << show(v)); c.count("wrong_type_reads"); };
  switch (c.r.below(6)) {
  case 0: if (v.t != T::BOOL) neutral(GC_get_bool() == 0, "GC_get_bool"); break;
  case 1: if (v.t != T::INTEGER) neutral(GC_get_int() == 0, "GC_get_int"); break;
  case 2: if (v.t != T::LONG) neutral(GC_get_long() == 0, "GC_get_long"); break;
  case 3: if (v.t != T::REAL) neutral(zero(GC_get_real()), "GC_get_real"); break;
  case 4: if (v.t != T::COMPLEX) { auto z = GC_get_complex(); neutral(zero(z.real) && zero(z.imag) && zero(GC_get_complex_re()) && zero(GC_get_complex_im()), "GC_get_complex"); } break;
  default: if (v.t != T::STRING) neutral(GC_get_string() == nullptr || !*GC_get_string(), "GC_get_string"); break;
  }
}
static void no_active(World & w) {
  Ctx & c = w.c; c.count("calls_without_container");
  auto bad = [&](int code, char const * f) { REQ(code != 0, "no-container-accepted", f << " returned OK although no container is selected"); };
  c_complex_type z{1, 2}; int iv[] = {1}; double dv[] = {1}; char const * sv[] = {"a"};
  switch (c.r.below(30)) {
  case 0: bad(GC_pop_head(), "GC_pop_head"); break; case 1: bad(GC_reset_head(), "GC_reset_head"); break; case 2: bad(GC_dump(), "GC_dump"); break; case 3: bad(GC_print_content_types(), "GC_print_content_types"); break;
  case 4: bad(GC_set_bool(1), "GC_set_bool"); break; case 5: bad(GC_set_int(1), "GC_set_int"); break; case 6: bad(GC_set_real(1), "GC_set_real"); break; case 7: bad(GC_set_complex(&z), "GC_set_complex"); break;
  case 8: bad(GC_set_complex2(1, 1), "GC_set_complex2"); break; case 9: bad(GC_set_string("a"), "GC_set_string"); break;
  case 10: bad(GC_push_bool(1), "GC_push_bool"); break; case 11: bad(GC_push_int(1), "GC_push_int"); break; case 12: bad(GC_push_real(1), "GC_push_real"); break; case 13: bad(GC_push_complex(&z), "GC_push_complex"); break;
  case 14: bad(GC_push_complex2(1, 1), "GC_push_complex2"); break; case 15: bad(GC_push_string("a"), "GC_push_string"); break;
  case 16: bad(GC_set_empty_vector_of_bool(), "GC_set_empty_vector_of_bool"); break; case 17: bad(GC_set_empty_vector_of_int(), "GC_set_empty_vector_of_int"); break; case 18: bad(GC_set_empty_vector_of_real(), "GC_set_empty_vector_of_real"); break; case 19: bad(GC_set_empty_vector_of_complex(), "GC_set_empty_vector_of_complex"); break; case 20: bad(GC_set_empty_vector_of_string(), "GC_set_empty_vector_of_string"); break;
  case 21: bad(GC_set_vector_of_bool(iv, 1), "GC_set_vector_of_bool"); break; case 22: bad(GC_set_vector_of_int(iv, 1), "GC_set_vector_of_int"); break; case 23: bad(GC_set_vector_of_real(dv, 1), "GC_set_vector_of_real"); break; case 24: bad(GC_set_vector_of_complex(dv, dv, 1), "GC_set_vector_of_complex"); break; case 25: bad(GC_set_vector_of_string(sv, 1), "GC_set_vector_of_string"); break;
  case 26: bad(GC_set_vector(2), "GC_set_vector"); bad(GC_set_empty_vector(), "GC_set_empty_vector"); break; case 27: bad(GC_push_vector_position(0), "GC_push_vector_position"); break; case 28: bad(GC_set_map(), "GC_set_map"); bad(GC_init_map_key(), "GC_init_map_key"); break;
  default: bad(GC_push_map_position("a"), "GC_push_map_position"); { char const * k = GC_get_next_key(); REQ(!k || !*k, "no-container-accepted", "GC_get_next_key without container gives " << quote(k)); } break;
  }
  for (unsigned k = 0; k < 3; ++k) any_reader(c, unsigned(c.r.below(24)), c.r.range(-1, 3), c.r.range(-1, 3));
}
void H::run_case(Ctx & c) {
  Rng & r = c.r; World w(c);
  vector<string> names = {"one", "two", "", "a", "container"};
  unsigned nn = 1 + unsigned(r.below(5)); if (r.chance(1, 12)) { unsigned m = 6 + unsigned(r.below(60)); while (names.size() < m) names.push_back(r.chance(1, 3) ? "container_" + std::to_string(names.size()) : cstr(r) + std::to_string(names.size())); nn = m; }
  string hist; uint64_t before_reads = 0; (void)before_reads; bool read_any = false;
  GC_delete("\x01none"); // unknown: nothing happens
  struct Cleanup { vector<string> & n; ~Cleanup() { for (auto & x : n) GC_delete(x.c_str()); GC_delete("tmp"); } } cleanup{names};
  auto ok = [&](int code, string const & f) { REQ(code == 0, "valid-call-refused", f << " returned " << code << " on " << (w.has ? show(w.top()) : string("-"))); };
  auto bad = [&](int code, string const & f) { REQ(code != 0, "misuse-accepted", f << " returned OK on " << (w.has ? show(w.top()) : string("-"))); c.count("misuses_reported"); };
  unsigned steps = 10 + unsigned(r.below(80)); if (r.chance(1, 150)) steps = 600;
  for (unsigned st = 0; st < steps; ++st) {
    unsigned op = unsigned(r.below(34)); if (r.chance(1, 60)) op = 34 + unsigned(r.below(3)); string what;
    if (!w.has && op > 3) { if (r.chance(1, 2)) { no_active(w); continue; } op = unsigned(r.below(3)); }
    bool mutated = true;
    auto say = [&](string const & s) { what = s; if (hist.size() < 4000) { hist += s; hist += ';'; } c.log(s); };
    switch (op) {
    case 0: case 1: { string n = names[r.below(nn)]; int how = int(r.below(3)); say("select " + quote(n)); if (how == 0) ok(GC_new(n.c_str()), "GC_new"); else if (how == 1) ok(GC_select(n.c_str()), "GC_select"); else REQ(GC_mem_ptr(n.c_str()) != nullptr, "valid-call-refused", "GC_mem_ptr"); w.act = n; w.has = true; w.trees[n]; break; }
    case 2: { if (!r.chance(1, 4)) { mutated = false; break; } string n = names[r.below(nn)]; say("delete " + quote(n)); ok(GC_delete(n.c_str()), "GC_delete"); w.trees.erase(n); if (w.has && w.act == n) { w.has = false; char const * k = GC_get_next_key(); REQ(!k || !*k, "deleted-still-there", "after GC_delete"); REQ(GC_get_type() == -1, "deleted-still-there", "GC_get_type after GC_delete of the selected container"); } break; }
    case 3: { // content planted through C++
      string n = names[r.below(nn)]; Opt o; o.nul = false; o.max_depth = 3; Value v = gvalue(r, o); say("plant " + quote(n) + " " + show(v, 100));
      Gc & g = *static_cast<Gc *>(GC_mem_ptr(n.c_str())); w.act = n; w.has = true; ok(GC_reset_head(), "GC_reset_head"); build(g, v); auto & t = w.trees[n]; t.root = v; t.path.clear(); break; }
    case 4: { say("pop"); int code = GC_pop_head(); if (w.cur().path.empty()) bad(code, "GC_pop_head at the root"); else { ok(code, "GC_pop_head"); w.cur().path.pop_back(); } break; }
    case 5: { if (!r.chance(1, 3)) { mutated = false; break; } say("reset"); ok(GC_reset_head(), "GC_reset_head"); w.cur().path.clear(); break; }
    case 6: { bool b = r.chance(1, 2); int x = b ? (r.chance(1, 2) ? 1 : gint(r) | 1) : 0; say(STR("set_bool " << x)); ok(GC_set_bool(x), "GC_set_bool"); w.top() = B(b); break; }
    case 7: { int x = gint(r); say(STR("set_int " << x)); ok(GC_set_int(x), "GC_set_int"); w.top() = I(x); break; }
    case 8: { double x = greal(r); say("set_real " + M::num(x)); ok(GC_set_real(x), "GC_set_real"); w.top() = R(x); break; }
    case 9: { cplx x = gcplx(r); say("set_complex " + M::num(x)); if (r.chance(1, 2)) { c_complex_type z{x.real(), x.imag()}; ok(GC_set_complex(&z), "GC_set_complex"); } else ok(GC_set_complex2(x.real(), x.imag()), "GC_set_complex2"); w.top() = C(x); break; }
    case 10: { string s = cstr(r); say("set_string " + quote(s)); ok(GC_set_string(s.c_str()), "GC_set_string"); w.top() = S(s); break; }
    case 11: case 12: case 13: case 14: { // push
      Value x; int k = int(r.below(5)); if (rank_of(w.top().t) >= 0 && is_vec(w.top().t) && r.chance(1, 2)) k = std::min(4, rank_of(w.top().t) == 0 ? 0 : rank_of(w.top().t) <= 2 ? 1 : rank_of(w.top().t) - 1);
      int code = 0;
      // numbers beyond 2^53 are not exact once reals are pushed
      switch (k) {
      case 0: x = B(r.chance(1, 2)); say(STR("push_bool " << x.b)); break;
      case 1: x = I(gint(r)); say(STR("push_int " << x.i)); break;
      case 2: x = R(greal(r)); say("push_real " + M::num(x.r)); break;
      case 3: x = C(gcplx(r)); say("push_complex " + M::num(x.c)); break;
      default: x = S(cstr(r)); say("push_string " + quote(x.s)); break;
      }
      auto want = G::push(w.top(), x);
      switch (k) {
      case 0: code = GC_push_bool(x.b ? (r.chance(1, 2) ? 1 : -3) : 0); break;
      case 1: code = GC_push_int(x.i); break;
      case 2: code = GC_push_real(x.r); break;
      case 3: if (r.chance(1, 2)) { c_complex_type z{x.c.real(), x.c.imag()}; code = GC_push_complex(&z); } else code = GC_push_complex2(x.c.real(), x.c.imag()); break;
      default: code = GC_push_string(x.s.c_str()); break;
      }
      if (want) { ok(code, what); w.top() = *want; } else bad(code, what);
      break; }
    case 15: { switch (r.below(5)) { case 0: say("empty bool"); ok(GC_set_empty_vector_of_bool(), what); w.top() = mk(T::VEC_BOOL); break; case 1: say("empty int"); ok(GC_set_empty_vector_of_int(), what); w.top() = mk(T::VEC_INTEGER); break; case 2: say("empty real"); ok(GC_set_empty_vector_of_real(), what); w.top() = mk(T::VEC_REAL); break; case 3: say("empty complex"); ok(GC_set_empty_vector_of_complex(), what); w.top() = mk(T::VEC_COMPLEX); break; default: say("empty string"); ok(GC_set_empty_vector_of_string(), what); w.top() = mk(T::VEC_STRING); break; } break; }
    case 16: case 17: { // whole vectors
      int n = r.chance(1, 12) ? -1 - int(r.below(3)) : r.chance(1, 15) ? int(std::min(gbig(r), 1100u)) : int(r.below(7)); int k = int(r.below(5)); say(STR("set_vector_of " << k << " n=" << n)); Value v; int code; size_t m = n < 0 ? 0 : size_t(n);
      // exact-size heap blocks: a read beyond the given length is caught
      if (k == 0) { std::unique_ptr<int[]> a(new int[m]); v.t = T::VEC_BOOL; for (size_t i = 0; i < m; ++i) { a[i] = r.chance(1, 2) ? gint(r) : 0; v.vb.push_back(a[i] != 0); } code = GC_set_vector_of_bool(a.get(), n); }
      else if (k == 1) { std::unique_ptr<int[]> a(new int[m]); v.t = T::VEC_INTEGER; for (size_t i = 0; i < m; ++i) { a[i] = gint(r); v.vi.push_back(a[i]); } code = GC_set_vector_of_int(a.get(), n); }
      else if (k == 2) { std::unique_ptr<double[]> a(new double[m]); v.t = T::VEC_REAL; for (size_t i = 0; i < m; ++i) { a[i] = greal(r); v.vr.push_back(a[i]); } code = GC_set_vector_of_real(a.get(), n); }
      else if (k == 3) { std::unique_ptr<double[]> a(new double[m]), b(new double[m]); v.t = T::VEC_COMPLEX; for (size_t i = 0; i < m; ++i) { a[i] = greal(r); b[i] = greal(r); v.vc.push_back(cplx(a[i], b[i])); } code = GC_set_vector_of_complex(a.get(), b.get(), n); }
      else { std::unique_ptr<char const *[]> a(new char const *[m]); v.t = T::VEC_STRING; for (size_t i = 0; i < m; ++i) v.vs.push_back(cstr(r)); for (size_t i = 0; i < m; ++i) a[i] = v.vs[i].c_str(); code = GC_set_vector_of_string(a.get(), n); }
      if (n < 0) bad(code, what); else { ok(code, what); w.top() = v; }
      break; }
    case 18: { int n = r.chance(1, 10) ? -1 : w.top().t == T::VECTOR ? 0 : r.chance(1, 15) ? int(std::min(gbig(r), 130u)) : int(r.below(5)); say(STR("set_vector " << n)); if (n <= 0 && w.top().t == T::VECTOR && n == 0) { ok(GC_set_empty_vector(), "GC_set_empty_vector"); w.top() = mk(T::VECTOR); break; } int code = GC_set_vector(n); if (n < 0) bad(code, what); else { ok(code, what); w.top() = mk(T::VECTOR); w.top().v.resize(size_t(n)); } break; }
    case 19: say("set_map"); ok(GC_set_map(), what); w.top() = mk(T::MAP); break;
    case 20: case 21: case 22: { // descend into a vector
      Value & v = w.top(); int n = int(v.t == T::VECTOR ? v.v.size() : 0); static const int far[] = {-1, INT_MIN, INT_MAX}; int p = r.chance(1, 6) ? (r.chance(1, 2) ? n : far[r.below(3)]) : int(r.below(unsigned(n) + 1)); say(STR("vector position " << p));
      int code = GC_push_vector_position(p);
      if (v.t == T::VECTOR && p >= 0 && p < n) { ok(code, what); w.cur().path.push_back({false, unsigned(p), ""}); c.count("descents"); } else bad(code, what);
      break; }
    case 23: case 24: case 25: case 26: { // descend into a map
      Value & v = w.top(); string k = ckey(r); if (v.t == T::MAP && !v.m.empty() && r.chance(1, 2)) { auto it = v.m.begin(); std::advance(it, long(r.below(v.m.size()))); if (it->first.find('\0') == string::npos) k = it->first; }
      say("map position " + quote(k)); int code = GC_push_map_position(k.c_str());
      if (v.t == T::MAP) { ok(code, what); v.m[k]; w.cur().path.push_back({true, 0, k}); c.count("descents"); } else bad(code, what);
      break; }
    case 27: { // start a visit of the keys
      Value & v = w.top(); say("init keys"); int code = GC_init_map_key();
      if (v.t == T::MAP) { ok(code, what); auto & t = w.cur(); t.keys.clear(); t.iter = true; for (auto & kv : v.m) t.keys.insert(kv.first); } else bad(code, what);
      break; }
    case 28: case 29: case 30: { // next keys
      auto & t = w.cur(); if (!t.iter) { mutated = false; break; }
      unsigned n = 1 + unsigned(r.below(4)); bool all = r.chance(1, 2);
      for (unsigned q = 0; all || q < n; ++q) {
        char const * k = GC_get_next_key(); say(string("next key ") + (k ? quote(k) : string("NULL")));
        if (!k) { bool only_nul = true; for (auto & x : t.keys) if (x.find('\0') == string::npos) only_nul = false; REQ(only_nul, "key-iteration", "the visit ended with " << t.keys.size() << " keys not visited, e.g. " << quote(*t.keys.begin())); t.iter = false; c.count("key_visits_completed"); break; }
        auto it = t.keys.find(k); REQ(it != t.keys.end(), "key-iteration", "key " << quote(k) << " is not in the map or was visited twice"); t.keys.erase(it); c.count("keys_visited");
      }
      break; }
    case 31: { // dump
      std::ostringstream os, ref; bool full = r.chance(1, 2); auto * old = std::cout.rdbuf(os.rdbuf()); int code = full ? GC_dump() : GC_print_content_types(); std::cout.rdbuf(old); ok(code, "GC_dump");
      Gc g; build(g, w.top()); if (full) g.dump(ref); else g.print_content_types(ref); REQ(os.str() == ref.str(), "wrong-dump", "the printed text of " << show(w.top()) << " differs: " << quote(os.str().substr(0, 200)) << " / " << quote(ref.str().substr(0, 200))); c.count("dumps_compared"); break; }
    case 32: { // misfit reads on a throw-away container
      Opt o; o.max_depth = 2; o.nul = false; Value v = gvalue(r, o); Gc & g = *static_cast<Gc *>(GC_mem_ptr("tmp")); build(g, v); say("misfit " + show(v, 80));
      if (is_scalar(v.t) && r.chance(2, 3)) { scalar_mismatch(c, v); REQ(same(observe(g), v), "read-changed", "a refused read changed " << show(v)); }
      else for (unsigned q = 0; q < 6; ++q) any_reader(c, unsigned(r.below(24)), r.chance(1, 8) ? INT_MAX : r.range(-1, 4), r.range(-1, 4));
      if (r.chance(1, 3)) { GC_push_vector_position(r.range(-1, 3)); GC_push_map_position("q"); for (unsigned q = 0; q < 3; ++q) any_reader(c, unsigned(r.below(24)), r.range(-1, 4), r.range(-1, 4)); }
      c.count("misfit_rounds");
      if (w.has) GC_select(w.act.c_str());
      GC_delete("tmp");
      break; }
    case 34: { // a deep descent, and part of the way back
      unsigned n = 1 + unsigned(r.below(r.chance(1, 4) ? 130 : 20)); if (w.cur().path.size() > 300) break; say(STR("descend " << n << " levels"));
      for (unsigned q = 0; q < n; ++q) {
        if (w.top().t == T::VECTOR && !w.top().v.empty() && r.chance(1, 2)) { unsigned p = unsigned(r.below(w.top().v.size())); ok(GC_push_vector_position(int(p)), "GC_push_vector_position"); w.cur().path.push_back({false, p, ""}); continue; }
        if (w.top().t != T::MAP) { if (r.chance(1, 3)) { unsigned m = 1 + unsigned(r.below(3)); ok(GC_set_empty_vector(), "GC_set_empty_vector"); w.top() = mk(T::VECTOR); ok(GC_set_int(0), "GC_set_int"); ok(GC_set_vector(int(m)), "GC_set_vector"); w.top().v.resize(m); ok(GC_push_vector_position(int(m) - 1), "GC_push_vector_position"); w.cur().path.push_back({false, m - 1, ""}); continue; } ok(GC_set_map(), "GC_set_map"); w.top() = mk(T::MAP); }
        string k = ckey(r); ok(GC_push_map_position(k.c_str()), "GC_push_map_position"); w.top().m[k]; w.cur().path.push_back({true, 0, k});
      }
      ok(GC_set_int(int(n)), "GC_set_int"); w.top() = I(int(n)); c.count("deep_descents");
      for (unsigned q = unsigned(r.below(n + 1)); q--;) { ok(GC_pop_head(), "GC_pop_head"); w.cur().path.pop_back(); }
      break; }
    case 35: { // many pushes of one kind
      unsigned n = std::min(gbig(r), 300u), k = unsigned(r.below(3)); say(STR("push " << n << " values of kind " << k));
      if (k == 0) { ok(GC_set_empty_vector_of_int(), what); w.top() = mk(T::VEC_INTEGER); for (unsigned q = 0; q < n; ++q) { int x = gint(r); ok(GC_push_int(x), "GC_push_int"); w.top().vi.push_back(x); } }
      else if (k == 1) { ok(GC_set_empty_vector_of_real(), what); w.top() = mk(T::VEC_REAL); for (unsigned q = 0; q < n; ++q) { double x = greal(r); ok(GC_push_real(x), "GC_push_real"); w.top().vr.push_back(x); } }
      else { ok(GC_set_empty_vector_of_string(), what); w.top() = mk(T::VEC_STRING); for (unsigned q = 0; q < n; ++q) { string x = cstr(r); ok(GC_push_string(x.c_str()), "GC_push_string"); w.top().vs.push_back(x); } }
      break; }
    case 36: { // a map of many keys, visited
      unsigned n = std::min(gbig(r), 200u); say(STR("map of " << n << " keys")); ok(GC_set_map(), what); w.top() = mk(T::MAP);
      for (unsigned q = 0; q < n; ++q) { string k = r.chance(1, 3) ? ckey(r) : "k" + std::to_string(q); ok(GC_push_map_position(k.c_str()), "GC_push_map_position"); ok(GC_set_int(int(q)), "GC_set_int"); ok(GC_pop_head(), "GC_pop_head"); w.top().m[k] = I(int(q)); }
      auto & t = w.cur(); ok(GC_init_map_key(), "GC_init_map_key"); t.keys.clear(); t.iter = true; for (auto & kv : w.top().m) t.keys.insert(kv.first); break; }
    default: { // the test tree
      if (!r.chance(1, 4)) { mutated = false; break; }
      string n = names[r.below(nn)]; say("fill_for_test " + quote(n)); ok(GC_fill_for_test(n.c_str()), what); w.act = n; w.has = true; auto & t = w.trees[n]; t.path.clear();
      Value f = mk(T::VECTOR); f.v.resize(11); f.v[0] = I(1); f.v[1] = VR({0, 0, 123, 0, 0, 0, 0, 0, 0, 0}); f.v[2] = mk(T::MAP); f.v[2].m = {{"pippo", I(13)}, {"pluto", I(1)}, {"paperino", I(3)}, {"aaa", S("stringa1")}, {"bbb", S("stringa2")}}; f.v[3] = VS({"string1", "string2", "string3", "string4"}); f.v[4] = R(1.3); f.v[5] = S("pippo");
      f.v[6] = mk(T::MAP); f.v[6].m = {{"aaa", I(123)}, {"bbb", R(3.4)}, {"vector", VI({12, 10, 1})}}; f.v[7] = VV({I(123), R(3.14), S("nonna papera"), VC({1, 2, 3, cplx(-12, 2)})});
      f.v[8] = mk(T::MAT_REAL); f.v[8].nr = f.v[8].nc = 2; f.v[8].vr = {0, 0, 3, 2}; f.v[9] = mk(T::MAT_COMPLEX); f.v[9].nr = f.v[9].nc = 2; f.v[9].vc = {0, 0, cplx(1, -1), cplx(2, 2)}; f.v[10] = B(true);
      t.root = f; break; }
    }
    if (!mutated) continue;
    c.count("calls");
    if (w.has) REQ(GC_get_type() == int(w.top().t), "selection-lost", "after " << what << " the selected container " << quote(w.act) << " shows type " << GC_get_type() << " at the cursor, which is " << show(w.top(), 100));
    w.check_all(what);
    if (w.has && r.chance(1, 2)) { reads(w); read_any = true; string d = diff(observe(*static_cast<Gc *>(GC_mem_ptr(w.act.c_str()))), w.cur().root); REQ(d.empty(), "read-changed", "a fitting read changed the container: " << d); }
  }
  if (read_any) c.mark(hist);
  c.sample = hist.substr(0, 300);
}
