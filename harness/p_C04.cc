// C04: promotion and push keep every value and its order.
#include "promo.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C04";
char const * RULE = "one case = a container of one of the 21 types (all types x all 13 promotions systematically, then random chains) subjected to explicit promotions, pushes of the six scalar kinds and promoting readers; after each call the whole contents are compared with a reference promotion on the model, refused calls must leave it unchanged. Non-trivial: at least one call compared; distinct by (initial value, call sequence).";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 500000 : 40000; }
void monitor_setup() {}
}
static void step(Ctx & c, Gc & g, Value & v, char const * what, std::optional<Value> const & want, std::function<void()> f) {
  c.log(string(what) + " on " + show(v));
  bool t = throws(f);
  Value now = observe(g);
  if (want) {
    REQ(!t, "promotion-refused", what << " of " << show(v) << " threw");
    string d = diff(now, *want);
    REQ(d.empty(), "promotion-value", what << " of " << show(v) << ": " << d << " (expected on the right)");
    v = *want; c.count("widened"); c.count((string("did ") + what).c_str());
  } else {
    REQ(t, "promotion-accepted", what << " of " << show(v) << " is no widening, but gave " << show(now));
    string d = diff(now, v);
    REQ(d.empty(), "refused-promotion-changed-value", what << " of " << show(v) << " threw but left " << d);
    c.count("refused");
  }
}
static void promo(Ctx & c, Gc & g, Value & v, unsigned t) { string w = string("promote_to_") + target_name(t); Value before = v; step(c, g, v, w.c_str(), promote(before, t), [&] { Gc const & x = do_promote(g, t); REQ(&x == &g, "promotion-value", w << " returns a reference to something else"); }); }
static void pushx(Ctx & c, Gc & g, Value & v, Opt const & o) {
  static const T ts[] = {T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::STRING};
  Value x = gtyped(c.r, ts[c.r.below(6)], o);
  string w = string("push ") + tname(x.t) + " " + show(x, 60);
  Value before = v; auto want = push(before, x);
  string label = string("push ") + tname(x.t);
  c.log(w);
  step(c, g, v, label.c_str(), want, [&] { do_push(c.r, g, x); });
}
// non-const readers that promote
static void reader(Ctx & c, Gc & g, Value & v, int which = -1) {
  int rk = rank_of(v.t); bool ve = is_vec(v.t), ma = is_mat(v.t), no = v.t == T::NOTYPE;
  Value before = v; std::optional<Value> want;
  unsigned k = which >= 0 ? unsigned(which) : unsigned(c.r.below(8));
  if (k < 4) { // get_vec_int .. complex
    int w = int(k) + 1;
    if (no) want = list_as(Value(), w, false, 0, 0); else if (ve && rk >= 0 && rk <= w) want = list_as(before, w, false, 0, 0);
    static char const * nm[] = {"get_vec_int", "get_vec_long", "get_vec_real", "get_vec_complex"};
    step(c, g, v, nm[k], want, [&] { switch (w) { case 1: REQ(g.get_vec_int().size() == (want ? want->vi.size() : 0), "promotion-value", "get_vec_int size"); break; case 2: g.get_vec_long(); break; case 3: g.get_vec_real(); break; default: g.get_vec_complex(); } });
  } else {
    int w = int(k) - 3;
    if (no) want = list_as(Value(), w, true, 0, 0);
    else if (ve && rk >= 0 && rk <= w && !(w == 4 && rk == 4)) want = list_as(before, w, true, count_of(before), 1);
    else if (ma && rk <= w && (w != 4 || rk >= 3)) want = list_as(before, w, true, before.nr, before.nc);
    static char const * nm[] = {"get_mat_int", "get_mat_long", "get_mat_real", "get_mat_complex"};
    step(c, g, v, nm[k - 4], want, [&] { switch (w) { case 1: g.get_mat_int(); break; case 2: g.get_mat_long(); break; case 3: g.get_mat_real(); break; default: g.get_mat_complex(); } });
  }
}
void H::run_case(Ctx & c) {
  Opt o; o.huge = 1500; o.huge_max = 66000; o.max_depth = 2;
  uint64_t sys = NT * P_COUNT;
  T t0 = c.idx < sys * 8 ? T(c.idx % NT) : c.r.chance(3, 4) ? T(c.r.below(uint64_t(T::MAT_COMPLEX) + 1)) : T(c.r.below(NT));
  // after the first rounds of all types x all promotions (and readers): once more with several hundred and with 2^16 elements
  uint64_t lap = c.idx / sys; bool all = lap < 11; if (all) t0 = T(c.idx % NT); unsigned target = unsigned((c.idx / NT) % P_COUNT);
  bool list = t0 >= T::VEC_BOOL && t0 != T::VECTOR && t0 != T::MAP;
  Value v;
  if (all && lap >= 8 && list && lap != 9) {
    unsigned n = lap == 8 ? 256 + unsigned(c.r.below(400)) : 0; Opt q = o; q.huge = 0;
    if (lap == 8) { v = mk(t0); v.nr = is_mat(t0) ? (c.r.chance(1, 2) ? n : 1 + unsigned(c.r.below(3))) : 0; v.nc = is_mat(t0) ? (v.nr == n ? 1 + unsigned(c.r.below(3)) : n) : 0; size_t m = is_mat(t0) ? size_t(v.nr) * v.nc : n;
      for (size_t k = 0; k < m; ++k) switch (t0) { case T::VEC_BOOL: v.vb.push_back(c.r.chance(1, 2)); break; case T::VEC_INTEGER: case T::MAT_INTEGER: v.vi.push_back(gint(c.r)); break; case T::VEC_LONG: case T::MAT_LONG: v.vl.push_back(glong(c.r)); break; case T::VEC_REAL: case T::MAT_REAL: v.vr.push_back(greal(c.r, q)); break; case T::VEC_COMPLEX: case T::MAT_COMPLEX: v.vc.push_back(cplx(greal(c.r, q), greal(c.r, q))); break; default: v.vs.push_back("s" + std::to_string(k)); }
    } else { Opt h = o; h.huge_max = 66000; do v = ghuge(c.r, h, t0); while (count_of(v) < 65536 && c.r.chance(3, 4)); }
    c.count("systematic_long_lists");
  } else v = gtyped(c.r, t0, o);
  Gc g; build(g, v);
  uint64_t h0 = hash(v); string first = show(v, 120);
  c.log("container " + show(v));
  if (lap == 9 || (lap == 10 && c.r.chance(1, 4))) reader(c, g, v, int(target % 8)); else if (all) promo(c, g, v, target);
  unsigned n = 1 + unsigned(c.r.below(8));
  for (unsigned k = 0; k < n; ++k) {
    switch (c.r.below(5)) {
    case 0: promo(c, g, v, unsigned(c.r.below(P_COUNT))); break;
    case 1: reader(c, g, v); break;
    default: pushx(c, g, v, o); break;
    }
  }
  c.mark(h0); c.mark(hash(v)); c.mark(n);
  if (c.idx % 997 < 3) c.sample = first + " -> ... -> " + show(v, 150) + " after " + std::to_string(n) + " calls";
}
