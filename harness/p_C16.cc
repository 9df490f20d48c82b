// C16: written TOML reads back the same data.
#include "codec.hh"
#include "tweak.hh"
#include <GenericContainer/GenericContainerInterface_toml.hh>
#include <fstream>
using namespace G;
namespace H {
char const * PROPERTY = "C16";
char const * RULE = "one case = a random map (booleans, integers to the 64-bit limits, reals, UTF-8 strings and keys that look like TOML syntax, their vectors, generic vectors, nested maps, matrices and complex values, empty ones) written as TOML and read back on a container with other contents: success must be reported and the result be the compaction of exactly that data (matrices and complex values in their table or array form with every entry); a tree with a null must be refused. Non-trivial: the map is not empty; distinct by tree.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 600000 : 60000; }
void monitor_setup() { silence(); }
}
static bool u8(Value const & x) { if (!utf8_ok(x.s)) return false; for (auto & s : x.vs) if (!utf8_ok(s)) return false; for (auto & e : x.v) if (!u8(e)) return false; for (auto & e : x.m) if (!utf8_ok(e.first) || !u8(e.second)) return false; return true; }
static bool has_null(Value const & x) { if (x.t == T::NOTYPE) return true; for (auto & e : x.v) if (has_null(e)) return true; for (auto & e : x.m) if (has_null(e.second)) return true; return false; }
// what the document holds: matrices as tables, complex numbers as pairs
static J doc(Value const & v) {
  auto cp = [](cplx z) { J j = jlist(); j.v = {jreal(z.real()), jreal(z.imag())}; return j; };
  if (is_mat(v.t)) {
    J d = jmap(); auto lst = [&](auto const & a, auto f) { J j = jlist(); for (auto x : a) j.v.push_back(f(x)); return j; };
    auto fi = [](auto x) { return jint(int64_t(x)); };
    char const * nm = v.t == T::MAT_INTEGER ? "$mat_integer" : v.t == T::MAT_LONG ? "$mat_long" : v.t == T::MAT_REAL ? "$mat_real" : "$mat_complex";
    if (v.t == T::MAT_COMPLEX) { d.m.emplace_back("$data_real", lst(v.vc, [](cplx z) { return jreal(z.real()); })); d.m.emplace_back("$data_imag", lst(v.vc, [](cplx z) { return jreal(z.imag()); })); }
    else d.m.emplace_back("$data", v.t == T::MAT_INTEGER ? lst(v.vi, fi) : v.t == T::MAT_LONG ? lst(v.vl, fi) : lst(v.vr, [](double x) { return jreal(x); }));
    d.m.emplace_back("$nrows", jint(v.nr)); d.m.emplace_back("$ncols", jint(v.nc));
    J o = jmap(); o.m.emplace_back(nm, d); return o;
  }
  if (v.t == T::VECTOR) { J j = jlist(); for (auto & x : v.v) j.v.push_back(doc(x)); return j; }
  if (v.t == T::MAP) { J j = jmap(); for (auto & x : v.m) j.m.emplace_back(x.first, doc(x.second)); return j; }
  return to_J(v, cp);
}
// an empty list has no element type
static Value norm(Value v) { if ((is_vec(v.t) || v.t == T::VECTOR) && count_of(v) == 0) return mk(T::VECTOR); for (auto & x : v.v) x = norm(x); for (auto & x : v.m) x.second = norm(x.second); return v; }
void H::run_case(Ctx & c) {
  Opt o; o.deep = true; o.nan = c.r.chance(1, 4); o.finite = c.r.chance(3, 4); o.pointers = false; o.complexes = o.mats = c.r.chance(1, 3); o.utf8 = true; o.nul = c.r.chance(1, 3); o.notype = c.r.chance(1, 12); o.max_depth = c.r.chance(1, 6) ? 6 : 4; o.bigvec = c.r.chance(1, 8);
  Value v; do v = gtyped(c.r, T::MAP, o); while (!u8(v));
  if (c.r.chance(1, 100)) { Value w = gvalue(c.r, o, 3); for (unsigned n = glevels(c.r); n--;) { Value x; if (c.r.chance(1, 2)) { x.t = T::VECTOR; if (c.r.chance(1, 4)) x.v.push_back(gvalue(c.r, o, 9)); x.v.push_back(w); } else { x = mk(T::MAP); if (c.r.chance(1, 4)) x.m[gkey(c.r, o)] = gvalue(c.r, o, 9); x.m[gkey(c.r, o)] = w; } w = std::move(x); } Value x = mk(T::MAP); x.m["chain"] = w; if (u8(x)) { v = x; c.count("deep_chains"); } }
  Gc g; build(g, v); c.log("tree " + show(v));
  std::ostringstream os; if (c.r.chance(1, 3)) os.precision(3); auto fl = os.flags(); auto pr = os.precision();
  bool ok = false;
  try { ok = g.to_toml(os); } catch (std::exception const & e) { c.fail("not-written", STR("to_toml threw " << e.what())); }
  string d = diff(observe(g), v); REQ(d.empty(), "source-changed", "to_toml changed the container: " << d);
  REQ(os.flags() == fl && os.precision() == pr && os.width() == 0, "stream-changed", "to_toml changed the stream format");
  if (has_null(v)) { REQ(!ok, "null-accepted", "to_toml reports success for a tree with a null: " << show(v)); c.count("nulls_refused"); c.mark(hash(v)); return; }
  REQ(ok, "not-written", "to_toml failed for " << show(v));
  string text = os.str(); c.log("text " + quote(text.substr(0, 1500)));
  if (c.idx % 3 == 0) { // the text as a string, on a default stream
    string ws = "old"; GC_namespace::GC_to_TOML(g, ws); std::ostringstream ds, ds2; g.to_toml(ds); GC_namespace::GC_to_TOML(g, ds2); REQ(ds.str() == ds2.str(), "wrapper-differs", "GC_to_TOML into a stream differs from to_toml"); REQ(ws == ds.str(), "wrapper-differs", "GC_to_TOML into a string gives " << quote(ws.substr(0, 300)) << ", to_toml gives " << quote(ds.str().substr(0, 300))); c.count("string_writes");
  }
  set_input(text.data(), text.size());
  Gc h; if (c.r.chance(2, 3)) build(h, c.r.chance(1, 3) ? grelated(c.r, v, o) : gvalue(c.r, o, 2));
  string how = "from_toml"; ok = false;
  try {
    unsigned route = unsigned(c.r.below(4));
    if (route == 0) { how = "TOML_to_GC(string)"; ok = GC_namespace::TOML_to_GC(text, h); }
    else if (route == 1) { how = "TOML_to_GC(stream)"; std::istringstream is(text); ok = GC_namespace::TOML_to_GC(is, h); }
    else if (route == 2 && c.idx % 5 == 0) { how = "file_TOML_to_GC"; string fn = string(std::getenv("H_SCRATCH") ? std::getenv("H_SCRATCH") : "/tmp") + "/c16_" + std::to_string(c.idx) + ".toml"; { std::ofstream f(fn, std::ios::binary); f << text; } ok = GC_namespace::file_TOML_to_GC(fn, h); std::remove(fn.c_str()); c.count("files"); }
    else { std::istringstream is(text); ok = h.from_toml(is); }
  } catch (std::exception const & e) { c.fail("not-read-back", STR(how << " threw " << e.what() << " on the text written for " << show(v) << ": " << quote(text.substr(0, 600)))); }
  REQ(ok, "not-read-back", how << " failed on the text written for " << show(v) << ": " << quote(text.substr(0, 800)));
  Value want = collapsed(from_J(doc(v)));
  d = diff(norm(observe(h)), norm(want)); REQ(d.empty(), "read-back-differs", how << ": " << d << " (expected on the right); text " << quote(text.substr(0, 800)));
  c.count("documents"); if (!v.m.empty()) c.mark(hash(v));
  if (c.idx % 1000 < 2) c.sample = quote(text.substr(0, 300));
}
