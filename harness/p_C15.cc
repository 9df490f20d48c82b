// C15: written YAML reads back the same data.
#include "yaml.hh"
#include "tweak.hh"
#include <GenericContainer/GenericContainerInterface_yaml.hh>
#include <fstream>
using namespace G;
namespace H {
char const * PROPERTY = "C15";
char const * RULE = "one case = a random tree (booleans, integers, finite reals, nulls, UTF-8 strings and keys that look like YAML syntax, numbers or reserved words, their vectors, matrices of all shapes, generic vectors and maps, empty ones, nesting) written as YAML with precision 17 (stream, string or file, any prefix for maps in context) parsed by an independent strict parser of the YAML subset, and read back on a container with other contents: success must be reported and the result be the compaction of exactly that data; container and stream format must be unchanged. Non-trivial: the tree is not a bare null; distinct by tree.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 500000 : 60000; }
void monitor_setup() { silence(); }
}
// a real without fraction is spelled as an integer
static void spell(J & j) {
  if (j.k == J::REAL) { std::ostringstream os; os.precision(17); os << j.r; string s = os.str(); if (s.find_first_not_of("-0123456789") == string::npos) j = jint(std::strtoll(s.c_str(), nullptr, 10)); }
  for (auto & x : j.v) spell(x); for (auto & x : j.m) spell(x.second);
}
void H::run_case(Ctx & c) {
  Opt o; o.deep = true; o.finite = true; o.nan = false; o.pointers = false; o.complexes = false; o.utf8 = true; o.nul = c.r.chance(1, 3); o.max_depth = c.r.chance(1, 6) ? 7 : 4; o.bigvec = c.r.chance(1, 8);
  Value v; bool okv = false;
  std::function<bool(Value const &)> u8 = [&](Value const & x) { if (!utf8_ok(x.s)) return false; for (auto & s : x.vs) if (!utf8_ok(s)) return false; for (auto & e : x.v) if (!u8(e)) return false; for (auto & e : x.m) if (!utf8_ok(e.first) || !u8(e.second)) return false; return true; };
  while (!okv) { T t = T(c.r.below(NT)); if (t == T::POINTER || t == T::VEC_POINTER || t == T::COMPLEX || t == T::VEC_COMPLEX || t == T::MAT_COMPLEX) t = T::MAP; v = c.r.chance(1, 6) ? gtyped(c.r, t, o) : c.r.chance(1, 3) ? gtyped(c.r, c.r.chance(1, 3) ? T::VECTOR : T::MAP, o) : gvalue(c.r, o); okv = u8(v); }
  Gc g; build(g, v); c.log("tree " + show(v));
  J doc = to_J(v, [](cplx) { return jnul(); }); spell(doc); Value want = collapsed(from_J(doc));
  std::ostringstream os; os.precision(17); auto fl = os.flags();
  if (c.r.chance(1, 3)) GC_namespace::GC_to_YAML(g, os); else g.to_yaml(os);
  string text = os.str();
  REQ(os.flags() == fl && os.precision() == 17 && os.width() == 0 && os.good(), "stream-changed", "to_yaml changed the stream format");
  string d = diff(observe(g), v); REQ(d.empty(), "source-changed", "to_yaml changed the container: " << d);
  c.log("text " + quote(text.substr(0, 1500)));
  { YamlDoc yd = yaml_subset(text); // an independent reading of the text
    REQ(yd.s != YamlDoc::INVALID, "not-valid-yaml", "the text written for " << show(v) << " is not valid YAML (" << yd.why << "): " << quote(text.substr(0, 800)));
    if (yd.s == YamlDoc::OK) { string e = jdiff(doc, yd.j); REQ(e.empty(), "text-differs", e << " (written on the right) in " << quote(text.substr(0, 800))); c.count("read_independently"); } else c.count("not_read_independently"); }
  if (c.idx % 3 == 0) { // the text as a string, on a default stream
    string ws = "old"; GC_namespace::GC_to_YAML(g, ws); std::ostringstream ds; g.to_yaml(ds); REQ(ws == ds.str(), "wrapper-differs", "GC_to_YAML into a string gives " << quote(ws.substr(0, 300)) << ", to_yaml gives " << quote(ds.str().substr(0, 300))); c.count("string_writes");
  }
  set_input(text.data(), text.size());
  Gc h; if (c.r.chance(2, 3)) build(h, c.r.chance(1, 3) ? grelated(c.r, v, o) : gvalue(c.r, o, 2));
  bool ok = false; string how = "from_yaml";
  try {
    unsigned route = unsigned(c.r.below(4));
    if (route == 0) { how = "YAML_to_GC(string)"; ok = GC_namespace::YAML_to_GC(text, h); }
    else if (route == 1) { how = "YAML_to_GC(stream)"; std::istringstream is(text); ok = GC_namespace::YAML_to_GC(is, h); }
    else if (route == 2 && c.idx % 5 == 0) { how = "file_YAML_to_GC"; string fn = string(std::getenv("H_SCRATCH") ? std::getenv("H_SCRATCH") : "/tmp") + "/c15_" + std::to_string(c.idx) + ".yaml"; { std::ofstream f(fn, std::ios::binary); f << text; } ok = GC_namespace::file_YAML_to_GC(fn, h); std::remove(fn.c_str()); c.count("files"); }
    else { std::istringstream is(text); ok = h.from_yaml(is); }
  } catch (std::exception const & e) { c.fail("not-read-back", STR(how << " threw " << e.what() << " on the text written for " << show(v) << ": " << quote(text.substr(0, 600)))); }
  REQ(ok, "not-read-back", how << " failed on the text written for " << show(v) << ": " << quote(text.substr(0, 800)));
  d = diff(observe(h), want); REQ(d.empty(), "read-back-differs", how << ": " << d << " (expected on the right); text " << quote(text.substr(0, 800)));
  c.count("documents"); if (v.t == T::MAP) c.count("maps"); if (v.t == T::VECTOR) c.count("generic_vectors"); if (is_mat(v.t)) c.count("matrices"); if (is_vec(v.t)) c.count("vectors"); if (is_scalar(v.t)) c.count("scalars");
  if (v.t != T::NOTYPE) c.mark(hash(v));
  if (c.idx % 1000 < 2) c.sample = quote(text.substr(0, 300));
}
