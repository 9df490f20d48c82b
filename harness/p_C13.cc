// C13: written JSON is valid and reads back the same data.
#include "codec.hh"
#include "tweak.hh"
#include <GenericContainer/GenericContainerInterface_json.hh>
#include <fstream>
using namespace G;
namespace H {
char const * PROPERTY = "C13";
char const * RULE = "one case = a random tree (all types but pointers, finite numbers, strings with quotes, controls, NUL, any bytes, empty and large vectors, matrices of all shapes, nesting) written as JSON (stream or string, any prefix, precision 17); an independent strict RFC 8259 parser must accept the text and find exactly the tree's data in it, and both readers, given the text on a container with other contents, must produce the compaction of that data; the container and the stream format must be unchanged. Non-trivial: the tree is not a bare null; distinct by tree.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 1000000 : 40000; }
void monitor_setup() { silence(); }
}
// complex numbers are text: real part, then signed imaginary part and 'i'
static bool complex_text(string const & s, cplx z) {
  char const * p = s.c_str(); char * e = nullptr; if (s.size() != std::strlen(p)) return false;
  auto close = [](double a, double b) { return a == b || std::fabs(a - b) <= 1e-11 * std::fabs(b) || std::fabs(a - b) < DBL_MIN || (!std::isfinite(a) && std::fabs(b) > 0.99 * DBL_MAX); };
  double re = std::strtod(p, &e); if (e == p || !close(re, z.real())) return false;
  if (!*e) return z.imag() == 0;
  if (*e != '+' && *e != '-') return false;
  char * f; double im = std::strtod(e, &f); if (f == e || *f != 'i' || f[1]) return false;
  return close(im, z.imag());
}
// like jdiff, complex places checked by complex_text
static string check_doc(Value const & v, J const & doc, string const & path) {
  auto list = [&](auto const & a) -> string {
    if (doc.k != J::LIST || doc.v.size() != a.size()) return path + ": " + show(v, 100) + " written as " + jshow(doc, 100);
    for (size_t k = 0; k < a.size(); ++k) if (doc.v[k].k != J::STR || !complex_text(doc.v[k].s, a[k])) return path + "[" + std::to_string(k) + "]: " + num(a[k]) + " written as " + jshow(doc.v[k]);
    return "";
  };
  switch (v.t) {
  case T::COMPLEX: return doc.k == J::STR && complex_text(doc.s, v.c) ? "" : path + ": " + num(v.c) + " written as " + jshow(doc);
  case T::VEC_COMPLEX: return list(v.vc);
  case T::MAT_COMPLEX: {
    if (doc.k != J::LIST || doc.v.size() != v.nc) return path + ": complex matrix written as " + jshow(doc, 100);
    for (unsigned q = 0; q < v.nc; ++q) { if (doc.v[q].k != J::LIST || doc.v[q].v.size() != v.nr) return path + ": complex column written as " + jshow(doc.v[q]); for (unsigned p = 0; p < v.nr; ++p) if (doc.v[q].v[p].k != J::STR || !complex_text(doc.v[q].v[p].s, v.vc[q * v.nr + p])) return path + "(" + std::to_string(p) + "," + std::to_string(q) + "): " + num(v.vc[q * v.nr + p]) + " written as " + jshow(doc.v[q].v[p]); }
    return "";
  }
  case T::VECTOR: if (doc.k != J::LIST || doc.v.size() != v.v.size()) return path + ": vector of " + std::to_string(v.v.size()) + " written as " + jshow(doc, 100); for (size_t k = 0; k < v.v.size(); ++k) { string d = check_doc(v.v[k], doc.v[k], path + "[" + std::to_string(k) + "]"); if (!d.empty()) return d; } return "";
  case T::MAP: { if (doc.k != J::MAP || doc.m.size() != v.m.size()) return path + ": map of " + std::to_string(v.m.size()) + " written as " + jshow(doc, 100); size_t k = 0; for (auto & kv : v.m) { if (doc.m[k].first != kv.first) return path + ": key " + quote(kv.first) + " written as " + quote(doc.m[k].first); string d = check_doc(kv.second, doc.m[k].second, path + "." + quote(kv.first)); if (!d.empty()) return d; ++k; } return ""; }
  default: return jdiff(to_J(v, [](cplx) { return jnul(); }), doc, path);
  }
}
static bool all_utf8(Value const & v) { if (!utf8_ok(v.s)) return false; for (auto & s : v.vs) if (!utf8_ok(s)) return false; for (auto & x : v.v) if (!all_utf8(x)) return false; for (auto & x : v.m) if (!utf8_ok(x.first) || !all_utf8(x.second)) return false; return true; }
void H::run_case(Ctx & c) {
  Opt o; o.deep = true; o.huge = 1500; o.finite = true; o.nan = false; o.pointers = false; o.utf8 = c.r.chance(3, 4); o.max_depth = c.r.chance(1, 6) ? 7 : 4;
  Value v = c.idx % 6 == 0 ? gtyped(c.r, T((c.idx / 6) % NT), o) : gvalue(c.r, o);
  if (v.t == T::POINTER || v.t == T::VEC_POINTER) v = gvalue(c.r, o);
  Gc g; build(g, v); c.log("tree " + show(v));
  // write
  string text; bool plain = false;
  std::ostringstream os; os.precision(17 + (c.r.chance(1, 6) ? int(c.r.below(4)) : 0));
  if (c.r.chance(1, 10)) os.setf(std::ios::scientific, std::ios::floatfield);
  if (c.r.chance(1, 10)) os.fill('#');
  auto fl = os.flags(); auto pr = os.precision(); auto fi = os.fill();
  if (c.r.chance(1, 4)) { plain = true; GC_namespace::GC_to_JSON(g, os); } else { static const char * pre[] = {"", "  ", "\t", "      "}; g.to_json(os, pre[c.r.below(4)]); }
  text = os.str();
  REQ(os.flags() == fl && os.precision() == pr && os.fill() == fi && os.width() == 0 && os.good(), "stream-changed", "to_json changed the stream format");
  string d = diff(observe(g), v); REQ(d.empty(), "source-changed", "to_json changed the container: " << d);
  c.log("text " + quote(text.size() > 1500 ? text.substr(0, 1500) : text));
  if (c.idx % 3 == 0) { // the text as a string, on a default stream
    string ws = "old"; GC_namespace::GC_to_JSON(g, ws); std::ostringstream ds; g.to_json(ds); REQ(ws == ds.str(), "wrapper-differs", "GC_to_JSON into a string gives " << quote(ws.substr(0, 300)) << ", to_json gives " << quote(ds.str().substr(0, 300))); c.count("string_writes");
  }
  // independent reading
  JsonDoc doc = json_parse(text);
  REQ(doc.ok, "invalid-json", "the text for " << show(v) << " is not JSON: " << doc.why << ": " << quote(text.substr(0, 600)));
  if (all_utf8(v)) { REQ(utf8_ok(text), "invalid-json", "the text is not UTF-8 although the data is"); c.count("utf8_documents"); }
  d = check_doc(v, doc.j, "$"); REQ(d.empty(), "wrong-text", d << " in " << quote(text.substr(0, 600)));
  // reading back
  Value want = collapsed(from_J(doc.j));
  bool u8 = all_utf8(v); // the second reader takes UTF-8 only
  for (int k = 0; k < (u8 ? 2 : 1); ++k) {
    Gc h; if (c.r.chance(2, 3)) build(h, c.r.chance(1, 3) ? grelated(c.r, v, o) : gvalue(c.r, o, 2));
    bool ok = false; string how;
    set_input(text.data(), text.size());
    try {
      if (k == 0) {
        unsigned route = unsigned(c.r.below(4));
        if (route == 0) { how = "JSON_to_GC(string)"; ok = GC_namespace::JSON_to_GC(text, h); }
        else if (route == 1) { how = "JSON_to_GC(stream)"; std::istringstream is(text); ok = GC_namespace::JSON_to_GC(is, h); }
        else if (route == 2 && c.idx % 5 == 0) { how = "file_JSON_to_GC"; string fn = string(std::getenv("H_SCRATCH") ? std::getenv("H_SCRATCH") : "/tmp") + "/c13_" + std::to_string(c.idx) + ".json"; { std::ofstream f(fn, std::ios::binary); f << text; } ok = GC_namespace::file_JSON_to_GC(fn, h); std::remove(fn.c_str()); c.count("files"); }
        else { how = "from_json"; std::istringstream is(text); ok = h.from_json(is); }
      } else { how = "from_json2"; std::istringstream is(text); ok = h.from_json2(is); }
    } catch (std::exception const & e) { c.fail("not-read-back", STR(how << " threw " << e.what() << " on the text written for " << show(v))); }
    REQ(ok, "not-read-back", how << " failed on the text written for " << show(v) << ": " << quote(text.substr(0, 600)));
    d = diff(observe(h), want); REQ(d.empty(), "read-back-differs", how << ": " << d << " (expected on the right); written from " << show(v));
    c.count(k ? "read_from_json2" : "read_from_json");
  }
  c.count("documents"); (void)plain;
  if (v.t != T::NOTYPE) c.mark(hash(v));
  if (c.idx % 2000 < 2) c.sample = quote(text.substr(0, 300));
}
