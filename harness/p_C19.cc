// C19: printing shows everything and disturbs nothing.
#include "codec.hh"
#include <iomanip>
using namespace G;
namespace H {
char const * PROPERTY = "C19";
char const * RULE = "one case = a container printed by dump, print (stream and string), print_content_types, info, to_json, to_yaml, to_toml, string_escape and the element stream operators, to a stream in a random formatting state (base, float format, sign, alignment, fill, precision, locale-independent): the container is compared before and after, flags/precision/fill/width before and after, and text written afterwards must be formatted as before; in half of the cases every key, number, string and pointer of the tree is a token that is unique in the tree and must occur exactly once, in order, in the text; the text must be the same for a second print, a copy and a rebuilt container. Non-trivial: something was printed; distinct by tree and stream state.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 600000 : 30000; }
void monitor_setup() { silence(); }
}
struct Atoms { unsigned k = 0; unsigned next() { return k++; } };
static Value atom_tree(Rng & r, Atoms & a, int depth) {
  auto in = [&] { int32_t x = int32_t(7100000 + a.next()); return r.chance(1, 4) ? -x : x; }; auto lo = [&] { int64_t x = int64_t(8200000000LL) + a.next(); return r.chance(1, 4) ? -x : x; };
  auto lg = [&](double x, char const * digits) { if (!r.chance(1, 4)) return x; static const int ex[] = {-300, -150, -102, -101, -99, -30, -11, -7, 20, 21, 22, 25, 99, 102, 150, 250, 300}; return std::strtod(("6." + std::to_string(1000 + a.next()) + digits + "e" + std::to_string(ex[r.below(17)])).c_str(), nullptr); }; // a number whose text is long: an exponent, and as many digits as the stream shows
  auto re = [&] { double x = lg(double(1000 + a.next()) + 0.25, ""); return r.chance(1, 4) ? -x : x; }; auto co = [&](char const * dg = "6666661") { double x = lg(double(1000 + a.next()) + 0.5, dg), y = lg(double(1000 + a.next()) + 0.5, dg); return cplx(r.chance(1, 6) ? -x : x, r.chance(1, 3) ? -y : y); };
  auto st = [&] { return "sK" + std::to_string(1000 + a.next()) + "e"; }; auto pt = [&] { return reinterpret_cast<void *>(uintptr_t(0xabc00000u + a.next())); };
  unsigned n = unsigned(r.below(5)); if (r.chance(1, 10)) n += unsigned(r.below(15)); if (r.chance(1, 16)) n = std::min(gbig(r), r.chance(1, 20) ? 1100u : 130u);
  Value v; T t = T(r.below(NT)); if (depth < 3 && r.chance(1, 2)) t = r.chance(2, 3) ? T::MAP : T::VECTOR; if (depth == 0 && r.chance(2, 3)) t = T::MAP; if (depth >= 4 && (t == T::MAP || t == T::VECTOR)) t = T::STRING; v.t = t;
  auto shape = [&] { v.nr = 1 + unsigned(r.below(4)); v.nc = 1 + unsigned(r.below(4)); if (r.chance(1, 12)) v.nr = std::min(gbig(r), 70u); if (r.chance(1, 12)) v.nc = std::min(gbig(r), 70u); n = v.nr * v.nc; };
  switch (t) {
  case T::NOTYPE: break; case T::BOOL: v.b = r.chance(1, 2); break;
  case T::POINTER: v.p = pt(); break; case T::INTEGER: v.i = in(); break; case T::LONG: v.l = lo(); break; case T::REAL: v.r = re(); break; case T::COMPLEX: v.c = co(); break; case T::STRING: v.s = st(); break;
  case T::VEC_POINTER: while (n--) v.vp.push_back(pt()); break; case T::VEC_BOOL: while (n--) v.vb.push_back(r.chance(1, 2)); break;
  case T::MAT_INTEGER: shape(); [[fallthrough]]; case T::VEC_INTEGER: while (n--) v.vi.push_back(in()); break;
  case T::MAT_LONG: shape(); [[fallthrough]]; case T::VEC_LONG: while (n--) v.vl.push_back(lo()); break;
  case T::MAT_REAL: shape(); [[fallthrough]]; case T::VEC_REAL: while (n--) v.vr.push_back(re()); break;
  case T::MAT_COMPLEX: shape(); while (n--) v.vc.push_back(co(v.vc.size() < v.nr ? "" : "6666661")); break; case T::VEC_COMPLEX: while (n--) v.vc.push_back(co()); break;
  case T::VEC_STRING: while (n--) v.vs.push_back(st()); break;
  case T::VECTOR: { n = unsigned(r.below(5)); if (depth == 0 && r.chance(1, 12)) { n = std::min(gbig(r), 130u); depth = 3; } while (n--) v.v.push_back(atom_tree(r, a, depth + 1)); break; }
  case T::MAP: { n = unsigned(r.below(5)); if (depth == 0 && r.chance(1, 20)) { n = std::min(gbig(r), 130u); depth = 3; } while (n--) { string key = "kK" + std::to_string(1000 + a.next()) + "e"; if (r.chance(1, 4)) { static const char * p[] = {"1 ##", "2#", "3 #-", " 4 ##=", "5##~ ", "10 #_ "}; key = p[r.below(6)] + key; } v.m[key] = atom_tree(r, a, depth + 1); } break; }
  }
  return v;
}
static int g_prec = 6, g_first = 0; // digits the stream shows; complex numbers always show 12, but in the first column of a matrix
static void rnum(vector<string> & o, double x, int prec = 12) { std::ostringstream os; os << std::setprecision(prec) << x; o.push_back(os.str()); }
static string bare(string const & k) { return k.substr(k.find("kK")); }
static void expect_tokens(Value const & v, vector<string> & o) {
  auto px = [&](void * p) { std::ostringstream os; os << std::hex << reinterpret_cast<uintptr_t>(p); o.push_back(os.str()); };
  auto cx = [&](cplx x, int p = 12) { rnum(o, std::fabs(x.real()), p); rnum(o, std::fabs(x.imag()), p); };
  switch (v.t) {
  case T::POINTER: px(v.p); break; case T::INTEGER: o.push_back(std::to_string(v.i)); break; case T::LONG: o.push_back(std::to_string(v.l)); break; case T::REAL: rnum(o, v.r, g_prec); break; case T::COMPLEX: cx(v.c); break; case T::STRING: o.push_back(v.s); break;
  case T::VEC_POINTER: for (auto p : v.vp) px(p); break; case T::VEC_INTEGER: for (auto x : v.vi) o.push_back(std::to_string(x)); break; case T::VEC_LONG: for (auto x : v.vl) o.push_back(std::to_string(x)); break; case T::VEC_REAL: for (auto x : v.vr) rnum(o, x, g_prec); break; case T::VEC_COMPLEX: for (auto x : v.vc) cx(x); break; case T::VEC_STRING: for (auto & x : v.vs) o.push_back(x); break;
  case T::MAT_INTEGER: for (unsigned i = 0; i < v.nr; ++i) for (unsigned j = 0; j < v.nc; ++j) o.push_back(std::to_string(v.vi[i + j * v.nr])); break;
  case T::MAT_LONG: for (unsigned i = 0; i < v.nr; ++i) for (unsigned j = 0; j < v.nc; ++j) o.push_back(std::to_string(v.vl[i + j * v.nr])); break;
  case T::MAT_REAL: for (unsigned i = 0; i < v.nr; ++i) for (unsigned j = 0; j < v.nc; ++j) rnum(o, v.vr[i + j * v.nr], g_prec); break;
  case T::MAT_COMPLEX: for (unsigned i = 0; i < v.nr; ++i) for (unsigned j = 0; j < v.nc; ++j) cx(v.vc[i + j * v.nr], j || g_first ? 12 : g_prec); break;
  case T::VECTOR: for (auto & x : v.v) expect_tokens(x, o); break;
  case T::MAP: for (auto & x : v.m) { o.push_back(bare(x.first)); expect_tokens(x.second, o); } break;
  default: break;
  }
}
static void expect_types(Value const & v, vector<string> & o) {
  switch (v.t) {
  case T::BOOL: o.push_back("bool"); break; case T::INTEGER: o.push_back("int"); break; case T::LONG: o.push_back("long"); break; case T::REAL: o.push_back("double"); break; case T::COMPLEX: o.push_back("complex"); break; case T::STRING: o.push_back("string"); break;
  case T::VECTOR: for (auto & x : v.v) expect_types(x, o); break;
  case T::MAP: for (auto & x : v.m) { o.push_back(bare(x.first)); expect_types(x.second, o); } break;
  default: if (is_vec(v.t)) o.push_back("[" + std::to_string(count_of(v)) + "]"); else if (is_mat(v.t)) { o.push_back(std::to_string(v.nr)); o.push_back(std::to_string(v.nc)); } break;
  }
}
static size_t nbools(Value const & v, bool b) { size_t n = v.t == T::BOOL && v.b == b; for (auto & x : v.v) n += nbools(x, b); for (auto & x : v.m) n += nbools(x.second, b); return n; }
static size_t occurs(string const & t, string const & s) { size_t n = 0; for (size_t p = t.find(s); p != string::npos; p = t.find(s, p + 1)) ++n; return n; }
// where s stands in t, not as part of a longer number
static size_t find_token(string const & t, string const & s, size_t from = 0) { auto num = [](char ch) { return isdigit((unsigned char)ch) || ch == '.'; }; for (size_t p = t.find(s, from); p != string::npos; p = t.find(s, p + 1)) if (!((p && num(t[p - 1]) && num(s[0])) || (p + s.size() < t.size() && num(t[p + s.size()]) && num(s.back())))) return p; return string::npos; }
static size_t occurs_token(string const & t, string const & s) { size_t n = 0; for (size_t p = find_token(t, s); p != string::npos; p = find_token(t, s, p + 1)) ++n; return n; }
static void check_tokens(Ctx & c, string const & text, Value const & v, string const & how, bool ordered = true) {
  vector<string> tk; expect_tokens(v, tk); size_t pos = 0;
  for (auto & s : tk) {
    size_t n = occurs_token(text, s); REQ(n == 1, "element-missing", how << ": " << quote(s) << " occurs " << n << " times in\n" << text.substr(0, 900));
    if (!ordered) continue; size_t p = find_token(text, s); REQ(p >= pos, "element-order", how << ": " << quote(s) << " is out of order in\n" << text.substr(0, 900)); pos = p + s.size();
  }
  size_t nt = nbools(v, true), nf = nbools(v, false); REQ(occurs(text, "true") >= nt && occurs(text, "false") >= nf, "element-missing", how << ": a boolean is missing in\n" << text.substr(0, 900));
  c.count("elements_found", tk.size());
}
static vector<string> words(string const & t) { vector<string> o; string w; for (char ch : t + "\n") { if (isalnum((unsigned char)ch) || ch == '.') w += ch; else if (!w.empty()) { if (w.size() > 1 && w.back() == 'i' && isdigit((unsigned char)w[0])) w.pop_back(); o.push_back(w); w.clear(); } } return o; }
static void wnum(vector<string> & o, double x, int prec = 12) { vector<string> t; rnum(t, x, prec); for (auto & y : words(t[0])) o.push_back(y); }
// the whole text as a sequence of words: nothing missing, nothing twice, nothing that is not in the tree
static void expect_words(Value const & v, vector<string> & o) {
  auto ix = [&](size_t k) { o.push_back(std::to_string(k)); };
  auto px = [&](void * p) { std::ostringstream os; os << "0x" << std::hex << reinterpret_cast<uintptr_t>(p); o.push_back(os.str()); };
  auto cx = [&](cplx x, int p = 12) { wnum(o, std::fabs(x.real()), p); wnum(o, std::fabs(x.imag()), p); };
  switch (v.t) {
  case T::NOTYPE: o.push_back("null"); break; case T::BOOL: o.push_back(v.b ? "true" : "false"); break; case T::POINTER: px(v.p); break;
  case T::INTEGER: o.push_back(std::to_string(std::abs(v.i))); break; case T::LONG: o.push_back(std::to_string(std::abs(v.l))); break; case T::REAL: wnum(o, std::fabs(v.r), g_prec); break; case T::COMPLEX: cx(v.c); break; case T::STRING: o.push_back(v.s); break;
  case T::VEC_POINTER: for (size_t k = 0; k < v.vp.size(); ++k) { o.push_back("vec"); o.push_back("pointer"); ix(k); px(v.vp[k]); } break;
  case T::VEC_BOOL: for (bool b : v.vb) o.push_back(b ? "true" : "false"); break;
  case T::VEC_INTEGER: for (auto x : v.vi) o.push_back(std::to_string(std::abs(x))); break; case T::VEC_LONG: for (auto x : v.vl) o.push_back(std::to_string(std::abs(x))); break; case T::VEC_REAL: for (auto x : v.vr) wnum(o, std::fabs(x), g_prec); break; case T::VEC_COMPLEX: for (auto x : v.vc) cx(x); break;
  case T::VEC_STRING: for (size_t k = 0; k < v.vs.size(); ++k) { ix(k); o.push_back(v.vs[k]); } break;
  case T::MAT_INTEGER: for (unsigned i = 0; i < v.nr; ++i) for (unsigned j = 0; j < v.nc; ++j) o.push_back(std::to_string(std::abs(v.vi[i + j * v.nr]))); break;
  case T::MAT_LONG: for (unsigned i = 0; i < v.nr; ++i) for (unsigned j = 0; j < v.nc; ++j) o.push_back(std::to_string(std::abs(v.vl[i + j * v.nr]))); break;
  case T::MAT_REAL: for (unsigned i = 0; i < v.nr; ++i) for (unsigned j = 0; j < v.nc; ++j) wnum(o, std::fabs(v.vr[i + j * v.nr]), g_prec); break;
  case T::MAT_COMPLEX: for (unsigned i = 0; i < v.nr; ++i) for (unsigned j = 0; j < v.nc; ++j) cx(v.vc[i + j * v.nr], j || g_first ? 12 : g_prec); break;
  case T::VECTOR: for (size_t k = 0; k < v.v.size(); ++k) { ix(k); expect_words(v.v[k], o); } break;
  case T::MAP: for (auto & x : v.m) { o.push_back(bare(x.first)); expect_words(x.second, o); } break;
  }
}
static void check_words(Ctx & c, string const & text, Value const & v, string const & how) {
  vector<string> e, g = words(text); expect_words(v, e);
  for (size_t k = 0; k < std::max(e.size(), g.size()); ++k) REQ(k < e.size() && k < g.size() && e[k] == g[k], "text-differs", how << ": word " << k << " is " << (k < g.size() ? quote(g[k]) : "missing") << ", expected " << (k < e.size() ? quote(e[k]) : "nothing more") << " in\n" << text.substr(0, 900));
  c.count("words_compared", g.size());
}
static void expect_leaves(Value const & v, vector<string> & o) {
  switch (v.t) {
  case T::NOTYPE: o.push_back("Empty!"); break; case T::POINTER: o.push_back("(*void)"); break;
  case T::BOOL: o.push_back("bool"); break; case T::INTEGER: o.push_back("int"); break; case T::LONG: o.push_back("long int"); break; case T::REAL: o.push_back("double"); break; case T::COMPLEX: o.push_back("complex"); break; case T::STRING: o.push_back("string"); break;
  case T::VECTOR: for (auto & x : v.v) expect_leaves(x, o); break;
  case T::MAP: for (auto & x : v.m) expect_leaves(x.second, o); break;
  default: { static const char * en[] = {"pointer", "bool", "int", "long", "double", "complex", "string"}; unsigned k = 0; switch (v.t) { case T::VEC_POINTER: k = 0; break; case T::VEC_BOOL: k = 1; break; case T::VEC_INTEGER: case T::MAT_INTEGER: k = 2; break; case T::VEC_LONG: case T::MAT_LONG: k = 3; break; case T::VEC_REAL: case T::MAT_REAL: k = 4; break; case T::VEC_COMPLEX: case T::MAT_COMPLEX: k = 5; break; default: k = 6; }
    o.push_back(is_mat(v.t) ? "matrix of " + string(en[k]) + "[" + std::to_string(v.nr) + "," + std::to_string(v.nc) + "]" : "vector of " + string(en[k]) + "[" + std::to_string(count_of(v)) + "]"); }
  }
}
static void expect_type_words(Value const & v, vector<string> & o) {
  if (v.t == T::VECTOR) { for (size_t k = 0; k < v.v.size(); ++k) { o.push_back(std::to_string(k)); expect_type_words(v.v[k], o); } return; }
  if (v.t == T::MAP) { for (auto & x : v.m) { o.push_back(bare(x.first)); expect_type_words(x.second, o); } return; }
  vector<string> d; expect_leaves(v, d); for (auto & w : words(d[0])) o.push_back(w);
}
static void check_leaves(Ctx & c, string const & text, Value const & v) {
  static const char * ends[] = {"Empty!", "(*void)", "bool", "int", "double", "complex", "string", "]"}; vector<string> e, g; expect_leaves(v, e); std::istringstream is(text); string ln;
  auto ew = [](string const & a, string const & b) { return a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0; };
  while (std::getline(is, ln)) for (auto x : ends) if (ew(ln, x)) { g.push_back(ln); break; }
  REQ(g.size() == e.size(), "types-differ", "print_content_types names " << g.size() << " leaves, the tree has " << e.size() << ":\n" << text.substr(0, 900));
  for (size_t k = 0; k < e.size(); ++k) REQ(ew(g[k], e[k]), "types-differ", "print_content_types: leaf " << k << " is " << quote(e[k]) << ", line " << quote(g[k]));
  vector<string> we, wg = words(text); expect_type_words(v, we);
  for (size_t k = 0; k < std::max(we.size(), wg.size()); ++k) REQ(k < we.size() && k < wg.size() && we[k] == wg[k], "types-differ", "print_content_types: word " << k << " is " << (k < wg.size() ? quote(wg[k]) : "missing") << ", expected " << (k < we.size() ? quote(we[k]) : "nothing more") << " in\n" << text.substr(0, 900));
  c.count("leaf_types_compared", e.size());
}
static void random_state(Rng & r, std::ostream & os) {
  if (r.chance(1, 4)) os << std::hex; else if (r.chance(1, 6)) os << std::oct;
  if (r.chance(1, 4)) os << std::showbase; if (r.chance(1, 4)) os << std::showpos; if (r.chance(1, 4)) os << std::uppercase; if (r.chance(1, 4)) os << std::boolalpha; if (r.chance(1, 6)) os << std::showpoint;
  if (r.chance(1, 4)) os << std::scientific; else if (r.chance(1, 4)) os << std::fixed; else if (r.chance(1, 10)) os << std::hexfloat;
  if (r.chance(1, 4)) os << std::left; else if (r.chance(1, 6)) os << std::internal; if (r.chance(1, 4)) os << std::setfill('*'); if (r.chance(1, 10)) os << std::unitbuf;
  os << std::setprecision(int(r.below(20)));
}
static string probe(std::ostream & like) { std::ostringstream o; o.copyfmt(like); o << 255 << ' ' << 1234.5678 << ' ' << true << ' ' << -7 << ' ' << std::setw(12) << 3.25 << ' ' << std::setw(9) << "ab"; return o.str(); }
void H::run_case(Ctx & c) {
  g_first = 0; Rng & r = c.r; bool atoms = c.idx % 2 == 0; Opt o; o.deep = true; o.huge = 3000; o.max_depth = 4; Atoms a; Value v = atoms ? atom_tree(r, a, 0) : gvalue(r, o); if (atoms && a.k < 600 && r.chance(1, 120)) { unsigned n = glevels(r); v = atom_tree(r, a, 3); while (n--) { Value x; if (r.chance(1, 3)) { x.t = T::VECTOR; if (r.chance(1, 3)) x.v.push_back(atom_tree(r, a, 9)); x.v.push_back(v); } else { x = mk(T::MAP); x.m["kK" + std::to_string(1000 + a.next()) + "e"] = v; if (r.chance(1, 3)) x.m["kK" + std::to_string(1000 + a.next()) + "e"] = atom_tree(r, a, 9); } v = std::move(x); } c.count("deep_chains"); } if (a.k > 4000) { atoms = false; v = gvalue(r, o); }
  Gc g; build(g, v); Gc const & k = g; c.log("tree " + show(v)); c.mark(hash(v));
  string sp; static const char * pre[] = {"", "  ", "> ", "## "}; string px = pre[r.below(4)];
  struct Pr { char const * name; std::function<void(std::ostream &)> f; };
  vector<Pr> ps = {
    {"dump", [&](std::ostream & s) { k.dump(s); }}, {"dump with prefix", [&](std::ostream & s) { k.dump(s, px, "  "); }}, {"print", [&](std::ostream & s) { k.print(s); }}, {"print_content_types", [&](std::ostream & s) { k.print_content_types(s, px); }}, {"info", [&](std::ostream & s) { k.info(s); }},
    {"to_json", [&](std::ostream & s) { k.to_json(s); }}, {"to_yaml", [&](std::ostream & s) { k.to_yaml(s); }}, {"to_toml", [&](std::ostream & s) { k.to_toml(s); }}, {"string_escape", [&](std::ostream & s) { GC_namespace::string_escape(s, "a\"\n\x01\x7f\xC3\xA9"); }},
    {"element operators", [&](std::ostream & s) { using GC_namespace::operator<<; switch (v.t) { case T::VEC_INTEGER: s << k.get_vec_int(); break; case T::VEC_LONG: s << k.get_vec_long(); break; case T::VEC_REAL: s << k.get_vec_real(); break; case T::VEC_COMPLEX: s << k.get_vec_complex(); break; case T::VEC_BOOL: s << k.get_vec_bool(); break; case T::MAT_INTEGER: s << k.get_mat_int(); break; case T::MAT_LONG: s << k.get_mat_long(); break; case T::MAT_REAL: s << k.get_mat_real(); break; case T::MAT_COMPLEX: s << k.get_mat_complex(); break; default: break; } }}};
  for (auto & p : ps) {
    std::ostringstream s; bool plain = r.chance(1, 3); if (!plain) random_state(r, s); else s << std::setprecision(6 + int(r.below(12)));
    auto fl = s.flags(); auto pc = s.precision(); auto fi = s.fill(); string pb = probe(s); auto gp = GC_namespace::stream_number_precision;
    p.f(s);
    REQ(s.flags() == fl, "stream-flags", p.name << " of " << show(v, 200) << " left the stream's flags " << std::hex << unsigned(s.flags()) << ", before " << unsigned(fl));
    REQ(s.precision() == pc, "stream-precision", p.name << " of " << show(v, 200) << " left precision " << s.precision() << ", before " << pc);
    REQ(s.fill() == fi, "stream-fill", p.name << " of " << show(v, 200) << " left the fill character changed"); REQ(s.width() == 0, "stream-width", p.name << " of " << show(v, 200) << " left width " << s.width());
    REQ(probe(s) == pb, "stream-format", p.name << ": text written afterwards is formatted as " << quote(probe(s)) << ", before " << quote(pb)); REQ(gp == GC_namespace::stream_number_precision, "stream-precision", p.name << " changed the library's number precision");
    string d = diff(observe(g), v); REQ(d.empty(), "container-changed", p.name << ": " << d);
    { std::ostringstream t; t.copyfmt(s); p.f(t); REQ(t.str() == s.str(), "not-deterministic", p.name << " prints differently the second time:\n" << s.str().substr(0, 400) << "\n---\n" << t.str().substr(0, 400)); }
    c.count("prints"); c.count("bytes", s.str().size());
    g_prec = int(pc); if (atoms && plain && (!std::strncmp(p.name, "dump", 4) || !std::strcmp(p.name, "print"))) { check_tokens(c, s.str(), v, p.name); check_words(c, s.str(), v, p.name); }
    if (atoms && plain && (!std::strcmp(p.name, "to_json") || !std::strcmp(p.name, "to_yaml"))) { g_first = 1; check_tokens(c, s.str(), v, p.name, false); g_first = 0; }
    if (atoms && plain && !std::strcmp(p.name, "print_content_types")) { check_leaves(c, s.str(), v); vector<string> tk; expect_types(v, tk); size_t pos = 0; for (auto & x : tk) { size_t q = s.str().find(x, pos); REQ(q != string::npos, "type-missing", "print_content_types: " << quote(x) << " is missing (in order) in\n" << s.str().substr(0, 900)); pos = q + x.size(); } c.count("types_found", tk.size()); }
    if (plain && !std::strcmp(p.name, "info")) { REQ(!s.str().empty() && s.str().back() == '\n', "info-empty", "info prints " << quote(s.str())); if (is_vec(v.t) || v.t == T::VECTOR) REQ(s.str().find(std::to_string(count_of(v))) != string::npos, "info-size", "info of " << show(v, 100) << " prints " << quote(s.str())); if (atoms && is_scalar(v.t) && v.t != T::BOOL) check_tokens(c, s.str(), v, "info"); }
  }
  // the text depends on the contents only
  { std::ostringstream s1, s2, s3, s4; s1 << std::setprecision(17); s2 << std::setprecision(17); s3 << std::setprecision(17); s4 << std::setprecision(17); g.dump(s1); Gc h(g); h.dump(s2); REQ(s1.str() == s2.str(), "not-deterministic", "a copy prints differently:\n" << s1.str().substr(0, 400) << "\n---\n" << s2.str().substr(0, 400)); Gc e; build(e, gtyped(r, T(r.below(NT)), o, 3)); e.clear(); build(e, v); e.dump(s3); REQ(s1.str() == s3.str(), "not-deterministic", "an equal container prints differently"); std::ostringstream t1, t2; g.print_content_types(t1); e.print_content_types(t2); REQ(t1.str() == t2.str(), "not-deterministic", "an equal container prints other types"); std::ostringstream u; u << std::setprecision(GC_namespace::stream_number_precision); g.dump(u); REQ(g.print() == u.str(), "print-string", "print() as a string differs from the stream"); g_prec = int(GC_namespace::stream_number_precision); if (atoms) { check_tokens(c, g.print(), v, "print()"); check_words(c, g.print(), v, "print()"); } c.count("equal_texts"); }
  { std::ostringstream s; k.info(s); REQ(k.info() == s.str(), "info-string", "info() gives " << quote(k.info()) << ", info(stream) " << quote(s.str()));
    auto mi = [&](auto const & m) { std::ostringstream q; m.info(q); REQ(m.info() == q.str(), "info-string", "matrix info() gives " << quote(m.info()) << ", info(stream) " << quote(q.str())); REQ(q.str().find(std::to_string(m.num_rows())) != string::npos && q.str().find(std::to_string(m.num_cols())) != string::npos, "info-size", "info of a " << m.num_rows() << " x " << m.num_cols() << " matrix: " << quote(q.str())); };
    if (v.t == T::MAT_INTEGER) mi(k.get_mat_int()); else if (v.t == T::MAT_LONG) mi(k.get_mat_long()); else if (v.t == T::MAT_REAL) mi(k.get_mat_real()); else if (v.t == T::MAT_COMPLEX) mi(k.get_mat_complex()); }
  // inside a larger tree
  if (r.chance(1, 4)) { Gc w; w["p"] = g; w["q"] = 7; std::ostringstream s; w.dump(s); g_prec = 6; string d = diff(observe(w("p")), v); REQ(d.empty(), "container-changed", d); if (atoms) check_tokens(c, s.str(), v, "dump inside a map"); }
  if (c.idx % 3000 < 2) { std::ostringstream s; g.dump(s); c.sample = quote(s.str().substr(0, 250)); }
}
