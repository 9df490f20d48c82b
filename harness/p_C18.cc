// C18: tables as text.
#include "gen.hh"
#include <sstream>
#include <fstream>
#include <iomanip>
#include <unistd.h>
using namespace G;
namespace H {
char const * PROPERTY = "C18";
char const * RULE = "one case = a table (random shape, column types, number formats) written by write_table / write_table_formatted / write_formatted_data (columns and matrix), its text split independently into lines and fields and compared with the data entry by entry, then read back by both readers; or a numeric text with random delimiters, comment, blank and parameter lines read through both readers (stream and file) and compared with what was rendered; or a malformed one (row with a field too few or too many, column too short, header or column missing, field of the wrong type: must throw) or a mutated one (must be survived under ASan/UBSan). Non-trivial: at least one table was compared or refused; distinct by shape, types and text.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 600000 : 80000; }
void monitor_setup() {}
}
typedef vector<vector<double>> Cols;
static string header(Rng & r, std::set<string> & seen) {
  for (;;) { static const char * k[] = {"time", "x", "y", "vel", "a_very_long_header_name_of_a_column", "T[K]", "x1", "x2", "p/q", "col", "Z", "\xC3\xA9ta", "speed(m/s)", "12345678", "abcdefgh", "abcdefghi", "exactly_twenty_chars"}; string s = k[r.below(sizeof k / sizeof *k)]; if (r.chance(1, 2)) s += std::to_string(r.below(30)); if (seen.insert(s).second) return s; }
}
static vector<string> split(string const & s, string const & delim, bool merge) {
  vector<string> o; string cur; bool any = false;
  for (char c : s) { if (delim.find(c) != string::npos) { if (!merge || !cur.empty()) o.push_back(cur); cur.clear(); any = true; } else cur += c; }
  if (!merge || !cur.empty()) o.push_back(cur); (void)any; return o;
}
static vector<string> lines(string const & s) { vector<string> o; std::istringstream is(s); string l; while (std::getline(is, l)) o.push_back(l); return o; }
static bool isame(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
// a field shows the number as the stream would
static bool shows(string const & f, double x, int prec) {
  char * e; double y = std::strtod(f.c_str(), &e); if (e == f.c_str() || *e) return false;
  if (isame(x, y)) return true;
  std::ostringstream os; os << std::setprecision(prec) << x; double z = std::strtod(os.str().c_str(), nullptr); return isame(y, z);
}
static void put_column(Rng & r, Gc & g, vector<double> const & col, T t) {
  switch (t) {
  case T::VEC_BOOL: { auto & v = g.set_vec_bool(); for (double x : col) v.push_back(x != 0); break; }
  case T::VEC_INTEGER: { auto & v = g.set_vec_int(); for (double x : col) v.push_back(int32_t(x)); break; }
  case T::VEC_LONG: { auto & v = g.set_vec_long(); for (double x : col) v.push_back(int64_t(x)); break; }
  default: { if (r.chance(1, 5) && !col.empty()) { auto & v = g.set_vector(); for (double x : col) { Gc e; e.set_real(x); v.push_back(e); } } else { auto & v = g.set_vec_real(); for (double x : col) v.push_back(x); } break; }
  }
}
static void compare_read(Ctx & c, Gc const & g, vector<string> const & hd, Cols const & want, bool second, int prec, string const & what) {
  REQ(g.get_type() == T::MAP && g.exists("headers") && g.exists("data"), "read-structure", what << ": no headers/data after reading");
  auto const & h = g("headers").get_vec_string();
  REQ(h.size() == hd.size(), "read-headers", what << ": " << h.size() << " headers, not " << hd.size());
  for (size_t k = 0; k < hd.size(); ++k) REQ(h[k] == hd[k], "read-headers", what << ": header " << k << " is " << quote(h[k]) << ", not " << quote(hd[k]));
  REQ(g("data").get_num_elements() == hd.size() , "read-columns", what << ": " << g("data").get_num_elements() << " columns, not " << hd.size());
  for (size_t k = 0; k < hd.size(); ++k) {
    Gc const & col = second ? g("data")(hd[k]) : g("data")(unsigned(k));
    REQ(col.get_type() == T::VEC_REAL, "read-columns", what << ": column " << k << " is a " << tname(col.get_type()));
    auto const & v = col.get_vec_real();
    REQ(v.size() == want[k].size(), "read-rows", what << ": column " << k << " has " << v.size() << " rows, not " << want[k].size());
    for (size_t q = 0; q < v.size(); ++q) {
      double z = want[k][q]; if (prec) { std::ostringstream os; os << std::setprecision(prec) << z; double y = std::strtod(os.str().c_str(), nullptr); if (isame(v[q], y)) continue; }
      REQ(isame(v[q], z), "read-entry", what << ": row " << q << " column " << k << " is " << num(v[q]) << ", not " << num(z));
    }
  }
  c.count(second ? "read2_tables" : "read_tables"); c.count("entries_read", hd.size() * (want.empty() ? 0 : want[0].size()));
}
static void old_content(Rng & r, Gc & g) {
  Opt o;
  switch (r.below(4)) {
  case 0: break;
  case 1: build(g, gvalue(r, o)); if (g.get_type() == T::MAP) g.clear(); break;
  case 2: { std::istringstream is("a b c\n1 2 3\n4 5 6\n"); g.read_formatted_data(is); break; }
  default: { std::istringstream is("a b c\n1 2 3\n4 5 6\n"); g.read_formatted_data2(is); break; }
  }
}
static Cols data(Rng & r, unsigned nc, unsigned nr, vector<T> & t) {
  Cols d(nc); t.assign(nc, T::VEC_REAL); Opt o; o.finite = r.chance(2, 3);
  for (unsigned k = 0; k < nc; ++k) { t[k] = r.chance(1, 2) ? T::VEC_REAL : r.chance(1, 2) ? T::VEC_INTEGER : r.chance(1, 2) ? T::VEC_LONG : T::VEC_BOOL; for (unsigned q = 0; q < nr; ++q) d[k].push_back(t[k] == T::VEC_REAL ? greal(r, o) : t[k] == T::VEC_INTEGER ? double(gint(r)) : t[k] == T::VEC_LONG ? double(r.range(-1000000, 1000000)) * 1e9 : double(r.chance(1, 2))); }
  return d;
}
static void written(Ctx & c, string const & text, vector<string> const & hd, Cols const & d, unsigned nr, char delim, bool formatted, int prec, string const & what) {
  auto L = lines(text); size_t off = formatted ? 2 : 1, tail = formatted ? 1 : 0;
  REQ(L.size() == nr + off + tail, "line-count", what << ": " << L.size() << " lines for " << nr << " rows:\n" << text.substr(0, 600));
  REQ(text.empty() || text.back() == '\n', "line-count", what << ": the last line is not ended");
  auto h = split(L[0], string(1, formatted ? ' ' : delim), formatted);
  REQ(h.size() == hd.size(), "header-line", what << ": header line " << quote(L[0]));
  for (size_t k = 0; k < hd.size(); ++k) REQ(h[k] == hd[k], "header-line", what << ": header " << k << " is written as " << quote(h[k]) << ", not " << quote(hd[k]));
  if (formatted) REQ(L[1].find_first_not_of('-') == string::npos && !L[1].empty() && L.back() == L[1], "rule-lines", what << ": rule lines " << quote(L[1]) << " and " << quote(L.back()));
  auto aligned = [&](string const & ln, vector<string> const & f, string const & w) { size_t cw = (L[1].size() + 1) / hd.size() - 1; for (auto & x : f) if (x.size() > cw) return; size_t p = 0; for (size_t k = 0; k < f.size(); ++k) { p += cw + (k ? 1 : 0); REQ(ln.size() >= p && ln.compare(p - f[k].size(), f[k].size(), f[k]) == 0, "not-aligned", what << ": " << w << " is not aligned with the columns of width " << cw << ": " << quote(ln)); } c.count("aligned_lines"); };
  if (formatted) { size_t cw = (L[1].size() + 1) / hd.size() - 1, mx = 0; for (auto & x : hd) mx = std::max(mx, x.size()); if (mx <= 20) REQ(cw >= mx, "not-aligned", what << ": columns of width " << cw << " for headers of " << mx << " characters"); aligned(L[0], h, "the header line"); }
  for (unsigned q = 0; q < nr; ++q) {
    auto f = split(L[q + off], string(1, formatted ? ' ' : delim), formatted);
    REQ(f.size() == hd.size(), "field-count", what << ": row " << q << " has " << f.size() << " fields, not " << hd.size() << ": " << quote(L[q + off]));
    if (formatted) aligned(L[q + off], f, "a row");
    for (size_t k = 0; k < f.size(); ++k) REQ(shows(f[k], d[k][q], prec), "entry", what << ": row " << q << " column " << k << " shows " << quote(f[k]) << " for " << num(d[k][q]));
  }
  c.count("tables_written"); c.count("entries_written", nr * hd.size());
}
static void survive(Ctx & c, Gc & g) { Value now = observe(g); Gc h(g); REQ(same(observe(h), now), "invalid-container", "a copy differs"); Opt o; Value nv = gtyped(c.r, T(c.r.below(NT)), o, 3); g.clear(); build(g, nv); string d = diff(observe(g), nv); REQ(d.empty(), "unusable-afterwards", d); }
void H::run_case(Ctx & c) {
  Rng & r = c.r; unsigned mode = unsigned(c.idx % 6);
  unsigned nc = 1 + unsigned(r.below(r.chance(1, 10) ? 30 : 6)), nr = unsigned(r.below(r.chance(1, 10) ? 60 : 7)); if (r.chance(1, 40)) { nr = std::min(gbig(r), 1100u); nc = std::min(nc, 4u); } else if (r.chance(1, 60)) nc = std::min(gbig(r), 130u); else if (r.chance(1, 1000)) { static const unsigned k[] = {4999, 5001, 8193, 10001, 33000}; nr = k[r.below(r.chance(1, 6) ? 5 : 4)]; nc = std::min(nc, 2u); }
  std::set<string> seen; vector<string> hd; for (unsigned k = 0; k < nc; ++k) hd.push_back(header(r, seen));
  vector<T> ct; Cols d = data(r, nc, nr, ct);
  int prec = r.chance(1, 2) ? 17 : r.chance(1, 2) ? 6 : 1 + int(r.below(17));
  char delim = "\t,; |"[r.below(5)];
  auto state_same = [&](std::ostringstream & os, int p) { REQ(os.precision() == p && os.flags() == std::ostringstream().flags() && os.fill() == ' ' && os.width() == 0, "stream-format", "the writer left the stream's formatting changed"); };
  string shape = STR(nc << "x" << nr << " "); for (auto t : ct) shape += tname(t)[4];
  if (mode <= 1) { // columns or matrix out, and back
    if (r.chance(1, 40)) { // no columns at all
      GC_namespace::vec_string_type none; std::ostringstream os; Gc e; unsigned rows = unsigned(r.below(4));
      if (mode == 1) { e.set_mat_real(rows, 0); GC_namespace::write_table(none, e.get_mat_real(), os, delim); GC_namespace::write_table_formatted(none, e.get_mat_real(), os); }
      else { e.set_vector(rows); GC_namespace::write_table(none, e.get_vector(), os, delim); GC_namespace::write_table_formatted(none, e.get_vector(), os); }
      REQ(os.str().empty() && os.good(), "line-count", "a table without columns writes " << quote(os.str())); c.count("tables_without_columns");
    }
    bool mat = mode == 1; Gc t; GC_namespace::vec_string_type hv(hd.begin(), hd.end());
    t["headers"].set_vec_string(hv);
    if (mat) { for (auto & col : d) for (auto & x : col) (void)x; auto & m = t["data"].set_mat_real(nr, nc); for (unsigned q = 0; q < nr; ++q) for (unsigned k = 0; k < nc; ++k) m(q, k) = d[k][q]; }
    else { auto & v = t["data"].set_vector(nc); for (unsigned k = 0; k < nc; ++k) put_column(r, v[k], d[k], ct[k]); }
    c.log(STR((mat ? "matrix " : "columns ") << shape << " delimiter " << int(delim) << " precision " << prec)); c.mark(shape + (mat ? "m" : "v") + std::to_string(prec) + delim);
    Value before = observe(t); Gc const & k = t; string text;
    for (int how = 0; how < 3; ++how) {
      std::ostringstream os; os << std::setprecision(prec);
      if (how == 0) { k.write_formatted_data(os, delim); written(c, os.str(), hd, d, nr, delim, false, prec, "write_formatted_data"); text = os.str(); }
      else if (how == 1) { if (mat) GC_namespace::write_table(hv, k("data").get_mat_real(), os, delim); else GC_namespace::write_table(hv, k("data").get_vector(), os, delim); written(c, os.str(), hd, d, nr, delim, false, prec, "write_table"); }
      else { if (mat) GC_namespace::write_table_formatted(hv, k("data").get_mat_real(), os); else GC_namespace::write_table_formatted(hv, k("data").get_vector(), os); written(c, os.str(), hd, d, nr, ' ', true, prec, "write_table_formatted"); }
      state_same(os, prec);
    }
    if (c.idx % 4 < 2) { // the older spellings
      auto eq = [&](char const * n, std::function<void(std::ostream &)> a, std::function<void(std::ostream &)> b) { std::ostringstream o1, o2; o1 << std::setprecision(prec); o2 << std::setprecision(prec); a(o1); b(o2); REQ(o1.str() == o2.str(), "wrapper-differs", n << " writes " << quote(o1.str().substr(0, 300)) << " instead of " << quote(o2.str().substr(0, 300))); c.count("old_spellings"); };
      eq("writeFormattedData", [&](std::ostream & s) { k.writeFormattedData(s, delim); }, [&](std::ostream & s) { k.write_formatted_data(s, delim); });
      if (mat) { auto & m = k("data").get_mat_real(); eq("writeTable", [&](std::ostream & s) { GC_namespace::writeTable(hv, m, s, delim); }, [&](std::ostream & s) { GC_namespace::write_table(hv, m, s, delim); }); eq("writeTableFormatted", [&](std::ostream & s) { GC_namespace::writeTableFormatted(hv, m, s); }, [&](std::ostream & s) { GC_namespace::write_table_formatted(hv, m, s); }); }
      else { auto & m = k("data").get_vector(); eq("writeTable", [&](std::ostream & s) { GC_namespace::writeTable(hv, m, s, delim); }, [&](std::ostream & s) { GC_namespace::write_table(hv, m, s, delim); }); eq("writeTableFormatted", [&](std::ostream & s) { GC_namespace::writeTableFormatted(hv, m, s); }, [&](std::ostream & s) { GC_namespace::write_table_formatted(hv, m, s); }); }
    }
    string df = diff(observe(t), before); REQ(df.empty(), "writing-changed-container", df);
    string dl(1, delim);
    { Gc g; old_content(r, g); std::istringstream is(text); Gc & ret = g.read_formatted_data(is, "#%", dl.c_str()); REQ(&ret == &g, "returns-self", "read_formatted_data does not return the container"); compare_read(c, g, hd, d, false, prec, "written, then read_formatted_data"); }
    { Gc g; old_content(r, g); std::istringstream is(text); g.read_formatted_data2(is, "#%", dl.c_str()); compare_read(c, g, hd, d, true, prec, "written, then read_formatted_data2"); }
    if (c.idx % 3000 < 12) c.sample = shape + ": " + quote(text.substr(0, 150));
  } else if (mode == 2) { // given text
    string cm = r.chance(1, 2) ? "#%" : r.chance(1, 2) ? "!" : "#"; string delims = r.chance(1, 2) ? " \t" : r.chance(1, 2) ? "," : ";|"; bool second = r.chance(1, 2), dflt = cm == "#%" && delims == " \t";
    string t; std::map<string, Value> pars; bool with_pars = second && r.chance(1, 2); unsigned np = 0;
    auto extra = [&] { while (r.chance(1, 4)) { unsigned w = unsigned(r.below(4)); char ch = cm[r.below(cm.size())]; if (w == 0 && second) { t += "\n"; } else if (w == 1 && with_pars) { string nm = "par" + std::to_string(np++); t += ch; t += "!"; t += string(r.below(3), ' ') + nm + string(r.below(3), ' ') + "=" + string(r.below(3), ' '); if (r.chance(1, 2)) { double x = double(r.range(-9999, 9999)) / 8; t += num(x); pars[nm] = R(x); } else { static const char * tx[] = {"text", "-x", "+", "(a)", "/a/b", "'q'", "\"two words\"", ".x", "*", "A", "_", "e5", "x y", "\xC3\xA9"}; string s = tx[r.below(14)] + (r.chance(1, 2) ? "" : "v" + std::to_string(r.below(100))); t += s; pars[nm] = S(s); } t += string(r.below(3), ' ') + "\n"; } else { t += ch; t += " 1 2 3 some words\n"; } } };
    auto join = [&](vector<string> const & f) { string s; bool lead = r.chance(1, 6); if (lead) s += delims[r.below(delims.size())]; for (size_t k = 0; k < f.size(); ++k) { if (k) { s += delims[r.below(delims.size())]; while (r.chance(1, 5)) s += delims[r.below(delims.size())]; } s += f[k]; } if (r.chance(1, 8)) s += delims[r.below(delims.size())]; return s; };
    bool pad = delims != " \t" && r.chance(1, 2), crlf = r.chance(1, 4);
    extra(); t += join(hd) + "\n"; Cols w(nc);
    for (unsigned q = 0; q < nr; ++q) { extra(); vector<string> f; for (unsigned k = 0; k < nc; ++k) { string s; switch (r.below(4)) { case 0: s = std::to_string(gint(r)); break; case 1: { std::ostringstream os; os << std::setprecision(17) << greal(r); s = os.str(); break; } case 2: { std::ostringstream os; os << std::scientific << double(r.range(-1000, 1000)) / 7; s = os.str(); break; } default: s = std::to_string(r.range(-99, 99)) + "." + std::to_string(r.below(1000)); } f.push_back(s); w[k].push_back(std::strtod(s.c_str(), nullptr)); } if (pad) for (auto & x : f) { if (r.chance(1, 6)) x = (r.chance(1, 2) ? " " : "\t") + x; if (r.chance(1, 10)) x += " "; } t += join(f); if (crlf) t += "\r"; if (q + 1 < nr || r.chance(3, 4)) t += "\n"; }
    if (nr && t.back() == '\n' && r.chance(1, 4)) { t += crlf && r.chance(2, 3) ? "\r\n" : delims.substr(0, 1) + "\n"; if (r.chance(1, 2)) t += "\n"; c.count("ended_by_blank_line"); }
    c.log("text " + quote(t.substr(0, 1500)) + " comments " + cm + " delimiters " + quote(delims)); c.mark(t);
    Gc g, ps; if (with_pars && r.chance(1, 2)) ps["keep"] = 1; old_content(r, g);
    bool file = r.chance(1, 5);
    if (file) { char const * sd = std::getenv("H_SCRATCH"); string fn = string(sd ? sd : "/tmp") + "/tbl_" + std::to_string(getpid()) + ".txt"; { std::ofstream f(fn); f << t; } if (second) { if (dflt && !with_pars) g.read_formatted_data2(fn.c_str()); else g.read_formatted_data2(fn.c_str(), cm.c_str(), delims.c_str(), with_pars ? &ps : nullptr); } else if (dflt) g.read_formatted_data(fn.c_str()); else g.read_formatted_data(fn.c_str(), cm.c_str(), delims.c_str()); ::unlink(fn.c_str()); c.count("files"); }
    else { std::istringstream is(t); if (second) { if (dflt && !with_pars) g.read_formatted_data2(is); else g.read_formatted_data2(is, cm.c_str(), delims.c_str(), with_pars ? &ps : nullptr); } else if (dflt) g.read_formatted_data(is); else g.read_formatted_data(is, cm.c_str(), delims.c_str()); }
    compare_read(c, g, hd, w, second, 0, second ? "read_formatted_data2" : "read_formatted_data");
    if (r.chance(1, 2)) { Gc ref, got, p1, p2; string fn; if (file) { char const * sd = std::getenv("H_SCRATCH"); fn = string(sd ? sd : "/tmp") + "/tbl_" + std::to_string(getpid()) + ".txt"; std::ofstream f(fn); f << t; }
      std::istringstream i1(t), i2(t); if (second) ref.read_formatted_data2(i1, cm.c_str(), delims.c_str(), with_pars ? &p1 : nullptr); else ref.read_formatted_data(i1, cm.c_str(), delims.c_str());
      if (file) { if (second) got.readFormattedData2(fn.c_str(), cm.c_str(), delims.c_str(), with_pars ? &p2 : nullptr); else got.readFormattedData(fn.c_str(), cm.c_str(), delims.c_str()); ::unlink(fn.c_str()); }
      else { if (second) got.readFormattedData2(i2, cm.c_str(), delims.c_str(), with_pars ? &p2 : nullptr); else got.readFormattedData(i2, cm.c_str(), delims.c_str()); }
      REQ(same(observe(ref), observe(got)) && same(observe(p1), observe(p2)), "wrapper-differs", "the older spelling reads differently"); c.count("old_spellings"); }
    if (with_pars) for (auto & p : pars) { REQ(ps.exists(p.first), "parameter", "parameter " << p.first << " is missing"); string df = diff(observe(ps(p.first)), p.second); REQ(df.empty(), "parameter", p.first << ": " << df); c.count("parameters"); }
    if (c.idx % 3000 < 12) c.sample = "read " + quote(t.substr(0, 150));
  } else if (mode == 3) { // a malformed row
    unsigned bad = 0; nr = 1 + unsigned(r.below(8)); bad = unsigned(r.below(nr)); bool more = r.chance(1, 2); if (!more && nc < 2) more = true; unsigned by = more ? 1 + unsigned(r.below(3)) : 1 + unsigned(r.below(nc - 1)); bool second = r.chance(1, 2);
    string t; for (unsigned k = 0; k < nc; ++k) t += (k ? " " : "") + hd[k]; t += "\n"; for (unsigned q = 0; q < nr; ++q) { unsigned n = q == bad ? (more ? nc + by : nc - by) : nc; for (unsigned k = 0; k < n; ++k) t += (k ? " " : "") + std::to_string(r.range(-99, 99)); t += "\n"; }
    c.log("malformed " + quote(t.substr(0, 1500))); c.mark(t); set_input(t.data(), t.size());
    Gc g; old_content(r, g); std::istringstream is(t); bool th = throws([&] { if (second) g.read_formatted_data2(is); else g.read_formatted_data(is); });
    REQ(th, "malformed-row-accepted", "row " << bad << " with " << (more ? nc + by : nc - by) << " fields for " << nc << " headers is accepted: " << quote(t.substr(0, 300)));
    survive(c, g); c.count("malformed_rows");
    bool tf = throws([&] { Gc q; q.read_formatted_data("/nonexistent/dir/file.txt"); }) && throws([&] { Gc q; q.read_formatted_data2("/nonexistent/dir/file.txt"); }); REQ(tf, "missing-file-accepted", "reading a file that does not exist is not reported");
  } else if (mode == 4) { // malformed tables to write
    GC_namespace::vec_string_type hv(hd.begin(), hd.end()); unsigned w = unsigned(r.below(7)); std::ostringstream os; Gc t; nr = 1 + unsigned(r.below(5)); d = data(r, nc, nr, ct);
    auto fill = [&](unsigned cols) { auto & v = t["data"].set_vector(cols); for (unsigned k = 0; k < cols; ++k) put_column(r, v[k], d[k], ct[k]); };
    string what; bool fmt = r.chance(1, 2); std::function<void()> f;
    auto wv = [&] { if (fmt) GC_namespace::write_table_formatted(hv, t("data").get_vector(), os); else GC_namespace::write_table(hv, t("data").get_vector(), os, delim); };
    auto wm = [&] { if (fmt) GC_namespace::write_table_formatted(hv, t("data").get_mat_real(), os); else GC_namespace::write_table(hv, t("data").get_mat_real(), os, delim); };
    t["headers"].set_vec_string(hv);
    switch (w) {
    case 0: what = "a column fewer than headers"; fill(nc - 1); f = wv; break;
    case 1: { if (nc < 2) { nc = 2; hv.push_back("extra"); d.push_back(d[0]); ct.push_back(ct[0]); } bool longer = r.chance(1, 2); what = longer ? "a column longer than the first" : "a column shorter than the first"; fill(nc); unsigned k = 1 + unsigned(r.below(nc - 1)); vector<double> s = d[k]; s.resize(longer ? nr + 1 + r.below(3) : r.below(nr)); t["data"][k].clear(); put_column(r, t["data"][k], s, ct[k]); f = wv; break; }
    case 2: { what = "a column of strings"; fill(nc); unsigned k = unsigned(r.below(nc)); auto & v = t["data"][k].set_vec_string(); (void)v; t["data"][k].clear(); auto & vs = t["data"][k].set_vec_string(); for (unsigned q = 0; q < nr; ++q) vs.push_back("1"); f = wv; break; }
    case 3: { what = "matrix with more columns than headers"; auto & m = t["data"].set_mat_real(nr, nc + 1); for (unsigned q = 0; q < nr; ++q) for (unsigned k = 0; k <= nc; ++k) m(q, k) = 1; f = wm; break; }
    case 4: { what = "no headers"; Gc u; fill(nc); u["data"] = t("data"); t = u; f = [&] { t.write_formatted_data(os, delim); }; break; }
    case 5: { what = "no data"; f = [&] { t.write_formatted_data(os, delim); }; break; }
    default: { what = "headers or data of the wrong type"; fill(nc); if (r.chance(1, 2)) { t["headers"].clear(); t["headers"] = 3; } else { t["data"].clear(); t["data"] = "text"; } f = [&] { t.write_formatted_data(os, delim); }; break; }
    }
    c.log(what + (fmt ? " (formatted) " : " ") + shape); c.mark(what + shape); Value before = observe(t);
    bool th = throws(f); REQ(th, "malformed-table-accepted", what << " is written without an error: " << quote(os.str().substr(0, 300)));
    string df = diff(observe(t), before); REQ(df.empty(), "writing-changed-container", df); c.count("malformed_tables");
  } else { // hostile text
    static const vector<string> dict = {" ", "\t", "\n", "\r\n", "\n\n", "#", "%", "# c\n", "#!a=1\n", "#!=\n", "#!a=\n", "#!\n", "%! k = v = w\n", "a b\n", "1 2\n", "nan", "inf", "1e999", "x", ",", "-", "0x10", "\0", "#! =1\n", "!", "\xFF", "1,2", "  \n", " \n"};
    string t; unsigned n = 1 + unsigned(r.below(15)); for (unsigned k = 0; k < n; ++k) t += r.pick(dict); if (r.chance(1, 6)) t.push_back('\0');
    c.log("hostile " + quote(t)); c.mark(t); set_input(t.data(), t.size());
    for (int second = 0; second < 2; ++second) { Gc g, ps; old_content(r, g); std::istringstream is(t); bool th = throws([&] { if (second) g.read_formatted_data2(is, "#%", " \t", r.chance(1, 2) ? &ps : nullptr); else g.read_formatted_data(is); }); c.count(th ? "hostile_refused" : "hostile_accepted"); if (!th) { REQ(g.exists("headers") && g.exists("data"), "read-structure", "no headers/data after reading " << quote(t)); size_t nh = g("headers").get_vec_string().size(); auto & dt = g("data"); if (second == 0) { REQ(dt.get_num_elements() == nh, "read-columns", "columns " << dt.get_num_elements() << " headers " << nh); size_t len = 0; for (unsigned k = 0; k < nh; ++k) { size_t l = dt(k).get_vec_real().size(); if (k == 0) len = l; REQ(l == len, "ragged", "columns of different length after reading " << quote(t)); } } } survive(c, g); }
  }
}
