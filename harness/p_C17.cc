// C17: YAML and TOML readers: faithful on valid text, safe on any text.
#include "codec.hh"
#include <GenericContainer/GenericContainerInterface_yaml.hh>
#include <GenericContainer/GenericContainerInterface_toml.hh>
#include <fstream>
#include <unistd.h>
using namespace G;
namespace H {
char const * PROPERTY = "C17";
char const * RULE = "one case = a document given to the YAML or TOML reader: valid ones rendered from a random tree in ordinary spellings (YAML: block and flow collections, indentations, plain, quoted and literal scalars, comments, document marks, number forms; TOML: tables, arrays of tables, dotted keys, inline tables, basic, literal and multi-line strings, hexadecimal, octal, binary, underscores, floats, dates) must be decoded to the compaction of exactly that tree, success reported, whatever the container held; truncated, mutated, spliced and made-up texts must be survived: ASan/UBSan, allocation monitor and CPU watchdog watch, and the container is read, copied, refilled and compared afterwards. Non-trivial: text was given; distinct by the text.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 1500000 : 80000; }
void monitor_setup() { silence(); }
}
static string word(Rng & r) { static const char * k[] = {"alpha", "beta", "x", "key_1", "name", "size", "A1", "foo_bar", "zeta", "value", "data", "id", "long_name_of_a_thing", "q"}; return k[r.below(sizeof k / sizeof *k)]; }
static string text_(Rng & r) { Opt o; o.utf8 = true; o.nul = false; string s; do s = gstr(r, o); while (!utf8_ok(s)); return s; }
static J tree(Rng & r, int depth, int maxd, bool nulls, bool words) {
  unsigned k = unsigned(r.below(depth >= maxd ? 6 : 10));
  switch (k) {
  case 0: if (nulls) return jnul(); [[fallthrough]];
  case 1: return jbool(r.chance(1, 2));
  case 2: return jint(r.chance(1, 2) ? glong(r) : r.range(-1000, 1000));
  case 3: { Opt o; o.finite = true; return jreal(greal(r, o)); }
  case 4: case 5: return jstr(r.chance(1, 2) ? word(r) : text_(r));
  case 6: case 7: { J j = jlist(); unsigned n = unsigned(r.below(5)); if (depth < 2 && r.chance(1, 8)) n += unsigned(r.below(10)); unsigned kind = unsigned(r.below(9)), len = unsigned(r.below(4)); Opt of; of.finite = true; bool big = depth < 3 && r.chance(1, 25); if (big) { n = std::min(gbig(r), 600u); static const unsigned kk[] = {0, 1, 4, 5, 6, 7, 8}; kind = kk[r.below(7)]; if (r.chance(1, 5)) { if (n > 130) n = 130; for (unsigned q = 0; q < n; ++q) { J m = jmap(); m.m.emplace_back("id", jint(int64_t(q))); if (r.chance(1, 2)) m.m.emplace_back(word(r) + "_", r.chance(1, 2) ? jstr(word(r)) : jint(r.range(-99, 99))); j.v.push_back(m); } return j; } }
    for (unsigned q = 0; q < n; ++q) { if (kind == 4) j.v.push_back(jbool(r.chance(1, 2))); else if (kind == 5) j.v.push_back(jreal(greal(r, of))); else if (kind == 6) j.v.push_back(r.chance(1, 8) ? jreal(greal(r, of)) : jint(r.chance(1, 20) ? glong(r) : r.range(-99, 99))); else if (kind == 7) j.v.push_back(jint(glong(r))); else if (kind == 8) { J l = jlist(); for (unsigned p = 0; p < len; ++p) l.v.push_back(r.chance(1, 10) ? jreal(greal(r, of)) : jint(r.range(-9, 9))); j.v.push_back(l); } else if (kind == 0) j.v.push_back(jint(r.range(-99, 99))); else if (kind == 1) j.v.push_back(jstr(word(r))); else j.v.push_back(tree(r, depth + 1, maxd, nulls, words)); } return j; }
  default: { J j = jmap(); unsigned n = unsigned(r.below(5)); if (depth < 2 && r.chance(1, 8)) n += unsigned(r.below(10)); std::set<string> seen; if (depth < 2 && r.chance(1, 60)) { n = std::min(gbig(r), 300u); for (unsigned q = 0; q < n; ++q) j.m.emplace_back("k" + std::to_string(q * 7 % n) + (n % 7 ? "" : "_" + std::to_string(q)), r.chance(1, 2) ? jint(glong(r)) : r.chance(1, 4) ? (r.chance(1, 2) ? jlist() : jmap()) : jstr(word(r))); return j; } for (unsigned q = 0; q < n; ++q) { string key = words || r.chance(3, 4) ? word(r) : text_(r); if (!seen.insert(key).second) continue; j.m.emplace_back(key, tree(r, depth + 1, maxd, nulls, words)); } return j; }
  }
}
// dates and times are maps of one text
static J tdate(Rng & r) {
  char d[32], t[48], z[16] = ""; std::snprintf(d, 32, "%04u-%02u-%02u", unsigned(1 + r.below(9999)), unsigned(1 + r.below(12)), unsigned(1 + r.below(28)));
  int n = std::snprintf(t, 48, "%02u:%02u:%02u", unsigned(r.below(24)), unsigned(r.below(60)), unsigned(r.below(60)));
  if (r.chance(1, 3)) { static const char * f[] = {".5", ".25", ".123456789", ".000000001", ".01"}; std::snprintf(t + n, 48 - size_t(n), "%s", f[r.below(5)]); }
  J j = jmap(); unsigned k = unsigned(r.below(4));
  if (k == 3) { if (r.chance(1, 3)) std::strcpy(z, "Z"); else std::snprintf(z, 16, "%c%02u:%02u", r.chance(1, 2) ? '+' : '-', unsigned(1 + r.below(13)), unsigned(r.below(60))); }
  if (k == 0) j.m.emplace_back("$date", jstr(d)); else if (k == 1) j.m.emplace_back("$time", jstr(t)); else j.m.emplace_back("$date_time", jstr(string(d) + "T" + t + z));
  return j;
}
static bool is_date(J const & j) { return j.k == J::MAP && j.m.size() == 1 && j.m[0].first[0] == '$' && (j.m[0].first == "$date" || j.m[0].first == "$time" || j.m[0].first == "$date_time"); }
static void add_dates(Rng & r, J & j) { for (auto & x : j.v) if (r.chance(1, 6)) x = tdate(r); else add_dates(r, x); for (auto & x : j.m) if (r.chance(1, 6)) x.second = tdate(r); else add_dates(r, x.second); }
// ---------------------------------------------------------------- YAML
static string ydq(Rng & r, string const & s) {
  string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = (unsigned char)s[i]; char b[12];
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += r.chance(1, 2) ? "\\t" : "\\x09"; else if (c == '\r') o += "\\r";
    else if (c == 0 && r.chance(1, 2)) o += "\\0"; else if (c == 7) o += "\\a"; else if (c == 11) o += "\\v"; else if (c == 27) o += "\\e";
    else if (c < 0x20 || c == 0x7f) { std::snprintf(b, 12, r.chance(1, 2) ? "\\x%02x" : "\\u%04X", c); o += b; }
    else if (c < 0x80 && r.chance(1, 20)) { std::snprintf(b, 12, r.chance(1, 2) ? "\\x%02X" : "\\U%08x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
static bool yplain(string const & s) { static const std::set<string> w = {"null", "true", "false", "yes", "no", "on", "off", "y", "n"}; if (s.empty() || !std::isalpha((unsigned char)s[0])) return false; for (unsigned char c : s) if (!std::isalnum(c) && c != '_' && c != ' ' ) return false; if (s.back() == ' ' || s.find("  ") != string::npos) return false; string l; for (char c : s) l += char(std::tolower(c)); return !w.count(l); }
static bool ysingle(string const & s) { for (unsigned char c : s) if (c < 0x20 || c == 0x7f) return false; return s.find("\xC2\x85") == string::npos && s.find("\xE2\x80") == string::npos && s.find("\xEF\xBB\xBF") == string::npos; }
static string ystr(Rng & r, string const & s) {
  unsigned k = unsigned(r.below(3));
  if (k == 0 && yplain(s)) return s;
  if (k <= 1 && ysingle(s)) { string o = "'"; for (char c : s) { if (c == '\'') o += "''"; else o += c; } return o + "'"; }
  return ydq(r, s);
}
static string yscalar(Rng & r, J const & j) {
  char b[64];
  switch (j.k) {
  case J::NUL: { static const char * k[] = {"null", "~", "Null", "NULL"}; return k[r.below(4)]; }
  case J::BOOL: { static const char * t[] = {"true", "True", "TRUE"}, * f[] = {"false", "False", "FALSE"}; return j.b ? t[r.below(3)] : f[r.below(3)]; }
  case J::INT: if (j.i >= 0 && r.chance(1, 5)) { std::snprintf(b, 64, "0x%llx", (unsigned long long)j.i); return b; } if (j.i >= 0 && r.chance(1, 6)) { std::snprintf(b, 64, "0o%llo", (unsigned long long)j.i); return b; } if (j.i >= 0 && r.chance(1, 8)) return "+" + std::to_string(j.i); return std::to_string(j.i);
  case J::REAL: { string s; if (r.chance(1, 2)) { std::snprintf(b, 64, "%.17e", j.r); s = b; } else { std::snprintf(b, 64, "%.17g", j.r); s = b; if (s.find_first_of(".e") == string::npos) s += ".0"; } return s; }
  default: return ystr(r, j.s);
  }
}
static string yflow(Rng & r, J const & j) {
  string sp = r.chance(1, 2) ? " " : "";
  if (j.k == J::LIST) { string s = "[" + sp; for (size_t k = 0; k < j.v.size(); ++k) { if (k) s += sp + ", "; s += yflow(r, j.v[k]); } return s + sp + "]"; }
  if (j.k == J::MAP) { string s = "{" + sp; for (size_t k = 0; k < j.m.size(); ++k) { if (k) s += ", "; s += ystr(r, j.m[k].first) + ": " + yflow(r, j.m[k].second); } return s + sp + "}"; }
  return yscalar(r, j);
}
static void comment(Rng & r, string & s) { if (r.chance(1, 10)) s += "   # note: [x]"; }
static void yblock(Rng & r, J const & j, string const & ind, string & out, bool fresh);
// the value after "key:" or "-"
static void yvalue(Rng & r, J const & j, string const & ind, string & out, bool in_list) {
  bool coll = (j.k == J::LIST && !j.v.empty()) || (j.k == J::MAP && !j.m.empty());
  if (!coll || r.chance(1, 4)) {
    // a literal block for ordinary lines
    if (j.k == J::STR && r.chance(1, 3) && j.s.size() > 1 && j.s.back() == '\n') { bool fine = true, nl = true; for (unsigned char c : j.s) { if (c < 0x20 && c != '\n') fine = false; if (c >= 0x7f) fine = false; if (nl && (c == ' ' || c == '\n')) fine = false; nl = c == '\n'; } if (fine) { out += " |\n"; string line; for (char c : j.s) { if (c == '\n') { out += ind + "    " + line + "\n"; line.clear(); } else line += c; } return; } }
    out += " " + yflow(r, j); comment(r, out); out += "\n"; return;
  }
  if (in_list && j.k == J::MAP && r.chance(1, 2)) { // compact: "- key: v"
    bool first = true; for (auto & kv : j.m) { out += first ? " " : ind + "  "; first = false; out += ystr(r, kv.first) + ":"; yvalue(r, kv.second, ind + "  ", out, false); } return;
  }
  comment(r, out); out += "\n";
  string ind2 = ind + (j.k == J::LIST && !in_list && r.chance(1, 3) ? "" : r.chance(1, 2) ? "  " : "    ");
  yblock(r, j, ind2, out, true);
}
static void yblock(Rng & r, J const & j, string const & ind, string & out, bool) {
  if (r.chance(1, 8)) out += ind + "# comment\n";
  if (j.k == J::LIST) for (auto & x : j.v) { out += ind + "-"; yvalue(r, x, ind, out, true); }
  else for (auto & kv : j.m) { out += ind + ystr(r, kv.first) + ":"; yvalue(r, kv.second, ind, out, false); if (r.chance(1, 15)) out += "\n"; }
}
static string yaml_doc(Rng & r, J & j) {
  if (r.chance(1, 15)) { // anchors and aliases
    J t = tree(r, 1, 3, true, true), u = tree(r, 1, 3, true, true); string a = word(r), tt = yflow(r, t); J m = jmap(); m.m.emplace_back("base", t); m.m.emplace_back("copy", t); J l = jlist(); l.v = {t, u, t}; m.m.emplace_back("list", l);
    j = m; return "base: &" + a + " " + tt + "\ncopy: *" + a + "\nlist:\n  - *" + a + "\n  - " + yflow(r, u) + "\n  - *" + a + "\n";
  }
  string o; if (r.chance(1, 5)) o += "# a document\n"; if (r.chance(1, 5)) o += "---\n";
  bool coll = (j.k == J::LIST && !j.v.empty()) || (j.k == J::MAP && !j.m.empty());
  if (coll && r.chance(3, 4)) yblock(r, j, "", o, true); else { o += yflow(r, j); if (r.chance(3, 4)) o += "\n"; }
  return o;
}
// ---------------------------------------------------------------- TOML
static string tbasic(Rng & r, string const & s) {
  string o = "\""; for (unsigned char c : s) { char b[12]; if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c == 8) o += "\\b"; else if (c == 12) o += "\\f"; else if (c < 0x20 || c == 0x7f || (c < 0x80 && r.chance(1, 20))) { std::snprintf(b, 12, r.chance(1, 2) ? "\\u%04x" : "\\U%08X", c); o += b; } else o += char(c); } return o + "\"";
}
static bool tlit(string const & s) { for (unsigned char c : s) if (c < 0x20 || c == 0x7f || c == '\'') return false; return true; }
static string tkey(Rng & r, string const & s) { bool bare = !s.empty(); for (unsigned char c : s) if (!std::isalnum(c) && c != '_' && c != '-') bare = false; if (bare && r.chance(3, 4)) return s; if (tlit(s) && r.chance(1, 2)) return "'" + s + "'"; return tbasic(r, s); }
static string tscalar(Rng & r, J const & j) {
  char b[64];
  switch (j.k) {
  case J::BOOL: return j.b ? "true" : "false";
  case J::INT: {
    if (j.i >= 0 && r.chance(1, 5)) { std::snprintf(b, 64, r.chance(1, 2) ? "0x%llx" : "0x%llX", (unsigned long long)j.i); return b; }
    if (j.i >= 0 && r.chance(1, 6)) { std::snprintf(b, 64, "0o%llo", (unsigned long long)j.i); return b; }
    if (j.i >= 0 && r.chance(1, 8)) { string s; uint64_t x = uint64_t(j.i); do { s = char('0' + (x & 1)) + s; x >>= 1; } while (x); return "0b" + s; }
    string s = std::to_string(j.i); if (r.chance(1, 5)) { string t; for (size_t k = 0; k < s.size(); ++k) { t += s[k]; if (std::isdigit((unsigned char)s[k]) && k + 1 < s.size() && (s.size() - 1 - k) % 3 == 0) t += '_'; } s = t; } if (j.i > 0 && r.chance(1, 8)) s = "+" + s; return s;
  }
  case J::REAL: { if (r.chance(1, 2)) { std::snprintf(b, 64, "%.17e", j.r); return b; } std::snprintf(b, 64, "%.17g", j.r); string s = b; if (s.find_first_of(".e") == string::npos) s += ".0"; return s; }
  default: {
    unsigned k = unsigned(r.below(4)); string const & s = j.s;
    if (k == 0 && tlit(s)) return "'" + s + "'";
    if (k == 1 && s.find("'''") == string::npos && (s.empty() || s.back() != '\'')) { bool f = true; for (unsigned char c : s) if ((c < 0x20 && c != '\n' && c != '\t') || c == 0x7f) f = false; if (f) return "'''\n" + s + "'''"; }
    if (k == 2) { string o = tbasic(r, s); string q; for (size_t p = 0; p + 1 < o.size(); ++p) { if (o[p] == '\\' && o[p + 1] == 'n') { q += "\n"; ++p; } else if (o[p] == '\\') { q += o[p]; q += o[++p]; } else q += o[p]; } return "\"\"\"" + string(r.chance(1, 2) || (q.size() > 1 && q[1] == '\n') ? "\n" : "") + q.substr(1) + "\"\"\""; }
    return tbasic(r, s);
  }
  }
}
static string tinline(Rng & r, J const & j) {
  if (is_date(j)) { string s = j.m[0].second.s; if (j.m[0].first == "$date_time" && r.chance(1, 3)) s[10] = r.chance(1, 2) ? ' ' : 't'; return s; }
  if (j.k == J::LIST) { string s = "[" + string(r.chance(1, 3) ? "\n  " : " "); for (size_t k = 0; k < j.v.size(); ++k) { s += tinline(r, j.v[k]); if (k + 1 < j.v.size() || r.chance(1, 5)) s += r.chance(1, 4) ? ", # c\n" : ", "; } return s + "]"; }
  if (j.k == J::MAP) { string s = "{ "; for (size_t k = 0; k < j.m.size(); ++k) { if (k) s += ", "; s += tkey(r, j.m[k].first) + " = " + tinline(r, j.m[k].second); } return s + " }"; }
  return tscalar(r, j);
}
static void ttable(Rng & r, J const & j, string const & path, string & out) {
  vector<size_t> later;
  for (size_t k = 0; k < j.m.size(); ++k) {
    J const & x = j.m[k].second; bool aot = x.k == J::LIST && !x.v.empty(); if (aot) for (auto & e : x.v) aot = aot && e.k == J::MAP;
    if (aot) for (auto & e : x.v) aot = aot && !is_date(e);
    if ((x.k == J::MAP && !is_date(x) && r.chance(2, 3)) || (aot && r.chance(2, 3))) { later.push_back(k); continue; }
    if (x.k == J::MAP && !is_date(x) && !x.m.empty() && r.chance(1, 2)) { bool all = true; for (auto & e : x.m) all = all && e.second.k != J::MAP; if (all) { for (auto & e : x.m) out += tkey(r, j.m[k].first) + "." + tkey(r, e.first) + " = " + tinline(r, e.second) + "\n"; continue; } }
    out += tkey(r, j.m[k].first) + (r.chance(1, 4) ? "=" : " = ") + tinline(r, x); if (r.chance(1, 8)) out += "  # note"; out += "\n";
  }
  for (size_t k : later) {
    J const & x = j.m[k].second; string p = path.empty() ? tkey(r, j.m[k].first) : path + "." + tkey(r, j.m[k].first);
    if (r.chance(1, 4)) out += "\n# part\n";
    if (x.k == J::MAP) { out += "[" + p + "]\n"; ttable(r, x, p, out); } else for (auto & e : x.v) { out += "[[" + p + "]]\n"; ttable(r, e, p, out); }
  }
}
static Value norm(Value v) { if ((is_vec(v.t) || v.t == T::VECTOR) && count_of(v) == 0) return mk(T::VECTOR); for (auto & x : v.v) x = norm(x); for (auto & x : v.m) x.second = norm(x.second); return v; }
static const vector<string> ydict = {"- ", "-", ": ", ":", "? ", "| ", "|\n", ">\n", "|+2\n", "&a ", "*a", "!!str ", "!tag ", "!<x> ", "%YAML 1.2\n---\n", "%TAG ! x\n", "---", "...", "\n", "\n\n", " ", "  ", "\t", "#", " # c\n", "\"", "'", "[", "]", "{", "}", ", ", ",", "\\", "\"\\x", "\"\\u12", "\"\\U0011FFFF\"", "null", "~", "true", "1", "-1", "1.5", "1e400", "0x", "0xFFFFFFFFFFFFFFFFF", "0o8", ".inf", "-.inf", ".nan", "99999999999999999999", "<<: ", "@", "`", "\xEF\xBB\xBF", "\xFF", "\xFE\xFF", "\xC3", "\x80", "\xED\xA0\x80", "\r\n", "\r", "a: b", "a: b: c", "- - -", "? a\n: b\n", "[[[[", "{{{{", "*", "&", "!", "\x01", "\x7f", "key: |\n  x\n", "key: >-\n  x\n\n  y\n", "- {a: [}\n", "&a [*a]", "&x {k: *x}", "%TAG ! ", "!<", "!<>", "!!", "!a!b ", "%YAML", "%", "|", ">", ">1", "&a x: *a\n", "\"\\\n", "\xFE", "\xFF\xFE", "\xFF\xFE" "a", string("a\0", 2), string("\0\0\xFE\xFF", 4), "\xC3\xA9", "\xC3\xA9 = 1\n", "\xC2\xA0", "\xE3\x80\x80", "\xE2\x80\x83", "\xF0\x9F\x98\x80", "\xEF\xBF\xBD", "\xCE\xB1"};
static const vector<string> tdict = {"[", "]", "[[", "]]", "[a]\n", "[[a]]\n", "[a.b]\n", "a.b = 1\n", "=", " = ", ".", ",", "{", "}", "\"", "'", "\"\"\"", "'''", "\\", "\\u", "\\U00110000", "\\x41", "#", "# c\n", "\n", "\r", "\r\n", "\t", " ", "a = 1\n", "a = ", "1", "-", "+", "0x", "0b2", "0o9", "1_", "_1", "1__0", "01", "1.", ".1", "1e", "1e400", "inf", "-inf", "nan", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0xFFFFFFFFFFFFFFFFF", "true", "tru", "1979-05-27", "1979-05-27T07:32:00Z", "1979-13-40", "07:32:00", "25:61:00", "1979-05-27T07:32:00.999999-07:00", "\xEF\xBB\xBF", "\xFF", "\xC3", "\xED\xA0\x80", "\x01", "\x7f", "\xE2\x80\xA8", "[\n", "{a=1}", "{a=1,}", "[1,]", "[,]", "\"\"", "a", "\"a\" = 1\n", "a.a.a.a = 2\n", "\xC3\xA9", "\xC3\xA9 = 1\n", "\xC2\xA0", "\xE3\x80\x80", "\xE2\x80\x83", "\xF0\x9F\x98\x80", "\xEF\xBF\xBD", "\xCE\xB1"};
static void give(Ctx & c, string const & text, bool toml, Value const * want, char const * how) {
  set_input(text.data(), text.size());
  Opt o; Gc g; if (c.r.chance(1, 2)) build(g, gtyped(c.r, T(c.r.below(NT)), o, 3));
  bool ok = false, thrown = false; string what; long cap0 = A.capped, before = A.total_bytes;
  std::istringstream is(text); char const * rd = toml ? "from_toml" : "from_yaml";
  unsigned route = unsigned(c.r.below(8)); string fn;
  if (route == 3) { fn = string(std::getenv("H_SCRATCH") ? std::getenv("H_SCRATCH") : "/tmp") + "/c17_" + std::to_string(::getpid()) + ".txt"; std::ofstream f(fn, std::ios::binary); f << text; }
  try { if (route == 1) { rd = "string to container"; ok = toml ? GC_namespace::TOML_to_GC(text, g) : GC_namespace::YAML_to_GC(text, g); } else if (route == 2) { rd = "stream to container"; ok = toml ? GC_namespace::TOML_to_GC(is, g) : GC_namespace::YAML_to_GC(is, g); } else if (route == 3) { rd = "file to container"; ok = toml ? GC_namespace::file_TOML_to_GC(fn, g) : GC_namespace::file_YAML_to_GC(fn, g); } else ok = toml ? g.from_toml(is) : g.from_yaml(is); }
  catch (std::exception const & e) { thrown = true; what = e.what(); }
  long asked = A.total_bytes - before; if (route == 3) ::unlink(fn.c_str());
  REQ(A.capped == cap0, "memory-exhausted", rd << " asked for a huge block for " << text.size() << " bytes"); (void)asked;
  if (want) {
    REQ(ok && !thrown, "valid-refused", rd << " refuses a valid document (" << how << ") " << what << ": " << quote(text.substr(0, 700)));
    string d = toml ? diff(norm(observe(g)), norm(*want)) : diff(observe(g), *want); REQ(d.empty(), "wrong-data", rd << " of " << quote(text.substr(0, 700)) << ": " << d << " (expected on the right)");
    c.count(toml ? "toml_decoded" : "yaml_decoded");
  } else c.count(ok ? (toml ? "toml_accepted" : "yaml_accepted") : (toml ? "toml_refused" : "yaml_refused"));
  { Value now = observe(g); std::ostringstream os; g.print(os); Gc h(g); REQ(same(observe(h), now), "invalid-container", "a copy of the result differs"); }
  Value nv = gtyped(c.r, T(c.r.below(NT)), o, 3); if (c.r.chance(1, 2)) g.clear(); build(g, nv); string d = diff(observe(g), nv); REQ(d.empty(), "unusable-afterwards", d);
  c.mark(text);
}
void H::run_case(Ctx & c) {
  A.request_cap = 256L << 20;
  unsigned mode = unsigned(c.idx % 10); bool toml = (c.idx / 10) & 1;
  auto chain = [&](J & j) { if (!c.r.chance(1, 60)) return; unsigned n = std::min(glevels(c.r), 64u); while (n--) { J w; if (c.r.chance(1, 2)) { w = jlist(); if (c.r.chance(1, 4)) w.v.push_back(jint(int64_t(n))); w.v.push_back(j); if (c.r.chance(1, 4)) w.v.push_back(jstr("x")); } else { w = jmap(); if (c.r.chance(1, 4)) w.m.emplace_back("n", jint(int64_t(n))); w.m.emplace_back(c.r.chance(1, 2) ? "k" : "key " + std::to_string(n), j); } j = w; } if (j.k != J::MAP) { J w = jmap(); w.m.emplace_back("chain", j); j = w; } c.count("deep_chains"); };
  auto valid = [&](J & j) { int md = c.r.chance(1, 8) ? 6 : 3; if (toml) { do j = tree(c.r, 0, md, false, c.r.chance(1, 2)); while (j.k != J::MAP); chain(j); if (c.r.chance(1, 3)) { add_dates(c.r, j); c.count("dates"); } if (c.r.chance(1, 8)) { J l = jlist(); unsigned n = 1 + unsigned(c.r.below(6)); for (unsigned q = 0; q < n; ++q) { J m = jmap(); if (c.r.chance(2, 3)) m.m.emplace_back("id", jint(int64_t(q))); if (c.r.chance(1, 4)) m.m.emplace_back("sub", jmap()); l.v.push_back(m); } j.m.emplace_back("tables of the array", l); c.count("arrays_of_tables"); } string s; if (c.r.chance(1, 6)) s += "# top\n"; ttable(c.r, j, "", s); return s; } j = tree(c.r, 0, md, true, c.r.chance(1, 2)); chain(j); return yaml_doc(c.r, j); };
  J j;
  if (mode < 4) {
    string t = valid(j); c.log("valid " + quote(t.substr(0, 2000))); c.log("tree " + jshow(j, 1000));
    Value want = collapsed(from_J(j)); give(c, t, toml, &want, "rendered");
    if (c.idx % 2000 < 24) c.sample = string(toml ? "TOML: " : "YAML: ") + quote(t.substr(0, 200));
  } else if (mode == 4) {
    string t; do t = valid(j); while (t.size() > 120 || t.empty()); c.log("truncations of " + quote(t));
    for (size_t n = 0; n < t.size(); ++n) give(c, t.substr(0, n), toml, nullptr, "truncated");
    c.count("truncation_series");
  } else if (mode == 5 && c.r.chance(1, 3)) { // certainly malformed
    static const vector<string> ybad = {"key: \"text\n", "key: 'text\n", "key: ]\n", "key: }\n", "key: *nowhere\n", "key: \"\\q\"\n", "key: [1, 2]]\n", "key: {a: 1}}\n", "key: \"\\u12\"\n", "a: 1\n b: 2\n", "key: @x\n", "key: `x\n", "a: 'x' y\n", "a: \"x\" y\n", "a: 1\na: 2\n", "key: &x &y 1\n"};
    static const vector<string> tbad = {"key = \n", "key = [1, 2\n", "key = { a = 1\n", "key = \"text\n", "key = 'text\n", "key = \"\"\"text\n", "= 1\n", "key\n", "key = 1 2\n", "key = tru\n", "key = \"\\q\"\n", "key = 01\n", "key = 1__0\n", "key = 1.\n", "key = 0x\n", "key = 9223372036854775808\n", "zz = 1\nzz = 2\n", "[zz]\n[zz]\n", "[zz\n", "[[zz]\n", "key = 2020-13-01\n", "key = 25:00:00\n", "key = { a = 1 } b = 2\n", "key = [1 2]\n", "key = \"\\ud800\"\n"};
    string t, bad = c.r.pick(toml ? tbad : ybad); if (toml) { bad = bad; string s = valid(j); t = c.r.chance(1, 2) ? bad : c.r.chance(1, 2) ? s + bad : bad + s; } else t = (c.r.chance(1, 2) ? "first: 1\n" : c.r.chance(1, 2) ? "first:\n  - 1\n  - x\n" : "") + bad;
    c.log("malformed " + quote(t.substr(0, 2000))); set_input(t.data(), t.size()); Gc g; if (c.r.chance(1, 2)) { Opt o; build(g, gtyped(c.r, T(c.r.below(NT)), o, 3)); } std::istringstream is(t); bool ok = false; try { ok = toml ? g.from_toml(is) : g.from_yaml(is); } catch (std::exception const &) {}
    REQ(!ok, "malformed-accepted", (toml ? "from_toml" : "from_yaml") << " reports success on malformed text " << quote(t.substr(0, 500)) << ", giving " << show(observe(g), 300)); c.count("malformed_refused"); give(c, t, toml, nullptr, "malformed");
  } else if (mode == 5) {
    string t; unsigned n = 1 + unsigned(c.r.below(14)); for (unsigned k = 0; k < n; ++k) t += c.r.pick(toml ? tdict : ydict); c.log("tokens " + quote(t)); give(c, t, toml, nullptr, "tokens");
  } else if (mode == 6 && toml && c.r.chance(1, 8)) { // dates and numbers with runs of one character
    string t = "a = "; J d = tdate(c.r); string v = c.r.chance(1, 2) ? d.m[0].second.s : tscalar(c.r, c.r.chance(1, 2) ? jint(glong(c.r)) : jreal(greal(c.r))); if (c.r.chance(1, 2)) for (auto & ch : v) if (ch == 'T') ch = ' ';
    for (unsigned k = 1 + unsigned(c.r.below(2)); k--;) v.insert(c.r.below(v.size() + 1), string(1 + c.r.below(c.r.chance(1, 2) ? 140 : 4), "_0-:. 9eTx"[c.r.below(10)])); t += v + (c.r.chance(1, 2) ? "\n" : ""); c.log("runs " + quote(t)); give(c, t, toml, nullptr, "runs"); c.count("runs");
  } else if (mode == 6 && c.r.chance(1, 8)) {
    unsigned n = 1 + unsigned(c.r.below(200)); string t = toml ? "a = " : ""; for (unsigned k = 0; k < n; ++k) t += c.r.chance(1, 2) || toml ? "[" : "- "; c.log("nesting " + std::to_string(n)); if (c.r.chance(1, 2)) t += string(n, ']'); give(c, t, toml, nullptr, "nesting"); c.count("nesting");
  } else {
    J j2; vector<string> others = {valid(j2)}; string t = valid(j); mutate_text(c.r, t, toml ? tdict : ydict, others); if (t.size() > 5000) t.resize(5000);
    c.log("mutated " + quote(t.substr(0, 2000))); give(c, t, toml, nullptr, "mutated");
    if (c.idx % 2000 < 24) c.sample = string(toml ? "TOML mutated: " : "YAML mutated: ") + quote(t.substr(0, 200));
  }
}
