// C14: JSON readers: faithful on valid text, safe and refusing on any other.
#include "codec.hh"
#include <GenericContainer/GenericContainerInterface_json.hh>
#include <fstream>
#include <unistd.h>
using namespace G;
namespace H {
char const * PROPERTY = "C14";
char const * RULE = "one case = a document given to both JSON readers: valid ones rendered from a random tree in varied spellings (white space, escapes, surrogate pairs, number forms, duplicate keys, nesting) must be decoded to the compaction of exactly that tree whatever the container held; truncated, mutated, spliced or made-up text that an independent strict RFC 8259 parser refuses must be reported as failure; ASan/UBSan, the allocation monitor and the CPU watchdog watch every call, and the container is refilled and compared afterwards. Non-trivial: text was given; distinct by the text.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 1500000 : 24000; }
void monitor_setup() { silence(); }
}
static const vector<string> dict = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud83d\\ude00", "\\u0000", "\\x", "null", "true", "false", "nul", "tru", "1", "-", "-0", "01", "1.", ".5", "1e", "1e+", "1E5", "+1", "0x1", "1e400", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "NaN", "Infinity", "-Infinity", "inf", "//c\n", "/*c*/", "#", "'", "'a'", " ", "\n", "\r", "\t", "\v", "\f", "\"a\"", "\"a\":1", "\"\"", ",,", "[]", "{}", "[1,2", "{\"a\":", "\xEF\xBB\xBF", "\xFF", "\x80", "\xE2\x80\xA8", ";", "=", "(", ")", "a", "undefined", "True", "e", "E", "\x01", "\x7f", "-1", "1 2", "\"\\q\"", "\"\n\"", "\"\t\"", "123456789012345678901234567890", "0.1", "1e-400", "00", "-01", "1.5.2", "--1"};
static string gap(Rng & r, bool dense) { if (dense) return ""; string s; while (r.chance(1, 3)) s += " \t\n\r"[r.below(4)]; return s; }
static string spell_str(Rng & r, string const & s) {
  string o = "\""; static const char * hx = r.chance(1, 2) ? "0123456789abcdef" : "0123456789ABCDEF"; (void)hx;
  auto u4 = [&](uint32_t x) { char b[8]; std::snprintf(b, 8, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", x); o += b; };
  unsigned style = unsigned(r.below(3)); // 0 minimal, 1 mixed, 2 all \u
  for (size_t i = 0; i < s.size();) {
    unsigned char c = (unsigned char)s[i]; unsigned n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
    uint32_t cp = c; if (n) { cp = n == 1 ? c & 0x1F : n == 2 ? c & 15 : c & 7; for (unsigned k = 1; k <= n; ++k) cp = cp << 6 | ((unsigned char)s[i + k] & 63); }
    bool esc = style == 2 || (style == 1 && r.chance(1, 4));
    if (cp == '"' || cp == '\\' || cp < 0x20) {
      char const * q = std::strchr("\"\\\b\f\n\r\t", int(cp)); static const char nm[] = "\"\\bfnrt"; static const char cs[] = "\"\\\b\f\n\r\t";
      if (cp && q && !esc) { for (int k = 0; k < 7; ++k) if (cs[k] == char(cp)) { o += '\\'; o += nm[k]; } } else u4(cp);
    } else if (cp == '/' && r.chance(1, 2)) o += "\\/";
    else if (esc) { if (cp >= 0x10000) { u4(0xD800 + ((cp - 0x10000) >> 10)); u4(0xDC00 + ((cp - 0x10000) & 0x3FF)); } else u4(cp); }
    else o.append(s, i, n + 1);
    i += n + 1;
  }
  return o + "\"";
}
// a number: its spelling decides the value, so it is computed from the text
static string spell_num(Rng & r) {
  Opt of; of.finite = true;
  switch (r.below(10)) {
  case 0: return std::to_string(glong(r));
  case 1: return std::to_string(gint(r));
  case 2: return num(greal(r, of));
  case 3: { string s = r.chance(1, 2) ? "-" : ""; s += std::to_string(r.below(100)); s += "."; unsigned n = 1 + unsigned(r.below(20)); for (unsigned k = 0; k < n; ++k) s += char('0' + r.below(10)); return s; }
  case 4: { string s = std::to_string(r.range(-99, 99)); if (r.chance(1, 2)) { s += "."; s += std::to_string(r.below(1000)); } s += r.chance(1, 2) ? "e" : "E"; if (r.chance(1, 2)) s += r.chance(1, 2) ? "+" : "-"; s += std::to_string(r.below(r.chance(1, 4) ? 300 : 20)); return s; }
  case 5: { string s = r.chance(1, 2) ? "-" : ""; s += char('1' + r.below(9)); unsigned n = unsigned(r.below(30)); for (unsigned k = 0; k < n; ++k) s += char('0' + r.below(10)); return s; }
  case 6: { static const char * k[] = {"0", "-0", "0.0", "-0.0", "0e0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "1e0", "1E+2", "1.0", "100000000000000000000", "1e308", "4.9406564584124654e-324", "2.2250738585072011e-308", "0.1", "123456789.123456789", "9007199254740993", "9007199254740993.0", "1.7976931348623157e308"}; return k[r.below(sizeof k / sizeof *k)]; }
  case 7: { // digits near a machine limit, a point somewhere, and a tail
    static const char * k[] = {"18446744073709551615", "1844674407370955161", "9223372036854775807", "4294967295", "9007199254740992", "999999999999999999", "17976931348623157", "49406564584124654"}; string s = k[r.below(8)]; unsigned n = unsigned(r.below(25)); for (unsigned q = 0; q < n; ++q) s += char('0' + r.below(10));
    s.insert(1 + r.below(s.size() - 1), "."); if (r.chance(1, 3)) s = "0." + string(r.below(12), '0') + s.substr(0, s.find('.')) + s.substr(s.find('.') + 1); if (r.chance(1, 3)) s += "e" + std::to_string(r.range(-250, 250)); return s; }
  default: return std::to_string(r.range(-1000, 1000));
  }
}
static string render(Rng & r, int depth, bool dense, Opt const & o, int maxd) {
  unsigned k = unsigned(r.below(depth >= maxd ? 5 : 9));
  switch (k) {
  case 0: return "null";
  case 1: return r.chance(1, 2) ? "true" : "false";
  case 2: case 3: return spell_num(r);
  case 4: { string s; do s = gstr(r, o); while (!utf8_ok(s)); return spell_str(r, s); }
  case 5: case 6: {
    string s = "[" + gap(r, dense); unsigned n = unsigned(r.below(6)); if (depth < 2 && r.chance(1, 8)) n += unsigned(r.below(10)); unsigned kind = unsigned(r.below(9)); unsigned len = unsigned(r.below(4)), cls = unsigned(r.below(6)); bool big = depth < 3 && r.chance(1, 25);
    if (big) { n = std::min(gbig(r), 1200u); kind = unsigned(r.below(3)); if (kind == 2) kind = 5 + unsigned(r.below(4)); if (n > 200 && kind == 1) n = 200; }
    auto of_class = [&]() -> string { switch (cls) { case 0: return std::to_string(r.range(-1000, 1000)); case 1: return std::to_string(gint(r)); case 2: return std::to_string(glong(r)); case 3: { Opt of; of.finite = true; return num(greal(r, of)); } case 4: return std::to_string(r.range(-50, 50)) + "." + std::to_string(r.below(100)); default: return r.chance(1, 30) ? spell_num(r) : std::to_string(r.range(-9, 9)); } };
    for (unsigned q = 0; q < n; ++q) {
      if (q) s += gap(r, dense) + "," + gap(r, dense);
      if (kind == 5) s += of_class(); else if (kind == 6) s += r.chance(1, 40) ? of_class() : string(r.chance(1, 2) ? "true" : "false"); else if (kind == 7) { s += "["; unsigned l2 = big && r.chance(1, 2000) ? len + 1 : len; for (unsigned p = 0; p < l2; ++p) { if (p) s += ","; s += of_class(); } s += "]"; }
      else if (kind == 8 && !big) { s += "{\"a\":" + of_class() + "}"; }
      else if (kind == 0) s += spell_num(r); else if (kind == 1) { string t; do t = gstr(r, o); while (!utf8_ok(t)); s += spell_str(r, t); }
      else if (kind == 2) { s += "["; for (unsigned p = 0; p < len; ++p) { if (p) s += ","; s += spell_num(r); } s += "]"; }
      else s += render(r, depth + 1, dense, o, maxd);
    }
    return s + gap(r, dense) + "]";
  }
  default: {
    string s = "{" + gap(r, dense); unsigned n = unsigned(r.below(5)); if (depth < 2 && r.chance(1, 6)) n += unsigned(r.below(10)); bool big = depth < 2 && r.chance(1, 60); if (big) n = std::min(gbig(r), 300u);
    for (unsigned q = 0; q < n; ++q) { if (q) s += gap(r, dense) + "," + gap(r, dense); string t; do t = gkey(r, o); while (!utf8_ok(t)); if (big) { s += "\"" + std::to_string(q * 7 % n) + "k\":"; static const char * sm[] = {"[]", "{}", "null", "[1]", "[[]]", "{\"a\":[]}", "\"\"", "true", "[{}]"}; s += r.chance(1, 3) ? sm[r.below(9)] : spell_num(r); continue; } s += spell_str(r, t) + gap(r, dense) + ":" + gap(r, dense) + render(r, depth + 1, dense, o, maxd); }
    return s + gap(r, dense) + "}";
  }
  }
}
static void give(Ctx & c, string const & text, char const * how) {
  JsonDoc doc = json_parse(text);
  bool lax_ok = json_parse(text, true).ok, u8 = utf8_ok(text);
  bool has_nul = text.find('\0') != string::npos;
  bool blank = text.find_first_not_of(" \t\r\n\v\f") == string::npos;
  set_input(text.data(), text.size());
  Opt o; Value want;
  if (doc.ok) want = collapsed(from_J(doc.j));
  for (int k = 0; k < 2; ++k) {
    Gc g; Value old; if (c.r.chance(1, 2)) { old = gtyped(c.r, T(c.r.below(NT)), o, 3); build(g, old); }
    bool ok = false, thrown = false; string what;
    long before = A.total_bytes, cap0 = A.capped;
    std::istringstream is(text);
    char const * rd = k ? "from_json2" : "from_json";
    unsigned route = k ? 0 : unsigned(c.r.below(8)); string fn;
    if (route == 3) { fn = string(std::getenv("H_SCRATCH") ? std::getenv("H_SCRATCH") : "/tmp") + "/c14_" + std::to_string(::getpid()) + ".json"; std::ofstream f(fn, std::ios::binary); f << text; }
    try { if (route == 1) { rd = "JSON_to_GC(string)"; ok = GC_namespace::JSON_to_GC(text, g); } else if (route == 2) { rd = "JSON_to_GC(stream)"; ok = GC_namespace::JSON_to_GC(is, g); } else if (route == 3) { rd = "file_JSON_to_GC"; ok = GC_namespace::file_JSON_to_GC(fn, g); } else ok = k ? g.from_json2(is) : g.from_json(is); }
    catch (std::bad_alloc const &) { c.fail("memory-exhausted", STR(rd << " asked for too much memory (" << how << ")")); }
    catch (std::exception const & e) { thrown = true; what = e.what(); }
    long asked = A.total_bytes - before; if (route == 3) ::unlink(fn.c_str());
    REQ(A.capped == cap0 && asked <= 2000000 + 3000 * long(text.size()), "memory-exhausted", rd << " asked for " << asked << " bytes for a text of " << text.size());
    bool failed = thrown || !ok;
    if (doc.ok) {
      if (doc.lone || doc.overflow || !u8) { c.count("unspecified_surrogate_range_or_bytes"); }
      else {
        REQ(!failed, "valid-refused", rd << " refuses valid JSON (" << how << ") " << (thrown ? what : string("false")) << ": " << quote(text.substr(0, 500)));
        string d = diff(observe(g), want); REQ(d.empty(), "wrong-data", rd << " of " << quote(text.substr(0, 500)) << ": " << d << " (expected on the right)");
        c.count("decoded");
      }
    } else if (!has_nul && !blank && !(k && lax_ok)) { // the second reader is lax about numbers and escapes
      REQ(failed, "invalid-accepted", rd << " accepts what is not JSON (" << how << "; " << doc.why << "): " << quote(text.substr(0, 500)) << " as " << show(observe(g)));
      c.count("refused");
    }
    // the container is a container still
    { Value now = observe(g); std::ostringstream os; g.print(os); Gc h(g); REQ(same(observe(h), now), "invalid-container", "a copy of the result differs"); }
    Value nv = gtyped(c.r, T(c.r.below(NT)), o, 3); if (c.r.chance(1, 2)) g.clear(); build(g, nv);
    string d = diff(observe(g), nv); REQ(d.empty(), "unusable-afterwards", d);
  }
  c.count("texts"); c.mark(text);
}
void H::run_case(Ctx & c) {
  A.request_cap = 256L << 20;
  Opt o; o.utf8 = true; o.nul = c.r.chance(1, 2);
  unsigned mode = unsigned(c.idx % 8);
  if (mode < 3) {
    string t = gap(c.r, false) + render(c.r, c.r.chance(1, 3) ? 0 : 0, c.r.chance(1, 2), o, c.r.chance(1, 10) ? 8 : 4) + gap(c.r, false);
    c.log("valid " + quote(t.substr(0, 2000))); give(c, t, "rendered");
    if (c.idx % 2000 < 3) c.sample = "valid: " + quote(t.substr(0, 200));
  } else if (mode == 3 && c.idx % 16 == 3) { // nesting
    unsigned n = 1 + unsigned(c.r.below(c.r.chance(1, 4) ? 400 : 40)); string a, b; for (unsigned k = 0; k < n; ++k) { if (c.r.chance(1, 2)) { a += "["; b = "]" + b; } else { a += "{\"k\":"; b = "}" + b; } }
    string t = a + "1" + b; c.log("nesting " + std::to_string(n)); give(c, t, "nesting"); if (c.r.chance(1, 2)) { t.pop_back(); give(c, t, "nesting cut"); } else give(c, t + "]", "nesting extra");
    c.count("nesting");
  } else if (mode == 3) { // every truncation of a short document
    string t; do t = render(c.r, 0, c.r.chance(1, 2), o, 3); while (t.size() > 120 || t.empty()); c.log("truncations of " + quote(t));
    for (size_t n = 1; n < t.size(); ++n) give(c, t.substr(0, n), "truncated");
    c.count("truncation_series");
  } else if (mode == 4) { // made up from tokens
    string t; unsigned n = 1 + unsigned(c.r.below(12)); for (unsigned k = 0; k < n; ++k) t += c.r.pick(dict); c.log("tokens " + quote(t)); give(c, t, "tokens");
  } else {
    vector<string> others = {render(c.r, 0, true, o, 3)}; string t = render(c.r, 0, c.r.chance(1, 2), o, 4); mutate_text(c.r, t, dict, others);
    if (t.size() > 5000) t.resize(5000);
    c.log("mutated " + quote(t.substr(0, 2000))); give(c, t, "mutated");
    if (c.idx % 2000 < 8) c.sample = "mutated: " + quote(t.substr(0, 200));
  }
}
