// An independent parser of the YAML subset a data writer uses: block sequences
// and mappings with strict indentation, flow collections, quoted and plain
// scalars on one line, core schema. Anything else is UNSUPPORTED (no verdict).
#pragma once
#include "codec.hh"
namespace G {
struct YamlDoc { enum S { OK, INVALID, UNSUPPORTED } s = OK; string why; J j; };
class YamlSubset {
  struct Stop { YamlDoc::S s; string why; };
  struct Line { size_t ind; string txt; };
  vector<Line> L; size_t p = 0;
  [[noreturn]] static void bad(string const & w) { throw Stop{YamlDoc::INVALID, w}; }
  [[noreturn]] static void unsup(string const & w) { throw Stop{YamlDoc::UNSUPPORTED, w}; }
  static void blanks(string const & s, size_t & i) { while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; }
  static void put_hex(string const & s, size_t & i, int n, string & o) { uint32_t x = 0; for (int k = 0; k < n; ++k, ++i) { if (i >= s.size() || !std::isxdigit((unsigned char)s[i])) bad("bad escape"); x = x * 16 + uint32_t(std::isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); } if (x >= 0xD800 && x <= 0xDFFF) unsup("surrogate escape"); if (x > 0x10FFFF) bad("escape beyond Unicode"); utf8_put(o, x); }
  static string dquoted(string const & s, size_t & i) {
    string o; ++i;
    for (;;) {
      if (i >= s.size()) unsup("quoted scalar over several lines");
      char c = s[i++];
      if (c == '"') return o;
      if (c != '\\') { if ((unsigned char)c < 0x20 && c != '\t') bad("control character in a quoted scalar"); o += c; continue; }
      if (i >= s.size()) unsup("escaped line break");
      switch (char e = s[i++]) {
      case '0': o += '\0'; break; case 'a': o += '\a'; break; case 'b': o += '\b'; break; case 't': case '\t': o += '\t'; break; case 'n': o += '\n'; break; case 'v': o += '\v'; break; case 'f': o += '\f'; break; case 'r': o += '\r'; break; case 'e': o += '\x1b'; break;
      case ' ': o += ' '; break; case '"': o += '"'; break; case '/': o += '/'; break; case '\\': o += '\\'; break; case 'N': o += "\xC2\x85"; break; case '_': o += "\xC2\xA0"; break; case 'L': o += "\xE2\x80\xA8"; break; case 'P': o += "\xE2\x80\xA9"; break;
      case 'x': put_hex(s, i, 2, o); break; case 'u': put_hex(s, i, 4, o); break; case 'U': put_hex(s, i, 8, o); break;
      default: (void)e; bad("unknown escape");
      }
    }
  }
  static string squoted(string const & s, size_t & i) { string o; ++i; for (;;) { if (i >= s.size()) unsup("quoted scalar over several lines"); char c = s[i++]; if (c != '\'') { o += c; continue; } if (i < s.size() && s[i] == '\'') { o += '\''; ++i; continue; } return o; } }
  static bool comment_at(string const & s, size_t i) { return i < s.size() && s[i] == '#' && (i == 0 || s[i - 1] == ' ' || s[i - 1] == '\t'); }
  static string plain(string const & s, size_t & i, bool flow) {
    static const string ind = "-?:,[]{}#&*!|>'\"%@`"; if (i >= s.size()) return "";
    if (ind.find(s[i]) != string::npos) { bool ok = (s[i] == '-' || s[i] == '?' || s[i] == ':') && i + 1 < s.size() && s[i + 1] != ' ' && !(flow && string(",[]{}").find(s[i + 1]) != string::npos); if (!ok) { if (string("&*!|>?%").find(s[i]) != string::npos) unsup("construct"); bad(string("scalar starting with ") + s[i]); } }
    size_t b = i;
    while (i < s.size()) { char c = s[i]; if (c == ':' && (i + 1 >= s.size() || s[i + 1] == ' ' || (flow && string(",[]{}").find(s[i + 1]) != string::npos))) break; if (flow && string(",[]{}").find(c) != string::npos) break; if (comment_at(s, i)) break; if ((unsigned char)c < 0x20 && c != '\t') bad("control character"); ++i; }
    size_t e = i; while (e > b && (s[e - 1] == ' ' || s[e - 1] == '\t')) --e; return s.substr(b, e - b);
  }
  static J resolve(string const & s) {
    if (s.empty() || s == "~" || s == "null" || s == "Null" || s == "NULL") return jnul();
    if (s == "true" || s == "True" || s == "TRUE") return jbool(true); if (s == "false" || s == "False" || s == "FALSE") return jbool(false);
    size_t i = s[0] == '-' || s[0] == '+'; bool dig = i < s.size(), num = i < s.size(), any = false; for (size_t k = i; k < s.size(); ++k) { if (!std::isdigit((unsigned char)s[k])) dig = false; else any = true; }
    if (dig) { errno = 0; long long x = std::strtoll(s.c_str(), nullptr, 10); if (errno == 0) return jint(x); return jreal(std::strtod(s.c_str(), nullptr)); }
    for (size_t k = i; k < s.size(); ++k) if (!(std::isdigit((unsigned char)s[k]) || s[k] == '.' || ((s[k] == 'e' || s[k] == 'E') && k > i && any) || ((s[k] == '-' || s[k] == '+') && (s[k - 1] == 'e' || s[k - 1] == 'E')))) num = false;
    if (num && any) { char * e; double x = std::strtod(s.c_str(), &e); if (!*e) return jreal(x); }
    if (s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'o')) unsup("hexadecimal");
    if (s[0] == '.' || ((s[0] == '-' || s[0] == '+') && s.size() > 1 && s[1] == '.')) unsup("special number");
    return jstr(s);
  }
  static J flow(string const & s, size_t & i, int d) {
    if (d > 2000) unsup("depth"); blanks(s, i); if (i >= s.size() || comment_at(s, i)) unsup("flow collection over several lines");
    if (s[i] == '"') return jstr(dquoted(s, i)); if (s[i] == '\'') return jstr(squoted(s, i));
    if (s[i] == '[') { J j = jlist(); ++i; for (;;) { blanks(s, i); if (i >= s.size()) unsup("flow collection over several lines"); if (s[i] == ']') { ++i; return j; } J e = flow(s, i, d + 1); blanks(s, i); if (i < s.size() && s[i] == ':') unsup("pair in a flow sequence"); j.v.push_back(e); blanks(s, i); if (i >= s.size()) unsup("flow collection over several lines"); if (s[i] == ',') { ++i; continue; } if (s[i] != ']') bad("in a flow sequence"); } }
    if (s[i] == '{') { J j = jmap(); ++i; for (;;) { blanks(s, i); if (i >= s.size()) unsup("flow collection over several lines"); if (s[i] == '}') { ++i; return j; } bool q = s[i] == '"' || s[i] == '\''; string k = s[i] == '"' ? dquoted(s, i) : s[i] == '\'' ? squoted(s, i) : plain(s, i, true); (void)q; blanks(s, i); J e; if (i < s.size() && s[i] == ':') { ++i; blanks(s, i); if (i < s.size() && s[i] != ',' && s[i] != '}') e = flow(s, i, d + 1); } j.m.emplace_back(k, e); blanks(s, i); if (i >= s.size()) unsup("flow collection over several lines"); if (s[i] == ',') { ++i; continue; } if (s[i] != '}') bad("in a flow mapping"); } }
    return resolve(plain(s, i, true));
  }
  static void ended(string const & s, size_t i) { size_t b = i; blanks(s, i); if (i < s.size() && !(s[i] == '#' && i > b)) bad("text after a value: " + quote(s.substr(i, 40))); }
  // does the line start a mapping entry? key and the place after ':'
  static bool entry(string const & s, string & key, size_t & after) {
    size_t i = 0; if (s.empty()) return false;
    if (s[0] == '"') key = dquoted(s, i); else if (s[0] == '\'') key = squoted(s, i); else { static const string ind = ",[]{}#&*!|>%@`"; if (ind.find(s[0]) != string::npos) return false; if ((s[0] == '-' || s[0] == '?') && (s.size() == 1 || s[1] == ' ')) return false; key = plain(s, i, false); }
    blanks(s, i); if (i >= s.size() || s[i] != ':' || (i + 1 < s.size() && s[i + 1] != ' ' && s[i + 1] != '\t')) return false;
    after = i + 1; return true;
  }
  static bool dash(string const & s) { return !s.empty() && s[0] == '-' && (s.size() == 1 || s[1] == ' '); }
  // the value after "- " or "key:" on line p at column c; lo: least indentation of a nested block (seqlo: of a nested sequence)
  J after(string rest, size_t col, size_t c, bool in_map) {
    size_t b = 0; blanks(rest, b); if (b < rest.size() && !comment_at(rest, b)) {
      string r = rest.substr(b); string k; size_t a;
      if (!in_map && (dash(r) || entry(r, k, a))) { L[p] = Line{col + b, r}; return block(col + b); }
      if (in_map && dash(r)) bad("sequence on the line of its key");
      if (r[0] == '|' || r[0] == '>' || r[0] == '&' || r[0] == '*' || r[0] == '!') unsup("construct");
      size_t i = 0; J j; if (r[0] == '[' || r[0] == '{' || r[0] == '"' || r[0] == '\'') { j = flow(r, i, 0); ended(r, i); }
      else { string t = plain(r, i, false); if (i < r.size() && r[i] == ':') bad("mapping on the line of its key"); ended(r, i); j = resolve(t); }
      ++p; if (p < L.size() && L[p].ind > c) bad("continued or too deeply indented after a value: " + quote(L[p].txt.substr(0, 40)));
      return j;
    }
    ++p; if (p >= L.size()) return jnul();
    if (L[p].ind > c || (in_map && L[p].ind == c && dash(L[p].txt))) return block(L[p].ind);
    return jnul();
  }
  int dep = 0;
  J block(size_t c) {
    if (++dep > 3000) unsup("depth");
    J j; string k; size_t a;
    if (dash(L[p].txt)) {
      j = jlist();
      while (p < L.size() && L[p].ind == c && dash(L[p].txt)) { string r = L[p].txt.substr(1); j.v.push_back(after(r, c + 1, c, false)); }
    } else if (entry(L[p].txt, k, a)) {
      j = jmap();
      while (p < L.size() && L[p].ind == c && !dash(L[p].txt)) { if (!entry(L[p].txt, k, a)) bad("no mapping entry: " + quote(L[p].txt.substr(0, 60))); for (auto & e : j.m) if (j.m.size() < 200 && e.first == k) bad("duplicate key " + quote(k)); string r = L[p].txt.substr(a); j.m.emplace_back(k, after(r, c + a, c, true)); }
    } else { size_t i = 0; string const s = L[p].txt; if (s[0] == '[' || s[0] == '{' || s[0] == '"' || s[0] == '\'') j = flow(s, i, 0); else j = resolve(plain(s, i, false)); ended(s, i); ++p; }
    if (p < L.size() && L[p].ind > c) bad("too deeply indented: " + quote(L[p].txt.substr(0, 60)));
    --dep; return j;
  }
public:
  YamlDoc parse(string const & t) {
    YamlDoc d;
    try {
      size_t b = 0; while (b < t.size()) { size_t e = t.find('\n', b); if (e == string::npos) e = t.size(); string s = t.substr(b, e - b); b = e + 1; size_t n = 0; while (n < s.size() && s[n] == ' ') ++n; string x = s.substr(n); while (!x.empty() && (x.back() == ' ' || x.back() == '\t')) x.pop_back(); if (x.empty() || x[0] == '#') continue; if (x[0] == '\t') bad("tab in the indentation"); if (n == 0 && (s.compare(0, 3, "---") == 0 || s.compare(0, 3, "...") == 0 || s[0] == '%')) unsup("marker"); L.push_back(Line{n, x}); }
      if (L.empty()) return d;
      d.j = block(L[0].ind); if (p < L.size()) bad("less indented than the document: " + quote(L[p].txt.substr(0, 60)));
    } catch (Stop const & s) { d.s = s.s; d.why = s.why; }
    return d;
  }
};
inline YamlDoc yaml_subset(string const & t) { YamlSubset y; return y.parse(t); }
} // namespace G
