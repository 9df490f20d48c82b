// Plain data trees as text formats see them, a strict RFC 8259 parser (the
// oracle for JSON), UTF-8 checks and the decoding expected from the readers.
#pragma once
#include "promo.hh"
namespace G {
struct J {
  enum K { NUL, BOOL, INT, REAL, STR, LIST, MAP } k = NUL;
  bool b = false; int64_t i = 0; double r = 0; string s; vector<J> v; vector<std::pair<string, J>> m; // m: document order, duplicates kept
};
inline J jnul() { return J(); }
inline J jbool(bool b) { J j; j.k = J::BOOL; j.b = b; return j; }
inline J jint(int64_t i) { J j; j.k = J::INT; j.i = i; return j; }
inline J jreal(double r) { J j; j.k = J::REAL; j.r = r; return j; }
inline J jstr(string s) { J j; j.k = J::STR; j.s = std::move(s); return j; }
inline J jlist() { J j; j.k = J::LIST; return j; }
inline J jmap() { J j; j.k = J::MAP; return j; }

inline bool utf8_ok(string const & s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = (unsigned char)s[i]; unsigned n; uint32_t cp;
    if (c < 0x80) { ++i; continue; }
    if (c >= 0xC2 && c <= 0xDF) { n = 1; cp = c & 0x1F; } else if (c >= 0xE0 && c <= 0xEF) { n = 2; cp = c & 0x0F; } else if (c >= 0xF0 && c <= 0xF4) { n = 3; cp = c & 7; } else return false;
    if (i + n >= s.size()) return false;
    for (unsigned k = 1; k <= n; ++k) { unsigned char d = (unsigned char)s[i + k]; if ((d & 0xC0) != 0x80) return false; cp = cp << 6 | (d & 0x3F); }
    if ((n == 2 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) || (n == 3 && (cp < 0x10000 || cp > 0x10FFFF))) return false;
    i += n + 1;
  }
  return true;
}
inline void utf8_put(string & o, uint32_t cp) {
  if (cp < 0x80) o += char(cp); else if (cp < 0x800) { o += char(0xC0 | cp >> 6); o += char(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { o += char(0xE0 | cp >> 12); o += char(0x80 | (cp >> 6 & 63)); o += char(0x80 | (cp & 63)); }
  else { o += char(0xF0 | cp >> 18); o += char(0x80 | (cp >> 12 & 63)); o += char(0x80 | (cp >> 6 & 63)); o += char(0x80 | (cp & 63)); }
}

// strict JSON
struct JsonDoc { bool ok = false; string why; J j; bool lone = false, overflow = false; int depth = 0; };
struct JsonParser {
  string const & t; size_t p = 0; JsonDoc d; int dep = 0;
  bool lax; // structure only: any run of number characters, unknown escapes, raw controls, \v \f as space
  explicit JsonParser(string const & s, bool l = false) : t(s), lax(l) {}
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r' || (lax && (t[p] == '\v' || t[p] == '\f')))) ++p; }
  bool err(char const * w) { if (d.why.empty()) d.why = string(w) + " at byte " + std::to_string(p); return false; }
  bool lit(char const * w) { size_t n = std::strlen(w); if (t.compare(p, n, w)) return err("bad literal"); p += n; return true; }
  bool hex4(uint32_t & x) { x = 0; for (int k = 0; k < 4; ++k, ++p) { if (p >= t.size()) return err("end in \\u"); char c = t[p]; int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (v < 0) return err("bad \\u"); x = x * 16 + uint32_t(v); } return true; }
  bool str(string & o) {
    ++p; o.clear();
    for (;;) {
      if (p >= t.size()) return err("unterminated string");
      unsigned char c = (unsigned char)t[p];
      if (c == '"') { ++p; return true; }
      if (c < 0x20 && !lax) return err("control character in a string");
      if (c != '\\') { o += char(c); ++p; continue; }
      ++p; if (p >= t.size()) return err("end in escape");
      char e = t[p++];
      if (lax && e != 'u') continue;
      switch (e) {
      case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
      case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
      case 'u': {
        uint32_t x; if (!hex4(x)) return false;
        if (x >= 0xD800 && x < 0xDC00) {
          if (p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') { size_t keep = p; p += 2; uint32_t y; if (!hex4(y)) return false; if (y >= 0xDC00 && y < 0xE000) x = 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00); else { d.lone = true; p = keep; } } else d.lone = true;
        } else if (x >= 0xDC00 && x < 0xE000) d.lone = true;
        utf8_put(o, x); break;
      }
      default: --p; return err("bad escape");
      }
    }
  }
  bool number(J & j) {
    if (lax) { while (p < t.size() && (std::strchr("+-.eE", t[p]) ? t[p] != 0 : (t[p] >= '0' && t[p] <= '9'))) ++p; j = jint(0); return true; }
    size_t b = p; bool frac = false; auto dig = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
    if (t[p] == '-') ++p;
    if (!dig()) return err("bad number");
    if (t[p] == '0') ++p; else while (dig()) ++p;
    if (p < t.size() && t[p] == '.') { frac = true; ++p; if (!dig()) return err("bad fraction"); while (dig()) ++p; }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { frac = true; ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if (!dig()) return err("bad exponent"); size_t e0 = p; while (dig()) ++p; if (p - e0 > 4) d.overflow = true; /* out of any range */ }
    string s = t.substr(b, p - b);
    if (!frac) { // 64-bit when it fits
      bool neg = s[0] == '-'; unsigned __int128 x = 0; bool big = false; for (size_t k = neg; k < s.size(); ++k) { x = x * 10 + unsigned(s[k] - '0'); if (x > ((unsigned __int128)1 << 70)) { big = true; break; } }
      if (!big && x <= (unsigned __int128)INT64_MAX + (neg ? 1 : 0)) { j = jint(int64_t(neg ? -(__int128)x : (__int128)x)); return true; }
    }
    double r = std::strtod(s.c_str(), nullptr); if (!std::isfinite(r)) d.overflow = true;
    j = jreal(r); return true;
  }
  bool value(J & j) {
    ws(); if (p >= t.size()) return err("end of text");
    struct Dep { int & x; Dep(int & y, int & mx) : x(y) { ++x; mx = std::max(mx, x); } ~Dep() { --x; } };
    switch (t[p]) {
    case 'n': j = jnul(); return lit("null");
    case 't': j = jbool(true); return lit("true");
    case 'f': j = jbool(false); return lit("false");
    case '"': j = jstr(""); return str(j.s);
    case '[': {
      Dep g(dep, d.depth); j = jlist(); ++p; ws(); if (p < t.size() && t[p] == ']') { ++p; return true; }
      for (;;) { j.v.emplace_back(); if (!value(j.v.back())) return false; ws(); if (p >= t.size()) return err("end in array"); if (t[p] == ',') { ++p; continue; } if (t[p] == ']') { ++p; return true; } return err("bad array"); }
    }
    case '{': {
      Dep g(dep, d.depth); j = jmap(); ++p; ws(); if (p < t.size() && t[p] == '}') { ++p; return true; }
      for (;;) {
        ws(); if (p >= t.size() || t[p] != '"') return err("key expected");
        j.m.emplace_back(); if (!str(j.m.back().first)) return false; ws();
        if (p >= t.size() || t[p] != ':') return err("':' expected"); ++p;
        if (!value(j.m.back().second)) return false; ws();
        if (p >= t.size()) return err("end in object"); if (t[p] == ',') { ++p; continue; } if (t[p] == '}') { ++p; return true; } return err("bad object");
      }
    }
    default: if (t[p] == '-' || (lax && t[p] == '+') || (t[p] >= '0' && t[p] <= '9')) return number(j); return err("unexpected character");
    }
  }
};
inline JsonDoc json_parse(string const & t, bool lax = false) { JsonParser q(t, lax); J j; bool ok = q.value(j); if (ok) { q.ws(); if (q.p != t.size()) ok = q.err("trailing characters"); } q.d.ok = ok; q.d.j = std::move(j); return q.d; }

// the data of a container as a text format shows it; complex numbers by cplx_
template <class F> J to_J(Value const & v, F cplx_) {
  auto list = [&](auto const & a, auto f) { J j = jlist(); for (auto x : a) j.v.push_back(f(x)); return j; };
  auto fi = [](auto x) { return jint(int64_t(x)); }; auto fr = [](double x) { return jreal(x); };
  auto mat = [&](auto const & a, auto f) { J j = jlist(); for (unsigned q = 0; q < v.nc; ++q) { J col = jlist(); for (unsigned p = 0; p < v.nr; ++p) col.v.push_back(f(a[q * v.nr + p])); j.v.push_back(col); } return j; };
  switch (v.t) {
  case T::BOOL: return jbool(v.b);
  case T::INTEGER: return jint(v.i);
  case T::LONG: return jint(v.l);
  case T::REAL: return jreal(v.r);
  case T::COMPLEX: return cplx_(v.c);
  case T::STRING: return jstr(v.s);
  case T::VEC_BOOL: return list(v.vb, [](bool x) { return jbool(x); });
  case T::VEC_INTEGER: return list(v.vi, fi);
  case T::VEC_LONG: return list(v.vl, fi);
  case T::VEC_REAL: return list(v.vr, fr);
  case T::VEC_COMPLEX: return list(v.vc, cplx_);
  case T::VEC_STRING: return list(v.vs, [](string const & x) { return jstr(x); });
  case T::MAT_INTEGER: return mat(v.vi, fi);
  case T::MAT_LONG: return mat(v.vl, fi);
  case T::MAT_REAL: return mat(v.vr, fr);
  case T::MAT_COMPLEX: return mat(v.vc, cplx_);
  case T::VECTOR: { J j = jlist(); for (auto & x : v.v) j.v.push_back(to_J(x, cplx_)); return j; }
  case T::MAP: { J j = jmap(); for (auto & x : v.m) j.m.emplace_back(x.first, to_J(x.second, cplx_)); return j; }
  default: return jnul();
  }
}
inline string jshow(J const & j, size_t lim = 300) {
  string o;
  switch (j.k) {
  case J::NUL: return "null"; case J::BOOL: return j.b ? "true" : "false"; case J::INT: return std::to_string(j.i); case J::REAL: return "r" + num(j.r); case J::STR: return quote(j.s.size() > 100 ? j.s.substr(0, 100) + "~" : j.s);
  case J::LIST: o = "["; for (auto & x : j.v) { if (o.size() > 1) o += ","; if (o.size() > lim) { o += "..."; break; } o += jshow(x, lim / 2); } return o + "]";
  case J::MAP: o = "{"; for (auto & x : j.m) { if (o.size() > 1) o += ","; if (o.size() > lim) { o += "..."; break; } o += quote(x.first) + ":" + jshow(x.second, lim / 2); } return o + "}";
  }
  return o;
}
// same data; numbers by value (an integral real may be spelled as an integer)
inline string jdiff(J const & a, J const & b, string const & path = "$") {
  auto bad = [&] { return path + ": " + jshow(a, 120) + " != " + jshow(b, 120); };
  bool na = a.k == J::INT || a.k == J::REAL, nb = b.k == J::INT || b.k == J::REAL;
  if (na && nb) {
    if (a.k == J::INT && b.k == J::INT) return a.i == b.i ? "" : bad();
    if (a.k == J::REAL && b.k == J::REAL) return a.r == b.r || (a.r != a.r && b.r != b.r) ? "" : bad();
    double r = a.k == J::REAL ? a.r : b.r; int64_t i = a.k == J::INT ? a.i : b.i;
    return (long double)r == (long double)i ? "" : bad();
  }
  if (a.k != b.k) return bad();
  switch (a.k) {
  case J::BOOL: return a.b == b.b ? "" : bad();
  case J::STR: return a.s == b.s ? "" : bad();
  case J::LIST: if (a.v.size() != b.v.size()) return path + ": " + std::to_string(a.v.size()) + " elements != " + std::to_string(b.v.size()); for (size_t k = 0; k < a.v.size(); ++k) { string d = jdiff(a.v[k], b.v[k], path + "[" + std::to_string(k) + "]"); if (!d.empty()) return d; } return "";
  case J::MAP: if (a.m.size() != b.m.size()) return path + ": " + std::to_string(a.m.size()) + " keys != " + std::to_string(b.m.size()); for (size_t k = 0; k < a.m.size(); ++k) { if (a.m[k].first != b.m[k].first) return path + ": key " + quote(a.m[k].first) + " != " + quote(b.m[k].first); string d = jdiff(a.m[k].second, b.m[k].second, path + "." + quote(a.m[k].first)); if (!d.empty()) return d; } return "";
  default: return "";
  }
}
inline uint64_t jhash(J const & j) {
  uint64_t h = mix64(uint64_t(j.k) * 31 + 5); auto add = [&](uint64_t x) { h = mix64(h ^ x); }; auto adds = [&](string const & s) { uint64_t k = 1469598103934665603ull; for (unsigned char c : s) k = (k ^ c) * 1099511628211ull; add(k); };
  add(j.b); add(uint64_t(j.i)); uint64_t u; std::memcpy(&u, &j.r, 8); add(u); adds(j.s); for (auto & x : j.v) add(jhash(x)); for (auto & x : j.m) { adds(x.first); add(jhash(x.second)); }
  return h;
}
// the container a document is decoded into before compaction (the last of equal keys wins)
inline Value from_J(J const & j) {
  switch (j.k) {
  case J::NUL: return Value();
  case J::BOOL: return B(j.b);
  case J::INT: return j.i >= INT_MIN && j.i <= INT_MAX ? I(int32_t(j.i)) : L(j.i);
  case J::REAL: return R(j.r);
  case J::STR: return S(j.s);
  case J::LIST: { Value v = mk(T::VECTOR); for (auto & x : j.v) v.v.push_back(from_J(x)); return v; }
  case J::MAP: { Value v = mk(T::MAP); for (auto & x : j.m) v.m[x.first] = from_J(x.second); return v; }
  }
  return Value();
}
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(char const *, std::streamsize n) override { return n; } };
inline void silence() { static NullBuf nb; std::cerr.rdbuf(&nb); std::cout.rdbuf(&nb); }
// random edits of a text; dict: tokens of the format
inline void mutate_text(Rng & r, string & s, vector<string> const & dict, vector<string> const & others) {
  unsigned n = 1 + unsigned(r.below(4));
  for (unsigned q = 0; q < n; ++q) {
    size_t at = s.empty() ? 0 : r.below(s.size() + 1);
    switch (r.below(11)) {
    case 0: if (at < s.size()) s[at] = char(s[at] ^ (1 << r.below(8))); break;
    case 1: if (at < s.size()) s[at] = char(r.next()); break;
    case 2: case 3: s.insert(at, r.pick(dict)); break;
    case 4: if (at < s.size()) s.replace(at, 1, r.pick(dict)); break;
    case 5: s.resize(at); break;
    case 6: if (at < s.size()) s.erase(at, 1 + r.below(6)); break;
    case 7: { if (s.empty()) break; size_t from = r.below(s.size()), len = 1 + r.below(20); s.insert(at, s.substr(from, len)); break; }
    case 8: { if (others.empty()) break; auto & o = r.pick(others); if (o.empty()) break; s = s.substr(0, at) + o.substr(r.below(o.size())); break; }
    case 9: { string t(size_t(r.below(20)), r.chance(1, 2) ? '[' : '{'); s.insert(at, t); break; }
    default: if (at + 1 < s.size()) std::swap(s[at], s[at + 1]); break;
    }
    if (s.size() > 20000) s.resize(20000);
  }
}
} // namespace G
