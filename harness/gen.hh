// Generators of values: type limits, special numbers, hostile strings, shapes.
#pragma once
#include "model.hh"

namespace G {
using namespace M;

struct Opt {
  bool finite = false;      // no inf / nan
  bool nan = true;
  bool subnormal = true;
  bool pointers = true;
  bool complexes = true;
  bool mats = true;
  bool utf8 = false;        // strings are valid UTF-8
  bool nul = true;          // strings may hold NUL
  bool notype = true;
  bool vectors = true, maps = true;
  bool bigvec = true;
  bool empties = true;      // empty vectors / maps / matrices
  bool deep = false;        // now and then a chain of many levels
  unsigned huge = 0;        // one value in that many has a dimension around 2^15, 2^16 or 10^5
  unsigned huge_max = 100000;
  int max_depth = 4;
  unsigned max_kids = 5;
};

inline int32_t gint(Rng & r) {
  switch (r.below(6)) {
  case 0: { static const int32_t k[] = {0, 1, -1, 2, -2, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 255, 256, -128, 127, 32767, 65535, 65536, -65536, 10, 100}; return k[r.below(sizeof k / sizeof *k)]; }
  case 1: { int s = r.range(0, 30); int32_t x = int32_t(1u << s); return x + r.range(-1, 1); }
  case 2: return int32_t(r.next());
  default: return r.range(-1000, 1000);
  }
}
inline int64_t glong(Rng & r) {
  switch (r.below(7)) {
  case 0: { static const int64_t k[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, int64_t(INT_MAX) + 1, int64_t(INT_MIN) - 1, INT_MAX, INT_MIN, UINT32_MAX, int64_t(UINT32_MAX) + 1, int64_t(1) << 53, (int64_t(1) << 53) + 1, -(int64_t(1) << 53) - 1, int64_t(1) << 62, -(int64_t(1) << 62), (int64_t(1) << 53) - 1, 4294967290LL}; return k[r.below(sizeof k / sizeof *k)]; }
  case 1: { int s = r.range(0, 62); return (int64_t(1) << s) + r.range(-1, 1); }
  case 2: { int s = r.range(0, 62); return -(int64_t(1) << s) + r.range(-1, 1); }
  case 3: { if (r.chance(1, 2)) return int64_t(r.next()); // next to the middle between two floats or two doubles
    int bits = r.chance(1, 2) ? 24 : 53, sh = r.range(1, 63 - bits); int64_t m = (int64_t(1) << (bits - 1)) | int64_t(r.next() & ((uint64_t(1) << (bits - 1)) - 1)), x = (m << sh) + (int64_t(1) << (sh - 1)) + r.range(-1, 1); return r.chance(1, 2) ? x : -x; }
  case 4: return gint(r);
  default: return r.range(-100000, 100000);
  }
}
inline double greal(Rng & r, Opt const & o = Opt()) {
  for (;;) {
    double x;
    switch (r.below(8)) {
    case 0: { static const double k[] = {0.0, -0.0, 0.0, -0.0, 1, -1, 0.5, -0.5, 3.14159265358979323846, 0.1, 1.0 / 3, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, DBL_EPSILON, 1e-300, 1e300, 5e-324, -5e-324, 1e-310, INFINITY, -INFINITY, NAN, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9007199254740992.0, 9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0, 18446744073709551615.0, 1e19, 2147483647.5, -0.75, 1e15, 123456789.0, 1e16, 1e17, 1e21, 1e22, 1e-5, 1e-7}; x = k[r.below(sizeof k / sizeof *k)]; break; }
    case 1: { uint64_t u = r.next(); std::memcpy(&x, &u, 8); break; }
    case 2: x = double(glong(r)); break;
    case 3: x = double(r.range(-1000, 1000)) + double(r.range(-1000, 1000)) / 1024; break;
    case 4: x = double(gint(r)); break;
    case 5: x = std::ldexp(1.0 + double(r.below(1u << 20)) / (1 << 20), r.range(-60, 70)) * (r.chance(1, 2) ? 1 : -1); break;
    default: x = double(int64_t(r.next() >> 11)) / 9007199254740992.0 * 200 - 100; break;
    }
    if (o.finite && !std::isfinite(x)) continue;
    if (!o.nan && x != x) continue;
    if (!o.subnormal && x != 0 && std::fabs(x) < DBL_MIN) continue;
    return x;
  }
}
inline cplx gcplx(Rng & r, Opt const & o = Opt()) { double a = greal(r, o); double b = r.chance(1, 5) ? 0.0 : greal(r, o); return cplx(a, b); }

inline string gstr(Rng & r, Opt const & o = Opt()) {
  static const char * look[] = {"", " ", "null", "true", "false", "~", "yes", "no", "1", "1.5", "-1e5", "0x1F", "nan", "inf", ".inf", "a: b", "- a", "[1,2]", "{a: 1}", "# c", "\"q\"", "'q'", "a\\b", "\\", "\\n", "a\nb", "\n", "\r\n", "\t", "a\tb", "key", "Abc", " lead", "trail ", "a b c", "%", "@x", "&a", "*a", "!t", "|", ">", "?", ":", ",", "]", "}", "a#b", "a #b", "a:b", "---", "...", "<<", "=", "0", "007", "1_000", "2020-01-01", "12:30:45", "on", "off", "NULL", "True", "\x7f", "\x01", "\x1f", "\x1b[0m", "\b\f", "/", "</script>", "\\u0041", "\\\"", "\"", "'", "''", "\"\"", "é", "日本語", "\xF0\x9F\x98\x80", "\xC2\x85", "\xE2\x80\xA8", "\xEF\xBB\xBF", "a.b", "a-b", "a_b", "1 ##=title", "2 #- h", "3##~x", "x\\ty", "${x}", "`"};
  string s;
  switch (r.below(6)) {
  case 0: case 1: s = look[r.below(sizeof look / sizeof *look)]; break;
  case 2: { unsigned n = unsigned(r.below(12)); for (unsigned k = 0; k < n; ++k) s += char('a' + r.below(26)); break; }
  case 3: { unsigned n = unsigned(r.below(40)); for (unsigned k = 0; k < n; ++k) s += char(32 + r.below(95)); break; }
  case 4: { unsigned n = unsigned(r.below(20)); for (unsigned k = 0; k < n; ++k) s += char(r.below(o.utf8 ? 128 : 256)); break; }
  default: { unsigned n = 1 + unsigned(r.below(4)); for (unsigned k = 0; k < n; ++k) s += look[r.below(sizeof look / sizeof *look)]; break; }
  }
  if (r.chance(1, 60)) s += string(size_t(r.below(300)), 'x');
  if (r.chance(1, 150)) { static const unsigned k[] = {14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 70000}; unsigned n = k[r.below(r.chance(1, 6) ? sizeof k / sizeof *k : 22)]; s.clear(); while (s.size() < n) s += char(r.chance(1, 40) ? '\n' : 33 + r.below(94)); }
  if (o.nul && r.chance(1, 20)) s.insert(s.begin() + long(r.below(s.size() + 1)), '\0');
  if (!o.nul) { string q; for (char ch : s) if (ch) q += ch; s = q; }
  return s;
}
inline string gkey(Rng & r, Opt const & o = Opt()) {
  if (r.chance(1, 12)) { string s = r.chance(1, 2) ? "the_same_long_beginning_of_several_keys_" : "0123456789abcdef"; s += char('0' + r.below(4)); if (r.chance(1, 3)) s += r.chance(1, 2) ? "_end" : "."; return s; }
  if (r.chance(1, 2)) { static const char * k[] = {"a", "b", "c", "key", "K1", "x y", "data", "ab", "abc", "z", "headers", "1", "10", "", "A"}; return k[r.below(sizeof k / sizeof *k)]; }
  return gstr(r, o);
}
// sizes around the thresholds at which an implementation may switch its method
inline unsigned gbig(Rng & r) {
  static const unsigned k[] = {8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 51, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257};
  static const unsigned h[] = {300, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 2049, 4095, 4096, 4097, 5000};
  return r.chance(1, 30) ? h[r.below(sizeof h / sizeof *h)] : k[r.below(sizeof k / sizeof *k)];
}
inline unsigned gsize(Rng & r, Opt const & o) {
  unsigned lo = o.empties ? 0 : 1;
  switch (r.below(8)) {
  case 0: return lo;
  case 1: return 1;
  case 2: return 2;
  case 3: return 3;
  case 7: return o.bigvec && r.chance(1, 3) ? gbig(r) : 4;
  default: return lo + unsigned(r.below(7));
  }
}
inline void * gptr(Rng & r) {
  static char dummy[64];
  switch (r.below(4)) { case 0: return nullptr; case 1: return dummy + r.below(64); case 2: return reinterpret_cast<void *>(uintptr_t(r.next())); default: return reinterpret_cast<void *>(uintptr_t(r.below(16))); }
}

inline Value gvalue(Rng & r, Opt const & o, int depth = 0);
inline Value ghuge(Rng & r, Opt const & o, T t) {
  static const unsigned k[] = {32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000};
  unsigned n; do n = k[r.below(t >= T::VECTOR && r.chance(3, 4) ? 3 : 8)]; while (n > o.huge_max);
  Opt q = o; q.max_depth = 0; q.bigvec = false; q.huge = 0;
  Value v = mk(t);
  auto fill = [&](auto & x, auto f) { using X = typename std::decay_t<decltype(x)>::value_type; std::vector<X> base; for (int j = 0; j < 61; ++j) base.push_back(f()); for (unsigned j = 0; j < n; ++j) x.push_back(base[(j + j / 61) % 61]); x[n - 1] = f(); };
  if (is_mat(t)) { if (r.chance(1, 2)) { v.nr = n; v.nc = 1; } else { v.nr = 1; v.nc = n; } }
  auto longs = [&] { string s(n, 'x'); for (unsigned j = 0; j < n; j += 1 + unsigned(r.below(997))) s[j] = char('0' + r.below(10)); s[n - 1] = char('a' + r.below(26)); return s; };
  switch (t) {
  case T::STRING: v.s = longs(); break;
  case T::VEC_POINTER: fill(v.vp, [&] { return gptr(r); }); break;
  case T::VEC_BOOL: for (unsigned j = 0; j < n; ++j) v.vb.push_back(r.chance(1, 2)); break;
  case T::VEC_INTEGER: case T::MAT_INTEGER: fill(v.vi, [&] { return gint(r); }); break;
  case T::VEC_LONG: case T::MAT_LONG: fill(v.vl, [&] { return glong(r); }); break;
  case T::VEC_REAL: case T::MAT_REAL: fill(v.vr, [&] { return greal(r, q); }); break;
  case T::VEC_COMPLEX: case T::MAT_COMPLEX: fill(v.vc, [&] { return gcplx(r, q); }); break;
  case T::VEC_STRING: if (r.chance(1, 2)) v.vs = {gstr(r, q), longs(), "z"}; else for (unsigned j = 0; j < n; ++j) v.vs.push_back(j % 100 ? string(1, char('a' + j % 26)) : std::to_string(j)); break;
  case T::VECTOR: for (unsigned j = 0; j < n; ++j) v.v.push_back(j % 1000 == 7 ? S(std::to_string(j)) : I(int32_t(j))); break;
  default: if (r.chance(1, 2)) { v.m[longs()] = I(gint(r)); v.m["k"] = S(gstr(r, q)); } else for (unsigned j = 0; j < n; ++j) v.m["k" + std::to_string(j)] = I(int32_t(j)); break;
  }
  return v;
}
inline Value gtyped(Rng & r, T t, Opt const & o, int depth = 0) {
  if (o.huge && depth == 0 && t >= T::STRING && r.chance(1, o.huge)) return ghuge(r, o, t);
  Value v; v.t = t;
  unsigned n = gsize(r, o);
  auto shape = [&] {
    v.nr = unsigned(r.below(5)); v.nc = unsigned(r.below(5));
    if (!o.empties) { v.nr++; v.nc++; }
    if (r.chance(1, 30)) v.nr += unsigned(r.below(20));
    if (r.chance(1, 30)) v.nc += unsigned(r.below(20));
    if (r.chance(1, 12)) { (r.chance(1, 2) ? v.nr : v.nc) = 1; }
    if (o.bigvec && r.chance(1, 150)) { v.nr = 20 + unsigned(r.below(50)); v.nc = 20 + unsigned(r.below(50)); }
    else if (o.bigvec && r.chance(1, 100)) { static const unsigned k[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 500, 513, 1000, 1025}; (r.chance(1, 2) ? v.nr : v.nc) = k[r.below(r.chance(1, 3) ? 14 : 10)]; if (v.nr > v.nc) v.nc = std::min(v.nc, 3u); else v.nr = std::min(v.nr, 3u); }
    n = v.nr * v.nc;
  };
  switch (t) {
  case T::NOTYPE: break;
  case T::POINTER: v.p = gptr(r); break;
  case T::BOOL: v.b = r.chance(1, 2); break;
  case T::INTEGER: v.i = gint(r); break;
  case T::LONG: v.l = glong(r); break;
  case T::REAL: v.r = greal(r, o); break;
  case T::COMPLEX: v.c = gcplx(r, o); break;
  case T::STRING: v.s = gstr(r, o); break;
  case T::VEC_POINTER: for (unsigned k = 0; k < n; ++k) v.vp.push_back(gptr(r)); break;
  case T::VEC_BOOL: for (unsigned k = 0; k < n; ++k) v.vb.push_back(r.chance(1, 2)); break;
  case T::MAT_INTEGER: shape(); // fallthrough
    [[fallthrough]];
  case T::VEC_INTEGER: for (unsigned k = 0; k < n; ++k) v.vi.push_back(gint(r)); break;
  case T::MAT_LONG: shape();
    [[fallthrough]];
  case T::VEC_LONG: for (unsigned k = 0; k < n; ++k) v.vl.push_back(glong(r)); break;
  case T::MAT_REAL: shape();
    [[fallthrough]];
  case T::VEC_REAL: for (unsigned k = 0; k < n; ++k) v.vr.push_back(greal(r, o)); break;
  case T::MAT_COMPLEX: shape();
    [[fallthrough]];
  case T::VEC_COMPLEX: for (unsigned k = 0; k < n; ++k) v.vc.push_back(gcplx(r, o)); break;
  case T::VEC_STRING: for (unsigned k = 0; k < n; ++k) v.vs.push_back(gstr(r, o)); break;
  case T::VECTOR: if (o.bigvec && depth < 2 && r.chance(1, 40)) { Opt q = o; q.max_depth = 0; q.bigvec = false; n = std::min(gbig(r), 300u); for (unsigned k = 0; k < n; ++k) v.v.push_back(gvalue(r, q, 1)); break; }
    { n = (o.empties ? 0 : 1) + unsigned(r.below(o.max_kids)); if (depth < 2 && r.chance(1, 8)) n += unsigned(r.below(10)); for (unsigned k = 0; k < n; ++k) v.v.push_back(gvalue(r, o, depth + 1)); break; }
  case T::MAP: if (o.bigvec && depth < 2 && r.chance(1, 40)) { Opt q = o; q.max_depth = 0; q.bigvec = false; n = std::min(gbig(r), 300u); for (unsigned k = 0; k < n; ++k) v.m[r.chance(1, 3) ? gkey(r, q) : "k" + std::to_string(k)] = gvalue(r, q, 1); break; }
    { n = (o.empties ? 0 : 1) + unsigned(r.below(o.max_kids)); if (depth < 2 && r.chance(1, 8)) n += unsigned(r.below(10)); for (unsigned k = 0; k < n; ++k) v.m[gkey(r, o)] = gvalue(r, o, depth + 1); break; }
  }
  return v;
}
inline bool allowed(T t, Opt const & o) {
  if (t == T::NOTYPE) return o.notype;
  if (t == T::POINTER || t == T::VEC_POINTER) return o.pointers;
  if (t == T::COMPLEX || t == T::VEC_COMPLEX || t == T::MAT_COMPLEX) { if (!o.complexes) return false; }
  if (is_mat(t)) return o.mats;
  if (t == T::VECTOR) return o.vectors;
  if (t == T::MAP) return o.maps;
  return true;
}
inline T gtype(Rng & r, Opt const & o, bool nest) {
  for (;;) {
    T t;
    if (nest && r.chance(1, 4)) t = r.chance(1, 2) ? T::MAP : T::VECTOR;
    else t = T(r.below(NT));
    if (!nest && (t == T::MAP || t == T::VECTOR)) continue;
    if (allowed(t, o)) return t;
  }
}
inline unsigned glevels(Rng & r) { static const unsigned k[] = {8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 128}; return k[r.below(sizeof k / sizeof *k)]; } // depths of a chain
inline Value gvalue(Rng & r, Opt const & o, int depth) {
  if (o.deep && depth == 0 && o.maps && o.vectors && r.chance(1, 300)) {
    unsigned n = glevels(r); Opt q = o; q.max_depth = 1; Value v = gvalue(r, q, 1);
    while (n--) { Value w; if (r.chance(1, 2)) { w.t = T::MAP; w.m[gkey(r, q)] = v; if (r.chance(1, 3)) w.m["s" + std::to_string(n)] = gvalue(r, q, 1); } else { w.t = T::VECTOR; if (r.chance(1, 3)) w.v.push_back(gvalue(r, q, 1)); w.v.push_back(v); } v = std::move(w); }
    return v;
  }
  return gtyped(r, gtype(r, o, depth < o.max_depth), o, depth); }
} // namespace G
