// C25: values crossing to MATLAB and back, over a stand-in MATLAB runtime (mex/).
#include "gen.hh"
#include <GenericContainer/GenericContainerInterface_matlab.hh>
#include <iostream>
using namespace G;
namespace H {
char const * PROPERTY = "C25";
char const * RULE = "one case = 1..6 conversions over a stand-in MATLAB runtime whose arrays are exactly sized heap blocks: a random container tree becomes a MATLAB array whose class, dimensions, field names and every entry are compared with the model; a random MATLAB array (all numeric classes and complexities, logical, char, string objects, cells with unset elements, structs and struct arrays, sparse, foreign classes) becomes a container (over random old contents) compared with an independently computed tree; round trips; typed conversions; printing. Non-trivial: at least one conversion compared; distinct by the values.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 400000 : 40000; }
void monitor_setup() { std::cout.rdbuf(nullptr); }
}
using GC_namespace::mxArray_to_GenericContainer;
using GC_namespace::GenericContainer_to_mxArray;
extern "C" void mf_mex_test_gc(int, mxArray * [], int, mxArray const * []);
extern "C" void mf_mex_print_recursive(int, mxArray * [], int, mxArray const * []);

static string dimstr(mxArray const * m) { string o; for (mwSize k = 0; k < mxGetNumberOfDimensions(m); ++k) o += (k ? "x" : "") + std::to_string(mxGetDimensions(m)[k]); return o; }
static string text_of(mxArray const * m) { return mxsim::to_utf8(std::u16string(mxGetChars(m), mxGetNumberOfElements(m))); }

// ---- container -> MATLAB: "" or the first difference
static string cmp(mxArray const * m, Value const & v, string const & path, bool column) {
  if (!m) return path + ": no array for " + show(v, 100);
  auto bad = [&](string const & s) { return path + ": " + s + " for " + show(v, 200) + " (" + mxGetClassName(m) + " " + dimstr(m) + ")"; };
  auto shape = [&](mxClassID cls, size_t a, size_t b, bool cx) -> string {
    if (mxGetClassID(m) != cls) return bad("wrong class");
    if (mxGetNumberOfDimensions(m) != 2 || mxGetM(m) != a || mxGetN(m) != b) return bad("wrong dimensions");
    if (mxIsComplex(m) != cx) return bad("wrong complexity");
    if (mxIsSparse(m)) return bad("sparse");
    return "";
  };
  auto entries = [&](auto const & x, auto get) -> string { for (size_t k = 0; k < x.size(); ++k) if (!get(k, x[k])) return bad("entry " + std::to_string(k) + " differs"); return ""; };
  auto i64 = [&](size_t k, int64_t x) { return static_cast<int64_t *>(mxGetData(m))[k] == x; };
  auto i32 = [&](size_t k, int64_t x) { return static_cast<int32_t *>(mxGetData(m))[k] == x; };
  auto f64 = [&](size_t k, double x) { return beq(mxGetPr(m)[k], x); };
  auto c64 = [&](size_t k, cplx x) { return beq(mxGetPr(m)[k], x.real()) && beq(mxGetPi(m)[k], x.imag()); };
  auto str = [&](mxArray const * q, string const & s) { return q && mxGetClassID(q) == mxCHAR_CLASS && mxGetM(q) <= 1 && text_of(q) == s; };
  size_t n = count_of(v), a = column ? n : 1, b = column ? 1 : n; string s;
  switch (v.t) {
  case T::NOTYPE: case T::POINTER: case T::VEC_POINTER: if (mxGetClassID(m) != mxDOUBLE_CLASS || mxGetNumberOfElements(m)) return bad("not an empty array"); return "";
  case T::BOOL: s = shape(mxLOGICAL_CLASS, 1, 1, false); return !s.empty() ? s : *mxGetLogicals(m) == v.b ? "" : bad("wrong value");
  case T::INTEGER: s = shape(mxINT64_CLASS, 1, 1, false); return !s.empty() ? s : i64(0, v.i) ? "" : bad("wrong value");
  case T::LONG: s = shape(mxINT64_CLASS, 1, 1, false); return !s.empty() ? s : i64(0, v.l) ? "" : bad("wrong value");
  case T::REAL: s = shape(mxDOUBLE_CLASS, 1, 1, false); return !s.empty() ? s : f64(0, v.r) ? "" : bad("wrong value");
  case T::COMPLEX: s = shape(mxDOUBLE_CLASS, 1, 1, true); return !s.empty() ? s : c64(0, v.c) ? "" : bad("wrong value");
  case T::STRING: return str(m, v.s) ? "" : bad("wrong text");
  case T::VEC_BOOL: s = shape(mxLOGICAL_CLASS, a, b, false); return !s.empty() ? s : entries(v.vb, [&](size_t k, bool x) { return mxGetLogicals(m)[k] == x; });
  case T::VEC_INTEGER: s = shape(column ? mxINT32_CLASS : mxINT64_CLASS, a, b, false); return !s.empty() ? s : column ? entries(v.vi, i32) : entries(v.vi, i64);
  case T::VEC_LONG: s = shape(mxINT64_CLASS, a, b, false); return !s.empty() ? s : entries(v.vl, i64);
  case T::VEC_REAL: s = shape(mxDOUBLE_CLASS, a, b, false); return !s.empty() ? s : entries(v.vr, f64);
  case T::VEC_COMPLEX: s = shape(mxDOUBLE_CLASS, a, b, true); return !s.empty() ? s : entries(v.vc, c64);
  case T::VEC_STRING: s = shape(mxCELL_CLASS, a, b, false); return !s.empty() ? s : entries(v.vs, [&](size_t k, string const & x) { return str(mxGetCell(m, k), x); });
  case T::MAT_INTEGER: s = shape(mxINT32_CLASS, v.nr, v.nc, false); return !s.empty() ? s : entries(v.vi, i32);
  case T::MAT_LONG: s = shape(mxINT64_CLASS, v.nr, v.nc, false); return !s.empty() ? s : entries(v.vl, i64);
  case T::MAT_REAL: s = shape(mxDOUBLE_CLASS, v.nr, v.nc, false); return !s.empty() ? s : entries(v.vr, f64);
  case T::MAT_COMPLEX: s = shape(mxDOUBLE_CLASS, v.nr, v.nc, true); return !s.empty() ? s : entries(v.vc, c64);
  case T::VECTOR: s = shape(mxCELL_CLASS, a, b, false); for (size_t k = 0; s.empty() && k < n; ++k) s = cmp(mxGetCell(m, k), v.v[k], path + "{" + std::to_string(k) + "}", false); return s;
  case T::MAP: {
    s = shape(mxSTRUCT_CLASS, 1, 1, false); if (!s.empty()) return s;
    if (mxGetNumberOfFields(m) != int(n)) return bad("wrong number of fields " + std::to_string(mxGetNumberOfFields(m)));
    std::map<string, int> at; for (int k = 0; k < int(n); ++k) at[mxGetFieldNameByNumber(m, k)] = k;
    for (auto & kv : v.m) { int f = at.count(kv.first) ? at[kv.first] : -1; if (f < 0) return bad("no field " + quote(kv.first)); s = cmp(mxGetFieldByNumber(m, 0, f), kv.second, path + "." + kv.first, false); if (!s.empty()) return s; }
    return ""; }
  }
  return bad("?");
}

// ---- MATLAB -> container: a random array together with what it must become
struct Made { mxArray * mx = nullptr; Value v; };
static std::u16string gtext(Rng & r) { Opt o; o.utf8 = true; o.nul = false; string s; bool good; std::u16string u; do { s = gstr(r, o); u = mxsim::to_utf16(s, &good); } while (!good); if (r.chance(1, 6)) { unsigned n = unsigned(r.below(6)); u.clear(); while (n--) u += char16_t(r.chance(1, 2) ? 0x20AC : 0x65E5 + r.below(50)); } return u; }
template <class X> static X gnum(Rng & r) {
  if constexpr (std::is_same_v<X, double>) return greal(r);
  else if constexpr (std::is_same_v<X, float>) { float f; uint32_t u = uint32_t(r.next()); if (r.chance(1, 3)) { std::memcpy(&f, &u, 4); return f; } return float(r.range(-1000, 1000)) / 8; }
  else if (r.chance(1, 3)) { static const X k[] = {0, 1, std::numeric_limits<X>::max(), std::numeric_limits<X>::min(), X(std::numeric_limits<X>::max() - 1), X(std::numeric_limits<X>::max() / 2), X(std::numeric_limits<X>::max() / 2 + 1)}; return k[r.below(7)]; }
  else return X(r.next());
}
static vector<mwSize> gdims(Rng & r) {
  switch (r.below(10)) {
  case 0: case 1: return {1, 1};
  case 2: return {1, r.below(6)};
  case 3: return {r.below(6), 1};
  case 4: return {0, 0};
  case 5: if (r.chance(1, 10)) return {1, gbig(r)}; return {r.below(4), 0};
  case 6: if (r.chance(1, 10)) return {gbig(r), 1 + r.below(3)}; return {1, 2 + r.below(9)};
  default: return {r.below(5), r.below(5)};
  }
}
template <class X> static Made gnumeric(Rng & r, mxClassID cls) {
  Made o; bool cx = r.chance(1, 4); vector<mwSize> d = gdims(r); o.mx = mxCreateNumericArray(2, d.data(), cls, cx ? mxCOMPLEX : mxREAL); size_t n = d[0] * d[1];
  vector<X> re(n), im(n); X lim = std::is_same_v<X, uint64_t> && !cx ? X(INT64_MAX) : std::numeric_limits<X>::max();
  for (size_t k = 0; k < n; ++k) { do re[k] = gnum<X>(r); while (std::is_same_v<X, uint64_t> && re[k] > lim); im[k] = gnum<X>(r); static_cast<X *>(mxGetData(o.mx))[k] = re[k]; if (cx) static_cast<X *>(mxGetImagData(o.mx))[k] = im[k]; }
  constexpr bool flt = std::is_floating_point_v<X>, small = !flt && (sizeof(X) < 4 || std::is_same_v<X, int32_t>);
  Value & v = o.v; bool row = d[0] == 1; v.nr = v.nc = 0;
  auto kind = [&](T s, T vec, T mat) { v.t = n == 1 ? s : row ? vec : mat; if (v.t == mat) { v.nr = unsigned(d[0]); v.nc = unsigned(d[1]); } };
  if (cx) { kind(T::COMPLEX, T::VEC_COMPLEX, T::MAT_COMPLEX); for (size_t k = 0; k < n; ++k) v.vc.push_back(cplx(double(re[k]), double(im[k]))); if (n == 1) { v.c = v.vc[0]; v.vc.clear(); } }
  else if (flt) { kind(T::REAL, T::VEC_REAL, T::MAT_REAL); for (size_t k = 0; k < n; ++k) v.vr.push_back(double(re[k])); if (n == 1) { v.r = v.vr[0]; v.vr.clear(); } }
  else if (small) { kind(T::INTEGER, T::VEC_INTEGER, T::MAT_INTEGER); for (size_t k = 0; k < n; ++k) v.vi.push_back(int32_t(re[k])); if (n == 1) { v.i = v.vi[0]; v.vi.clear(); } }
  else { kind(T::LONG, T::VEC_LONG, T::MAT_LONG); for (size_t k = 0; k < n; ++k) v.vl.push_back(int64_t(re[k])); if (n == 1) { v.l = v.vl[0]; v.vl.clear(); } }
  return o;
}
static Made gmx(Rng & r, int depth) {
  Made o;
  switch (r.below(depth < 3 ? 24 : 18)) {
  case 0: return gnumeric<int8_t>(r, mxINT8_CLASS);
  case 1: return gnumeric<uint8_t>(r, mxUINT8_CLASS);
  case 2: return gnumeric<int16_t>(r, mxINT16_CLASS);
  case 3: return gnumeric<uint16_t>(r, mxUINT16_CLASS);
  case 4: return gnumeric<int32_t>(r, mxINT32_CLASS);
  case 5: return gnumeric<uint32_t>(r, mxUINT32_CLASS);
  case 6: return gnumeric<int64_t>(r, mxINT64_CLASS);
  case 7: return gnumeric<uint64_t>(r, mxUINT64_CLASS);
  case 8: return gnumeric<float>(r, mxSINGLE_CLASS);
  case 9: case 10: return gnumeric<double>(r, mxDOUBLE_CLASS);
  case 11: case 12: { // logical
    vector<mwSize> d = gdims(r); if (r.chance(1, 8)) d.push_back(1 + r.below(3)); o.mx = mxCreateLogicalArray(d.size(), d.data()); size_t n = mxGetNumberOfElements(o.mx);
    vector<Value> e; for (size_t k = 0; k < n; ++k) { bool b = r.chance(1, 2); mxGetLogicals(o.mx)[k] = b; e.push_back(B(b)); }
    o.v = n == 1 ? e[0] : VV(e); return o; }
  case 13: case 14: { // text
    std::u16string u = gtext(r); size_t n = u.size(); o.v = S(mxsim::to_utf8(u)); bool tall = n > 1 && n % 2 == 0 && r.chance(1, 6); if (tall) for (char16_t ch : u) if (ch >= 0xD800 && ch < 0xE000) tall = false;
    o.mx = mxsim::chars(tall ? vector<mwSize>{2, n / 2} : vector<mwSize>{mwSize(n ? 1 : 0), n}, u); return o; }
  case 15: { std::u16string u = gtext(r); o.v = S(mxsim::to_utf8(u)); o.mx = mxsim::string_object(u); return o; }
  case 16: { // sparse
    size_t m = r.below(6), nc = r.below(6); bool big = r.chance(1, 20); if (big) { m = 1 + r.below(40); nc = 1 + r.below(60); }
    vector<mwIndex> jc(1, 0), ir; for (size_t j = 0; j < nc; ++j) { for (size_t i = 0; i < m; ++i) if (r.chance(1, 3)) ir.push_back(i); jc.push_back(ir.size()); }
    bool lg = r.chance(1, 4), cx = !lg && r.chance(1, 3); size_t nz = ir.size(); o.mx = mxsim::sparse(lg ? mxLOGICAL_CLASS : mxDOUBLE_CLASS, cx, m, jc, ir, nz + (r.chance(1, 3) ? r.below(4) : nz ? 0 : 1));
    o.v = mk(T::MAP); vector<double> re; vector<cplx> cv; vector<int32_t> ji, ii;
    for (size_t k = 0; k < nz; ++k) { double x = greal(r), y = greal(r); if (lg) { mxGetLogicals(o.mx)[k] = true; x = 1; } else { mxGetPr(o.mx)[k] = x; if (cx) mxGetPi(o.mx)[k] = y; } re.push_back(x); cv.push_back(cplx(x, y)); ii.push_back(int32_t(ir[k])); }
    for (auto x : jc) ji.push_back(int32_t(x));
    o.v.m["jc"] = VI(ji); o.v.m["ir"] = VI(ii); o.v.m["values"] = cx ? VC(cv) : VR(re); return o; }
  case 17: { static const mxClassID k[] = {mxFUNCTION_CLASS, mxOPAQUE_CLASS, mxOBJECT_CLASS, mxUNKNOWN_CLASS, mxVOID_CLASS}; o.mx = mxsim::other(k[r.below(5)]); return o; }
  case 18: case 19: case 20: { // cells
    vector<mwSize> d = r.chance(1, 2) ? vector<mwSize>{1, r.below(6)} : gdims(r); if (d[0] * d[1] > 40) d = {1, 3}; if (r.chance(1, 8)) d.push_back(1 + r.below(3));
    o.mx = mxCreateCellArray(d.size(), d.data()); o.v = mk(T::VECTOR); size_t n = mxGetNumberOfElements(o.mx);
    for (size_t k = 0; k < n; ++k) { if (r.chance(1, 8)) { o.v.v.push_back(mk(T::NOTYPE)); continue; } Made e = gmx(r, depth + 1); mxSetCell(o.mx, k, e.mx); o.v.v.push_back(e.v); }
    return o; }
  default: { // structs and struct arrays
    vector<string> names; std::set<string> seen; unsigned nf = unsigned(r.below(6)); if (r.chance(1, 15)) nf += 20; static const char * common[] = {"a", "b", "B", "ab", "data", "x1", "jc", "ir", "values", "A_very_long_field_name_that_has_sixty_three_characters_in_all_0123"};
    while (names.size() < nf) { string s; if (r.chance(1, 2)) s = common[r.below(10)]; else { s += char('a' + r.below(26)); unsigned n = unsigned(r.below(r.chance(1, 6) ? 50 : 6)); while (n--) s += char(r.chance(1, 5) ? '_' : 'a' + r.below(26)); } if (seen.insert(s).second) names.push_back(s); }
    vector<char const *> p; for (auto & s : names) p.push_back(s.c_str());
    p.push_back(nullptr); vector<mwSize> d{1, 1}; if (r.chance(1, 3)) { d = {r.below(4), r.below(4)}; if (r.chance(1, 6)) d.push_back(1 + r.below(2)); }
    o.mx = mxCreateStructArray(d.size(), d.data(), int(names.size()), p.data()); o.v = mk(T::MAP); size_t n = mxGetNumberOfElements(o.mx); bool one = mxGetM(o.mx) == 1 && mxGetN(o.mx) == 1;
    for (size_t f = 0; f < names.size(); ++f) { Value & w = o.v.m[names[f]]; if (!one) w = mk(T::VECTOR);
      for (size_t k = 0; k < n; ++k) { Made e; if (!r.chance(1, 8)) e = gmx(r, depth + 1); if (e.mx) mxSetFieldByNumber(o.mx, k, int(f), e.mx); if (one) w = e.v; else w.v.push_back(e.v); } }
    return o; }
  }
}
// ---- what a MATLAB array made from a container tree becomes when read back
static Value back(Value const & v) {
  Value o; size_t n = count_of(v);
  auto mat = [&](T s, T vec) { if (n == 1) o.t = s; else if (v.nr == 1) { o.t = vec; o.nr = o.nc = 0; } };
  switch (v.t) {
  case T::NOTYPE: case T::POINTER: case T::VEC_POINTER: o = mk(T::MAT_REAL); return o;
  case T::INTEGER: return L(v.i);
  case T::VEC_BOOL: { if (n == 1) return B(v.vb[0]); o = mk(T::VECTOR); for (bool b : v.vb) o.v.push_back(B(b)); return o; }
  case T::VEC_INTEGER: if (n == 1) return L(v.vi[0]); return VL(vector<int64_t>(v.vi.begin(), v.vi.end()));
  case T::VEC_LONG: return n == 1 ? L(v.vl[0]) : v;
  case T::VEC_REAL: return n == 1 ? R(v.vr[0]) : v;
  case T::VEC_COMPLEX: return n == 1 ? C(v.vc[0]) : v;
  case T::VEC_STRING: o = mk(T::VECTOR); for (auto & s : v.vs) o.v.push_back(S(s)); return o;
  case T::MAT_INTEGER: if (n == 1) return I(v.vi[0]); o = v; mat(T::INTEGER, T::VEC_INTEGER); return o;
  case T::MAT_LONG: if (n == 1) return L(v.vl[0]); o = v; mat(T::LONG, T::VEC_LONG); return o;
  case T::MAT_REAL: if (n == 1) return R(v.vr[0]); o = v; mat(T::REAL, T::VEC_REAL); return o;
  case T::MAT_COMPLEX: if (n == 1) return C(v.vc[0]); o = v; mat(T::COMPLEX, T::VEC_COMPLEX); return o;
  case T::VECTOR: o = mk(T::VECTOR); for (auto & x : v.v) o.v.push_back(back(x)); return o;
  case T::MAP: o = mk(T::MAP); for (auto & kv : v.m) o.m[kv.first] = back(kv.second); return o;
  default: return v;
  }
}
static void clean(Value & v) { // texts MATLAB can hold: UTF-8 without zero; keys likewise, not empty, at most 63 bytes
  auto fix = [](string const & s) { string t; for (char ch : s) if (ch) t += ch; return mxsim::to_utf8(mxsim::to_utf16(t)); };
  v.s = fix(v.s); for (auto & s : v.vs) s = fix(s);
  for (auto & x : v.v) clean(x);
  std::map<string, Value> m; for (auto & kv : v.m) { string k = fix(kv.first); if (k.empty()) k = "e"; if (k.size() > 63) k = "long" + std::to_string(k.size()); clean(kv.second); m[k] = kv.second; } v.m.swap(m);
}
struct Reset { ~Reset() { mxsim::reset(); } };
void H::run_case(Ctx & c) {
  Rng & r = c.r; Reset rs; unsigned steps = 1 + unsigned(r.below(6));
  auto nomisuse = [&](string const & what) { REQ(mxsim::misuse.empty(), "misuse", what << ": " << mxsim::misuse); };
  auto dirty = [&](Gc & g) { if (r.chance(1, 2)) { Opt o; o.max_depth = 2; build(g, gvalue(r, o)); } };
  for (unsigned st = 0; st < steps; ++st) {
    Opt o; o.max_depth = 3; o.deep = true; o.huge = 400; o.huge_max = 33000;
    switch (r.below(8)) {
    case 0: case 1: case 2: { // container -> MATLAB (-> container)
      Value v = gvalue(r, o); clean(v); Gc g; build(g, v); c.log("to MATLAB " + show(v, 200)); mxArray * m = nullptr; string w;
      bool t = throws([&] { GenericContainer_to_mxArray(g, m); }, &w); REQ(!t, "refused", "GenericContainer_to_mxArray of " << show(v, 300) << ": " << w); nomisuse("to MATLAB " + show(v, 200));
      REQ(same(observe(g), v), "argument-changed", "the container changed: " << diff(observe(g), v)); string d = cmp(m, v, "$", false); REQ(d.empty(), "arrives-different", d);
      c.mark(hash(v)); c.count("arrays_compared");
      if (r.chance(1, 2)) { Gc b; dirty(b); uint64_t h = mxsim::digest(m); t = throws([&] { mxArray_to_GenericContainer(m, b); }, &w); REQ(!t, "refused", "reading back " << show(v, 300) << ": " << w); nomisuse("reading back " + show(v, 200)); REQ(mxsim::digest(m) == h, "array-changed", "the MATLAB array changed when read");
        Value e = back(v), x = observe(b); d = diff(x, e); REQ(d.empty(), "comes-back-different", "of " << show(v, 300) << ": " << d); c.count("round_trips"); }
      break; }
    case 3: { // typed conversions
      static const T k[] = {T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::STRING, T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX, T::VEC_STRING, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX};
      Value v = gtyped(r, k[r.below(16)], o); clean(v); Gc g; build(g, v); mxArray * m = nullptr; c.log("typed " + show(v, 200)); string w;
      bool t = throws([&] { using GC_namespace::to_mxArray;
        switch (v.t) {
        case T::BOOL: to_mxArray(g.get_bool(), m); break;
        case T::INTEGER: to_mxArray(g.get_int(), m); break;
        case T::LONG: to_mxArray(g.get_long(), m); break;
        case T::REAL: to_mxArray(g.get_real(), m); break;
        case T::COMPLEX: to_mxArray(g.get_complex(), m); break;
        case T::STRING: { vector<char> ex(v.s.begin(), v.s.end()); ex.shrink_to_fit(); to_mxArray(GC_namespace::string_view(ex.data(), ex.size()), m); break; }
        case T::VEC_BOOL: to_mxArray(g.get_vec_bool(), m); break;
        case T::VEC_INTEGER: to_mxArray(g.get_vec_int(), m); break;
        case T::VEC_LONG: to_mxArray(g.get_vec_long(), m); break;
        case T::VEC_REAL: to_mxArray(g.get_vec_real(), m); break;
        case T::VEC_COMPLEX: to_mxArray(g.get_vec_complex(), m); break;
        case T::VEC_STRING: to_mxArray(g.get_vec_string(), m); break;
        case T::MAT_INTEGER: to_mxArray(g.get_mat_int(), m); break;
        case T::MAT_LONG: to_mxArray(g.get_mat_long(), m); break;
        case T::MAT_REAL: to_mxArray(g.get_mat_real(), m); break;
        default: to_mxArray(g.get_mat_complex(), m); break;
        } }, &w);
      REQ(!t, "refused", "to_mxArray of " << show(v, 300) << ": " << w); nomisuse("to_mxArray of " + show(v, 200)); string d = cmp(m, v, "$", true); REQ(d.empty(), "typed-different", d);
      c.mark(hash(v)); c.count("typed_compared"); break; }
    case 4: { // through the mex functions
      Made a = gmx(r, 0); mxArray const * rhs[1] = {a.mx}; mxArray * lhs[1] = {nullptr}; c.log("mex " + show(a.v, 200));
      if (r.chance(1, 2)) { mf_mex_test_gc(1, lhs, 1, rhs); nomisuse("mex_test_gc of " + show(a.v, 200)); string d = cmp(lhs[0], a.v, "$", false); REQ(d.empty(), "mex-different", d); }
      else { string before = mxsim::printed; mf_mex_print_recursive(0, lhs, 1, rhs); nomisuse("mex_print of " + show(a.v, 200)); Gc g; build(g, a.v); std::ostringstream os; g.print(os); string want = os.str() + "\n", got = mxsim::printed.substr(before.size()); REQ(got.size() >= want.size() && got.substr(got.size() - want.size()) == want, "print-different", "printed " << quote(got.substr(0, 300)) << " instead of " << quote(want.substr(0, 300))); }
      c.mark(hash(a.v)); c.count("mex_calls"); break; }
    default: { // MATLAB -> container
      Made a = gmx(r, 0); nomisuse("harness"); Gc g; dirty(g); uint64_t h = mxsim::digest(a.mx); c.log("from MATLAB " + show(a.v, 200)); string w;
      bool t = throws([&] { mxArray_to_GenericContainer(a.mx, g); }, &w); REQ(!t, "refused", "mxArray_to_GenericContainer of " << show(a.v, 300) << ": " << w); nomisuse("from MATLAB " + show(a.v, 200));
      REQ(mxsim::digest(a.mx) == h, "array-changed", "the MATLAB array changed"); Value x = observe(g); string d = diff(x, a.v); REQ(d.empty(), "read-different", mxGetClassName(a.mx) << " " << dimstr(a.mx) << (mxIsComplex(a.mx) ? " complex" : "") << ": " << d);
      c.mark(hash(a.v)); c.count("arrays_read"); break; }
    }
  }
}
