#include "mex.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <stdexcept>

struct mxArray_tag {
  mxClassID cls = mxUNKNOWN_CLASS; mwSize nd = 2; mwSize * dims = nullptr;
  bool cplx = false, is_sparse = false, placed = false, strobj = false;
  void * pr = nullptr, * pi = nullptr; mwIndex * ir = nullptr, * jc = nullptr; size_t nzmax = 0;
  mxArray ** kids = nullptr; size_t nkids = 0;
  char ** names = nullptr; int nf = 0;
};
namespace mxsim {
std::string misuse, printed;
static std::set<mxArray *> & arrays() { static std::set<mxArray *> * s = new std::set<mxArray *>; return *s; }
static std::set<void *> & blocks() { static std::set<void *> * s = new std::set<void *>; return *s; }
static void bad(std::string const & s) { if (misuse.empty()) misuse = s; }
static void drop(mxArray * a) {
  std::free(a->dims); std::free(a->pr); std::free(a->pi); std::free(a->ir); std::free(a->jc); std::free(a->kids);
  for (int k = 0; k < a->nf; ++k) std::free(a->names[k]);
  std::free(a->names); delete a;
}
void reset() {
  for (auto * a : arrays()) drop(a);
  arrays().clear();
  for (auto * b : blocks()) std::free(b);
  blocks().clear(); std::string().swap(misuse); std::string().swap(printed);
}
size_t live() { return arrays().size(); }
static bool ok(mxArray const * a, char const * who) { if (!a || !arrays().count(const_cast<mxArray *>(a))) { bad(std::string(who) + " of something that is not an array"); return false; } return true; }
static size_t esize(mxClassID c) {
  switch (c) {
  case mxLOGICAL_CLASS: return sizeof(mxLogical); case mxCHAR_CLASS: return 2; case mxDOUBLE_CLASS: return 8; case mxSINGLE_CLASS: return 4;
  case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxINT64_CLASS: case mxUINT64_CLASS: return 8;
  case mxCELL_CLASS: case mxSTRUCT_CLASS: return sizeof(void *); default: return 0;
  }
}
static size_t numel(mxArray const * a) { size_t n = 1; for (mwSize k = 0; k < a->nd; ++k) n *= a->dims[k]; return n; }
static mxArray * make(mxClassID c, mwSize nd, mwSize const * dims, bool cplx) {
  auto * a = new mxArray_tag; arrays().insert(a); a->cls = c; a->cplx = cplx;
  std::vector<mwSize> d(dims, dims + nd); while (d.size() < 2) d.push_back(1);
  while (d.size() > 2 && d.back() == 1) d.pop_back();
  a->nd = d.size(); a->dims = static_cast<mwSize *>(std::malloc(d.size() * sizeof(mwSize))); std::memcpy(a->dims, d.data(), d.size() * sizeof(mwSize));
  size_t n = numel(a), es = esize(c);
  if (c == mxCELL_CLASS) { a->nkids = n; a->kids = static_cast<mxArray **>(std::calloc(n ? n : 1, sizeof(void *))); }
  else if (es) { // zero-filled, as MATLAB does; the blocks have exactly the size of the data
    a->pr = std::malloc(n * es); if (n) std::memset(a->pr, 0, n * es);
    if (cplx) { a->pi = std::malloc(n * es); if (n) std::memset(a->pi, 0, n * es); }
  }
  return a;
}
std::string to_utf8(std::u16string const & s) {
  std::string o;
  for (size_t k = 0; k < s.size(); ++k) {
    uint32_t x = s[k];
    if (x >= 0xD800 && x < 0xDC00 && k + 1 < s.size() && s[k + 1] >= 0xDC00 && s[k + 1] < 0xE000) { x = 0x10000 + ((x - 0xD800) << 10) + (s[k + 1] - 0xDC00); ++k; }
    if (x < 0x80) o += char(x);
    else if (x < 0x800) { o += char(0xC0 | (x >> 6)); o += char(0x80 | (x & 63)); }
    else if (x < 0x10000) { o += char(0xE0 | (x >> 12)); o += char(0x80 | ((x >> 6) & 63)); o += char(0x80 | (x & 63)); }
    else { o += char(0xF0 | (x >> 18)); o += char(0x80 | ((x >> 12) & 63)); o += char(0x80 | ((x >> 6) & 63)); o += char(0x80 | (x & 63)); }
  }
  return o;
}
std::u16string to_utf16(std::string const & s, bool * okp) {
  std::u16string o; bool good = true;
  for (size_t k = 0; k < s.size();) {
    unsigned char c = static_cast<unsigned char>(s[k]); int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
    if (n < 0 || k + size_t(n) >= s.size() + (n == 0 ? 1 : 0)) { o += char16_t(0xFFFD); good = false; ++k; continue; }
    uint32_t x = n == 0 ? c : n == 1 ? c & 31u : n == 2 ? c & 15u : c & 7u; bool b = true;
    for (int j = 1; j <= n; ++j) { unsigned char d = static_cast<unsigned char>(s[k + size_t(j)]); if ((d & 0xC0) != 0x80) b = false; x = (x << 6) | (d & 63u); }
    if (!b || (n == 2 && (x < 0x800 || (x >= 0xD800 && x < 0xE000))) || (n == 3 && (x < 0x10000 || x > 0x10FFFF))) { o += char16_t(0xFFFD); good = false; ++k; continue; }
    if (x >= 0x10000) { o += char16_t(0xD800 + ((x - 0x10000) >> 10)); o += char16_t(0xDC00 + ((x - 0x10000) & 0x3FF)); } else o += char16_t(x);
    k += size_t(n) + 1;
  }
  if (okp) *okp = good;
  return o;
}
mxArray * chars(std::vector<mwSize> const & d, std::u16string const & s) { mxArray * a = make(mxCHAR_CLASS, d.size(), d.data(), false); if (!s.empty()) std::memcpy(a->pr, s.data(), 2 * s.size()); return a; }
mxArray * string_object(std::u16string const & s) { mwSize d[2] = {1, 1}; mxArray * a = make(mxOBJECT_CLASS, 2, d, false); a->strobj = true; a->nzmax = s.size(); a->pr = std::malloc(2 * s.size()); if (!s.empty()) std::memcpy(a->pr, s.data(), 2 * s.size()); return a; }
mxArray * other(mxClassID c) { mwSize d[2] = {1, 1}; return make(c, 2, d, false); }
mxArray * sparse(mxClassID c, bool cplx, size_t m, std::vector<mwIndex> const & jc, std::vector<mwIndex> const & ir, size_t nzmax) {
  mwSize d0[2] = {0, 0}; mxArray * a = make(c, 2, d0, false); std::free(a->pr); a->cplx = cplx; a->is_sparse = true; a->dims[0] = m; a->dims[1] = jc.size() - 1; a->nzmax = nzmax;
  a->jc = static_cast<mwIndex *>(std::malloc(jc.size() * sizeof(mwIndex))); std::memcpy(a->jc, jc.data(), jc.size() * sizeof(mwIndex));
  a->ir = static_cast<mwIndex *>(std::calloc(nzmax ? nzmax : 1, sizeof(mwIndex))); for (size_t k = 0; k < ir.size(); ++k) a->ir[k] = ir[k];
  size_t es = esize(c); a->pr = std::calloc(nzmax ? nzmax : 1, es); if (cplx) a->pi = std::calloc(nzmax ? nzmax : 1, es);
  return a;
}
uint64_t digest(mxArray const * a) {
  uint64_t h = 1469598103934665603ull;
  auto add = [&](void const * p, size_t n) { auto q = static_cast<unsigned char const *>(p); for (size_t k = 0; k < n; ++k) h = (h ^ q[k]) * 1099511628211ull; };
  if (!a) return 7;
  add(&a->cls, sizeof a->cls); add(a->dims, a->nd * sizeof(mwSize)); add(&a->cplx, 1);
  size_t n = a->is_sparse ? a->nzmax : a->strobj ? a->nzmax : numel(a), es = a->strobj ? 2 : esize(a->cls);
  if (a->pr) add(a->pr, n * es);
  if (a->pi) add(a->pi, n * es);
  if (a->jc) add(a->jc, (a->dims[1] + 1) * sizeof(mwIndex));
  if (a->ir) add(a->ir, a->nzmax * sizeof(mwIndex));
  for (int k = 0; k < a->nf; ++k) add(a->names[k], std::strlen(a->names[k]) + 1);
  for (size_t k = 0; k < a->nkids; ++k) { uint64_t x = digest(a->kids[k]); add(&x, 8); }
  return h;
}
} // namespace mxsim
using namespace mxsim;

mxClassID mxGetClassID(mxArray const * a) { return ok(a, "mxGetClassID") ? a->strobj ? mxUNKNOWN_CLASS : a->cls : mxUNKNOWN_CLASS; }
char const * mxGetClassName(mxArray const * a) {
  if (!ok(a, "mxGetClassName")) return "";
  if (a->strobj) return "string";
  static char const * n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle", "opaque", "object"};
  return n[a->cls];
}
bool mxIsClass(mxArray const * a, char const * n) { return !std::strcmp(mxGetClassName(a), n); }
bool mxIsComplex(mxArray const * a) { return ok(a, "mxIsComplex") && a->cplx; }
bool mxIsSparse(mxArray const * a) { return ok(a, "mxIsSparse") && a->is_sparse; }
bool mxIsEmpty(mxArray const * a) { return mxGetNumberOfElements(a) == 0; }
bool mxIsNumeric(mxArray const * a) { return ok(a, "mxIsNumeric") && a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
#define IS(N, C) bool N(mxArray const * a) { return ok(a, #N) && a->cls == C; }
IS(mxIsCell, mxCELL_CLASS) IS(mxIsStruct, mxSTRUCT_CLASS) IS(mxIsChar, mxCHAR_CLASS) IS(mxIsLogical, mxLOGICAL_CLASS) IS(mxIsDouble, mxDOUBLE_CLASS) IS(mxIsSingle, mxSINGLE_CLASS)
IS(mxIsInt8, mxINT8_CLASS) IS(mxIsUint8, mxUINT8_CLASS) IS(mxIsInt16, mxINT16_CLASS) IS(mxIsUint16, mxUINT16_CLASS) IS(mxIsInt32, mxINT32_CLASS) IS(mxIsUint32, mxUINT32_CLASS) IS(mxIsInt64, mxINT64_CLASS) IS(mxIsUint64, mxUINT64_CLASS)
bool mxIsScalar(mxArray const * a) { return ok(a, "mxIsScalar") && numel(a) == 1; }
bool mxIsLogicalScalar(mxArray const * a) { return mxIsLogical(a) && numel(a) == 1; }
bool mxIsLogicalScalarTrue(mxArray const * a) { return mxIsLogicalScalar(a) && (a->is_sparse ? a->jc[1] > 0 : true) && *static_cast<mxLogical const *>(a->pr); }

mwSize mxGetNumberOfDimensions(mxArray const * a) { return ok(a, "mxGetNumberOfDimensions") ? a->nd : 0; }
mwSize const * mxGetDimensions(mxArray const * a) { return ok(a, "mxGetDimensions") ? a->dims : nullptr; }
size_t mxGetNumberOfElements(mxArray const * a) { return ok(a, "mxGetNumberOfElements") ? numel(a) : 0; }
size_t mxGetM(mxArray const * a) { return ok(a, "mxGetM") ? a->dims[0] : 0; }
size_t mxGetN(mxArray const * a) { if (!ok(a, "mxGetN")) return 0; size_t n = 1; for (mwSize k = 1; k < a->nd; ++k) n *= a->dims[k]; return n; }
size_t mxGetElementSize(mxArray const * a) { return ok(a, "mxGetElementSize") ? esize(a->cls) : 0; }
mwSize mxGetNzmax(mxArray const * a) { return ok(a, "mxGetNzmax") ? a->nzmax : 0; }

void * mxGetData(mxArray const * a) { return ok(a, "mxGetData") ? a->pr : nullptr; }
void * mxGetImagData(mxArray const * a) { return ok(a, "mxGetImagData") ? a->pi : nullptr; }
double * mxGetPr(mxArray const * a) { return static_cast<double *>(mxGetData(a)); }
double * mxGetPi(mxArray const * a) { return static_cast<double *>(mxGetImagData(a)); }
mxLogical * mxGetLogicals(mxArray const * a) { return ok(a, "mxGetLogicals") && a->cls == mxLOGICAL_CLASS ? static_cast<mxLogical *>(a->pr) : nullptr; }
mxChar * mxGetChars(mxArray const * a) { return ok(a, "mxGetChars") && a->cls == mxCHAR_CLASS ? static_cast<mxChar *>(a->pr) : nullptr; }
mwIndex * mxGetIr(mxArray const * a) { return ok(a, "mxGetIr") ? a->ir : nullptr; }
mwIndex * mxGetJc(mxArray const * a) { return ok(a, "mxGetJc") ? a->jc : nullptr; }
double mxGetScalar(mxArray const * a) {
  if (!ok(a, "mxGetScalar") || !a->pr || !numel(a)) { bad("mxGetScalar of an empty array"); return 0; }
  switch (a->cls) {
  case mxDOUBLE_CLASS: return *static_cast<double *>(a->pr); case mxSINGLE_CLASS: return double(*static_cast<float *>(a->pr)); case mxLOGICAL_CLASS: return *static_cast<bool *>(a->pr); case mxCHAR_CLASS: return *static_cast<char16_t *>(a->pr);
  case mxINT8_CLASS: return *static_cast<int8_t *>(a->pr); case mxUINT8_CLASS: return *static_cast<uint8_t *>(a->pr); case mxINT16_CLASS: return *static_cast<int16_t *>(a->pr); case mxUINT16_CLASS: return *static_cast<uint16_t *>(a->pr);
  case mxINT32_CLASS: return *static_cast<int32_t *>(a->pr); case mxUINT32_CLASS: return *static_cast<uint32_t *>(a->pr); case mxINT64_CLASS: return double(*static_cast<int64_t *>(a->pr)); case mxUINT64_CLASS: return double(*static_cast<uint64_t *>(a->pr));
  default: return 0;
  }
}

static bool place(mxArray * kid) { if (!kid) return true; if (!ok(kid, "placing")) return false; if (kid->placed) { bad("an array was placed in two containers"); return false; } kid->placed = true; return true; }
mxArray * mxGetCell(mxArray const * a, mwIndex k) { if (!ok(a, "mxGetCell")) return nullptr; if (a->cls != mxCELL_CLASS || k >= a->nkids) { bad("mxGetCell " + std::to_string(k) + " out of range"); return nullptr; } return a->kids[k]; }
void mxSetCell(mxArray * a, mwIndex k, mxArray * x) { if (!ok(a, "mxSetCell")) return; if (a->cls != mxCELL_CLASS || k >= a->nkids) { bad("mxSetCell " + std::to_string(k) + " out of range"); return; } if (place(x)) a->kids[k] = x; }
int mxGetNumberOfFields(mxArray const * a) { return ok(a, "mxGetNumberOfFields") ? a->nf : 0; }
char const * mxGetFieldNameByNumber(mxArray const * a, int f) { if (!ok(a, "mxGetFieldNameByNumber")) return nullptr; if (f < 0 || f >= a->nf) { bad("field number " + std::to_string(f) + " out of range"); return nullptr; } return a->names[f]; }
int mxGetFieldNumber(mxArray const * a, char const * n) { if (!ok(a, "mxGetFieldNumber")) return -1; for (int k = 0; k < a->nf; ++k) if (!std::strcmp(a->names[k], n)) return k; return -1; }
mxArray * mxGetFieldByNumber(mxArray const * a, mwIndex i, int f) { if (!ok(a, "mxGetFieldByNumber")) return nullptr; if (f < 0 || f >= a->nf || i >= numel(a)) { bad("mxGetFieldByNumber out of range"); return nullptr; } return a->kids[i * size_t(a->nf) + size_t(f)]; }
mxArray * mxGetField(mxArray const * a, mwIndex i, char const * n) { int f = mxGetFieldNumber(a, n); return f < 0 ? nullptr : mxGetFieldByNumber(a, i, f); }
void mxSetFieldByNumber(mxArray * a, mwIndex i, int f, mxArray * x) { if (!ok(a, "mxSetFieldByNumber")) return; if (f < 0 || f >= a->nf || i >= numel(a)) { bad("mxSetFieldByNumber out of range"); return; } if (place(x)) a->kids[i * size_t(a->nf) + size_t(f)] = x; }
void mxSetField(mxArray * a, mwIndex i, char const * n, mxArray * x) { int f = mxGetFieldNumber(a, n); if (f < 0) bad(std::string("mxSetField of the missing field ") + n); else mxSetFieldByNumber(a, i, f, x); }
static char * dup(char const * s) { size_t n = std::strlen(s) + 1; char * p = static_cast<char *>(std::malloc(n)); std::memcpy(p, s, n); return p; }
static void set_names(mxArray * a, int nf, char const ** names) {
  a->nf = nf; a->names = static_cast<char **>(std::calloc(size_t(nf) + 1, sizeof(char *))); a->nkids = numel(a) * size_t(nf); a->kids = static_cast<mxArray **>(std::calloc(a->nkids + 1, sizeof(void *)));
  std::set<std::string> seen;
  for (int k = 0; k < nf; ++k) { if (!names || !names[k]) { bad("a struct with a null field name"); a->names[k] = dup(""); } else a->names[k] = dup(names[k]); if (!seen.insert(a->names[k]).second) bad(std::string("a struct with two fields ") + a->names[k]); }
}
int mxAddField(mxArray * a, char const * n) {
  if (!ok(a, "mxAddField") || a->cls != mxSTRUCT_CLASS || !n) return -1;
  int f = mxGetFieldNumber(a, n); if (f >= 0) return f;
  size_t ne = numel(a); int of = a->nf, nf = of + 1; auto ** nn = static_cast<char **>(std::calloc(size_t(nf) + 1, sizeof(char *))); auto ** nk = static_cast<mxArray **>(std::calloc(ne * size_t(nf) + 1, sizeof(void *)));
  for (int k = 0; k < of; ++k) nn[k] = a->names[k];
  nn[of] = dup(n); for (size_t i = 0; i < ne; ++i) for (int k = 0; k < of; ++k) nk[i * size_t(nf) + size_t(k)] = a->kids[i * size_t(of) + size_t(k)];
  std::free(a->names); std::free(a->kids); a->names = nn; a->kids = nk; a->nf = nf; a->nkids = ne * size_t(nf); return of;
}

mxArray * mxCreateNumericArray(mwSize nd, mwSize const * d, mxClassID c, mxComplexity x) { return make(c, nd, d, x == mxCOMPLEX); }
mxArray * mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) { mwSize d[2] = {m, n}; return make(c, 2, d, x == mxCOMPLEX); }
mxArray * mxCreateUninitNumericArray(size_t nd, size_t * d, mxClassID c, mxComplexity x) { mxArray * a = make(c, nd, d, x == mxCOMPLEX); size_t n = numel(a) * esize(c); if (n) { std::memset(a->pr, 0xBE, n); if (a->pi) std::memset(a->pi, 0xBE, n); } return a; }
mxArray * mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity x) { size_t d[2] = {m, n}; return mxCreateUninitNumericArray(2, d, c, x); }
mxArray * mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, x); }
mxArray * mxCreateDoubleScalar(double v) { mxArray * a = mxCreateDoubleMatrix(1, 1, mxREAL); *static_cast<double *>(a->pr) = v; return a; }
mxArray * mxCreateLogicalMatrix(mwSize m, mwSize n) { return mxCreateNumericMatrix(m, n, mxLOGICAL_CLASS, mxREAL); }
mxArray * mxCreateLogicalArray(mwSize nd, mwSize const * d) { return make(mxLOGICAL_CLASS, nd, d, false); }
mxArray * mxCreateLogicalScalar(mxLogical v) { mxArray * a = mxCreateLogicalMatrix(1, 1); *static_cast<mxLogical *>(a->pr) = v; return a; }
static mxArray * char_row(std::string const & s) { auto u = to_utf16(s); mwSize d[2] = {u.empty() ? mwSize(0) : mwSize(1), u.size()}; return chars({d[0], d[1]}, u); }
mxArray * mxCreateString(char const * s) { if (!s) { bad("mxCreateString of a null pointer"); s = ""; } return char_row(std::string(s)); }
mxArray * mxCreateStringFromNChars(char const * s, mwSize n) { return char_row(std::string(s, n)); }
mxArray * mxCreateCellMatrix(mwSize m, mwSize n) { mwSize d[2] = {m, n}; return make(mxCELL_CLASS, 2, d, false); }
mxArray * mxCreateCellArray(mwSize nd, mwSize const * d) { return make(mxCELL_CLASS, nd, d, false); }
mxArray * mxCreateStructArray(mwSize nd, mwSize const * d, int nf, char const ** names) { mxArray * a = make(mxSTRUCT_CLASS, nd, d, false); std::free(a->pr); a->pr = nullptr; set_names(a, nf, names); return a; }
mxArray * mxCreateStructMatrix(mwSize m, mwSize n, int nf, char const ** names) { mwSize d[2] = {m, n}; return mxCreateStructArray(2, d, nf, names); }
mxArray * mxDuplicateArray(mxArray const * a) {
  if (!ok(a, "mxDuplicateArray")) return nullptr;
  auto * b = new mxArray_tag(*a); arrays().insert(b); b->placed = false;
  auto cp = [](void const * p, size_t n) -> void * { if (!p) return nullptr; void * q = std::malloc(n ? n : 1); if (n) std::memcpy(q, p, n); return q; };
  size_t n = (a->is_sparse || a->strobj ? a->nzmax : numel(a)) * (a->strobj ? 2 : esize(a->cls));
  b->dims = static_cast<mwSize *>(cp(a->dims, a->nd * sizeof(mwSize))); b->pr = cp(a->pr, n); b->pi = cp(a->pi, n); b->ir = static_cast<mwIndex *>(cp(a->ir, a->nzmax * sizeof(mwIndex))); b->jc = a->jc ? static_cast<mwIndex *>(cp(a->jc, (a->dims[1] + 1) * sizeof(mwIndex))) : nullptr;
  if (a->nf || a->names) { b->names = static_cast<char **>(std::calloc(size_t(a->nf) + 1, sizeof(char *))); for (int k = 0; k < a->nf; ++k) b->names[k] = dup(a->names[k]); }
  if (a->kids) { b->kids = static_cast<mxArray **>(std::calloc(a->nkids + 1, sizeof(void *))); for (size_t k = 0; k < a->nkids; ++k) if (a->kids[k]) { b->kids[k] = mxDuplicateArray(a->kids[k]); b->kids[k]->placed = true; } }
  return b;
}
void mxDestroyArray(mxArray * a) { if (!a) return; if (!ok(a, "mxDestroyArray")) return; for (size_t k = 0; k < a->nkids; ++k) if (a->kids[k]) mxDestroyArray(a->kids[k]); arrays().erase(a); drop(a); }

static std::string text(mxArray const * a) { return to_utf8(std::u16string(static_cast<char16_t const *>(a->pr), numel(a))); }
char * mxArrayToUTF8String(mxArray const * a) { if (!ok(a, "mxArrayToString") || a->cls != mxCHAR_CLASS) return nullptr; std::string s = text(a); char * p = static_cast<char *>(mxMalloc(s.size() + 1)); std::memcpy(p, s.c_str(), s.size() + 1); return p; }
char * mxArrayToString(mxArray const * a) { return mxArrayToUTF8String(a); }
int mxGetString(mxArray const * a, char * buf, mwSize n) {
  if (!ok(a, "mxGetString") || a->cls != mxCHAR_CLASS || !n) return 1;
  std::string s = text(a); size_t k = s.size() < n ? s.size() : n - 1; std::memcpy(buf, s.data(), k); buf[k] = 0; return k < s.size();
}
void * mxMalloc(size_t n) { void * p = std::malloc(n); blocks().insert(p); return p; }
void * mxCalloc(size_t n, size_t m) { void * p = std::calloc(n ? n : 1, m ? m : 1); blocks().insert(p); return p; }
void mxFree(void * p) { if (!p) return; if (!blocks().erase(p)) { bad("mxFree of a block not from mxMalloc"); return; } std::free(p); }
int mexPrintf(char const * f, ...) { va_list v; va_start(v, f); va_list w; va_copy(w, v); int n = std::vsnprintf(nullptr, 0, f, v); va_end(v); std::string s(size_t(n) + 1, 0); std::vsnprintf(&s[0], s.size(), f, w); va_end(w); s.resize(size_t(n)); printed += s; return n; }
int mexCallMATLAB(int nl, mxArray ** l, int nr, mxArray ** r, char const * f) {
  if (nl == 1 && nr == 1 && !std::strcmp(f, "char") && ok(r[0], "char") && r[0]->strobj) { std::u16string u(static_cast<char16_t const *>(r[0]->pr), r[0]->nzmax); l[0] = chars({mwSize(u.empty() ? 0 : 1), mwSize(u.size())}, u); return 0; }
  bad(std::string("mexCallMATLAB of ") + f); return 1;
}
void mexErrMsgTxt(char const * s) { throw std::runtime_error(s); }
void mexErrMsgIdAndTxt(char const *, char const * s, ...) { throw std::runtime_error(s); }
void mexWarnMsgTxt(char const * s) { printed += s; }
