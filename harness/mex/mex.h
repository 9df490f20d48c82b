// Stand-in for MATLAB's mex.h (separate-complex interface): enough of the documented
// behaviour to run an interface file without MATLAB.  Every array lives in blocks of exactly
// its size (so that the sanitizers see accesses outside), every misuse a MATLAB would punish
// (index out of range, an array placed twice, a null name) is recorded in mxsim::misuse.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

typedef size_t mwSize;
typedef size_t mwIndex;
typedef ptrdiff_t mwSignedIndex;
typedef bool mxLogical;
typedef char16_t mxChar;
enum mxClassID { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS, mxOPAQUE_CLASS, mxOBJECT_CLASS };
enum mxComplexity { mxREAL = 0, mxCOMPLEX };
struct mxArray_tag;
typedef struct mxArray_tag mxArray;

mxClassID mxGetClassID(mxArray const *);
char const * mxGetClassName(mxArray const *);
bool mxIsClass(mxArray const *, char const *);
bool mxIsComplex(mxArray const *);
bool mxIsSparse(mxArray const *);
bool mxIsEmpty(mxArray const *);
bool mxIsNumeric(mxArray const *);
bool mxIsCell(mxArray const *);
bool mxIsStruct(mxArray const *);
bool mxIsChar(mxArray const *);
bool mxIsLogical(mxArray const *);
bool mxIsLogicalScalar(mxArray const *);
bool mxIsLogicalScalarTrue(mxArray const *);
bool mxIsScalar(mxArray const *);
bool mxIsDouble(mxArray const *);
bool mxIsSingle(mxArray const *);
bool mxIsInt8(mxArray const *);
bool mxIsUint8(mxArray const *);
bool mxIsInt16(mxArray const *);
bool mxIsUint16(mxArray const *);
bool mxIsInt32(mxArray const *);
bool mxIsUint32(mxArray const *);
bool mxIsInt64(mxArray const *);
bool mxIsUint64(mxArray const *);

mwSize mxGetNumberOfDimensions(mxArray const *);
mwSize const * mxGetDimensions(mxArray const *);
size_t mxGetNumberOfElements(mxArray const *);
size_t mxGetM(mxArray const *);
size_t mxGetN(mxArray const *);
size_t mxGetElementSize(mxArray const *);
mwSize mxGetNzmax(mxArray const *);

void * mxGetData(mxArray const *);
void * mxGetImagData(mxArray const *);
double * mxGetPr(mxArray const *);
double * mxGetPi(mxArray const *);
double mxGetScalar(mxArray const *);
mxLogical * mxGetLogicals(mxArray const *);
mxChar * mxGetChars(mxArray const *);
mwIndex * mxGetIr(mxArray const *);
mwIndex * mxGetJc(mxArray const *);

mxArray * mxGetCell(mxArray const *, mwIndex);
void mxSetCell(mxArray *, mwIndex, mxArray *);
int mxGetNumberOfFields(mxArray const *);
char const * mxGetFieldNameByNumber(mxArray const *, int);
int mxGetFieldNumber(mxArray const *, char const *);
mxArray * mxGetFieldByNumber(mxArray const *, mwIndex, int);
mxArray * mxGetField(mxArray const *, mwIndex, char const *);
void mxSetFieldByNumber(mxArray *, mwIndex, int, mxArray *);
void mxSetField(mxArray *, mwIndex, char const *, mxArray *);
int mxAddField(mxArray *, char const *);

mxArray * mxCreateNumericArray(mwSize, mwSize const *, mxClassID, mxComplexity);
mxArray * mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
mxArray * mxCreateUninitNumericArray(size_t, size_t *, mxClassID, mxComplexity);
mxArray * mxCreateUninitNumericMatrix(size_t, size_t, mxClassID, mxComplexity);
mxArray * mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray * mxCreateDoubleScalar(double);
mxArray * mxCreateLogicalScalar(mxLogical);
mxArray * mxCreateLogicalMatrix(mwSize, mwSize);
mxArray * mxCreateLogicalArray(mwSize, mwSize const *);
mxArray * mxCreateString(char const *);
mxArray * mxCreateStringFromNChars(char const *, mwSize);
mxArray * mxCreateCellMatrix(mwSize, mwSize);
mxArray * mxCreateCellArray(mwSize, mwSize const *);
mxArray * mxCreateStructMatrix(mwSize, mwSize, int, char const **);
mxArray * mxCreateStructArray(mwSize, mwSize const *, int, char const **);
mxArray * mxDuplicateArray(mxArray const *);
void mxDestroyArray(mxArray *);

char * mxArrayToString(mxArray const *);
char * mxArrayToUTF8String(mxArray const *);
int mxGetString(mxArray const *, char *, mwSize);
void * mxMalloc(size_t);
void * mxCalloc(size_t, size_t);
void mxFree(void *);

int mexPrintf(char const *, ...);
int mexCallMATLAB(int, mxArray **, int, mxArray **, char const *);
[[noreturn]] void mexErrMsgTxt(char const *);
[[noreturn]] void mexErrMsgIdAndTxt(char const *, char const *, ...);
void mexWarnMsgTxt(char const *);

// ------------------------------------------------------------------ for the monitor
namespace mxsim {
extern std::string misuse;      // first misuse seen ("" none)
extern std::string printed;     // what mexPrintf wrote
void reset();                   // ends a "mex call": everything is released
std::string to_utf8(std::u16string const &);
std::u16string to_utf16(std::string const &, bool * ok = nullptr);
mxArray * sparse(mxClassID, bool cplx, size_t m, std::vector<mwIndex> const & jc, std::vector<mwIndex> const & ir, size_t nzmax);
mxArray * chars(std::vector<mwSize> const & dims, std::u16string const &);
mxArray * string_object(std::u16string const &);
mxArray * other(mxClassID);
uint64_t digest(mxArray const *);
size_t live();
}
