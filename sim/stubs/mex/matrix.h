/* Stand-in for the MATLAB matrix interface; implemented by sim/mexsim.cpp. */
#ifndef SIM_MATRIX_H
#define SIM_MATRIX_H
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <stdio.h>
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex;
typedef struct mxArray_tag mxArray;
typedef unsigned char mxLogical; typedef unsigned short mxChar;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
#ifdef __cplusplus
extern "C" {
#endif
void *mxMalloc(size_t n); void *mxCalloc(size_t a, size_t b); void *mxRealloc(void *p, size_t n); void mxFree(void *p);
const mwSize *mxGetDimensions(const mxArray *a); mwSize mxGetNumberOfDimensions(const mxArray *a);
size_t mxGetM(const mxArray *a); size_t mxGetN(const mxArray *a); size_t mxGetNumberOfElements(const mxArray *a); size_t mxGetElementSize(const mxArray *a);
bool mxIsDouble(const mxArray *a); bool mxIsSparse(const mxArray *a); bool mxIsComplex(const mxArray *a); bool mxIsStruct(const mxArray *a); bool mxIsEmpty(const mxArray *a);
bool mxIsNumeric(const mxArray *a); bool mxIsChar(const mxArray *a); bool mxIsLogical(const mxArray *a); bool mxIsCell(const mxArray *a); bool mxIsSingle(const mxArray *a); bool mxIsClass(const mxArray *a, const char *c);
mxClassID mxGetClassID(const mxArray *a); const char *mxGetClassName(const mxArray *a);
double *mxGetPr(const mxArray *a); double *mxGetPi(const mxArray *a); double *mxGetDoubles(const mxArray *a); void *mxGetData(const mxArray *a); double mxGetScalar(const mxArray *a);
mwIndex *mxGetIr(const mxArray *a); mwIndex *mxGetJc(const mxArray *a); mwSize mxGetNzmax(const mxArray *a);
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *f); int mxGetFieldNumber(const mxArray *a, const char *f); mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int k);
void mxSetFieldByNumber(mxArray *a, mwIndex i, int k, mxArray *v); void mxSetField(mxArray *a, mwIndex i, const char *f, mxArray *v); int mxGetNumberOfFields(const mxArray *a);
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity k); mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity k);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity k); mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **f); mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **f);
mxArray *mxCreateString(const char *s); mxArray *mxDuplicateArray(const mxArray *a); void mxDestroyArray(mxArray *a);
void mxSetPr(mxArray *a, double *p); void mxSetM(mxArray *a, mwSize m); void mxSetN(mxArray *a, mwSize n);
double mxGetNaN(void); double mxGetInf(void); double mxGetEps(void); bool mxIsNaN(double v); bool mxIsInf(double v); bool mxIsFinite(double v);
bool mxIsScalar(const mxArray *a); bool mxIsLogicalScalar(const mxArray *a); bool mxIsLogicalScalarTrue(const mxArray *a); mxLogical *mxGetLogicals(const mxArray *a); bool mxIsFunctionHandle(const mxArray *a);
bool mxIsInt8(const mxArray *a); bool mxIsUint8(const mxArray *a); bool mxIsInt16(const mxArray *a); bool mxIsUint16(const mxArray *a); bool mxIsInt32(const mxArray *a); bool mxIsUint32(const mxArray *a); bool mxIsInt64(const mxArray *a); bool mxIsUint64(const mxArray *a);
const char *mxGetFieldNameByNumber(const mxArray *a, int k); mxArray *mxCreateLogicalScalar(mxLogical v); mxArray *mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity k);
void mxSetData(mxArray *a, void *p); int mxSetDoubles(mxArray *a, double *p); void mxSetIr(mxArray *a, mwIndex *p); void mxSetJc(mxArray *a, mwIndex *p); void mxSetNzmax(mxArray *a, mwSize n); mwIndex mxCalcSingleSubscript(const mxArray *a, mwSize n, const mwIndex *s);
#define mxAssert(e, m) ((void)0)
#define mxAssertS(e, m) ((void)0)
#ifdef __cplusplus
}
#endif
#endif
