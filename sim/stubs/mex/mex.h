/* Stand-in for the MATLAB MEX interface; implemented by sim/mexsim.cpp. */
#ifndef SIM_MEX_H
#define SIM_MEX_H
#include "matrix.h"
#ifdef __cplusplus
extern "C" {
#endif
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
int mexPrintf(const char *fmt, ...);
void mexErrMsgTxt(const char *msg) __attribute__((noreturn));
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *msg);
void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...);
void mexMakeMemoryPersistent(void *p);
void mexMakeArrayPersistent(mxArray *a);
int mexAtExit(void (*f)(void));
void mexLock(void);
void mexUnlock(void);
bool mexIsLocked(void);
const char *mexFunctionName(void);
int mexEvalString(const char *s);
#ifdef __cplusplus
}
#endif
#endif
