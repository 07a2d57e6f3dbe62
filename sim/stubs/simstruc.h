/* Stand-in for Simulink's SimStruct: what the block declares at registration, its signals and its work vectors. */
#ifndef SIM_SIMSTRUC_H
#define SIM_SIMSTRUC_H
#include <stddef.h>
#include <stdlib.h>
typedef double real_T; typedef float real32_T; typedef int int_T; typedef unsigned uint_T; typedef char char_T; typedef unsigned char boolean_T; typedef double time_T;
typedef int int32_T; typedef unsigned uint32_T; typedef unsigned char uint8_T; typedef size_t SLSize;
typedef const real_T *const *InputRealPtrsType; typedef const void *const *InputPtrsType;
typedef struct DimsInfo_T { int width, numDims; int *dims; } DimsInfo_T;
typedef int DTypeId; typedef int SimStructCompliance;
#define DYNAMICALLY_SIZED (-1)
#define DYNAMICALLY_TYPED (-1)
#define INHERITED_SAMPLE_TIME (-1.0)
#define CONTINUOUS_SAMPLE_TIME (0.0)
#define FIXED_IN_MINOR_STEP_OFFSET (1.0)
#define SS_DOUBLE 0
#define COMPLEX_NO 0
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define UNUSED_ARG(a) ((void)(a))
#define SS_OPTION_EXCEPTION_FREE_CODE 1u
#define SS_OPTION_WORKS_WITH_CODE_REUSE 2u
#define SS_OPTION_USE_TLC_WITH_ACCELERATOR 4u
#define SS_OPTION_CALL_TERMINATE_ON_EXIT 8u
#define SS_OPTION_CAN_BE_CALLED_CONDITIONALLY 16u
#define SS_NOT_REUSABLE_AND_GLOBAL 0
#define SS_NOT_REUSABLE_AND_LOCAL 1
#define SS_REUSABLE_AND_GLOBAL 2
#define SS_REUSABLE_AND_LOCAL 3
#define USE_DEFAULT_SIM_STATE 0
typedef struct SimStruct {
  const real_T **in[8]; const real_T *cin[8]; int contig[8], width[8]; real_T *out[8]; int outw[8]; real_T outbuf[8][4];
  int nin, nout, nst, badport, nsfcn, inw[8], outwd[8], feed[8];
  double period, offset, now;
  int nrw, niw, npw; real_T *rw; int_T *iw; void **pw; void *user; const char *error;
} SimStruct;
#define ssSetNumContStates(S, n) ((void)(S))
#define ssSetNumDiscStates(S, n) ((void)(S))
#define ssSetNumSFcnParams(S, n) ((S)->nsfcn = (n))
#define ssGetNumSFcnParams(S) ((S)->nsfcn)
#define ssGetSFcnParamsCount(S) (0)
#define ssSetNumInputPorts(S, n) ((S)->nin = (n), 1)
#define ssSetNumOutputPorts(S, n) ((S)->nout = (n), 1)
#define ssGetNumInputPorts(S) ((S)->nin)
#define ssGetNumOutputPorts(S) ((S)->nout)
#define SIM_IN(S, p) ((p) < 0 || (p) >= (S)->nin ? ((S)->badport = 1, 7) : (p))
#define SIM_OUT(S, p) ((p) < 0 || (p) >= (S)->nout ? ((S)->badport = 1, 7) : (p))
#define ssSetInputPortVectorDimension(S, p, d) ((S)->inw[SIM_IN(S, p)] = (d), 1)
#define ssSetInputPortMatrixDimensions(S, p, m, n) ((S)->inw[SIM_IN(S, p)] = (m) < 0 ? -1 : (m) * (n), 1)
#define ssSetOutputPortMatrixDimensions(S, p, m, n) ((S)->outwd[SIM_OUT(S, p)] = (m) < 0 ? -1 : (m) * (n), 1)
#define ssSetOutputPortVectorDimension(S, p, d) ((S)->outwd[SIM_OUT(S, p)] = (d), 1)
#define ssSetInputPortWidth(S, p, d) ((S)->inw[SIM_IN(S, p)] = (d))
#define ssSetOutputPortWidth(S, p, d) ((S)->outwd[SIM_OUT(S, p)] = (d))
#define ssSetInputPortDirectFeedThrough(S, p, v) ((S)->feed[SIM_IN(S, p)] = (v))
#define ssGetInputPortDirectFeedThrough(S, p) ((S)->feed[p])
#define ssSetInputPortRequiredContiguous(S, p, v) ((S)->contig[SIM_IN(S, p)] = (v))
#define ssSetInputPortDataType(S, p, t) ((void)(S), 1)
#define ssSetOutputPortDataType(S, p, t) ((void)(S), 1)
#define ssSetInputPortComplexSignal(S, p, t) ((void)(S))
#define ssSetOutputPortComplexSignal(S, p, t) ((void)(S))
#define ssSetInputPortOverWritable(S, p, v) ((void)(S))
#define ssSetInputPortReusable(S, p, v) ((void)(S))
#define ssSetOutputPortReusable(S, p, v) ((void)(S))
#define ssSetInputPortOptimOpts(S, p, v) ((void)(S))
#define ssSetOutputPortOptimOpts(S, p, v) ((void)(S))
#define ssSetInputPortDimensionInfo(S, p, d) ((S)->inw[SIM_IN(S, p)] = (d)->width, 1)
#define ssSetOutputPortDimensionInfo(S, p, d) ((S)->outwd[SIM_OUT(S, p)] = (d)->width, 1)
#define ssSetNumSampleTimes(S, n) ((S)->nst = (n))
#define ssGetNumSampleTimes(S) ((S)->nst)
#define SIM_ST(S, i) ((i) < 0 || (i) >= ((S)->nst > 0 ? (S)->nst : 1) ? ((S)->badport = 1) : 0)
#define ssSetSampleTime(S, i, t) (SIM_ST(S, i), (S)->period = (t))
#define ssSetOffsetTime(S, i, t) (SIM_ST(S, i), (S)->offset = (t))
#define ssGetSampleTime(S, i) ((S)->period)
#define ssGetOffsetTime(S, i) ((S)->offset)
#define ssSetModelReferenceSampleTimeDefaultInheritance(S) ((void)(S))
#define ssIsSampleHit(S, i, t) (1)
#define ssIsMajorTimeStep(S) (1)
#define ssIsFirstInitCond(S) ((S)->now == 0)
#define ssGetT(S) ((S)->now)
#define ssGetTaskTime(S, i) ((S)->now)
#define ssSetOptions(S, o) ((void)(S))
#define ssSetSimStateCompliance(S, o) ((void)(S))
#define ssSetOperatingPointCompliance(S, o) ((void)(S))
#define ssSetRuntimeThreadSafetyCompliance(S, o) ((void)(S))
#define ssSupportsMultipleExecInstances(S, o) ((void)(S))
#define ssSetNumModes(S, n) ((void)(S))
#define ssSetNumNonsampledZCs(S, n) ((void)(S))
#define ssSetNumDWork(S, n) ((void)(S), 1)
#define ssSetNumRWork(S, n) ((S)->nrw = (n))
#define ssSetNumIWork(S, n) ((S)->niw = (n))
#define ssSetNumPWork(S, n) ((S)->npw = (n))
#define ssGetNumRWork(S) ((S)->nrw)
#define ssGetNumIWork(S) ((S)->niw)
#define ssGetNumPWork(S) ((S)->npw)
#define ssGetRWork(S) ((S)->rw)
#define ssGetIWork(S) ((S)->iw)
#define ssGetPWork(S) ((S)->pw)
#define ssGetRWorkValue(S, i) ((S)->rw[i])
#define ssGetIWorkValue(S, i) ((S)->iw[i])
#define ssGetPWorkValue(S, i) ((S)->pw[i])
#define ssSetRWorkValue(S, i, v) ((S)->rw[i] = (v))
#define ssSetIWorkValue(S, i, v) ((S)->iw[i] = (v))
#define ssSetPWorkValue(S, i, v) ((S)->pw[i] = (v))
#define ssGetUserData(S) ((S)->user)
#define ssSetUserData(S, p) ((S)->user = (p))
#define ssSetErrorStatus(S, m) ((S)->error = (m))
#define ssGetErrorStatus(S) ((S)->error)
#define ssWarning(S, m) ((void)(S))
#define ssGetOutputPortRealSignal(S, p) ((S)->out[p])
#define ssGetOutputPortSignal(S, p) ((void *)(S)->out[p])
#define ssGetInputPortRequiredContiguous(S, p) ((S)->contig[p])
#define ssGetInputPortRealSignal(S, p) ((S)->cin[p])
#define ssGetInputPortSignal(S, p) ((const void *)(S)->cin[p])
#define ssGetInputPortRealSignalPtrs(S, p) ((InputRealPtrsType)(S)->in[p])
#define ssGetInputPortSignalPtrs(S, p) ((InputPtrsType)(S)->in[p])
#define ssGetInputPortConnected(S, p) (1)
#define ssGetOutputPortConnected(S, p) (1)
#define ssGetInputPortWidth(S, p) ((S)->width[p])
#define ssGetOutputPortWidth(S, p) ((S)->outw[p])
#endif
