/* the entry points of one block (MATLAB_MEX_FILE is not defined, so this is what the source includes last) */
void SIMBLK(_outputs)(SimStruct *S, int tid) { mdlOutputs(S, tid); }
void SIMBLK(_sizes)(SimStruct *S) { mdlInitializeSizes(S); mdlInitializeSampleTimes(S); }
void SIMBLK(_start)(SimStruct *S) {
#ifdef MDL_SET_WORK_WIDTHS
  mdlSetWorkWidths(S);
#endif
  if (S->nrw > 0) S->rw = (real_T *)calloc(S->nrw, sizeof *S->rw);
  if (S->niw > 0) S->iw = (int_T *)calloc(S->niw, sizeof *S->iw);
  if (S->npw > 0) S->pw = (void **)calloc(S->npw, sizeof *S->pw);
#ifdef MDL_START
  mdlStart(S);
#endif
#ifdef MDL_INITIALIZE_CONDITIONS
  mdlInitializeConditions(S);
#endif
}
void SIMBLK(_update)(SimStruct *S, int tid) {
#ifdef MDL_UPDATE
  mdlUpdate(S, tid);
#endif
}
void SIMBLK(_end)(SimStruct *S) { mdlTerminate(S); free(S->rw); free(S->iw); free(S->pw); S->rw = NULL; S->iw = NULL; S->pw = NULL; }
