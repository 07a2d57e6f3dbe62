"""What decides each property: engine, scenario profile, violation classes, budgets (runs, seconds cap)."""
FATAL = ['crash', 'hang', 'deadlock', 'abort', 'memory']
CORE_REAL = ['src/*.c of /repo (qpSWIFT, Auxilary, ldl, timer, amd_*), unmodified, instrumented by the compiler']
CORE_STUB = ['malloc/free and the ordering allocator seam (seeded arena)', 'clock_gettime (simulated clock)', 'stdout (recording sink)', 'thread scheduling (seeded preemption at every memory access)']
SFUN_REAL = CORE_REAL + ['simulink/qpSWIFT_sfunc.c', 'simulink/qpSWIFT_sfunc_e.c']
PY_REAL = ['python/pyqpSWIFT.c', 'src/*.c of /repo, unmodified, instrumented by the compiler', 'CPython 3.12 interpreter and numpy of the system']
PY_STUB = ['interpreter lock and Python thread scheduling (seeded baton)', 'Python and numpy memory allocators (seeded arena)', 'entry of every C-API call of the extension (checked gate to the real function)'] + CORE_STUB
MEX_REAL = CORE_REAL + ['matlab/qpSWIFT_mex.c']
MEX_STUB = ['MATLAB host: mxArray, mxMalloc, reclaiming of memory, mexErrMsgTxt (stubs/mex, mexsim.cpp)'] + CORE_STUB
Q, T = (60000, 32), (400000, 420)
LQ, LT = (12000, 10), (150000, 150)
def L(engine, profile, classes): return dict(engine=engine, profile=profile, classes=classes + FATAL, quick=LQ, thorough=LT, real=dict(core=CORE_REAL, mex=MEX_REAL, py=PY_REAL)[engine], stub=dict(core=CORE_STUB, mex=MEX_STUB, py=PY_STUB)[engine])
def P(engine, profile, classes, **kw):
    d = dict(engine=engine, profile=profile, classes=classes, quick=Q, thorough=T, real=CORE_REAL, stub=CORE_STUB)
    d.update(kw); return d
PROPS = {
 'C01': P('core', 'c01', ['untrue'], legs=[L('mex', 'c17', ['untrue'])]),
 'C02': P('core', 'c02', ['noconv', 'cycles', 'budget', 'setupnull', 'ordernull'] + FATAL, legs=[L('mex', 'c17', ['noconv'])]),
 'C03': P('core', 'c03', ['status', 'resume', 'budget', 'untrue'] + FATAL),
 'C04': P('core', 'c04', ['race', 'differs', 'difftext', 'untrue', 'noconv', 'uaf', 'badfree', 'oob'] + FATAL, legs=[L('py', 'c14', ['race', 'pydiff', 'uaf', 'badfree', 'oob'])]),
 'C05': P('core', 'c05', ['differs', 'difftext'] + FATAL, legs=[L('mex', 'c17', ['mexdiff'])]),
 'C06': P('core', 'c06', ['time'] + FATAL, legs=[L('mex', 'c17', ['time']), L('py', 'c13', ['pytime'])]),
 'C07': P('core', 'c07', ['leak', 'badfree', 'oomleak', 'uaf', 'crash', 'abort'], legs=[L('mex', 'c17', ['leak', 'oomleak', 'badfree', 'uaf'])]),
 'C08': P('core', 'c08', ['oomleak', 'setupnull', 'untrue', 'noconv', 'status', 'badfree', 'uaf', 'oob', 'differs'] + FATAL, ablate=['fault alloc']),
 'C09': P('core', 'c09', ['ordernull', 'untrue', 'noconv', 'oob', 'uaf', 'badfree', 'leak', 'status', 'differs'] + FATAL, ablate=['fault order'], own=['ordernull']),
 'C10': P('core', 'c10', ['inputwrite'], legs=[L('mex', 'c17', ['inputwrite']), L('py', 'c13', ['argchanged', 'inputwrite'])]),
 'C11': P('core', 'c11', ['oob', 'uaf', 'crash', 'badfree'], legs=[L('mex', 'c17', ['oob', 'uaf', 'badfree']), L('py', 'c15', ['oob', 'uaf', 'badfree'])]),
 'C12': P('core', 'c12', ['noise', 'misprint', 'difftext', 'differs', 'untrue', 'status', 'noconv'] + FATAL, ablate=['out '], own=['noise', 'misprint', 'difftext', 'differs'], legs=[L('mex', 'c17', ['noise', 'misprint']), L('py', 'c13', ['noise', 'misprint'])]),
 'C13': P('py', 'c13', ['pydiff', 'pyalias', 'argchanged', 'inputwrite', 'pytime', 'pyraise', 'uaf', 'oob'] + FATAL, real=PY_REAL, stub=PY_STUB),
 'C14': P('py', 'c14', ['gilheld', 'gilapi', 'gilwrite', 'gilstate', 'race'] + FATAL, real=PY_REAL, stub=PY_STUB),
 'C15': P('py', 'c15', ['pyref', 'pyleak', 'badfree', 'uaf', 'oob', 'pynoexc', 'crash', 'abort'], real=PY_REAL, stub=PY_STUB),
 'C16': P('py', 'c16', ['pyoomwrong', 'pynoexc', 'pyraise', 'pydiff', 'pyleak', 'pyref', 'badfree', 'uaf', 'oob', 'gilapi', 'gilstate'] + FATAL, ablate=['fault '], own=['pyoomwrong', 'pynoexc'], real=PY_REAL, stub=PY_STUB),
 'C17': P('mex', 'c17', ['mexdiff', 'mexcore', 'mexreject', 'mexaccept', 'leak', 'oomleak', 'badfree', 'oob', 'uaf', 'inputwrite', 'outputchanged', 'untrue', 'noconv', 'time'] + FATAL, real=MEX_REAL, stub=MEX_STUB),
 'C19': P('py', 'c19', ['pyaccept', 'pyraise', 'pynoexc'], real=PY_REAL, stub=PY_STUB, legs=[L('mex', 'c17', ['mexaccept', 'mexreject'])]),
 'C21': P('core', 'c21', ['procstate', 'stale'], legs=[L('mex', 'c17', ['procstate']), L('py', 'c16', ['procstate'])]),
 'C22': P('core', 'c22', ['entrydiff'] + FATAL),
 'C20': P('core', 'c20', ['orderperm', 'orderfill', 'orderstatus', 'differs', 'race', 'leak', 'oomleak', 'uaf', 'oob', 'badfree', 'noise', 'inputwrite'] + FATAL),
 'C18': P('core', 'c18', ['blockdiff', 'blockout', 'leak', 'oomleak', 'setupnull', 'status', 'noconv', 'inputwrite', 'time', 'noise', 'race'] + FATAL, real=SFUN_REAL, stub=CORE_STUB + ['SimStruct signal buffers (stub simstruc.h)']),
}
