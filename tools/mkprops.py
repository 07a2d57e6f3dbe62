#!/usr/bin/python3
"""writes properties.jsonl"""
import json, os
S, I, H, F, C, K = 'schedules', 'inputs', 'histories', 'fault_sequences', 'configurations', 'crash_points'
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, obs=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs: a['observe_at'] = obs
    a['hook_needed'] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

add('C01', 'An answer reported optimal really is one, and its reported residuals are true',
    'Whenever a solve reports the optimal status, the returned primal point, multipliers and slacks satisfy the optimality conditions of the problem the caller posed within the configured tolerances, with slacks and inequality multipliers positive. The residual norms, complementarity measure and objective value reported with it are those of exactly the returned point. This holds through either entry point and storage order, with any valid ordering, after any earlier solves on the handle, under any interleaving with other solves and under any memory or output fault.',
    [I, H, S, F, C], 'all QPs accepted by the two setup entry points (row-major, column-major and compressed-column data, with and without equalities, custom or computed ordering), all histories of setup/solve/re-solve/clean-up, all interleavings with other clients, all fault sequences',
    'The tests solve fixed problems once, in one thread, without faults, and compare an objective value or status; nothing recomputes the optimality conditions of the returned point from the caller\'s own data, nor checks the reported norms, nor re-solves or disturbs a solve.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/ldl.c'],
    [('interior point iteration and termination test', 'src/qpSWIFT.c QP_SOLVE'), ('residuals and norms', 'src/Auxilary.c computeresiduals'), ('KKT assembly and update', 'src/Auxilary.c formkktmatrix_U, formkktmatrix_full, updatekktmatrix'), ('factorise and solve', 'src/Auxilary.c kktsolve_1, kktsolve_2; src/ldl.c'), ('step length', 'src/Auxilary.c findsteplength')],
    obs=['return value of QP_SOLVE', 'x, y, z, s and stats of the handle'])
add('C02', 'Every solve stops within its budget and well-posed problems reach optimality',
    'A solve always returns, having performed no more iterations than the configured maximum. A strictly convex, strictly feasible and well-scaled problem with linearly independent equalities is accepted by setup and solved to optimality within the default budget and tolerances, including problems whose matrices contain all-zero rows or columns or have no equalities. Neither other clients, nor earlier calls, nor unusual-but-legal environment events that do not deny the solver needed memory can take that away.',
    [I, H, S, F], 'all QPs for termination; all strictly convex, strictly feasible, well-scaled QPs with independent equality rows for progress; all histories, schedules, clock and output faults',
    'Progress is a liveness guarantee: a handful of fixed problems in one undisturbed thread says nothing about zero rows, scaling, re-solves, starved threads or a failed ordering workspace.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/ldl.c', 'src/amd_order.c', 'include/GlobalOptions.h'],
    [('iteration loop bounded by maxit', 'src/qpSWIFT.c QP_SOLVE'), ('initial point', 'src/Auxilary.c kkt_initialize'), ('structural diagonal of the KKT matrix', 'src/Auxilary.c formkktmatrix_full / formkktmatrix_U'), ('default settings', 'include/GlobalOptions.h')],
    obs=['return of setup', 'return value of QP_SOLVE', 'IterationCount'])
add('C03', 'Status and progress of a re-solved handle are truthful and resumable',
    'Calling solve again on a handle continues from where the previous call stopped: a solve cut into several calls by small iteration budgets yields bit for bit the point, statistics and status of one uninterrupted call with the combined budget, and solving an already optimal handle changes nothing and reports optimal again. A call that reports the iteration limit has performed exactly its configured budget of iterations in that call, and the returned status always equals the stored one. The status of a call never depends on how many iterations earlier calls used.',
    [H, I, C], 'all sequences of solve calls with arbitrary budgets, tolerance and verbosity changes between them, on all problems, interleaved with other handles',
    'Every test calls solve exactly once per handle; no test observes a second call, a budget of a few iterations or a status after interrupted progress.',
    ['src/qpSWIFT.c'], [('iteration counter and exit flag', 'src/qpSWIFT.c QP_SOLVE'), ('state of the iterate kept in the handle', 'include/GlobalOptions.h / include/qpSWIFT.h')],
    state=[('iterate, slacks, multipliers and KKT data', 'everything a later call resumes from', 'struct QP in include/qpSWIFT.h')],
    obs=['QP_SOLVE return value', 'stats->Flag, stats->IterationCount', 'x, y, z, s'])
add('C04', 'Concurrent solves on different handles do not affect each other',
    'Threads that set up, solve and clean up different handles at the same time obtain bit for bit the results, statistics, iteration counts and statuses each would obtain alone, under every interleaving of their memory accesses. This includes handles that share read-only problem data and handles created by one thread and solved or released by another with proper hand-over. No two threads ever access the same library memory without synchronisation, one of them writing.',
    [S, H, I], 'all interleavings at memory-access granularity of up to five client threads, each running arbitrary call histories on its own handles',
    'The tests are single-threaded; the promise of thread independence is only visible under specific preemptions inside setup, ordering or factorisation.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/ldl.c', 'src/amd_global.c', 'src/amd_order.c', 'src/timer.c'],
    [('all workspace hangs off the handle', 'src/qpSWIFT.c QP_SETUP'), ('ordering allocator seams are read-only globals', 'src/amd_global.c'), ('factorisation workspace', 'src/Auxilary.c kktsolve_1, src/ldl.c')],
    obs=['results of every client against its solo run', 'library memory accesses'])
add('C05', 'Results depend only on the problem and the settings',
    'Two executions of the same calls with the same data give bit for bit the same points, statistics, statuses and printed text (elapsed times excepted), whatever stale bytes allocated or stack memory contains, wherever memory blocks are placed, whatever the clocks show and whatever calls were made before in the process. Every reported statistic is a computed value, never leftover memory.',
    [C, H, F, S], 'all contents of fresh heap and stack memory, all block placements and reuse patterns, all clock behaviours, all earlier histories in the process',
    'A fresh test process almost always receives zeroed pages, so a read of uninitialised or stale memory is invisible; the tests run each problem once in one process and compare with loose tolerances.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/ldl.c', 'src/amd_order.c', 'src/amd_2.c'],
    [('initialisation of every workspace array', 'src/qpSWIFT.c QP_SETUP, QP_SETUP_dense'), ('initialisation of the KKT workspace', 'src/Auxilary.c kkt_initialize'), ('statistics initialised', 'src/qpSWIFT.c')],
    obs=['all outputs of each call under different memory fillings, layouts, clocks and histories'])
add('C06', 'Reported times are the elapsed time of that very call and nest consistently',
    'Setup and solve times reported with a handle equal the monotonic time that elapsed during exactly that call, unaffected by wall-clock jumps, seconds roll-over, stalls, other threads or earlier calls. The reported times for the KKT solves and for the factorisations within a solve cover all of that work of that call and nothing else: zero or more, factorisation time no larger than KKT time, KKT time no larger than solve time.',
    [S, H, C], 'all clock rates, offsets, second and 2^31 boundaries, stalls and preemptions at any point inside the call, all histories of repeated solves',
    'Real clocks give tests nothing exact to compare with; a wrong clock, a lost nanosecond borrow or an accumulating counter passes any plausibility check on short solves.',
    ['src/timer.c', 'src/qpSWIFT.c', 'src/Auxilary.c', 'include/timer.h'],
    [('monotonic clock with nanosecond borrow', 'src/timer.c tic, toc'), ('accumulation of KKT and LDL time', 'src/qpSWIFT.c QP_SOLVE; src/Auxilary.c kktsolve_1, kktsolve_2')],
    obs=['stats->tsetup, tsolve, kkt_time, ldl_numeric'])
add('C07', 'Clean-up releases exactly what the handle acquired',
    'After clean-up of a handle no memory acquired on its behalf remains allocated, nothing is released twice, and nothing the caller owns is released or changed. This holds for both entry points, with or without equalities and custom ordering, before or after any number of solves, in any thread, and whatever status the solves had.',
    [H, C, S, F], 'all histories setup / set / solve* / clean-up for both entry points and all option combinations, interleaved arbitrarily between clients',
    'The tests do not count allocations; a block that leaks only with equalities, only after a re-solve or only for one storage order changes no status.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/ldl.c', 'src/amd_order.c'], [('release of every member', 'src/qpSWIFT.c QP_CLEANUP, QP_CLEANUP_dense'), ('temporaries released inside setup', 'src/qpSWIFT.c QP_SETUP, src/amd_order.c')],
    obs=['allocation ledger per handle'])
add('C08', 'Running out of memory in setup yields NULL and nothing else',
    'If any allocation fails during setup, setup returns no handle, leaves nothing allocated and does not crash, or - where it can do without that memory - returns a handle that solves the problem correctly. Other handles and later calls are unaffected. A handle that setup did return can always be solved and cleaned up.',
    [F, H, S], 'a failure of any single allocation, burst of allocations or all remaining ones at any point of any setup call, concurrently with other clients',
    'Allocation never fails in the tests; every failure point has its own clean-up path.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/amd_order.c'], [('allocation checks and unwinding', 'src/qpSWIFT.c QP_SETUP, QP_SETUP_dense'), ('ordering workspace fallback', 'src/amd_order.c')],
    obs=['return of setup', 'allocation ledger', 'later results'])
add('C09', 'Losing the ordering workspace never costs the answer',
    'When the memory the fill-reducing ordering wants for its temporary workspace is not available, setup still succeeds with a fallback ordering and the solve still reaches the correct solution of the problem, with and without equality constraints. Memory accesses stay in bounds and nothing is leaked on that path.',
    [F, I, H], 'a failure of any of the ordering\'s own allocations, for every problem shape, entry point and history',
    'The fallback path is only taken when an allocation inside the ordering fails, which no test provokes.',
    ['src/qpSWIFT.c', 'src/amd_order.c', 'src/amd_global.c'], [('fallback to identity-like ordering on ordering failure', 'src/qpSWIFT.c QP_SETUP, QP_SETUP_dense'), ('ordering returns out-of-memory', 'src/amd_order.c')],
    obs=['return of setup', 'status and solution of the solve', 'AMD result in the stats'])
add('C10', 'The caller\'s problem data is never modified, not even transiently',
    'No call writes to any array the caller passed in - matrices, index arrays, vectors or ordering - at any moment of its execution, so several handles or threads can share the same arrays safely. After every call, including failed ones, the arrays hold what the caller put there.',
    [S, H, I, F], 'every instant of every call, all entry points, all histories and allocation faults',
    'Tests compare at best the arrays after a call (in fact not at all); a temporary in-place sort, transposition or shift that is undone before returning is visible only to a concurrent reader.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/amd_order.c', 'src/ldl.c'], [('sparse data aliased read-only', 'src/qpSWIFT.c QP_SETUP, src/Auxilary.c SparseMatrixSetup'), ('dense data copied', 'src/Auxilary.c densetosparse, densetosparse_ROWMAJOR')],
    obs=['every store to caller memory during a call'])
add('C11', 'All memory accesses stay within live blocks',
    'Every read and write the library makes lies inside a live block it allocated, its own stack and constants, or an array the caller passed, within the extent implied by the problem dimensions. This holds for every problem shape, including all-zero rows and columns, no equalities, one variable, empty columns and custom ordering, and on every fault path; no released block is used again.',
    [I, H, F, S], 'all problem shapes and sparsity patterns, entry points, orderings, histories and allocation faults',
    'A stray access by one element usually hits allocator padding and changes nothing in a test; many are reached only for special sparsity patterns or failure paths.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/ldl.c', 'src/amd_order.c', 'src/amd_1.c', 'src/amd_2.c'], [('sizes of workspaces', 'src/qpSWIFT.c QP_SETUP'), ('fill of the factor', 'src/ldl.c LDL_symbolic'), ('ordering workspace size', 'src/amd_order.c')],
    obs=['every access against the map of live blocks'])
add('C12', 'Verbosity and output failures never change a result',
    'At verbosity zero a call writes nothing to the standard output; at any other verbosity the results are bit for bit those of the silent run. Failing, short or closed output leaves status, results and memory as they would be otherwise. What is printed for a solve states the values of that solve.',
    [C, F, H], 'all verbosity settings at any point of a history, output that fails, truncates or stops at any write, interleaved with other clients',
    'Tests run with one verbosity and a working output stream and never compare runs.',
    ['src/qpSWIFT.c', 'include/GlobalOptions.h'], [('printing guarded by the verbosity setting', 'src/qpSWIFT.c QP_SOLVE')],
    obs=['bytes written to stdout per call', 'results with and without printing'])
add('C13', 'A Python solve uses the arguments as they were when it was called',
    'The result of a Python solver call is bit for bit that of the core solver on the array contents at the moment of the call. Changing, resizing or releasing the argument arrays, or calling the solver again from other threads, while the solve runs with the interpreter lock released does not alter its result. The arguments themselves are unchanged by the call and the results are new independent objects.',
    [S, H, I], 'all points at which other Python threads run during the call and what they do to the arguments; all argument layouts and types',
    'The tests call from one thread; the lock is released in a window nobody else uses.',
    ['python/pyqpSWIFT.c'], [('arguments copied before the lock is released', 'python/pyqpSWIFT.c getptr and the conversions'), ('lock released only around the solve', 'python/pyqpSWIFT.c Py_BEGIN_ALLOW_THREADS')],
    obs=['returned dictionary', 'argument arrays'])
add('C14', 'Other Python threads progress during a solve, and the lock is always held',
    'While one thread is inside the numerical solve, other Python threads can run and finish their work, so a long solve does not freeze the interpreter. Every use of the interpreter or of Python objects by the module happens while it holds the interpreter lock, and the lock is held again when the call returns, on every path.',
    [S, F, H], 'all schedules of up to four Python threads, all exits of the call including failures',
    'Tests have one thread, so neither a never-released lock nor a use of the interpreter without it can show.',
    ['python/pyqpSWIFT.c'], [('release and re-acquire around the solve', 'python/pyqpSWIFT.c Py_BEGIN_ALLOW_THREADS / Py_END_ALLOW_THREADS')],
    obs=['interpreter calls with and without the lock', 'progress of other threads during a solve'])
add('C15', 'Python calls leave references and memory balanced on every path',
    'After any Python solver call - successful, rejected for any reason, or failed - and release of its result, the reference counts of all arguments and of shared singletons, and the amount of memory in use, are what they were before. No object is released more often than acquired, and no call, however wrong its arguments, crashes the interpreter or ends without either a result or an exception.',
    [H, F, I], 'all call histories with valid and invalid arguments and options, and failures injected at every interpreter or memory call',
    'A leaked or stolen reference changes no result of a single call; the tests never count references and provoke few of the error exits.',
    ['python/pyqpSWIFT.c'], [('conversion and release of arguments', 'python/pyqpSWIFT.c'), ('clean-up before every error return', 'python/pyqpSWIFT.c')],
    obs=['reference counts', 'memory ledger'])
add('C16', 'Memory failures in the Python module surface as Python exceptions',
    'If memory runs out anywhere during a Python solver call, the call raises an exception, or returns a correct result where it could do without; it never crashes the interpreter, returns nothing without an exception, returns a result with an exception pending, or returns wrong values. Later calls work normally.',
    [F, H], 'a failure of any allocation made by the module, the solver or the interpreter on its behalf during a call',
    'Memory never runs out in the tests, and each failure point is its own path.',
    ['python/pyqpSWIFT.c', 'src/qpSWIFT.c'], [('checks of every allocation and object creation', 'python/pyqpSWIFT.c')],
    obs=['result or exception of the call', 'survival of the interpreter'])
add('C17', 'Failed MATLAB calls leave nothing behind and later calls are right',
    'A call through the MATLAB gateway that is aborted by an error - bad arguments, bad options or memory exhaustion at any point - leaves no lasting effect: later calls in the session return what they would have returned in a fresh session. A call with invalid arguments or options is rejected with an error. A successful call returns bit for bit the core solver\'s results for the given problem and options, of whatever numeric class the options are, uses no memory after releasing it and leaves none allocated beyond its outputs, and never modifies its arguments.',
    [H, F, I], 'all session histories of valid, invalid and failing calls, with allocation failures at any point',
    'No test compiles or runs the gateway at all.',
    ['matlab/qpSWIFT_mex.c', 'src/qpSWIFT.c'], [('argument checks and error aborts', 'matlab/qpSWIFT_mex.c'), ('allocation through the host', 'include/GlobalOptions.h MATLAB_MEX_FILE')],
    obs=['outputs of each call', 'host memory ledger', 'printed text'])
add('C18', 'Simulink blocks are stateless between steps and report setup failures',
    'At every step the outputs of a block are those the core solver gives for the inputs of that very step, whatever earlier steps, other block instances or threads did and whether or not the input signals lie contiguously in memory. If the solver could not be set up, the block reports the failure status with zero outputs rather than a solution. A step leaves nothing allocated, prints nothing and writes every output, and never modifies its inputs.',
    [H, F, S], 'all step histories of several block instances of both kinds, interleaved, with allocation failures at any point of a step',
    'No test compiles or runs the blocks.',
    ['simulink/qpSWIFT_sfunc.c', 'simulink/qpSWIFT_sfunc_e.c'], [('setup, solve and clean-up in each step', 'simulink/qpSWIFT_sfunc.c mdlOutputs'), ('failure branch', 'simulink/qpSWIFT_sfunc.c mdlOutputs')],
    obs=['output ports after each step', 'allocation ledger'])
# pure functions of their input: stated, not claimed
add('C19', 'Invalid arguments are rejected by the language bindings, consistent ones never',
    'The Python and MATLAB bindings reject arguments whose dimensions or types do not form a consistent problem, and option values outside their documented ranges, with an error instead of a result. A consistent problem with valid options is never rejected. This holds at every moment of a session: after any earlier solved, rejected or aborted calls, with other threads calling at the same time, and under memory exhaustion, which may only turn an accepted call into an out-of-memory error.',
    [I, H, F, S], 'every mix of valid and invalid calls with every kind of wrong argument, in one session or several threads, with a memory failure at any point', 'The argument space is a product of types, shapes and options of which the tests sample none with a history, a fault or a second thread.',
    ['python/pyqpSWIFT.c', 'matlab/qpSWIFT_mex.c'], [('argument validation', 'python/pyqpSWIFT.c method_qpSWIFT; matlab/qpSWIFT_mex.c mexFunction')])
add('C20', 'Every ordering is a permutation that reduces fill, or a reported failure',
    'For every sparsity pattern, whatever memory contains, whichever threads order, factorise or solve at the same time and whichever allocations fail, the fill-reducing ordering returns a permutation of the unknowns or reports the failure, in either case with nothing left allocated and the pattern untouched. The same pattern always gets the same order. The sizes predicted for it, by the symbolic analysis and in a handle, are exactly those of the factor computed in that order; the information returned with it describes the pattern and bounds the factor; and on patterns with known good orderings the factor is never much larger than with those. Patterns that are not valid are refused; unsorted or repeated entries are accepted and reported as such.',
    [I, S, F, H], 'symmetric and unsymmetric patterns of 14 families in every storage, all interleavings of several callers, any failing allocation, any content of reused memory', 'A bijection and a size formula over all patterns cannot be sampled by a handful of fixed problems, and no test orders under a second thread or with failing memory.',
    ['src/amd_order.c', 'src/amd_1.c', 'src/amd_2.c', 'src/amd_aat.c', 'src/amd_valid.c', 'src/amd_preprocess.c', 'src/ldl.c'], [('approximate minimum degree', 'src/amd_2.c'), ('failed workspace', 'src/amd_order.c amd_l_order'), ('symbolic factorisation', 'src/ldl.c LDL_symbolic')],
    obs=['order, status and information after each ordering', 'sizes of the factor', 'allocation ledger'])
add('C21', 'Calls leave the rest of the host process as they found it',
    'Apart from the memory of the handle, the results, and output where it was asked for, a call through any interface changes nothing that belongs to the process: the floating-point mode and trap settings of the calling thread, signal handlers, locale, environment, working directory, random-number state, scheduling and open files are at return what they were at entry. This holds on every path, including failed, aborted and budget-limited calls and calls running at the same time in other threads. Stale exception flags or error codes the caller left behind do not affect a call.',
    [H, S, F, I], 'all histories of calls through the C, Python and MATLAB interfaces, all interleavings, all fault sequences, any ambient state of the calling thread',
    'No test looks at anything but results; a changed rounding or flush mode, handler or locale shows only in the host\'s own later computations.',
    ['src/qpSWIFT.c', 'src/Auxilary.c', 'src/ldl.c', 'src/timer.c', 'python/pyqpSWIFT.c', 'matlab/qpSWIFT_mex.c'],
    [('entry points', 'include/qpSWIFT.h QP_SETUP, QP_SETUP_dense, QP_SOLVE, QP_CLEANUP, QP_CLEANUP_dense'), ('use of the C library', 'src/Auxilary.c; src/timer.c')],
    obs=['floating-point control words at entry and return of each call', 'calls into the C library that change process state'])
add('C22', 'All entry points and storage orders pose the same problem',
    'A problem handed over as compressed columns, as a dense row-major array or as a dense column-major array leads to the same handle: every later solve, with any history of budgets, settings, custom ordering and unused equality constraints, returns bit for bit the same point, multipliers, statistics, iteration counts and status. This holds for every kind of problem, including those that end at the iteration limit, are infeasible or unbounded or break down numerically, and under any interleaving with other handles.',
    [I, H, S], 'all problems without explicitly stored zeros, all histories of solves and settings, all pairs of entries, all interleavings',
    'The tests use one entry per fixed problem, mostly the sparse one, solve once with the default settings and compare to a loose tolerance.',
    ['src/qpSWIFT.c', 'src/Auxilary.c'],
    [('sparse setup', 'src/qpSWIFT.c QP_SETUP'), ('dense setup', 'src/qpSWIFT.c QP_SETUP_dense'), ('conversion of dense arrays', 'src/Auxilary.c densetosparse, densetosparse_ROWMAJOR')],
    obs=['results, statistics and status after each solve'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
