"""Builds the simulators from /repo's working tree into /verif/build (ignored by git)."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
OUT = os.environ.get('QPSIM_BUILD', os.path.join(HERE, 'build'))
REPO = os.environ.get('QPSIM_REPO', '/repo')
CC, CXX = '/usr/bin/gcc', '/usr/bin/g++'

REDIR = '''malloc free calloc realloc aligned_alloc posix_memalign strdup memcpy memmove memset memcmp qsort
printf vprintf fprintf vfprintf puts fputs putchar fputc putc fwrite fflush write perror clock_gettime gettimeofday time clock
timespec_get usleep nanosleep rand random rand_r srand drand48 getenv getpid exit abort pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock
srand48 srandom setenv unsetenv putenv chdir umask atexit setvbuf setbuf mallopt raise kill alarm setitimer setrlimit
sched_setscheduler sched_setaffinity setpriority nice mlockall system remove unlink rename sigprocmask pthread_sigmask signal sigaction setlocale uselocale fopen open close fclose dup2 freopen setlinebuf prctl
pthread_setaffinity_np pthread_setschedparam pthread_setcancelstate pthread_setname_np
vsnprintf snprintf sprintf strcpy strncpy strcat strlen pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_once sched_yield'''.split()
LIBFLAGS = ['-O2', '-g', '-fsanitize=thread', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-pic', '-fno-stack-protector', '-fsanitize=bounds', '-fsanitize-trap=bounds', '-w']

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]

def cached(srcs, deps, flags, cc, name):
    """compiles one source; the key is the content of everything it can include"""
    d = os.path.join(OUT, 'cache'); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, '%s-%s.o' % (name, digest([srcs] + deps, (cc, flags))))
    if not os.path.exists(o):
        tmp = o + '.%d.tmp' % os.getpid()
        run([cc] + flags + ['-c', srcs, '-o', tmp])
        os.replace(tmp, o)
    return o

def repo_headers():
    return sorted(glob.glob(REPO + '/include/*.h')) + sorted(glob.glob(REPO + '/src/*.h'))

def rename_args(names_present):
    a = []
    for n in REDIR:
        a += ['--redefine-sym', '%s=sim_%s' % (n, n)]
    a += ['--redefine-sym', '__assert_fail=sim_assert_fail']
    return a

def undefined(o):
    return set(l.split()[-1] for l in run(['nm', '-u', o]).splitlines() if l.strip())

def defined(o):
    return set(l.split()[-1] for l in run(['nm', '--defined-only', '-g', o]).splitlines() if l.strip())

def lib_sources():
    # the sources of the library are those its own build names; any other .c file in src is not part of it
    names = sorted(glob.glob(REPO + '/src/*.c'))
    return names

KNOWN = set('sqrt fabs pow exp log floor ceil fmax fmin sin cos hypot fma isnan isinf __isnan __isinf stdout stderr stdin __errno_location _GLOBAL_OFFSET_TABLE_'.split())

def has_tls(o):
    return any(' TLS ' in l and not l.rstrip().endswith(' UND') for l in run(['readelf', '-sW', o]).splitlines())

def build_lib(kind, extra_sources, extra_flags, wrap=True, stubs=SIM + '/stubs'):
    """the library of /repo (and its adapters) as one relocatable object whose outside world is the simulator"""
    flags = LIBFLAGS + ['-I' + REPO + '/include', '-I' + stubs] + extra_flags
    deps = repo_headers() + sorted(glob.glob(stubs + '/*.h'))
    jobs = [(s, [], os.path.basename(s)[:-2]) for s in lib_sources()] + extra_sources
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: cached(j[0], deps, flags + j[1], CC, kind + '-' + j[2]), jobs))
    d = os.path.join(OUT, kind); os.makedirs(d, exist_ok=True)
    wobjs = []
    inc = ['-O2', '-g', '-std=c++17', '-w', '-fno-pic', '-I' + REPO + '/include', '-I' + SIM] + extra_flags
    # the parts of a solve, and the calls an adapter makes
    for names, flag, need in ([(['kktsolve_1', 'kktsolve_2', 'LDL_numeric'], [], True)] if wrap else []) + ([(['QP_SETUP', 'QP_SETUP_dense', 'QP_SOLVE'], ['-DADAPTER'], False)] if extra_sources else []):
        try:
            cross = {n: [o for o in objs if n in undefined(o)] for n in names}
            owner = {n: [o for o in objs if n in defined(o)] for n in names}
            if all((cross[n] or not need) and len(owner[n]) == 1 for n in names):
                wobj = cached(SIM + '/wrap.cpp', deps + [SIM + '/core.h'], inc + flag, CXX, kind + '-wrap' + ''.join(flag))
                new = []
                for i, o in enumerate(objs):
                    a = [x for n in names if o in cross[n] for x in ('--redefine-sym', '%s=simwrap_%s' % (n, n))]
                    if a:
                        t = os.path.join(d, 'w%d%d.o' % (len(wobjs), i))
                        run(['objcopy'] + a + [o, t]); o = t
                    new.append(o)
                objs = new; wobjs.append(wobj)
        except BuildError:
            pass
    raw, lib = os.path.join(d, 'raw.o'), os.path.join(d, 'lib.o')
    run(['ld', '-r', '-o', raw] + objs)
    run(['objcopy'] + rename_args(None) + ['--rename-section', '.bss=libbss,alloc', '--rename-section', '.data=libdata', raw, lib])
    unk = [u for u in undefined(lib) if not (u.startswith('sim_') or u.startswith('simwrap_') or u.startswith('__tsan_') or u.startswith('mx') or u.startswith('mex') or u in KNOWN)]
    # thread-local storage needs real threads
    tls = has_tls(lib) or any(u.startswith('pthread_') for u in unk)
    if tls:
        t = os.path.join(d, 'threads.c'); open(t, 'w').write('int sim_use_threads = 1;\n')
        run([CC, '-c', t, '-o', t[:-2] + '.o'])
        return lib, wobjs + [t[:-2] + '.o'], sorted(unk)
    return lib, wobjs, sorted(unk)

def build_core():
    deps = repo_headers() + sorted(glob.glob(SIM + '/*.h')) + sorted(glob.glob(SIM + '/stubs/*.h'))
    inc = ['-O2', '-g', '-std=c++17', '-w', '-fno-pic', '-I' + REPO + '/include', '-I' + SIM, '-I' + SIM + '/stubs']
    blocks = [(REPO + '/simulink/qpSWIFT_sfunc.c', ['-DSIMBLK(x)=simblk##x'], 'sfunc'),
              (REPO + '/simulink/qpSWIFT_sfunc_e.c', ['-DSIMBLK(x)=simblke##x'], 'sfunc_e')]
    lib, w, unk = build_lib('core', blocks, [])
    with cf.ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(lambda n: cached(SIM + '/%s.cpp' % n, deps, inc, CXX, n), ['core', 'problem', 'harness', 'qpsim']))
    exe = os.path.join(OUT, 'qpsim')
    run([CXX, '-no-pie', '-o', exe + '.tmp'] + objs + w + [lib, '-lpthread', '-lm', '-Wl,--unresolved-symbols=report-all'])
    os.replace(exe + '.tmp', exe)
    return exe, dict(timed_regions=any('-wrap' in x for x in w), real_threads=any('threads' in x for x in w), unsimulated_imports=unk)

def build_mex():
    deps = repo_headers() + sorted(glob.glob(SIM + '/*.h')) + sorted(glob.glob(SIM + '/stubs/mex/*'))
    m = ['-DMATLAB_MEX_FILE', '-I' + SIM + '/stubs/mex']
    inc = ['-O2', '-g', '-std=c++17', '-w', '-fno-pic', '-I' + REPO + '/include', '-I' + SIM]
    lib, w, unk = build_lib('mex', [(REPO + '/matlab/qpSWIFT_mex.c', [], 'mexgate')], m, stubs=SIM + '/stubs/mex', wrap=False)
    with cf.ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(lambda n: cached(SIM + '/%s.cpp' % n, deps, inc + (m if n == 'mexsim' else []), CXX, n), ['core', 'problem', 'harness', 'mexsim']))
    exe = os.path.join(OUT, 'mexsim')
    run([CXX, '-no-pie', '-o', exe + '.tmp'] + objs + w + [lib, '-lpthread', '-lm', '-Wl,--unresolved-symbols=report-all'])
    os.replace(exe + '.tmp', exe)
    return exe, dict(real_threads=any('threads' in x for x in w), unsimulated_imports=unk)

def python_paths():
    import sysconfig
    inc = sysconfig.get_paths()['include']; ver = sysconfig.get_config_var('LDVERSION'); libdir = sysconfig.get_config_var('LIBDIR')
    sys.path.append('/usr/lib/python3/dist-packages')
    import numpy
    return inc, numpy.get_include(), libdir, 'python' + ver

def thunks(ext_undef, npinc, libpython):
    """assembly: every function of the C API the extension calls first passes a gate of the simulator"""
    import re
    special = set('PyEval_SaveThread PyEval_RestoreThread PyEval_ReleaseThread PyEval_AcquireThread PyGILState_Ensure PyGILState_Release PyGILState_Check PyThread_allocate_lock PyThread_free_lock PyThread_acquire_lock PyThread_acquire_lock_timed PyThread_release_lock PyCapsule_GetPointer PyModule_Create2 PyModuleDef_Init'.split())
    funcs = set(l.split()[-1].split('@')[0] for l in run(['nm', '-D', '--defined-only', libpython]).splitlines() if ' T ' in l)
    names = sorted(u for u in ext_undef if u in funcs and u not in special)
    txt = open(npinc + '/numpy/__multiarray_api.h').read()
    idx = {}
    for m in re.finditer(r'#define\s+(\w+)\s*\\\s*\n\s*\(\*\(.*\(\*\)\(.*\)\)\s*\\\s*\n\s*PyArray_API\[(\d+)\]', txt): idx[int(m.group(2))] = m.group(1)
    if len(idx) < 100 or 'PyDataMem_SetHandler' not in idx.values(): raise BuildError('the API table of numpy was not understood')
    o = ['.text']
    def gate(label, namelabel, jump):
        o.append('.globl %s\n.type %s,@function\n%s:\n push %%rbp\n mov %%rsp,%%rbp\n push %%rdi\n push %%rsi\n push %%rdx\n push %%rcx\n push %%r8\n push %%r9\n push %%rax\n push %%r10\n sub $128,%%rsp' % (label, label, label))
        for i in range(8): o.append(' movups %%xmm%d,%d(%%rsp)' % (i, 16 * i))
        o.append(' lea %s(%%rip),%%rdi\n call pysim_gate' % namelabel)
        for i in range(8): o.append(' movups %d(%%rsp),%%xmm%d' % (16 * i, i))
        o.append(' add $128,%rsp\n pop %r10\n pop %rax\n pop %r9\n pop %r8\n pop %rcx\n pop %rdx\n pop %rsi\n pop %rdi\n pop %rbp\n ' + jump)
    for n in names: gate('simpy_' + n, '.Ln_' + n, 'jmp ' + n + '@PLT')
    ks = sorted(idx)
    for j, k in enumerate(ks): gate('simnp_%d' % k, '.Lp_%d' % k, 'jmp *np_real+%d(%%rip)' % (8 * j))
    o.append('.section .rodata')
    for n in names: o.append('.Ln_%s: .asciz "%s"' % (n, n))
    for k in ks: o.append('.Lp_%d: .asciz "%s"' % (k, idx[k]))
    o.append('.balign 8\n.globl np_nfun\nnp_nfun: .long %d\n.balign 8\n.globl np_funidx\nnp_funidx:' % len(ks))
    o += [' .long %d' % k for k in ks]
    o.append('.data\n.balign 8\n.globl np_thunks\nnp_thunks:'); o += [' .quad simnp_%d' % k for k in ks]
    o.append('.globl np_real\nnp_real: .zero %d\n.section .note.GNU-stack,"",@progbits\n' % (8 * len(ks)))
    inv = {v: k for k, v in idx.items()}
    return '\n'.join(o), names, sorted(x for x in special if x in ext_undef), inv['PyDataMem_SetHandler']

def build_py():
    inc_, npinc, libdir, libname = python_paths()
    libpython = os.path.join(libdir, 'lib%s.so' % libname)
    if not os.path.exists(libpython): libpython = '/usr/lib/x86_64-linux-gnu/lib%s.so' % libname
    if not os.path.exists(libpython): raise BuildError('libpython is missing')
    deps = repo_headers() + sorted(glob.glob(SIM + '/*.h'))
    lib, w, unk = build_lib('py', [], [], wrap=False)
    d = os.path.join(OUT, 'py')
    # the extension: the .c files of python/ that its own build names
    ext = []
    for src in sorted(glob.glob(REPO + '/python/*.c')):
        ext.append(cached(src, deps + sorted(glob.glob(REPO + '/python/*.h')), [f for f in LIBFLAGS if f != '-fno-pic'] + ['-fPIC', '-I' + REPO + '/include', '-I' + inc_, '-I' + npinc], CC, 'pyext-' + os.path.basename(src)[:-2]))
    raw, eo = os.path.join(d, 'extraw.o'), os.path.join(d, 'ext.o')
    run(['ld', '-r', '-o', raw] + ext)
    asm, names, spec, seth = thunks(undefined(raw), npinc, libpython)
    open(os.path.join(d, 'thunks.s'), 'w').write(asm)
    run([CC, '-c', os.path.join(d, 'thunks.s'), '-o', os.path.join(d, 'thunks.o')])
    a = rename_args(None)
    for n in names + spec: a += ['--redefine-sym', '%s=simpy_%s' % (n, n)]
    run(['objcopy'] + a + [raw, eo])
    if not any('threads' in x for x in w) and has_tls(eo):
        t = os.path.join(d, 'threads.c'); open(t, 'w').write('int sim_use_threads = 1;\n'); run([CC, '-c', t, '-o', t[:-2] + '.o']); w = w + [t[:-2] + '.o']
    inc = ['-O2', '-g', '-std=c++17', '-w', '-fno-pic', '-I' + REPO + '/include', '-I' + SIM, '-DBADKINDS=67', '-DMUTKINDS=12', '-DSET_HANDLER_INDEX=%d' % seth, '-DPYDRIVER="%s/pydriver.py"' % SIM]
    with cf.ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(lambda n: cached(SIM + '/%s.cpp' % n, deps, inc + (['-I' + inc_, '-I' + npinc] if n == 'pysim' else []), CXX, n), ['core', 'problem', 'harness', 'pysim']))
    exe = os.path.join(OUT, 'pysim')
    run([CXX, '-no-pie', '-o', exe + '.tmp'] + objs + w + [os.path.join(d, 'thunks.o'), eo, lib, libpython, '-lpthread', '-lm', '-ldl', '-Wl,--unresolved-symbols=report-all'])
    os.replace(exe + '.tmp', exe)
    eu = [u for u in undefined(eo) if not (u.startswith('sim') or u.startswith('__tsan_') or u.startswith('Py') or u.startswith('_Py') or u in KNOWN or u.startswith('QP_'))]
    return exe, dict(gated_api_functions=len(names) + len(spec), real_threads=any('threads' in x for x in w), unsimulated_imports=sorted(set(unk) | set(eu)))

def build_selftest():
    """a library that misbehaves in every way the simulator claims to notice"""
    deps = sorted(glob.glob(SIM + '/*.h'))
    inc = ['-O2', '-g', '-std=c++17', '-w', '-fno-pic', '-I' + SIM]
    d = os.path.join(OUT, 'selftest'); os.makedirs(d, exist_ok=True)
    raw, lib = cached(SIM + '/faulty.c', deps, [f for f in LIBFLAGS if f != '-O2'] + ['-O1', '-fno-builtin'], CC, 'faulty'), os.path.join(d, 'lib.o')
    run(['objcopy'] + rename_args(None) + ['--rename-section', '.bss=libbss,alloc', '--rename-section', '.data=libdata', raw, lib])
    objs = [cached(SIM + '/%s.cpp' % n, deps, inc, CXX, n) for n in ('core', 'selftest')]
    exe = os.path.join(OUT, 'selftest_sim')
    run([CXX, '-no-pie', '-o', exe + '.tmp'] + objs + [lib, '-lpthread', '-lm'])
    os.replace(exe + '.tmp', exe)
    return exe

if __name__ == '__main__':
    for t in sys.argv[1:] or ['core']:
        print(globals()['build_' + t]())
