# Runs inside the simulated interpreter: carries out the operations of a scenario and judges their results.
import sys, gc, warnings, random
import numpy as np
import _sim
import qpSWIFT
run = qpSWIFT.run
warnings.simplefilter('always')
warnings.showwarning = lambda *a, **k: _sim.pause()      # a hook of the program: Python code that runs inside a call
F8 = np.dtype(np.float64)
NAMES = ('c', 'h', 'P', 'G', 'A', 'b')
BAD, MUT = 46, 12
gc.disable()

class Slot: pass

class Key:
    """a dictionary key that meets the lookup of an option and runs Python code"""
    def __init__(self, name): self.h = hash(name)
    def __hash__(self): return self.h
    def __eq__(self, other): _sim.pause(); return self is other

class Whole(int): pass
class Settings(dict): pass

class Stubborn(np.ndarray):
    """cannot be copied: numpy's own conversions fail"""
    def __array_finalize__(self, other):
        if isinstance(other, Stubborn): raise ValueError('no copies')

def rng(*seed):
    return random.Random(hash(tuple(int(x) for x in seed)))

def lay_out(a, r, plain):
    """the same numbers in another memory layout or type"""
    if plain: return a.copy()
    k = r.randrange(12)
    if k == 0: return a.astype('<f4')
    if k == 1: return a.astype('>f8')
    if k == 2: return np.asfortranarray(a)
    if k == 3:
        z = np.zeros(tuple(2 * s for s in a.shape)); v = z[tuple(slice(None, None, 2) for _ in a.shape)]; v[...] = a; return v
    if k == 4:
        z = np.zeros(a.shape); v = z[tuple(slice(None, None, -1) for _ in a.shape)]; v[...] = a; return v
    if k == 5:
        b = a.copy(); b.setflags(write=False); return b
    if k == 6: return a.astype(np.longdouble)
    if k == 7:
        buf = bytearray(a.nbytes + 1); v = np.frombuffer(buf, dtype=np.float64, offset=1).reshape(a.shape) if a.size else a.copy(); v[...] = a; return v
    if k == 8 and a.ndim == 2:
        return a.view(np.matrix)
    if k == 9: return a.astype('<f2')
    if k == 10:
        z = np.zeros((3,) + a.shape); z[1] = a; return z[1]
    if k == 11:
        v = a.copy().view(); v.setflags(write=False); return v
    return a.copy()

def make_arrays(prob, lay):
    n, m, p, P, G, A, c, h, b = _sim.problem(prob)
    d = dict(c=np.frombuffer(c), h=np.frombuffer(h), P=np.frombuffer(P).reshape(n, n), G=np.frombuffer(G).reshape(m, n))
    r = rng(lay, 7)
    if p: d['A'] = np.frombuffer(A).reshape(p, n); d['b'] = np.frombuffer(b)
    elif lay and r.random() < 0.15: d['A'] = np.zeros((0, n)); d['b'] = np.zeros(0)
    return {k: lay_out(d[k], r, lay == 0 or r.random() < 0.5) for k in d}

def make_opts(seed, out):
    r = rng(seed, 11); o = {}
    if seed:
        if r.random() < 0.6: o['MAXITER'] = fresh(r.choice([1, 2, 3, 4, 5, 7, 10, 50, 100, 199]))
        if r.random() < 0.5: o['ABSTOL'] = fresh(r.choice([1e-3, 1e-8, 0.5, 1e-6]))
        if r.random() < 0.5: o['RELTOL'] = fresh(r.choice([1e-3, 1e-8, 0.5, 1e-6]))
        if r.random() < 0.3: o['SIGMA'] = fresh(r.choice([0.5, 10.0, 100.0]))
        if r.random() < 0.3: o['VERBOSE'] = r.choice([0, 1, 2])
        if r.random() < 0.2: o['NOSUCHOPTION'] = 3
        w = rng(seed, 12)                       # other values and other types of object that are such a number
        for k in ('MAXITER', 'ABSTOL', 'RELTOL', 'SIGMA', 'VERBOSE'):
            if k in o and w.random() < 0.3:
                if k == 'MAXITER': o[k] = fresh(w.randrange(1, 200))
                elif k == 'SIGMA': o[k] = 10 ** w.uniform(-9, 9)
                elif k != 'VERBOSE': o[k] = w.choice([10 ** w.uniform(-14, 0), 1 - 2.0 ** -53, 5e-324, 1e-300])
                if w.random() < 0.3: o[k] = np.float64(o[k]) if isinstance(o[k], float) else Whole(o[k]) if w.random() < 0.6 or o[k] > 1 else bool(o[k])
        if w.random() < 0.3: o = {''.join(list(k)): o[k] for k in w.sample(sorted(o), len(o))}     # keys that are equal, not identical, in another order
        if w.random() < 0.15: o = Settings(o)
        if r.random() < 0.15:
            o = dict([(Key(r.choice(['MAXITER', 'ABSTOL', 'RELTOL', 'SIGMA', 'VERBOSE', 'OUTPUT'])), 1)] + list(o.items()))
    if out >= 0: o['OUTPUT'] = out
    if out == -2: o['OUTPUT'] = -5
    if 'OUTPUT' in o and type(o) is dict and rng(seed, 14).random() < 0.3: o['OUTPUT'] = Whole(o['OUTPUT'])      # a number that is not shared by the whole interpreter
    return o if o or seed % 2 else None

def consistent(a):
    try:
        n, m = a['c'].shape[0], a['h'].shape[0]
        if a['c'].ndim != 1 or a['h'].ndim != 1 or a['P'].shape != (n, n) or a['G'].shape != (m, n) or n < 1 or m < 1: return False
        if ('A' in a) != ('b' in a): return False
        if 'A' in a and (a['b'].ndim != 1 or a['A'].shape != (a['b'].shape[0], n)): return False
        return all(x.dtype.kind == 'f' for x in a.values())
    except Exception:
        return False

def invoke(a, opts, r):
    """positional or by name"""
    x = r.random()
    if x < 0.4 and 'A' in a:
        t = (a['c'], a['h'], a['P'], a['G'], a['A'], a['b'])
        return run(*t) if opts is None else run(*t, opts)
    kw = {}
    if opts is not None: kw['opts'] = opts
    if x < 0.7:
        if 'A' in a: kw['A'] = a['A']; kw['b'] = a['b']
        return run(a['c'], a['h'], a['P'], a['G'], **kw)
    kw.update(a)
    return run(**kw)

def fresh(x):
    """an object nobody else refers to (no shared constant)"""
    if isinstance(x, float): return float(repr(x))
    if isinstance(x, bool): return x
    if isinstance(x, int): return int(str(x))
    if isinstance(x, str): return ''.join([x, x])
    return x

# calls that no reading of the documentation accepts
INVALID = set(range(0, 21)) | {23, 24, 25, 26, 27, 29, 30, 36, 37, 39, 40, 43, 57, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56} | set(range(58, 67))

def bad_call(a, kind, r, says=None):
    a = dict(a); o = {}
    k = kind; c, h, P, G = a['c'], a['h'], a['P'], a['G']
    if k == 0:
        if says is not None: says.append(True)
        return run()
    if k == 1: a['c'] = [1.0]
    elif k == 2: a['c'] = np.ones(c.size, dtype=int)
    elif k == 3: a['c'] = np.ones((c.size, 1))
    elif k == 4: a['h'] = np.ones(h.size + 1)
    elif k == 5: a['G'] = np.ones((h.size + 1, c.size))
    elif k == 6: a['P'] = np.ones((c.size, c.size + 1))
    elif k == 7: a['A'] = np.ones((2, c.size + 1)); a['b'] = np.ones(2)
    elif k == 8: a['A'] = np.ones((2, c.size)); a['b'] = np.ones((2, 1))
    elif k == 9: o = [1]
    elif k == 10: o['MAXITER'] = fresh(0)
    elif k == 11: o['MAXITER'] = fresh(200)
    elif k == 12: o['MAXITER'] = fresh(2 ** 70)
    elif k == 13: o['MAXITER'] = fresh(1.5)
    elif k == 14: o['ABSTOL'] = fresh(2.0)
    elif k == 15: o['ABSTOL'] = fresh(1)
    elif k == 16: o['RELTOL'] = fresh(-1.0)
    elif k == 17: o['SIGMA'] = fresh(0.0)
    elif k == 18: o['SIGMA'] = fresh('x')
    elif k == 19: o['VERBOSE'] = fresh(-1)
    elif k == 20: o['VERBOSE'] = fresh(2 ** 70)
    elif k == 21: o['OUTPUT'] = fresh(-1)
    elif k == 22: o['OUTPUT'] = fresh(2 ** 70)
    elif k in (23, 24):
        if says is not None: says.append(True)
        return run(c, h, P, G, G, h, {}, 1) if k == 23 else run(c, h, P, G, nosuch=1)
    elif k == 25: a['A'] = None; a['b'] = None
    elif k == 26: a['c'] = np.array(1.0)
    elif k == 27: a['G'] = np.ones(3)
    elif k == 28: o['MAXITER'] = fresh(True)
    elif k == 29: a['P'] = P.astype(complex)
    elif k == 30: a['h'] = h.astype(object)
    elif k == 31: a.pop('b', None); a['A'] = np.ones((1, c.size))
    elif k == 32: a['h'] = np.zeros(0); a['G'] = np.zeros((0, c.size))
    elif k == 33: a = dict(c=np.zeros(0), h=h, P=np.zeros((0, 0)), G=np.zeros((h.size, 0)))
    elif k == 34: a = dict(c=np.zeros(0), h=np.zeros(0), P=np.zeros((0, 0)), G=np.zeros((0, 0)), A=np.zeros((2, 0)), b=np.zeros(2))
    elif k == 35: a['G'] = np.zeros((0, 0)); a['h'] = np.zeros((0, 3))
    elif k == 36: a['P'] = np.zeros(c.size, dtype=[('a', 'f8'), ('b', 'f8')])
    elif k == 37: a['G'] = np.full((h.size, c.size), 'x')
    elif k == 38: o = {1: 2, (): 3, 'MAXITER': fresh(3)}
    elif k == 39: o['ABSTOL'] = fresh(float('nan'))
    elif k == 40: o['RELTOL'] = float('inf')
    elif k == 41: o['MAXITER'] = np.int64(7)
    elif k == 42: a['A'] = np.ones((c.size + 3, c.size)); a['b'] = np.ones(c.size + 3)     # dependent, more rows than unknowns
    elif k == 43: a['P'] = np.zeros((c.size,) * 3)
    elif k == 44: a['c'] = c.view(Stubborn); a['G'] = G.view(Stubborn)
    elif k == 45: a = dict(c=np.zeros(1), h=np.zeros(0), P=np.ones((1, 1)), G=np.zeros((0, 1)), A=np.ones((1, 1)), b=np.ones(1))
    elif k == 46: a['h'] = h.reshape(1, -1)
    elif k == 47: a['P'] = np.ones((c.size + 1, c.size))
    elif k == 48: a['G'] = np.ones((h.size, c.size + 1))
    elif k == 49: a['c'] = np.append(c, 1.0)
    elif k == 50: a['A'] = np.ones((2, c.size)); a['b'] = np.ones(3)
    elif k == 51: a['A'] = np.ones((2, c.size)); a['b'] = np.ones(2, dtype=int)
    elif k == 52: a['A'] = np.ones((2, c.size), dtype=bool); a['b'] = np.ones(2)
    elif k == 53: a['A'] = np.ones(c.size); a['b'] = np.ones(1)
    elif k == 54: o['ABSTOL'] = fresh(0.0)
    elif k == 55: o['MAXITER'] = fresh(-3)
    elif k == 56: o['ABSTOL'] = fresh(1.0)
    elif k == 57: a['P'] = P.astype(np.int64); a['G'] = G.astype(int)
    elif 58 <= k <= 61:                                # a matrix of another shape: transposed, flattened, halved, with a row or a column more or fewer
        w = 'G' if k == 58 else 'P' if k == 59 else r.choice('GP') if k == 60 or 'A' not in a or a['A'] is None else 'A'
        x = a[w]; R, K = (h if w == 'G' else c if w == 'P' else a['b']).size, c.size
        sh = [(K, R), (K, R), (1, R * K), (R * K, 1), (R - 1, K), (R, K - 1), (R + 1, K - 1), (R - 1, K + 1), (2 * R, K), (K, K), (R + 1, K + 1), (R, K, 1), (1, R, K), (R * K,)]
        if K % 2 == 0: sh.append((2 * R, K // 2))
        if R % 2 == 0: sh.append((R // 2, 2 * K))
        e = r.choice([e for e in sh if e != (R, K) and min(e) > 0])    # not what the vectors say
        a[w] = np.resize(np.asfortranarray(x), e) if r.random() < 0.5 else np.asfortranarray(np.resize(x, e))
    elif k in (62, 63):                                # a vector that is shorter, or longer by more than one
        w = 'c' if k == 62 else 'h' if 'b' not in a or a['b'] is None or r.random() < 0.5 else 'b'
        t = a[w].size; no = {d for x in a.values() if x is not None for d in x.shape}
        a[w] = np.resize(a[w], r.choice([k for k in [2 * t, 3 * t, t + 2, 4 * t + 1, t + 17, 9 * t + 64] + list(range(1, t)) if k not in no]))
    elif k in (64, 65, 66):                            # an option just or far outside its range, or of a type that is not a number
        w = r.choice(['MAXITER', 'ABSTOL', 'RELTOL', 'SIGMA', 'VERBOSE'])
        big = [1e-9, 1e-3, 0.5, 0.999, 1.0, 1.5, 20.0, 1e9, 1e300, float('inf')]; i = r.choice([1, 2, 57, 10 ** 4, 2 ** 31, 2 ** 32 + 5, 2 ** 40, 2 ** 62])
        if k == 66: v = r.choice([None, 'x', b'1', [1], (1,), {}, 1j, np.ones(1), np.ones(3), np.zeros(()), object, '5'] + ([0.5, 1.0, 3.0] if w in ('MAXITER', 'VERBOSE') else [1, 0, 7]))
        elif w == 'MAXITER': v = r.choice([-i, 199 + i, 0])
        elif w == 'VERBOSE': v = -i
        elif w == 'SIGMA': v = r.choice([0.0, -0.0, float('nan'), -r.choice(big)])
        else: v = r.choice([0.0, -0.0, float('nan'), -r.choice(big), 1.0 + r.choice(big), 1.0, 1 + 2.0 ** -52])
        o = {q: fresh(x) for q, x in (('MAXITER', 50), ('ABSTOL', 1e-5), ('RELTOL', 1e-5), ('SIGMA', 10.0), ('VERBOSE', 0), ('OUTPUT', 2)) if r.random() < 0.3}; o[w] = fresh(v)
    if o and type(o) is dict and k < 64 and r.random() < 0.3:
        if k not in (16, 40): o['RELTOL'] = fresh(1e-5)
        o['OUTPUT'] = o.get('OUTPUT', 2)
    if says is not None: says.append(k in INVALID)
    if k == 21 and r.random() < 0.6:
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            return run(opts=o, **a)
    return run(opts=o, **a) if o else run(**a)

def mutate(s, kind, r):
    a = s.a
    s.version += 1
    def over(x, f):
        if not x.flags.writeable and isinstance(x.base, np.ndarray) and x.base.shape == x.shape: x = x.base      # a read-only view of an array that its owner goes on using
        lock = not x.flags.writeable and x.flags.owndata
        if lock: x.setflags(write=True)
        if x.flags.writeable and x.size: x[...] = f(x)
        if lock: x.setflags(write=False)
    if kind == 0: over(a['c'], lambda x: r.uniform(-50, 50))
    elif kind == 1: [over(x, lambda x: np.nan) for x in a.values()]
    elif kind == 2: over(a['h'], lambda x: x + 1)
    elif kind == 3: over(a['P'], lambda x: 0)
    elif kind in (4, 5):
        for k in ([r.choice(sorted(a))] if kind == 4 else sorted(a)):
            x = a[k]
            try: x.resize((1,) * x.ndim if kind == 4 else tuple(4 * d + 3 if d < 20 else max(d // 8, 1) for d in x.shape), refcheck=False)
            except ValueError: over(x, lambda x: 1e9)
    elif kind == 6:
        try: a['G'].shape = (a['G'].size,)
        except Exception: over(a['G'], lambda x: -x)
    elif kind == 7:
        s.a = make_arrays(s.prob, r.randrange(1 << 20)); a.clear(); s.fresh += 1
    elif kind == 8:
        for o in s.opts: o.clear(); o['MAXITER'] = 1; o['OUTPUT'] = 0
    elif kind == 9: over(a['c'], lambda x: np.array([r.uniform(-2, 2) for _ in range(x.size)]).reshape(x.shape))
    elif kind == 10:
        for k in ('G', 'h', 'b'):
            if k in a: over(a[k], lambda x: x[::-1].copy())
    elif kind == 11: over(a['h'], lambda x: -1e3)

def state(a): return {k: (x.tobytes(), x.shape, x.strides, x.dtype.str, x.flags.writeable) for k, x in a.items()}
def numbers(a): return {k: np.array(x, dtype=np.float64, order='C').view(np.ndarray).copy() for k, x in a.items()}

def prepare(sc):
    global SC, OPS, SLOTS, RECS, KEPT, COUNT, BASE, SINGLE
    SC = sc; OPS = {i: (i, c, w) for i, c, w in sc['ops']}; SLOTS = {}; RECS = []; KEPT = []; COUNT = {}
    for i, (p, l) in sc['slots'].items():
        s = Slot(); s.prob = p; s.lay = l; s.a = make_arrays(p, l); s.version = 0; s.opts = []; s.fresh = 0; SLOTS[i] = s
    SINGLE = sc['clients'] == 1
    BASE = {i: {k: sys.getrefcount(x) for k, x in s.a.items()} for i, s in SLOTS.items()}
    global BASEF8
    gc.collect(); gc.freeze()
    BASEF8 = None

def perform(i, w, a, opts, armed, says=None):
    r = rng(i, 3)
    _sim.arm(i, *armed)
    if w[0] == 'call': return invoke(a, opts, r)
    return bad_call(a, int(w[2]), r, says)

def rehearse(i):
    _, _, w = OPS[i]
    if w[0] not in ('call', 'bad'): return
    a = make_arrays(SLOTS[int(w[1])].prob, SLOTS[int(w[1])].lay)
    try: perform(i, w, a, make_opts(int(w[2]), int(w[3])) if w[0] == 'call' else None, (-1, 0, -1, 0))
    except Exception: pass
    COUNT[i] = _sim.done()[:4:2]

def armed(i):
    out = []
    for kind, k in (('py', 0), ('alloc', 1)):
        f = SC['faults'].get((i, kind))
        if f is None: out += [-1, 0]; continue
        n = COUNT[i][k] if i in COUNT else (40, 90)[k]
        out += [1 + f[0] % n, f[1]] if n else [-1, 0]
    return tuple(out)

def attempt(i, w, a, opts, arm):
    try: perform(i, w, a, opts, arm)
    except Exception: pass

def window(i, w, a, opts, arm):
    """what one more such call leaves allocated"""
    gc.collect(); f0 = sys.getrefcount(F8); _sim.mark()
    attempt(i, w, a, opts, arm)
    gc.collect()
    x = _sim.net(); f1 = sys.getrefcount(F8)
    return x, f1 - f0

def balance(i, w, a, opts, arm):
    n = []
    window(i, w, a, opts, arm)       # the first one also settles what the call before it left behind
    for _ in range(4):
        n.append(window(i, w, a, opts, arm))
        if n[-1] == (0, 0): return
        if n[-1][0] <= 0 and n[-1][1] == 0: return
    if all(x[0] > 0 for x in n): _sim.violate('pyleak', 'op %d (%s): every such call leaves %s blocks of memory allocated' % (i, ' '.join(w), [x[0] for x in n]))
    elif SINGLE and all(x[1] != 0 for x in n): _sim.violate('pyref', 'op %d (%s): every such call changes the reference count of a shared type object by %s' % (i, ' '.join(w), [x[1] for x in n]))

def do_op(i):
    _, cl, w = OPS[i]
    k = w[0]
    if k == 'gc': gc.collect(); return
    if k == 'work':
        t = 0
        for j in range(int(w[1])): t += j * j
        _sim.count('work_units', int(w[1])); return
    s = SLOTS[int(w[1])]
    if k == 'drop':
        s.version += 1; s.fresh += 1; s.a.clear(); s.a = {}; s.opts = []; _sim.count('arguments_dropped'); return
    if not s.a: _sim.count('op_without_arguments'); return
    if k == 'mut': mutate(s, int(w[2]), rng(int(w[3]), 5)); _sim.count('arguments_mutated'); return
    a = dict(s.a); opts = None
    if k == 'call': opts = make_opts(int(w[2]), int(w[3]))
    if opts is not None: s.opts.append(opts)
    arm = armed(i)
    rec = dict(op=i, w=w, valid=k == 'call' and consistent(a), num=numbers(a) if k == 'call' and consistent(a) else None, opts=dict(opts) if opts else {}, single=SINGLE, arm=arm)
    before = state(a); v0 = s.version
    objs = list(a.items())
    extra = list(opts.values()) if opts else []
    rc0 = [sys.getrefcount(x) for _, x in objs] + [sys.getrefcount(opts)] + [sys.getrefcount(x) for x in extra]
    res = err = None; says = []; sound = k == 'bad' and consistent(a)
    try: res = perform(i, w, a, opts, arm, says)
    except BaseException as e: err = (type(e).__name__, str(e)); e = None
    d = _sim.done()
    rec['done'] = d; rec['err'] = err; rec['fired'] = d[1] + d[3] > 0
    rc1 = [sys.getrefcount(x) for _, x in objs] + [sys.getrefcount(opts)] + [sys.getrefcount(x) for x in extra]
    if sound and s.version == v0 and says == [True]:
        _sim.count('invalid_calls_judged')
        if not err: _sim.violate('pyaccept', 'op %d (%s): an invalid call was not rejected' % (i, ' '.join(w)))
    if d[1]: _sim.count('fault_interpreter_alloc_failed', d[1])
    _sim.count('call_' + ('raised' if err else 'returned') + ('_after_memory_fault' if rec['fired'] else ''))
    if SINGLE and rc0 != rc1:
        names = [n for n, _ in objs] + ['opts'] + ['an option value'] * len(extra)
        _sim.violate('pyref', 'op %d (%s): reference counts changed by the call: %s' % (i, ' '.join(w), [(n, y - x) for n, x, y in zip(names, rc0, rc1) if x != y]))
    if s.version == v0:
        after = state(a)
        for n in before:
            if after[n] != before[n]: _sim.violate('argchanged', 'op %d: argument %s was changed by the call' % (i, n))
        if opts is not None and (opts.keys() != rec['opts'].keys() or opts != rec['opts']): _sim.violate('argchanged', 'op %d: the options were changed by the call' % i)
    else:
        _sim.count('call_overlapped_a_mutation')
        # options that were changed before the call had read them; arrays that were changed while numpy copied them
        if d[9] and (SC['npgil'] or (opts is not None and opts != rec['opts'])): rec['valid'] = False
    del objs, extra, before
    if res is not None:
        rec['res'] = freeze(res, a, i)
        arrs = arrays(res)
        for x in arrs: _sim.hash(x.tobytes())
        if i % 3 == 0:
            for x in arrs:
                if x.flags.writeable: x[...] = 7.5
            KEPT.append((i, arrs, [x.tobytes() for x in arrs]))
        else: KEPT.append((i, arrs, [x.tobytes() for x in arrs]))
    RECS.append(rec)
    if opts is not None and opts in s.opts: s.opts = [o for o in s.opts if o is not opts]
    prof = SC.get('balance', 1)
    if prof and SINGLE and a: 
        res = None
        balance(i, w, a, dict(rec['opts']) if opts is not None else None, arm)

def arrays(res):
    out = []
    if isinstance(res, dict):
        for v in res.values(): out += arrays(v)
    elif isinstance(res, np.ndarray): out.append(res)
    return out

def freeze(res, a, i):
    """result as plain values; checks that it is made of new, independent objects"""
    for n, x in enumerate(arrays(res)):
        if x.base is not None or not x.flags.owndata or not x.flags.writeable: _sim.violate('pyalias', 'op %d: a returned array does not own its data' % i)
        for k, y in a.items():
            if np.may_share_memory(x, y): _sim.violate('pyalias', 'op %d: a returned array shares memory with argument %s' % (i, k))
        for j, other, _ in KEPT:
            for y in other:
                if x.size and np.may_share_memory(x, y): _sim.violate('pyalias', 'op %d: a returned array shares memory with a result of op %d' % (i, j))
    def fr(v):
        if isinstance(v, dict): return {k: fr(x) for k, x in v.items()}
        if isinstance(v, np.ndarray): return ('array', v.shape, v.dtype.str, v.tobytes())
        return v
    return fr(res)

def finish():
    for i, s in SLOTS.items():
        if s.fresh or not s.a: continue
        for k, x in s.a.items():
            n = sys.getrefcount(x)
            if n != BASE[i][k]: _sim.violate('pyref', 'after all calls argument %s of slot %d has %+d references' % (k, i, n - BASE[i][k]))
    for i, arrs, data in KEPT:
        for x, y in zip(arrs, data):
            if x.tobytes() != y: _sim.violate('pyalias', 'a result of op %d was changed by a later call' % i)
    cache = {}
    for r in RECS:
        i = r['op']
        if not r['valid']: continue
        if r['err']:
            if not r['fired']: _sim.violate('pyraise', 'op %d: a valid call raised %s: %s' % (i, r['err'][0], r['err'][1]))
            continue
        cls = 'pyoomwrong' if r['fired'] else 'pydiff'
        if r['fired']: _sim.count('call_survived_memory_fault')
        q = r['num']; n, m = q['c'].size, q['h'].size; p = q['b'].size if 'b' in q else 0
        o = r['opts']
        key = (n, m, p) + tuple(q[k].tobytes() if k in q else b'' for k in ('P', 'G', 'A', 'c', 'h', 'b')) + (o.get('MAXITER', 100), o.get('ABSTOL', 1e-6), o.get('RELTOL', 1e-6), o.get('SIGMA', 100.0))
        # a failed allocation inside the library may be survived by a fallback: the core survives the same one the same way
        refs = [key] + ([key + r['arm'][2:]] if r['done'][3] else [])
        why = None
        for k in refs:
            if k not in cache: cache[k] = _sim.core(*k)
            ref = cache[k]
            if ref[0] == -9: continue
            w = judge(r, ref, n, m, p, q, o)
            if not w: why = ''; break
            why = why or w
        if why is None: continue
        rc, it, x, y, z, s, fval, ts, tv, tk, tl, st1, st2 = ref; out = o.get('OUTPUT', -1)
        if why: _sim.violate(cls, 'op %d (%s): differs from the core solver on the arguments as they were: %s' % (i, ' '.join(r['w']), why)); continue
        _sim.count('results_compared')
        el = r['done'][6] * 1e-9; verbose = o.get('VERBOSE', 0) > 0
        if not verbose and r['done'][8] and not r['fired']: _sim.violate('noise', 'op %d: wrote output although VERBOSE is 0' % i)
        if verbose and SC['calmout']:
            e = misprint(r, o, it, rc)
            _sim.count('print_checked')
            if e: _sim.violate('misprint', 'op %d: %s' % (i, e))
        if out in (1, 2) and not why:
            b = r['res']['basicInfo']; a1, a2 = b.get('Setup_Time'), b.get('Solve_Time')
            if not (isinstance(a1, float) and isinstance(a2, float) and a1 >= 0 and a2 >= 0 and a1 + a2 <= el * (1 + 1e-9) + 1e-8): _sim.violate('pytime', 'op %d: setup time %r and solve time %r in a call of %r s' % (i, a1, a2, el))
            pairs = [('Setup_Time', a1, ts), ('Solve_Time', a2, tv)]
            if out == 2:
                v = r['res']['advInfo']; pairs += [('kktTime', v.get('kktTime'), tk), ('ldlTime', v.get('ldlTime'), tl)]
                if not (isinstance(pairs[2][1], float) and isinstance(pairs[3][1], float) and 0 <= pairs[3][1] <= pairs[2][1] + 1e-9 and pairs[2][1] <= a2 + 1e-9): _sim.violate('pytime', 'op %d: times do not nest: solve %r, KKT %r, LDL %r' % (i, a2, pairs[2][1], pairs[3][1]))
            if SINGLE and SC['calm'] and not verbose and not r['fired']:
                for nm, got, exp in pairs:
                    exp *= SC['tick']
                    if abs(got - exp) > 0.05 * exp + 400e-9 * SC['tick']: _sim.violate('pytime', 'op %d: %s is %r s, the same work takes %r s' % (i, nm, got, exp))
        if not r['fired'] and st2 > 3000:
            _sim.count('lock_release_checked')
            if r['done'][5] < 0.5 * st2: _sim.violate('gilheld', 'op %d: the interpreter lock was free for %d steps of a call whose solve takes %d' % (i, r['done'][5], st2))

def misprint(r, o, it, rc):
    """what is printed states the settings in force and the iterations made (lines that are recognised)"""
    t = r['done'][7].decode('latin-1')
    if not t: return 'nothing is printed although VERBOSE is %d' % o['VERBOSE']
    want = {'Maximum Iterations': '%d' % o.get('MAXITER', 100), 'ABSTOL': '%e' % o.get('ABSTOL', 1e-6), 'RELTOL': '%e' % o.get('RELTOL', 1e-6), 'SIGMA': '%e' % o.get('SIGMA', 100.0), 'VERBOSE': '%d' % o['VERBOSE'], 'Permutation vector': 'AMD Solver'}
    n = 0
    for l in t.splitlines():
        k, _, v = l.partition(':'); k = k.strip()
        if k in want and v.strip() != want[k]: return 'the printed %s is %s, in force is %s' % (k, v.strip(), want[k])
        if k == 'It':
            if v.split()[0] != '%d' % n: return 'the printed iteration numbers are not consecutive'
            n += 1
    if n and n != it + 1 - rc // 2 and rc in (0, 2): return 'the number of printed iterations is not that of the call'

def judge(r, ref, n, m, p, q, o):
    rc, it, x, y, z, s, fval = ref[:7]
    out = o.get('OUTPUT', -1)
    want = {'sol': ('array', (n,), '<f8', x)}
    if out in (1, 2): want['basicInfo'] = {'ExitFlag': rc, 'Iterations': it}
    if out == 2:
        want['advInfo'] = {'fval': fval, 'z': ('array', (m,), '<f8', z), 's': ('array', (m,), '<f8', s)}
        if 'b' in q: want['advInfo']['y'] = ('array', (p,), '<f8', y)
    why = compare(r['res'], want, '')
    if not why and out not in (1, 2) and set(r['res']) & {'basicInfo', 'advInfo'}: why = 'more is returned than was asked for'
    if not why and out == 2 and 'b' not in q and 'y' in r['res']['advInfo']: why = 'multipliers of equality constraints that do not exist are returned'
    return why

def compare(got, want, path):
    if not isinstance(got, dict): return 'result%s is %r' % (path, type(got).__name__)
    for k, v in want.items():
        if k not in got: return 'result%s has no entry %s' % (path, k)
        g = got[k]
        if isinstance(v, dict):
            w = compare(g, v, path + '[%s]' % k)
            if w: return w
        elif isinstance(v, tuple):
            if not isinstance(g, tuple) or g[:3] != v[:3]: return 'result%s[%s] is %r' % (path, k, g[:3] if isinstance(g, tuple) else g)
            if g[3] != v[3]:
                x, y = np.frombuffer(g[3]), np.frombuffer(v[3])
                j = [t for t in range(x.size) if x[t:t + 1].tobytes() != y[t:t + 1].tobytes()]
                return 'result%s[%s][%d] is %r instead of %r' % (path, k, j[0], float(x[j[0]]), float(y[j[0]]))
        elif isinstance(v, float):
            if not isinstance(g, float) or np.float64(g).tobytes() != np.float64(v).tobytes(): return 'result%s[%s] is %r instead of %r' % (path, k, g, v)
        elif g != v: return 'result%s[%s] is %r instead of %r' % (path, k, g, v)
    return ''
