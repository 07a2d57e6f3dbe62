#!/usr/bin/python3
"""check.py PROPERTY [quick|thorough]   -- decide one property by seeded simulation (see DESIGN.md)
   check.py replay FILE                 -- run one replay file and print what happens
   check.py setup                       -- build everything once
"""
import json, os, re, subprocess, sys, time, threading, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build
from props import PROPS

WORKERS = int(os.environ.get('QPSIM_WORKERS', '8'))
FATAL = {'crash', 'hang', 'deadlock', 'abort', 'memory'}

class Engine:
    def __init__(self, name):
        self.name = name
        self.cmd, self.info = getattr(build, 'build_' + name)()
        if isinstance(self.cmd, str):
            self.cmd = [self.cmd]

    def gen(self, profile, seed):
        return subprocess.run(self.cmd + ['gen', profile, str(seed)], stdout=subprocess.PIPE, text=True, check=True).stdout

    def exec_text(self, text, timeout=300):
        fd, path = tempfile.mkstemp(prefix='qpsim-', suffix='.txt')
        try:
            os.write(fd, text.encode()); os.close(fd)
            return self.exec_file(path, timeout)
        finally:
            os.unlink(path)

    def exec_file(self, path, timeout=300):
        p = subprocess.run(self.cmd + ['exec', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        r = dict(hash=None, viol=[], stat={}, sw=[])
        for l in p.stdout.splitlines():
            w = l.split(' ', 2)
            if w[0] == 'hash': r['hash'] = w[1]
            elif w[0] == 'viol': r['viol'].append((w[1], w[2] if len(w) > 2 else ''))
            elif w[0] == 'stat': r['stat'][w[1]] = int(w[2])
            elif w[0] == 'sw': r['sw'].append(l)
        if r['hash'] is None:
            raise RuntimeError('simulator gave no result: ' + p.stdout[-500:] + p.stderr[-2000:])
        return r

    def batch(self, profile, seed0, count, cap, classes, workers=WORKERS):
        procs = []
        per = (count + workers - 1) // workers
        for w in range(workers):
            procs.append(subprocess.Popen(self.cmd + ['batch', profile, str(seed0 + w), str(workers), str(per), str(cap), ','.join(sorted(classes))],
                                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, QPSIM_SITES='1')))
        res = dict(runs=0, distinct=0, faulted=0, bad=[], other=[], sum={}, fired={}, wall=0.0, sites=set())
        outs = [None] * workers
        def rd(i): outs[i] = procs[i].communicate()
        th = [threading.Thread(target=rd, args=(i,)) for i in range(workers)]
        [t.start() for t in th]; [t.join() for t in th]
        for i, (o, e) in enumerate(outs):
            if procs[i].returncode != 0:
                raise RuntimeError('simulator worker failed (%s): %s' % (procs[i].returncode, (o[-800:] + e[-2000:])))
            for l in o.splitlines():
                w = l.split(' ', 3)
                if w[0] in ('bad', 'other') and len(w) > 2: res[w[0]].append((int(w[1]), w[2], w[3] if len(w) > 3 else ''))
                elif w[0] == 'runs': res['runs'] += int(w[1])
                elif w[0] == 'distinct': res['distinct'] += int(w[1])
                elif w[0] == 'distinct_faulted': res['faulted'] += int(w[1])
                elif w[0] == 'site': res['sites'].add(w[1])
                elif w[0] == 'wall': res['wall'] = max(res['wall'], float(w[1]))
                elif w[0] == 'sum':
                    res['sum'][w[1]] = res['sum'].get(w[1], 0) + int(w[2]); res['fired'][w[1]] = res['fired'].get(w[1], 0) + int(w[3])
        return res

def classes_of(r): return set(c for c, _ in r['viol'])

# ------------------------------------------------------------------ attribution
def ablate(text, kinds):
    """the same scenario without the faults the property is about"""
    out = []
    for l in text.splitlines():
        w = l.split()
        if any(l.startswith(k) for k in kinds): continue
        out.append(l)
    return '\n'.join(out) + '\n'

def relevant(eng, prop, text, cls, runs=None):
    ab = prop.get('ablate')
    if not ab or cls in prop.get('own', ()): return True
    return cls not in classes_of(eng.exec_text(ablate(text, ab)))

# ------------------------------------------------------------------ minimisation
class Minimiser:
    def __init__(self, eng, prop, cls, deadline):
        self.eng, self.prop, self.cls, self.deadline, self.tests = eng, prop, cls, deadline, 0

    def fails(self, text):
        if time.time() > self.deadline: return False
        self.tests += 1
        try:
            return self.cls in classes_of(self.eng.exec_text(text, 150)) and relevant(self.eng, self.prop, text, self.cls)
        except Exception:
            return False

    def try_(self, lines):
        """also looks for another schedule seed under which the smaller scenario still fails"""
        t = '\n'.join(lines) + '\n'
        if self.fails(t): return lines
        for i, l in enumerate(lines):
            if l.startswith('sched seed') and self.sched_matters:
                w = l.split()
                for k in range(1, 6):
                    w2 = ['sched', 'seed', str((int(w[2]) + 7919 * k) % (1 << 30)), w[3]]
                    L = lines[:i] + [' '.join(w2)] + lines[i + 1:]
                    if self.fails('\n'.join(L) + '\n'): return L
        return None

    def ddmin(self, items, build_, fixed=None):
        n = 2
        while len(items) >= 1 and time.time() < self.deadline:
            size = max(1, len(items) // n); reduced = False
            for i in range(0, len(items), size):
                c = items[:i] + items[i + size:]
                r = self.try_(build_(c))
                if r is not None:
                    items, reduced = c, True; self.last = r; n = max(n - 1, 2); break
            if not reduced:
                if size == 1: break
                n = min(len(items), n * 2)
        return items

    def run(self, text):
        self.sched_matters = False
        lines = [l for l in text.splitlines() if l.strip()]
        # without concurrency?
        L = [re.sub(r'^clients \d+', 'clients 1', l) for l in lines if not l.startswith('sched') and not l.startswith('sw ')]
        L = [re.sub(r'^(op \d+) \d+ ', r'\1 0 ', l) for l in L]
        if self.eng.name != 'py' and self.fails('\n'.join(L) + '\n'): lines = L
        else: self.sched_matters = True
        head = [l for l in lines if l.startswith('profile')]
        body = [l for l in lines if not l.startswith('profile')]
        self.last = lines
        def mk(c):
            keep = set(c)
            # the current schedule line may have been replaced in self.last
            sched = [l for l in self.last if l.startswith('sched')]
            out = list(head)
            for l in c:
                out.append(sched[0] if l.startswith('sched') and sched else l)
            return out
        body = self.ddmin(body, mk)
        lines = mk(body)
        # whole handles / clients one at a time, then numbers
        changed = True
        while changed and time.time() < self.deadline:
            changed = False
            for i, l in enumerate(lines):
                for cand in self.smaller(l):
                    L = lines[:i] + [cand] + lines[i + 1:]
                    r = self.try_(L)
                    if r is not None:
                        lines = r; changed = True; break
        # the schedule as an explicit list of preemptions
        if any(l.startswith('sched') for l in lines):
            r = self.eng.exec_text('\n'.join(lines) + '\n')
            base = [l for l in lines if not l.startswith('sched')]
            if r['sw'] and len(r['sw']) < 15000:
                sw = r['sw']; first = [x for x in sw if x.startswith('sw -1')]; rest = [x for x in sw if not x.startswith('sw -1')]
                if self.fails('\n'.join(base + first + rest) + '\n'):
                    self.sched_matters = False
                    lo, hi = 0, len(rest)          # shortest failing prefix, then ddmin
                    while lo < hi and time.time() < self.deadline:
                        mid = (lo + hi) // 2
                        if self.fails('\n'.join(base + first + rest[:mid]) + '\n'): hi = mid
                        else: lo = mid + 1
                    if self.fails('\n'.join(base + first + rest[:hi]) + '\n'): rest = rest[:hi]
                    rest = self.ddmin(rest, lambda c: base + first + c)
                    lines = base + first + rest
        return '\n'.join(lines) + '\n'

    def smaller(self, l):
        w = l.split(); out = []
        if w[0] == 'prob':
            n, m, p = int(w[3]), int(w[4]), int(w[5])
            for a, b, c in ((1, 1, 0), (2, 2, 0), (3, 3, 0), (3, 3, 1), (n // 2, m // 2, p), (n, m, 0), (n - 1, m, p), (n, m - 1, p), (n, m, p - 1)):
                if a >= 1 and b >= 1 and c >= 0 and not (self.prop['profile'] == 'c18' and a < 3) and (a, b, c) != (n, m, p) and a <= n and b <= m and c <= p: out.append(' '.join(w[:3] + [str(a), str(b), str(c)] + w[6:]))
            if w[2] != 'strict': out.append(' '.join(w[:2] + ['strict'] + w[3:]))
            for i in range(7, len(w)):
                if w[i] != '0': out.append(' '.join(w[:i] + ['0'] + w[i + 1:]))
        elif w[0] == 'fault':
            r, n = int(w[3]), int(w[4])
            for a in (0, 1, 2, 3): 
                if r > a: out.append(' '.join(w[:3] + [str(a), w[4]]))
            if n > 1: out.append(' '.join(w[:4] + ['1']))
        elif w[0] == 'op' and len(w) > 5 and w[4] == 'set' and w[5] == 'maxit' and float(w[6]) > 1:
            for v in (1, 2, 3, 5): 
                if float(w[6]) > v: out.append(' '.join(w[:6] + [str(v)]))
        elif w[0] == 'clock' and w[1:] != ['1', '1000000000', '0', '0', '30', '1']:
            out.append('clock 1 1000000000 0 0 30 1')
            if w[4] != '0': out.append(' '.join(w[:4] + ['0'] + w[5:]))
            if w[3] != '0': out.append(' '.join(w[:3] + ['0'] + w[4:]))
        elif w[0] == 'env':
            for i in (3, 4, 5, 6):
                if w[i] != '0': out.append(' '.join(w[:i] + ['0'] + w[i + 1:]))
        return out

# ------------------------------------------------------------------ findings on record
def known():
    f = os.path.join(HERE, 'known_findings.txt'); out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) class=(\S+) replay=(\S+) match=/(.*)/ (.*)', l)
            if m: out.append((m.group(1), m.group(2), m.group(4), m.group(5), m.group(3)))
    return out

def main():
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup':
        for e in sorted(set(p['engine'] for p in PROPS.values())):
            print(e, Engine(e).info)
        p = subprocess.run([build.build_selftest()], stdout=subprocess.PIPE, text=True)
        print(p.stdout, end='')
        return p.returncode
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        txt = open(sys.argv[2]).read()
        m = re.search(r'^# engine (\S+)', txt, re.M)
        r = Engine(m.group(1) if m else 'core').exec_file(sys.argv[2])
        for c, t in r['viol']: print('violation:', c, t)
        print('hash', r['hash'])
        return 1 if r['viol'] else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = PROPS[pid]
    t0 = time.time()
    print('property %s tier %s VERIF_SEED %d' % (pid, tier, seed), flush=True)
    legs = [dict(prop)] + [dict(l, ablate=prop.get('ablate'), own=prop.get('own', ())) for l in prop.get('legs', [])]
    cands = []
    base = (seed * 1000003) % (1 << 40) * 4096
    built = 0.0
    for leg in legs:
        t1 = time.time(); leg['eng'] = eng = Engine(leg['engine']); built += time.time() - t1
        count, cap = leg[tier]
        leg['res'] = eng.batch(leg['profile'], base, count, cap, set(leg['classes']))
        cands += [(leg,) + c for c in sorted(leg['res']['bad'])]
        if any(c != 'harness' and c != 'cycles' for _, c, _ in leg['res']['bad']): break
    legs = [l for l in legs if 'res' in l]
    res = legs[0]['res']; eng = legs[0]['eng']
    kn = [k for k in known() if k[0] == pid]
    shown = set(); verdict = None; error = None
    for k in kn:
        r = eng.exec_file(os.path.join(HERE, k[4]))
        if any(c == k[1] and re.search(k[2], t) for c, t in r['viol']): print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
        else: print('note: a listed finding did not show: ' + k[3])
    rejected = 0
    def is_known(cls, text): return any(k[1] == cls and re.search(k[2], text) for k in kn)
    for leg, s, cls, text in cands:
        eng = leg['eng']; profile = leg['profile']
        if is_known(cls, text): continue
        if cls == 'harness': error = 'simulator failure: ' + text; continue
        sc = eng.gen(profile, s)
        a, b = eng.exec_text(sc), eng.exec_text(sc)
        if cls not in classes_of(a) or cls not in classes_of(b) or (a['hash'] != b['hash'] and cls not in FATAL):
            error = 'seed %d: %s did not repeat exactly' % (s, cls); continue
        if not relevant(eng, leg, sc, cls):
            rejected += 1; continue
        mini = Minimiser(eng, leg, cls, time.time() + (45 if tier == 'quick' else 240))
        small = mini.run(sc)
        r1, r2 = eng.exec_text(small), eng.exec_text(small)
        if cls not in classes_of(r1) or cls not in classes_of(r2) or (r1['hash'] != r2['hash'] and cls not in FATAL):
            small = sc; r1 = a
        rd = os.path.join(HERE, 'replays'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%d.txt' % (pid, s))
        msg = dict(r1['viol'])[cls]
        with open(path, 'w') as f:
            f.write('# engine %s\n# property %s seed %d class %s\n# %s\n# hash %s\n# replay: python3 /verif/check.py replay %s\n' % (eng.name, pid, s, cls, msg, r1['hash'], path))
            f.write(small)
        print('seed %d: %s: %s' % (s, cls, msg))
        print(small.rstrip())
        print('(minimised from %d to %d lines in %d executions)' % (len(sc.splitlines()), len(small.splitlines()), mini.tests))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        verdict = (s, cls); break
    wall = time.time() - t0
    def covered(leg):
        res = leg['res']; sm = res['sum']
        faults = {k: dict(injected=sm[k], runs=res['fired'].get(k, 0)) for k in sm if k.startswith('fault_')}
        if 'switches' in sm: faults['preemption'] = dict(injected=sm['switches'], runs=res['fired'].get('switches', 0))
        samples = []
        for k in range(2):
            try: samples.append(dict(seed=base + k, scenario=leg['eng'].gen(leg['profile'], base + k).splitlines()))
            except Exception: pass
        return dict(evaluations=res['runs'], distinct_nontrivial=res['faulted'],
                    rule='one evaluation = one simulated run of the scenario generated from one seed; counted as distinct and non-trivial when its event hash (every allocation, fault, preemption, clock reading and result) differs from all others of its worker and at least one fault or preemption took effect',
                    samples=samples, engine=leg['engine'], profile=leg['profile'], seeds='%d runs from seed %d, worker w takes seeds base+w+%d*i' % (res['runs'], base, WORKERS), distinct_event_histories=res['distinct'],
                    runs_per_hour=int(res['runs'] / max(res['wall'], 1e-3) * 3600), simulated_seconds=sm.get('simns', 0) / 1e9, simulated_steps=sm.get('steps', 0),
                    faults=faults, probes={k: dict(total=v, runs=res['fired'].get(k, 0)) for k, v in sm.items() if not k.startswith('fault_')},
                    distinct_preemption_pairs=len(res['sites']), interleaving_measure='distinct (program point preempted, program point resumed) pairs',
                    violation_classes=sorted(leg['classes']), other_class_runs=len(res['other']),
                    real_components=leg['real'], stub_components=leg['stub'], build=leg['eng'].info)
    cov = covered(legs[0]); cov.update(not_attributed=rejected, build_s=round(built, 1), further_engines=[covered(l) for l in legs[1:]])
    total = sum(l['res']['runs'] for l in legs)
    cov['evaluations_all_engines'] = total
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=1 if verdict else 0,
              assumptions=prop.get('assumptions', []) + ['sampled, not exhaustive; one process on x86-64 Linux, library built with gcc -O2 and access instrumentation'],
              coverage=cov)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    other = [o for l in legs for o in l['res']['other']]
    print('%s: %s runs in %.1f s (%d distinct with faults or preemptions), %d other-class runs' % (pid, '+'.join(str(l['res']['runs']) for l in legs), wall, sum(l['res']['faulted'] for l in legs), len(other)))
    for o in other[:5]: print('  other class: seed %d %s: %s' % o)
    if verdict: return 1
    if error:
        print('ERROR: ' + error); return 2
    if any(l['res']['runs'] == 0 for l in legs):
        print('ERROR: nothing was run'); return 2
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('ERROR: build failed\n' + str(e)); sys.exit(3)
