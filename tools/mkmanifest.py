#!/usr/bin/python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, H); sys.dont_write_bytecode = True
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
}
NOTE = {
 'core': 'Seeded sampling of histories, schedules and faults, not a proof. Real library code runs, compiled with access instrumentation; allocator, clock, stdout and scheduler are simulated. Trusts gcc instrumentation, the x86-64 host arithmetic and the reference checks in /verif/sim.',
 'mex': 'Seeded sampling of sessions and faults, not a proof. The real gateway and library run against a stub of the MATLAB host (mxArray, mxMalloc, error abort); trusts that stub.',
 'py': 'Seeded sampling of schedules, histories and faults, not a proof. The real extension and library run in the real CPython interpreter with a controlled scheduler and trampolines on the C API; trusts CPython and numpy.',
}
TECH = {
 'core': 'deterministic simulation with fault injection: seeded schedules, allocation, clock, heap-content and output faults against solo-run and optimality oracles',
 'mex': 'deterministic simulation with fault injection: seeded sessions of gateway calls with allocation faults and aborts on a simulated MATLAB host',
 'py': 'deterministic simulation with fault injection: seeded Python thread schedules and C-API and memory faults around the real extension',
}
checks = []
for i in ids:
    if i in NA: continue
    if i not in PROPS: NA[i] = 'machinery not built yet'; continue
    e = PROPS[i]['engine']
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique=TECH[e], level='exploration', level_note=PROPS[i].get('note', NOTE[e])))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in ids if k in NA],
         notes='No hooks in /repo: the machinery compiles /repo\'s sources with compiler instrumentation and replaces libc and host calls at link level. Fixed defects are listed in known_findings.txt.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
