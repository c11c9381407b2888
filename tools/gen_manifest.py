#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed, the others are listed as not applicable."""
import glob, json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
A = 'stateless model checking (dynamic partial-order reduction) of the real code under a controlled scheduler'
B = 'exhaustive bounded enumeration of operation sequences and inputs on the real code against a reference model'
NOTE = {'A': 'Every interleaving of the listed threads and operations is executed on the real headers (DPOR; preemption bound only where the harness says so), with race detection by vector clocks. Trusts the engine in mc/, the instrumentation of g++ -fsanitize=thread, and the bounds in the harness sources.',
        'B': 'Every sequence of choices within the bounds of the harness is executed on the real headers (address and bounds sanitizers on) and compared with an independent reference model. Trusts the reference model, the engine in seq/ and the bounds in the harness sources.',
        'AB': 'Every interleaving (DPOR) and, separately, every sequential operation sequence within the bounds of the harnesses is executed on the real headers and compared with an independent reference model. Trusts the engines in mc/ and seq/, the reference models and the bounds in the harness sources.'}
REASONS = {}
exec(open(os.path.join(ROOT, 'tools', 'not_applicable.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'not_applicable.py')) else None
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    src = glob.glob(os.path.join(ROOT, 'harness', p.lower() + '_*.cpp'))
    if not src:
        na.append({'property': p, 'reason': REASONS.get(p, 'no check has been built for it yet')})
        continue
    kinds = {'B' if '@engine seq' in open(s).readline() else 'A' for s in src}
    k = ''.join(sorted(kinds))
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                   'technique': {'A': A, 'B': B, 'AB': A + '; ' + B}[k], 'level': 'model_checking', 'level_note': NOTE[k]})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'claimed;', ' '.join(x['property'] for x in na), 'not')
