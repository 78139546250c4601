#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the tables below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
COMMON = ("Symbolic execution of the SSA form of the real code in /repo's working tree, regenerated each run; every path within "
          "the bounds is decided by Z3 and every counterexample is replayed natively against the compiled code before it is reported. "
          "Trusted: the engine's model of Go semantics and of the standard library functions it intercepts (DESIGN.md), Z3. ")
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        checks.append({
            'property': i,
            'quick_cmd': f'bash run.sh check {i} quick',
            'thorough_cmd': f'bash run.sh check {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the Go SSA of the real code with Z3 deciding every path and assertion (bounded), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': COMMON + CLAIMS[i],
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bash run.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses are laid over the package in memory (SSA) and with go -overlay (native replay).'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
