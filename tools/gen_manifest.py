#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a module in checks/ is claimed, the rest is listed as not applicable."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import importlib
NA = {}
naf = os.path.join(ROOT, 'tools', 'not_applicable.json')
if os.path.exists(naf):
    NA = json.load(open(naf))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', pid + '.py')) and pid not in NA:
        m = importlib.import_module('checks.' + pid)
        b = m.BOUNDS['quick'] if isinstance(m.BOUNDS, dict) else m.BOUNDS
        checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid, thorough_cmd='./check %s --tier thorough' % pid,
                           evidence_file='evidence/%s.json' % pid,
                           technique='symbolic execution of the LLVM IR of the real code, assertions and branches decided by Z3, counterexamples replayed natively',
                           level='model_checking',
                           level_note='Bounded: ' + b + '. Outside: ' + m.OUTSIDE + '. Trusted: the executor in engine/, the CPython/NumPy model in rt/, clang -O1, Z3.'))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'No check built yet.')))
out = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
           notes='No hooks in /repo are needed. DESIGN.md describes the executor, the runtime model and every property; known-findings.json lists findings and fixes.')
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
