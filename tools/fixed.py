#!/usr/bin/env python3
# fixed.py C03 <commit> <text>: records a repaired defect
import json, sys
p = '/verif/known-findings.json'
k = json.load(open(p))
k.append({'id': 'F%02d' % (len(k) + 1), 'property': sys.argv[1], 'status': 'fixed', 'text': 'fixed: property=%s %s %s' % tuple(sys.argv[1:4])})
json.dump(k, open(p, 'w'), indent=1)
