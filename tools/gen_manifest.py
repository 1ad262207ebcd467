#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {'C32': 'The script handler is a thin bridge into the QtScript JavaScript engine, a closed interpreter shipped only as a binary library: its evaluation, exceptions and object wrapping cannot be encoded, and a stand-in for it would decide the stand-in rather than the property.'}
checks = []; na = []
for p in props:
    i = p['id']
    if i not in CHECKS: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')}); continue
    c = CHECKS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'symbolic execution of the compiled code (LLVM IR) with Z3; counterexamples replayed natively', 'level': 'model_checking',
                   'level_note': 'Bounded: ' + c['bounds'] + '. Trusts the engine, the Qt model and clang; sampled paths and every counterexample are replayed against the native build with real Qt.'})
json.dump({'version': 1, 'setup_cmd': 'python3 vbuild.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
