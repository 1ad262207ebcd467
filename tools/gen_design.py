#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, and per property what checks.py, properties.jsonl and tools/caught.json say."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
caught = json.load(open(V + '/tools/caught.json'))
known = json.load(open(V + '/known-findings.json'))
HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
notes = {}
cur = None
for l in open(V + '/tools/design_notes.md'):
    if l.startswith('## '): cur = l[3:].strip(); notes[cur] = ''
    elif cur: notes[cur] += l
out = [HEAD.rstrip(), '', '# Properties, one by one', '']
for p in props:
    i = p['id']; out += ['## %s %s' % (i, p['title']), '', p['statement'], '']
    if i in notes: out += [notes[i].strip(), '']
    if i not in CHECKS: continue
    c = CHECKS[i]; q = [j for j in c['jobs'] if j.get('tier', 'quick') == 'quick']
    out += ['- Bounds: ' + c['bounds'] + '.', '- Jobs: %d quick, %d thorough; entries: %s.' % (len(q), len(c['jobs']), ', '.join(sorted(set('%s/%s' % (j['h'], j['entry']) for j in c['jobs']))))]
    if c['assumptions']: out += ['- Assumed: ' + '; '.join(c['assumptions']) + '.']
    out += ['- Reached on every run, or the evidence says so: ' + ', '.join(c['covers']) + '.']
    s = sorted(k for k, v in caught.items() if v['property'] == i)
    if s: out += ['- Planted changes: ' + '; '.join('`%s` (%s) %s' % (k, json.load(open(V + '/seeded/%s/meta.json' % k))['needs'], 'caught' if v['caught'] else 'MISSED') for k, v in sorted(caught.items()) if v['property'] == i and os.path.exists(V + '/seeded/%s/meta.json' % k)) + '.']
    f = [x.split(' ', 3) for x in known['fixed'] if 'property=%s ' % i in x]
    if f: out += ['- Defects found and repaired: ' + '; '.join('%s (%s)' % (x[3], x[2]) for x in f) + '.']
    out += ['']
out += [TAIL.rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
