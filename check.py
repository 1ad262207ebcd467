#!/usr/bin/env python3
"""Decides one property: builds the code from /repo's working tree, explores the property's harness entries symbolically,
replays every counterexample against the native build before reporting it, and writes evidence/<id>.json.
usage: check.py ID [--tier quick|thorough]"""
import json, os, re, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import vbuild
from checks import CHECKS
VERIF = vbuild.VERIF
NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1', QT_LOGGING_RULES='*=false', LC_ALL='C')
MODEL_MB = 5000

def known():
    p = VERIF + '/known-findings.json'
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f).get('findings', [])

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, v in inputs: f.write('%s %s\n' % (n.replace(' ', '_'), v))

def native(exe, entry, inputs_file, params, timeout, fill=None):
    """-> (how it ended, output lines)"""
    try:
        p = subprocess.run([exe, entry, inputs_file] + [str(x) for x in params], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(NENV, SX_FILL=str(fill)) if fill else NENV, timeout=timeout, cwd='/tmp')
    except subprocess.TimeoutExpired:
        return 'hang', []
    out = p.stdout.decode('latin1').splitlines()
    rc = p.returncode
    how = {0: 'done', 42: 'assert', 77: 'assume', 78: 'mismatch', 79: 'unmodelled', 2: 'usage'}.get(rc, 'crash %d' % rc)
    if how.startswith('crash'): out += ['STDERR ' + l for l in p.stderr.decode('latin1').splitlines() if 'ERROR' in l or 'ssert' in l][:3]
    return how, out

def outs_of(lines):
    r = []
    for l in lines:
        if l.startswith('OUT '):
            _, label, *v = l.split(' ')
            r.append([label, v[0] if v else ''])
    return r

def int_hex(v):
    return (int(v[1:]) & (2 ** 64 - 1)).to_bytes(8, 'little').hex()

def agree(engine_outs, native_outs):
    if len(engine_outs) != len(native_outs): return False
    for (a, b), (c, d) in zip(engine_outs, native_outs):
        if a.replace(' ', '_') != c.replace(' ', '_'): return False
        if d.startswith('i'): d = int_hex(d)
        if b != d: return False
    return True

def main():
    cid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[cid]
    t0 = time.time()
    jobs = [j for j in c['jobs'] if j.get('tier', 'quick') == 'quick' or tier == 'thorough']
    hs = sorted(set(j['h'] for j in jobs))
    pool = ThreadPoolExecutor(16)
    try:
        fe = pool.submit(vbuild.engine)
        fp = {h: pool.submit(vbuild.program, h) for h in hs}
        fn = {h: pool.submit(vbuild.native, h) for h in hs}
        eng = fe.result(); bcs = {h: f.result() for h, f in fp.items()}
        work = tempfile.mkdtemp(prefix='sxrun')
    except vbuild.BuildError as e:
        print('check %s: cannot build: %s' % (cid, e)); sys.exit(2)
    tb = time.time() - t0
    # symbolic exploration, one engine process per harness
    results = []
    deadline = 780 if tier == 'quick' else 4 * 3600
    def explore(h):
        od = work + '/' + h; os.makedirs(od)
        with open(od + '/jobs.txt', 'w') as f:
            for i, j in enumerate(jobs):
                if j['h'] != h: continue
                f.write('%s %s %s %d %d %d\n' % ('j%03d' % i, j['entry'], ','.join(str(p) for p in j.get('params', [])) or '-', j.get('paths', 400000), j.get('time', 240 if tier == 'quick' else 3000), j.get('steps', 40000000)))
        try:
            p = subprocess.run([eng, '--bc', bcs[h], '--jobs', od + '/jobs.txt', '--out', od, '--par', '8', '--repo', vbuild.REPO, '--seed', str(seed), '--samples', str(c.get('samples', 3)), '--maxviol', str(c.get('maxviol', 3)), '--mem', str(MODEL_MB)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=deadline)
            return h, p.stdout.decode('latin1')
        except subprocess.TimeoutExpired:
            return h, 'engine: stopped at the time limit'
    logs = {}
    for h in hs:  # the engine runs 8 jobs at a time
        _, logs[h] = explore(h)
    for i, j in enumerate(jobs):
        p = work + '/' + j['h'] + '/j%03d.json' % i
        r = None
        if os.path.exists(p):
            with open(p) as f: r = json.load(f)
        results.append((j, r))
    te = time.time() - t0 - tb
    try: exes = {h: f.result() for h, f in fn.items()}
    except vbuild.BuildError as e:
        print('check %s: cannot build the native replay: %s' % (cid, e)); sys.exit(2)
    # counterexamples, replayed natively
    rdir = VERIF + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(cid + '-'): os.unlink(os.path.join(rdir, f))
    cands = [(j, v) for j, r in results if r for v in r['violations']]
    def confirm(k):
        j, v = cands[k]
        inp = '%s/%s-%d.inputs' % (rdir, cid, k)
        write_inputs(inp, v['inputs'])
        how, out = native(exes[j['h']], j['entry'], inp, j.get('params', []), 15 if v['kind'] == 'hang' else 60)
        hit = how == 'assert' or how.startswith('crash') or (how == 'hang' and v['kind'] == 'hang')
        return hit, how, out, inp
    confirmed = list(pool.map(confirm, range(len(cands))))
    findings = known(); shown = []; bad = []; spurious = []
    def write_report(inp, j, v, how, out):
        rp = inp[:-7] + '.txt'
        asserted = [l[7:] for l in out if l.startswith('ASSERT ')]
        with open(rp, 'w') as o:
            o.write('property %s: %s\nkind: %s\nnative result: %s %s\nreplay: python3 %s/replay.py %s %s %s %s\n' % (cid, v['msg'], v['kind'], how, '; '.join(asserted + [l for l in out if l.startswith('STDERR')]), VERIF, j['h'], j['entry'], inp, ' '.join(str(x) for x in j.get('params', []))))
            o.write('inputs:\n'); [o.write('  %s = %s\n' % (n, val)) for n, val in v['inputs']]
            o.write('symbolic stack:\n'); [o.write('  %s\n' % s) for s in v['stack'][:20]]
            o.write('native output:\n'); [o.write('  %s\n' % s) for s in out[:60]]
        bad.append((j, v, rp))
    for (j, v), (hit, how, out, inp) in zip(cands, confirmed):
        if not hit: spurious.append({'entry': j['entry'], 'params': j.get('params', []), 'kind': v['kind'], 'msg': v['msg'], 'native': how, 'inputs': v['inputs'][:8], 'stack': v['stack'][:6]}); os.unlink(inp); continue
        f = next((f for f in findings if f['property'] == cid and f['entry'] == j['entry'] and f['msg'] == v['msg'] and all(any(n == k and re.fullmatch(x, val) for n, val in v['inputs']) for k, x in f.get('inputs', {}).items()) and ('params' not in f or f['params'] == j.get('params', []))), None)
        if f: shown.append(f['what']); os.unlink(inp); continue
        write_report(inp, j, v, how, out)
    # samples of completed paths, validated against the native build
    samples = [(j, s) for j, r in results if r for s in r['samples']]
    lim = 160 if tier == 'quick' else 600
    if len(samples) > lim: step = len(samples) / lim; samples = [samples[int(i * step)] for i in range(lim)]
    def validate(k):
        j, s = samples[k]; inp = '%s/s%d' % (work, k); write_inputs(inp, s['inputs'])
        how, out = native(exes[j['h']], j['entry'], inp, j.get('params', []), 120)
        return how == 'done' and agree(s['outs'], outs_of(out)), how, outs_of(out)
    checked = list(pool.map(validate, range(len(samples)))) if not bad else []
    # a native run that fails the property's assertion is a counterexample, whatever the encoding says of its path: both
    # for completed paths and where the encoding ends before the path does (its inputs so far are the solver's, the rest is chosen)
    tries = [(j, s['inputs'], 0) for k, (j, s) in enumerate(samples) if checked and checked[k][1].startswith(('assert', 'crash'))]
    if not bad:
        ends = [(j, s['inputs']) for j, r in results if r for s in r.get('partials', [])]
        ends += [(j, []) for j, r in results if not r or not (r['paths'] or r['infeasible'] or r.get('partials'))]
        if len(ends) > 480: step = len(ends) / 480; ends = [ends[int(i * step)] for i in range(480)]
        tries += [(j, i, 1 + seed * 1000 + n) for j, i in ends for n in range(4)]
    def attempt(k):
        j, inputs, fill = tries[k]
        if time.time() - t0 > 840: return None
        inp = '%s/p%d' % (work, k); write_inputs(inp, inputs)
        how, out = native(exes[j['h']], j['entry'], inp, j.get('params', []), 60, fill)
        if how != 'assert' and how != 'crash 99' and how != 'crash -11' and how != 'crash -6': return None
        inputs = list(inputs) + [l.split(' ')[1:3] for l in out if l.startswith('FILL ')]
        msg = ([l[7:] for l in out if l.startswith('ASSERT ')] + ['the code fails: ' + how])[0]
        return j, {'kind': 'native', 'msg': msg, 'inputs': inputs, 'stack': []}, how, [l for l in out if not l.startswith('FILL ')]
    hits = [x for x in pool.map(attempt, range(len(tries))) if x]
    for j, v, how, out in hits[:3]:
        inp = '%s/%s-%d.inputs' % (rdir, cid, len(cands) + len(bad)); write_inputs(inp, v['inputs'])
        if native(exes[j['h']], j['entry'], inp, j.get('params', []), 60)[0] != how: os.unlink(inp); continue
        write_report(inp, j, v, how, out)
    agreed = sum(1 for x in checked if x[0])
    disagreements = [{'entry': samples[k][0]['entry'], 'params': samples[k][0].get('params', []), 'native': checked[k][1], 'inputs': samples[k][1]['inputs'], 'engine_outs': samples[k][1]['outs'][:6], 'native_outs': checked[k][2][:6]} for k in range(len(checked)) if not checked[k][0]]
    tot = lambda k: sum(r[k] for _, r in results if r)
    covers = {}; funcs = {}; why = {}
    for j, r in results:
        if not r: why['no result from ' + j['entry']] = 1; continue
        for k, n in r['covers'].items(): covers[k] = covers.get(k, 0) + n
        for k, n in r['funcs'].items(): funcs[k] = funcs.get(k, 0) + n
        for k, n in r['why'].items(): why[k] = why.get(k, 0) + n
    missing = [k for k in c.get('covers', []) if not covers.get(k)]
    complete = not why and not missing
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': tot('paths'), 'transitions': tot('forks'), 'traces_validated_against_impl': agreed,
                       'samples': [{'entry': j['entry'], 'params': j.get('params', []), 'inputs': s['inputs']} for j, s in samples[:4]],
                       'exhaustive': complete and not bad,
                       'explanation': 'states = feasible paths explored to their end (each stands for all inputs that follow it); transitions = branch points with both sides feasible',
                       'bounds': c['bounds'], 'jobs': len(jobs), 'infeasible_paths': tot('infeasible'), 'incomplete_paths': tot('incomplete'), 'incomplete_reasons': why,
                       'instructions': tot('steps'), 'assertions': tot('asserts'), 'assertions_nonconstant_refuted_negation': tot('assertDischarged'), 'assertions_folded': tot('assertFolded'),
                       'solver': 'z3', 'solver_queries': tot('queries'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'), 'solver_seconds': round(tot('solverS'), 3), 'byte_domain_decisions': tot('domainDecisions'), 'path_conditions_confirmed_by_z3': tot('pathQueries'),
                       'functions_encoded': sorted(funcs), 'reached': covers, 'reachability_missing': missing, 'counterexamples_not_reproduced': spurious, 'native_runs_where_encoding_ends': len(tries), 'model_disagreements': disagreements, 'known_findings_seen': sorted(set(shown)),
                       'build_s': round(tb, 2), 'explore_s': round(te, 2)},
          'assumptions': c.get('assumptions', []) + ['Qt is modelled (/verif/qtmodel); paths sampled from this run were replayed natively against real Qt and compared'],
          'wall_s': round(time.time() - t0, 3), 'violations': len(bad)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % cid, 'w') as f: json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if '-v' in sys.argv:
        for j, r in results:
            if r: print('  %-22s %-14s paths %6d inc %d inf %d viol %d %6.2fs solver %.2fs q %d steps %d' % (j['entry'], j.get('params', ''), r['paths'], r['incomplete'], r['infeasible'], len(r['violations']), r['wall'], r['solverS'], r['queries'], r['steps']), r['why'] or '')
        for h in hs:
            if logs[h].strip(): print(logs[h][-2000:])
        for s in spurious: print('  NOT REPRODUCED', json.dumps(s)[:1500])
        for s in disagreements[:5]: print('  DISAGREE', json.dumps(s)[:1500])
        print('  covers', covers)
        print('  build %.1fs explore %.1fs total %.1fs' % (tb, te, time.time() - t0))
    for w in sorted(set(shown)): print('KNOWN-FINDING: property=%s %s' % (cid, w))
    if why: print('note: not explored to the end: %s' % why)
    if missing: print('note: not reached: %s' % missing)
    if spurious: print('note: %d counterexample(s) did not reproduce natively and are not reported' % len(spurious))
    if disagreements: print('note: %d sampled path(s) differ between model and native run' % len(disagreements))
    print('%s: %d paths, %d assertions, %d solver queries, %d native replays agree, %.1fs' % (cid, tot('paths'), tot('asserts'), tot('queries'), agreed, time.time() - t0))
    seen = set()
    for j, v, rp in bad:
        if (j['entry'], v['msg']) in seen: continue
        seen.add((j['entry'], v['msg'])); print('VIOLATION property=%s replay=%s' % (cid, rp)); print('  %s: %s' % (j['entry'], v['msg']))
    sys.exit(1 if bad else 0)

if __name__ == '__main__': main()
