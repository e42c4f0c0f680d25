#!/opt/venv/bin/python
"""
check.py PROPERTY [--tier quick|thorough] [--unit NAME] [--debug]
check.py --replay FILE

Decides one property by symbolic execution of the sources in /repo.
exit 0: held on everything explored; exit 1: VIOLATION line(s); exit 2: the check itself failed.
"""
import argparse
import concurrent.futures as cf
import glob
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
EVID = os.path.join(HERE, 'evidence')
REPO = os.environ.get('VERIF_REPO', '/repo')


def env_for(scratch):
    e = dict(os.environ)
    home = os.path.join(scratch, 'home')
    os.makedirs(home, exist_ok=True)
    e.update(HOME=home, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', NUMEXPR_MAX_THREADS='1', VERIF_SCRATCH=scratch, MPLBACKEND='Agg')
    e.pop('PYTHONPATH', None)
    return e


def worker(mode, job, scratch, limit):
    d = tempfile.mkdtemp(dir=scratch)
    jf, of = os.path.join(d, 'job.json'), os.path.join(d, 'out.json')
    with open(jf, 'w') as f:
        json.dump(job, f)
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'symx', 'run.py'), mode, jf, of], env=env_for(d), cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'error': 'worker exceeded %d s' % limit}
    if job.get('debug'):
        sys.stderr.write(p.stdout.decode()[-6000:] + p.stderr.decode()[-12000:])
    if not os.path.exists(of):
        return {'status': 'error', 'error': (p.stderr.decode()[-3000:] or 'exit %d' % p.returncode)}
    with open(of) as f:
        r = json.load(f)
    r.setdefault('status', 'ok')
    shutil.rmtree(d, ignore_errors=True)
    return r


def units_of(prop):
    """modules under props/ are imported without dedop: the harness bodies import lazily"""
    sys.path.insert(0, HERE)
    from symx import harness
    found = []
    for f in sorted(glob.glob(os.path.join(HERE, 'props', '*.py'))):
        m = os.path.basename(f)[:-3]
        if m.startswith('_'):
            continue
        with open(f) as fh:
            if "'%s'" % prop not in fh.read():
                continue
        before = set(harness.UNITS)
        importlib.import_module('props.' + m)
        for k in harness.UNITS:
            if k not in before and k[0] == prop:
                found.append((m, harness.UNITS[k]))
    return found


def run_unit(prop, module, u, bounds, tier, seed, scratch, debug, wall, deadline):
    job = dict(prop=prop, module=module, unit=u.name, bounds=bounds, seed=seed, tier=tier, debug=debug,
               timeout_ms=u.opts.get('timeout_ms', 6000) * (1 if tier == 'quick' else 4),
               max_paths=u.opts.get('max_paths', 3000) * (1 if tier == 'quick' else 10),
               wall=wall, traces=u.opts.get('traces', 16))
    left = deadline - time.time()
    if left < 20:
        return dict(unit=u.name, bounds=bounds, status='timeout', error='no time left for this run')
    job['wall'] = wall = min(wall, left * 0.6)
    r = worker('sym', job, scratch, min(wall + 120, left))
    r.setdefault('unit', u.name)
    r.setdefault('bounds', bounds)
    if r['status'] != 'ok':
        return r
    cases = []
    for c in r['cex']:
        cases.append(dict(tag='cex', values=c['values'], search=120, wall=10))
    for m in r['models']:
        cases.append(dict(tag=m['tag'], values=m['values'], search=0 if m['tag'] in ('done', 'budget') else 12, robust=True, wall=6))
    r['violations'], r['unreproduced'], r['traces_ok'], r['traces_run'], r['mismatch'] = [], [], 0, 0, []
    if cases:
        rep = worker('con', dict(job, cases=cases, wall=90), scratch, 300)
        if rep.get('status') != 'ok':
            r['status'] = 'replay-error'
            r['error'] = rep.get('error')
            return r
        nc = len(r['cex'])
        for c, res in zip(r['cex'], rep['results'][:nc]):
            if res['kind'] == 'fail':
                r['violations'].append(dict(label=c['label'], values=res['values'], failures=res['failures'],
                                            verdict=c['verdict'], tried=res['tried']))
            else:
                r['unreproduced'].append(dict(label=c['label'], kind=res['kind'], verdict=c['verdict'],
                                              values=c['values'], info=res.get('info')))
        for c, res in zip(r['models'], rep['results'][nc:]):
            if res['kind'] == 'assume':
                continue
            r['traces_run'] += 1
            if res['kind'] == 'pass':
                r['traces_ok'] += 1
            elif res['kind'] == 'fail':
                if res.get('robust', 0) >= 4:
                    r['violations'].append(dict(label='replayed path model: ' + res['failures'][0]['label'],
                                                values=res['values'], failures=res['failures'],
                                                verdict='path model', tried=res['tried']))
                else:
                    r['mismatch'].append(dict(values=res['values'], failures=res['failures'][:2]))
            else:
                r['gaps'].append('replay: %s' % res.get('info'))
    return r


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def known_match(prop, unit, label, failures, known):
    for k in known:
        if k.get('property') != prop or k.get('unit') != unit:
            continue
        if any(re.search(k['label'], f['label']) for f in failures):
            # every failed obligation must be one the finding explains
            if all(re.search(k['label'], f['label']) for f in failures):
                return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    scratch = tempfile.mkdtemp(prefix='dedopchk.')
    try:
        if a.replay:
            return do_replay(a.replay, scratch)
        return do_check(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest():
    sys.path.insert(0, HERE)
    scratch = tempfile.mkdtemp(prefix='dedopchk.')
    try:
        p = subprocess.run([PY, '-c', 'import sys; sys.path.insert(0, %r); import symx.run, numpy; '
                            'sys.path.append(symx.run.Z3SITE); '
                            'from symx.core import z3; print("z3", z3.get_version_string(), "numpy", '
                            'numpy.__version__)' % HERE], env=env_for(scratch), cwd=scratch)
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(path, scratch):
    with open(path) as f:
        j = json.load(f)
    job = dict(prop=j['property'], module=j['module'], unit=j['unit'], bounds=j['bounds'], seed=1,
               cases=[dict(values=j['values'])])
    r = worker('con', job, scratch, 300)
    print(json.dumps(r.get('results', r), indent=1, default=str))
    ok = r.get('results', [{}])[0].get('kind') == 'fail'
    print('reproduced' if ok else 'not reproduced')
    return 1 if ok else 0


def do_check(a, scratch):
    t0 = time.time()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    us = units_of(a.prop)
    if a.unit:
        us = [(m, u) for m, u in us if u.name == a.unit]
    if not us:
        print('no harness for %s' % a.prop)
        return 2
    jobs = []
    for m, u in us:
        for b in (u.quick if tier == 'quick' else u.thorough):
            jobs.append((m, u, b))
    wall = 240 if tier == 'quick' else 2400
    res = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fs = {ex.submit(run_unit, a.prop, m, u, b, tier, seed, scratch, a.debug, u.opts.get('wall', wall),
                        t0 + (780 if tier == 'quick' else 14400)): (m, u, b)
              for m, u, b in jobs}
        for f in fs:
            m, u, b = fs[f]
            r = f.result()
            r['module'] = m
            r['_u'] = u
            res.append(r)
    known = load_known()
    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, a.prop + '-*.json')):
        os.remove(old)
    nviol, code, lines, kf = 0, 0, [], {}
    for r in res:
        seen = set()
        for v in r.get('violations', []):
            k = known_match(a.prop, r['unit'], v['label'], v['failures'], known)
            if k is not None:
                kf[k['id']] = k
                continue
            key = re.sub(r'[\d.]+', '#', v['failures'][0]['label'])
            if key in seen or nviol > 20:
                continue
            seen.add(key)
            nviol += 1
            p = os.path.join(rdir, '%s-%s-%d.json' % (a.prop, r['unit'], nviol))
            with open(p, 'w') as f:
                json.dump(dict(property=a.prop, module=r['module'], unit=r['unit'], bounds=r['bounds'],
                               values=v['values'], failures=v['failures'], solver=v['verdict'],
                               rerun='%s/check.py --replay %s' % (HERE, p)), f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (a.prop, p))
            lines.append('  %s: %s' % (r['unit'], json.dumps(v['failures'][0])[:400]))
        if r.get('status') not in ('ok', 'timeout'):
            lines.append('ERROR %s %s: %s' % (r['unit'], r.get('status'), r.get('error')))
            code = 2
    for k in kf.values():
        lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    inconclusive = []
    for r in res:
        if r.get('status') == 'timeout':
            inconclusive.append('%s%s: %s' % (r['unit'], r['bounds'], r.get('error')))
        for x in r.get('unreproduced', []):
            inconclusive.append('%s: %s (%s, replay: %s)' % (r['unit'], x['label'], x['verdict'], x['kind']))
        for g in sorted(set(r.get('gaps', []))):
            inconclusive.append('%s: harness could not drive the code: %s' % (r['unit'], g))
        if r.get('status') == 'ok' and not r.get('complete'):
            inconclusive.append('%s%s: not every path completed: %s %s' % (
                r['unit'], r['bounds'], r.get('why_incomplete'), r.get('reasons')))
        for m in r.get('mismatch', []):
            inconclusive.append('%s: float replay differs at a boundary: %s' % (r['unit'], json.dumps(m)[:300]))
        need = r['_u'].opts.get('witness', ())
        seen = set(w for q in res if q['unit'] == r['unit'] for w in q.get('witness') or ())
        for w in need:
            if r.get('status') == 'ok' and w not in seen:
                t = '%s: witness %r not reached' % (r['unit'], w)
                if t not in inconclusive:
                    inconclusive.append(t)
        if r.get('status') == 'ok' and not r['stats']['obligations']:
            inconclusive.append('%s: no obligation reached' % r['unit'])
    for x in inconclusive[:40]:
        lines.append('INCONCLUSIVE ' + x)
    write_evidence(a.prop, tier, seed, res, nviol, kf, inconclusive, time.time() - t0)
    print('\n'.join(lines))
    if a.v:
        for r in res:
            s = r.get('stats', {})
            print('%-34s %-28s paths %-5s obl %-5s proved %-5s alg %-4s tol %-3s undec %-3s q %-5s solver %.1fs wall %.1fs traces %s/%s' % (
                r['unit'], json.dumps(r['bounds']), s.get('paths'), s.get('obligations'), s.get('proved'),
                r.get('algebra'), s.get('by_tolerance'), s.get('undecided'), s.get('queries'), s.get('solver_s', 0),
                r.get('wall_s', 0), r.get('traces_ok'), r.get('traces_run')))
    tot = sum(r.get('stats', {}).get('obligations', 0) for r in res)
    pr = sum(r.get('stats', {}).get('proved', 0) for r in res)
    print('%s %s: %d harness runs, %d obligations, %d proved, %d violation(s), %d inconclusive, %.1f s' % (
        a.prop, tier, len(res), tot, pr, nviol, len(inconclusive), time.time() - t0))
    if nviol:
        return 1
    return code


def write_evidence(prop, tier, seed, res, nviol, kf, inconclusive, wall):
    def tot(k):
        return sum(r.get('stats', {}).get(k, 0) for r in res)
    funcs = sorted({f for r in res for f in r.get('functions', [])})
    assumptions = [
        'real arithmetic: floating-point rounding of the code under test is outside the claim; equalities are '
        'decided exactly, or within rel 1e-6 / abs 1e-7 where constants were rounded (see tolerance_labels)',
        'library models (numpy, scipy, numexpr, math) in symx/shims.py stand for the real libraries; path models '
        'are replayed against the real ones on every run',
    ]
    for r in res:
        more = r['_u'].opts.get('assumes', ())
        for x in ([more] if isinstance(more, str) else more):
            if x not in assumptions:
                assumptions.append(x)
    samples = []
    for r in res:
        for m in r.get('models', [])[:1]:
            samples.append(dict(unit=r['unit'], bounds=r['bounds'],
                                inputs={k: v for k, v in list(m['values'].items())[:12]}))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(
        states=tot('paths'), transitions=tot('queries'),
        traces_validated_against_impl=sum(r.get('traces_ok', 0) for r in res),
        samples=samples[:6] or ['none'],
        explanation='states = symbolic paths run to the end; transitions = solver queries; traces = path models '
                    're-run against the unmodified code with the real libraries',
        functions_encoded=funcs,
        harness_runs=[dict(unit=r['unit'], bounds=r['bounds'], status=r.get('status'), complete=r.get('complete'),
                           paths=r.get('stats', {}).get('paths'), obligations=r.get('stats', {}).get('obligations'),
                           proved=r.get('stats', {}).get('proved'), by_normal_form=r.get('algebra'),
                           queries=r.get('stats', {}).get('queries'),
                           solver_s=round(r.get('stats', {}).get('solver_s', 0), 2),
                           obligations_by_label=r.get('labels'), witness=r.get('witness'),
                           tolerance_labels=r.get('tolerance_labels'),
                           scope=r['_u'].opts.get('scope', ''),
                           concretised=r.get('stats', {}).get('concretised'), wall_s=r.get('wall_s')) for r in res],
        obligations=tot('obligations'), discharged=tot('proved'), queries=tot('queries'),
        queries_sat=tot('sat'), queries_unsat=tot('unsat'), queries_unknown=tot('unknown'),
        solver_s=round(tot('solver_s'), 2), inconclusive=inconclusive,
        known_findings=[k['id'] for k in kf.values()],
        exhaustive=(not inconclusive and all(r.get('complete') for r in res))),
        assumptions=assumptions, wall_s=round(wall, 2), violations=nviol)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
