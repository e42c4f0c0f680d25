"""
Workers.   run.py sym  JOB.json OUT.json     explore one harness symbolically
           run.py con  JOB.json OUT.json     replay inputs against the real code
"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
Z3SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def load_unit(job):
    from symx import harness
    importlib.import_module('props.' + job['module'])
    return harness.UNITS[(job['prop'], job['unit'])]


def where(e):
    """(in dedop?, description) of an exception"""
    fr = traceback.extract_tb(e.__traceback__)
    inside = [f for f in fr if f.filename.startswith(REPO + '/dedop')]
    from symx import harness
    if not inside or harness.standin_error(e):
        return False, '%s: %s [%s]' % (type(e).__name__, str(e)[:200],
                                       '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fr[-3:]))
    f = inside[-1]
    return True, '%s: %s at %s:%s (line %d)' % (type(e).__name__, str(e)[:200],
                                               os.path.relpath(f.filename, REPO), f.name, f.lineno)


# ----------------------------------------------------------------------
def main_sym(job):
    sys.path.append(Z3SITE)
    import numpy  # noqa  (the real one, before any path games)
    from symx import core, shims, harness
    shims.install()
    shims.start_monitor()
    import z3
    z3.set_param('smt.random_seed', job['seed'])
    z3.set_param('sat.random_seed', job['seed'])
    z3.set_param('nlsat.seed', job['seed'])
    out = {'unit': job['unit'], 'bounds': job['bounds'], 'status': 'ok', 'gaps': []}
    t0 = time.time()
    u = load_unit(job)
    eng = core.Engine(timeout_ms=job.get('timeout_ms', 8000), max_paths=job.get('max_paths', 20000),
                      wall=job.get('wall', 300), seed=job['seed'])
    core.set_engine(eng)
    H = harness.SymH(eng, core, shims)
    models = []
    trace_limit = job.get('traces', 25)

    def once():
        H.decls = {}
        H.serial = 0
        H.core.ENGINE.sqrt_domain_fork = False
        H.core.ENGINE.np_domain_nan = False
        H.core.ENGINE.py_zero_division = False
        shims._CurveFit.hook = None
        H.rel_scale = None
        try:
            u.fn(H, **job['bounds'])
        finally:
            H.restore()

    def add_model(tag):
        if len(models) < trace_limit or tag != 'done':
            r, vals = eng.solve(timeout=3000)
            if r == 'unsat':
                return False
            models.append({'tag': tag, 'values': H.input_values(vals or {}), 'exact': r == 'sat'})
            if tag == 'done' and len(models) <= trace_limit // 2:
                r, vals = inner_model(eng, H, core, z3)
                if r == 'sat':
                    models.append({'tag': tag, 'values': H.input_values(vals), 'exact': True})
        return True
    reasons = {}

    def late(*a):
        # a loop that asks the solver nothing
        if not eng.in_path:
            return
        eng.abort = core.Budget('time in one path')
        raise eng.abort
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, job.get('wall', 300) + 15, 5)
    try:
        for kind, e in eng.explore(once):
            if kind == 'budget':
                signal.setitimer(signal.ITIMER_REAL, 0)
                add_model('budget')
            elif kind == 'done':
                add_model('done')
            elif kind == 'unsupported':
                k = str(e)[:200]
                reasons[k] = reasons.get(k, 0) + 1
                add_model('unsupported')
            else:
                if isinstance(e, harness.HarnessGap):
                    out['gaps'].append('gap: %s' % e)
                    continue
                ins, txt = where(e)
                if not ins:
                    out['gaps'].append(txt)
                    if job.get('debug'):
                        traceback.print_exception(e)
                    if len(out['gaps']) > 20:
                        break
                    continue
                if job.get('debug'):
                    traceback.print_exception(e)
                r, vals = eng.solve()
                if r == 'unsat':
                    eng.stats.infeasible += 1
                    continue
                eng.stats.obligations += 1
                lab = 'exception ' + txt
                gl = 'exc ' + txt[:60]
                n = H.per_label.get(gl, 0)
                H.per_label[gl] = n + 1
                if n < 3:
                    H.cex.append({'label': lab, 'values': H.input_values(vals or {}), 'verdict': r, 'incomplete': []})
                    r, vals = inner_model(eng, H, core, z3)
                    if r == 'sat':
                        H.cex.append({'label': lab, 'values': H.input_values(vals or {}), 'verdict': r,
                                      'incomplete': []})
    except BaseException as e:
        out['status'] = 'error'
        out['error'] = ''.join(traceback.format_exception(e))[-3000:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    st = eng.stats
    out.update({
        'cex': H.cex, 'undecided': H.undecided[:50], 'labels': H.labels, 'witness': sorted(H.witness),
        'models': models, 'complete': eng.complete, 'why_incomplete': eng.why_incomplete, 'reasons': reasons,
        'algebra': getattr(H, 'alg', 0), 'tolerance_labels': sorted(H.tol_used),
        'stats': dict(vars(st)), 'functions': sorted(shims.ENTERED), 'files': sorted(os.path.relpath(f, REPO) for f in shims.FILES),
        'wall_s': round(time.time() - t0, 3),
    })
    return out


def inner_model(eng, H, core, z3):
    from fractions import Fraction
    inner = []
    for i, (name, (k, v, lo, hi)) in enumerate(H.decls.items()):
        if k == 'real' and lo is not None and hi is not None:
            lo, hi = Fraction(lo), Fraction(hi)
            w = (hi - lo) / 16
            a = core.ATOMS[next(iter(core.p_atoms(v.p)))]
            inner += [a.z >= core._rv(lo + w), a.z <= core._rv(hi - w), a.z != 0]
    if not inner:
        return 'none', None
    return eng.solve(z3.And(*inner), timeout=1500)


# ----------------------------------------------------------------------
class Endless(BaseException):
    pass


HANG = 20      # seconds of CPU time; replays take milliseconds


def run_con(u, bounds, values):
    """('fail', failures) | ('pass', n) | ('assume', None) | ('gap', txt)"""
    from symx import harness
    H = harness.ConH(dict(values))

    def hang(*a):
        raise Endless('does not end (%d s of CPU time)' % HANG)
    try:
        signal.signal(signal.SIGPROF, hang)
        signal.setitimer(signal.ITIMER_PROF, HANG, 1)
        u.fn(H, **bounds)
        signal.setitimer(signal.ITIMER_PROF, 0)
    except Endless as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ins, txt = where(e)
        if not ins:
            return 'gap', txt, H
        H.failures.append({'label': txt, 'got': 'no end', 'want': 'normal return'})
    except harness.AssumeFailed:
        # obligations that failed before the assumption was reached do not count
        return 'assume', None, H
    except harness.HarnessGap as e:
        return 'gap', str(e), H
    except Exception as e:
        ins, txt = where(e)
        if not ins:
            return 'gap', txt, H
        H.failures.append({'label': 'exception ' + txt, 'got': 'exception', 'want': 'normal return'})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        H.restore()
    if H.failures:
        return 'fail', H.failures, H
    return 'pass', H.passed, H


def variants(values, rng, n):
    """the model itself, then the model with angles recovered, then perturbations"""
    base = {k: v for k, v in values.items() if not k.endswith('~angle')}
    ang = dict(base)
    has = False
    for k, v in values.items():
        if k.endswith('~angle'):
            ang[k[:-6]] = v
            has = True
    yield base
    if has:
        yield ang
    src = ang if has else base
    for i in range(n):
        w = dict(src)
        mode = i % 4
        keys = [k for k, v in w.items() if isinstance(v, float)]
        for k in keys:
            if mode == 0:
                w[k] = w[k] + rng.uniform(-1, 1) * 1e-3 * (1 + abs(w[k]))
            elif mode == 1:
                w[k] = w[k] * (1 + rng.uniform(-1, 1) * 0.05) + rng.uniform(-.02, .02)
            elif mode == 2:
                w[k] = ('resample',) if rng.random() < 0.3 else w[k]
            else:
                w[k] = ('resample',)
        yield w


def main_con(job):
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    from symx import harness, constubs
    constubs.install()
    u = load_unit(job)
    rng = random.Random(job['seed'])
    devnull = open(os.devnull, 'w')
    sys.stdout, real_out = devnull, sys.stdout
    out = {'results': []}
    bounds_of = {}

    orig = harness.ConH.real

    def real(self, name, lo=None, hi=None, **kw):
        v = self.values.get(name)
        if isinstance(v, tuple):
            a = lo if lo is not None else -4
            b = hi if hi is not None else a + 8
            self.values[name] = rng.uniform(a, b)
        return orig(self, name, lo, hi, **kw)
    harness.ConH.real = real
    t_end = time.time() + job.get('wall', 60)
    for c in job['cases']:
        res = {'tag': c.get('tag')}
        n = c.get('search', 0)
        tried = 0
        first = None
        t_case = time.time() + c.get('wall', 15)
        for w in variants(c['values'], rng, n):
            if tried and (time.time() > t_end or time.time() > t_case):
                break
            kind, info, H = run_con(u, job['bounds'], w)
            tried += 1
            if first is None:
                first = (kind, info)
            if kind == 'fail':
                vals = {k: v for k, v in H.values.items() if not isinstance(v, tuple)}
                res.update(kind='fail', failures=info[:10], values=vals, tried=tried)
                break
        else:
            pass
        if 'kind' not in res:
            res.update(kind=first[0], info=first[1] if first[0] == 'gap' else None, tried=tried)
        if res['kind'] == 'fail' and c.get('robust'):
            # does the failure survive small changes of the inputs?
            k = 0
            global HANG
            HANG, was = 4, HANG
            for i in range(8):
                w = {q: (v + rng.uniform(-1, 1) * 1e-4 * (1 + abs(v)) if isinstance(v, float) else v)
                     for q, v in res['values'].items()}
                kk, _, _ = run_con(u, job['bounds'], w)
                k += kk == 'fail'
            HANG = was
            res['robust'] = k
        out['results'].append(res)
    sys.stdout = real_out
    return out


def main():
    mode, jf, of = sys.argv[1:4]
    sys.path.insert(0, HERE)
    with open(jf) as f:
        job = json.load(f)
    out = main_sym(job) if mode == 'sym' else main_con(job)
    with open(of, 'w') as f:
        json.dump(out, f, default=str)


if __name__ == '__main__':
    # run as the module, so that symx.* exists once
    sys.path.insert(0, HERE)
    from symx import run as _r
    _r.main()
