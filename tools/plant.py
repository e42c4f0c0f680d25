"""plant.py SPEC.py: make, confirm and keep one planted bug.
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text using dd.py)"""
import json, os, runpy, shutil, subprocess, sys, tempfile
BASE = '938611a'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def plant(spec):
    out = os.path.join(HERE, 'seeded', spec['ID'])
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write(spec['DEMO'].lstrip('\n'))
    shutil.copy(os.path.join(HERE, 'tools', 'dd.py'), out)
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# exit 0 when the behaviour is right; run with cwd = the repository\n'
                'here="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)"\ntrap \'rm -rf "$T"\' EXIT\n'
                'HOME="$T" TMPDIR="$T" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" '
                '/opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), f, indent=1)
    w = tempfile.mkdtemp(prefix='plant.')
    try:
        r = os.path.join(w, 'repo')
        sh('cp -a /repo %s' % r)
        sh('git -C %s checkout -q -- .' % r)
        ok = sh('bash %s/demo.sh' % out, cwd=r)
        if ok.returncode:
            print(ok.stdout.decode()[-1500:])
            return 'demo fails on the clean tree'
        for f, old, new in spec['EDITS']:
            p = os.path.join(r, f)
            with open(p, newline='') as fh:
                t = fh.read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                return 'edit of %s matches %d times' % (f, t.count(old))
            with open(p, 'w', newline='') as fh:
                fh.write(t.replace(old, new))
        d = sh('git -C %s diff --binary' % r).stdout
        with open(os.path.join(out, 'patch.diff'), 'wb') as f:
            f.write(d)
        cur, orig = None, False
        for x in d.decode().splitlines():
            if x.startswith('--- a/'):
                cur = sh('git -C /repo show %s:%s' % (BASE, x[6:].strip())).stdout.decode().split('\n')
                cur = {y.strip() for y in cur}
            elif x.startswith('-') and x[1:].strip() and x[1:].strip() in cur:
                orig = True
        if not orig:
            return 'changes no line of the original'
        bad = sh('bash %s/demo.sh' % out, cwd=r)
        if not bad.returncode:
            return 'demo passes with the change'
        # the repository's own tests, run from the copy
        t = open('/opt/vp/test.sh').read().replace('/repo', r)
        with open(os.path.join(w, 'test.sh'), 'w') as f:
            f.write(t)
        sh('bash %s/test.sh %s/o.json' % (w, w))
        with open(os.path.join(w, 'o.json')) as f:
            o = json.load(f)
        with open('/opt/vp/BASELINE.json') as f:
            st = json.load(f)['stable']
        miss = [x for x in st if x not in o['passed']]
        if miss:
            return 'tests fail: %s' % miss[:3]
        e = dict(os.environ, VERIF_REPO=r)
        c = subprocess.run([os.path.join(HERE, 'check.py'), spec['PROPERTY']], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        lines = c.stdout.decode().splitlines()
        print('   demo: ' + (bad.stdout.decode().strip().splitlines() or ['?'])[-1][:150])
        for x in lines[:2] + lines[-1:]:
            print('   ' + x[:220])
        return 'CAUGHT' if c.returncode == 1 else 'MISSED (exit %d)' % c.returncode
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    rc = {}
    for f in sys.argv[1:]:
        g = runpy.run_path(f)
        for s in g.get('BUGS') or [g]:
            rc[s['ID']] = plant(s)
            print(s['ID'], s['PROPERTY'], rc[s['ID']], flush=True)
