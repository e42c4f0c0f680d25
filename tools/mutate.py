"""mutation survey: which small changes of a file do the checks miss?
usage: mutate.py OUT.jsonl N SEED FILE:PROP,PROP ...   (works on copies under /tmp; 4 at a time)"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
FUN = dict(sin='cos', cos='sin', min='max', max='min', floor='ceil', ceil='floor', argmin='argmax', argmax='argmin',
           real='imag', imag='real', sum='mean', mean='sum', zeros='ones', ones='zeros', x='y', y='z', z='x', lat='lon',
           lon='lat', degrees='radians', radians='degrees', append='insert', roll='pitch', pitch='yaw', yaw='roll')


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    out = []

    def put(node, text, kind):
        a = off[node.lineno - 1] + node.col_offset
        b = off[node.end_lineno - 1] + node.end_col_offset
        new = raw[:a] + text.encode() + raw[b:]
        try:
            ast.parse(new)
        except SyntaxError:
            return
        if new != raw:
            out.append((kind, node.lineno, raw[a:b].decode()[:90], text[:90], new))

    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        attrs = sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)})
        for n in ast.walk(fn):
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                    isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                put(n, ast.unparse(ast.BinOp(n.left, BIN[type(n.op)](), n.right)), 'binop')
                put(n, '(%s)' % ast.unparse(n.left), 'drop')
            elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
                put(n, ast.unparse(ast.Compare(n.left, [CMP[type(n.ops[0])]()] + n.ops[1:], n.comparators)), 'cmp')
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                put(n, str(not n.value), 'bool')
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1 if isinstance(n.value, int) else n.value * 1.5 + 0.1), 'const')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                put(n, '(%s)' % ast.unparse(n.operand), 'unary')
            elif isinstance(n, ast.BoolOp):
                put(n, '(%s)' % ast.unparse(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)),
                    'boolop')
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                if not isinstance(n, ast.While):
                    put(n.test, 'True', 'cond')
                put(n.test, 'False', 'cond')
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or (
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if n is not fn:
                    put(n, 'pass', 'delete')
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if n.attr in FUN:
                    put(n, ast.unparse(ast.Attribute(n.value, FUN[n.attr], ast.Load())), 'attr')
                else:
                    # an attribute of similar name used in the same function
                    c = [a for a in attrs if a != n.attr and (a[:4] == n.attr[:4] or a[-4:] == n.attr[-4:])]
                    if c:
                        put(n, ast.unparse(ast.Attribute(n.value, random.choice(c), ast.Load())), 'attr')
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = list(n.args)
                a[0], a[1] = a[1], a[0]
                put(n, ast.unparse(ast.Call(n.func, a, n.keywords)), 'swap')
            elif isinstance(n, ast.Slice) and (n.lower or n.upper):
                put(n, ':', 'slice')
            elif isinstance(n, (ast.Continue, ast.Break)):
                put(n, 'pass', 'flow')
    return out


def one(job):
    k, rel, props, kind, line, was, now, new = job
    d = '/tmp/mut/%d' % k
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs', 'build'))
    with open(os.path.join(d, rel), 'wb') as f:
        f.write(new)
    res = {}
    for p in props:
        try:
            r = subprocess.run(['/opt/venv/bin/python', 'check.py', p], cwd=HERE, env=dict(os.environ, VERIF_REPO=d),
                               capture_output=True, text=True, timeout=600)
            res[p] = r.returncode
            if r.returncode == 2:
                res[p] = '2: ' + (r.stderr + r.stdout).strip()[-300:]
        except subprocess.TimeoutExpired:
            res[p] = 'timeout'
        if res[p] == 1:
            break
    caught = any(v == 1 for v in res.values())
    tests = None
    if not caught:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--deselect', 'none', 'tests', '-p',
                            'no:cacheprovider'], cwd=d, capture_output=True, text=True, timeout=600) if False else None
    shutil.rmtree(d, ignore_errors=True)
    return dict(file=rel, kind=kind, line=line, was=was, now=now, res=res, caught=caught)


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    random.seed(seed)
    jobs = []
    for a in sys.argv[4:]:
        rel, props = a.split(':')
        src = open(os.path.join(REPO, rel), newline='').read()
        m = mutants(src)
        random.shuffle(m)
        for kind, line, was, now, new in m[:n]:
            jobs.append([0, rel, props.split(','), kind, line, was, now, new])
    random.shuffle(jobs)
    for k, j in enumerate(jobs):
        j[0] = k
    with open(out, 'a') as f, ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for r in ex.map(one, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()
            if not r['caught']:
                print('MISSED', r['file'], r['line'], r['kind'], '|', r['was'], '=>', r['now'], '|', r['res'], flush=True)


if __name__ == '__main__':
    main()
