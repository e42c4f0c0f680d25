"""L01, L02: the command line (and the web service) on top of workspaces and processor"""
import builtins
import json
import os
from symx.harness import unit
from props import _cate
from props._fs import FS, ROOT, jtext, patch_json
from props.wspace import WS, ws, cf, manager, _without, _copied


def main(H):
    _cate.install()
    H.imp('dedop.proc.sar')
    return H.imp('dedop.cli.main', 'main')


def home(H, fs):
    """the home directory is in the tree as well"""
    fs.file('home/.dedop/config.py', b'')
    old = os.environ.get('HOME')
    os.environ['HOME'] = ROOT + '/home'

    class Env:
        def __setattr__(self, k, v):
            if k == 'home':
                os.environ['HOME'] = old or '/'
    H.undo.append((Env(), 'home', None))


def answer(H, text):
    asked = []

    def inp(prompt=''):
        asked.append(prompt)
        return text
    H.patch(builtins, 'input', inp)
    return asked


class Recorder:
    """a processor class that records what it is asked to do; fails at the given call"""

    def __init__(self, H, fail=None):
        self.made, self.runs = [], []
        rec = self
        self.failure = None
        exc = H.imp('dedop.model.exception', 'ProcessorException')

        class Processor:
            def __init__(self, name, cnf_file=None, cst_file=None, chd_file=None, output_dir=None, skip_l1bs=True, **kw):
                if 'out_path' in kw:
                    output_dir = kw['out_path']
                self.args = dict(name=name, cnf=cnf_file, cst=cst_file, chd=chd_file, out=output_dir,
                                 skip=bool(skip_l1bs))
                rec.made.append(self)

            def process(self, l1a_file, monitor=None):
                rec.runs.append((dict(self.args), l1a_file, self, monitor))
                if fail is not None and len(rec.runs) == fail:
                    raise exc('failed')
                return 0
        self.cls = Processor


def base_tree(H, open_=True):
    fs = FS(H)
    home(H, fs)
    fs.file('elsewhere/my.nc')
    fs.file(WS + '/.current', b'b', 'selection' if open_ else None)
    for w in ('a', 'b'):
        fs.dir(ws(w))
        fs.file(ws(w) + '/configs/.current', b'y', 'selection of ' + w)
        for c in ('x', 'y'):
            for k in ('CHD', 'CNF', 'CST'):
                fs.file('%s/%s.json' % (cf(w, c), k))
        fs.file(ws(w) + '/inputs/in2.nc', None, 'in2 of ' + w)
        fs.file(ws(w) + '/inputs/in1.nc', None, 'in1 of ' + w)
        fs.file(ws(w) + '/inputs/readme.txt')
    return fs


@unit('L01', scope='workspace, configuration, inputs, output directory given or not, one or all configurations, quiet, '
      'without L1BS; selections and inputs there or not; a run that fails', witness=('run', 'all', 'failed', 'nothing',
                                                                                   'default'), max_paths=30000)
def run(H):
    fs = base_tree(H)
    m = manager(H)
    f = main(H)
    fail = H.pick('fails', [None, 1, 2])
    rec = Recorder(H, fail)
    H.replace('dedop.proc.sar', 'L1BProcessor', rec.cls)
    argv = ['run']
    w = H.pick('-w', [None, 'a'])
    if w:
        argv += ['-w', w]
    all_ = H.flag('-a')
    c = None if all_ else H.pick('-c', [None, 'x'])
    if all_:
        argv += ['-a']
    if c:
        argv += ['-c', c]
    out = H.pick('-o', [None, '/vfs/out'])
    if out:
        argv += ['-o', out]
    skip = H.flag('-s')
    if skip:
        argv += ['-s']
    if not skip:
        argv += ['-q']
    ins = H.pick('-i', [None, ['/vfs/elsewhere/my.nc'], ['/vfs/elsewhere/my.nc', '/vfs/other.nc']])
    if ins:
        argv += ['-i'] + ins
    # decided before the command runs, which makes what is missing
    selected = fs.exists(WS + '/.current')
    if w is None:
        w = 'b' if selected else 'default'
    chosen = fs.exists(ws(w) + '/configs/.current') if w != 'default' else False
    given = [] if w == 'default' else [n for n in ('in1.nc', 'in2.nc') if fs.exists('%s/inputs/%s' % (ws(w), n))]
    status, e = H.try_(f, argv, m)
    H.check('run ends normally: %r' % (e,), e is None)
    if w == 'default':
        H.note('default')
        cs = ['x'] if c else [] if all_ else ['default']
        if c or ins is None:
            # no such configuration, or no inputs
            if ins is None:
                H.same('nothing to process in a new workspace', rec.runs, [])
                H.check('status', status != 0)
            return
    elif all_:
        H.note('all')
        cs = ['x', 'y']
    else:
        cs = [c or ('y' if chosen else 'default')]
    if ins is None:
        ins = ['%s/%s/inputs/%s' % (ROOT, ws(w), n) for n in given]
    want = []
    for k in cs:
        p = ROOT + '/' + cf(w, k)
        for i in ins:
            want.append((dict(name=k, cnf=p + '/CNF.json', cst=p + '/CST.json', chd=p + '/CHD.json',
                              out=out or p + '/outputs', skip=skip), i))
    if not want:
        H.note('nothing')
        H.same('nothing is processed', rec.runs, [])
        H.check('an error is reported when there is nothing to process', status != 0)
        return
    if fail is not None and fail <= len(want):
        H.note('failed')
        want = want[:fail]
        H.check('a failed run is reported', status != 0)
    else:
        H.note('run')
        H.same('status', status, 0)
    H.same('runs', [(a, i) for a, i, p, mon in rec.runs], want)
    for a, i, p, mon in rec.runs:
        H.check('a monitor is passed', mon is not None)
    for k in cs:
        H.check('the configuration that is run exists', fs.exists(cf(w, k) + '/CNF.json'))


@unit('L01', scope='the web service: any names, paths', witness=('ran',))
def service(H):
    _cate.install()
    fs = base_tree(H, False)
    rec = Recorder(H)
    H.imp('dedop.webapi.websocket')
    H.replace('dedop.proc.sar', 'L1BProcessor', rec.cls)
    S = H.imp('dedop.webapi.websocket', 'WebSocketService')
    s = S(manager(H))
    w, c = H.pick('workspace', ['a', 'b']), H.pick('configuration', ['x', 'y'])
    mon = object()
    s.process('a run', w, c, '/vfs/out', '/vfs/in.nc', mon)
    p = ROOT + '/' + cf(w, c)
    H.same('run', [(a, i) for a, i, q, mm in rec.runs],
           [(dict(name='a run', cnf=p + '/CNF.json', cst=p + '/CST.json', chd=p + '/CHD.json', out='/vfs/out',
                  skip=False), '/vfs/in.nc')])
    H.check('monitor', rec.runs[0][3] is mon)
    H.note('ran')


@unit('L01', scope='the web service saves any configuration', witness=('ran',))
def save(H):
    _cate.install()
    fs = base_tree(H, False)
    patch_json(H)
    S = H.imp('dedop.webapi.websocket', 'WebSocketService')
    s = S(manager(H))
    w, c = H.pick('workspace', ['a', 'b']), H.pick('configuration', ['x', 'y'])
    others = dict(q=dict(value=None, units='null'), r=dict(value=[1.5, 0, 'é'], description='two  words', on=True), s={})
    conf = {k: dict(others, p=dict(value=H.real('p ' + k, -9, 9)), __metainf__=dict(version=H.int('version ' + k, 0, 9)))
            for k in ('chd', 'cnf', 'cst')}
    before = fs.snapshot()
    s.save_configs(w, c, conf)
    fs.unchanged('nothing else is changed', before, ['%s/%s.json' % (cf(w, c), k) for k in ('CHD', 'CNF', 'CST')])
    got = s.get_configs(w, c)
    H.same('name', got['name'], c)
    for k in conf:
        H.same('parameters of ' + k, sorted(got[k]), sorted(conf[k]))
        H.eq('value of ' + k, got[k]['p']['value'], conf[k]['p']['value'])
        H.eq('version of ' + k, got[k]['__metainf__']['version'], conf[k]['__metainf__']['version'])
        H.same('order of ' + k, list(got[k + '_order']), ['__metainf__', 'p', 'q', 'r', 's'])
        for n, v in others.items():
            H.same('%s of %s' % (n, k), got[k][n], v)
    vs = manager(H).get_all_config_version(w, c)
    for v, k in zip(vs, ('chd', 'cnf', 'cst')):
        H.eq('version read of ' + k, v, conf[k]['__metainf__']['version'])
    H.note('ran')


# ------------------------------------------------------------------------------
def call(H, fs, argv, reply='yes'):
    f = main(H)
    asked = answer(H, reply)
    m = manager(H)
    status, e = H.try_(f, argv, m)
    return m, status, e, asked


def opened(fs, path):
    c = fs.content(path)
    return None if c is None else c.decode()


@unit('L02', quick=[dict(cmd=c) for c in ('remove', 'rename', 'copy', 'add', 'current')], scope='workspaces default, b, a '
      'there or not, any of them selected or none, named on the command line or not, confirmed or not', witness=('done',),
      max_paths=30000)
def workspace(H, cmd):
    fs = FS(H)
    home(H, fs)
    names = ('a', 'b', 'default')
    for w in names:
        fs.dir(ws(w), 'workspace ' + w)
        fs.file(ws(w) + '/notes.txt')
    have = [w for w in names if fs.exists(ws(w))]
    sel = H.pick('selected', [None] + have)
    if sel is not None or H.flag('empty selection'):
        fs.file(WS + '/.current', (sel or '').encode())
    elif not have:
        fs.dir(WS)
    argv = ['workspace', cmd]
    arg = H.pick('name', ['a', 'c'] if cmd == 'add' else [None, 'a'])
    if arg:
        argv += [arg]
    target = arg or sel
    new = None
    reply = 'yes'
    if cmd in ('rename', 'copy') and (arg or cmd == 'rename'):
        new = H.pick('new name', ['b', 'c'] if cmd == 'rename' else [None, 'b', 'c'])
        if new:
            argv += [new]
    if cmd == 'remove':
        reply = H.pick('reply', ['yes', 'no', ''])
        if H.flag('-y'):
            argv += ['-y']
            reply = 'yes'
    before = fs.view(fs.snapshot())
    m, status, e, asked = call(H, fs, argv, reply)
    H.check('%s ends normally: %r' % (cmd, e), e is None)
    now = _without(fs.now(), WS + '/.current')
    was = _without(before, WS + '/.current')
    cur = opened(fs, WS + '/.current') or None
    if cmd == 'current':
        H.same('no workspace is changed', now, was)
        ok = arg is None or arg in have
        H.check('status of current', (status == 0) == ok)
        H.same('selection', cur, arg if arg and ok else sel)
        H.note('done')
        return
    if cmd == 'add':
        ok = arg not in have
        H.check('status of add', (status == 0) == ok)
        H.same('selection after add', cur, arg if ok else sel)
        H.same('workspaces after add', m.get_workspace_names(), sorted(set(have) | {arg}))
        H.note('done')
        return
    if target is None or target not in have:
        H.check('%s of a workspace that is not there is reported' % cmd, status != 0 or reply == 'no')
        H.same('nothing is changed', now, was)
        H.same('selection', cur, sel)
        return
    H.same('status', status, 0)
    H.note('done')
    if cmd == 'remove':
        if reply == 'no':
            H.same('not confirmed: nothing is removed', now, was)
            H.same('selection', cur, sel)
            return
        H.same('workspaces after remove', now, _without(was, ws(target)))
        rest = [w for w in have if w != target]
        want = sel if sel != target else 'default' if 'default' in rest else rest[0] if rest else None
        H.same('selection after remove', cur, want)
        return
    new = new or target + '_1'
    got = [w for w in m.get_workspace_names() if w not in have]
    # an existing name is never taken: a new one is made from it
    H.check('%s makes one new workspace: %r' % (cmd, got), len(got) == 1 and got[0].startswith(new) and
            (new in have or got[0] == new))
    if len(got) != 1:
        return
    want = _copied(was, ws(target), ws(got[0]))
    if cmd == 'rename':
        want = _without(want, ws(target))
    H.same('workspaces after ' + cmd, now, want)
    H.same('selection after ' + cmd, cur, got[0] if cmd == 'rename' and sel == target else sel)


@unit('L02', quick=[dict(cmd=c) for c in ('remove', 'rename', 'copy', 'add', 'current')], scope='configurations default, '
      'y, x there or not in two workspaces, any of them selected or none, workspace named or selected',
      witness=('done',), max_paths=30000)
def config(H, cmd):
    fs = FS(H)
    home(H, fs)
    w = H.pick('workspace', ['a', 'b'])
    named = H.flag('-w')
    if named:
        fs.file(WS + '/.current', b'b' if w == 'a' else b'a')
    else:
        fs.file(WS + '/.current', w.encode())
    names = ('default', 'x', 'y')
    for v in ('a', 'b'):
        for c in names:
            if v == w:
                fs.dir(cf(v, c), 'configuration %s' % c)
            for k in ('CHD', 'CNF', 'CST'):
                fs.file('%s/%s.json' % (cf(v, c), k))
    fs.file(cf('b' if w == 'a' else 'a', 'x')[:-1] + '.current', b'y')
    have = [c for c in names if fs.exists(cf(w, c))]
    sel = H.pick('selected', [None] + have)
    curf = ws(w) + '/configs/.current'
    if sel is not None or H.flag('empty selection'):
        fs.file(curf, (sel or '').encode())
    argv = ['config', cmd] + (['-w', w] if named else [])
    arg = H.pick('name', ['x', 'z'] if cmd == 'add' else [None, 'x'])
    if arg:
        argv += [arg]
    cry = cmd == 'add' and H.flag('cryosat')
    if cry:
        argv += ['--cryosat-adapted']
    target = arg or sel
    new = None
    reply = 'yes'
    if cmd in ('rename', 'copy') and (arg or cmd == 'rename'):
        new = H.pick('new name', ['y', 'z'] if cmd == 'rename' else [None, 'y', 'z'])
        if new:
            argv += [new]
    if cmd == 'remove':
        reply = H.pick('reply', ['yes', 'no'])
        if H.flag('-y'):
            argv += ['-y']
            reply = 'yes'
    before = fs.view(fs.snapshot())
    m, status, e, asked = call(H, fs, argv, reply)
    H.check('%s ends normally: %r' % (cmd, e), e is None)
    now = _without(fs.now(), curf)
    was = _without(before, curf)
    cur = opened(fs, curf) or None
    if cmd == 'current':
        H.same('no configuration is changed', now, was)
        ok = arg is None or arg in have
        H.check('status of current', (status == 0) == ok)
        H.same('selection', cur, arg if arg and ok else sel)
        H.note('done')
        return
    if cmd == 'add':
        ok = arg not in have
        H.check('status of add', (status == 0) == ok)
        H.same('selection after add', cur, arg if ok else sel)
        H.same('configurations after add', m.get_config_names(w), sorted(set(have) | {arg}))
        H.same('other files after add', _without(now, cf(w, arg)), _without(was, cf(w, arg)))
        if ok:
            import pkgutil
            for k in ('CHD', 'CNF', 'CST'):
                H.same('new %s' % k, fs.content('%s/%s.json' % (cf(w, arg), k)),
                       pkgutil.get_data('dedop.ui.data.%sconfig' % ('cryosat_' if cry else ''), k + '.json'))
        H.note('done')
        return
    if target is None or target not in have:
        H.check('%s of a configuration that is not there is reported' % cmd, status != 0 or reply == 'no')
        H.same('nothing is changed', now, was)
        H.same('selection', cur, sel)
        return
    H.same('status', status, 0)
    H.note('done')
    if cmd == 'remove':
        if reply == 'no':
            H.same('not confirmed: nothing is removed', now, was)
            H.same('selection', cur, sel)
            return
        H.same('configurations after remove', now, _without(was, cf(w, target)))
        rest = [c for c in have if c != target]
        want = sel if sel != target else 'default' if 'default' in rest else rest[0] if rest else None
        H.same('selection after remove', cur, want)
        return
    new = new or target + '_copy'
    got = [c for c in m.get_config_names(w) if c not in have]
    H.check('%s makes one new configuration: %r' % (cmd, got), len(got) == 1 and got[0].startswith(new) and
            (new in have or got[0] == new))
    if len(got) != 1:
        return
    want = _copied(was, cf(w, target), cf(w, got[0]))
    if cmd == 'rename':
        want = _without(want, cf(w, target))
    H.same('configurations after ' + cmd, now, want)
    H.same('selection after ' + cmd, cur, got[0] if cmd == 'rename' and sel == target else sel)


@unit('L02', quick=[dict(kind=k, n=4) for k in ('workspace', 'config')],
      thorough=[dict(kind=k, n=12) for k in ('workspace', 'config')],
      scope='the same copy asked for n times, then a rename to the same name: none takes the place of another',
      witness=('named', 'not named'))
def copies(H, kind, n):
    fs = FS(H)
    home(H, fs)
    path = ws if kind == 'workspace' else lambda c: cf('a', c)
    pre = [] if kind == 'workspace' else ['-w', 'a']
    for c in ('a', 'b', 'x'):
        fs.dir(path(c), '%s %s' % (kind, c))
        fs.file(path(c) + '/CHD.json', bytes('of ' + c, 'ascii'))
    have = [c for c in ('a', 'b', 'x') if fs.exists(path(c))]
    fs.file(WS + '/.current', b'')
    if 'a' not in have:
        return
    new = H.pick('new name', [None, 'b', 'c'])
    H.note('named' if new else 'not named')
    known = list(have)
    for i in range(n + 1):
        last = i == n and new is not None
        was = fs.view(fs.snapshot())
        argv = [kind, 'rename' if last else 'copy'] + pre + ['x' if last else 'a'] + ([new] if new else [])
        if last and 'x' not in have:
            return
        m, status, e, asked = call(H, fs, argv, 'yes')
        H.check('copy %d ends normally: %r' % (i, e), e is None)
        H.same('status of copy %d' % i, status, 0)
        names = m.get_workspace_names() if kind == 'workspace' else m.get_config_names('a')
        fresh = [c for c in names if c not in known]
        H.check('copy %d makes one new %s: %r' % (i, kind, fresh), len(fresh) == 1)
        if len(fresh) != 1:
            return
        known.append(fresh[0])
        src = 'x' if last else 'a'
        want = _copied(was, path(src), path(fresh[0]))
        if last:
            want = _without(want, path(src))
        cur = (WS if kind == 'workspace' else ws('a') + '/configs') + '/.current'
        H.same('everything else after copy %d' % i, _without(fs.now(), cur), _without(want, cur))



@unit('L02', quick=[dict(cmd=c) for c in ('remove', 'clean', 'add')], scope='inputs and outputs of two workspaces there or '
      'not; no, one or several patterns; confirmed or not', witness=('done',), max_paths=30000)
def files(H, cmd):
    fs = FS(H)
    home(H, fs)
    fs.file('elsewhere/S3_new.nc')
    fs.file('elsewhere/S3_1.nc')
    fs.file('elsewhere/x.txt')
    w = H.pick('workspace', ['a', 'b'])
    named = H.flag('-w')
    fs.file(WS + '/.current', (({'a': 'b', 'b': 'a'}[w]) if named else w).encode())
    for v in ('a', 'b'):
        fs.dir(ws(v) + '/inputs')
        for n in ('S3_1.nc', 'S3_2.nc', 'CS_1.nc'):
            fs.file(ws(v) + '/inputs/' + n, None, '%s of %s' % (n, v) if v == w and cmd == 'remove' else None)
        fs.file(ws(v) + '/inputs/notes.txt')
        for c in ('x', 'y'):
            fs.file(cf(v, c) + '/CNF.json')
            fs.dir(cf(v, c) + '/outputs', 'outputs of %s/%s' % (v, c))
            fs.file(cf(v, c) + '/outputs/L1B.nc', None, 'product of %s/%s' % (v, c))
            fs.file(cf(v, c) + '/outputs/log.txt', None, 'log of %s/%s' % (v, c))
        fs.file(ws(v) + '/configs/.current', b'y')
    reply = 'yes'
    before = fs.snapshot()
    if cmd == 'add':
        what = H.pick('files', [['S3_new.nc'], ['S3_new.nc', 'S3_1.nc'], ['S3*.nc'], ['none*.nc']])
        argv = ['input', 'add', '-q'] + (['-w', w] if named else []) + ['%s/elsewhere/%s' % (ROOT, p) for p in what]
        m, status, e, asked = call(H, fs, argv)
        H.check('add ends normally: %r' % (e,), e is None)
        import fnmatch
        src = [n for n in ('S3_1.nc', 'S3_new.nc') if any(fnmatch.fnmatchcase(n, p) for p in what)]
        H.check('status', (status == 0) == bool(src))
        want = fs.view(before)
        for n in src:
            want['/%s/inputs/%s' % (ws(w), n)] = want['/elsewhere/' + n]
        fs.compare('after add', fs.now(), want)
        H.note('done')
        return
    if cmd == 'remove':
        import fnmatch
        what = H.pick('patterns', [[], ['S3_1.nc'], ['S3*'], ['S3*', '*_1.nc'], ['none*'], ['notes.txt']])
        argv = ['input', 'remove'] + (['-w', w] if named else [])
        if H.flag('-q'):
            argv += ['-q']
        else:
            reply = H.pick('reply', ['yes', 'no'])
        argv += what
        m, status, e, asked = call(H, fs, argv, reply)
        H.check('remove ends normally: %r' % (e,), e is None)
        want = fs.view(before)
        gone = [n for n in ('S3_1.nc', 'S3_2.nc', 'CS_1.nc')
                if '/%s/inputs/%s' % (ws(w), n) in want and (not what or any(fnmatch.fnmatchcase(n, p) for p in what))]
        H.check('status of remove', (status == 0) == bool(gone))
        if reply == 'yes':
            for n in gone:
                want = _without(want, '%s/inputs/%s' % (ws(w), n))
        fs.compare('after remove', fs.now(), want)
        H.note('done')
        return
    c = H.pick('-c', [None, 'x'])
    argv = ['output', 'clean'] + (['-w', w] if named else []) + (['-c', c] if c else [])
    if H.flag('-q'):
        argv += ['-q']
    else:
        reply = H.pick('reply', ['yes', 'no'])
    c = c or 'y'
    m, status, e, asked = call(H, fs, argv, reply)
    H.check('clean ends normally: %r' % (e,), e is None)
    d = cf(w, c) + '/outputs'
    want = fs.view(before)
    some = '/%s/L1B.nc' % d in want
    H.check('status of clean', (status == 0) == some)
    if some and reply == 'yes':
        keep = want['/' + d]
        want = _without(want, d)
        want['/' + d] = keep
    fs.compare('after clean', fs.now(), want)
    H.note('done')


@unit('L02', quick=[dict(cmd='inspect'), dict(cmd='compare')], scope='products of two workspaces and configurations there '
      'or not, named by file name or path, the second given or not', witness=('found', 'not found'), max_paths=30000)
def product(H, cmd):
    fs = FS(H)
    home(H, fs)
    fs.file(WS + '/.current', b'a')
    for v in ('a', 'b'):
        for c in ('x', 'y'):
            fs.file(cf(v, c) + '/CNF.json')
            for n in ('p.nc', 'q.nc'):
                fs.file(cf(v, c) + '/outputs/' + n, None, '%s of %s/%s' % (n, v, c))
        fs.file(ws(v) + '/configs/.current', b'y')
    fs.file('elsewhere/p.nc', None, 'p elsewhere')
    calls = []
    f = main(H)
    m = manager(H)
    H.patch(m, cmd + ('_l1b_product' if cmd == 'inspect' else '_l1b_products'), lambda *a: calls.append(a))
    w1, c1 = H.pick('-w', [None, 'b']), H.pick('-c', [None, 'x'])
    argv = ['output', cmd] + (['-w', w1] if w1 else []) + (['-c', c1] if c1 else [])
    w1, c1 = w1 or 'a', c1 or 'y'

    def path(n, w, c):
        return n if n.startswith('/') else '%s/%s/outputs/%s' % (ROOT, cf(w, c), n)
    n1 = H.pick('first', ['p.nc', ROOT + '/elsewhere/p.nc'])
    argv += [n1]
    want = [path(n1, w1, c1)]
    if cmd == 'compare':
        w2, c2 = H.pick('-W', [None, 'b']), H.pick('-C', [None, 'x'])
        n2 = H.pick('second', [None, 'q.nc', ROOT + '/elsewhere/p.nc'])
        argv += ([n2] if n2 else []) + (['-W', w2] if w2 else []) + (['-C', c2] if c2 else [])
        want.append(path(n2 or n1, w2 or w1, c2 or c1))
    status, e = H.try_(f, argv, m)
    H.check('%s ends normally: %r' % (cmd, e), e is None)
    if all(fs.exists(p[len(ROOT) + 1:]) for p in want):
        H.note('found')
        H.same('products', [tuple(c[1:]) for c in calls], [tuple(want)])
        H.same('workspace', [c[0] for c in calls], [w1])
        H.same('status', status, 0)
    else:
        H.note('not found')
        H.same('a product that is not there is reported', (calls, status != 0), ([], True))


SERVICE = ('new_workspace', 'delete_workspace', 'copy_workspace', 'rename_workspace', 'set_current_workspace',
           'add_new_config', 'delete_config', 'copy_config', 'rename_config', 'set_current_config')


@unit('L02', quick=[dict(op=o) for o in SERVICE], scope='the web service: workspaces a, b, default and configurations x, y, '
      'default there or not, any selection, any names', witness=('done', 'refused'), max_paths=30000)
def service(H, op):
    _cate.install()
    fs = FS(H)
    home(H, fs)
    Err = H.imp('dedop.ui.workspace_manager', 'WorkspaceError')
    conf = 'config' in op
    names = ('a', 'b', 'default')
    root = ws('w') + '/configs' if conf else WS
    place = (lambda n: cf('w', n)) if conf else ws
    fs.dir(root)
    if conf:
        fs.file(cf('v', 'a') + '/CNF.json')
    for n in names:
        fs.dir(place(n), 'item ' + n)
        if conf:
            for k in ('CHD', 'CNF', 'CST'):
                fs.file('%s/%s.json' % (place(n), k))
        else:
            fs.file(place(n) + '/notes.txt')
    have = [n for n in names if fs.exists(place(n))]
    sel = H.pick('selected', [None] + have)
    if sel:
        fs.file(root + '/.current', sel.encode())
    H.imp('dedop.webapi.websocket')
    s = H.imp('dedop.webapi.websocket', 'WebSocketService')(manager(H))
    n1 = H.pick('name', ['a', 'c'])
    two = op.startswith(('copy', 'rename'))
    n2 = H.pick('new name', ['b', 'c']) if two else None
    args = (['w'] if conf else []) + [n1] + ([n2] if two else []) + ([False] if op == 'add_new_config' else [])
    before = fs.view(fs.snapshot())
    r, e = H.try_(getattr(s, op), *args)
    was = _without(before, root + '/.current')
    now = _without(fs.now(), root + '/.current')
    cur = opened(fs, root + '/.current') or None
    new = op.startswith(('new', 'add'))
    ok = n1 not in have if new else (n1 in have and not (two and n2 in have))
    if not ok:
        H.note('refused')
        H.check('%s is refused' % op, isinstance(e, Err))
        H.same('nothing is changed', now, was)
        H.same('selection', cur, sel)
        return
    H.note('done')
    H.check('%s is granted: %r' % (op, e), e is None)
    if e is not None:
        return
    lst = (lambda: s.get_config_names('w')) if conf else (lambda: [d['name'] for d in s.get_all_workspaces()['workspaces']])
    if op.startswith('set'):
        H.same('nothing is changed but the selection', now, was)
        H.same('selection', cur, n1)
        got = s.get_current_config('w')['name'] if conf else s.get_current_workspace()['name']
        H.same('current one', got, n1)
        return
    left = sorted(set(have) - ({n1} if op.startswith(('delete', 'rename')) else set()) |
                  ({n1} if new else {n2} if two else set()))
    H.same('names', list(lst()), left)
    if op.startswith('delete'):
        H.same('files', now, _without(was, place(n1)))
        H.check('the selection is there', cur is None and not left or cur in left)
    elif two:
        want = _copied(was, place(n1), place(n2))
        if op.startswith('rename'):
            want = _without(want, place(n1))
        H.same('files', now, want)
        H.same('selection', cur, n2 if op.startswith('rename') and sel == n1 else sel)
        if not conf:
            H.same('answer', (r['name'], r['workspace_dir']), (n2, ROOT + '/' + place(n2)))
    else:
        H.same('other files', _without(now, place(n1)), was)
        if not conf:
            H.same('answer', (r['name'], r['workspace_dir']), (n1, ROOT + '/' + place(n1)))


@unit('L02', scope='the web service shows positions and attributes of any input', witness=('ran',))
def service_input(H):
    _cate.install()
    from props import _nc
    d = _nc.Dataset('in')
    n = 1 + H.index('records', 3)
    lat = [H.real('lat %d' % i, -90, 90) for i in range(n)] if H.flag('has latitudes') else []
    lon = [H.real('lon %d' % i, -180, 180) for i in range(n)] if H.flag('has longitudes') else []
    if lat:
        d.variables['lat_l1a_echo_sar_ku'] = _nc.Var('lat', H.arr(lat))
    if lon:
        d.variables['lon_l1a_echo_sar_ku'] = _nc.Var('lon', H.arr(lon))
    mission = H.pick('mission', ('', 'S3A', 'CS2 \u00e9'))
    cycle = H.int('cycle', 0, 500)
    d.setncattr('mission_name', mission)
    d.setncattr('cycle_number', cycle)
    H.imp('dedop.webapi.websocket')
    _nc.install(H, lambda p, m: d)
    S = H.imp('dedop.webapi.websocket', 'WebSocketService')
    r = S.get_lat_lon('in')
    H.eqs('latitudes', r['lat'], lat)
    H.eqs('longitudes', r['lon'], lon)
    H.check('closed', d.closed == 1)
    if lat and lon:
        d.closed = 0
        r = S.get_max_min_coordinates('in')
        H.eqs('first and last latitude', r['lat'], [lat[0], lat[-1]])
        H.eqs('first and last longitude', r['lon'], [lon[0], lon[-1]])
        H.check('closed again', d.closed == 1)
    d.closed = 0
    r = S.get_global_attributes('in')
    H.check('attributes', sorted(r) == ['cycle_number', 'mission_name'])
    H.check('text', r.get('mission_name') == mission)
    H.eq('number', r.get('cycle_number', -1), cycle)
    H.check('closed at the end', d.closed == 1)
    H.note('ran')


FILES_OPS = ('add_input_files', 'remove_input_files', 'get_output_names', 'remove_output_files', 'get_notebook_file_names',
             'inspect_output', 'compare_outputs')


@unit('L02', quick=[dict(op=o) for o in FILES_OPS], scope='the web service: inputs, outputs and notebooks of two workspaces '
      'and configurations there or not', witness=('done',), max_paths=20000)
def service_files(H, op):
    _cate.install()
    fs = FS(H)
    home(H, fs)
    Err = H.imp('dedop.ui.workspace_manager', 'WorkspaceError')
    for n in ('new.nc', 'S3_1.nc'):
        fs.file('elsewhere/' + n, None, 'the ' + n if op == 'add_input_files' else None)
    w, c = H.pick('workspace', ['a', 'b']), H.pick('config', ['x', 'y'])
    for v in ('a', 'b'):
        here = v == w
        fs.dir(ws(v))
        fs.dir(ws(v) + '/inputs', 'inputs of ' + v if here and op == 'add_input_files' else None)
        for n in ('S3_1.nc', 'S3_2.nc'):
            fs.file(ws(v) + '/inputs/' + n, None, '%s of %s' % (n, v) if here and 'input' in op else None)
        fs.file(ws(v) + '/notebooks/n %s.ipynb' % v, None, 'notebook of ' + v if here and 'notebook' in op else None)
        fs.file(ws(v) + '/notebooks/data.txt')
        for d in ('x', 'y'):
            that = here and d == c and 'output' in op
            fs.file(cf(v, d) + '/CNF.json')
            fs.dir(cf(v, d) + '/outputs', 'outputs of %s/%s' % (v, d) if that else None)
            for n in ('q.nc', 'p.nc', 'log.txt'):
                fs.file(cf(v, d) + '/outputs/' + n, None, '%s of %s/%s' % (n, v, d) if that else None)
    H.imp('dedop.webapi.websocket')
    m = manager(H)
    calls = []
    for n in ('inspect_l1b_product', 'compare_l1b_products'):
        H.patch(m, n, lambda *a, n=n, **k: calls.append((n,) + a + tuple(k[x] for x in k)))
    s = H.imp('dedop.webapi.websocket', 'WebSocketService')(m)
    snap = fs.snapshot()
    H.note('done')

    def ask(f, *a):
        r, e = H.try_(f, *a)
        return r, e, fs.view(snap)
    if op == 'add_input_files':
        names = H.pick('files', [['new.nc'], ['new.nc', 'S3_1.nc'], ['S3_1.nc', 'new.nc'], []])
        r, e, before = ask(s.add_input_files, w, ['%s/elsewhere/%s' % (ROOT, n) for n in names])
        want = dict(before)
        if all('/elsewhere/' + n in before for n in names):
            H.check('files are added: %r' % (e,), e is None)
            d = '/%s/inputs' % ws(w)
            if d not in want and d in fs.now():
                want[d] = fs.now()[d]
            for n in names:
                want[d + '/' + n] = before['/elsewhere/' + n]
        else:
            H.check('a missing file is reported', isinstance(e, Err))
            k = [('/elsewhere/' + n in before) for n in names].index(False)
            now = fs.now()
            H.check('nothing is lost', all(now.get(p) == v for p, v in before.items()
                                           if p.split('/')[-1] not in names[:k] or '/inputs/' not in p))
            return
    elif op == 'remove_input_files':
        names = H.pick('files', [['S3_1.nc'], ['S3_1.nc', 'S3_2.nc'], ['none.nc', 'S3_2.nc'], []])
        r, e, before = ask(s.remove_input_files, w, names)
        H.check('files are removed: %r' % (e,), e is None)
        want = before
        for n in names:
            want = _without(want, '%s/inputs/%s' % (ws(w), n))
    elif op == 'get_output_names':
        r, e, before = ask(s.get_output_names, w, c)
        H.same('outputs', (e, list(r or [])), (None, [n for n in ('p.nc', 'q.nc')
                                                     if '/%s/outputs/%s' % (cf(w, c), n) in before]))
    elif op == 'remove_output_files':
        r, e, before = ask(s.remove_output_files, w, c)
        d = '/%s/outputs' % cf(w, c)
        want = before
        if d in before:
            H.check('outputs are removed: %r' % (e,), e is None)
            want = _without(want, d[1:])
            want[d] = before[d]
        else:
            H.check('no outputs to remove is reported', isinstance(e, Err))
    elif op == 'get_notebook_file_names':
        r, e, before = ask(s.get_notebook_file_names, w)
        n = 'n %s.ipynb' % w
        H.same('notebooks', (e, list(r or [])), (None, [n] if '/%s/notebooks/%s' % (ws(w), n) in before else []))
    elif op == 'inspect_output':
        r, e, before = ask(s.inspect_output, w, '/data/p.nc')
        H.same('product shown', (e, calls), (None, [('inspect_l1b_product', w, '/data/p.nc')]))
    else:
        r, e, before = ask(s.compare_outputs, w, '/data/p.nc', '/data/q.nc')
        H.same('products compared', (e, calls), (None, [('compare_l1b_products', w, '/data/p.nc', '/data/q.nc')]))
    fs.compare('after ' + op, fs.now(), want if 'files' in op and op[0] != 'g' else before)
