"""W01..W03: workspaces"""
from symx.harness import unit
from props._fs import FS, ROOT, jtext

WS = 'workspaces'


def manager(H):
    return H.imp('dedop.ui.workspace_manager', 'WorkspaceManager')(ROOT + '/' + WS)


def error(H):
    return H.imp('dedop.ui.exception', 'WorkspaceError')


def tree(H, small=False):
    """workspaces a and b with configurations x and y; whether each of the parts is there is open"""
    fs = FS(H)
    fs.file('config.py')
    fs.file('elsewhere/new1.nc')
    fs.file('elsewhere/in1.nc')
    fs.file(WS + '/.current', b'a', 'selection')
    for w in ('a', 'b'):
        base = '%s/%s' % (WS, w)
        fs.dir(base, 'workspace ' + w)
        fs.file(base + '/notes.txt')
        fs.dir(base + '/configs', None if w == 'a' else 'configs of b')
        fs.file(base + '/configs/.current', b'x', 'selection of ' + w)
        for c in ('x', 'y'):
            cb = '%s/configs/%s' % (base, c)
            fs.dir(cb, 'configuration %s/%s' % (w, c))
            for k in ('CHD', 'CNF', 'CST'):
                fs.file('%s/%s.json' % (cb, k))
            fs.dir(cb + '/outputs', 'outputs of %s/%s' % (w, c))
            fs.file(cb + '/outputs/L1B_%s.nc' % c)
            fs.file(cb + '/outputs/log.txt', None, 'log of %s/%s' % (w, c))
        fs.dir(base + '/inputs', 'inputs of ' + w)
        fs.file(base + '/inputs/in1.nc', None, 'in1 of ' + w)
        fs.file(base + '/inputs/in2.nc')
    return fs


class Mon:
    """a monitor that records"""
    def __init__(self):
        self.log = []

    def starting(self, label, total_work=None):
        self.log.append(('start', total_work))
        mon = self

        class C:
            def __enter__(self):
                return mon

            def __exit__(self, *a):
                mon.done()
        return C()

    def start(self, label, total_work=None):
        self.log.append(('start', total_work))

    def progress(self, work=None, msg=None):
        self.log.append(('work', work))

    def done(self):
        self.log.append(('done',))

    def is_cancelled(self):
        return False

    def child(self, work):
        return self


def _has(view, path):
    return '/' + path in view


def _without(view, path):
    p = '/' + path
    return {k: v for k, v in view.items() if not (k == p or k.startswith(p + '/'))}


def _copied(view, src, dst):
    s, d = '/' + src, '/' + dst
    out = dict(view)
    for k, v in view.items():
        if k == s or k.startswith(s + '/'):
            out[d + k[len(s):]] = v
    return out


def _with(view, path, content):
    out = dict(view)
    parts = path.split('/')
    for i in range(1, len(parts)):
        out.setdefault('/' + '/'.join(parts[:i]), ('d', None, None))
    out['/' + path] = ('f', content, None)
    return out


def _dir(view, path):
    out = dict(view)
    parts = path.split('/')
    for i in range(1, len(parts) + 1):
        out.setdefault('/' + '/'.join(parts[:i]), ('d', None, None))
    return out


def ws(w):
    return '%s/%s' % (WS, w)


def cf(w, c):
    return '%s/%s/configs/%s' % (WS, w, c)


class Op:
    """one request: whether it must be granted, and the tree afterwards"""

    def __init__(self, H, fs, kind, tag='', names=('a', 'b', 'c'), configs=('x', 'y', 'z'), empty=False):
        self.H, self.fs, self.kind = H, fs, kind
        e = ('',) if empty else ()
        pick = lambda n, o: H.pick(tag + n, list(o))
        self.w = pick('workspace', names + (e if kind.endswith('workspace') else ()))
        self.w2 = pick('new workspace', names + e) if kind in ('copy_workspace', 'rename_workspace') else None
        self.c = self.c2 = None
        if kind.endswith('config') or kind in ('remove_outputs', 'write_config_file'):
            self.c = pick('configuration', configs + (e if kind.endswith('config') else ()))
        if kind in ('copy_config', 'rename_config'):
            self.c2 = pick('new configuration', configs + e)
        self.cryosat = H.flag(tag + 'cryosat') if kind == 'create_config' else False
        self.file = None
        if kind == 'add_inputs':
            self.files = pick('files', [['elsewhere/new1.nc'], ['elsewhere/in1.nc'], ['elsewhere/new1.nc', 'elsewhere/in1.nc'],
                                        ['elsewhere/none.nc']])
        if kind == 'remove_inputs':
            self.files = pick('files', [['in1.nc'], ['in2.nc'], ['in1.nc', 'in2.nc'], ['none.nc', 'in2.nc']])
        if kind == 'write_config_file':
            self.file = pick('key', ['CHD', 'CNF', 'CST'])
            self.text = pick('text', ['short', 'a much longer text ' * 20])
        self.mon = Mon()

    def granted(self):
        """None: either is fine"""
        fs, k = self.fs, self.kind
        if k == 'create_workspace':
            if self.w == '':
                return False
            if not fs.exists(ws(self.w)):
                return True
            return False if fs.names(fs._p(ws(self.w))) else None      # an empty directory is as good as none
        if k in ('delete_workspace', 'copy_workspace', 'rename_workspace'):
            ok = self.w != '' and fs.exists(ws(self.w))
            if k != 'delete_workspace':
                if ok and self.w2 == self.w and k == 'rename_workspace':
                    return None
                ok = ok and self.w2 != '' and not fs.exists(ws(self.w2))
            return ok
        if k == 'create_config':
            return self.c != '' and fs.exists(ws(self.w)) and not fs.exists(cf(self.w, self.c))
        if k in ('delete_config', 'copy_config', 'rename_config'):
            ok = self.c != '' and fs.exists(ws(self.w)) and fs.exists(cf(self.w, self.c))
            if k != 'delete_config':
                if ok and self.c2 == self.c and k == 'rename_config':
                    return None
                ok = ok and self.c2 != '' and not fs.exists(cf(self.w, self.c2))
            return ok
        if k == 'remove_outputs':
            return fs.exists(cf(self.w, self.c) + '/outputs')
        if k == 'write_config_file':
            return fs.exists(cf(self.w, self.c))
        if k == 'add_inputs':
            if not fs.exists(ws(self.w)):
                return None
            return self.files != ['elsewhere/none.nc']
        return True

    def call(self, m):
        k, H = self.kind, self.H
        f = H.entry(m, k)
        if k in ('create_workspace', 'delete_workspace'):
            return H.try_(f, self.w)
        if k in ('copy_workspace', 'rename_workspace'):
            return H.try_(f, self.w, self.w2)
        if k == 'create_config':
            return H.try_(f, self.w, self.c, cryosat=self.cryosat)
        if k in ('delete_config', 'remove_outputs'):
            return H.try_(f, self.w, self.c)
        if k in ('copy_config', 'rename_config'):
            return H.try_(f, self.w, self.c, self.c2)
        if k == 'add_inputs':
            return H.try_(f, self.w, [ROOT + '/' + p for p in self.files], self.mon)
        if k == 'remove_inputs':
            return H.try_(f, self.w, self.files, self.mon)
        if k == 'write_config_file':
            return H.try_(f, self.w, self.c, self.file, self.text)

    def after(self, v):
        """the tree after the request was granted"""
        k, fs = self.kind, self.fs
        if k == 'create_workspace':
            return _dir(v, ws(self.w))
        if k == 'delete_workspace':
            return _without(v, ws(self.w))
        if k == 'copy_workspace':
            return _copied(v, ws(self.w), ws(self.w2))
        if k == 'rename_workspace':
            return v if self.w == self.w2 else _without(_copied(v, ws(self.w), ws(self.w2)), ws(self.w))
        if k == 'create_config':
            import pkgutil
            for key in ('CHD', 'CNF', 'CST'):
                v = _with(v, '%s/%s.json' % (cf(self.w, self.c), key), pkgutil.get_data(
                    'dedop.ui.data.cryosat_config' if self.cryosat else 'dedop.ui.data.config', key + '.json'))
            return v
        if k == 'delete_config':
            return _without(v, cf(self.w, self.c))
        if k == 'copy_config':
            return _copied(v, cf(self.w, self.c), cf(self.w, self.c2))
        if k == 'rename_config':
            return v if self.c == self.c2 else _without(_copied(v, cf(self.w, self.c), cf(self.w, self.c2)),
                                                        cf(self.w, self.c))
        if k == 'remove_outputs':
            d = cf(self.w, self.c) + '/outputs'
            return _dir(_without(v, d), d)
        if k == 'write_config_file':
            return _with(v, '%s/%s.json' % (cf(self.w, self.c), self.file), self.text.encode())
        if k == 'add_inputs':
            for p in self.files:
                if _has(v, p):
                    v = _with(v, '%s/inputs/%s' % (ws(self.w), p.split('/')[-1]), v['/' + p][1])
            return _dir(v, ws(self.w) + '/inputs')
        if k == 'remove_inputs':
            for p in self.files:
                v = _without(v, '%s/inputs/%s' % (ws(self.w), p))
            return v

    def target(self):
        """what the request may change"""
        return {'create_workspace': [ws(self.w)], 'delete_workspace': [ws(self.w)], 'copy_workspace': [ws(self.w2 or '-')],
                'rename_workspace': [ws(self.w), ws(self.w2 or '-')], 'create_config': [ws(self.w) + '/configs'],
                'delete_config': [cf(self.w, self.c)], 'copy_config': [cf(self.w, self.c2)],
                'rename_config': [cf(self.w, self.c), cf(self.w, self.c2)],
                'remove_outputs': [cf(self.w, self.c or '-') + '/outputs'],
                'write_config_file': ['%s/%s.json' % (cf(self.w, self.c or '-'), self.file)],
                'add_inputs': [ws(self.w) + '/inputs'], 'remove_inputs': [ws(self.w) + '/inputs']}[self.kind]

    def __str__(self):
        return '%s(%s)' % (self.kind, ', '.join(repr(x) for x in (self.w, self.w2, self.c, self.c2) if x is not None))


OPS = ['create_workspace', 'delete_workspace', 'copy_workspace', 'rename_workspace', 'create_config', 'delete_config',
       'copy_config', 'rename_config', 'remove_outputs', 'add_inputs', 'remove_inputs', 'write_config_file']


@unit('W01', quick=[dict(op=o) for o in OPS], scope='every request on workspaces a, b (there or not), c (not there), '
      'configurations x, y, z; configurations, outputs, inputs, selections there or not', witness=('granted',),
      max_paths=20000)
def effect(H, op):
    fs = tree(H)
    o = Op(H, fs, op)
    if not o.granted():
        return
    before = fs.snapshot()
    m = manager(H)
    r, e = o.call(m)
    H.check('%s is granted: %r' % (o, e), e is None)
    if e is not None:
        return
    H.note('granted')
    fs.compare('after %s' % op, fs.now(), o.after(fs.view(before)))
    H.same('nothing elsewhere is changed', fs.escaped, [])
    H.same('no file is left open', fs.opened, 0)
    if op.endswith('workspace') and op != 'delete_workspace':
        w = o.w2 or o.w
        H.same('name of the workspace returned', r.name, w)
        H.same('place of the workspace returned', r.workspace_dir, ROOT + '/' + ws(w))
    if op in ('add_inputs', 'remove_inputs'):
        H.same('progress of %s' % op, o.mon.log, [('start', len(o.files))] + [('work', 1)] * len(o.files) + [('done',)])


@unit('W01', quick=[dict(first=o) for o in OPS], scope='two requests one '
      'after the other, on one workspace with one configuration and what they make of it', witness=('both granted',),
      max_paths=20000, wall=240)
def two(H, first):
    fs = FS(H)
    fs.file(cf('a', 'x') + '/CHD.json')
    fs.file(cf('a', 'x') + '/CNF.json')
    fs.file(cf('a', 'x') + '/CST.json')
    fs.file(ws('a') + '/inputs/in1.nc')
    fs.file('elsewhere/new1.nc')
    fs.file('elsewhere/in1.nc')
    m = manager(H)
    n = 0
    for tag, kinds in (('1 ', [first]), ('2 ', OPS)):
        kind = H.pick(tag + 'request', kinds)
        o = Op(H, fs, kind, tag, ('a', 'c'), ('x', 'z'))
        g = o.granted()
        before = fs.snapshot()
        r, e = o.call(m)
        if g is None:
            return
        H.check('%s is %s: %r' % (o, 'granted' if g else 'refused', e), (e is None) == bool(g))
        skip = [ws(o.w) + '/inputs'] if kind == 'add_inputs' and not g else []
        want = o.after(fs.view(before)) if g else fs.view(before, None, skip)
        fs.compare('after %s' % kind, fs.now(None, skip), want)
        n += bool(g)
    if n == 2:
        H.note('both granted')


@unit('W02', quick=[dict(op=o) for o in OPS if o != 'remove_inputs'], scope='every request that has to be refused: what '
      'it names is not there, what it would make is there, a name is empty', witness=('refused',), max_paths=20000)
def refused(H, op):
    fs = tree(H)
    o = Op(H, fs, op, empty=True)
    if o.granted() is not False:
        return
    before = fs.snapshot()
    r, e = o.call(manager(H))
    H.note('refused')
    H.check('%s is refused' % o, e is not None)
    if op != 'write_config_file':
        H.check('%s is refused with an error of the workspace: %r' % (o, e), e is None or isinstance(e, error(H)))
    allowed = [ws(o.w) + '/inputs'] if op == 'add_inputs' else []
    fs.unchanged('refused %s changes nothing' % op, before, allowed)
    H.same('nothing elsewhere is changed', fs.escaped, [])


@unit('W02', quick=[dict(op=o) for o in OPS], scope='an input/output error at any step of a request that is otherwise '
      'granted; the tree is complete', witness=('fault',), max_paths=20000)
def fault(H, op):
    fs = FS(H)
    for w in ('a', 'b'):
        for c in ('x', 'y'):
            for k in ('CHD', 'CNF', 'CST'):
                fs.file('%s/%s.json' % (cf(w, c), k))
            fs.file(cf(w, c) + '/outputs/L1B_%s.nc' % c)
        fs.file(ws(w) + '/inputs/in1.nc')
        fs.file(ws(w) + '/inputs/in2.nc')
    fs.file('elsewhere/new1.nc')
    fs.file('elsewhere/in1.nc')
    o = Op(H, fs, op)
    if not o.granted():
        return
    before = fs.snapshot()
    fs.fault = H.int('fault', 1, 40)
    r, e = o.call(manager(H))
    if not fs.faulted:
        return
    H.note('fault')
    done = fs.now() == o.after(fs.view(before))
    H.check('%s reports that it failed' % o, e is not None or done)
    if op not in ('write_config_file', 'remove_outputs'):
        H.check('%s reports an error of the workspace: %r' % (o, e), e is None or isinstance(e, error(H)))
    fs.unchanged('%s leaves everything else as it is' % op, before, o.target())
    if op in ('copy_workspace', 'copy_config'):
        src = ws(o.w) if op == 'copy_workspace' else cf(o.w, o.c)
        fs.compare('what is copied is left as it is', fs.now(src), fs.view(before, src))
    if op in ('add_inputs', 'remove_inputs'):
        H.check('the monitor is done', o.mon.log == [] or o.mon.log[-1] == ('done',))


# ------------------------------------------------------------------------------
@unit('W03', scope='any set of up to three workspaces, with stray files; a selection or none', witness=('some', 'none'))
def workspaces(H):
    fs = FS(H)
    have = []
    fs.dir(WS, 'workspaces')
    for w in ('b', 'a', 'default', '_odd name.1'):
        fs.dir(ws(w), 'workspace ' + w)
    fs.file(WS + '/stray.txt', None, 'stray')
    fs.file(WS + '/.current', b'a', 'selection')
    m = manager(H)
    names = m.get_workspace_names()
    have = [w for w in ('_odd name.1', 'a', 'b', 'default') if fs.exists(ws(w))]
    H.note('some' if have else 'none')
    H.same('workspace names', list(names), have)
    w = H.pick('name', ['a', 'c'])
    H.same('workspace_exists', bool(m.workspace_exists(w)), w in have)
    cur = m.get_current_workspace()
    sel = 'a' if fs.exists(WS + '/.current') else None
    H.same('current workspace', cur.name, sel)
    listed = m.get_workspaces()
    H.same('workspaces', [(d['name'], d['workspace_dir']) for d in listed], [(w, ROOT + '/' + ws(w)) for w in have])
    H.same('the current one is told', [d['name'] for d in listed if d['is_current']], [w for w in have if w == sel])
    if sel:
        H.same('place of the current workspace', cur.workspace_dir, ROOT + '/' + ws(sel))


@unit('W03', scope='any set of configurations, inputs and outputs with stray files; patterns', witness=('ran',))
def contents(H):
    fs = FS(H)
    fs.dir(ws('a'))
    fs.dir(ws('a') + '/configs', 'configs')
    for c in ('y', 'x', 'default', '_odd name.1'):
        fs.dir(cf('a', c), 'configuration ' + c)
        fs.file(cf('a', c) + '/CNF.json')
    fs.file(ws('a') + '/configs/stray.json', None, 'stray')
    fs.file(ws('a') + '/configs/.current', b'x', 'selection')
    m = manager(H)
    names = m.get_config_names('a')
    have = [c for c in ('_odd name.1', 'default', 'x', 'y') if fs.exists(cf('a', c))]
    H.same('configuration names', list(names or []), have)
    c = H.pick('name', ['x', 'z'])
    H.same('config_exists', bool(m.config_exists('a', c)), c in have)
    H.same('current configuration', m.get_current_config_name('a') or None,
           'x' if fs.exists(ws('a') + '/configs/.current') else None)
    H.note('ran')


@unit('W03', scope='any subset of four inputs and outputs, with other files and directories; no, one or two patterns, '
      'overlapping or not', witness=('ran',))
def files(H):
    import fnmatch
    fs = FS(H)
    out = H.flag('outputs')
    d = cf('a', 'x') + '/outputs' if out else ws('a') + '/inputs'
    fs.dir(ws('a'))
    fs.dir(d, 'directory')
    names = ['S3B_2.nc', 'S3A_1.nc', 'CS_1.nc']
    for n in names:
        fs.file('%s/%s' % (d, n), None, n)
    fs.file(d + '/readme.txt')
    fs.dir(d + '/old.nc')
    m = manager(H)
    pattern = H.pick('pattern', [None, '*.nc', 'S3*', '*_1.nc', 'no*', ['S3*'], ['S3*', 'CS*'], ['S3*', '*_1.nc'],
                                 ['S3A_1.nc', 'nothing.nc'], []])
    got = m.get_output_names('a', 'x', pattern) if out else m.get_input_names('a', pattern)
    ps = ['*'] if not pattern else [pattern] if isinstance(pattern, str) else pattern
    want = sorted(n for n in names if fs.exists('%s/%s' % (d, n)) and any(fnmatch.fnmatchcase(n, p) for p in ps))
    H.same('files with pattern %r' % (pattern,), list(got), want)
    if not out and pattern is None:
        H.same('paths', list(m.get_input_paths('a')), ['%s/%s/%s' % (ROOT, d, n) for n in want])
    H.note('ran')


@unit('W03', scope='any subset of three notebooks, with other files and directories, in two workspaces; a missing workspace',
      witness=('ran', 'refused'))
def notebooks(H):
    fs = FS(H)
    names = ['b.ipynb', 'a.ipynb']
    for w in ('a', 'b'):
        fs.dir(ws(w))
        fs.dir(ws(w) + '/notebooks', 'notebooks of ' + w)
    for n in names:
        fs.file('%s/notebooks/%s' % (ws('a'), n), None, n)
    fs.file(ws('b') + '/notebooks/c.ipynb', None, 'the one of b')
    fs.file(ws('a') + '/d.ipynb')
    fs.file(ws('a') + '/notebooks/readme.txt')
    fs.dir(ws('a') + '/notebooks/old.ipynb')
    m = manager(H)
    w = H.pick('of', ['a', 'b', 'c'])
    r, e = H.try_(m.get_notebook_names, w)
    if w == 'c':
        H.note('refused')
        H.check('a missing workspace is told', isinstance(e, error(H)))
        return
    H.note('ran')
    H.check('no error', e is None)
    d = ws(w) + '/notebooks/'
    H.same('notebooks', list(r or []), [n for n in ('a.ipynb', 'b.ipynb', 'c.ipynb') if fs.exists(d + n)])


@unit('W03', scope='selections of workspaces and configurations one after the other, with new and missing names',
      witness=('set', 'refused'))
def selection(H):
    fs = FS(H)
    for w in ('a', 'b'):
        fs.dir(ws(w), 'workspace ' + w)
        for c in ('x', 'y'):
            fs.dir(cf(w, c), 'configuration %s/%s' % (w, c))
            fs.file(cf(w, c) + '/CNF.json')
    fs.file(WS + '/.current', b'a longer name', 'selection')
    m = manager(H)
    sel = 'a longer name' if fs.exists(WS + '/.current') else None
    csel = {}
    for i in range(2):
        before = fs.snapshot()
        w = H.pick('%d workspace' % i, ['a', 'b', 'c'])
        if H.flag('%d configuration' % i):
            c = H.pick('%d name' % i, ['x', 'y', 'z'])
            ok = fs.exists(ws(w)) and fs.exists(cf(w, c))
            r, e = H.try_(m.set_current_config_name, w, c)
            if ok:
                csel[w] = c
        else:
            ok = fs.exists(ws(w))
            r, e = H.try_(m.set_current_workspace_name, w)
            if ok:
                sel = w
                H.same('workspace selected', (r.name, r.workspace_dir, bool(r.is_current)), (w, ROOT + '/' + ws(w), True))
        H.note('set' if ok else 'refused')
        H.check('selection %s: %r' % ('accepted' if ok else 'refused', e), (e is None) == ok)
        if not ok:
            H.check('refused with an error of the workspace', isinstance(e, error(H)))
            fs.unchanged('a refused selection changes nothing', before)
        cur = m.get_current_workspace()
        H.same('current workspace', cur.name, sel)
        for v in ('a', 'b'):
            if fs.resolved.get('workspace ' + v):
                H.same('current configuration of ' + v, m.get_current_config_name(v), csel.get(v))
