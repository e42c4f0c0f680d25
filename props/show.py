"""L03: what the commands show, open and upgrade is what is there"""
import json
import re
import shutil
import subprocess
import sys
from symx.harness import unit
from props._fs import FS, ROOT, jtext, patch_json
from props.cli import main, home, call, answer
from props.conf import FILES, user_file, stored, _content
from props.util import Terminal
from props.wspace import WS, ws, cf, manager


def run(H, fs, argv, reply='yes'):
    """the command, and what it writes on the screen"""
    f = main(H)
    answer(H, reply)
    m = manager(H)
    t = Terminal()
    old = sys.stdout
    sys.stdout = t
    try:
        status, e = H.try_(f, argv, m)
    finally:
        sys.stdout = old
    return status, e, [l.rstrip() for l in t.lines if l.strip()]


def listed(H, lines):
    """the numbered entries, and the number announced"""
    items = [re.match(r'\s*(\d+): (.*)$', l) for l in lines[1:]]
    H.check('entries are numbered one by one', all(items) and [int(i.group(1)) for i in items if i] == list(
        range(1, len(items) + 1)))
    head = re.match(r'(no|\d+) ', lines[0]) if lines else None
    n = None if not head else 0 if head.group(1) == 'no' else int(head.group(1))
    H.same('number of entries told', n, len(items))
    return [i.group(2) for i in items if i]


def shell(H, fails=False):
    """commands given to the system: recorded, never run"""
    done = []

    def start(cmd, *a, **k):
        done.append(cmd if isinstance(cmd, str) else ' '.join('"%s"' % c for c in cmd))
        if fails:
            raise OSError('no such program')
        return 0

    class P:
        returncode, stdout, stderr = 0, b'', b''

        def __init__(self, *a, **k):
            start(*a, **k)

        def wait(self, *a):
            return 0

        poll = wait

        def communicate(self, *a):
            return b'', b''

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    for n in ('call', 'check_call'):
        H.patch(subprocess, n, start)
    H.patch(subprocess, 'check_output', lambda *a, **k: start(*a, **k) or b'')
    H.patch(subprocess, 'run', lambda *a, **k: P(*a, **k))
    H.patch(subprocess, 'Popen', P)
    H.patch(__import__('os'), 'system', start)
    return done


def chosen(H, fs, confs=True):
    """two workspaces; the one named or selected, the configuration named or selected; (options, workspace, config)"""
    w = H.pick('workspace', ['a', 'b'])
    argv = []
    if H.flag('-w'):
        argv = ['-w', w]
        fs.file(WS + '/.current', b'b' if w == 'a' else b'a')
    else:
        fs.file(WS + '/.current', w.encode())
    for v in ('a', 'b'):
        fs.file(ws(v) + '/configs/.current', b'y')
    return argv, w


@unit('L03', scope='any subset of three workspaces, stray files, one selected or none', witness=('some', 'none', 'not selected'))
def workspaces(H):
    fs = FS(H)
    home(H, fs)
    names = ('c', 'a', 'b')
    fs.dir(WS)
    for w in names:
        fs.dir(ws(w), 'workspace ' + w)
        fs.file(ws(w) + '/inputs/in.nc')
    fs.file(WS + '/readme.txt')
    have = sorted(w for w in names if fs.exists(ws(w)))
    sel = H.pick('selected', [None] + have)
    if sel:
        fs.file(WS + '/.current', sel.encode())
    H.note('some' if have else 'none')
    before = fs.snapshot()
    status, e, lines = run(H, fs, ['workspace', H.pick('as', ['list', 'ls'])])
    H.check('list ends normally: %r' % (e,), e is None and status == 0)
    H.same('the workspaces listed', listed(H, lines), have)
    status, e, lines = run(H, fs, ['workspace', H.pick('cur', ['current', 'cur'])])
    H.check('current ends normally: %r' % (e,), e is None and status == 0 and len(lines) == 1)
    if sel:
        H.check('the workspace selected is shown', ''.join(lines).endswith('is "%s"' % sel))
    else:
        H.note('not selected')
        H.check('no workspace is shown', '"' not in ''.join(lines) and ''.join(lines).startswith('no '))
    fs.unchanged('nothing is changed', before)


@unit('L03', scope='any subset of three configurations in the workspace named or selected, one selected or none; another '
      'workspace with others', witness=('some', 'none', 'not selected'))
def configs(H):
    fs = FS(H)
    home(H, fs)
    w = H.pick('workspace', ['a', 'b'])
    o = 'b' if w == 'a' else 'a'
    argv = []
    if H.flag('-w'):
        argv = ['-w', w]
        fs.file(WS + '/.current', o.encode())
    else:
        fs.file(WS + '/.current', w.encode())
    names = ('z', 'x', 'y')
    fs.dir(ws(w) + '/configs', 'configurations')
    for c in names:
        fs.dir(cf(w, c), 'configuration ' + c)
        fs.file(cf(w, c) + '/CNF.json')
    fs.file(cf(o, 'other') + '/CNF.json')
    fs.file(ws(o) + '/configs/.current', b'other')
    have = sorted(c for c in names if fs.exists(cf(w, c)))
    sel = H.pick('selected', [None] + have)
    if sel:
        fs.file(ws(w) + '/configs/.current', sel.encode())
    H.note('some' if have else 'none')
    before = fs.snapshot()
    status, e, lines = run(H, fs, ['config', H.pick('as', ['list', 'ls'])] + argv)
    H.check('list ends normally: %r' % (e,), e is None and status == 0)
    H.same('the configurations listed', listed(H, lines), have)
    H.check('of the workspace', '"%s"' % w in ''.join(lines[:1]))
    status, e, lines = run(H, fs, ['config', 'current'] + argv)
    H.check('current ends normally: %r' % (e,), e is None and status == 0 and len(lines) == 1)
    if sel:
        H.check('the configuration selected is shown', '"%s"' % sel in ''.join(lines))
    else:
        H.note('not selected')
        H.check('no configuration is shown', '"' not in ''.join(lines) and ''.join(lines).startswith('no '))
    done = shell(H)
    status, e, lines = run(H, fs, ['config', H.pick('in', ['info', 'i'])] + argv)
    H.check('info ends normally: %r' % (e,), e is None)
    if sel:
        H.same('status of info', status, 0)
        shown = {l.split(':')[0].strip(): l.split(':', 1)[1].strip() for l in lines if ':' in l}
        H.check('names and path', set(shown.values()) >= {w, sel, '%s/%s' % (ROOT, cf(w, sel))})
        H.check('the files of the configuration are shown', all('%s/%s"' % (ROOT, cf(w, sel)) in d for d in done))
    else:
        H.check('info without a configuration is reported', status != 0)
    fs.unchanged('nothing is changed', before)


@unit('L03', quick=[dict(what='input'), dict(what='output')], scope='any subset of three files with other files, in the '
      'workspace and configuration named or selected; with and without a pattern', witness=('some', 'none'), max_paths=20000)
def files(H, what):
    fs = FS(H)
    home(H, fs)
    argv, w = chosen(H, fs)
    c = 'y'
    if what == 'output' and H.flag('-c'):
        argv += ['-c', 'x']
        c = 'x'
    names = ('S3_2.nc', 'CS_1.nc', 'S3_1.nc')
    folder = ws(w) + '/inputs' if what == 'input' else cf(w, c) + '/outputs'
    for v in ('a', 'b'):
        for k in ('x', 'y'):
            fs.file(cf(v, k) + '/CNF.json')
        for d in (ws(v) + '/inputs', cf(v, 'x') + '/outputs', cf(v, 'y') + '/outputs'):
            if d != folder:
                fs.file(d + '/other.nc')
    fs.dir(folder, 'folder')
    for n in names:
        fs.file(folder + '/' + n, None, n)
    fs.file(folder + '/notes.txt')
    fs.dir(folder + '/sub.nc')
    pat = H.pick('pattern', [None, 'S3*', '*_1.nc', 'none*'])
    before = fs.snapshot()
    status, e, lines = run(H, fs, [what, H.pick('as', ['list', 'ls'])] + argv + ([pat] if pat else []))
    H.check('list ends normally: %r' % (e,), e is None and status == 0)
    import fnmatch
    have = sorted(n for n in names if fs.exists(folder + '/' + n) and (not pat or fnmatch.fnmatchcase(n, pat)))
    H.note('some' if have else 'none')
    H.same('the files listed', listed(H, lines), have)
    if lines:
        H.check('names of workspace and configuration', '"%s"' % w in lines[0] and (
            what == 'input' or '"%s"' % c in lines[0]))
    fs.unchanged('nothing is changed', before)


@unit('L03', scope='no workspaces yet, none selected, one with or without a configuration; sizes', witness=(
    'nothing', 'no selection', 'no configuration', 'all'))
def status(H):
    fs = FS(H)
    home(H, fs)
    fs.dir(WS, 'workspaces')
    have = []
    for w in ('b', 'a'):
        fs.dir(ws(w), 'workspace ' + w)
        fs.file(cf(w, 'x') + '/CNF.json')
        fs.file(cf(w, 'x') + '/outputs/l1b.nc', bytes((1 << 20) + (1 << 19)))
        fs.file(ws(w) + '/.kept/inputs/l1a.nc', bytes(1 << 19))
    fs.file('elsewhere/big.nc', bytes(9 << 20))
    there = fs.exists(WS)
    have = sorted(w for w in ('a', 'b') if there and fs.exists(ws(w)))
    sel = H.pick('selected', [None] + have)
    if sel:
        fs.file(WS + '/.current', sel.encode())
    conf = bool(sel) and H.flag('configuration selected')
    if conf:
        fs.file(ws(sel) + '/configs/.current', b'x')
    H.note('nothing' if not there else 'no selection' if not sel else 'all' if conf else 'no configuration')
    before = fs.snapshot()
    st, e, lines = run(H, fs, [H.pick('as', ['status', 's'])])
    H.check('status ends normally: %r' % (e,), e is None and st == 0)
    got = {l.split(':')[0].strip(): l.split(':', 1)[1].strip() for l in lines if ':' in l}

    def shown(key, want):
        v = got.get(key, '')
        H.check('%s is shown: %r' % (key, v), v == want if want else v.startswith('('))
    shown('workspaces location', '%s/%s' % (ROOT, WS) if there else None)
    shown('workspace names', ', '.join(have) or None)
    shown('workspaces total size', '%d MiB' % (2 * len(have)) if there else None)
    shown('current workspace', sel)
    shown('current DDP configuration', 'x' if conf else None)
    fs.unchanged('nothing is changed', before)


@unit('L03', scope='the three files of a configuration of any version up to the next or without one; configuration named or '
      'selected', witness=('upgraded', 'up to date'), max_paths=20000)
def versions(H):
    fs = FS(H)
    home(H, fs)
    patch_json(H)
    import pkgutil
    new = {k: json.loads(pkgutil.get_data('dedop.ui.data.config', k + '.json').decode('utf-8'))['__metainf__']['version']
           for k in FILES}
    w = H.pick('workspace', ['a', 'b'])
    named = H.flag('named')
    argv = ['-w', w, 'x'] if named else []
    fs.file(WS + '/.current', w.encode() if not named else b'a')
    for v in ('a', 'b'):
        fs.file(ws(v) + '/configs/.current', b'y' if named else b'x')
    have = {}
    for v in ('a', 'b'):
        for c in ('x', 'y'):
            for k in sorted(FILES):
                ver = 0
                if (v, c) == (w, 'x'):
                    ver = have[k] = H.pick('version of ' + k, [None] + list(range(new[k] + 2)))
                fs.file('%s/%s.json' % (cf(v, c), k), _content(H, user_file(H, ver, ['mine'], '%s %s %s ' % (v, c, k))))
    before = fs.snapshot()
    cmd = H.pick('command', ['version', 'upgrade'])
    st, e, lines = run(H, fs, ['config', cmd] + argv)
    H.check('%s ends normally: %r' % (cmd, e), e is None and st == 0)
    if e is not None:
        return
    old = any((have[k] if have[k] is not None else -1) < new[k] for k in FILES)
    got = dict(re.match(r'\s*(\w+)\.json: (.*)$', l).groups() for l in lines if '.json:' in l)
    if cmd == 'version':
        H.same('versions shown', got, {k: 'no-version' if have[k] is None else 'version %d' % have[k] for k in FILES})
        H.check('names', [l.split(':')[1].strip() for l in lines[:2]] == [w, 'x'])
        fs.unchanged('nothing is changed', before)
        return
    paths = ['%s/%s.json' % (cf(w, 'x'), k) for k in FILES]
    if not old:
        H.note('up to date')
        fs.unchanged('nothing is changed', before)
        H.check('no new versions are shown', not got)
        return
    H.note('upgraded')
    fs.unchanged('other configurations', before, paths)
    now = {k: new[k] if have[k] is None else max(new[k], have[k]) for k in FILES}
    H.same('new versions shown', got, {k: 'version %d' % now[k] for k in FILES})
    for k in FILES:
        s = stored(H, fs, '%s/%s.json' % (cf(w, 'x'), k))
        H.same('%s is of the new version' % k, s and s['__metainf__']['version'], now[k])


@unit('L03', quick=[dict(cmd='edit'), dict(cmd='open')], scope='configuration and workspace named, selected or none; any '
      'editor command, none, or one that fails', witness=('opened', 'failed', 'new'), max_paths=20000)
def editor(H, cmd):
    fs = FS(H)
    home(H, fs)
    w, c = H.pick('workspace', ['a', 'b']), 'y'
    argv = []
    sel = None
    if H.flag('-w'):
        argv = ['-w', w]
        sel = 'b' if w == 'a' else 'a'
    elif H.flag('selected'):
        sel = w
    else:
        w = None
    if sel:
        fs.file(WS + '/.current', sel.encode())
    if w and H.flag('configuration given'):
        argv += ['x'] if cmd == 'edit' else ['-c', 'x']
        c = 'x'
    confs = not w or c == 'x' or H.flag('one selected')
    for v in ('a', 'b'):
        if confs:
            fs.file(ws(v) + '/configs/.current', b'y')
        for k in ('x', 'y'):
            for f in sorted(FILES):
                fs.file('%s/%s.json' % (cf(v, k), f))
            fs.dir(cf(v, k) + '/outputs', 'outputs of %s/%s' % (v, k))
    if not confs:
        c = None
    template = H.pick('editor', ['edit "{file}"', '  edit "{file}" -n  ', ' ', 7, None])
    fails = H.flag('fails')
    done = shell(H, fails)
    mod = H.imp('dedop.util.config')
    H.patch(mod, '_CONFIG', {} if template is None else {'launch_editor_command': template})
    prog = None
    if template is None:
        prog = H.pick('on this system', ['xdg-open', 'open', None])
        H.patch(shutil, 'which', lambda n, *a, **k: '/usr/bin/' + n if n == prog else None)
    before = fs.snapshot()
    st, e, lines = run(H, fs, (['config', 'edit'] if cmd == 'edit' else ['output', 'open']) + argv)
    H.check('%s ends normally: %r' % (cmd, e), e is None)
    if cmd == 'open' and not (w and c):
        H.check('nothing chosen is reported', st != 0 and not done)
        fs.unchanged('nothing is changed', before)
        return
    if w and c:
        fs.unchanged('nothing is changed', before)
    else:
        H.note('new')
        if not w:
            w = 'default'
        c = 'default'
        H.check('a default configuration is made', all(fs.exists('%s/%s.json' % (cf(w, c), k)) for k in FILES))
    if cmd == 'edit':
        want = ['%s/%s/%s.json' % (ROOT, cf(w, c), k) for k in ('CHD', 'CNF', 'CST')]
    else:
        want = ['%s/%s/outputs' % (ROOT, cf(w, c))]
        if not fs.exists(cf(w, c) + '/outputs'):
            H.check('no outputs: nothing is opened', not done and st == 0)
            return
    if template in (' ', 7):
        H.check('a bad editor command is reported', st != 0 and not done)
    elif template is None and prog is None:
        H.check('no editor: nothing is opened', not done and st == 0)
        H.check('which files is told', [any(p in l for l in lines) for p in want] == [True] * len(want))
    elif fails:
        H.note('failed')
        H.check('an editor that fails is reported', st != 0)
    else:
        H.note('opened')
        H.same('status', st, 0)
        t = template.strip() if template else prog + ' "{file}"'
        H.same('files opened', sorted(done), sorted(t.format(file=p) for p in want))


@unit('L03', quick=[dict(by='command'), dict(by='service')], scope='the folder of the workspaces there or not, notebooks; any '
      'launcher configured or found on the system, or none, or one that fails', witness=('started', 'failed'),
      max_paths=20000)
def notebook(H, by):
    from props import _cate
    _cate.install()
    fs = FS(H)
    home(H, fs)
    template = H.pick('launcher', ['run {command}', ' run "{title}" {command} ', 'run "{command_file}"', ' ', 7, None])
    prog = H.pick('on this system', ['konsole', 'gnome-terminal', 'xterm', None]) if template is None else None
    fails = H.flag('fails')
    done = shell(H, fails)
    mod = H.imp('dedop.util.config')
    H.patch(mod, '_CONFIG', {} if template is None else {'launch_notebook_command': template})
    H.patch(shutil, 'which', lambda n, *a, **k: '/usr/bin/' + n if n == prog else None)
    if by == 'service':
        fs.file(ws('a') + '/notebooks/n.ipynb', b'{}')
        fs.file(ws('b') + '/notebooks/n.ipynb', b'{}')
        w = H.pick('workspace', ['a', 'b'])
        m = manager(H)
        H.imp('dedop.webapi.websocket')
        s = H.imp('dedop.webapi.websocket', 'WebSocketService')(m)
        before = fs.snapshot()
        _, e = H.try_(s.launch_notebook, w, 'n.ipynb')
        ok = e is None
        H.check('a failure is told as such: %r' % (e,), ok or isinstance(e, H.imp('dedop.ui.workspace_manager', 'WorkspaceError')))
        want = ['jupyter notebook', '"%s/%s/notebooks"' % (ROOT, ws(w)), '"%s/%s/notebooks/n.ipynb"' % (ROOT, ws(w))]
    else:
        fs.dir(WS, 'workspaces')
        before = fs.snapshot()
        st, e, lines = run(H, fs, ['notebook'])
        H.check('the command ends normally: %r' % (e,), e is None)
        ok = st == 0
        want = ['jupyter notebook', '"%s/%s"' % (ROOT, WS)]
        H.check('the folder of the workspaces is there', fs.exists(WS))
    was, now = fs.view(before), fs.now()
    H.check('nothing that was there is changed', all(now.get(p) == v for p, v in was.items()))
    if template in (' ', 7):
        H.check('a bad launcher is reported', not ok and not done)
    elif fails:
        H.note('failed')
        H.check('a launcher that fails is reported', not ok)
    else:
        H.note('started')
        H.check('started', ok)
        H.same('one program', len(done), 1)
        if not ok or len(done) != 1:
            return
        text = done[0]
        if template and '{command_file}' in template:
            f = text[len('run "'):-1]
            H.check('the script is there', f.startswith(ROOT + '/') and fs.exists(f[len(ROOT) + 1:]))
            text = (fs.content(f[len(ROOT) + 1:]) or b'').decode('utf-8')
        elif prog:
            H.check('the terminal is used', text.startswith(prog + ' '))
        elif template:
            H.check('the launcher is used', text.startswith('run '))
        H.check('the notebook server is started there', all(x in text for x in want) and (by == 'service' or '.ipynb' not in text))


@unit('L03', scope='the web service: the three files of a configuration of any version up to the next or without one; any of '
      'two workspaces and configurations', witness=('ran',), max_paths=20000)
def service_versions(H):
    from props import _cate
    _cate.install()
    fs = FS(H)
    home(H, fs)
    patch_json(H)
    import pkgutil
    new = {k: json.loads(pkgutil.get_data('dedop.ui.data.config', k + '.json').decode('utf-8'))['__metainf__']['version']
           for k in FILES}
    w, c = H.pick('workspace', ['a', 'b']), H.pick('configuration', ['x', 'y'])
    have, mine = {}, {}
    for v in ('a', 'b'):
        for d in ('x', 'y'):
            for k in sorted(FILES):
                ver = 0
                if (v, d) == (w, c):
                    ver = have[k] = H.pick('version of ' + k, [None] + list(range(new[k] + 2)))
                u = user_file(H, ver, ['mine', 'Other'], '%s %s %s ' % (v, d, k))
                if (v, d) == (w, c):
                    mine[k] = {n: u[n]['value'] for n in ('mine', 'Other')}
                fs.file('%s/%s.json' % (cf(v, d), k), _content(H, u))
    H.imp('dedop.webapi.websocket')
    s = H.imp('dedop.webapi.websocket', 'WebSocketService')(manager(H))
    before = fs.snapshot()
    H.same('versions of the defaults', s.get_default_config_versions(), {k.lower() + '_version': new[k] for k in FILES})
    got = s.get_configs(w, c)
    fs.unchanged('nothing is changed by looking', before)
    for again in (False, True):
        H.same('name', got['name'], c)
        for k in FILES:
            g = got[k.lower()]
            ver = have[k]
            if again:
                ver = new[k] if ver is None else max(ver, new[k])
            H.same('version of ' + k, (g['__metainf__']['version'] if '__metainf__' in g else None), ver)
            for n in mine[k]:
                H.check('%s: %s is there' % (k, n), n in g)
                H.eq('%s: value of %s' % (k, n), g[n]['value'] if n in g else 0, mine[k][n])
            H.same('order of ' + k, list(got[k.lower() + '_order']), sorted(g, key=str.lower))
        if not again:
            got, e = H.try_(s.upgrade_configs, w, c)
            H.check('upgraded: %r' % (e,), e is None)
            if e is not None:
                return
            fs.unchanged('other configurations', before, ['%s/%s.json' % (cf(w, c), k) for k in FILES])
    H.note('ran')
