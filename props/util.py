"""U01: progress reported to monitors; U02: settings of the user"""
import re
import signal
import sys
import types
from symx.harness import unit
from props._fs import FS, ROOT
from props.proc import World, track


def recording(H):
    Mon = H.imp('dedop.util.monitor', 'Monitor')

    class Rec(Mon):
        """a task observed: the work done, the messages"""

        def __init__(self):
            self.total, self.works, self.msgs, self.starts, self.dones, self.cancelled = None, [], [], 0, 0, False

        def start(self, label, total_work=None):
            self.starts += 1
            self.total = total_work

        def progress(self, work=None, msg=None):
            self.works.append(work)
            self.msgs.append(msg)

        def done(self):
            self.dones += 1

        def cancel(self):
            self.cancelled = True

        def is_cancelled(self):
            return self.cancelled

        @property
        def work(self):
            return sum(w for w in self.works if w is not None)
    return Rec()


@unit('U01', quick=[dict(steps=3)], thorough=[dict(steps=5)], scope='a child of any share of the work, any total or none, '
      'steps of any work or none, with and without messages', witness=('work', 'unknown'))
def child(H, steps):
    top = recording(H)
    share = H.real('share', 0, 1000)
    c = top.child(share)
    known = H.flag('total known')
    total = H.real('total', 1e-3, 1000) if known else None
    c.start('part', total)
    H.check('started', len(top.works) == 1)
    done = H.num(0)
    for i in range(steps):
        kind = H.pick('step %d' % i, ['work', 'work+msg', 'msg', 'nothing'])
        w = H.real('work %d' % i, 0, 1000) if 'work' in kind else None
        n = len(top.works)
        c.progress(w, 'now %d' % i if 'msg' in kind else None)
        H.check('each step is passed on', len(top.works) == n + 1)
        if w is not None and known:
            H.note('work')
            done = done + w
            H.eq('share of the step', top.works[-1] * total, share * w)
        else:
            H.check('no work is passed on', top.works[-1] is None or bool(top.works[-1] == 0))
        if not known:
            H.note('unknown')
        if 'msg' in kind:
            H.check('the message names task and step',
                    'part' in top.msgs[-1] and 'now %d' % i in top.msgs[-1])
    c.done()
    H.eq('work of the child in all', top.work * (total if known else 1), share * done)
    H.check('the parent goes on', top.starts == 0 and top.dones == 0)


@unit('U01', scope='children of children of any shares', witness=('ran',))
def nested(H):
    top = recording(H)
    s1, s2, s3 = (H.real('share %d' % i, 0, 100) for i in (1, 2, 3))
    t1, t2, t3 = (H.real('total %d' % i, 1e-2, 100) for i in (1, 2, 3))
    w = H.real('work', 0, 100)
    a = top.child(s1)
    a.start('a', t1)
    b = a.child(s2)
    b.start('b', t2)
    b.progress(w)
    H.eq('grandchild', top.work * t1 * t2, s1 * s2 * w)
    before = top.work
    c = a.child(s3)
    c.start('c', t3)
    c.progress(t3)
    c.done()
    H.eq('a complete child has done its share', (top.work - before) * t1, s1 * s3)
    b.done()
    a.done()
    H.check('not cancelled', not c.is_cancelled() and not top.is_cancelled())
    fresh = b.child(1)                                  # not started yet
    who = H.pick('cancels', [a, b, c, top, fresh])
    who.cancel()
    H.check('cancelled everywhere', all(x.is_cancelled() for x in (a, b, c, top, fresh, a.child(2))))
    H.note('ran')


@unit('U01', scope='a task that ends or fails, in nested monitors', witness=('ended', 'failed'))
def starting(H):
    top = recording(H)
    total = H.real('total', 1, 100)

    class Stop(Exception):
        pass

    def task(m, fails):
        with m.starting('task', total) as mm:
            mm.progress(total)
            if fails:
                raise Stop()
    fails = H.flag('fails')
    _, e = H.try_(task, top, fails)
    H.check('the failure is passed on', (type(e) is Stop) if fails else e is None)
    H.check('finished once', top.starts == 1 and top.dones == 1)
    H.eq('total', top.total, total)
    H.eq('work', top.work, total)
    null = H.imp('dedop.util.monitor', 'Monitor').NULL
    _, e = H.try_(task, null, fails)
    H.check('the null monitor does not get in the way', (type(e) is Stop) if fails else e is None)
    null.cancel()
    H.check('the null monitor never cancels', not null.is_cancelled() and null.child(3) is not None)
    H.note('failed' if fails else 'ended')


class Terminal:
    """what is to be read on the screen"""
    verif = True

    def __init__(self):
        self.lines, self.col = [''], 0

    def write(self, s):
        for ch in s:
            if ch == '\n':
                self.lines.append('')
                self.col = 0
            elif ch == '\r':
                self.col = 0
            else:
                l = self.lines[-1]
                self.lines[-1] = l[:self.col] + ch + l[self.col + 1:]
                self.col += 1

    def flush(self):
        pass


@unit('U01', quick=[dict(steps=2)], scope='two steps of any share of any total, with and without messages; '
      'in one line or not, with a bar of 4 characters or none; interrupted or not', witness=('percent', 'interrupted'),
      max_paths=20000)
def console(H, steps):
    C = H.imp('dedop.util.monitor', 'ConsoleMonitor')
    t = Terminal()
    handlers = ['before']

    def sig(s, h):
        H.check('only the interrupt is handled', s == signal.SIGINT)
        handlers.append(h)
        return handlers[-2]
    H.patch(signal, 'signal', sig)
    H.patch(sys, 'stdout', t)
    inline = H.flag('in line')
    bar = H.pick('bar', [None, 4])
    m = C(stay_in_line=inline, progress_bar_size=bar)
    total = H.real('total', 1, 1000)
    m.start('task', total)
    done = H.num(0)
    last = None
    for i in range(steps):
        msg = H.pick('message %d' % i, [None, ('a longer message', 'next')[i % 2]])
        w = H.real('work %d' % i, 0, 1000)
        done = done + w
        H.assume(done <= total)
        if i == 0:
            # a few values of the percentage are enough to see the step from one to the next
            H.assume(H.OR(100 * w <= 3 * total, 100 * w >= 98 * total))
        else:
            H.assume(H.OR(100 * w <= 2 * total, done >= total * 98 / 100))
        shown = len(t.lines)
        m.progress(w, msg)
        line = (t.lines[-1] if inline else t.lines[-2]).rstrip(' ')
        g = re.match(r'^task: (\[[#-]*\] )? *(\d+)%(?: (.*))?$', line)
        H.check('a line with a percentage', g is not None)
        if g is None:
            return
        H.note('percent')
        p = int(g.group(2))
        H.le('percentage not too large', p * total, 100 * done + total / 2)
        H.le('percentage not too small', 100 * done, p * total + total / 2)
        H.same('message', g.group(3), msg)
        if bar:
            b = g.group(1) or ''
            H.check('the bar is full size', len(b) == bar + 3)
            H.check('the bar shows the percentage', b.strip(' []') == '#' * b.count('#') + '-' * (bar - b.count('#')) and
                    abs(b.count('#') - bar * p / 100) <= 0.5)
    H.check('interrupts are caught while it runs', len(handlers) == 2)
    hit = H.flag('interrupted')
    H.check('not cancelled', not m.is_cancelled())
    if hit:
        H.note('interrupted')
        handlers[-1](signal.SIGINT, None)
        H.check('an interrupt cancels', m.is_cancelled())
    m.done()
    H.same('interrupts go to who had them before', handlers[-1], 'before')
    text = '\n'.join(t.lines)
    H.check('a cancelled task says so', ('cancelled' in text) == hit)


@unit('U01', scope='a second task on the same monitor, the first one finished or broken off at any point', witness=('percent',),
      max_paths=20000)
def console_again(H):
    C = H.imp('dedop.util.monitor', 'ConsoleMonitor')
    t = Terminal()
    handlers = ['before']

    def sig(s, h):
        handlers.append(h)
        return handlers[-2]
    H.patch(signal, 'signal', sig)
    H.patch(sys, 'stdout', t)
    inline = H.flag('in line')
    m = C(stay_in_line=inline)
    t1, w1 = H.real('first total', 1, 1000), H.real('first work', 0, 1000)
    H.assume(w1 <= t1)
    H.assume(H.OR(100 * w1 <= 2 * t1, 100 * w1 >= 98 * t1))
    m.start('one', t1)
    m.progress(w1)
    m.done()
    t2, w2 = H.real('second total', 1, 1000), H.real('second work', 0, 1000)
    H.assume(w2 <= t2)
    H.assume(H.OR(100 * w2 <= 2 * t2, 100 * w2 >= 98 * t2))
    m.start('two', t2)
    m.progress(w2)
    line = (t.lines[-1] if inline else t.lines[-2]).rstrip(' ')
    g = re.match(r'^two: *(\d+)%$', line)
    H.check('a line with a percentage', g is not None)
    if g is None:
        return
    H.note('percent')
    p = int(g.group(1))
    H.le('percentage not too large', p * t2, 100 * w2 + t2 / 2)
    H.le('percentage not too small', 100 * w2, p * t2 + t2 / 2)
    m.done()
    H.check('the interrupt handler is given back', handlers[-1] == 'before')


@unit('U01', quick=[dict(n=90)], scope='runs of the processor with up to two gaps and void records, cancelled or not',
      witness=('complete', 'cancelled'))
def processing(H, n):
    """a run reports all of its work, and not more"""
    w = World(H, looks=4, skip=True)
    gaps = H.pick('gaps', [0, 1, 2])
    voids = H.pick('voids', [{}, {0: 1, 5: 2, 90: 1}])
    m = recording(H)
    at = H.pick('cancel', [None, 3, n + 5])
    asked = [0]

    def is_cancelled():
        asked[0] += 1
        return at is not None and asked[0] > at
    m.is_cancelled = is_cancelled
    packets, segs = track(w, [dict(n=n, rate=1, back=3, ahead=4, voids=voids)] +
                          [dict(n=k, rate=1, back=3, ahead=4, voids={}, gap=9.0) for k in (2, 85)[:gaps]], w.bri)
    res, err = w.run(packets, 'in/a.nc', m)
    H.check('the run completes', err is None)
    H.le('not more than all the work', m.work, m.total)
    if at is None:
        H.eq('all the work', m.work, m.total)
        H.note('complete')
    else:
        H.note('cancelled')


# ------------------------------------------------------------------------------
@unit('U02', scope='the file of the user and the local one there or not, broken or not, with arbitrary values; no permission '
      'to write', witness=('both', 'template', 'broken', 'no home'))
def settings(H):
    import os
    fs = FS(H)
    fs.dir('home')
    fs.dir('work')
    old, cwd = os.environ.get('HOME'), os.getcwd
    os.environ['HOME'] = ROOT + '/home'

    class Env:
        def __setattr__(self, k, v):
            os.environ['HOME'] = old or '/'
    H.undo.append((Env(), 'home', None))
    mod = H.imp('dedop.util.config')
    H.patch(mod, '_CONFIG', None)
    vals = {k: H.real(k, -9, 9) for k in ('u_a', 'u_b', 'l_b', 'l_c')}
    given = types.ModuleType('verif_values')
    given.__dict__.update(vals)
    sys.modules['verif_values'] = given
    broken_u, broken_l = H.flag('file of the user broken'), H.flag('local file broken')
    has_u, has_l = H.flag('file of the user'), H.flag('local file')
    text_u = b'from verif_values import u_a as a, u_b as b\n' + (b'c = 1/0\n' if broken_u else b'')
    text_l = b'from verif_values import l_b as b, l_c as c\n' + (b'import' if broken_l else b'')
    if has_u:
        fs.file('home/.dedop/config.py', text_u)
    nowhere = not has_u and H.flag('no home')
    if nowhere:
        H.note('no home')
    if has_l:
        fs.file('dedop-config.py', text_l)
    H.patch(mod, '_LOCAL_CONFIG_FILE', ROOT + '/dedop-config.py')
    if nowhere:
        fs.fault = 1
    c, e = H.try_(mod.get_config)
    fs.fault = None
    H.check('settings can always be read: %r' % (e,), e is None)
    if e is not None:
        return
    ok_u, ok_l = has_u and not broken_u, has_l and not broken_l
    if ok_u and ok_l:
        H.note('both')
    if (has_u and broken_u) or (has_l and broken_l):
        H.note('broken')
    want = {}
    if ok_u:
        want.update(a=vals['u_a'], b=vals['u_b'])
    if ok_l:
        want.update(b=vals['l_b'], c=vals['l_c'])
    for k in 'abc':
        if k in want:
            H.eq('value of ' + k, mod.get_config_value(k, 77), want[k])
        else:
            H.same('default of ' + k, mod.get_config_value(k, 'none'), 'none')
    if has_u:
        H.same('the file of the user is left as it is', fs.content('home/.dedop/config.py'), text_u)
    elif not nowhere:
        import pkgutil
        H.note('template')
        H.same('a file for the user to edit is made', fs.content('home/.dedop/config.py'),
               pkgutil.get_data('dedop.util', 'config-template.py'))
    if has_l:
        H.same('the local file is left as it is', fs.content('dedop-config.py'), text_l)
    H.check('settings are read once', mod.get_config() is c)
    if has_l:
        fp = open(ROOT + '/dedop-config.py')
        r, e = H.try_(mod.read_python_config, fp)
        H.check('an open file is read and left open', (e is None) == ok_l and not fp.closed)
        if ok_l and e is None:
            H.eq('value of b in the open file', r.get('b'), vals['l_b'])
        fp.close()
    H.raises('a name is needed', ValueError, mod.get_config_value, '')
