"""
Harness API.  A harness is an ordinary Python function h(H, **bounds) that
builds inputs through H, calls the real dedop code and states obligations
through H.  The same function runs

  * symbolically (SymH): inputs are solver variables, every obligation becomes
    a query over all inputs that reach it;
  * concretely (ConH): inputs come from a counterexample file, the libraries
    are the real ones, and a failed obligation is an observed violation.
"""
import math
import os
import sys
import traceback
from fractions import Fraction

UNITS = {}


class Unit:
    def __init__(self, prop, name, fn, quick, thorough, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough, self.opts = quick, thorough, opts


def unit(prop, quick=None, thorough=None, **opts):
    """register a harness.  quick / thorough: list of bound dicts (one run each)"""
    def deco(fn):
        u = Unit(prop, fn.__name__, fn, quick if quick is not None else [{}],
                 thorough if thorough is not None else (quick if quick is not None else [{}]), opts)
        UNITS[(prop, fn.__name__)] = u
        return fn
    return deco


class AssumeFailed(BaseException):
    pass


class HarnessGap(BaseException):
    """the code no longer offers the entry point the harness drives"""


def _own(t):
    """is this class the harness's own stand-in (and not a record class of the code with something added)"""
    return getattr(t, '__module__', '').startswith('props.') and \
        not any(b.__module__.startswith('dedop') for b in getattr(t, '__mro__', ()))


def _own_names():
    import sys
    own, theirs = set(), set()
    for n, m in list(sys.modules.items()):
        if n.startswith(('props.', 'dedop.')):
            for v in list(vars(m).values()):
                if isinstance(v, type) or callable(v):
                    q = getattr(v, '__qualname__', '')
                    if getattr(v, '__module__', None) == n and q:
                        (own if n.startswith('props.') else theirs).add(q.split('.')[0])
    return own - theirs


def standin_error(e):
    """an error that comes from the shape of a stand-in of ours (an attribute, an argument or an operation that it does not
    have), or was raised while handling one: it says nothing about the code"""
    import re
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, AttributeError) and _own(type(getattr(e, 'obj', None))):
            return True
        if isinstance(e, TypeError) and e.args and isinstance(e.args[0], str):
            s = e.args[0]
            m = re.match(r'([\w.<>]+)\(\) (got|takes|missing)', s)
            names = [m.group(1).split('.')[0]] if m else re.findall(r"'(\w+)'", s)
            if names and set(names) & _own_names():
                return True
        e = e.__cause__ or e.__context__
    return False


class Stub:
    """environment object; asking it for something it does not model is a gap in
    the harness, not a defect of the code"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise HarnessGap('stub has no %s' % k)


class Base:
    serial = 0             # records made so far on this path
    sym = False

    # -- shared helpers ----------------------------------------------------
    def reals(self, name, n, lo=None, hi=None, **kw):
        return [self.real('%s%d' % (name, i), lo, hi, **kw) for i in range(n)]

    def cplx(self, name, lo=-4, hi=4):
        re = self.real(name + '_re', lo, hi)
        im = self.real(name + '_im', lo, hi)
        return self.mkc(re, im)

    def vec(self, name, lo=-8, hi=8, n=3):
        return self.arr(self.reals(name, n, lo, hi))

    def arr(self, x, dtype=None):
        return self.np.array(x, dtype=dtype) if dtype is not None else self.np.array(x)

    def pick(self, name, options):
        return options[self.index(name, len(options))]

    def flag(self, name):
        return bool(self.index(name, 2))

    def eqs(self, label, got, want, **kw):
        got, want = list(got), list(want)
        if len(got) != len(want):
            self.check(label + ' (length %d, expected %d)' % (len(got), len(want)), False)
            return
        for i, (g, w) in enumerate(zip(got, want)):
            self.eq('%s[%d]' % (label, i), g, w, **kw)

    def flat(self, a):
        return [self._item(v) for v in self.np_real.asarray(a, dtype=None).reshape(-1)]

    def try_(self, f, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:
            if standin_error(e):
                raise HarnessGap('%s: %s' % (type(e).__name__, e))
            self.after_exc()
            return None, e

    def after_exc(self):
        pass

    def raises(self, label, exc, f, *a, **k):
        r, e = self.try_(f, *a, **k)
        self.check(label + (': expected %s, got %s' % (
            getattr(exc, '__name__', exc), 'a result' if e is None else type(e).__name__)),
            e is not None and isinstance(e, exc))
        return e

    def replace(self, module, name, stub):
        """bind stub wherever the code refers to module.name, until the end of this run"""
        import importlib
        # whoever imports the name later would keep the stub: import the users first
        for m in ('dedop.model', 'dedop.proc.sar'):
            try:
                importlib.import_module(m)
            except Exception:
                pass
        orig = self.imp(module, name)
        self.rebind(orig, stub)
        return orig

    def rebind(self, orig, stub):
        for mn, m in list(sys.modules.items()):
            if mn.split('.')[0] == 'dedop' and m is not None:
                for k, v in list(vars(m).items()):
                    if v is orig:
                        self.undo.append((m, k, v))
                        setattr(m, k, stub)

    def patch(self, obj, name, value):
        """set an attribute until the end of this run"""
        self.undo.append((obj, name, self.entry(obj, name)))
        setattr(obj, name, value)

    def restore(self):
        while self.undo:
            m, k, v = self.undo.pop()
            setattr(m, k, v)

    def entry(self, obj, name):
        try:
            return getattr(obj, name)
        except AttributeError:
            raise HarnessGap('no %s' % name)

    def imp(self, name, *attrs):
        import importlib
        try:
            m = importlib.import_module(name)
            if not attrs:
                return m
            r = [getattr(m, a) for a in attrs]
        except (ImportError, AttributeError) as e:
            raise HarnessGap('import %s %s: %s' % (name, attrs, e))
        return r[0] if len(r) == 1 else r


# ----------------------------------------------------------------------
class ConH(Base):
    """concrete replay"""
    sym = False

    def __init__(self, values):
        import numpy
        self.np = self.np_real = numpy
        self.math = math
        self.values = values
        self.failures = []
        self.passed = 0
        self.witness = set()
        self.undo = []
        self.curve_fit(None)

    def _item(self, v):
        return v.item() if hasattr(v, 'item') else v

    def _get(self, name, default):
        if name not in self.values:
            self.values[name] = default
        return self.values[name]

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, nonneg=False, **kw):
        v = float(self._get(name, 1.0 if lo is None else (lo + (hi if hi is not None else lo + 2)) / 2))
        if lo is not None and v < lo:
            raise AssumeFailed(name)
        if hi is not None and v > hi:
            raise AssumeFailed(name)
        if (pos and v <= 0) or (nonneg and v < 0) or (nonzero and v == 0):
            raise AssumeFailed(name)
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def index(self, name, n):
        return self.int(name, 0, n - 1)

    def num(self, x):
        return float(x)

    def deg(self, x):
        return math.degrees(x)

    def rad(self, x):
        return math.radians(x)

    def mkc(self, re, im):
        return complex(re, im)

    def assume(self, *conds):
        for c in conds:
            if not bool(c):
                raise AssumeFailed('assume')

    def apart(self, a, b, eps=1e-6):
        """assume a and b differ by more than rounding noise"""
        if abs(a - b) <= 0.99 * eps:          # the solver likes the edge
            raise AssumeFailed('apart')

    def note(self, name):
        self.witness.add(name)

    def check(self, label, cond):
        if bool(cond):
            self.passed += 1
        else:
            self.failures.append({'label': label, 'got': False, 'want': True})

    def implies(self, label, a, b):
        self.check(label, (not bool(a)) or bool(b))

    def AND(self, *c):
        return all(bool(x) for x in c)

    def OR(self, *c):
        return any(bool(x) for x in c)

    def NOT(self, c):
        return not bool(c)

    def le(self, label, a, b, tol=1e-7):
        self.check('%s: %r <= %r' % (label, a, b), a <= b + tol * (1 + abs(b)))

    def eq(self, label, got, want, rtol=1e-6, atol=1e-7):
        if got is want:
            self.passed += 1
            return
        try:
            g, w = complex(got), complex(want)
        except Exception:
            ok = got == want
            if hasattr(ok, 'all'):
                ok = ok.all()
            if ok:
                self.passed += 1
            else:
                self.failures.append({'label': label, 'got': repr(got), 'want': repr(want)})
            return
        ok = (g == w) or (abs(g - w) <= atol + rtol * abs(w)) or \
            (math.isnan(g.real) and math.isnan(w.real))
        if ok:
            self.passed += 1
        else:
            self.failures.append({'label': label, 'got': repr(got), 'want': repr(want)})

    def same(self, label, got, want):
        """exact equality of non-numeric values"""
        if got == want:
            self.passed += 1
        else:
            self.failures.append({'label': label, 'got': repr(got)[:500], 'want': repr(want)[:500]})

    def lemma(self, c):
        pass

    def engine(self, **kw):
        pass

    def curve_fit(self, f):
        from symx import constubs
        constubs.CURVE_FIT = f


# ----------------------------------------------------------------------
class SymH(Base):
    sym = True

    def __init__(self, eng, core, shims):
        self.eng, self.core, self.shims = eng, core, shims
        self.np = shims.numpy_shim
        import numpy
        self.np_real = numpy
        self.math = shims.math_shim
        self.cex = []            # (label, values, got/want text)
        self.undecided = []
        self.labels = {}
        self.witness = set()
        self.decls = {}
        self.undo = []
        self.max_cex = 4
        self.per_label = {}
        self.tol_used = set()

    def _item(self, v):
        return v.item() if isinstance(v, self.np_real.generic) else v

    def num(self, x):
        """an exact rational constant (a float in replays)"""
        return self.core.const(Fraction(x))

    def deg(self, x):
        return x * 180 / self.core.PI

    def rad(self, x):
        return x * self.core.PI / 180

    # -- inputs --------------------------------------------------------------
    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, nonneg=False, **kw):
        if lo is not None and lo > 0:
            pos = True
        elif lo is not None and lo == 0:
            nonneg = True
        v = self.eng.var(name, pos=pos, nonzero=nonzero, nonneg=nonneg)
        self.decls[name] = ('real', v, lo, hi)
        if lo is not None:
            self.eng.add(v >= Fraction(lo))
        if hi is not None:
            self.eng.add(v <= Fraction(hi))
        self.eng._axioms_for(self.core.p_atoms(v.p))
        return v

    def int(self, name, lo, hi):
        v = self.eng.var(name, isint=True, nonneg=(lo >= 0), pos=(lo > 0))
        self.decls[name] = ('int', v, lo, hi)
        self.eng.add(v >= lo)
        self.eng.add(v <= hi)
        return v

    def index(self, name, n):
        if n == 1:
            self.decls[name] = ('const', 0, 0, 0)
            return 0
        return self.int(name, 0, n - 1).__index__()

    def mkc(self, re, im):
        c = self.core
        return re + im * c.SymNum({((0, 1),): Fraction(1)})

    # -- assumptions ---------------------------------------------------------
    def assume(self, *conds):
        for c in conds:
            if isinstance(c, self.core.SymBool):
                if self.eng.feasible(c) == 'unsat':
                    raise self.core.Infeasible()
                self.eng.add(c)
            elif not c:
                raise self.core.Infeasible()

    def apart(self, a, b, eps=1e-6):
        d = self.core.lift(a) - b
        e = Fraction(eps)
        self.assume(self.core.b_or(d > e, d < -e))

    def lemma(self, c):
        self.eng.lemma(c)

    def engine(self, **kw):
        for k, v in kw.items():
            setattr(self.eng, k, v)

    def note(self, name):
        self.witness.add(name)

    def after_exc(self):
        if self.eng.abort is not None:
            raise self.eng.abort

    # -- obligations -----------------------------------------------------------
    def AND(self, *c):
        return self.core.b_and(*[self._b(x) for x in c])

    def OR(self, *c):
        return self.core.b_or(*[self._b(x) for x in c])

    def NOT(self, c):
        return self.core.b_not(self._b(c))

    def _b(self, c):
        return self.shims.tb(c)

    def implies(self, label, a, b):
        self.check(label, self.core.b_imp(self._b(a), self._b(b)))

    def le(self, label, a, b, tol=1e-7):
        t = Fraction(tol)
        a, b = self.core.lift(a), self.core.lift(b)
        if a is None or b is None or a is NotImplemented or b is NotImplemented:
            self._fail(label + ' (not finite)')
            return
        self._decide(label, a <= b, lambda m: a <= b + t + t * self.core.num_abs(b))

    def check(self, label, cond):
        cond = self._b(cond)
        self._decide(label, cond, None)

    def same(self, label, got, want):
        r = got == want
        self.check(label, r if isinstance(r, (bool, self.core.SymBool)) else bool(r))

    def _fail(self, label):
        self._decide(label, False, None)

    def eq(self, label, got, want, rtol=1e-6, atol=1e-7):
        core = self.core
        if got is want:
            self._proved(label)
            return
        if isinstance(got, self.np_real.ndarray) and got.size == 1:
            got = got.reshape(-1)[0]
        if isinstance(want, self.np_real.ndarray) and want.size == 1:
            want = want.reshape(-1)[0]
        g, w = core.lift(got), core.lift(want)
        if g is NotImplemented or w is NotImplemented:
            r = got == want
            if hasattr(r, 'all') and not isinstance(r, (bool, core.SymBool)):
                r = bool(r.all())
            self._decide(label, r, None)
            return
        if g is None or w is None:
            ok = (g is None) and (w is None) and (repr(got) == repr(want) or (got != got and want != want))
            self._decide(label, bool(ok), None)
            return
        d = core.p_add(g.p, core.p_neg(w.p))
        if core.p_iszero(d):
            self._proved(label, algebra=True)
            return
        if core.p_noise(d, g.p, w.p):
            self._proved(label, algebra=True, tol=True)
            return

        def margin(m):
            re, im = core.p_parts(d)
            wr, wi = core.p_parts(w.p)
            conds = []
            for p in (re, im):
                if not p:
                    continue
                x = core.SymNum(p)
                t = core.const(Fraction(atol) * m)
                if self.rel_scale is not None:
                    t = t + Fraction(rtol) * m * self.rel_scale
                elif core.p_isconst(w.p) and not core.p_is_complex(w.p):
                    t = t + Fraction(rtol) * m * abs(core.p_constval(w.p))
                else:
                    for q in (wr, wi):
                        if q and len(q) <= 40:
                            t = t + core.num_abs(core.SymNum(q)) * (Fraction(rtol) * m)
                conds.append(core.b_and(x <= t, -x <= t))
            return core.b_and(*conds)
        re, im = core.p_parts(d)
        exact = core.b_and(core.cmp_zero(re, '=='), core.cmp_zero(im, '=='))
        self._decide(label, exact, margin)

    rel_scale = None

    def _proved(self, label, algebra=False, tol=False):
        st = self.eng.stats
        st.obligations += 1
        st.proved += 1
        if algebra:
            self.alg = getattr(self, 'alg', 0) + 1
        if tol:
            st.by_tolerance += 1
            self.tol_used.add(_gen(label))
        self.labels[_gen(label)] = self.labels.get(_gen(label), 0) + 1

    def _decide(self, label, cond, margin):
        eng, core = self.eng, self.core
        if eng.abort is not None:
            raise eng.abort
        if cond is True:
            self._proved(label)
            return
        gl = _gen(label)
        r, vals = eng.prove(cond)
        if r == 'unsat':
            self._proved(label)
            if isinstance(cond, core.SymBool):
                eng.lemma(cond)
            return
        if margin is not None:
            big, bvals = None, None
            m1 = margin(1)
            r, vals = eng.prove(m1)
            if r == 'unsat':
                self._proved(label, tol=True)
                eng.lemma(m1)
                return
            if r == 'sat':
                # look for a wide violation first: survives floating point
                for k in (10 ** 5, 10 ** 3):
                    r2, v2 = eng.prove(margin(k))
                    if r2 == 'sat':
                        vals = v2
                        break
        eng.stats.obligations += 1
        self.labels[gl] = self.labels.get(gl, 0) + 1
        if r == 'sat' or (r == 'unknown'):
            n = self.per_label.get(gl, 0)
            self.per_label[gl] = n + 1
            if r == 'unknown':
                eng.stats.undecided += 1
                self.undecided.append(label)
                rr, vals = eng.solve()
                if rr == 'unsat':       # the path itself cannot happen
                    eng.stats.undecided -= 1
                    eng.stats.obligations -= 1
                    self.undecided.pop()
                    raise core.Infeasible()
            if n < self.max_cex:
                self.cex.append({'label': label, 'values': self.input_values(vals or {}), 'verdict': r,
                                 'incomplete': list(eng.path.incomplete)})
                self.more_models(label, cond)
        if cond is False:
            return
        if eng.feasible(cond) == 'unsat':
            raise core.Infeasible()
        eng.add(cond)

    def more_models(self, label, cond):
        """further counterexample candidates away from the boundary of the input box"""
        eng, core = self.eng, self.core
        import z3
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond.e)
        inner = []
        for name, (k, v, lo, hi) in self.decls.items():
            if k == 'real' and lo is not None and hi is not None:
                lo, hi = Fraction(lo), Fraction(hi)
                w = (hi - lo) / 16
                a = core.ATOMS[next(iter(core.p_atoms(v.p)))]
                inner += [a.z >= core._rv(lo + w), a.z <= core._rv(hi - w), a.z != 0]
        if inner:
            r, vals = eng.solve(z3.And(neg, *inner), timeout=2000)
            if r == 'sat':
                self.cex.append({'label': label, 'values': self.input_values(vals), 'verdict': 'sat',
                                 'incomplete': list(eng.path.incomplete)})

    def input_values(self, vals):
        core = self.core
        out = {}
        for name, (k, v, lo, hi) in self.decls.items():
            if k == 'const':
                out[name] = v
                continue
            a = core.ATOMS[next(iter(core.p_atoms(v.p)))]
            x = self.eng.atom_value(vals, a)
            if x is None:
                x = Fraction(0)
            if a.z.decl().name() not in vals and lo is not None and hi is not None and k == 'real':
                x = (Fraction(lo) + Fraction(hi)) / 2
            if k == 'int':
                out[name] = int(x)
            else:
                # an angle that only matters through its cosine and sine
                u = core._INTERN.get(('unit', ((a.id, 1),), Fraction(1)))
                xf = float(x)
                if u is not None:
                    cs = core._UCS.get((u.id, 1))
                    if cs is not None and cs[0].z.decl().name() in vals:
                        c = float(self.eng.atom_value(vals, cs[0]) or 0)
                        s = float(self.eng.atom_value(vals, cs[1]) or 0)
                        t = math.atan2(s, c)
                        if (lo is None or t >= lo) and (hi is None or t <= hi):
                            out[name + '~angle'] = t
                if lo is not None:
                    xf = max(xf, float(lo))
                if hi is not None:
                    xf = min(xf, float(hi))
                out[name] = xf
        return out

    def curve_fit(self, f):
        self.shims._CurveFit.hook = f


def _gen(label):
    """label without indices, for statistics"""
    import re
    return re.sub(r'\[\d+\]', '[]', label)
