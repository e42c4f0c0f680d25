"""
Symbolic values and path engine.

A symbolic number is kept as an exact Laurent polynomial with rational
coefficients over interned atoms (inputs, square roots, inverse-trig terms,
unit exponentials exp(i.t), integer parts, ...).  Conditions over them become
z3 formulas; Python's own control flow forks through SymBool.__bool__, which
asks z3 which outcomes are feasible under the path condition.  Paths are
enumerated by re-execution (depth first).
"""
import math
import time
import sys
import os
import pickle
import select
import signal
from fractions import Fraction

import z3

PI = Fraction(math.pi)
F0 = Fraction(0)
F1 = Fraction(1)


# ----------------------------------------------------------------------
# control-flow exceptions of the engine (never seen by the code under test)
class EngineSignal(BaseException):
    pass


class Infeasible(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


class Budget(EngineSignal):
    pass


# ----------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'name', 'kind', 'pos', 'nonneg', 'nonzero', 'isint', 'z', 'axioms',
                 'arg', 'deps', 'extra', 'evalf')

    def __repr__(self):
        return self.name


ATOMS = []          # id -> Atom
_INTERN = {}        # key -> Atom


def _new_atom(key, name, kind, pos=False, nonneg=False, nonzero=False, isint=False, arg=None):
    a = _INTERN.get(key)
    if a is not None:
        return a, False
    a = Atom()
    a.id = len(ATOMS)
    a.name = name
    a.kind = kind
    a.pos = pos
    a.nonneg = nonneg or pos
    a.nonzero = nonzero or pos
    a.isint = isint
    a.axioms = []
    a.arg = arg
    a.deps = ()
    a.extra = None
    a.evalf = None
    if kind == 'I':
        a.z = None
    elif isint:
        a.z = z3.Int('a%d_%s' % (a.id, name))
    elif kind == 'unit':
        a.z = None
    else:
        a.z = z3.Real('a%d_%s' % (a.id, name))
    ATOMS.append(a)
    _INTERN[key] = a
    if a.z is not None:
        if pos:
            a.axioms.append(a.z > 0)
        elif a.nonneg:
            a.axioms.append(a.z >= 0)
        elif nonzero:
            a.axioms.append(a.z != 0)
    return a, True


I_ATOM, _ = _new_atom('I', 'I', 'I', nonzero=True)
assert I_ATOM.id == 0

# ----------------------------------------------------------------------
# polynomials: dict mono -> Fraction ; mono = tuple of (atom id, exponent), sorted


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            del d[k]
    return tuple(sorted(d.items()))


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(a, e=1):
    return {((a.id, e),): F1}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, F0) + c
        if n:
            r[m] = n
        else:
            del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def _needs_reduction(m):
    for k, e in m:
        a = ATOMS[k]
        kd = a.kind
        if kd == 'I':
            if e != 1:
                return True
        elif kd == 'sqrt' or kd == 'abs':
            if e != 1:
                return True
        elif kd == 'poly':
            if e > 0:
                return True
        elif kd == 'usin':
            if e > 1:
                return True
    return False


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            n = r.get(m, F0) + c1 * c2
            if n:
                r[m] = n
            elif m in r:
                del r[m]
    return p_reduce(r)


def p_reduce(r):
    bad = [m for m in r if _needs_reduction(m)]
    if not bad:
        return r
    out = {m: c for m, c in r.items() if m not in set(bad)} if bad else r
    for m in bad:
        c = r[m]
        out = p_add(out, _reduce_mono(m, c))
    return out


def _reduce_mono(m, c):
    rest = []
    factors = []
    for k, e in m:
        a = ATOMS[k]
        if a.kind == 'I':
            e4 = e % 4
            if e4 >= 2:
                c = -c
            if e4 % 2:
                rest.append((k, 1))
        elif a.kind in ('sqrt', 'abs') and e != 1:
            # square = arg (sqrt) or arg**2 (abs)
            base = a.arg if a.kind == 'sqrt' else p_mul(a.arg, a.arg)
            q, rem = divmod(e, 2)
            if rem:
                rest.append((k, 1))
            if q > 0:
                factors.append(p_pow(base, q))
            elif q < 0:
                factors.append(p_pow(p_inv(base), -q))
        elif a.kind == 'poly' and e > 0:
            factors.append(p_pow(a.arg, e))
        elif a.kind == 'usin' and e > 1:
            q, rem = divmod(e, 2)
            if rem:
                rest.append((k, 1))
            c2 = p_const(1)
            c2[((a.deps[0], 2),)] = -F1
            factors.append(p_pow(c2, q))
        else:
            rest.append((k, e))
    r = {tuple(sorted(rest)): c}
    for f in factors:
        r = p_mul(r, f)
    return r


def p_pow(a, n):
    if n == 0:
        return p_const(1)
    if n < 0:
        return p_pow(p_inv(a), -n)
    r = None
    b = a
    while n:
        if n & 1:
            r = b if r is None else p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def f_key(p):
    """interning key: coefficients that differ only by floating-point rounding noise
    (11 significant digits) name the same derived quantity"""
    return tuple(sorted((m, c if c.denominator == 1 and abs(c) < 10 ** 9 else '%.10e' % c) for m, c in p.items()))


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_constval(p):
    return p.get((), F0)


def p_lead(p):
    """a canonical leading monomial"""
    return min(p)


def p_primitive(p):
    """(content, primitive part) with leading coefficient 1"""
    m = p_lead(p)
    c = p[m]
    return c, ({k: v / c for k, v in p.items()} if c != 1 else p)


def p_sign(p):
    """'pos', 'nonneg', 'neg', 'nonpos', 'zero' or None, syntactically"""
    if not p:
        return 'zero'
    sgn = None
    strict = False
    for m, c in p.items():
        st = True
        for k, e in m:
            a = ATOMS[k]
            if a.pos:
                continue
            if a.kind in ('I', 'unit'):
                return None
            if e % 2 == 0:
                if not a.nonzero:
                    st = False
                continue
            if a.nonneg:
                st = False
                continue
            return None
        s = 1 if c > 0 else -1
        if sgn is None:
            sgn = s
        elif sgn != s:
            return None
        strict = strict or st
    if sgn > 0:
        return 'pos' if strict else 'nonneg'
    return 'neg' if strict else 'nonpos'


def p_nonzero_syntactic(p):
    if p_sign(p) in ('pos', 'neg'):
        return True
    if len(p) == 1:
        (m, c), = p.items()
        return all(ATOMS[k].nonzero for k, e in m)
    return False


def p_inv(p):
    """reciprocal; the caller has made sure p is not zero"""
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        return p_reduce({tuple((k, -e) for k, e in m): 1 / c})
    # rational function: clear nested denominators first
    mult = _den_monomial(p)
    if mult:
        q = p_mul(p, {mult: F1})
        return p_mul(p_inv(q), {mult: F1})
    # pull out the common monomial factor
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = {k: e for k, e in d.items() if ATOMS[k].kind != 'I'}
        else:
            common = {k: min(e, d.get(k, 0)) for k, e in common.items() if d.get(k, 0) > 0}
    common = {k: e for k, e in (common or {}).items() if e > 0}
    if common:
        cm = tuple(sorted((k, -e) for k, e in common.items()))
        q = p_mul(p, {cm: F1})
        return p_mul(p_inv(q), {cm: F1})
    if any(ATOMS[k].kind in ('I', 'unit') for m in p for k, e in m):
        cj = p_conj(p)
        nn = p_mul(p, cj)
        if nn != p_mul(p, p) or True:
            if not any(ATOMS[k].kind == 'I' for m in nn for k, e in m) and cj != p:
                return p_mul(cj, p_inv(nn))
    content, prim = p_primitive(p)
    a, new = _new_atom(('poly', f_key(prim)), 'poly', 'poly', nonzero=True, arg=prim)
    if new:
        s = p_sign(prim)
        if s in ('pos', 'nonneg'):
            a.pos = a.nonneg = True
        a.deps = tuple(sorted({k for m in prim for k, e in m}))
        a.axioms = None  # built lazily (defining equation)
    return {((a.id, -1),): 1 / content}


def _den_monomial(p):
    """monomial (with positive exponents) that clears all negative exponents"""
    need = {}
    for m in p:
        for k, e in m:
            if e < 0 and ATOMS[k].kind != 'unit':
                need[k] = max(need.get(k, 0), -e)
    return tuple(sorted(need.items()))


def p_clear(p):
    """multiply by atoms until no negative exponent is left; returns poly
    that is zero exactly where p is zero (all cleared atoms are non-zero)"""
    for _ in range(50):
        d = _den_monomial(p)
        if not d:
            return p
        p = p_mul(p, {d: F1})
    return p


def p_iszero(p):
    if not p:
        return True
    if p_isconst(p):
        return False
    return not p_clear(p)


def p_noise(d, g, w):
    """is the difference d = g - w only floating-point noise on constant coefficients?"""
    eps = Fraction(1, 10 ** 12)
    for m, c in d.items():
        ref = max(abs(g.get(m, F0)), abs(w.get(m, F0)))
        if abs(c) > eps * ref:
            return False
    return True


def p_conj(p):
    r = {}
    for m, c in p.items():
        nm = []
        for k, e in m:
            a = ATOMS[k]
            if a.kind == 'I':
                if e % 2:
                    c = -c
                nm.append((k, e))
            elif a.kind == 'unit':
                nm.append((k, -e))
            else:
                nm.append((k, e))
        r = p_add(r, {tuple(nm): c})
    return r


def p_is_complex(p):
    for m in p:
        for k, e in m:
            if ATOMS[k].kind in ('I', 'unit'):
                return True
    return False


def p_real(p):
    """realified real part: unit exponentials become cos/sin atoms"""
    return p_parts(p)[0]


_UCS = {}


def _unit_power(a, k):
    """(cos, sin) polys of exp(i.k.t) for unit atom a"""
    s = 1
    if k < 0:
        k, s = -k, -1
    if 1 < k <= 4:
        c1, s1 = _unit_power(a, 1)
        cr, ci = c1, s1
        for _ in range(k - 1):
            cr, ci = (p_add(p_mul(cr, c1), p_neg(p_mul(ci, s1))), p_add(p_mul(cr, s1), p_mul(ci, c1)))
        return cr, p_scale(ci, Fraction(s))
    key = (a.id, k)
    cs = _UCS.get(key)
    if cs is None:
        c, n1 = _new_atom(('ucos', a.id, k), 'cos(%d*%s)' % (k, a.name), 'ucos')
        d, n2 = _new_atom(('usin', a.id, k), 'sin(%d*%s)' % (k, a.name), 'usin')
        c.extra = d.extra = (a, k)
        ax = [c.z * c.z + d.z * d.z == 1, c.z >= -1, c.z <= 1, d.z >= -1, d.z <= 1]
        c.deps = (d.id,)
        d.deps = (c.id,)
        # quadrant facts when the angle is a rational multiple of one real atom
        m = next(iter(a.arg))
        if len(a.arg) == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].z is not None:
            t = ATOMS[m[0][0]]
            ang = _rv(a.arg[m] * k) * _zint(t)
            h = PI / 2
            lo, hi = ang > _rv(-h), ang < _rv(h)
            ax = ax + [z3.Implies(z3.And(lo, hi), c.z > 0),
                       z3.Implies(z3.And(ang > 0, ang < _rv(2 * h)), d.z > 0),
                       z3.Implies(z3.And(ang < 0, ang > _rv(-2 * h)), d.z < 0),
                       z3.Implies(z3.And(ang > _rv(h), ang < _rv(3 * h)), c.z < 0),
                       z3.Implies(z3.And(ang < _rv(-h), ang > _rv(-3 * h)), c.z < 0),
                       (ang == 0) == z3.And(ang == 0, c.z == 1, d.z == 0),
                       z3.Implies(ang >= 0, d.z <= ang), z3.Implies(ang <= 0, d.z >= ang)]
            c.deps = (d.id, t.id)
        c.axioms = ax
        d.axioms = ax
        cs = _UCS[key] = (c, d)
    c, d = cs
    return p_atom(c), p_scale(p_atom(d), Fraction(s))


def p_parts(p):
    """(real, imag) polys over real atoms"""
    if not p_is_complex(p):
        return p, {}
    re, im = {}, {}
    for m, c in p.items():
        rest = []
        fr, fi = p_const(c), {}
        for k, e in m:
            a = ATOMS[k]
            if a.kind == 'I':
                for _ in range(e % 4):
                    fr, fi = p_neg(fi), fr
            elif a.kind == 'unit':
                cr, ci = _unit_power(a, e)
                fr, fi = (p_add(p_mul(fr, cr), p_neg(p_mul(fi, ci))),
                          p_add(p_mul(fr, ci), p_mul(fi, cr)))
            else:
                rest.append((k, e))
        mm = {tuple(rest): F1}
        re = p_add(re, p_mul(fr, mm))
        im = p_add(im, p_mul(fi, mm))
    return re, im


# ----------------------------------------------------------------------
# z3 translation
def _rv(c):
    return z3.RealVal(str(c))


def _zint(a):
    return z3.ToReal(a.z) if a.isint else a.z


def p_to_z3(p):
    """p must be real and free of negative exponents"""
    terms = []
    for m, c in p.items():
        fs = []
        for k, e in m:
            z = _zint(ATOMS[k])
            fs.extend([z] * e)
        if not fs:
            terms.append(_rv(c))
            continue
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        if c != 1:
            t = _rv(c) * t
        terms.append(t)
    if not terms:
        return _rv(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


def p_atoms(p):
    return {k for m in p for k, e in m}


def p_all_int(p):
    return all(c.denominator == 1 for c in p.values()) and \
        all(ATOMS[k].isint and e > 0 for m in p for k, e in m)


def cmp_zero(p, op):
    """Boolean (python bool or SymBool) for  p op 0,  p real"""
    p = p_real(p)
    s = p_sign(p)
    if p_isconst(p):
        c = p_constval(p)
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    if s is not None:
        if op == '<' and s in ('pos', 'nonneg', 'zero'):
            return False
        if op == '<' and s == 'neg':
            return True
        if op == '<=' and s in ('neg', 'nonpos', 'zero'):
            return True
        if op == '<=' and s == 'pos':
            return False
        if op in ('==', '!=') and s in ('pos', 'neg'):
            return op == '!='
    # clear denominators keeping the sign
    for _ in range(50):
        d = _den_monomial(p)
        if not d:
            break
        if op in ('<', '<='):
            d = tuple((k, e if (ATOMS[k].pos or e % 2 == 0) else e + 1) for k, e in d)
        p = p_mul(p, {d: F1})
    if p_isconst(p):
        c = p_constval(p)
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    # strip a common factor of positive atoms
    common = None
    for m in p:
        d = {k: e for k, e in m if ATOMS[k].pos or (op in ('==', '!=') and ATOMS[k].nonzero)}
        if common is None:
            common = d
        else:
            common = {k: min(e, d[k]) for k, e in common.items() if k in d}
        if not common:
            break
    if common:
        p = p_mul(p, {tuple(sorted((k, -e) for k, e in common.items())): F1})
        if p_isconst(p):
            c = p_constval(p)
            return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    # scale to a primitive polynomial with positive content
    den = 1
    for c in p.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = math.gcd(g, abs(c.numerator * (den // c.denominator)))
    sc = Fraction(den, g)
    if sc != 1:
        p = p_scale(p, sc)
    if p_all_int(p) and all(len(m) <= 1 and all(e == 1 for _, e in m) for m in p):
        terms = []
        for m, c in p.items():
            if m:
                terms.append(z3.IntVal(int(c)) * ATOMS[m[0][0]].z if c != 1 else ATOMS[m[0][0]].z)
            else:
                terms.append(z3.IntVal(int(c)))
        e = z3.Sum(terms) if len(terms) > 1 else terms[0]
        z = z3.IntVal(0)
    else:
        e = p_to_z3(p)
        z = z3.RealVal(0)
    if op == '<':
        b = e < z
    elif op == '<=':
        b = e <= z
    elif op == '==':
        b = e == z
    else:
        b = e != z
    return SymBool(b, frozenset(p_atoms(p)))


# ----------------------------------------------------------------------
def frac(x):
    """exact rational of a concrete python / numpy real number, or None"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    t = type(x).__name__
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return Fraction(x)
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        v = x.item()
        if v is x:
            return None
        if isinstance(v, complex):
            return None
        return frac(v)
    return None


class SymBool:
    __slots__ = ('e', 'atoms')

    def __init__(self, e, atoms=frozenset()):
        self.e = e
        self.atoms = atoms

    def __bool__(self):
        return ENGINE.branch(self)

    def __invert__(self):
        return SymBool(z3.Not(self.e), self.atoms)

    def _bin(self, o, f):
        o = lift_bool(o)
        if o is None:
            return NotImplemented
        return SymBool(f(self.e, o.e), self.atoms | o.atoms)

    def __and__(self, o):
        if o is True:
            return self
        if o is False:
            return False
        return self._bin(o, z3.And)
    __rand__ = __and__

    def __or__(self, o):
        if o is False:
            return self
        if o is True:
            return True
        return self._bin(o, z3.Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor)

    def __eq__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return self.__int__() == o
        ob = lift_bool(o)
        if ob is None:
            return False
        return SymBool(self.e == ob.e, self.atoms | ob.atoms)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(self.e)

    def logical_not(self):
        return ~self

    # numeric use of a truth value
    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return 1 if bool(self) else 0

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def _num(self):
        a, new = _new_atom(('b2i', self.e.get_id(), self.e.sexpr()), 'b2i', 'int', nonneg=True, isint=True)
        if new:
            a.axioms.append(a.z == z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
            a.deps = tuple(self.atoms)
            a.extra = self
        return SymNum(p_atom(a), True)

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __repr__(self):
        return 'SymBool(%s)' % str(self.e)[:80]


def lift_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, bool) or type(x).__name__ in ('bool_', 'bool'):
        return SymBool(z3.BoolVal(bool(x)))
    return None


def b_and(*xs):
    r = True
    for x in xs:
        if isinstance(x, SymBool):
            r = x if r is True else (r & x if r is not False else False)
        elif not x:
            return False
    return r


def b_or(*xs):
    r = False
    for x in xs:
        if isinstance(x, SymBool):
            r = x if r is False else (r | x if r is not True else True)
        elif x:
            return True
    return r


def b_not(x):
    return ~x if isinstance(x, SymBool) else (not x)


def b_imp(a, b):
    return b_or(b_not(a), b)


class SymNum:
    __slots__ = ('p', 'isint', '_h')

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint
        self._h = None

    # -- helpers ---------------------------------------------------------
    @property
    def is_const(self):
        return p_isconst(self.p)

    @property
    def constval(self):
        return p_constval(self.p)

    @property
    def is_complex(self):
        return p_is_complex(self.p)

    def __hash__(self):
        if p_isconst(self.p):
            return hash(p_constval(self.p))
        if self._h is None:
            self._h = hash(p_key(self.p))
        return self._h

    def __repr__(self):
        if self.is_const:
            return 'Sym(%s)' % float(self.constval)
        return 'Sym<%s>' % ENGINE.describe(self.p)

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        q = lift(o)
        if q is None:
            return _special(self, o, '+')
        if q is NotImplemented:
            return NotImplemented
        return SymNum(p_add(self.p, q.p), self.isint and q.isint)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        q = lift(o)
        if q is None:
            return _special(self, o, '-')
        if q is NotImplemented:
            return NotImplemented
        return SymNum(p_add(self.p, p_neg(q.p)), self.isint and q.isint)

    def __rsub__(self, o):
        q = lift(o)
        if q is None:
            return _special(self, o, 'r-')
        if q is NotImplemented:
            return NotImplemented
        return SymNum(p_add(q.p, p_neg(self.p)), self.isint and q.isint)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        q = lift(o)
        if q is None:
            return _special(self, o, '*')
        if q is NotImplemented:
            return NotImplemented
        return SymNum(p_mul(self.p, q.p), self.isint and q.isint)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        q = lift(o)
        if q is None:
            return _special(self, o, '/')
        if q is NotImplemented:
            return NotImplemented
        return num_div(self, q, o)

    def __rtruediv__(self, o):
        q = lift(o)
        if q is None:
            return _special(self, o, 'r/')
        if q is NotImplemented:
            return NotImplemented
        return num_div(q, self, self)

    def __neg__(self):
        return SymNum(p_neg(self.p), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return num_abs(self)

    def __pow__(self, o, mod=None):
        return num_pow(self, o)

    def __rpow__(self, o):
        q = lift(o)
        if q is NotImplemented or q is None:
            return NotImplemented
        return num_pow(q, self)

    def __floordiv__(self, o):
        q = lift(o)
        if q is None or q is NotImplemented:
            return NotImplemented
        r = num_floor(num_div(self, q, o))
        return r if (self.isint and q.isint) else SymNum(r.p, False)

    def __rfloordiv__(self, o):
        q = lift(o)
        return q.__floordiv__(self)

    def __mod__(self, o):
        q = lift(o)
        if q is None or q is NotImplemented:
            return NotImplemented
        r = self - q * num_floor(num_div(self, q, o))
        r.isint = self.isint and q.isint
        return r

    def __rmod__(self, o):
        return lift(o).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    # -- comparison -------------------------------------------------------
    def _cmp(self, o, op, swap=False):
        q = lift(o)
        if q is None:
            f = float('nan') if isinstance(o, complex) else float(o)
            if math.isnan(f):
                return op == '!='
            if op == '==':
                return False
            if op == '!=':
                return True
            # self < inf etc.
            r = (f > 0)
            return r if not swap else not r
        if q is NotImplemented:
            return NotImplemented
        d = p_add(self.p, p_neg(q.p))
        if swap:
            d = p_neg(d)
        if op in ('==', '!=') and p_is_complex(d):
            re, im = p_parts(d)
            if p_iszero(d):
                return op == '=='
            r = b_and(cmp_zero(re, '=='), cmp_zero(im, '=='))
            return r if op == '==' else b_not(r)
        return cmp_zero(d, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '<', True)

    def __ge__(self, o):
        return self._cmp(o, '<=', True)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __bool__(self):
        r = self._cmp(0, '!=')
        return r if isinstance(r, bool) else bool(r)

    # -- conversions -----------------------------------------------------
    def __float__(self):
        return ENGINE.concretize(self)

    def __complex__(self):
        if self.is_complex:
            re, im = p_parts(self.p)
            return complex(ENGINE.concretize(SymNum(re)), ENGINE.concretize(SymNum(im)))
        return complex(ENGINE.concretize(self))

    def __int__(self):
        return num_trunc(self).__index__()

    def __index__(self):
        if self.is_const:
            c = self.constval
            if c.denominator != 1:
                raise TypeError('non-integer index')
            return int(c)
        if not (self.isint or p_all_int(self.p)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ENGINE.enumerate_int(self)

    def __trunc__(self):
        return num_trunc(self)

    def __floor__(self):
        return num_floor(self)

    def __ceil__(self):
        return -num_floor(-self)

    def __round__(self, nd=None):
        if nd:
            k = 10 ** nd
            return SymNum((num_rint(self * k) / k).p)
        r = num_rint(self)
        if nd is None:
            return r
        return SymNum(r.p)

    def is_integer(self):
        return num_floor(self) == self

    # -- ndarray-scalar look-alikes --------------------------------------
    @property
    def real(self):
        return SymNum(p_real(self.p), self.isint)

    @property
    def imag(self):
        return SymNum(p_parts(self.p)[1], self.isint)

    def conjugate(self):
        return SymNum(p_conj(self.p), self.isint)

    conj = conjugate

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t):
        return coerce_kind(self, t)

    # ufunc methods for object arrays
    def sqrt(self):
        return num_sqrt(self)

    def cos(self):
        return num_cos(self)

    def sin(self):
        return num_sin(self)

    def tan(self):
        return num_sin(self) / num_cos(self)

    def exp(self):
        return num_exp(self)

    def arccos(self):
        return num_acos(self)

    def arcsin(self):
        return num_asin(self)

    def arctan(self):
        return num_atan2(self, lift(1))

    def arctan2(self, o):
        return num_atan2(self, lift(o))

    def log10(self):
        return num_log10(self)

    def rint(self):
        return SymNum(num_rint(self).p)

    def floor(self):
        return SymNum(num_floor(self).p)

    def ceil(self):
        return SymNum((-num_floor(-self)).p)

    def trunc(self):
        return SymNum(num_trunc(self).p)

    def square(self):
        return self * self

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def radians(self):
        return self * (math.pi / 180)

    deg2rad = radians

    def degrees(self):
        return self * (180 / math.pi)

    rad2deg = degrees


def _special(a, o, op):
    """arithmetic with nan / inf"""
    f = float(o)
    if math.isnan(f):
        return float('nan')
    if op in ('+', '-'):
        return f if op == '+' else -f
    if op == 'r-':
        return f
    if op == '*':
        if a == 0:
            return float('nan')
        return f if a > 0 else -f
    if op == '/':
        return SymNum({}) if True else 0
    return f if a >= 0 else -f


def lift(x):
    """SymNum of x; None for nan/inf; NotImplemented for anything else"""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, bool):
        return SymNum(p_const(int(x)), True)
    if isinstance(x, int):
        return SymNum(p_const(x), True)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return SymNum(p_const(Fraction(x)))
    if isinstance(x, Fraction):
        return SymNum(p_const(x))
    if isinstance(x, complex):
        if math.isfinite(x.real) and math.isfinite(x.imag):
            return SymNum(p_add(p_const(Fraction(x.real)), {((0, 1),): Fraction(x.imag)} if x.imag else {}))
        return None
    if isinstance(x, SymBool):
        return x._num()
    shape = getattr(x, 'shape', None)
    if shape == () and hasattr(x, 'item'):
        return lift(x.item())
    return NotImplemented


def const(c, isint=False):
    return SymNum(p_const(c), isint)


class Raiser(Exception):
    pass


def num_div(a, b, orig=None):
    if p_isconst(b.p):
        c = p_constval(b.p)
        if c == 0:
            return _div0(a, orig)
        return SymNum(p_scale(a.p, 1 / c))
    if not p_nonzero_syntactic(b.p):
        if p_iszero(b.p):
            return _div0(a, orig)
        z = b._cmp(0, '==')
        if z is True or (z is not False and bool(z)):
            return _div0(a, orig)
    return SymNum(p_mul(a.p, p_inv(b.p)))


def _div0(a, orig):
    """numpy semantics for numpy scalars / arrays (nan, inf); the engine runs
    with values that would be numpy floats in the real program, so this is the
    default; harnesses that exercise python floats assume non-zero divisors"""
    if ENGINE is not None and ENGINE.py_zero_division:
        raise ZeroDivisionError('float division by zero')
    if a.is_complex:
        return float('nan')
    if a.is_const and a.constval == 0:
        return float('nan')
    if a == 0:
        return float('nan')
    return float('inf') if a > 0 else float('-inf')


def num_abs(x):
    if x.is_complex:
        return num_sqrt(SymNum(p_mul(x.p, p_conj(x.p))))
    s = p_sign(x.p)
    if s in ('pos', 'nonneg', 'zero'):
        return x
    if s in ('neg', 'nonpos'):
        return -x
    if len(x.p) <= 4 and ENGINE is not None and ENGINE.path is not None:
        # solver-based sign, small terms only
        neg = cmp_zero(x.p, '<')
        if neg is False or (isinstance(neg, SymBool) and ENGINE.feasible(neg) == 'unsat'):
            return x
        pos = cmp_zero(p_neg(x.p), '<')
        if pos is False or (isinstance(pos, SymBool) and ENGINE.feasible(pos) == 'unsat'):
            return -x
    content, prim = p_primitive(x.p)
    # orient: leading coefficient positive
    a, new = _new_atom(('abs', f_key(prim)), 'abs', 'abs', nonneg=True, arg=prim)
    if new:
        a.axioms = None
        a.deps = tuple(sorted(p_atoms(prim)))
    r = SymNum(p_scale(p_atom(a), abs(content)), x.isint)
    return r


def _isqrt_frac(c):
    n = math.isqrt(c.numerator)
    d = math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _squarefree(n):
    """n = s*s*f ; cheap extraction of small square factors"""
    s = 1
    for q in (2, 3, 5, 7, 11, 13):
        while n % (q * q) == 0:
            n //= q * q
            s *= q
    r = math.isqrt(n)
    if r * r == n:
        return s * r, 1
    return s, n


def num_sqrt(x):
    """principal square root; domain error when x < 0 is handled by forking"""
    if x.is_complex:
        re, im = p_parts(x.p)
        if p_iszero(im):
            x = SymNum(re)
        else:
            raise Unsupported('complex sqrt')
    p = x.p
    if not p:
        return const(0)
    s = p_sign(p)
    if s in ('neg',):
        return ENGINE.domain_error('sqrt')
    if s not in ('pos', 'nonneg'):
        if ENGINE.sqrt_domain_fork:
            if bool(x < 0):
                return ENGINE.domain_error('sqrt')
        else:
            ENGINE.add_domain(x._cmp(0, '<=', True))
    # clear denominators of even/positive kind: sqrt(p) with den d (positive atoms) -> sqrt(p*d^2)/d
    d = _den_monomial(p)
    outer = p_const(1)
    for _ in range(6):
        if not d:
            break
        # multiply by the square of the denominator
        dm = {d: F1}
        p = p_mul(p_mul(p, dm), dm)
        if not all(ATOMS[k].pos for k, e in d):
            dm = num_abs(SymNum(p_reduce(dm))).p
        outer = p_mul(outer, p_inv(dm))
        d = _den_monomial(p)
    if len(p) == 1:
        (m, c), = p.items()
        inner = []
        for k, e in m:
            a = ATOMS[k]
            q, r = divmod(e, 2)
            if q:
                if a.nonneg:
                    outer = p_mul(outer, p_pow(p_atom(a), q))
                elif q % 2 == 0:
                    outer = p_mul(outer, p_pow(p_atom(a), q))
                else:
                    aa = num_abs(SymNum(p_atom(a)))
                    outer = p_mul(outer, p_pow(aa.p, q))
            if r:
                inner.append((k, 1))
        p = {tuple(inner): c}
        if not inner:
            rt = _isqrt_frac(c)
            if rt is not None:
                return SymNum(p_scale(outer, rt))
    else:
        # common monomial square factor
        common = None
        for m in p:
            dd = dict(m)
            if common is None:
                common = dict(dd)
            else:
                common = {k: min(e, dd[k]) for k, e in common.items() if k in dd}
        sq = {k: (e // 2) * 2 for k, e in (common or {}).items() if e >= 2}
        if sq:
            p = p_mul(p, {tuple(sorted((k, -e) for k, e in sq.items())): F1})
            for k, e in sq.items():
                b = num_abs(SymNum(p_atom(ATOMS[k])))
                outer = p_mul(outer, p_pow(b.p, e // 2))
        # perfect square of a binomial: a^2 + 2ab + b^2
        rt = _perfect_square(p)
        if rt is not None:
            return SymNum(p_mul(outer, num_abs(SymNum(rt)).p))
    content, prim = p_primitive(p)
    if content < 0:
        content, prim = -content, p_neg(prim)
    # sqrt(n/d) = sqrt(n*d)/d
    n, dd = content.numerator, content.denominator
    s1, f = _squarefree(n * dd)
    outer = p_scale(outer, Fraction(s1, dd))
    inner = p_scale(prim, Fraction(f))
    if p_isconst(inner) and p_constval(inner) == 1:
        return SymNum(outer)
    sg = p_sign(inner)
    a, new = _new_atom(('sqrt', f_key(inner)), 'sqrt', 'sqrt', pos=(sg == 'pos'), nonneg=True, arg=inner)
    if new:
        a.axioms = None
        a.deps = tuple(sorted(p_atoms(inner)))
    return SymNum(p_mul(outer, p_atom(a)))


def _perfect_square(p):
    if len(p) > 10:
        return None
    squares = []
    for m, c in p.items():
        if all(e % 2 == 0 for k, e in m) and c > 0:
            r = _isqrt_frac(c)
            if r is not None:
                squares.append({tuple((k, e // 2) for k, e in m): r})
    n = len(squares)
    if n < 2 or n > 4 or len(p) != n * (n + 1) // 2:
        return None
    import itertools
    for signs in itertools.product((1, -1), repeat=n - 1):
        q = dict(squares[0])
        for s, b in zip(signs, squares[1:]):
            q = p_add(q, p_scale(b, Fraction(s)))
        if p_mul(q, q) == p:
            return q
    return None


def num_pow(a, o):
    if isinstance(o, SymNum) and o.is_const:
        o = o.constval
    f = frac(o) if not isinstance(o, SymNum) else None
    if f is not None:
        if f.denominator == 1:
            n = int(f)
            if n >= 0:
                return SymNum(p_pow(a.p, n), a.isint)
            return const(1) / SymNum(p_pow(a.p, -n))
        if f.denominator == 2:
            r = num_sqrt(a)
            return num_pow(r, f * 2)
        if a.is_const:
            return const(Fraction(float(a.constval) ** float(f)))
        if f.denominator in (4, 8):
            return num_pow(num_sqrt(a), f * 2)
        raise Unsupported('fractional power')
    if isinstance(o, SymNum):
        if a.is_const and a.constval > 0:
            return num_exp_base(a.constval, o)
        if o.isint:
            return num_pow(a, o.__index__())
        raise Unsupported('symbolic power')
    return NotImplemented


# base -> exp(base * m) atoms with integer exponents per monomial
_EXPB = {}


def num_exp_base(base, x):
    """base ** x (base a positive rational or 'e') as product over the monomials of x"""
    if x.is_complex:
        raise Unsupported('complex exponent')
    r = p_const(1)
    for m, c in x.p.items():
        if not m:
            if base == 'e':
                v = Fraction(math.exp(c)) if c != 0 else F1
            elif c.denominator == 1:
                v = Fraction(base) ** int(c)
            else:
                v = Fraction(float(base) ** float(c))
            r = p_scale(r, v)
            continue
        key = (base, m)
        lst = _EXPB.setdefault(key, [])
        for a, c0 in lst:
            q = c / c0
            n = round(q)
            if n and abs(q - n) < Fraction(1, 10 ** 12) * max(1, abs(n)):
                r = p_mul(r, p_pow(p_atom(a), n))
                break
        else:
            # prefer a fine base so that 1/10, 1/20, 1/40 ... of the exponent agree
            c0 = c
            if base != 'e' and not lst:
                for dd in (40,):
                    if (c * dd).denominator == 1:
                        c0 = Fraction(1, dd)
                        break
            a, new = _new_atom(('expb', base, m, c0), 'pow%s' % base, 'exp', pos=True)
            if new:
                a.deps = tuple(sorted(k for k, e in m))
                a.arg = (base, {m: c0})
                a.axioms = None
            lst.append((a, c0))
            q = c / c0
            r = p_mul(r, p_pow(p_atom(a), int(q)))
    return SymNum(r)


_UNITB = {}


def _split_re_im(p):
    """split a poly into parts without / with I (no unit atoms allowed in exponents)"""
    re, im = {}, {}
    for m, c in p.items():
        if any(ATOMS[k].kind == 'unit' for k, e in m):
            rr, ii = p_parts({m: c})
            re = p_add(re, rr)
            im = p_add(im, ii)
        elif m and m[0][0] == 0:
            im = p_add(im, {m[1:]: c})
        else:
            re = p_add(re, {m: c})
    return re, im


def cis(p):
    """exp(i*p) for a real poly p, as a poly"""
    r = p_const(1)
    for m, c in p.items():
        if not m:
            k = c / (PI / 12)
            kr = round(k)
            if abs(k - kr) < Fraction(1, 10 ** 12):
                kr %= 24
                # kr/12 pi = quarter turns/2 * (-kr) + sixth turns * kr
                b = (4 * kr) % 24 // 4 if kr % 3 else 0
                kr = ((kr - 4 * b) % 24) // 3
                if b:
                    s3 = num_sqrt(const(3)).p
                    q3, h3 = divmod(b, 3)         # b*pi/3: half turns and thirds
                    z = {1: p_add(p_const(Fraction(1, 2)), p_scale(p_mul(s3, {((0, 1),): F1}), Fraction(1, 2))),
                         2: p_add(p_const(Fraction(-1, 2)), p_scale(p_mul(s3, {((0, 1),): F1}), Fraction(1, 2)))}
                    if q3:
                        r = p_neg(r)
                    if h3:
                        r = p_mul(r, z[h3])
                q, h = divmod(kr, 2)
                if q:
                    r = p_mul(r, p_pow({((0, 1),): F1}, q))
                if h:
                    s2 = num_sqrt(const(2)).p
                    r = p_mul(r, p_scale(p_mul(s2, p_add(p_const(1), {((0, 1),): F1})), Fraction(1, 2)))
            else:
                v = complex(math.cos(c), math.sin(c))
                r = p_mul(r, p_add(p_const(Fraction(v.real)), p_scale({((0, 1),): F1}, Fraction(v.imag))))
            continue
        if all(ATOMS[k].isint and e > 0 for k, e in m):
            q = c / (2 * PI)
            if abs(q - round(q)) < Fraction(1, 10 ** 12) and round(q):
                continue        # whole turns
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            a = ATOMS[m[0][0]]
            if a.kind in ('acos', 'asin', 'atan2'):
                cs, sn = a.extra
                base = p_add(cs, p_mul(sn, {((0, 1),): F1}))
                n = int(c)
                if n < 0:
                    base = p_conj(base)
                    n = -n
                r = p_mul(r, p_pow(base, n))
                continue
        lst = _UNITB.setdefault(m, [])
        for a, c0 in lst:
            q = c / c0
            n = round(q)
            if n and abs(q - n) < Fraction(1, 10 ** 12) * max(1, abs(n)):
                r = p_mul(r, p_pow(p_atom(a), n))
                break
        else:
            c0 = abs(c)
            a, new = _new_atom(('unit', m, c0), 'cis[%s*%s]' % (float(c0), ENGINE.describe({m: F1})), 'unit', nonzero=True)
            if new:
                a.deps = ()
                a.arg = {m: c0}
            lst.append((a, c0))
            r = p_mul(r, p_pow(p_atom(a), 1 if c > 0 else -1))
    return r


def num_exp(x):
    re, im = _split_re_im(x.p)
    r = p_const(1)
    if im:
        r = cis(im)
    if re:
        r = p_mul(r, num_exp_base('e', SymNum(re)).p)
    return SymNum(r)


def _real_arg(x):
    p = x.p
    if p_is_complex(p):
        p = p_real(p)
    return p


def num_cos(x):
    e = cis(_real_arg(x))
    return SymNum(p_scale(p_add(e, p_conj(e)), Fraction(1, 2)))


def num_sin(x):
    e = cis(_real_arg(x))
    d = p_add(e, p_neg(p_conj(e)))
    return SymNum(p_mul(p_scale(d, Fraction(-1, 2)), {((0, 1),): F1}))


def num_acos(x):
    p = p_real(x.p)
    if p_isconst(p):
        c = p_constval(p)
        if c == 1:
            return const(0)
        if c == -1:
            return const(PI)
        if c == 0:
            return const(PI / 2)
        if abs(c) > 1:
            return ENGINE.domain_error('acos')
        return const(Fraction(math.acos(c)))
    # acos(cos(t)) is left opaque
    a, new = _new_atom(('acos', f_key(p)), 'acos', 'acos', nonneg=True, arg=p)
    if new:
        sn = num_sqrt_nodomain(p_add(p_const(1), p_neg(p_mul(p, p))))
        a.extra = (p, sn)
        a.deps = tuple(sorted(p_atoms(p)))
        a.axioms = None
    return SymNum(p_atom(a))


def num_sqrt_nodomain(p):
    old = ENGINE.sqrt_domain_fork
    ENGINE.sqrt_domain_fork = False
    save = ENGINE.collect_domain
    ENGINE.collect_domain = False
    try:
        return num_sqrt(SymNum(p)).p
    finally:
        ENGINE.sqrt_domain_fork = old
        ENGINE.collect_domain = save


def num_asin(x):
    p = p_real(x.p)
    if p_isconst(p):
        c = p_constval(p)
        if abs(c) > 1:
            return ENGINE.domain_error('asin')
        if c in (0, 1, -1):
            return const(PI / 2 * c)
        return const(Fraction(math.asin(c)))
    sg = p_sign(p)
    a, new = _new_atom(('asin', f_key(p)), 'asin', 'asin', pos=(sg == 'pos'), nonneg=(sg in ('pos', 'nonneg')), arg=p)
    if new:
        cs = num_sqrt_nodomain(p_add(p_const(1), p_neg(p_mul(p, p))))
        a.extra = (cs, p)
        a.deps = tuple(sorted(p_atoms(p)))
        a.axioms = None
    return SymNum(p_atom(a))


def num_atan2(y, x):
    py, px = p_real(y.p), p_real(x.p)
    if p_isconst(py) and p_isconst(px):
        return const(Fraction(math.atan2(p_constval(py), p_constval(px))))
    if not py:
        # y == 0 exactly: 0 or pi
        if bool(SymNum(px) >= 0):
            return const(0)
        return const(PI)
    if not px:
        return const(PI / 2) if bool(SymNum(py) > 0) else (const(0) if bool(SymNum(py) == 0) else const(-PI / 2))
    # canonical scale: divide both by the positive content of x
    c, _ = p_primitive(px)
    c = abs(c)
    if c != 1:
        py, px = p_scale(py, 1 / c), p_scale(px, 1 / c)
    # common positive monomial factor
    allm = list(py) + list(px)
    common = {k: e for k, e in allm[0] if ATOMS[k].pos}
    for m in allm[1:]:
        d = dict(m)
        common = {k: min(e, d.get(k, 0)) for k, e in common.items() if d.get(k, 0) > 0 and e > 0}
    common = {k: e for k, e in common.items() if e > 0}
    if common:
        f = {tuple(sorted((k, -e) for k, e in common.items())): F1}
        py, px = p_mul(py, f), p_mul(px, f)
    if py[p_lead(py)] < 0 and ENGINE is not None and ENGINE.path is not None:
        bad = b_and(cmp_zero(px, '<'), cmp_zero(py, '=='))
        if bad is False or (isinstance(bad, SymBool) and ENGINE.feasible(bad) == 'unsat'):
            return -num_atan2(SymNum(p_neg(py)), SymNum(px))
    a, new = _new_atom(('atan2', f_key(py), f_key(px)), 'atan2', 'atan2', arg=(py, px))
    if new:
        # at the origin the angle is 0; harnesses assume it away
        if len(py) + len(px) > 8 or _den_monomial(py) or _den_monomial(px):
            ca, _ = _new_atom(('acs', a.id), 'cos(atan2)', 'ucos')
            sa, _ = _new_atom(('asn', a.id), 'sin(atan2)', 'usin')
            ca.extra = sa.extra = ('dir', py, px)
            ca.deps = (sa.id,)
            sa.deps = (ca.id,)
            ca.axioms = sa.axioms = None
            a.extra = (p_atom(ca), p_atom(sa))
        else:
            r2 = p_add(p_mul(px, px), p_mul(py, py))
            r = num_sqrt_nodomain(r2)
            ri = p_inv(r)
            a.extra = (p_mul(px, ri), p_mul(py, ri))
        a.deps = tuple(sorted(p_atoms(py) | p_atoms(px)))
        a.axioms = None
    return SymNum(p_atom(a))


def num_log10(x):
    return num_log(x, 10)


def num_log(x, base='e'):
    """log as a sum over factors of a monomial"""
    p = p_real(x.p)
    if p_isconst(p):
        c = p_constval(p)
        if c <= 0:
            return ENGINE.domain_error('log')
        return const(Fraction(math.log10(c) if base == 10 else (math.log2(c) if base == 2 else math.log(c))))
    s = p_sign(p)
    if s != 'pos':
        if not bool(SymNum(p) > 0):
            return ENGINE.domain_error('log')
    if len(p) != 1:
        d = _den_monomial(p)
        if d and all(ATOMS[k].pos for k, e in d):
            q = p_mul(p, {d: F1})
            return num_log(SymNum(q), base) - num_log(SymNum({d: F1}), base)
        c, prim = p_primitive(p)
        if c < 0:
            c, prim = -c, p_neg(prim)
        r = const(0) if c == 1 else num_log(const(c), base)
        a = _log_atom(prim, base)
        return r + SymNum(p_atom(a))
    (m, c), = p.items()
    r = const(0)
    if c < 0:
        a = _log_atom(p, base)
        return SymNum(p_atom(a))
    if c != 1:
        r = r + num_log(const(c), base)
    for k, e in m:
        a = ATOMS[k]
        if not a.pos and len(m) > 1:
            # sign not known syntactically per factor: opaque
            return SymNum(p_atom(_log_atom(p, base)))
        if a.kind == 'sqrt':
            t = num_log(SymNum(a.arg), base) * Fraction(1, 2)
        elif a.kind == 'poly':
            t = num_log(SymNum(a.arg), base)
        elif a.kind == 'exp':
            b, ap = a.arg
            t = SymNum(ap) * (num_log(const(b), base) if b != 'e' else (num_log(const(Fraction(math.e)), base)))
            if b == base:
                t = SymNum(ap)
        else:
            t = SymNum(p_atom(_log_atom({((k, 1),): F1}, base)))
        r = r + t * e
    return r


def _log_atom(p, base):
    a, new = _new_atom(('log', base, f_key(p)), 'log%s' % base, 'log', arg=p)
    if new:
        a.deps = tuple(sorted(p_atoms(p)))
        a.extra = base
        a.axioms = None
    return a


def num_floor(x):
    if not isinstance(x, SymNum):
        return const(math.floor(x), True)
    p = p_real(x.p)
    if p_isconst(p):
        return const(math.floor(p_constval(p)), True)
    if x.isint or p_all_int(p):
        return SymNum(p, True)
    a, new = _new_atom(('floor', f_key(p)), 'floor', 'floor', isint=True, arg=p)
    if new:
        a.deps = tuple(sorted(p_atoms(p)))
        a.axioms = None
    return SymNum(p_atom(a), True)


def num_extreme(vals, largest):
    """the largest (smallest) of real terms as one derived quantity, without forking on their order"""
    vals = [lift(v) for v in vals]
    a, new = _new_atom(('ext', largest, tuple(f_key(v.p) for v in vals)), 'ext', 'ext',
                       isint=all(v.isint for v in vals))
    r = SymNum(p_atom(a), all(v.isint for v in vals))
    if new:
        bound = [(r >= v) if largest else (r <= v) for v in vals]
        reach = b_or(*[r == v for v in vals])
        for c in bound + [reach]:
            if isinstance(c, SymBool):
                a.axioms.append(c.e)
        a.deps = tuple(sorted(set().union(*[p_atoms(v.p) for v in vals])))
    return r


def num_trunc(x):
    p = p_real(x.p)
    if p_isconst(p):
        return const(int(p_constval(p)), True)
    if x.isint or p_all_int(p):
        return SymNum(p, True)
    s = p_sign(p)
    if s in ('pos', 'nonneg', 'zero') or (s is None and bool(SymNum(p) >= 0)):
        return num_floor(SymNum(p))
    return -num_floor(SymNum(p_neg(p)))


def num_rint(x):
    """round half to even"""
    p = p_real(x.p)
    if p_isconst(p):
        return const(round(p_constval(p)), True)
    if x.isint or p_all_int(p):
        return SymNum(p, True)
    a, new = _new_atom(('rint', f_key(p)), 'rint', 'rint', isint=True, arg=p)
    if new:
        a.deps = tuple(sorted(p_atoms(p)))
        a.axioms = None
    return SymNum(p_atom(a), True)


def coerce_kind(v, kind):
    """store v into an array of the given kind ('f','c','i','b', or None)"""
    k = kind_of(kind)
    if k == 'i':
        if isinstance(v, SymNum):
            return num_trunc(v)
        if isinstance(v, SymBool):
            return v._num()
        if isinstance(v, float):
            return int(v)
        if isinstance(v, complex):
            return int(v.real)
        return v
    if k == 'f':
        if isinstance(v, SymNum):
            if v.is_complex:
                return SymNum(p_real(v.p))
            return SymNum(v.p) if v.isint else v
        if isinstance(v, SymBool):
            return SymNum(v._num().p)
        if isinstance(v, (bool, int)):
            return float(v)
        return v
    if k == 'b':
        if isinstance(v, SymNum):
            return v != 0
        if isinstance(v, (int, float)):
            return bool(v)
        return v
    return v


def kind_of(t):
    if t is None or t in ('f', 'c', 'i', 'b'):
        return t
    if t is int:
        return 'i'
    if t is float:
        return 'f'
    if t is complex:
        return 'c'
    if t is bool:
        return 'b'
    if t is object:
        return None
    k = getattr(t, '_symkind', None)
    if k:
        return k
    try:
        import numpy
        kk = numpy.dtype(t).kind
    except Exception:
        return None
    return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b'}.get(kk)


# ----------------------------------------------------------------------
def lazy_axioms(a):
    """defining axioms of a derived atom, as z3 formulas over (possibly new) atoms.
    Returns (list of z3 formulas, set of atom ids they mention)"""
    out = []
    ids = {a.id}

    def num(p):
        p = p_real(p)
        for _ in range(20):
            d = _den_monomial(p)
            if not d:
                break
            raise _HasDen(p)
        ids.update(p_atoms(p))
        return p_to_z3(p)

    def rel(p, op):
        b = cmp_zero(p, op)
        if b is True:
            return
        if b is False:
            out.append(z3.BoolVal(False))
            return
        ids.update(b.atoms)
        out.append(b.e)

    def relb(p, op):
        b = cmp_zero(p, op)
        if isinstance(b, bool):
            return z3.BoolVal(b)
        ids.update(b.atoms)
        return b.e

    me = p_atom(a)
    k = a.kind
    if k == 'poly':
        if a.pos:
            out.append(a.z > 0)
        else:
            out.append(a.z != 0)
        # a.z == arg  (arg has no denominators by construction)
        p = p_real(a.arg)
        ids.update(p_atoms(p))
        out.append(a.z == p_to_z3(p))
    elif k == 'sqrt':
        out.append(a.z >= 0)
        if a.pos:
            out.append(a.z > 0)
        rel(p_add({((a.id, 2),): F1}, p_neg(a.arg)), '==')
    elif k == 'abs':
        out.append(a.z >= 0)
        b = relb(p_neg(a.arg), '<=')
        e1 = relb(p_add(me, p_neg(a.arg)), '==')
        e2 = relb(p_add(me, a.arg), '==')
        out.append(z3.If(b, e1, e2))
    elif k == 'acos':
        pi = _rv(PI)
        out += [a.z >= 0, a.z <= pi]
        # monotone landmarks: sign of cos
        out.append(relb(p_neg(a.arg), '<') == (a.z < pi / 2))
        out.append(relb(a.arg, '==') == (a.z == pi / 2))
        out.append(relb(p_add(a.arg, p_const(-1)), '==') == (a.z == 0))
        out.append(relb(p_add(a.arg, p_const(1)), '==') == (a.z == pi))
        rel(p_add(a.arg, p_const(-1)), '<=')
        rel(p_add(p_neg(a.arg), p_const(-1)), '<=')
    elif k == 'asin':
        pi = _rv(PI)
        out += [a.z >= -pi / 2, a.z <= pi / 2]
        out.append(relb(p_neg(a.arg), '<') == (a.z > 0))
        out.append(relb(a.arg, '==') == (a.z == 0))
        rel(p_add(a.arg, p_const(-1)), '<=')
        rel(p_add(p_neg(a.arg), p_const(-1)), '<=')
    elif k == 'atan2':
        pi = _rv(PI)
        py, px = a.arg
        ypos, yneg = relb(p_neg(py), '<'), relb(py, '<')
        xpos, xneg = relb(p_neg(px), '<'), relb(px, '<')
        out += [a.z > -pi, a.z <= pi]
        out.append(ypos == z3.And(a.z > 0, a.z < pi))
        out.append(yneg == (a.z < 0))
        out.append(xpos == z3.And(a.z > -pi / 2, a.z < pi / 2, z3.Or(ypos, yneg, xpos)))
        out.append(xneg == z3.Or(a.z < -pi / 2, a.z > pi / 2))
        # quadrant halves
        d = p_add(p_mul(py, py), p_neg(p_mul(px, px)))
    elif k in ('ucos', 'usin'):
        _, py, px = a.extra
        o = ATOMS[a.deps[0]]
        ca, sa = (a, o) if k == 'ucos' else (o, a)
        pc, ps = p_atom(ca), p_atom(sa)
        out += [ca.z * ca.z + sa.z * sa.z == 1, ca.z >= -1, ca.z <= 1, sa.z >= -1, sa.z <= 1]
        rel(p_add(p_mul(ps, px), p_neg(p_mul(pc, py))), '==')
        out.append(z3.Implies(relb(p_neg(px), '<'), ca.z > 0))
        out.append(z3.Implies(relb(px, '<'), ca.z < 0))
        out.append(z3.Implies(relb(p_neg(py), '<'), sa.z > 0))
        out.append(z3.Implies(relb(py, '<'), sa.z < 0))
        ids.add(o.id)
        o_id = o.id
        a.axioms = list(out)
        a.deps = (o_id,) + tuple(sorted(ids - {a.id, o_id}))
        return
    elif k == 'floor':
        b1 = relb(p_add(me, p_neg(a.arg)), '<=')
        b2 = relb(p_add(p_add(a.arg, p_neg(me)), p_const(-1)), '<')
        out += [b1, b2]
    elif k == 'rint':
        h = Fraction(1, 2)
        d = p_add(a.arg, p_neg(me))
        out.append(relb(p_add(d, p_const(-h)), '<='))
        out.append(relb(p_add(p_neg(d), p_const(-h)), '<='))
        tie = z3.Or(relb(p_add(d, p_const(-h)), '=='), relb(p_add(d, p_const(h)), '=='))
        out.append(z3.Implies(tie, a.z % 2 == 0))
    elif k == 'exp':
        out.append(a.z > 0)
        b, ap = a.arg
        bb = math.e if b == 'e' else b
        if bb > 1:
            out.append(relb(p_neg(ap), '<') == (a.z > 1))
            out.append(relb(ap, '<') == (a.z < 1))
    elif k == 'log':
        bb = relb(p_add(a.arg, p_const(-1)), '<')
        out.append(bb == (a.z < 0))
        out.append(relb(p_add(a.arg, p_const(-1)), '==') == (a.z == 0))
    a.axioms = [o for o in out]
    a.deps = tuple(sorted(ids - {a.id}))


class _HasDen(Exception):
    pass


# ----------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.concretised = 0
        self.obligations = 0
        self.proved = 0
        self.by_tolerance = 0
        self.undecided = 0
        self.unsupported = 0


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.solver = z3.Solver()
        self.axdone = set()
        self.pc = []
        self.inputs = {}
        self.incomplete = []
        self.dom = 0
        self.known = {}           # questions decided on this path


class Engine:
    def __init__(self, timeout_ms=8000, max_paths=20000, wall=600, seed=1):
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = min(timeout_ms, 3000)
        self.max_paths = max_paths
        self.wall = wall
        self.in_path = False
        self.seed = seed
        self.stats = Stats()
        self.path = None
        self.sqrt_domain_fork = False
        self.collect_domain = True
        self.py_zero_division = False
        self.np_domain_nan = False
        self.abort = None
        self.lemmas = []
        self.norms = {}
        self.fresh_count = 0
        self.t0 = time.time()
        self._cache = {}
        self.work = []
        self.complete = True
        self.why_incomplete = ''

    # -- naming ------------------------------------------------------------
    def describe(self, p, limit=3):
        ts = []
        for m, c in list(p.items())[:limit]:
            s = '*'.join(('%s^%d' % (ATOMS[k].name, e)) if e != 1 else ATOMS[k].name for k, e in m)
            ts.append(('%.4g' % float(c)) + ('*' + s if s else ''))
        if len(p) > limit:
            ts.append('...')
        return ' + '.join(ts) or '0'

    # -- variables ---------------------------------------------------------
    def var(self, name, pos=False, nonneg=False, isint=False, nonzero=False):
        a, new = _new_atom(('var', name), name, 'var', pos=pos, nonneg=nonneg, isint=isint, nonzero=nonzero)
        return SymNum(p_atom(a), isint)

    def fresh(self, name, **kw):
        self.path.dom += 1
        return self.var('%s#%d' % (name, self.path.dom), **kw)

    def boolvar(self, name):
        key = ('bool', name)
        a = _INTERN.get(key)
        if a is None:
            a = z3.Bool('b_' + name)
            _INTERN[key] = a
        return SymBool(a)

    # -- exploration ------------------------------------------------------
    def explore(self, fn):
        """depth-first enumeration of the feasible paths of fn by re-execution;
        yields (kind, payload) per path: 'done', 'exc' (exception), 'unsupported'"""
        self.work = [[]]
        self.complete = True
        while self.work:
            if self.stats.paths >= self.max_paths or time.time() - self.t0 > self.wall:
                self.complete = False
                self.why_incomplete = 'path or time budget (%d paths left)' % len(self.work)
                return
            prefix = self.work.pop()
            self.path = Path(prefix)
            self.abort = None
            self.norms = {}
            t_path = time.time()
            try:
                try:
                    try:
                        self.in_path = True
                        fn()
                    finally:
                        self.in_path = False
                    if self.abort is not None:
                        raise self.abort
                    out = ('done', None)
                except EngineSignal:
                    raise
                except BaseException as e:
                    if self.abort is not None:
                        raise self.abort
                    if isinstance(e, (KeyboardInterrupt, MemoryError)):
                        raise
                    out = ('exc', e)
            except Infeasible:
                self.stats.infeasible += 1
                continue
            except Unsupported as e:
                self.stats.unsupported += 1
                self.complete = False
                out = ('unsupported', e)
            except Budget as e:
                self.complete = False
                self.why_incomplete = 'time budget'
                self.abort = None
                if time.time() - t_path > min(30, self.wall / 4):
                    # most of it in one path: does the code end here at all?
                    yield 'budget', e
                return
            self.stats.paths += 1
            if self.path.incomplete:
                self.complete = False
            yield out

    # -- solver ------------------------------------------------------------
    def prove(self, b, timeout=None):
        """('unsat'|'sat'|'unknown', values) for  path condition and not b"""
        if b is True:
            return 'unsat', None
        neg = z3.BoolVal(True) if b is False else z3.Not(b.e)
        if b is not False:
            self._axioms_for(b.atoms)
            if self._sliced_unsat(neg):
                return 'unsat', None
        return self.solve(neg, timeout)

    def _sliced_unsat(self, neg, rounds=3):
        """try to refute the goal from growing subsets of the assertions (sound for unsat)"""
        comp = _components(list(self.path.solver.assertions()), neg)[0][0]
        if len(comp) < 6 or not any(_nonlinear(f) for f in comp):
            return False
        vs = set(_info(neg)[0])
        last = -1
        for _ in range(rounds):
            sub = [f for f in comp if _info(f)[0] <= vs]
            if len(sub) == len(comp):
                return False
            if len(sub) != last:
                last = len(sub)
                if self._solve_fresh(sub, 1200)[0] == 'unsat':
                    return True
            grow = set(vs)
            for f in comp:
                if _info(f)[0] & vs:
                    grow |= _info(f)[0]
            if grow == vs:
                return False
            vs = grow
        return False

    def solve(self, extra=None, timeout=None):
        """decide path condition and extra; on sat return z3-variable values.  The
        assertions are split into components that share no variable."""
        timeout = timeout or self.timeout_ms
        asserts = list(self.path.solver.assertions())
        comps = _components(asserts, extra)
        vals = {}
        worst = 'sat'
        for fs, is_goal in comps:
            r, m = self._solve_fresh(fs, timeout)
            if r == 'unsat':
                return 'unsat', None
            if r == 'unknown':
                worst = 'unknown'
            else:
                vals.update(m)
        return worst, vals

    def _solve_fresh(self, fs, timeout):
        key = frozenset(f.get_id() for f in fs)
        hit = self._cache.get(key)
        if hit is not None and (hit[0] != 'unknown' or hit[3] >= timeout):
            return hit[0], hit[1]
        res = ('unknown', {})
        has_int = any(_has_int(f) for f in fs)
        tries = ['smt', 'nlsat'] if not has_int else ['smt']
        nl = any(_nonlinear(f) for f in fs)
        if nl and not has_int:
            tries = ['nlsat-q', 'smt', 'nlsat']
        for k, t in enumerate(tries):
            if t == 'smt':
                s = z3.Solver()
            else:
                s = z3.Tactic('qfnra-nlsat').solver() if _no_ite(fs) else \
                    z3.Then('simplify', 'elim-term-ite', 'solve-eqs', 'qfnra-nlsat').solver()
            s.set('timeout', timeout // 3 if t == 'nlsat-q' else timeout)
            for f in fs:
                s.add(f)
            t0 = time.time()
            lim = timeout // 3 if t == 'nlsat-q' else timeout
            if nl:
                r, m = _check_forked(s, lim)
            else:
                r, m = _check_here(s)
            self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            if r == 'unsat':
                self.stats.unsat += 1
                res = ('unsat', None)
                break
            if r == 'sat':
                self.stats.sat += 1
                res = ('sat', m)
                break
            self.stats.unknown += 1
        self._cache[key] = res + (fs, timeout)
        return res

    def _axioms_for(self, ids):
        todo = [i for i in ids if i not in self.path.axdone]
        while todo:
            i = todo.pop()
            if i in self.path.axdone:
                continue
            self.path.axdone.add(i)
            a = ATOMS[i]
            if a.axioms is None:
                lazy_axioms(a)
            for ax in a.axioms or ():
                self.path.solver.add(ax)
            for d in a.deps:
                if d not in self.path.axdone:
                    todo.append(d)

    def check(self, *extra, timeout=None):
        s = self.path.solver
        s.set('timeout', timeout or self.timeout_ms)
        t = time.time()
        try:
            r = s.check(*extra)
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def add(self, b):
        """add constraint to the path condition"""
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self._axioms_for(b.atoms)
        self.path.solver.add(b.e)
        self.path.pc.append(b)

    def add_domain(self, b):
        if not self.collect_domain:
            return
        if b is True or b is False:
            return
        self.add(b)

    def lemma(self, b):
        """a fact true in the reals, added to help the solver"""
        if isinstance(b, SymBool):
            self._axioms_for(b.atoms)
            self.path.solver.add(b.e)

    def branch(self, b):
        if self.abort is not None:
            raise self.abort
        if time.time() - self.t0 > self.wall:
            self.abort = Budget('wall clock')
            raise self.abort
        p = self.path
        # the same question, asked again on this path
        k = b.e.get_id()
        if k not in p.known:
            p.known[k] = (b.e, self._branch(p, b))
        return p.known[k][1]

    def _branch(self, p, b):
        i = len(p.decisions)
        if i < len(p.prefix):
            d = p.prefix[i]
            p.decisions.append(d)
            self.add(b if d[0] else ~b)
            return d[0]
        s = z3.simplify(b.e)
        if z3.is_true(s):
            p.decisions.append((True, True))
            return True
        if z3.is_false(s):
            p.decisions.append((False, True))
            return False
        if self.feasible(b) == 'unsat':
            p.decisions.append((False, True))
            self.add(~b)
            return False
        if self.feasible(~b) == 'unsat':
            p.decisions.append((True, True))
            self.add(b)
            return True
        # both feasible (or unknown): fork
        self.work.append(p.decisions + [(False, False)])
        p.decisions.append((True, False))
        self.add(b)
        return True

    def _branch_value(self, x, v):
        """fork on x == v, remembering v so re-execution asks the same question"""
        p = self.path
        i = len(p.decisions)
        if i < len(p.prefix):
            d = p.prefix[i]
            if len(d) == 3:
                v2 = d[2]
                c = x._cmp(v2, '==')
                p.decisions.append(d)
                if isinstance(c, SymBool):
                    self.add(c if d[0] else ~c)
                if d[0]:
                    self._enum_val = v2
                    return True
                return False
        c = x._cmp(v, '==')
        if c is True:
            p.decisions.append((True, True, v))
            self._enum_val = v
            return True
        if self.feasible(~c) != 'unsat':
            self.work.append(p.decisions + [(False, False, v)])
            p.decisions.append((True, False, v))
        else:
            p.decisions.append((True, True, v))
        self.add(c)
        self._enum_val = v
        return True

    def enumerate_int(self, x, limit=512):
        p = self.path
        self._axioms_for(p_atoms(x.p))
        for _ in range(limit):
            i = len(p.decisions)
            if i < len(p.prefix):
                if self._branch_value(x, None):
                    return self._enum_val
                continue
            v = self._some_value(x)
            if v is None:
                raise Unsupported('cannot enumerate integer')
            if self._branch_value(x, int(round(v))):
                return self._enum_val
        raise Unsupported('integer domain too large')

    def _some_value(self, x):
        pr = p_real(x.p)
        self._axioms_for(p_atoms(pr))
        r, vals = self.solve()
        if r == 'unsat':
            raise Infeasible()
        if r != 'sat':
            return None
        return self.eval_poly(vals, pr)

    def concretize(self, x):
        if x.is_const:
            return float(x.constval)
        if self.abort is not None:
            raise self.abort
        self.stats.concretised += 1
        self.path.incomplete.append('concretised ' + self.describe(x.p))
        v = self._some_value(x)
        if v is None:
            self.abort = Unsupported('concretise')
            raise self.abort
        try:
            self.add(x._cmp(v, '=='))
        except Infeasible:
            pass
        return float(v)

    def domain_error(self, what):
        if self.np_domain_nan:
            return float('nan')
        raise ValueError('math domain error')

    # -- models -----------------------------------------------------------
    def eval_poly(self, vals, p):
        r = Fraction(0)
        for mono, c in p.items():
            t = c
            for k, e in mono:
                v = self.atom_value(vals, ATOMS[k])
                if v is None or (e < 0 and v == 0):
                    return None
                t = t * v ** e
            r += t
        return r

    def atom_value(self, vals, a):
        v = vals.get(a.z.decl().name())
        if v is None:
            return Fraction(1) if a.pos else Fraction(0)
        return v

    def feasible(self, b):
        """can b hold on this path? ('unsat', 'sat', 'unknown')"""
        self._axioms_for(b.atoms)
        comps = _components(list(self.path.solver.assertions()), b.e)
        return self._solve_fresh(comps[0][0], self.branch_timeout_ms)[0]


def _check_here(s):
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        return 'sat', {d.name(): z3val(m[d]) for d in m.decls()}
    return 'unknown', None


def _check_forked(s, lim_ms):
    """z3's nonlinear engine does not always honour its timeout: run it in a child that can be killed"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            out = _check_here(s)
            data = pickle.dumps(out)
            while data:
                n = os.write(wfd, data)
                data = data[n:]
        except BaseException:
            pass
        os._exit(0)
    os.close(wfd)
    end = time.time() + lim_ms / 1000 + 0.3
    buf = b''
    try:
        while True:
            left = end - time.time()
            if left <= 0:
                break
            ready, _, _ = select.select([rfd], [], [], left)
            if not ready:
                break
            chunk = os.read(rfd, 1 << 16)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(rfd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return 'unknown', None


_VARS = {}


def _info(e):
    """(frozenset of variable names, has_int, nonlinear, has_ite) of a z3 formula"""
    k = e.get_id()
    hit = _VARS.get(k)
    if hit is not None:
        return hit[1]
    names = set()
    has_int = nl = ite = False
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(x.decl().name())
            if z3.is_int(x):
                has_int = True
        elif z3.is_app(x):
            dk = x.decl().kind()
            if dk == z3.Z3_OP_MUL:
                if sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                    nl = True
            elif dk == z3.Z3_OP_ITE:
                ite = True
            stack.extend(x.children())
    r = (frozenset(names), has_int, nl, ite)
    _VARS[k] = (e, r)
    return r


def _has_int(f):
    return _info(f)[1]


def _nonlinear(f):
    return _info(f)[2]


def _no_ite(fs):
    return not any(_info(f)[3] for f in fs)


def _components(asserts, extra):
    items = []
    if extra is not None:
        items.append(extra)
    seen = set()
    for a in asserts:
        if a.get_id() not in seen:
            seen.add(a.get_id())
            items.append(a)
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for f in items:
        vs = list(_info(f)[0])
        for v in vs:
            parent.setdefault(v, v)
        for v in vs[1:]:
            a, b = find(vs[0]), find(v)
            if a != b:
                parent[a] = b
    groups = {}
    order = []
    for i, f in enumerate(items):
        vs = _info(f)[0]
        g = find(next(iter(vs))) if vs else ('const', i)
        if g not in groups:
            groups[g] = ([], extra is not None and i == 0)
            order.append(g)
        groups[g][0].append(f)
    return [groups[g] for g in order]


def z3val(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e
