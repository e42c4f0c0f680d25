"""
Library models used while the real dedop sources run symbolically.

dedop modules are loaded from /repo's current sources by a loader that gives
them a builtins namespace in which `import numpy` (scipy, math, numexpr,
netCDF4, cate) yields the modules below, and float()/int()/... accept symbolic
numbers.  Nothing in the dedop sources is changed.
"""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math as _math
import numbers
import os
import sys
import types
import warnings
from fractions import Fraction

import numpy as _np

from . import core
from .core import (SymNum, SymBool, lift, const, b_and, b_or, b_not, num_sqrt, num_cos, num_sin, num_exp,
                   num_acos, num_asin, num_atan2, num_log10, num_log, num_floor, num_rint, num_trunc, num_abs, num_extreme,
                   num_pow, num_div, coerce_kind, kind_of, Unsupported, p_parts, p_is_complex)

REPO = os.environ.get('VERIF_REPO', '/repo')

numbers.Complex.register(SymNum)
numbers.Real.register(SymNum)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def has_sym(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


# ----------------------------------------------------------------------
class SymArray(_np.ndarray):
    """object array holding symbolic or concrete numbers; remembers the element
    kind the real array would have so that stores truncate as numpy would"""
    __array_priority__ = 1500
    _vk = None

    def __array_finalize__(self, obj):
        self._vk = getattr(obj, '_vk', None)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = tuple(_plain(i) for i in inputs)
        if method == '__call__':
            name = ufunc.__name__
            if name in _BOOLARITH and len(ins) == 2 and _allbool(ins[0]) and _allbool(ins[1]):
                # numpy's arithmetic of booleans is logical
                name = _BOOLARITH[name]
                ufunc = getattr(_np, name)
            f = UFUNCS.get(name)
            if f is not None and 'where' not in kw:
                r = f(*ins)
            else:
                kw.pop('dtype', None)
                kw.pop('casting', None)
                r = getattr(ufunc, method)(*ins, **kw)
        else:
            kw.pop('dtype', None)
            f = REDUCERS.get((ufunc.__name__, method))
            if f is not None:
                r = f(*ins, **kw)
            else:
                r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            tgt = out[0]
            store_all(tgt, r)
            return tgt
        if ufunc.__name__ in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal',
                              'logical_and', 'logical_or', 'logical_not', 'isfinite', 'isnan') and \
                isinstance(r, _np.ndarray):
            rr = wrap(r)
            if isinstance(rr, SymArray):
                rr._vk = 'b'
            return rr
        return wrap(r)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        mod = getattr(func, '__module__', '')
        f = None
        if mod and mod.endswith('linalg'):
            f = getattr(linalg, name, None)
        elif mod and 'fft' in mod:
            f = getattr(fft, name, None)
        else:
            f = OVERRIDES.get(name)
        if f is not None and f is not func:
            return f(*args, **kwargs)
        return wrap(super().__array_function__(func, types_, args, kwargs))

    def __setitem__(self, key, value):
        key = _index(key)
        if self._vk is not None:
            value = coerce_all(value, self._vk)
        if isinstance(value, SymArray):
            value = value.view(_np.ndarray)
        if isinstance(key, _np.ndarray) and key.dtype == object:
            key = boolmask(key)
        _np.ndarray.__setitem__(self, key, value)

    def __getitem__(self, key):
        key = _index(key)
        r = _np.ndarray.__getitem__(self, key)
        return r

    @property
    def dtype(self):
        return _np.ndarray.dtype.__get__(self)

    @property
    def real(self):
        return amap(np_real1, self)

    @property
    def imag(self):
        return amap(np_imag1, self)

    def astype(self, t, *a, **k):
        kd = kind_of(t)
        if kd is None:
            return _np.ndarray.astype(self, object)
        r = amap(lambda v: coerce_kind(v, kd), self)
        if isinstance(r, SymArray):
            r._vk = kd
        return r

    def conj(self):
        return amap(conj1, self)

    conjugate = conj

    def max(self, axis=None, **k):
        return reduce_axis(self, axis, lambda v: max_list(v))

    def min(self, axis=None, **k):
        return reduce_axis(self, axis, lambda v: min_list(v))

    def argmin(self, axis=None, **k):
        return reduce_axis(self, axis, argmin_list)

    def argmax(self, axis=None, **k):
        return reduce_axis(self, axis, argmax_list)

    def round(self, decimals=0, **k):
        return np_round(self, decimals)

    def mean(self, axis=None, **k):
        return np_mean(self, axis)

    def std(self, axis=None, **k):
        return np_std(self, axis)

    def var(self, axis=None, **k):
        return np_var(self, axis)

    def any(self, axis=None, **k):
        return reduce_axis(self, axis, lambda v: builtins.any(bool(x) for x in v))

    def all(self, axis=None, **k):
        return reduce_axis(self, axis, lambda v: builtins.all(bool(x) for x in v))

    def argsort(self, *a, **k):
        return np_argsort(self)

    def clip(self, lo=None, hi=None, **k):
        return np_clip(self, lo, hi)

    def copy(self, order='C'):
        r = _np.ndarray.copy(self, order)
        r._vk = self._vk
        return r

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(self.reshape(-1).view(_np.ndarray)[0])

    def _one(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.reshape(-1).view(_np.ndarray)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        return self._one().__index__()

    def __complex__(self):
        return complex(self._one())


class SymMatrix(_np.matrix):
    """numpy.matrix with object elements"""
    __array_priority__ = 1600

    def __new__(cls, data, dtype=None, copy=True):
        if isinstance(data, _np.matrix) and not isinstance(data, SymMatrix):
            data = _np.asarray(data)
        if isinstance(data, str):
            return _np.matrix(data).view(cls)
        a = to_obj(data)
        if a.ndim > 2:
            raise ValueError('matrix must be 2-dimensional')
        if a.ndim == 1:
            a = a.reshape(1, -1)
        elif a.ndim == 0:
            a = a.reshape(1, 1)
        if kind_of(dtype) == 'f':
            a = amap(lambda v: coerce_kind(v, 'f'), a)
        return _np.array(_plain(a), dtype=object, copy=bool(copy)).view(cls)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = tuple(_plain(i) for i in inputs)
        kw.pop('dtype', None)
        f = UFUNCS.get(ufunc.__name__) if method == '__call__' else None
        r = f(*ins) if f is not None else getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            store_all(out[0], r)
            return out[0]
        if isinstance(r, _np.ndarray) and r.ndim == 2:
            return _plain(r).view(SymMatrix)
        return wrap(r)

    __array_function__ = SymArray.__array_function__

    def __mul__(self, o):
        if isinstance(o, (_np.ndarray, list, tuple)) and not (isinstance(o, _np.ndarray) and o.ndim == 0):
            r = obj_dot(_plain(self), _plain(SymMatrix(o)))
            return r.view(SymMatrix)
        return _np.multiply(_plain(self), o).view(SymMatrix)

    def __rmul__(self, o):
        if isinstance(o, (_np.ndarray, list, tuple)):
            return SymMatrix(o) * self
        return _np.multiply(_plain(self), o).view(SymMatrix)

    def __matmul__(self, o):
        return self * o

    def __bool__(self):
        return SymArray.__bool__(self)

    def _one(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return _np.asarray(self).view(_np.ndarray).reshape(-1)[0]

    def __float__(self):
        return float(self._one())


def _index(key):
    if isinstance(key, SymNum):
        return key.__index__()
    if isinstance(key, slice):
        f = lambda v: v.__index__() if isinstance(v, SymNum) else v
        return slice(f(key.start), f(key.stop), f(key.step))
    if isinstance(key, tuple):
        return tuple(_index(k) for k in key)
    if isinstance(key, SymArray):
        if key.dtype == object:
            return boolmask(key)
        return key.view(_np.ndarray)
    return key


_BOOLARITH = {'multiply': 'logical_and', 'add': 'logical_or', 'bitwise_and': 'logical_and',
              'bitwise_or': 'logical_or'}


def _allbool(x):
    if isinstance(x, _np.ndarray):
        if x.dtype == bool:
            return True
        if x.dtype != object or not x.size:
            return False
        return builtins.all(isinstance(v, (bool, _np.bool_, SymBool)) for v in x.reshape(-1))
    return isinstance(x, (bool, _np.bool_, SymBool))


def boolmask(k):
    k = _plain(k)
    flat = k.reshape(-1)
    if builtins.all(isinstance(v, (bool, _np.bool_, SymBool)) for v in flat):
        return _np.array([bool(v) for v in flat], dtype=bool).reshape(k.shape)
    return _np.array([v.__index__() for v in flat], dtype=int).reshape(k.shape)


def _plain(x):
    if isinstance(x, (SymArray, SymMatrix)):
        return _np.ndarray.view(x, _np.ndarray)
    return x


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(v) for v in r)
    if isinstance(r, _np.ndarray) and not isinstance(r, (SymArray, SymMatrix)):
        if r.ndim == 0:
            return r.item() if r.dtype == object else r[()]
        if r.dtype == object:
            return r.view(SymArray)
    return r


def to_obj(x):
    """plain object ndarray of x"""
    if isinstance(x, _np.ndarray):
        p = _plain(x) if isinstance(x, (SymArray, SymMatrix)) else _np.asarray(x)
        return p if p.dtype == object else _obj_from(p)
    if isinstance(x, (list, tuple)):
        parts = [to_obj(v) if isinstance(v, (list, tuple, _np.ndarray)) else v for v in x]
        if parts and isinstance(parts[0], _np.ndarray):
            shp = parts[0].shape
            for q in parts:
                if not isinstance(q, _np.ndarray) or q.shape != shp:
                    raise ValueError('setting an array element with a sequence. The requested array has an '
                                     'inhomogeneous shape')
            out = _np.empty((len(parts),) + shp, dtype=object)
            for i, q in enumerate(parts):
                out[i] = q
            return out
        out = _np.empty((len(parts),), dtype=object)
        for i, q in enumerate(parts):
            out[i] = q
        return out
    if hasattr(x, '__iter__') and not isinstance(x, (str, bytes, dict)):
        return to_obj(list(x))
    out = _np.empty((), dtype=object)
    out[()] = x
    return out


def _obj_from(p):
    out = _np.empty(p.shape, dtype=object)
    of = out.reshape(-1) if p.ndim else out
    if p.ndim == 0:
        out[()] = p.item()
        return out
    flat = p.reshape(-1)
    for i in range(flat.size):
        v = flat[i]
        of[i] = v.item() if hasattr(v, 'item') else v
    return of.reshape(p.shape)


def coerce_all(v, k):
    if isinstance(v, _np.ndarray):
        if v.dtype == object:
            return amap(lambda x: coerce_kind(x, k), v)
        return v if k != 'i' else v.astype(int)
    if isinstance(v, (list, tuple)):
        return [coerce_all(x, k) for x in v]
    return coerce_kind(v, k)


def store_all(tgt, r):
    if isinstance(tgt, SymArray):
        tgt[...] = r
    else:
        tgt[...] = _plain(r)


def amap(f, x, *more):
    """elementwise f over object arrays, broadcasting"""
    if not isinstance(x, _np.ndarray) and not builtins.any(isinstance(m, _np.ndarray) for m in more):
        if isinstance(x, (list, tuple)):
            x = to_obj(x)
        else:
            return f(x, *more)
    arrs = _np.broadcast_arrays(*[to_obj(v) for v in (x,) + more])
    out = _np.empty(arrs[0].shape, dtype=object)
    if out.ndim == 0:
        return f(*[a[()] for a in arrs])
    of = out.reshape(-1)
    fl = [a.reshape(-1) for a in arrs]
    for i in range(of.size):
        of[i] = f(*[_item(a[i]) for a in fl])
    out = of.reshape(out.shape)
    if isinstance(x, SymMatrix):
        return out.view(SymMatrix)
    return out.view(SymArray)


def _item(v):
    if isinstance(v, (_np.generic,)):
        return v.item()
    return v


def obj_dot(a, b):
    return _np.dot(_obj_from(a) if a.dtype != object else a, _obj_from(b) if b.dtype != object else b)


# -- scalar functions ----------------------------------------------------
def num(x):
    if isinstance(x, SymBool):
        return x._num()
    return x


def mk1(sym, real, npdom=None):
    def f(x):
        if isinstance(x, (_np.ndarray, list, tuple)):
            if has_sym(x):
                return amap(f, x)
            return real(x)
        x = num(x)
        if isinstance(x, SymNum):
            old = core.ENGINE.np_domain_nan
            core.ENGINE.np_domain_nan = True
            try:
                return sym(x)
            finally:
                core.ENGINE.np_domain_nan = old
        if isinstance(x, Fraction):
            x = float(x)
        if x is None:
            return real(x)
        return real(x)
    f.__name__ = getattr(real, '__name__', 'f')
    return f


def mk2(sym, real):
    def f(x, y, *a, **k):
        k.pop('dtype', None)
        out = k.pop('out', None)
        if has_sym(x) or has_sym(y):
            if isinstance(x, (_np.ndarray, list, tuple)) or isinstance(y, (_np.ndarray, list, tuple)):
                r = amap(lambda p, q: f(p, q), x, y)
            else:
                r = sym(num(x), num(y))
            if out is not None:
                store_all(out[0] if isinstance(out, tuple) else out, r)
                return out
            return r
        if out is not None:
            k['out'] = out
        return real(x, y, *a, **k)
    f.__name__ = getattr(real, '__name__', 'f')
    return f


def conj1(v):
    if isinstance(v, SymNum):
        return v.conjugate()
    return v.conjugate() if hasattr(v, 'conjugate') else v


def np_real1(v):
    return v.real if hasattr(v, 'real') else v


def np_imag1(v):
    return v.imag if hasattr(v, 'imag') else 0


def _isfin(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    return bool(_np.isfinite(x))


def _isnan(x):
    if isinstance(x, (SymNum, SymBool)):
        return False
    return bool(_np.isnan(x))


def _isinf(x):
    if isinstance(x, (SymNum, SymBool)):
        return False
    return bool(_np.isinf(x))


def _min2(a, b):
    return b if b < a else a


def _max2(a, b):
    return b if b > a else a


def _mod(a, b):
    return lift(a) % b


def _hypot(a, b):
    return num_sqrt(lift(a) * a + lift(b) * b)


def _sign(x):
    if x > 0:
        return 1.0
    if x < 0:
        return -1.0
    return 0.0


def _angle1(x):
    x = lift(x)
    re, im = p_parts(x.p)
    return num_atan2(SymNum(im), SymNum(re))


sqrt = mk1(num_sqrt, _np.sqrt)
cos = mk1(num_cos, _np.cos)
sin = mk1(num_sin, _np.sin)
tan = mk1(lambda x: num_sin(x) / num_cos(x), _np.tan)
exp = mk1(num_exp, _np.exp)
arccos = mk1(num_acos, _np.arccos)
arcsin = mk1(num_asin, _np.arcsin)
arctan = mk1(lambda x: num_atan2(x, const(1)), _np.arctan)
log10 = mk1(num_log10, _np.log10)
log = mk1(lambda x: num_log(x), _np.log)
log2 = mk1(lambda x: num_log(x, 2), _np.log2)
rint = mk1(lambda x: SymNum(num_rint(x).p), _np.rint)
floor = mk1(lambda x: SymNum(num_floor(x).p), _np.floor)
ceil = mk1(lambda x: SymNum((-num_floor(-x)).p), _np.ceil)
trunc = mk1(lambda x: SymNum(num_trunc(x).p), _np.trunc)
absolute = mk1(num_abs, _np.absolute)
square = mk1(lambda x: x * x, _np.square)
radians = mk1(lambda x: x * Fraction(_math.pi) / 180, _np.radians)
degrees = mk1(lambda x: x * 180 / Fraction(_math.pi), _np.degrees)
conjugate = mk1(conj1, _np.conjugate)
isfinite = mk1(_isfin, _np.isfinite)
isnan = mk1(_isnan, _np.isnan)
isinf = mk1(_isinf, _np.isinf)
sign = mk1(_sign, _np.sign)
angle = mk1(_angle1, _np.angle)
negative = mk1(lambda x: -x, _np.negative)
arctan2 = mk2(lambda y, x: num_atan2(lift(y), lift(x)), _np.arctan2)
maximum = mk2(_max2, _np.maximum)
minimum = mk2(_min2, _np.minimum)
mod = mk2(_mod, _np.mod)
power = mk2(lambda a, b: lift(a) ** b, _np.power)
hypot = mk2(_hypot, _np.hypot)
true_divide = mk2(lambda a, b: num_div(lift(a), lift(b), b) if lift(a) is not None and lift(b) is not None
                  else a / b, _np.true_divide)
floor_divide = mk2(lambda a, b: lift(a) // b, _np.floor_divide)


def _cmpop(op, real):
    def s(a, b):
        r = op(a, b)
        return r
    g = mk2(s, real)

    def f(a, b, **k):
        r = g(a, b)
        if isinstance(r, SymArray):
            r._vk = 'b'
        return r
    f.__name__ = real.__name__
    return f


less = _cmpop(lambda a, b: a < b, _np.less)
less_equal = _cmpop(lambda a, b: a <= b, _np.less_equal)
greater = _cmpop(lambda a, b: a > b, _np.greater)
greater_equal = _cmpop(lambda a, b: a >= b, _np.greater_equal)
equal = _cmpop(lambda a, b: a == b, _np.equal)
not_equal = _cmpop(lambda a, b: a != b, _np.not_equal)


def tb(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


logical_and = _cmpop(lambda a, b: b_and(tb(a), tb(b)), _np.logical_and)
logical_or = _cmpop(lambda a, b: b_or(tb(a), tb(b)), _np.logical_or)


def _lnot(x):
    return b_not(tb(x))


def logical_not(x):
    if has_sym(x):
        return amap(_lnot, x)
    return _np.logical_not(x)


UFUNCS = {
    'sqrt': sqrt, 'cos': cos, 'sin': sin, 'tan': tan, 'exp': exp, 'arccos': arccos, 'arcsin': arcsin,
    'arctan': arctan, 'log10': log10, 'log': log, 'log2': log2, 'rint': rint, 'floor': floor, 'ceil': ceil,
    'trunc': trunc, 'absolute': absolute, 'fabs': absolute, 'square': square, 'radians': radians,
    'deg2rad': radians, 'degrees': degrees, 'rad2deg': degrees, 'conjugate': conjugate, 'isfinite': isfinite,
    'isnan': isnan, 'isinf': isinf, 'sign': sign, 'arctan2': arctan2, 'maximum': maximum, 'minimum': minimum,
    'remainder': mod, 'power': power, 'hypot': hypot, 'less': less, 'less_equal': less_equal,
    'greater': greater, 'greater_equal': greater_equal, 'equal': equal, 'not_equal': not_equal,
    'logical_and': logical_and, 'logical_or': logical_or, 'logical_not': logical_not,
    'bitwise_and': logical_and, 'bitwise_or': logical_or, 'invert': logical_not,
    'true_divide': true_divide, 'divide': true_divide,
}


def _red_add(a, axis=0, **k):
    keep = k.get('keepdims', False)
    return reduce_axis(a, axis, sum_list, keep)


REDUCERS = {
    ('maximum', 'reduce'): lambda a, axis=0, **k: reduce_axis(a, axis, max_list),
    ('minimum', 'reduce'): lambda a, axis=0, **k: reduce_axis(a, axis, min_list),
    ('logical_and', 'reduce'): lambda a, axis=0, **k: reduce_axis(a, axis, lambda v: builtins.all(bool(x) for x in v)),
    ('logical_or', 'reduce'): lambda a, axis=0, **k: reduce_axis(a, axis, lambda v: builtins.any(bool(x) for x in v)),
    ('add', 'reduce'): _red_add,
}


# -- reductions -----------------------------------------------------------
def reduce_axis(a, axis, f, keepdims=False):
    a = to_obj(a)
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        elif len(axis) == 1:
            axis = axis[0]
        else:
            raise Unsupported('multi-axis reduction')
    if axis is None or (a.ndim == 1 and axis in (0, -1)):
        r = f([_item(v) for v in a.reshape(-1)])
        if keepdims:
            o = _np.empty((1,) * a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return o.view(SymArray)
        return r
    m = _np.moveaxis(a, axis, -1)
    shp = m.shape[:-1]
    fl = m.reshape(-1, m.shape[-1])
    out = _np.empty((fl.shape[0],), dtype=object)
    for i in range(fl.shape[0]):
        out[i] = f([_item(v) for v in fl[i]])
    out = out.reshape(shp)
    if keepdims:
        out = _np.expand_dims(out, axis)
    return out.view(SymArray)


def sum_list(v):
    r = 0
    for x in v:
        r = num(x) + r
    return r


def _merged(v):
    e = core.ENGINE
    return (e is not None and getattr(e, 'merge_extremes', False) and len(v) > 1 and
            builtins.all(isinstance(x, SymNum) and not x.is_complex for x in v))


def _thin(v, big):
    """the same extreme from fewer comparisons: known numbers are compared among themselves first"""
    if len(v) < 32:
        return v
    known, rest = None, []
    for x in v:
        if _isnan(x):
            return [x]
        if isinstance(x, SymNum):
            if not x.is_const or x.is_complex:
                if not rest or rest[-1] is not x:
                    rest.append(x)
                continue
        elif not isinstance(x, (int, float, Fraction)):
            return v
        if known is None or ((x > known) if big else (x < known)):
            known = x
    return rest if known is None else [known] + rest


def max_list(v):
    v = _thin(v, True)
    if not v:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    if _merged(v):
        return num_extreme(v, True)
    r = v[0]
    for x in v[1:]:
        if _isnan(r):
            return r
        if _isnan(x):
            return x
        if x > r:
            r = x
    return r


def min_list(v):
    v = _thin(v, False)
    if not v:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    if _merged(v):
        return num_extreme(v, False)
    r = v[0]
    for x in v[1:]:
        if _isnan(r):
            return r
        if _isnan(x):
            return x
        if x < r:
            r = x
    return r


def argmin_list(v):
    if not v:
        raise ValueError('attempt to get argmin of an empty sequence')
    k = 0
    for i in range(1, len(v)):
        if v[i] < v[k]:
            k = i
    return k


def argmax_list(v):
    if not v:
        raise ValueError('attempt to get argmax of an empty sequence')
    k = 0
    for i in range(1, len(v)):
        if v[i] > v[k]:
            k = i
    return k


def R(name, f, methodful=True):
    """override for reductions: only when symbolic"""
    real = getattr(_np, name)

    def g(a, *args, **k):
        if has_sym(a) or builtins.any(has_sym(x) for x in args):
            return f(a, *args, **{kk: v for kk, v in k.items() if kk not in ('dtype', 'out')})
        return wrap(real(a, *args, **k))
    g.__name__ = name
    return g


def np_mean(a, axis=None, **k):
    o = to_obj(a)
    n = o.size if axis is None else o.shape[axis]
    if n == 0:
        return float('nan')
    s = reduce_axis(o, axis, sum_list, k.get('keepdims', False))
    if isinstance(s, (int, float)):
        return s / n
    return s / n


def np_var(a, axis=None, ddof=0, **k):
    o = to_obj(a)
    if axis is not None and o.ndim > 1:
        raise Unsupported('var axis')
    m = np_mean(o)
    d = [(lift(v) - m) for v in o.reshape(-1)]
    return sum_list([num_abs(x) * num_abs(x) if p_is_complex(x.p) else x * x for x in d]) / (len(d) - ddof)


def np_std(a, axis=None, ddof=0, **k):
    return sqrt(np_var(a, axis, ddof))


def np_round(a, decimals=0, out=None):
    if not has_sym(a):
        return _np.round(a, decimals)
    if decimals:
        k = 10 ** decimals
        return amap(lambda v: rint(v * k) / k, a)
    return rint(a)


def np_argsort(a, axis=-1, kind=None, order=None, **k):
    """stable insertion sort (numpy's order of equal elements is unspecified for
    the default kind; harnesses avoid relying on it)"""
    o = [_item(v) for v in to_obj(a).reshape(-1)]
    idx = []
    for i in range(len(o)):
        j = len(idx)
        while j > 0 and o[i] < o[idx[j - 1]]:
            j -= 1
        idx.insert(j, i)
    return _np.array(idx, dtype=int)


def np_sort(a, *args, **k):
    o = to_obj(a)
    if o.ndim != 1:
        raise Unsupported('nd sort')
    ix = np_argsort(o)
    return o[ix].view(SymArray)


def np_where(c, *xy):
    if not has_sym(c) and not builtins.any(has_sym(v) for v in xy):
        return _np.where(c, *xy)
    if not xy:
        return np_nonzero(c)
    x, y = xy
    return amap(lambda cc, a, b: a if bool(tb(cc)) else b, c, x, y)


def np_nonzero(a):
    if not has_sym(a):
        return _np.nonzero(a)
    return _np.nonzero(boolify(a))


def boolify(a):
    o = to_obj(a)
    out = _np.array([bool(tb(v)) for v in o.reshape(-1)], dtype=bool)
    return out.reshape(o.shape)


def np_argwhere(a):
    if has_sym(a):
        a = boolify(a)
    return _np.argwhere(a)


def np_count_nonzero(a, *k, **kw):
    if has_sym(a):
        a = boolify(a)
    return _np.count_nonzero(a, *k, **kw)


def np_clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get('a_min', lo)
    hi = k.get('a_max', hi)

    def f(v):
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        return v
    if has_sym(a) or has_sym(lo) or has_sym(hi):
        return amap(f, a)
    return _np.clip(a, lo, hi)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return _np.interp(x, xp, fp, left, right, period)
    if period is not None:
        raise Unsupported('interp period')
    xs = [_item(v) for v in to_obj(xp).reshape(-1)]
    fs = [_item(v) for v in to_obj(fp).reshape(-1)]

    def f(v):
        if v < xs[0]:
            return fs[0] if left is None else left
        if v > xs[-1]:
            return fs[-1] if right is None else right
        for i in range(len(xs) - 1):
            if v < xs[i + 1]:
                return fs[i] + (lift(v) - xs[i]) * (lift(fs[i + 1]) - fs[i]) / (lift(xs[i + 1]) - xs[i])
        return fs[-1]
    return amap(f, x)


def np_searchsorted(a, v, side='left', sorter=None):
    if not (has_sym(a) or has_sym(v)):
        return _np.searchsorted(a, v, side, sorter)
    xs = [_item(q) for q in to_obj(a).reshape(-1)]

    def f(t):
        n = 0
        for q in xs:
            if (q < t) if side == 'left' else (q <= t):
                n += 1
            else:
                break
        return n
    return amap(f, v) if isinstance(v, (_np.ndarray, list, tuple)) else f(v)


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return _np.isclose(a, b, rtol, atol, equal_nan)
    return amap(lambda x, y: num_abs(lift(x) - y) <= Fraction(atol) + Fraction(rtol) * num_abs(lift(y)), a, b)


def np_allclose(a, b, **k):
    r = np_isclose(a, b, **k)
    return builtins.all(bool(v) for v in to_obj(r).reshape(-1))


def np_array_equal(a, b, **k):
    if not (has_sym(a) or has_sym(b)):
        return _np.array_equal(a, b)
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    return builtins.all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def np_cumsum(a, axis=None, **k):
    o = to_obj(a)
    if o.ndim != 1:
        raise Unsupported('cumsum nd')
    out = []
    r = 0
    for v in o:
        r = v + r
        out.append(r)
    return to_obj(out).view(SymArray)


def np_median(a, axis=None, **k):
    s = list(np_sort(to_obj(a).reshape(-1)))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def np_diff(a, n=1, axis=-1):
    o = to_obj(a)
    if o.ndim != 1 or n != 1:
        return wrap(_np.diff(o, n, axis))
    return (o[1:] - o[:-1]).view(SymArray)


def np_dot(a, b, out=None):
    if has_sym(a) or has_sym(b):
        m = isinstance(a, SymMatrix) or isinstance(b, SymMatrix)
        fa, fb = to_obj(a), to_obj(b)
        r = _np.dot(fa, fb)
        if isinstance(r, _np.ndarray):
            return r.view(SymMatrix) if m and r.ndim == 2 else wrap(r)
        return r
    return _np.dot(a, b)


def np_vdot(a, b):
    fa, fb = to_obj(a).reshape(-1), to_obj(b).reshape(-1)
    return sum_list([conj1(x) * y for x, y in zip(fa, fb)])


def np_inner(a, b):
    return np_dot(a, b)


def np_cross(a, b, *args, **k):
    if has_sym(a) or has_sym(b):
        return wrap(_np.cross(to_obj(a), to_obj(b), *args, **k))
    return _np.cross(a, b, *args, **k)


def np_einsum(*a, **k):
    if builtins.any(has_sym(x) for x in a[1:]):
        return wrap(_np.einsum(a[0], *[to_obj(x) for x in a[1:]], **k))
    return _np.einsum(*a, **k)


# -- constructors ---------------------------------------------------------
def _shape(s):
    if isinstance(s, (SymNum,)):
        return (s.__index__(),)
    if isinstance(s, (list, tuple)):
        return tuple(v.__index__() if isinstance(v, SymNum) else int(v) for v in s)
    return (int(s),)


def _filled(shape, v, dtype):
    k = kind_of(dtype)
    a = _np.empty(_shape(shape), dtype=object)
    a.fill(v)
    a = a.view(SymArray)
    a._vk = k
    return a


def _native(dtype):
    """string / structured arrays stay native"""
    try:
        return _np.dtype(dtype).kind in 'SUVMm'
    except Exception:
        return False


def zeros(shape, dtype=float, order='C', **k):
    if _native(dtype):
        return _np.zeros(shape, dtype)
    kd = kind_of(dtype)
    return _filled(shape, 0.0 if kd in ('f', 'c') else (False if kd == 'b' else 0), dtype)


def ones(shape, dtype=float, order='C', **k):
    if _native(dtype):
        return _np.ones(shape, dtype)
    kd = kind_of(dtype)
    return _filled(shape, 1.0 if kd in ('f', 'c') else (True if kd == 'b' else 1), dtype)


def full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None and not is_sym(fill_value):
        dtype = _np.asarray(fill_value).dtype
    a = _filled(shape, 0, dtype)
    a[...] = fill_value
    return a


_POISON = [0]


def empty(shape, dtype=float, order='C', **k):
    """uninitialised memory: every element is an unconstrained fresh value"""
    if _native(dtype):
        return _np.empty(shape, dtype)
    kd = kind_of(dtype)
    if kd is None:
        return _np.empty(_shape(shape), dtype=object).view(SymArray)
    a = _np.empty(_shape(shape), dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        if kd == 'b':
            f[i] = False
        else:
            v = core.ENGINE.fresh('uninitialised', isint=(kd == 'i'))
            f[i] = v
    a = f.reshape(a.shape).view(SymArray)
    a._vk = kd
    return a


class _ArrayType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, _np.ndarray)

    def __call__(cls, shape, dtype=float, *a, **k):
        if a or k:
            return _np.ndarray(shape, dtype, *a, **k)
        return empty(shape, dtype)

    def __getattr__(cls, name):
        return getattr(_np.ndarray, name)


class ndarray(metaclass=_ArrayType):
    """np.ndarray as the code sees it: making one gives an array that can hold symbolic values"""


def zeros_like(a, dtype=None, **k):
    return zeros(_np.shape(a), dtype or getattr(a, '_vk', None) or (a.dtype if isinstance(a, _np.ndarray) and a.dtype != object else float))


def ones_like(a, dtype=None, **k):
    return ones(_np.shape(a), dtype or getattr(a, '_vk', None) or (a.dtype if isinstance(a, _np.ndarray) and a.dtype != object else float))


def empty_like(a, dtype=None, **k):
    return empty(_np.shape(a), dtype or getattr(a, '_vk', None) or (a.dtype if isinstance(a, _np.ndarray) and a.dtype != object else float))


def full_like(a, v, dtype=None, **k):
    return full(_np.shape(a), v, dtype)


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if dtype is not None and _native(dtype):
        return _np.array(x, dtype=dtype)
    if not has_sym(x):
        if isinstance(x, (list, tuple)) or isinstance(x, _np.ndarray):
            r = _np.array(x, dtype=None if dtype is None else _npdtype(dtype), copy=copy, ndmin=ndmin)
            if r.dtype.kind in 'fciub' and dtype is not object:
                kd = kind_of(dtype) or {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b'}[r.dtype.kind]
                o = _obj_from(r).view(SymArray)
                if kd == 'f':
                    o = amap(lambda v: coerce_kind(v, 'f'), o)
                o._vk = kd
                return o
            return r
        return _np.array(x, dtype=None if dtype is None else _npdtype(dtype))
    keep = getattr(x, '_vk', None)
    if isinstance(x, SymMatrix):
        x = _plain(x)
    o = to_obj(x)
    if copy:
        o = o.copy()
    while o.ndim < ndmin:
        o = o[_np.newaxis]
    o = o.view(SymArray)
    kd = kind_of(dtype)
    if kd is not None and kd != keep:
        o = amap(lambda v: coerce_kind(v, kd), o)
        if not isinstance(o, _np.ndarray):
            o = to_obj(o).view(SymArray)
    o._vk = kd or keep
    return o


def _npdtype(d):
    k = getattr(d, '_symkind', None)
    return {'f': float, 'c': complex, 'i': int, 'b': bool}.get(k, d)


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SymArray) and (kind_of(dtype) in (None, x._vk)):
        return x
    return array(x, dtype=dtype, copy=False)


def asmatrix(x, dtype=None):
    if isinstance(x, SymMatrix):
        return x
    return SymMatrix(x, dtype=dtype, copy=False)


def arange(*a, dtype=None, **k):
    a = [v.__index__() if isinstance(v, SymNum) and v.isint else v for v in a]
    if builtins.any(is_sym(v) for v in a):
        a = [float(v) if is_sym(v) else v for v in a]
    r = _np.arange(*a, **k)
    kd = kind_of(dtype) or ('i' if r.dtype.kind == 'i' else 'f')
    o = _obj_from(r).view(SymArray)
    if kd == 'f':
        o = amap(float, o) if o.size else o
    o._vk = kd
    return o


def linspace(a, b, num=50, endpoint=True, **k):
    if is_sym(a) or is_sym(b):
        n = num - 1 if endpoint else num
        return to_obj([lift(a) + (lift(b) - a) * Fraction(i, n) for i in range(num)]).view(SymArray)
    return array(_np.linspace(a, b, num, endpoint, **k))


def frombool(x):
    return x


def concat(arrs, axis=0, **k):
    arrs = list(arrs)
    if builtins.any(has_sym(x) for x in arrs):
        return _np.concatenate([to_obj(x) for x in arrs], axis=axis).view(SymArray)
    return _np.concatenate(arrs, axis=axis)


def _stackwrap(name):
    real = getattr(_np, name)

    def f(arrs, *a, **k):
        arrs = list(arrs)
        if builtins.any(has_sym(x) for x in arrs):
            return wrap(real([to_obj(x) for x in arrs], *a, **k))
        return real(arrs, *a, **k)
    f.__name__ = name
    return f


def passthru(name):
    """shape-only functions: run on the plain object array"""
    real = getattr(_np, name)

    def f(a, *args, **k):
        if has_sym(a):
            m = isinstance(a, SymMatrix)
            vk = getattr(a, '_vk', None)
            o = to_obj(a)
            r = real(o, *args, **k)
            if isinstance(r, _np.ndarray):
                if m and r.ndim == 2:
                    return r.view(SymMatrix)
                r = r.view(SymArray)
                r._vk = vk
                return r
            return wrap(r)
        return real(a, *args, **k)
    f.__name__ = name
    return f


def np_real(a):
    return amap(np_real1, a) if has_sym(a) else _np.real(a)


def np_imag(a):
    return amap(np_imag1, a) if has_sym(a) else _np.imag(a)


def np_any(a, axis=None, **k):
    if has_sym(a):
        return reduce_axis(a, axis, lambda v: builtins.any(bool(tb(x)) for x in v))
    return _np.any(a, axis=axis, **k)


def np_all(a, axis=None, **k):
    if has_sym(a):
        return reduce_axis(a, axis, lambda v: builtins.all(bool(tb(x)) for x in v))
    return _np.all(a, axis=axis, **k)


def np_nanmax(a, axis=None, **k):
    return reduce_axis(a, axis, lambda v: max_list([x for x in v if not _isnan(x)]))


def np_nanmin(a, axis=None, **k):
    return reduce_axis(a, axis, lambda v: min_list([x for x in v if not _isnan(x)]))


def np_nanmean(a, axis=None, **k):
    def f(v):
        w = [x for x in v if not _isnan(x)]
        return sum_list(w) / len(w) if w else float('nan')
    return reduce_axis(a, axis, f)


def np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return np_mean(a, axis)
    o, w = to_obj(a), to_obj(weights)
    if o.ndim == 1:
        return sum_list([x * y for x, y in zip(o, w)]) / sum_list(list(w))
    if axis == 0 and w.ndim == 1:
        s = sum_list(list(w))
        return reduce_axis(o, 0, lambda v: sum_list([x * y for x, y in zip(v, w)]) / s)
    raise Unsupported('average')


OVERRIDES = {
    'sum': lambda a, axis=None, **k: reduce_axis(a, axis, sum_list, k.get('keepdims', False)),
    'prod': lambda a, axis=None, **k: reduce_axis(a, axis, _prod_list),
    'mean': np_mean, 'std': np_std, 'var': np_var, 'average': np_average,
    'amax': lambda a, axis=None, **k: reduce_axis(a, axis, max_list, k.get('keepdims', False)),
    'amin': lambda a, axis=None, **k: reduce_axis(a, axis, min_list, k.get('keepdims', False)),
    'max': lambda a, axis=None, **k: reduce_axis(a, axis, max_list, k.get('keepdims', False)),
    'min': lambda a, axis=None, **k: reduce_axis(a, axis, min_list, k.get('keepdims', False)),
    'argmin': lambda a, axis=None, **k: reduce_axis(a, axis, argmin_list),
    'argmax': lambda a, axis=None, **k: reduce_axis(a, axis, argmax_list),
    'nanmax': np_nanmax, 'nanmin': np_nanmin, 'nanmean': np_nanmean,
    'argsort': np_argsort, 'sort': np_sort, 'where': np_where, 'nonzero': np_nonzero,
    'argwhere': np_argwhere, 'flatnonzero': lambda a: _np.flatnonzero(boolify(a)),
    'count_nonzero': np_count_nonzero, 'clip': np_clip, 'interp': np_interp,
    'searchsorted': np_searchsorted, 'isclose': np_isclose, 'allclose': np_allclose,
    'array_equal': np_array_equal, 'cumsum': np_cumsum, 'median': np_median, 'diff': np_diff,
    'dot': np_dot, 'vdot': np_vdot, 'inner': np_inner, 'cross': np_cross, 'einsum': np_einsum,
    'real': np_real, 'imag': np_imag, 'any': np_any, 'all': np_all, 'round': np_round, 'around': np_round,
    'round_': np_round, 'angle': angle, 'concatenate': concat, 'matmul': np_dot,
    'iscomplexobj': lambda a: builtins.any(isinstance(v, complex) or (isinstance(v, SymNum) and v.is_complex)
                                           for v in to_obj(a).reshape(-1)),
    'nan_to_num': lambda a, **k: amap(lambda v: 0.0 if _isnan(v) else v, a),
}


def _prod_list(v):
    r = 1
    for x in v:
        r = x * r
    return r


class _Mod(types.ModuleType):
    def __init__(self, name, d, base):
        super().__init__(name)
        self.__dict__.update(d)
        self.__dict__['_base'] = base

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self.__dict__['_base'], k)


def _symdispatch(name, f):
    real = getattr(_np, name)

    def g(*a, **k):
        if builtins.any(has_sym(x) for x in a) or builtins.any(has_sym(x) for x in k.values()):
            return f(*a, **{q: v for q, v in k.items() if q not in ('out', 'dtype')})
        return wrap(real(*a, **k))
    g.__name__ = name
    return g


# -- linalg -----------------------------------------------------------------
def norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return _np.linalg.norm(x, ord, axis, keepdims)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm ord')
    if axis is not None:
        return reduce_axis(x, axis, lambda v: norm(to_obj(v)), keepdims)
    v = [lift(num(e)) for e in to_obj(x).reshape(-1)]
    s = const(0)
    for e in v:
        s = s + (e * e.conjugate() if e.is_complex else e * e)
    n = num_sqrt(s)
    if not isinstance(n, SymNum):
        return n
    # Cauchy-Schwarz lemmas between the vectors normed so far on this path (true facts)
    eng = core.ENGINE
    if not builtins.any(e.is_complex for e in v) and not s.is_const:
        lst = eng.norms.setdefault(id(eng.path), [])
        for (w, m) in lst:
            if len(w) == len(v):
                d = const(0)
                for a, b in zip(v, w):
                    d = d + a * b
                eng.lemma(d <= n * m)
                eng.lemma(-d <= n * m)
        if len(lst) < 12:
            lst.append((v, n))
    return n


linalg = _Mod('numpy.linalg', {'norm': norm}, _np.linalg)


# -- fft ----------------------------------------------------------------
def _twiddle(k, n, sgn):
    """exp(sgn*2*pi*i*k/n), exact for n dividing 8"""
    return SymNum(core.cis(core.p_const(Fraction(_math.pi) * 2 * sgn * k / n)))


def _dft1(v, n, sgn):
    v = list(v[:n]) + [0] * (n - len(v))
    v = [lift(num(x)) for x in v]
    tw = [_twiddle(k, n, sgn) for k in range(n)]
    out = []
    for k in range(n):
        s = const(0)
        for j in range(n):
            s = s + v[j] * tw[(j * k) % n]
        out.append(s)
    return out


def _fftgen(sgn, real):
    def f(a, n=None, axis=-1, norm=None):
        if not has_sym(a):
            return real(a, n=n, axis=axis, norm=norm)
        o = to_obj(a)
        m = _np.moveaxis(o, axis, -1)
        n_ = m.shape[-1] if n is None else (n.__index__() if is_sym(n) else int(n))
        fl = m.reshape(-1, m.shape[-1])
        out = _np.empty((fl.shape[0], n_), dtype=object)
        if norm in (None, 'backward'):
            sc = Fraction(1, n_) if sgn > 0 else Fraction(1)
        elif norm == 'ortho':
            sc = const(1) / num_sqrt(const(n_))
        elif norm == 'forward':
            sc = Fraction(1, n_) if sgn < 0 else Fraction(1)
        else:
            raise ValueError('Invalid norm value %s; should be "backward", "ortho" or "forward".' % norm)
        for i in range(fl.shape[0]):
            r = _dft1([_item(x) for x in fl[i]], n_, sgn)
            for k in range(n_):
                out[i, k] = r[k] * sc
        out = out.reshape(m.shape[:-1] + (n_,))
        out = _np.moveaxis(out, -1, axis).copy()
        r = out.view(SymArray)
        r._vk = 'c'
        return r
    f.__name__ = real.__name__
    return f


def _shiftgen(real):
    def f(x, axes=None):
        if has_sym(x):
            vk = getattr(x, '_vk', None)
            r = real(to_obj(x), axes=axes).view(SymArray)
            r._vk = vk
            return r
        return real(x, axes=axes)
    f.__name__ = real.__name__
    return f


fft = _Mod('numpy.fft', {
    'fft': _fftgen(-1, _np.fft.fft), 'ifft': _fftgen(1, _np.fft.ifft),
    'fftshift': _shiftgen(_np.fft.fftshift), 'ifftshift': _shiftgen(_np.fft.ifftshift)}, _np.fft)


def _errstate(*a, **k):
    return _np.errstate(*a, **k)


class _KindType(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real) or (isinstance(o, SymNum) and cls._accept(o))

    def __call__(cls, *a, **k):
        if len(a) == 1 and is_sym(a[0]):
            return coerce_kind(num(a[0]), cls._symkind)
        if len(a) == 1 and isinstance(a[0], (SymArray, SymMatrix)):
            if a[0].size == 1:
                return coerce_kind(num(a[0]._one()), cls._symkind)
            return a[0].astype(cls)
        r = cls._real(*a, **k)
        return r

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, k):
        return getattr(cls._real, k)

    def __subclasscheck__(cls, o):
        return o is cls or issubclass(o, cls._real)


def kindtype(name, real, symkind, accept):
    t = _KindType(name, (), {'_real': real, '_symkind': symkind, '_accept': staticmethod(accept)})
    t.__module__ = getattr(real, '__module__', 'builtins')
    return t


SFloat = kindtype('float', float, 'f', lambda o: not o.isint and not o.is_complex)
SInt = kindtype('int', int, 'i', lambda o: o.isint)
SComplex = kindtype('complex', complex, 'c', lambda o: True)

np_shim_dict = dict(UFUNCS)
np_shim_dict.update({k: _symdispatch(k, v) for k, v in OVERRIDES.items()})
np_shim_dict.update({
    'abs': absolute, 'conj': conjugate, 'mod': mod, 'fmod': mod, 'deg2rad': radians, 'rad2deg': degrees,
    'arccos': arccos, 'acos': arccos, 'zeros': zeros, 'ones': ones, 'full': full, 'empty': empty, 'ndarray': ndarray,
    'zeros_like': zeros_like, 'ones_like': ones_like, 'empty_like': empty_like, 'full_like': full_like,
    'array': array, 'asarray': asarray, 'asanyarray': asarray, 'ascontiguousarray': asarray,
    'matrix': SymMatrix, 'asmatrix': asmatrix, 'mat': asmatrix, 'arange': arange, 'linspace': linspace,
    'linalg': linalg, 'fft': fft, 'angle': angle, 'negative': negative, 'floor_divide': floor_divide,
    'concatenate': concat,
})
for _n in ('ravel', 'reshape', 'transpose', 'squeeze', 'flipud', 'fliplr', 'flip', 'roll', 'tile', 'repeat',
           'expand_dims', 'atleast_1d', 'atleast_2d', 'rot90', 'moveaxis', 'swapaxes', 'pad', 'broadcast_to',
           'delete', 'take', 'diag', 'copy'):
    np_shim_dict[_n] = passthru(_n)
for _n in ('vstack', 'hstack', 'stack', 'column_stack', 'dstack'):
    np_shim_dict[_n] = _stackwrap(_n)

numpy_shim = _Mod('numpy', np_shim_dict, _np)
numpy_shim.__path__ = []


# -- math ---------------------------------------------------------------
def m1(sym, real):
    def f(x):
        if isinstance(x, (SymArray, SymMatrix)):
            x = x._one()
        x = num(x)
        if isinstance(x, SymNum):
            return sym(x)
        return real(x)
    f.__name__ = real.__name__
    return f


def _mfloor(x):
    return num_floor(x)


def math_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        d = num_abs(lift(a) - b)
        ma, mb = num_abs(lift(a)), num_abs(lift(b))
        return b_or(a == b, d <= Fraction(abs_tol), d <= ma * Fraction(rel_tol), d <= mb * Fraction(rel_tol))
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def math_pow(a, b):
    if is_sym(a) or is_sym(b):
        return lift(a) ** b
    return _math.pow(a, b)


def math_hypot(*a):
    if builtins.any(is_sym(v) for v in a):
        return norm(list(a))
    return _math.hypot(*a)


def math_atan2(y, x):
    if is_sym(y) or is_sym(x):
        return num_atan2(lift(y), lift(x))
    return _math.atan2(y, x)


def math_log(x, base=None):
    if is_sym(x):
        r = num_log(x)
        return r if base is None else r / _math.log(base)
    return _math.log(x) if base is None else _math.log(x, base)


def math_fmod(a, b):
    if is_sym(a) or is_sym(b):
        a, b = lift(a), lift(b)
        return a - b * num_trunc(a / b)
    return _math.fmod(a, b)


math_shim = _Mod('math', {
    'sqrt': m1(num_sqrt, _math.sqrt), 'cos': m1(num_cos, _math.cos), 'sin': m1(num_sin, _math.sin),
    'tan': m1(lambda x: num_sin(x) / num_cos(x), _math.tan), 'acos': m1(num_acos, _math.acos),
    'asin': m1(num_asin, _math.asin), 'atan': m1(lambda x: num_atan2(x, const(1)), _math.atan),
    'atan2': math_atan2, 'exp': m1(num_exp, _math.exp), 'log10': m1(num_log10, _math.log10),
    'log': math_log, 'log2': m1(lambda x: num_log(x, 2), _math.log2),
    'radians': m1(lambda x: x * Fraction(_math.pi) / 180, _math.radians),
    'degrees': m1(lambda x: x * 180 / Fraction(_math.pi), _math.degrees),
    'floor': m1(_mfloor, _math.floor), 'ceil': m1(lambda x: -num_floor(-x), _math.ceil),
    'trunc': m1(num_trunc, _math.trunc), 'fabs': m1(num_abs, _math.fabs),
    'isclose': math_isclose, 'pow': math_pow, 'hypot': math_hypot, 'fmod': math_fmod,
    'isnan': _isnan, 'isfinite': _isfin, 'isinf': _isinf,
}, _math)


class _Cmath:
    pass


cmath_shim = _Mod('cmath', {
    'exp': m1(num_exp, __import__('cmath').exp), 'phase': lambda z: _angle1(z) if is_sym(z) else __import__('cmath').phase(z),
    'sqrt': m1(num_sqrt, __import__('cmath').sqrt),
    'rect': lambda r, t: lift(r) * SymNum(core.cis(lift(t).p)) if is_sym(r) or is_sym(t) else __import__('cmath').rect(r, t),
}, __import__('cmath'))


# -- numexpr ---------------------------------------------------------------
def ne_evaluate(ex, local_dict=None, global_dict=None, **k):
    fr = sys._getframe(1)
    loc = dict(fr.f_globals)
    loc.update(fr.f_locals)
    if local_dict is not None:
        loc = dict(local_dict)
        loc.update(global_dict or {})
    env = {n: np_shim_dict[n] for n in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'log', 'log10', 'arccos', 'arcsin',
                                        'arctan', 'arctan2', 'conj', 'real', 'imag', 'where', 'abs', 'floor', 'ceil')}
    env['complex'] = lambda a, b: a + b * 1j
    loc2 = {}
    for n, v in loc.items():
        if isinstance(v, (_np.ndarray, int, float, complex, SymNum, SymBool, list, tuple)):
            loc2[n] = array(v) if isinstance(v, (list, tuple)) else v
    env.update(loc2)
    out = k.get('out')
    r = builtins.eval(ex, {'__builtins__': {}}, env)
    if out is not None:
        out[...] = r
        return out
    return r


numexpr_shim = types.ModuleType('numexpr')
numexpr_shim.evaluate = ne_evaluate
numexpr_shim.set_num_threads = lambda n: n

# -- scipy -------------------------------------------------------------------
scipy_optimize = types.ModuleType('scipy.optimize')


class OptimizeWarning(UserWarning):
    pass


class _CurveFit:
    """nondeterministic stand-in for scipy's curve_fit: any finite parameters"""
    hook = None


def curve_fit(f, x, y, *a, **k):
    h = _CurveFit.hook
    if h is not None:
        return h(f, x, y)
    raise Unsupported('curve_fit without stub')


scipy_optimize.curve_fit = curve_fit
scipy_optimize.OptimizeWarning = OptimizeWarning
scipy_stats = types.ModuleType('scipy.stats')
scipy_fftpack = fft
scipy_shim = _Mod('scipy', dict(np_shim_dict, optimize=scipy_optimize, fft=fft, fftpack=fft, linalg=linalg,
                                stats=scipy_stats, pi=_math.pi), _np)
scipy_shim.__path__ = []


class OptionalMod:
    pass


# ----------------------------------------------------------------------
SHIMS = {
    'numpy': numpy_shim, 'numpy.linalg': linalg, 'numpy.fft': fft, 'math': math_shim, 'cmath': cmath_shim,
    'numexpr': numexpr_shim, 'scipy': scipy_shim, 'scipy.optimize': scipy_optimize, 'scipy.fftpack': fft,
    'scipy.fft': fft, 'scipy.linalg': linalg, 'scipy.stats': scipy_stats,
}


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        m = SHIMS.get(name)
        if m is not None:
            if fromlist or '.' not in name:
                return m
            return SHIMS.get(name.split('.')[0]) or builtins.__import__(name.split('.')[0])
    return builtins.__import__(name, globals, locals, fromlist, level)


def s_abs(x):
    return x.__abs__() if is_sym(x) else builtins.abs(x)


def s_round(x, nd=None):
    if isinstance(x, SymNum):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def s_pow(a, b, m=None):
    if is_sym(a) or is_sym(b):
        return lift(a) ** b
    return builtins.pow(a, b) if m is None else builtins.pow(a, b, m)


def s_range(*a):
    return builtins.range(*[v.__index__() if isinstance(v, SymNum) else v for v in a])


def s_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return lift(a) // b, lift(a) % b
    return builtins.divmod(a, b)


SILENT = [True]


def s_print(*a, **k):
    """to a file or a screen of the harness as it is; else nothing"""
    import sys
    f = k.get('file') or sys.stdout
    if f in (sys.__stdout__, sys.__stderr__) and SILENT[0]:
        return
    if getattr(f, 'verif', False) and len(a) == 1 and isinstance(a[0], str):
        f.write(a[0])
        f.write(k.get('end', '\n'))
        return
    builtins.print(*a, **k)


def s_sum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


def s_isinstance(o, t):
    if isinstance(o, SymNum):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if q is float or q is _np.float64 or q is _np.floating:
                if not o.isint and not o.is_complex:
                    return True
            elif q is int or q is _np.integer:
                if o.isint:
                    return True
            elif q is complex or q is _np.complexfloating:
                if o.is_complex:
                    return True
            elif isinstance(o, q):
                return True
        return False
    return builtins.isinstance(o, t)


def s_open(*a, **k):
    return builtins.open(*a, **k)          # looked up late: harnesses may stand in for it


def s_input(*a):
    return builtins.input(*a)


BUILTIN_OVERRIDES = {
    'open': s_open, 'input': s_input,
    'abs': s_abs, 'round': s_round, 'pow': s_pow, 'range': s_range, 'divmod': s_divmod, 'print': s_print,
    'float': SFloat, 'int': SInt, 'complex': SComplex, '__import__': s_import, 'sum': s_sum,
    'isinstance': s_isinstance,
}


class SymLoader(importlib.machinery.SourceFileLoader):
    extra = {}

    def exec_module(self, module):
        b = dict(vars(builtins))
        b.update(BUILTIN_OVERRIDES)
        b.update(SymLoader.extra)
        module.__dict__['__builtins__'] = b
        code = self.get_code(module.__name__)
        if code is None:
            raise ImportError(module.__name__)
        FILES.add(self.path)
        exec(code, module.__dict__)

    def get_code(self, fullname):
        with open(self.path, 'rb') as f:
            return compile(f.read(), self.path, 'exec', dont_inherit=True)


FILES = set()


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'dedop' and not name.startswith('dedop.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            if os.path.isfile(init):
                return importlib.util.spec_from_file_location(
                    name, init, loader=SymLoader(name, init), submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=SymLoader(name, f))
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, SymFinder())


# functions of dedop entered while running symbolically
ENTERED = {}


def start_monitor():
    mon = sys.monitoring
    tid = mon.PROFILER_ID
    mon.use_tool_id(tid, 'symx')

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/dedop'):
            k = '%s:%s' % (os.path.relpath(fn, REPO), code.co_qualname)
            ENTERED[k] = ENTERED.get(k, 0) + 1
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)
