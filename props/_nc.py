"""an in-memory stand-in for netCDF4.Dataset: named variables over numpy(-like) arrays, no masking, no scaling"""


import netCDF4 as _real

from symx.harness import HarnessGap


def _missing(cls, k):
    """something the real class has but the stand-in does not is a gap, not the error of the code"""
    if hasattr(getattr(_real, cls, None), k):
        raise HarnessGap('netCDF4.%s.%s' % (cls, k))
    raise AttributeError(k)


class Dim:
    def __init__(self, name, size, unlimited=False):
        self.name, self.size, self._u = name, size, unlimited

    def __len__(self):
        return self.size

    def isunlimited(self):
        return self._u


class Var:
    """reading: slices of the array given. writing: a log of (key, value)"""

    def __init__(self, name, data=None, dims=(), dtype=None, sizes=None, **kw):
        self.name, self._data, self.dimensions, self.dtype = name, data, dims, dtype
        self._attrs, self._opts, self.writes, self._cells = {}, kw, [], {}
        self._sizes = sizes

    @property
    def shape(self):
        if self._data is None:
            n = 1 + max([p[0] for p in self._cells if p] or [-1])
            return tuple(s or n for s in self._sizes) if self._sizes else tuple(0 for _ in self.dimensions)
        return self._data.shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for k in self.shape:
            n *= k
        return n

    def __len__(self):
        return self.shape[0]

    def set_auto_mask(self, v):
        pass

    def set_auto_scale(self, v):
        pass

    def set_auto_maskandscale(self, v):
        pass

    def __getitem__(self, k):
        r = self._data[k]
        return r.copy() if hasattr(r, 'copy') else r

    def __setitem__(self, k, v):
        self.writes.append((k, v))
        k = k if isinstance(k, tuple) else (k,)
        k = tuple(x for x in k if x is not Ellipsis)
        if not all(isinstance(x, (int, slice)) or hasattr(x, '__index__') for x in k):
            raise HarnessGap('write with key %r' % (k,))

        def put(pos, ks, val, depth):
            if depth == len(self.dimensions):
                self._cells[pos] = val
                return
            x = ks[0] if ks else slice(None)
            if isinstance(x, slice):
                size = self._sizes[depth] if self._sizes else 0
                if x.step not in (None, 1) or (x.start or 0) < 0 or (not size and (x.stop or 0) < 0):
                    raise HarnessGap('write with key %r' % (k,))
                lo, hi = (x.start or 0, x.stop) if not size else x.indices(size)[:2]
                if not hasattr(val, '__len__'):
                    if hi is None:
                        raise HarnessGap('write of one value with key %r' % (k,))
                    val = [val] * max(hi - lo, 0)
                n = len(val)
                if hi is not None and hi - lo != n:
                    raise ValueError('cannot put %d values into %d places' % (n, hi - lo))
                for i in range(n):
                    put(pos + (lo + i,), ks[1:], val[i], depth + 1)
            else:
                put(pos + (int(x),), ks[1:], val, depth + 1)
        put((), k, v, 0)

    def record(self, i):
        """{position in the record: value}"""
        return {p[1:]: v for p, v in self._cells.items() if p[0] == i}

    def setncattr(self, k, v):
        self._attrs[k] = v

    def setncatts(self, d):
        self._attrs.update(d)

    def getncattr(self, k):
        return self._attrs[k]

    def ncattrs(self):
        return list(self._attrs)

    def __setattr__(self, k, v):
        if k.startswith('_') or k in ('name', 'dimensions', 'dtype', 'writes'):
            object.__setattr__(self, k, v)
        else:
            self._attrs[k] = v

    def __getattr__(self, k):
        if k.startswith('__') or k == '_attrs':
            raise AttributeError(k)
        try:
            return self._attrs[k]
        except KeyError:
            pass
        return _missing('Variable', k)


class Dataset:
    def __init__(self, path='mem', mode='r', **kw):
        self.path, self.mode, self.closed = path, mode, 0
        self.variables, self.dimensions, self._attrs, self.log = {}, {}, {}, []

    def filepath(self):
        return self.path

    def __getitem__(self, k):
        return self.variables[k]

    def createDimension(self, name, size=None):
        self.dimensions[name] = Dim(name, size or 0, not size)
        return self.dimensions[name]

    def createVariable(self, name, datatype=None, dimensions=(), *a, **kw):
        self.variables[name] = Var(name, None, tuple(dimensions), datatype,
                                   tuple(self.dimensions[d].size for d in dimensions), **kw)
        return self.variables[name]

    def _live(self):
        if self.closed:
            raise RuntimeError('NetCDF: Not a valid ID')
        return self._attrs

    # the real one offers its attributes this way
    __dict__ = property(lambda self: dict(self._live()))

    def ncattrs(self):
        return list(self._live())

    def getncattr(self, k):
        return self._live()[k]

    def setncattr(self, k, v):
        self._attrs[k] = v

    def setncatts(self, d):
        self._attrs.update(d)

    def __setattr__(self, k, v):
        if k.startswith('_') or k in ('path', 'mode', 'closed', 'variables', 'dimensions', 'log'):
            object.__setattr__(self, k, v)
        else:
            self._attrs[k] = v

    def __getattr__(self, k):
        if k.startswith('__') or k == '_attrs':
            raise AttributeError(k)
        try:
            return self._attrs[k]
        except KeyError:
            pass
        return _missing('Dataset', k)

    def isopen(self):
        return not self.closed

    def sync(self):
        pass

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install(H, make):
    """every netCDF4.Dataset(path, mode) the code opens becomes make(path, mode)"""
    opened = []

    def open_(path, mode='r', *a, **kw):
        d = make(str(path), mode)
        opened.append(d)
        return d
    nc = H.imp('netCDF4')
    H.imp('dedop.proc.sar')
    H.rebind(nc.Dataset, open_)
    H.patch(nc, 'Dataset', open_)
    return opened
