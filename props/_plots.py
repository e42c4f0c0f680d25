"""recording stand-ins for the plotting libraries (their versions here do not fit the code any more)"""
import sys
import types

NAMES = ('bokeh', 'bokeh.io', 'bokeh.model', 'bokeh.plotting', 'bokeh.util', 'bokeh.util.platform', 'bokeh.models',
         'bokeh.tile_providers', 'ipywidgets', 'matplotlib', 'matplotlib.pyplot', 'matplotlib.collections',
         'matplotlib.backends', 'matplotlib.backends.backend_pdf', 'mpl_toolkits', 'mpl_toolkits.mplot3d', 'pyproj',
         'IPython', 'IPython.display')
LOG = []


class Thing:
    """anything a plotting library hands out; what is done with it is logged as (path, args, kwargs)"""

    def __init__(self, path):
        self.__dict__['_path'] = path

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Thing(self._path + '.' + k)

    def __setattr__(self, k, v):
        LOG.append((self._path + '.' + k + '=', (v,), {}))

    def __call__(self, *a, **kw):
        LOG.append((self._path, a, kw))
        if self._path.endswith('subplots'):
            n, m = (list(a) + [1, 1])[:2]
            ax = [Thing('axes%d' % i) for i in range(n * m)]
            fig = Thing('figure')
            if n * m == 1:
                return fig, ax[0]
            if n == 1 or m == 1:
                return fig, tuple(ax)
            return fig, tuple(tuple(ax[i * m:i * m + m]) for i in range(n))
        return Thing(self._path + '()')

    def __bool__(self):
        return True


class Mod(types.ModuleType):
    __path__ = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Thing(self.__name__ + '.' + k)


def install():
    del LOG[:]
    for n in NAMES:
        if not isinstance(sys.modules.get(n), Mod):
            m = Mod(n)
            sys.modules[n] = m
            if '.' in n:
                a, b = n.rsplit('.', 1)
                setattr(sys.modules[a], b, m)
    return LOG


def calls(suffix):
    return [(p, a, kw) for p, a, kw in LOG if p == suffix or p.endswith('.' + suffix)]
