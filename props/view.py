"""N01: inspecting and comparing products"""
import os
from symx.harness import unit
from props import _nc, _plots
from props._fs import FS, ROOT
from props._plots import calls
from props.wspace import manager, ws

T, S = 2, 3


def values(H, names, lo, hi):
    return H.arr([values(H, n, lo, hi) if isinstance(n, list) else H.real(n, lo, hi) for n in names])


def product(H, tag, kind='l1b', t=T, s=S, extra=True):
    d = _nc.Dataset(tag)
    d.createDimension('time_%s_echo_sar_ku' % kind, t)
    d.createDimension('echo_sample_ind', s)
    d.createDimension('nothing', None)

    def var(name, data, dims, **attrs):
        d.variables[name] = v = _nc.Var(name, data, dims)
        v._attrs.update(attrs)
        return data
    td, sd = 'time_%s_echo_sar_ku' % kind, 'echo_sample_ind'
    sfx = '_%s_echo_sar_ku' % kind
    p = dict(
        time=var('time' + sfx, values(H, ['t%d %s' % (i, tag) for i in range(t)], 0, 1e9), (td,), units='seconds', calendar='g'),
        lat=var('lat' + sfx, values(H, ['lat%d %s' % (i, tag) for i in range(t)], -90, 90), (td,), units='degrees'),
        lon=var('lon' + sfx, values(H, ['lon%d %s' % (i, tag) for i in range(t)], -180, 180), (td,)),
        scale=var('scale_factor_ku' + sfx, values(H, ['f%d %s' % (i, tag) for i in range(t)], 0, 10), (td,)),
        counts=var('i2q2_meas_ku' + sfx, values(H, [['c%d%d %s' % (i, j, tag) for j in range(s)] for i in range(t)], 0, 65535),
                   (td, sd)))
    if extra:
        p['other'] = var('other', values(H, [['o%d%d %s' % (i, j, tag) for j in range(s)] for i in range(t)], -5, 5), (td, sd),
                         units='m')
    d._attrs['title'] = 'a ' + tag
    p['d'], p['sfx'] = d, sfx
    return p


def setup(H, products, seen=None):
    _plots.install()
    H.engine(merge_extremes=True)
    nc = H.imp('netCDF4')
    I = H.imp('dedop.ui.inspect')
    C = H.imp('dedop.ui.compare')

    def open_(path, mode='r', *a, **kw):
        if path not in products:
            raise FileNotFoundError(path)
        return products[path]['d']

    def num2date(v, units, *a, **kw):
        if seen is not None:
            seen.append((units, kw.get('calendar') or (a and a[0])))
        return v
    H.rebind(nc.Dataset, open_)
    H.rebind(nc.num2date, num2date)
    H.patch(nc, 'Dataset', open_)
    H.patch(nc, 'num2date', num2date)
    return I, C


def wave(p, i, j):
    return p['counts'][i, j] * p['scale'][i]


def rng(H, label, r, vals):
    lo, hi = r
    for k, v in enumerate(vals):
        H.le('%s from the smallest %d' % (label, k), lo, v)
        H.le('%s to the largest %d' % (label, k), v, hi)
    H.check('%s is reached' % label, H.AND(H.OR(*[lo == v for v in vals]), H.OR(*[hi == v for v in vals])))


def grid(H, label, got, want, t=T, s=S):
    H.same(label + ' shape', tuple(got.shape), (t, s))
    if tuple(got.shape) != (t, s):
        return
    for i in range(t):
        for j in range(s):
            H.eq('%s [%d,%d]' % (label, i, j), got[i, j], want(i, j))


@unit('N01', scope='a product of 2 records of 3 samples with arbitrary values, L1B or L1BS', witness=('l1b', 'l1bs'))
def contents(H):
    kind = H.pick('kind', ['l1b', 'l1bs'])
    H.note(kind)
    p = product(H, 'p', kind)
    seen = []
    I, C = setup(H, dict(p=p), seen)
    x = I.inspect_l1b_product('p')
    H.same('path', x.file_path, 'p')
    for k in ('lat', 'lon', 'time'):
        got = getattr(x, k)
        for i in range(T):
            H.eq('%s %d' % (k, i), got[i], p[k][i])
        rng(H, k, getattr(x, k + '_range'), [p[k][i] for i in range(T)])
        H.eq('centre of ' + k, getattr(x, k + '_0') * T, sum(p[k][i] for i in range(T)))
    H.check('times are in the units of the product', bool(seen) and all(s == ('seconds', 'g') for s in seen))
    grid(H, 'waveform', x.waveform, lambda i, j: wave(p, i, j))
    rng(H, 'waveform', x.waveform_range, [wave(p, i, j) for i in range(T) for j in range(S)])
    H.same('size', (x.num_times, x.num_samples, len(x.echo_sample_ind)), (T, S, S))
    H.same('names', (x.var_names, x.dim_names), (sorted(p['d'].variables), sorted(p['d'].dimensions)))
    H.same('sizes of dimensions', x.dim_name_to_size, {n: d.size for n, d in p['d'].dimensions.items()})
    H.same('attributes', dict(x.attributes), dict(title='a p'))
    names = [n for s in x.dim_names_to_var_names.values() for n in s]
    H.same('every variable is offered once', sorted(names), sorted(p['d'].variables))
    H.check('variables by dimensions', all(p['d'].variables[n].dimensions == tuple(ds)
                                           for ds, s in x.dim_names_to_var_names.items() for n in s))
    H.check('open', not p['d'].closed)
    x.close()
    H.check('closed', p['d'].closed >= 1)


@unit('N01', scope='no name, no product, another file', witness=('ran',))
def refused(H):
    _plots.install()
    other = _nc.Dataset('x')
    p = product(H, 'p')
    q = product(H, 'q', t=3)
    I, C = setup(H, dict(x=dict(d=other), p=p, q=q))
    H.raises('no name', ValueError, I.inspect_l1b_product, H.pick('name', [None, '']))
    H.raises('another kind of file', ValueError, I.inspect_l1b_product, 'x')
    H.raises('no first name', ValueError, C.compare_l1b_products, None, 'p')
    H.raises('no second name', ValueError, C.compare_l1b_products, 'p', '')
    H.raises('different sizes', ValueError, C.compare_l1b_products, 'p', 'q')
    H.note('ran')


@unit('N01', scope='two products of 2 records of 3 samples with arbitrary values', witness=('ran',))
def comparison(H):
    p, q = product(H, 'p', extra=False), product(H, 'q', extra=False)
    I, C = setup(H, dict(p=p, q=q))
    x = C.compare_l1b_products('p', 'q')
    H.same('paths', tuple(x.file_paths), ('p', 'q'))
    H.check('products', x.datasets[0] is p['d'] and x.datasets[1] is q['d'])
    for n, w, s in (('first', x.waveforms[0], p), ('second', x.waveforms[1], q)):
        grid(H, n, w, lambda i, j: wave(s, i, j))
    delta = lambda i, j: wave(p, i, j) - wave(q, i, j)
    grid(H, 'difference', x.waveforms_delta, delta)
    rng(H, 'difference', x.waveforms_delta_range, [delta(i, j) for i in range(T) for j in range(S)])
    x.plot.waveforms_delta_im()
    (c,) = calls('imshow')
    grid(H, 'image of the difference', c[1][0], delta)
    x.plot.waveforms_scatter()
    (c,) = calls('scatter')
    grid(H, 'scatter, first', c[1][0], lambda i, j: wave(p, i, j))
    grid(H, 'scatter, second', c[1][1], lambda i, j: wave(q, i, j))
    x.plot.waveforms_hexbin()
    (c,) = calls('hexbin')
    for k, s in ((0, p), (1, q)):
        for n in range(T * S):
            H.eq('hexbin %d' % k, c[1][k][n], wave(s, n // S, n % S))
    x.plot.waveforms_hist()
    h = calls('hist')
    H.same('two histograms', len(h), 2)
    for k, s in ((0, p), (1, q)):
        for n in range(T * S):
            H.eq('histogram %d' % k, h[k][1][0][n], wave(s, n // S, n % S))
    x.plot.waveforms_delta_hist()
    h = calls('hist')[-1]
    for n in range(T * S):
        H.eq('histogram of the difference', h[1][0][n], delta(n // S, n % S))
    x.close()
    H.check('both are closed', p['d'].closed >= 1 and q['d'].closed >= 1)
    H.note('ran')


@unit('N01', scope='every plot of a variable or of waveforms, with limits or without, of arbitrary values, shown or saved',
      witness=('shown', 'saved'), max_paths=20000)
def plots(H):
    fs = FS(H)
    p = product(H, 'p')
    I, C = setup(H, dict(p=p))
    saved = H.flag('saved')
    H.note('saved' if saved else 'shown')
    x = I.inspect_l1b_product('p', ROOT + '/figures' if saved else None)
    which = H.pick('plot', ['im', 'im_line', 'line', 'waveform_im', 'waveform_line', 'waveform_hist'])
    other = lambda i, j: p['other'][i, j]
    w = lambda i, j: wave(p, i, j)
    limits = H.pick('limits', ['none', 'low', 'high', 'both'])
    lo = H.pick('lowest', [0, H.real('low', -9, 9)]) if limits in ('low', 'both') else None
    hi = H.pick('highest', [0, H.real('high', -9, 9)]) if limits in ('high', 'both') else None

    def image(c, data, what):
        grid(H, 'image', c[1][0], data)
        vals = [data(i, j) for i in range(T) for j in range(S)]
        a, b = c[2]['vmin'], c[2]['vmax']
        if lo is not None:
            H.eq('lower limit', a, lo)
        else:
            H.check('lower limit of ' + what, H.AND(*[a <= v for v in vals], H.OR(*[a == v for v in vals])))
        if hi is not None:
            H.eq('upper limit', b, hi)
        else:
            H.check('upper limit of ' + what, H.AND(*[b >= v for v in vals], H.OR(*[b == v for v in vals])))
    if which == 'im':
        x.plot.im('other', zmin=lo, zmax=hi)
        image(calls('imshow')[0], other, 'the variable')
    elif which == 'waveform_im':
        x.plot.waveform_im(vmin=lo, vmax=hi)
        image(calls('imshow')[0], w, 'the waveforms')
    elif which == 'im_line':
        xi, yi = H.pick('column', [None, 0, 2]), H.pick('row', [None, 0, 1])
        if not saved and (xi is None or yi is None):
            return
        x.plot.im_line('other', zmin=lo, zmax=hi, xind=xi, yind=yi)
        c = calls('imshow')
        H.same('one image', len(c), 1)
        if len(c) != 1:
            return
        image(c[0], other, 'the variable')
        pl = calls('plot')
        H.same('lines', len(pl), (xi is not None) + (yi is not None))
        if yi is not None:
            for j in range(S):
                H.eq('row', pl[0][1][1][j], other(yi, j))
                H.eq('row position', pl[0][1][0][j], j)
        if xi is not None:
            for i in range(T):
                H.eq('column', pl[-1][1][0][i], other(i, xi))
                H.eq('column position', pl[-1][1][1][i], i)
    elif which == 'line':
        xn = H.pick('x', ['lon', 'index'])
        x.plot.line('index' if xn == 'index' else 'lon' + p['sfx'], 'lat' + p['sfx'])
        (c,) = calls('plot')
        for i in range(T):
            H.eq('x', c[1][0][i], i if xn == 'index' else p['lon'][i])
            H.eq('y', c[1][1][i], p['lat'][i])
    elif which == 'waveform_line':
        ind, ref = H.pick('index', [0, 1]), H.pick('reference', [None, 0, 1])
        x.plot.waveform_line(ind, ref)
        c = calls('plot')
        H.same('lines', len(c), 1 if ref is None else 2)
        for k, n in zip(c, (ind, ref)):
            for j in range(S):
                H.eq('sample', k[1][0][j], j)
                H.eq('power', k[1][1][j], w(n, j))
    else:
        x.plot.waveform_hist(vmin=lo, vmax=hi)
        (c,) = calls('hist')
        for n in range(T * S):
            H.eq('histogram', c[1][0][n], w(n // S, n % S))
        if lo is not None:
            H.eq('lower limit', c[2]['range'][0], lo)
        if hi is not None and not bool(hi == c[2]['range'][0]):
            H.implies('upper limit', c[2]['range'][0] < hi, c[2]['range'][1] == hi)
    f = calls('savefig')
    if saved:
        H.check('saved once, in the folder', len(f) == 1 and os.path.dirname(f[0][1][0]) == ROOT + '/figures')
        H.check('the folder is there', fs.exists('figures'))
        H.check('not shown', not calls('show'))
    else:
        H.check('shown, not saved', not f and len(calls('show')) == 1)


@unit('N01', scope='every plot of two products, with limits or without, of arbitrary values, shown or saved',
      witness=('shown', 'saved'), max_paths=20000)
def comparison_plots(H):
    fs = FS(H)
    p, q = product(H, 'p', extra=False), product(H, 'q', extra=False)
    I, C = setup(H, dict(p=p, q=q))
    saved = H.flag('saved')
    H.note('saved' if saved else 'shown')
    x = C.compare_l1b_products('p', 'q', ROOT + '/figures' if saved else None)
    which = H.pick('plot', ['waveforms_delta_im', 'waveforms_delta_hist', 'waveforms_hist', 'waveforms_scatter',
                            'waveforms_hexbin'])
    limits = H.pick('limits', ['none', 'low', 'high', 'both'])
    lo = H.pick('lowest', [0, H.real('low', -9, 9)]) if limits in ('low', 'both') else None
    hi = H.pick('highest', [0, H.real('high', -9, 9)]) if limits in ('high', 'both') else None
    getattr(x.plot, which)(vmin=lo, vmax=hi)
    delta = [wave(p, i, j) - wave(q, i, j) for i in range(T) for j in range(S)]
    if which == 'waveforms_delta_im':
        got = [(c[2]['vmin'], c[2]['vmax']) for c in calls('imshow')]
    elif which.endswith('hist'):
        got = [tuple(c[2]['range']) for c in calls('hist')]
    else:
        got = [tuple(c[1][0][k:k + 2]) for c in calls('axis') for k in (0, 2)]
    H.same('plots', len(got), 1 if 'delta' in which else 2)
    im = which.endswith('_im')
    for a, b in got:
        if lo is not None:
            H.eq('lower limit', a, lo)
        elif 'delta' in which:
            H.check('from the smallest difference', H.AND(*[a <= v for v in delta]))
        if hi is not None:
            H.implies('upper limit', True if im else a < hi, b == hi)
        elif 'delta' in which:
            H.check('to the largest difference', H.AND(*[b >= v for v in delta]))
        if not im and limits == 'none':
            H.check('a range', a < b)
    f = calls('savefig')
    if saved:
        H.check('saved once, in the folder', len(f) == 1 and os.path.dirname(f[0][1][0]) == ROOT + '/figures')
        H.check('not shown', not calls('show'))
    else:
        H.check('shown, not saved', not f and len(calls('show')) == 1)


@unit('N01', scope='the map of one or two products of 2 records each, shown or saved', witness=('one', 'two'))
def locations(H):
    import sys
    fs = FS(H)
    p, q = product(H, 'p', extra=False), product(H, 'q', extra=False)
    I, C = setup(H, dict(p=p, q=q))
    sys.modules['pyproj'].transform = lambda a, b, x, y, *z: (x * 1, y * 1)
    try:
        saved = H.flag('saved')
        two = H.flag('two')
        H.note('two' if two else 'one')
        out = ROOT + '/figures' if saved else None
        x = C.compare_l1b_products('p', 'q', out) if two else I.inspect_l1b_product('p', out)
        x.plot.locations()
    finally:
        del sys.modules['pyproj'].transform
    src = [c[2]['data'] for c in calls('ColumnDataSource')]
    ps = [p, q] if two else [p]
    H.same('tracks', (len(src), len(calls('add_glyph'))), (len(ps), len(ps)))
    if len(src) != len(ps):
        return
    (f,) = calls('figure')
    for k, s in enumerate(ps):
        for i in range(T):
            H.eq('longitude %d of %d' % (i, k), src[k]['x'][i], s['lon'][i])
            H.eq('latitude %d of %d' % (i, k), src[k]['y'][i], s['lat'][i])
            for ax, v in (('x_range', s['lon'][i]), ('y_range', s['lat'][i])):
                H.check('%s shows %d of %d' % (ax, i, k), H.AND(f[2][ax][0] <= v, v <= f[2][ax][1]))
    sv, sh = calls('io.save'), calls('io.show')
    H.check('shown or saved', (len(sv), len(sh)) == ((1, 0) if saved else (0, 1)))
    if saved and sv:
        H.same('saved in the folder', os.path.dirname(sv[0][1][1]), ROOT + '/figures')
        H.check('the folder is there', fs.exists('figures'))


@unit('N01', scope='plots with nothing chosen, a missing or unfit variable; 3D plots with limits or without', max_paths=5000,
      witness=('offered', 'refused', 'unfit', '3d'))
def choices(H):
    fs = FS(H)
    p = product(H, 'p')
    d = p['d']
    d.variables['empty'] = _nc.Var('empty', H.np_real.zeros((T, 0)), ('time_l1b_echo_sar_ku', 'nothing'))
    d.variables['a single'] = _nc.Var('a single', H.np_real.zeros((T,)), ('time_l1b_echo_sar_ku',))
    I, C = setup(H, dict(p=p))
    saved = H.flag('saved')
    x = I.inspect_l1b_product('p', ROOT + '/figures' if saved else None)
    what = H.pick('what', ['im', 'im_line', 'line', 'waveform_line', 'unfit', '3d'])
    if what == '3d':
        kind = H.pick('kind', ['surf', 'poly', 'line'])
        lo, hi = H.pick('lowest', [None, 0, H.real('low', -9, 9)]), H.pick('highest', [None, 0, H.real('high', -9, 9)])
        getattr(x.plot, 'waveform_3d_' + kind)(zmin=lo, zmax=hi)
        H.note('3d')
        (c,) = calls('set_zlim3d')
        vals = [wave(p, i, j) for i in range(T) for j in range(S)]
        for got, lim, f in ((c[1][0], lo, min), (c[1][1], hi, max)):
            if lim is not None:
                H.eq('limit', got, lim)
            else:
                H.check('limit of the waveforms', H.AND(*[(got <= v if f is min else got >= v) for v in vals],
                                                        H.OR(*[got == v for v in vals])))
        for n, k in (('set_xlim3d', S), ('set_ylim3d', T)):
            (c,) = calls(n)
            H.same(n, tuple(c[1]), (0, k - 1))
        if kind == 'surf':
            (c,) = calls('plot_surface')
            grid(H, 'surface', c[1][2], lambda i, j: wave(p, i, j))
            grid(H, 'samples', c[1][0], lambda i, j: j)
            grid(H, 'times', c[1][1], lambda i, j: i)
        else:
            (c,) = calls('PolyCollection' if kind == 'poly' else 'LineCollection')
            H.same('waveforms', len(c[1][0]), T)
            for i, wv in enumerate(c[1][0]):
                for j in range(S):
                    H.eq('sample', wv[j][0], j)
                    H.eq('power', wv[j][1], wave(p, i, j))
            (c,) = calls('add_collection3d')
            zs = c[2].get('zs', c[1][1] if len(c[1]) > 1 else 0)
            H.check('one waveform after the other along the time axis',
                    c[2].get('zdir', c[1][2] if len(c[1]) > 2 else 'z') == 'y' and
                    [int(z) for z in H.np_real.ravel(zs)] == list(range(T)))
        H.check('shown or saved', (len(calls('savefig')), len(calls('show'))) == ((1, 0) if saved else (0, 1)))
        return
    if what == 'unfit':
        H.note('unfit')
        f = H.pick('plot', ['im', 'im_line'])
        a = H.pick('variable', ['none such', 'lat' + p['sfx']])
        _, e = H.try_(getattr(x.plot, f), a, **(dict(xind=0, yind=0) if f == 'im_line' else {}))
        H.check('no plot of %s, no failure: %r' % (a, e), e is None and not calls('imshow') and not calls('savefig'))
        return
    _, e = H.try_(getattr(x.plot, what))
    two, one = sorted(['other', 'i2q2_meas_ku' + p['sfx']]), sorted(
        n for n in d.variables if len(d.variables[n].dimensions) == 1)
    if saved and what != 'waveform_line':
        H.note('refused')
        H.check('a variable has to be given', isinstance(e, ValueError))
        return
    H.check('no failure: %r' % (e,), e is None)
    if e is not None:
        return
    if saved:
        (c,) = calls('plot')
        for j in range(S):
            H.eq('first waveform', c[1][1][j], wave(p, 0, j))
        return
    H.note('offered')
    (c,) = calls('interact')
    if what == 'im':
        H.same('variables offered', list(c[2]['z_name']), two)
    elif what == 'im_line':
        (v,) = calls('Dropdown')
        H.same('variables offered', (list(v[2]['options']), v[2]['value'] in two), (two, True))
    elif what == 'line':
        dd = {v[2].get('description'): list(v[2]['options']) for v in calls('Dropdown')}
        H.same('variables offered', (dd.get('X:'), dd.get('Y:')), (['index'] + one, one))
    else:
        H.same('records offered', tuple(c[2]['ind']), (0, T - 1))


@unit('N01', scope='paths and formats of figures', witness=('pdf', 'dir', 'refused'))
def figures(H):
    _plots.install()
    fs = FS(H)
    I = H.imp('dedop.ui.inspect')
    W = H.imp('dedop.ui.figurewriter', 'FigureWriter')
    path = H.pick('path', ['out/figs', 'out/a.pdf', 'out/a.PDF', 'out/a.txt', ''])
    fmt = H.pick('format', [None, 'pdf', 'PDF', 'dir', 'png'])
    ext = os.path.splitext(path)[1]
    f = (fmt or ext[1:] or 'dir').lower()
    ok = path and f in ('pdf', 'dir') and not (f == 'pdf' and ext not in ('', '.pdf', '.PDF'))
    w, e = H.try_(W, path and ROOT + '/' + path, fmt)
    if not ok:
        H.note('refused')
        H.check('refused', isinstance(e, ValueError))
        return
    H.check('accepted', e is None)
    if e is not None:
        return
    H.note(f)
    H.same('format', w.output_format, f)
    want = ROOT + '/' + path + ('.pdf' if f == 'pdf' and not ext else '')
    H.same('path', w.output_path, want)
    w.savefig('a.png')
    w.savefig('b.png')
    s = calls('savefig')
    H.same('two figures', len(s), 2)
    if f == 'dir':
        H.same('files', [c[1][0] for c in s], [want + '/a.png', want + '/b.png'])
    else:
        H.same('one document', [c[1] for c in calls('PdfPages')], [(want,)])
    H.check('folder made', fs.exists(os.path.dirname(want)[len(ROOT) + 1:]))
    w.close()
    w.close()
    H.check('closed once', len(calls('close')) == (1 if f == 'pdf' else 0))


@unit('N01', scope='products of any kind of name; notebooks and the folder there or not, disk errors', max_paths=5000,
      witness=('inspect', 'compare', 'fault'))
def notebook(H):
    import ast
    import json
    import subprocess
    fs = FS(H)
    fs.file('home/.dedop/config.py', b'')
    fs.dir(ws('a') + '/notebooks', 'folder')
    names = ['p.nc', "it's.nc", 'a "b".nc', 'back\\slash.nc', '\u00fcml.nc']
    n1 = H.pick('name', names)
    two = H.flag('compare')
    n2 = H.pick('second name', names[:2]) if two else None
    base = 'compare-p.nc-p.nc' if two else 'inspect-p.nc'
    if n1 == 'p.nc' and n2 in (None, 'p.nc'):
        for k in (1, 2, 3):
            fs.file('%s/notebooks/%s-%d.ipynb' % (ws('a'), base, k), b'old', 'notebook %d' % k)
    ran = []
    H.patch(subprocess, 'check_call', lambda *a, **k: ran.append((a, k)) or 0)
    m = manager(H)
    mod = H.imp('dedop.util.config')
    H.patch(mod, '_CONFIG', {'launch_notebook_command': 'run {command}'})
    before = fs.snapshot()
    fault = H.flag('fault')
    paths = ['/data/' + n1] + (['/data/' + n2] if two else [])
    if fault:
        H.note('fault')
        fs.fault = fs.steps + H.pick('step', [0, 1, 2, 3])
    _, e = H.try_(m.compare_l1b_products if two else m.inspect_l1b_product, 'a', *paths)
    fs.fault = None
    if fault and (e is not None or not ran):
        H.check('a failure is reported', isinstance(e, H.imp('dedop.ui.exception', 'WorkspaceError')))
        return
    H.check('written: %r' % (e,), e is None)
    if e is not None:
        return
    was, now = fs.view(before), fs.now()
    new = [p for p in now if p not in was and p.endswith('.ipynb')]
    H.same('one new notebook', len(new), 1)
    H.check('no other notebook is changed', all(now.get(p) == v for p, v in was.items()))
    if len(new) != 1:
        return
    text = fs.content(new[0].lstrip('/'))
    nb, e = H.try_(json.loads, text.decode('utf-8'))
    H.check('the notebook can be read', e is None)
    if e is not None:
        return
    cells = '\n'.join(''.join(c['source']) for c in nb['cells'] if c['cell_type'] == 'code')
    tree = ast.parse('\n'.join(l for l in cells.split('\n') if not l.startswith('%')))
    args = [[ast.literal_eval(a) for a in c.args] for c in ast.walk(tree)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and
            c.func.id == ('compare_l1b_products' if two else 'inspect_l1b_product')]
    H.same('it opens the product', args, [paths])
    H.check('it is opened', len(ran) == 1 and new[0].split('/')[-1] in ran[0][0][0])
    H.note('compare' if two else 'inspect')
