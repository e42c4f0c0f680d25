"""A01, A02: auxiliary parameters and the upgrade of configurations"""
import json
import warnings
from symx.harness import unit, HarnessGap
from props._common import CST, CHD, CNF
from props._fs import FS, ROOT, jtext, patch_json

# attribute -> (name in the file, kind)
A_CST = dict(c=('c_cst', 'f'), pi=('pi_cst', 'f'), semi_major_axis=('semi_major_axis_cst', 'f'),
             semi_minor_axis=('semi_minor_axis_cst', 'f'), earth_radius=('earth_radius_cst', 'f'),
             flat_coeff=('flat_coeff_cst', 'f'), sec_in_day=('sec_in_day_cst', 'f'))
A_CHD = dict(mean_sat_alt=('mean_sat_alt_chd', 'f'), n_samples_sar=('N_samples_sar_chd', 'i'),
             n_ku_pulses_burst=('N_ku_pulses_burst_chd', 'i'), freq_ku=('freq_ku_chd', 'f'),
             pulse_length=('pulse_length_chd', 'f'), bw_ku=('bw_ku_chd', 'f'),
             power_tx_ant_ku=('power_tx_ant_ku_chd', 'f'), antenna_gain_ku=('antenna_gain_ku_chd', 'f'),
             uso_freq_nom=('uso_freq_nom_chd', 'f'), alt_freq_multiplier=('alt_freq_multiplier_chd', 'f'),
             prf_sar=('prf_sar_chd', 'f'), brf_sar=('brf_sar_chd', 'f'),
             antenna_angles_spacing=('antenna_angles_spacing_chd', 'f'), ptr_width=('ptr_width_chd', 'f'),
             fft_step_freq_ku=('fft_step_freq_ku_chd', 'f'), ratio_trc_ku=('ratio_trc_ku_chd', 'f'),
             antenna_weights=('antenna_weights_chd', 'a'), antenna_angles=('antenna_angles_chd', 'a'),
             look_angle_mask_min=('look_angle_mask_min_chd', 'r?'),
             look_angle_mask_max=('look_angle_mask_max_chd', 'r?'))
A_CNF = dict(flag_cal2_correction=('flag_cal2_correction_cnf', 'b'), flag_uso_correction=('flag_uso_correction_cnf', 'b'),
             flag_cal2_table_index=('flag_cal2_table_index_cnf', 'i'),
             flag_cal1_corrections=('flag_cal1_corrections_cnf', 'b'),
             flag_cal1_intraburst_corrections=('flag_cal1_intraburst_corrections_cnf', 'b'),
             flag_surface_focusing=('flag_surface_focusing_cnf', 'b'),
             surface_focusing_lat=('surface_focusing_lat_cnf', 'r'),
             surface_focusing_lon=('surface_focusing_lon_cnf', 'r'),
             surface_focusing_alt=('surface_focusing_alt_cnf', 'f'),
             flag_azimuth_processing_method=('flag_azimuth_processing_method_cnf', 'AzimuthProcessingMethod'),
             flag_postphase_azimuth_processing=('flag_postphase_azimuth_processing_cnf', 'b'),
             flag_azimuth_windowing_method=('flag_azimuth_windowing_method_cnf', 'AzimuthWindowingMethod'),
             azimuth_window_width=('azimuth_window_width_cnf', 'i'),
             flag_doppler_range_correction=('flag_doppler_range_correction_cnf', 'b'),
             flag_slant_range_correction=('flag_slant_range_correction_cnf', 'b'),
             flag_window_delay_alignment_method=('flag_window_delay_alignment_method_cnf', 'i'),
             flag_stack_masking=('flag_stack_masking_cnf', 'b'),
             flag_avoid_zeros_in_multilooking=('flag_avoid_zeros_in_multilooking_cnf', 'b'),
             flag_surface_weighting=('flag_surface_weighting_cnf', 'b'),
             flag_antenna_weighting=('flag_antenna_weighting_cnf', 'b'), zp_fact_range=('zp_fact_range_cnf', 'i'),
             n_looks_stack=('N_looks_stack_cnf', 'i'), min_lat=('min_lat_cnf', 'f?'), max_lat=('max_lat_cnf', 'f?'),
             min_lon=('min_lon_cnf', 'f?'), max_lon=('max_lon_cnf', 'f?'),
             output_format=('output_format_flag_cnf', 'OutputFormat?'))
FILES = dict(CST=('ConstantsFile', A_CST), CHD=('CharacterisationFile', A_CHD), CNF=('ConfigurationFile', A_CNF))
ENUM = dict(AzimuthProcessingMethod=dict(approx='approximate', exact='exact'),
            AzimuthWindowingMethod=dict(none='disabled', boxcar='boxcar', hanning='hanning', hamming='hamming'),
            OutputFormat={'sentinel-3': 's3', 'extended': 'extended'})
DERIVED = dict(pri_sar=lambda v: 1 / v['prf_sar'], bri_sar=lambda v: 1 / v['brf_sar'],
               chirp_slope_ku=lambda v: v['bw_ku'] / v['pulse_length'],
               t0_nom=lambda v: 1 / (v['uso_freq_nom'] * v['alt_freq_multiplier']))


def reader(H, kind, c=None, **kw):
    C = H.imp('dedop.conf', FILES[kind][0])
    return C(c, **kw) if kind == 'CHD' else C(**kw)


def value(H, tag, attr, kind, fork=True):
    """(value in the file, expected value of the attribute)"""
    kind = kind.rstrip('?')
    if kind == 'f':
        v = H.real(tag + attr, 0.5, 1e6)
        return v, v
    if kind == 'i':
        v = H.int(tag + attr, 0, 1000)
        return v, v
    if kind == 'r':
        v = H.real(tag + attr, -360, 360)
        return v, H.rad(v)
    if kind == 'b':
        v = H.flag(tag + attr) if fork else True
        return v, v
    if kind == 'a':
        v = [H.real('%s%s%d' % (tag, attr, i), -1, 1) if i in (0, 1, 249) else 0.25 for i in range(250)]
        return v, v
    names = ENUM[kind]
    s = H.pick(tag + attr, sorted(names)) if fork else sorted(names)[0]
    return s, getattr(H.imp('dedop.conf.enums', kind), names[s])


def contents(H, kind, tag='', fork=(), leave=()):
    data, want = {}, {}
    for attr, (name, k) in FILES[kind][1].items():
        if attr in leave:
            continue
        data[name], want[attr] = value(H, tag, attr, k, attr in fork)
    return data, want


def check_attr(H, kind, f, attr, want, label=''):
    k = FILES[kind][1][attr][1].rstrip('?')
    got = H.entry(f, attr)
    lab = '%s%s.%s' % (label, kind, attr)
    if k == 'a':
        H.same(lab + ' shape', tuple(got.shape), (250,))
        for i in (0, 1, 2, 249):
            H.eq('%s[%d]' % (lab, i), H.flat(got)[i], want[i])
    elif k in ENUM:
        H.check(lab, got is want)
    elif k == 'b':
        H.check(lab, bool(got) == want)
    else:
        H.eq(lab, got, want, rtol=1e-9, atol=1e-12)


def write(H, fs, kind, data, version=None, meta=True, name='F'):
    text = {n: dict(value=v, units='u', description='d') for n, v in data.items()}
    items = list(text.items())
    if meta:
        items.insert(len(items) // 2, ('__metainf__', dict(version=version, changelog=[], description='x')))
    fs.file(name, None)
    fs.nodes[fs._p(name)].content = _content(H, dict(items))
    return fs._p(name)


def _content(H, obj):
    t = jtext(H, obj)
    return t if H.sym else t.encode()


VERSION = dict(CST=0, CHD=1, CNF=3)


def load(H, kind, path, c=None, **kw):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        f = reader(H, kind, c, filename=path, **kw)
    return f, ws


def _forkable(kind):
    return [a for a, (n, k) in FILES[kind][1].items() if k == 'b' or k.rstrip('?') in ENUM]


@unit('A01', quick=[dict(kind=k) for k in FILES], scope='every parameter of a file with an arbitrary value, read in '
      'either order and twice; given in the file, to the constructor, or in both', witness=('file', 'arguments', 'both'))
def values(H, kind):
    fs = FS(H)
    patch_json(H)
    fork = [H.pick('arbitrary', _forkable(kind))] if _forkable(kind) else []
    data, want = contents(H, kind, 'a ', fork)
    how = H.pick('how', ['file', 'arguments', 'both'])
    H.note(how)
    c = reader(H, 'CST', **CST)
    kw = {}
    if how == 'arguments':
        f = reader(H, kind, c, **data)
    else:
        stored = dict(data)
        if how == 'both':
            # what is given to the constructor counts, the file gives the rest
            some = sorted(data)[::3]
            for n in some:
                kw[n] = data[n]
                if n.startswith('flag') or n.endswith('flag_cnf'):
                    del stored[n]
                else:
                    stored[n] = H.real('old ' + n, 1, 2) if not isinstance(data[n], list) else [0.0] * 250
        p = write(H, fs, kind, stored, VERSION[kind])
        before = fs.snapshot()
        r, e = H.try_(load, H, kind, p, c, **kw)
        H.check('%s file is read: %r' % (kind, e), e is None)
        if e is not None:
            return
        f, ws = r
        H.same('%s file is read without a warning' % kind, len(ws), 0)
        fs.unchanged('the file is left as it is', before)
        H.same('the file is closed', fs.opened, 0)
    attrs = list(want)
    if H.flag('backwards'):
        attrs.reverse()
    for rnd in ('', 'again '):
        for a in attrs:
            check_attr(H, kind, f, a, want[a], rnd)
    if kind == 'CHD':
        for a, fn in DERIVED.items():
            H.eq('CHD.%s' % a, H.entry(f, a), fn(want), rtol=1e-9, atol=0)
        H.eq('CHD.wv_length_ku', f.wv_length_ku, c.c / want['freq_ku'], rtol=1e-9, atol=0)


@unit('A01', quick=[dict(kind=k) for k in FILES], scope='any one parameter missing, or null if it is optional; other '
      'parameters arbitrary', witness=('required', 'optional'))
def missing(H, kind):
    Missing = H.imp('dedop.conf.auxiliary_errors', 'MissingParameterError')
    fs = FS(H)
    patch_json(H)
    attr = H.pick('missing', sorted(FILES[kind][1]))
    name, k = FILES[kind][1][attr]
    data, want = contents(H, kind, 'a ', leave=(attr,))
    if k.endswith('?') and H.flag('null') and not k.startswith('Output'):
        data[name] = None
    c = reader(H, 'CST', **CST)
    if H.flag('from file'):
        p = write(H, fs, kind, data, VERSION[kind])
        f, ws = load(H, kind, p, c)
    else:
        f = reader(H, kind, c, **data)
    # reading another parameter first must not matter
    other = sorted(want)[0]
    check_attr(H, kind, f, other, want[other])
    for i in range(2):
        v, e = H.try_(H.entry, f, attr)
        if k.endswith('?'):
            H.note('optional')
            default = H.imp('dedop.conf.enums', 'OutputFormat').extended if k.startswith('Output') else None
            H.check('missing optional %s.%s is %r: %r' % (kind, attr, default, e), e is None and v is default)
        else:
            H.note('required')
            H.check('missing %s.%s is reported: %r' % (kind, attr, e or v), isinstance(e, Missing))
    check_attr(H, kind, f, other, want[other])
    last = sorted(want)[-1]
    check_attr(H, kind, f, last, want[last])


@unit('A01', quick=[dict(kind=k) for k in FILES], scope='any version number, or none; unknown parameters', witness=(
    'accepted', 'refused', 'none'))
def version(H, kind):
    Bad = H.imp('dedop.conf.auxiliary_errors', 'IncompatibleAuxiliaryFileError')
    Unknown = H.imp('dedop.conf.auxiliary_errors', 'UnknownParameterWarning')
    fs = FS(H)
    patch_json(H)
    data, want = contents(H, kind, 'a ')
    meta = H.flag('has a version')
    v = H.int('version', -3, 12) if meta else None
    unknown = H.flag('unknown parameter')
    if unknown:
        data['no_such_parameter_%s' % kind.lower()] = H.real('unknown', 0, 1)
    p = write(H, fs, kind, data, v, meta)
    c = reader(H, 'CST', **CST)
    r, e = H.try_(load, H, kind, p, c)
    ok = meta and bool(v == VERSION[kind])
    if ok:
        H.note('accepted')
        H.check('%s of the current version is read: %r' % (kind, e), e is None)
        if e is None:
            f, ws = r
            H.same('unknown parameters of %s are reported' % kind,
                   [issubclass(w.category, Unknown) for w in ws], [True] * unknown)
            for a in sorted(want)[:3]:
                check_attr(H, kind, f, a, want[a])
            H.check('an unknown parameter is not a parameter', not hasattr(f, 'no_such_parameter'))
    else:
        H.note('refused' if meta else 'none')
        H.check('%s of another version is refused: %r' % (kind, e), isinstance(e, Bad))


@unit('A01', quick=[dict(kind=k) for k in FILES], scope='three objects of a kind with arbitrary values, any order of '
      'reading, one of them gone in between', witness=('ran',))
def independent(H, kind):
    attrs = FILES[kind][1]
    attr = H.pick('attribute', sorted(a for a, (n, k) in attrs.items() if k.rstrip('?') in ('f', 'i', 'r', 'a')))
    name, k = attrs[attr]
    rest, _ = contents(H, kind, 'rest ', leave=(attr,))
    objs, want = {}, {}
    c = reader(H, 'CST', **CST)
    for t in ('a', 'b', 'c'):
        d, w = value(H, t + ' ', attr, k)
        objs[t], want[t] = reader(H, kind, c, **dict(rest, **{name: d})), w
    order = H.pick('order', ['abcabc', 'cabbac', 'bcaacb'])
    for t in order[:3]:
        check_attr(H, kind, objs[t], attr, want[t], t + ' ')
    del objs[order[0]]
    d, w = value(H, 'd ', attr, k)
    objs['d'], want['d'] = reader(H, kind, c, **dict(rest, **{name: d})), w
    for t in 'd' + order[3:]:
        if t in objs:
            check_attr(H, kind, objs[t], attr, want[t], t + ' later ')
    H.note('ran')


@unit('A01', scope='wrong values: unknown names of methods and formats, antenna tables of another length, null',
      witness=('ran',))
def wrong(H):
    c = reader(H, 'CST', **CST)
    which = H.pick('which', ['flag_azimuth_processing_method', 'flag_azimuth_windowing_method', 'output_format',
                             'antenna_weights', 'antenna_angles', 'n_samples_sar', 'n_ku_pulses_burst', 'mean_sat_alt',
                             'flag_cal2_table_index'])
    if which in A_CHD and not which.startswith('antenna'):
        f = reader(H, 'CHD', c, **dict(CHD, **{A_CHD[which][0]: None}))
    elif which == 'flag_cal2_table_index':
        f = reader(H, 'CNF', **dict(CNF, **{A_CNF[which][0]: None}))
    elif which.startswith('antenna'):
        n = H.pick('length', [1, 249, 251, 500])
        f = reader(H, 'CHD', c, **dict(CHD, **{which + '_chd': [0.5] * n}))
    else:
        v = H.pick('name', ['', 'Approx', 'nothing', 'hann', 1])
        f = reader(H, 'CNF', **dict(CNF, **{A_CNF[which][0]: v}))
    for i in range(2):
        r, e = H.try_(H.entry, f, which)
        H.check('a wrong %s is reported: %r' % (which, r), isinstance(e, (ValueError, TypeError)))
    H.note('ran')


# ------------------------------------------------------------------------------
def manager(H):
    return H.imp('dedop.ui.workspace_manager', 'WorkspaceManager')(ROOT + '/workspaces')


def user_file(H, version, params, tag=''):
    """a configuration file of the user: arbitrary values"""
    items = [(n, dict(value=H.real('%suser %s' % (tag, n), -100, 100), units=None, description='mine')) for n in params]
    if version is not None:
        items.append(('__metainf__', dict(version=version, changelog=[], description='old')))
    return dict(items)


def expect(changelog, version, default, user):
    """oracle: the last word of the changelog after the version of the user counts"""
    out = {k: v for k, v in user.items() if k != '__metainf__'}
    for ch in sorted(changelog, key=lambda c: c['version']):
        if version is not None and bool(ch['version'] <= version):
            continue
        for name, what, *_ in ch['parameters']:
            if what == '-':
                out.pop(name, None)
            else:
                out[name] = default[name] if name in default else None
    return out


def compare_conf(H, label, got, want, default_meta):
    H.same(label + ' parameters', sorted(k for k in got if k != '__metainf__'), sorted(want))
    for k in want:
        if k in got:
            if want[k]['value'] is got[k]['value']:
                H.check('%s %s' % (label, k), True)
            elif isinstance(want[k]['value'], (list, str, bool)) or isinstance(got[k]['value'], (list, str, bool)):
                H.same('%s %s' % (label, k), got[k]['value'], want[k]['value'])
            else:
                H.eq('%s %s' % (label, k), got[k]['value'], want[k]['value'], rtol=1e-9)
    if default_meta is not None:
        H.same(label + ' metadata', json_plain(got.get('__metainf__')), json_plain(default_meta))


def json_plain(o):
    if isinstance(o, dict):
        return {k: json_plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [json_plain(v) for v in o]
    return o


def stored(H, fs, path):
    c = fs.content(path)
    if H.sym:
        return getattr(c, 'obj', None)
    try:
        return json.loads(c.decode())
    except ValueError:
        return None


@unit('A02', quick=[dict(kind=k) for k in FILES], scope='configuration files of any version up to the next, or without '
      'one, with all, none or other parameters, of arbitrary values', witness=('upgraded', 'kept'))
def shipped(H, kind):
    fs = FS(H)
    patch_json(H)
    import pkgutil
    default = json.loads(pkgutil.get_data('dedop.ui.data.config', kind + '.json').decode('utf-8'))
    now = default['__metainf__']['version']
    H.same('the default %s is of the version that is read' % kind, now, VERSION[kind])
    meta = H.flag('has a version')
    v = H.int('version', -1, now + 1) if meta else None
    names = [n for n in default if n != '__metainf__']
    removed = [p[0] for ch in default['__metainf__']['changelog'] for p in ch['parameters'] if p[1] == '-']
    params = H.pick('parameters', [names, [], removed + names[::2], ['of_my_own'] + removed + names])
    user = user_file(H, v, params)
    for k in FILES:
        fs.file('workspaces/w/configs/x/%s.json' % k, _content(H, user) if k == kind else None)
    fs.file('workspaces/w/configs/y/%s.json' % kind)
    before = fs.snapshot()
    path = 'workspaces/w/configs/x/%s.json' % kind
    m = manager(H)
    r, e = H.try_(m.upgrade_config, 'w', 'x', kind)
    H.check('%s is upgraded: %r' % (kind, e), e is None)
    if e is not None:
        return
    fs.unchanged('other files are left as they are', before, [path])
    got = stored(H, fs, path)
    H.check('the upgraded file can be read', got is not None)
    if got is None:
        return
    if meta and bool(v >= now):
        H.note('kept')
        compare_conf(H, 'up to date', got, {k: w for k, w in user.items() if k != '__metainf__'}, None)
        H.eq('version of an up to date file', got['__metainf__']['version'], v)
        H.eq('reported version', r, v)
        return
    H.note('upgraded')
    want = expect(default['__metainf__']['changelog'], v, default, user)
    compare_conf(H, 'upgraded', got, want, default['__metainf__'])
    H.eq('reported version', r, now)
    H.eq('version', m.get_config_version('w', 'x', kind), now)
    r2, e = H.try_(m.upgrade_config, 'w', 'x', kind)
    again = stored(H, fs, path)
    H.check('an upgraded file is left as it is', e is None and again is not None)
    if again is not None:
        compare_conf(H, 'upgraded twice', again, want, default['__metainf__'])


@unit('A02', quick=[dict(steps=3, names='p'), dict(steps=1, names='pq')],
      thorough=[dict(steps=4, names='p'), dict(steps=2, names='pq')],
      scope='default files with any changelog of up to three (four) versions acting on one or two parameters, and another '
      'the user has', witness=('ran',), max_paths=30000)
def changelog(H, steps, names):
    fs = FS(H)
    patch_json(H)
    log = [dict(version=0, parameters=[], comment='initial')]
    last = {}
    for i in range(1, steps + 1):
        ps = []
        for n in names:
            a = H.pick('%s in version %d' % (n, i), ['', '+', '*', '-'])
            if a:
                ps.append([n, a, 'why'])
                last[n] = a
        log.append(dict(version=i, parameters=ps, comment='c'))
    default = {n: dict(value=H.real('default ' + n, -10, 10), units=None, description='theirs')
               for n in ('p', 'q', 'r') if last.get(n) != '-'}
    default['__metainf__'] = dict(version=steps, changelog=log, description='new')
    user = user_file(H, H.int('version', -1, steps),
                     ['s'] + [n for n in names if H.flag('user has ' + n)])
    import pkgutil
    real = pkgutil.get_data
    text = jtext(H, default)

    def get_data(package, resource):
        if resource == 'CNF.json':
            return text if H.sym else text.encode()
        return real(package, resource)
    H.patch(pkgutil, 'get_data', get_data)
    path = 'workspaces/w/configs/x/CNF.json'
    fs.file(path, _content(H, user))
    before = fs.snapshot()
    m = manager(H)
    r, e = H.try_(m.upgrade_config, 'w', 'x', 'CNF')
    H.check('upgraded: %r' % (e,), e is None)
    if e is not None:
        return
    fs.unchanged('other files are left as they are', before, [path])
    got = stored(H, fs, path)
    H.check('the upgraded file can be read', got is not None)
    v = user['__metainf__']['version']
    if got is not None:
        if bool(v >= steps):
            compare_conf(H, 'up to date', got, {k: w for k, w in user.items() if k != '__metainf__'}, None)
        else:
            compare_conf(H, 'upgraded', got, expect(log, v, default, user), default['__metainf__'])
    H.note('ran')


@unit('A02', scope='both kinds of new configuration, all three files; before and after an upgrade', witness=(
    'default', 'cryosat'))
def new_config(H):
    """a new configuration is accepted by the readers as it is, and needs no upgrade"""
    fs = FS(H)
    patch_json(H)
    cryosat = H.flag('cryosat')
    H.note('cryosat' if cryosat else 'default')
    fs.dir('workspaces/w')
    m = manager(H)
    m.create_config('w', 'x', cryosat=cryosat)
    up = H.flag('upgrade first')
    if up:
        r, e = H.try_(m.upgrade_all_config, 'w', 'x')
        H.check('a new configuration can be upgraded: %r' % (e,), e is None)
        H.same('versions', tuple(r or ()), (VERSION['CHD'], VERSION['CNF'], VERSION['CST']))
    H.same('all versions', tuple(m.get_all_config_version('w', 'x')), tuple(m.get_all_default_config_version()))
    c = None
    for kind in ('CST', 'CHD', 'CNF'):
        path = m.get_config_file('w', 'x', kind)
        r, e = H.try_(load, H, kind, path, c)
        H.check('a new %s is read: %r' % (kind, e), e is None)
        if e is not None:
            return
        f, ws = r
        H.same('a new %s is read without a warning' % kind, [str(w.message) for w in ws], [])
        c = c or f
        text = fs.content(path[len(ROOT) + 1:])
        raw = (getattr(text, 'obj', None) if H.sym else None) or json.loads(text.decode())
        for a, (name, k) in FILES[kind][1].items():
            if name in raw:
                v = raw[name]['value']
                k = k.rstrip('?')
                w = H.rad(H.num(v)) if k == 'r' else getattr(H.imp('dedop.conf.enums', k), ENUM[k][v]) if k in ENUM else v
                check_attr(H, kind, f, a, w, 'new ')
            elif not k.endswith('?') and k != 'a' and not a.startswith('antenna_angles'):
                H.check('a new %s has %s' % (kind, name), False)
