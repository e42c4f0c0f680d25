"""I01..I03: reading the input product"""
import math
from fractions import Fraction
from symx.harness import unit
from props._common import cst, chd, cnf
from props import _nc

V = 'dedop.data.input.l1a.enums'
REC = '_l1a_echo_sar_ku'


def _file(H, n, values, P=2, N=2, tables=3, attrs=None):
    """a product of n records; values: {short name: list of n}; everything else is a distinct fixed number"""
    Vars = H.imp(V, 'L1AVariables')
    ds = _nc.Dataset('mem', 'r')
    np = H.np_real
    for i, m in enumerate(Vars):
        name = m.value
        short = name[:-len(REC)] if name.endswith(REC) else name
        if short in ('echo_sample_ind', 'sar_ku_pulse_burst_ind', 'sar_c_pulse_burst_ind', 'ltm_max_ind'):
            data = np.arange(3.0)
        elif short in values:
            data = H.arr(values[short])
        elif short in ('i_meas_ku', 'q_meas_ku'):
            data = np.ones((n, P, N)) * (i + 1)
        elif short == 'gprw_meas_ku':
            data = np.ones((n, tables, N))
        elif short in ('burst_power_cor_ku', 'burst_phase_cor_ku'):
            data = np.ones((n, P))
        else:
            data = np.array([100.0 * i + k + 1 for k in range(n)])
        ds.variables[name] = _nc.Var(name, data, ('time' + REC,))
    ds.dimensions['time' + REC] = _nc.Dim('time' + REC, n)
    ds._attrs.update(attrs or {})
    opened = _nc.install(H, lambda path, mode: ds)
    return ds, opened


@unit('I01', quick=[dict(n=5, chunk=2, reads=3), dict(n=4, chunk=3, reads=3), dict(n=3, chunk=1, reads=2),
                    dict(n=3, chunk=8, reads=2)],
      thorough=[dict(n=n, chunk=c, reads=3) for n in (4, 6, 7) for c in (1, 2, 3, 4, 6, 9)],
      scope='n records, blocks of "chunk" records, any sequence of "reads" reads of two variables',
      witness=('other block', 'same block', 'back'), max_paths=6000)
def blocks(H, n, chunk, reads):
    Vars = H.imp(V, 'L1AVariables')
    a, b = H.reals('alt', n, 0, 9), H.reals('range', n, 0, 9)
    f, _ = _file(H, n, {'alt': a, 'range_ku': b})
    r = H.imp('dedop.data.input.netcdf_reader', 'NetCDFReader')('mem', chunk)
    last = None
    for k in range(reads):
        i = H.index('i%d' % k, n)
        H.check('open while it is read', not f.closed)
        if last is not None:
            H.note('same block' if last // chunk == i // chunk else 'other block')
            if i < last:
                H.note('back')
        last = i
        if H.flag('v%d' % k):
            H.eq('value', r.get_value(Vars.alt_l1a_echo_sar_ku, i), a[i])
        else:
            H.eq('value', r.get_value(Vars.range_ku_l1a_echo_sar_ku, i), b[i])
    r.close()
    H.check('closed at the end', f.closed > 0)


@unit('I01', quick=[dict(n=83)], thorough=[dict(n=83), dict(n=121), dict(n=40), dict(n=41)],
      scope='n records with the default block size; any two reads around the block edges', witness=('ran',))
def default_block(H, n):
    Vars = H.imp(V, 'L1AVariables')
    edge = sorted({i for e in (0, 40, 80, 120, n) for i in (e - 2, e - 1, e, e + 1) if 0 <= i < n})
    a = [float(7 * i) for i in range(n)]
    for i in edge:
        a[i] = H.real('a%d' % i, 0, 9)
    _file(H, n, {'alt': a})
    r = H.imp('dedop.data.input.netcdf_reader', 'NetCDFReader')('mem')
    for k in range(2):
        i = H.pick('i%d' % k, edge)
        H.eq('value', r.get_value(Vars.alt_l1a_echo_sar_ku, i), a[i])
    H.note('ran')


def _in(H, lat, lon, lim):
    c = []
    if lim['lat'][0] is not None:
        c.append(lat >= lim['lat'][0])
    if lim['lat'][1] is not None:
        c.append(lat <= lim['lat'][1])
    if lim['lon'][0] is not None:
        c.append(lon >= lim['lon'][0])
    if lim['lon'][1] is not None:
        c.append(lon <= lim['lon'][1])
    return bool(H.AND(*c)) if c else True


def _dataset(H, n, values, lim=None, **kw):
    c = cst(H)
    d = chd(H, c, N_ku_pulses_burst_chd=2, N_samples_sar_chd=2)
    opt = {}
    lim = lim or {'lat': (None, None), 'lon': (None, None)}
    for ax in ('lat', 'lon'):
        for k, v in zip(('min', 'max'), lim[ax]):
            if v is not None:
                opt['%s_%s_cnf' % (k, ax)] = v
    cf = cnf(H, **dict(opt, **kw))
    return H.imp('dedop.data.input.l1a', 'L1ADataset')('mem', c, d, cf), c, d, cf


def _plain_geo(H):
    """the conversions are decided elsewhere (G01, B02)"""
    H.replace('dedop.proc.geo', 'lla2ecef', lambda p, cc, lla_as_degrees=False: H.np.array([1.0, 2.0, 3.0]))
    L1 = H.imp('dedop.model', 'L1AProcessingData')
    for m in ('compute_location_sar_surf', 'compute_doppler_angle'):
        if hasattr(L1, m):
            H.patch(L1, m, lambda self: None)


@unit('I02', quick=[dict(n=2), dict(n=3, whole=False)], thorough=[dict(n=3), dict(n=4, whole=False)],
      scope='n records with arbitrary positions, each of the four limits set or not (whole), limits of the latitude only'
            ' (not whole)', max_paths=20000,
      witness=('no limits', 'all limits', 'record left out', 'last record in region', 'nothing in region',
               'by iteration', 'one at a time'))
def region(H, n, whole=True):
    _plain_geo(H)
    lat, lon = H.reals('lat', n, -80, 80), H.reals('lon', n, -170, 170)
    for i in range(n):
        H.apart(lat[i], 0)
        H.apart(lon[i], 0)
    t = [10.0 + i for i in range(n)]
    lim = {}
    cnt = 0
    for ax in ('lat', 'lon'):
        v = []
        for e in ('min', 'max'):
            if (whole or ax == 'lat') and H.flag(e + ax):
                cnt += 1
                v.append(H.real(e + '_' + ax, -80, 80))
                for x in (lat if ax == 'lat' else lon):
                    H.apart(x, v[-1])
            else:
                v.append(None)
        lim[ax] = tuple(v)
    H.note({0: 'no limits', 4: 'all limits'}.get(cnt, 'some'))
    ins = [_in(H, lat[i], lon[i], lim) for i in range(n)]
    want = [i for i in range(n) if ins[i]]
    if not want:
        H.note('nothing in region')
    elif ins[-1]:
        H.note('last record in region')
    if len(want) < n:
        H.note('record left out')
    f, _ = _file(H, n, {'lat': lat, 'lon': lon, 'time': t})
    r, err = H.try_(lambda: _dataset(H, n, None, lim))
    H.check('the product opens', err is None)
    if err is not None:
        return
    ds = r[0]
    if H.flag('iterate'):
        H.note('by iteration')
        got = list(ds)
    else:
        H.note('one at a time')
        got = []
        for _ in range(n + 2):
            try:
                got.append(next(ds))
            except StopIteration:
                break
        H.check('it ends', len(got) <= n)
    H.check('as many results as announced', len(got) == len(ds))
    packets = [p for p in got if p is not None]
    H.check('exactly the records in the region, in order', [p.time_sar_ku for p in packets] == [t[i] for i in want])
    for p, i in zip(packets, want):
        H.eq('position', p.lat_sar_sat, H.rad(lat[i]))
    if want:
        H.eq('first time', ds.first_time(), t[want[0]])
        H.eq('last time', ds.last_time(), t[want[-1]])
    for i in range(n):
        p = ds[i]
        H.check('a packet is found in the region or not', bool(ds.in_range(p)) == ins[i])
    ds.close()
    H.check('closed at the end', f.closed > 0)


@unit('I02', quick=[dict(n=2)], scope='records at zero latitude and longitude are void; on one axis only they are not',
      witness=('void', 'equator', 'meridian', 'plain'))
def void_records(H, n):
    _plain_geo(H)
    lat, lon, ok = [], [], []
    for i in range(n):
        k = H.index('kind%d' % i, 4)
        H.note(['void', 'equator', 'meridian', 'plain'][k])
        a, b = H.real('lat%d' % i, 0.001, 80), H.real('lon%d' % i, -170, -0.001)
        lat.append(0.0 if k in (0, 1) else a)
        lon.append(0.0 if k in (0, 2) else b)
        ok.append(k != 0)
    _file(H, n, {'lat': lat, 'lon': lon, 'time': [10.0 + i for i in range(n)]})
    ds = _dataset(H, n, None)[0]
    got = [None if p is None else p.time_sar_ku for p in (list(ds) if H.flag('iterate') else [next(ds) for _ in range(n)])]
    H.check('void records come as nothing, others as they are', got == [10.0 + i if ok[i] else None for i in range(n)])


# packet field -> variable of the product, same unit
SAME = dict(time_sar_ku='time', isp_coarse_time='isp_coarse_time', isp_fine_time='isp_fine_time',
            sral_fine_time='sral_fine_time', days='UTC_day', seconds='UTC_sec', burst_sar_ku='burst_count_prod',
            alt_sar_sat='alt', alt_rate_sat_sar='orb_alt_rate', x_vel_sat_sar='x_vel', y_vel_sat_sar='y_vel',
            z_vel_sat_sar='z_vel', roll_sral_mispointing='roll_sral_mispointing',
            pitch_sral_mispointing='pitch_sral_mispointing', yaw_sral_mispointing='yaw_sral_mispointing',
            cog_cor='cog_cor', h0_sar='h0_applied', uso_cor='uso_cor', cor2_sar='cor2_applied',
            flag_time_status='flag_time_status', nav_bul_status='nav_bul_status', nav_bul_source='nav_bul_source',
            source_seq_count='seq_count', oper_instr='oper_instr', SAR_mode='SAR_mode', cl_gain='cl_gain',
            acq_stat='acq_stat', dem_eeprom='dem_eeprom', loss_track='loss_track', h0_nav_dem='h0_nav_dem',
            h0_applied='h0_applied', cor2_nav_dem='cor2_nav_dem', cor2_applied='cor2_applied', dh0='dh0',
            agccode_ku='agccode_ku', range_ku='range_ku', int_path_cor_ku='int_path_cor_ku', agc_ku='agc_ku',
            sig0_cal_ku='sig0_cal_ku', surf_type='surf_type')
DEG = dict(lat_sar_sat='lat', lon_sar_sat='lon', roll_sar='roll_sral_mispointing', pitch_sar='pitch_sral_mispointing',
           yaw_sar='yaw_sral_mispointing')


@unit('I03', quick=[dict(n=3)], thorough=[dict(n=3), dict(n=5)],
      scope='n records, all scalar variables arbitrary, read in any order', witness=('ran',))
def scalars(H, n):
    _plain_geo(H)
    names = sorted(set(SAME.values()) | set(DEG.values()))
    val = {}
    for k in names:
        lo, hi = (-80, 80) if k in ('lat', 'lon') else (-9, 9)
        val[k] = H.reals(k, n, lo, hi)
    val['pitch_sat_pointing'] = H.reals('pitch_sat', n, -1, 1)
    _file(H, n, val)
    C = H.real('c', 1, 8)
    uso, mult = H.real('uso', 1, 4), H.real('mult', 1, 4)
    prf = H.real('prf', 1, 4)
    c = cst(H, c_cst=C)
    d = chd(H, c, N_ku_pulses_burst_chd=2, N_samples_sar_chd=2, uso_freq_nom_chd=uso, alt_freq_multiplier_chd=mult,
            prf_sar_chd=prf)
    ds = H.imp('dedop.data.input.l1a', 'L1ADataset')('mem', c, d, cnf(H))
    for turn in range(2):
        i = H.index('i%d' % turn, n)
        p = ds[i]
        for f, v in SAME.items():
            H.eq('%s is %s of the record' % (f, v), getattr(p, f), val[v][i])
        for f, v in DEG.items():
            H.eq('%s is %s of the record, in radians' % (f, v), getattr(p, f), H.rad(val[v][i]))
        rng = val['range_ku'][i] + H.math.cos(H.rad(val['pitch_sat_pointing'][i])) * val['cog_cor'][i]
        H.eq('window delay', p.win_delay_sar_ku, 2 * rng / C)
        H.eq('pulse interval', p.pri_sar_pre_dat, 1 / prf)
        H.eq('clock period', p.t0_sar, 1 / (uso * mult))
        H.check('record number', p.seq_count_sar == i)
        sp = H.math.sqrt(val['x_vel'][i] ** 2 + val['y_vel'][i] ** 2 + val['z_vel'][i] ** 2)
        H.eq('speed', p.vel_sat_sar_norm, sp)
    H.note('ran')


@unit('I03', quick=[dict(n=2, P=2, N=2, T=2)], thorough=[dict(n=2, P=3, N=2, T=3), dict(n=3, P=2, N=3, T=2)],
      scope='n records of P pulses and N samples, gain arbitrary; calibration arrays and table number arbitrary',
      witness=('ran',))
def waveforms(H, n, P, N, T):
    _plain_geo(H)

    def cube(k, *dims):
        if len(dims) == 1:
            return H.reals(k, dims[0], -4, 4)
        return [cube('%s_%d' % (k, i), *dims[1:]) for i in range(dims[0])]
    I, Q = cube('i', n, P, N), cube('q', n, P, N)
    agc = H.reals('agc', n, -20, 60)
    pw, ph, g = cube('pw', n, P), cube('ph', n, P), cube('g', n, T, N)
    _file(H, n, {'i_meas_ku': I, 'q_meas_ku': Q, 'agc_ku': agc, 'burst_power_cor_ku': pw, 'burst_phase_cor_ku': ph,
                 'gprw_meas_ku': g})
    t = H.index('table', T)
    ds = _dataset(H, n, None, flag_cal2_table_index_cnf=t)[0]
    k = H.index('record', n)
    p = ds[k]
    if H.flag('twice'):
        p = ds[k]
    H.note('ran')
    H.check('shape', tuple(p.waveform_cor_sar.shape) == (P, N))
    for a in range(P):
        for b in range(N):
            # the measured gain is taken out: amplitude times 10^(gain/20)
            H.eq('sample[%d][%d]' % (a, b), p.waveform_cor_sar[a, b],
                 H.mkc(I[k][a][b], Q[k][a][b]) * 10 ** (agc[k] / 20))
    H.eqs('power correction', H.flat(p.cal1_power), pw[k])
    H.eqs('phase correction', H.flat(p.cal1_phase), ph[k])
    H.eqs('transfer function table', H.flat(p.cal2_array), g[k][t])


@unit('I03', scope='global attributes present or absent; product names', witness=('ran',))
def global_attributes(H):
    names = ['mission_name', 'altimeter_sensor_name', 'gnss_sensor_name', 'doris_sensor_name', 'references',
             'acq_station_name', 'xref_altimeter_level0', 'xref_navatt_level0', 'xref_altimeter_orbit',
             'xref_doris_uso', 'xref_altimeter_ltm_lrm_cal1', 'xref_altimeter_ltm_sar_cal1',
             'xref_altimeter_ltm_ku_cal2', 'xref_altimeter_ltm_c_cal2', 'xref_altimeter_characterisation',
             'xref_time_correlation', 'xref_platform', 'history']
    drop = H.pick('missing', [None] + names)
    at = {k: 'value of ' + k for k in names if k != drop}
    at['product_name'] = 'S3A_SR_1_SRA_A__2016.SEN3'
    _file(H, 2, {}, attrs=at)
    g = _dataset(H, 2, None)[0].read_globals()
    H.note('ran')
    for k in names:
        H.check('attribute ' + k, getattr(g, k, 'not there') == at.get(k))
    H.check('L1B product name', g.get_l1b_product_name() == 'S3A_SR_1_SRA____2016.SEN3')
    H.check('L1BS product name', g.get_l1bs_product_name() == 'S3A_SR_1_SRA_BS_2016.SEN3')
