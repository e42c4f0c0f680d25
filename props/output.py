"""O01..O03: the output products"""
import math
from symx.harness import unit
from props._common import cst, chd, cnf, _guard
from props import _nc

K = 3          # looks in a product
N = 2          # samples
ZP = 2

# output variable (without suffix) -> (kind, source); kinds: s surface, b closest burst, sd/bd the same in degrees
COMMON = {
    'time': ('s', 'time_surf'), 'lat': ('sd', 'lat_surf'), 'lon': ('sd', 'lon_surf'), 'alt': ('s', 'alt_sat'),
    'orb_alt_rate': ('s', 'alt_rate_sat'),
    'x_pos': ('s', 'x_sat'), 'y_pos': ('s', 'y_sat'), 'z_pos': ('s', 'z_sat'),
    'x_vel': ('s', 'x_vel_sat'), 'y_vel': ('s', 'y_vel_sat'), 'z_vel': ('s', 'z_vel_sat'),
    'int_path_cor_ku': ('b', 'int_path_cor_ku'), 'uso_cor': ('b', 'uso_cor'), 'agccode_ku': ('b', 'agccode_ku'),
    'agc_ku': ('b', 'agc_ku'), 'sig0_cal_ku': ('b', 'sig0_cal_ku'), 'surf_type': ('b', 'surf_type'),
    'scale_factor_ku': ('s', 'sigma0_scaling_factor'), 'max_stack': ('s', 'stack_max'),
    'stdev_stack': ('s', 'stack_std'), 'skew_stack': ('s', 'stack_skewness'), 'kurt_stack': ('s', 'stack_kurtosis'),
}
L1B = dict(COMMON, **{k: ('b', k) for k in (
    'isp_coarse_time', 'isp_fine_time', 'sral_fine_time', 'flag_time_status', 'nav_bul_status', 'nav_bul_source',
    'oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat', 'dem_eeprom', 'loss_track', 'h0_nav_dem', 'h0_applied',
    'cor2_nav_dem', 'cor2_applied', 'dh0')}, seq_count=('b', 'source_seq_count'))
EXT = dict(L1B, roll_sat_pointing=('sd', 'roll_sat'), pitch_sat_pointing=('sd', 'pitch_sat'),
           yaw_sat_pointing=('sd', 'yaw_sat'), nb_stack=('s', 'n_beams_start_stop'),
           start_look_angle_stack=('s', 'start_look_angle'), stop_look_angle_stack=('s', 'stop_look_angle'),
           start_beam_ang_stack=('s', 'start_beam_angle'), stop_beam_ang_stack=('s', 'stop_beam_angle'))
STD = dict(L1B, nb_stack=('s', 'data_stack_size'))
L1BS = dict(COMMON, meas_x_pos=('s', 'x_surf'), meas_y_pos=('s', 'y_surf'), meas_z_pos=('s', 'z_surf'),
            roll_sat_pointing=('sd', 'roll_sat'), pitch_sat_pointing=('sd', 'pitch_sat'),
            yaw_sat_pointing=('sd', 'yaw_sat'),
            roll_sral_mispointing=('b', 'roll_sral_mispointing'),
            pitch_sral_mispointing=('b', 'pitch_sral_mispointing'),
            yaw_sral_mispointing=('b', 'yaw_sral_mispointing'), cog_cor=('b', 'cog_cor'),
            nb_stack=('s', 'data_stack_size'), burst_start_ind=('s', 'start_burst_index'),
            burst_stop_ind=('s', 'stop_burst_index'), start_look_angle_stack=('s', 'start_look_angle'),
            stop_look_angle_stack=('s', 'stop_look_angle'), start_beam_ang_stack=('s', 'start_beam_angle'),
            stop_beam_ang_stack=('s', 'stop_beam_angle'))
NEVER = {'L1BWriterExtended': ['flag_man_pres', 'flag_man_thrust', 'flag_man_plane', 'flag_gnss_status',
                               'nav_bul_coarse_time', 'nav_bul_fine_time', 'weighting', 'range_rate', 'beam_form']}
KINDS = {'L1BWriterExtended': ('_l1b_echo_sar_ku', EXT), 'L1BWriter': ('_l1b_echo_sar_ku', STD),
         'L1BSWriter': ('_l1bs_echo_sar_ku', L1BS)}

# physical ranges (SI, radians) the products must be able to hold, and the resolution they must keep (stored unit)
RANGE = dict(lat_surf=(-1.5707, 1.5707), lon_surf=(-3.1415, 3.1415), alt_sat=(690e3, 860e3), alt_rate_sat=(-40, 40),
             roll_sat=(-0.017, 0.017), pitch_sat=(-0.017, 0.017), yaw_sat=(-0.017, 0.017),
             start_look_angle=(-0.03, 0.03), stop_look_angle=(-0.03, 0.03), start_beam_angle=(1.541, 1.6),
             stop_beam_angle=(1.541, 1.6), stack_std=(0, 1), stack_skewness=(-500, 500), stack_kurtosis=(-500, 500),
             sigma0_scaling_factor=(-300, 300), stack_max=(0, 4e5), time_surf=(0, 1e9),
             agc_ku=(0, 100), agccode_ku=(0, 100), sig0_cal_ku=(-100, 100), uso_cor=(-500, 500),
             int_path_cor_ku=(-500, 500), cog_cor=(-3, 3), surf_type=(0, 3), roll_sral_mispointing=(-1, 1),
             pitch_sral_mispointing=(-1, 1), yaw_sral_mispointing=(-1, 1), flag_time_status=(0, 3),
             isp_coarse_time=(0, 4e9), isp_fine_time=(0, 2 ** 24), sral_fine_time=(0, 4e9), source_seq_count=(0, 16383),
             nav_bul_status=(0, 3), nav_bul_source=(0, 3), oper_instr=(0, 1), SAR_mode=(0, 2), cl_gain=(0, 1),
             acq_stat=(0, 3), dem_eeprom=(0, 2), loss_track=(0, 1), h0_nav_dem=(0, 4e9), h0_applied=(0, 4e9),
             cor2_nav_dem=(-32000, 32000), cor2_applied=(-32000, 32000), dh0=(-2e9, 2e9),
             n_beams_start_stop=(0, 512), data_stack_size=(0, 512), start_burst_index=(0, 1e6),
             stop_burst_index=(0, 1e6), win_delay_surf=(690e3 * 2 / 299792458.0, 860e3 * 2 / 299792458.0))
RESOLUTION = dict(lat=1e-6, lon=1e-6, alt=1e-4, orb_alt_rate=0.01, roll_sat_pointing=1e-4, pitch_sat_pointing=1e-4,
                  yaw_sat_pointing=1e-4, range_ku=1e-4, uso_cor=1e-4, int_path_cor_ku=1e-4, agc_ku=0.01,
                  scale_factor_ku=0.01, agc_cor_ku=0.01, sig0_cal_ku=0.01, stdev_stack=1e-6, skew_stack=1e-6,
                  kurt_stack=1e-6, beam_ang=1e-6, look_ang=1e-6, start_look_angle_stack=1e-6,
                  stop_look_angle_stack=1e-6, start_beam_ang_stack=1e-6, stop_beam_ang_stack=1e-6, cog_cor=1e-4,
                  max_stack=0.01, roll_sral_mispointing=1e-4, pitch_sral_mispointing=1e-4,
                  yaw_sral_mispointing=1e-4, stack_scale_factor_ku=0.01)


def _vals(H, tag, names, table):
    out = {}
    for k in names:
        lo, hi = table.get(k, (-9e6, 9e6))
        out[k] = H.real('%s_%s' % (tag, k), lo, hi)
    return out


SURF = sorted({v[1] for t in (EXT, STD, L1BS) for v in t.values() if v[0][0] == 's'} | {'win_delay_surf'})
BURST = sorted({v[1] for t in (EXT, STD, L1BS) for v in t.values() if v[0][0] == 'b'})


# what a surface and a burst hold besides the values the products take: (name, lowest, highest)
OTHER_S = [('lat_sat', -1.5, 1.5), ('lon_sat', -3, 3), ('alt_surf', -500, 8000), ('x_surf', -6e6, 6e6), ('y_surf', -6e6, 6e6),
           ('z_surf', -6e6, 6e6), ('angular_azimuth_beam_resolution', 1e-5, 1e-3), ('t0_surf', 1e-9, 4e-9),
           ('focus_target_distance', 0, 1e6), ('start_doppler_angle', -0.03, 0.03), ('stop_doppler_angle', -0.03, 0.03),
           ('start_pointing_angle', -0.03, 0.03), ('stop_pointing_angle', -0.03, 0.03)]
STACK_S = [('pointing_angles_surf', -0.03, 0.03), ('doppler_angles_surf', -0.03, 0.03), ('look_index_surf', 0, 63),
           ('look_counter_surf', 0, 500), ('stack_mask_vector', 0, 512), ('range_sat_surf', 7e5, 8e5),
           ('slant_range_corrections', -1, 1), ('doppler_corrections', -1, 1), ('win_delay_corrections', -1, 1)]
BURSTS_S = [('look_angles_start_stop', -0.03, 0.03)]
OTHER_B = [('days', 0, 20000), ('seconds', 0, 86400), ('time_sar_ku', 0, 1e9), ('burst_sar_ku', 0, 1e6), ('lat_sar_sat', -1.5, 1.5),
           ('lon_sar_sat', -3, 3), ('alt_sar_sat', 7e5, 8e5), ('alt_rate_sat_sar', -40, 40), ('x_sar_sat', -7e6, 7e6),
           ('y_sar_sat', -7e6, 7e6), ('z_sar_sat', -7e6, 7e6), ('x_vel_sat_sar', -8e3, 8e3), ('y_vel_sat_sar', -8e3, 8e3),
           ('z_vel_sat_sar', -8e3, 8e3), ('win_delay_sar_ku', 0.0046, 0.0057), ('range_ku', 7e5, 8e5), ('t0_sar', 1e-9, 4e-9),
           ('pri_sar_pre_dat', 5e-5, 6e-5), ('ambiguity_order_sar', 0, 0), ('inst_id_sar_isp', 0, 0), ('lat_sar_surf', -1.5, 1.5),
           ('lon_sar_surf', -3, 3), ('alt_sar_surf', -500, 8000), ('x_sar_surf', -6e6, 6e6), ('y_sar_surf', -6e6, 6e6),
           ('z_sar_surf', -6e6, 6e6), ('doppler_angle_sar_sat', -0.03, 0.03)]


class Case:
    """one surface with symbolic contents: everything a real one and its bursts hold is there"""

    def others(self, H, tag, few):
        one = (lambda n, lo, hi: H.real(tag + n, lo, hi)) if not few else (lambda n, lo, hi: 33.0)
        for n, lo, hi in OTHER_S:
            if n not in self.s:
                self.values[n] = one('x' + n, lo, hi)
        for n, lo, hi in STACK_S + BURSTS_S:
            if n not in self.values:
                self.values[n] = H.arr([one('x%s%d' % (n, i), lo, hi) for i in range(K if (n, lo, hi) in STACK_S else self.size)])
        self.values.setdefault('surf_sat_vector', H.arr([one('xv%d' % i, -1e6, 1e6) for i in range(3)]))
        for n in ('beams_surf', 'beams_geo_corr', 'beams_range_compr', 'beams_range_compr_iq', 'beams_masked'):
            self.values.setdefault(n, H.arr([[H.mkc(0.5, 0.125) if n != 'beams_masked' else 0.5 for _ in range(N * ZP)]
                                             for _ in range(K)]))

    def burst_others(self, H, tag, few):
        one = (lambda n, lo, hi: H.real(tag + n, lo, hi)) if not few else (lambda n, lo, hi: 33.0)
        out = {n: one('y' + n, lo, hi) for n, lo, hi in OTHER_B if n not in self.b}
        b = self.b
        out.update(h0_sar=b['h0_applied'], cor2_sar=b['cor2_applied'])
        for a in ('roll', 'pitch', 'yaw'):
            out[a + '_sar'] = b[a + '_sral_mispointing'] * (math.pi / 180)
        return out

    def __init__(self, H, tag, c, d, closest, size, few=False, **burst):
        S, B = H.imp('dedop.model', 'SurfaceData', 'L1AProcessingData')
        S, B = _guard(S), _guard(B)
        self.s = _vals(H, tag, SURF, RANGE) if not few else {k: 1.0 for k in SURF}
        if few:
            self.s.update(lat_surf=0.5, lon_surf=0.5, alt_sat=7e5, start_beam_angle=1.57, stop_beam_angle=1.57)
        self.b = _vals(H, tag + 'b', BURST, RANGE) if not few else {k: 1.0 for k in BURST}
        self.b.update(burst)
        self.size = size
        others = {k: 55.0 for k in BURST}
        more = self.burst_others(H, tag, few)
        bursts = [B(c, d, 90 + i, **(dict(more, **self.b) if i == closest else dict({k: 44.0 for k in more}, **others)))
                  for i in range(size)]
        self.t = dict(prev_tai=H.real(tag + 'tai', 0, 1e9), prev_utc_days=H.int(tag + 'day', 0, 20000),
                      prev_utc_secs=H.real(tag + 'sec', 0, 86400), curr_day_length=86400.0) if not few else \
            dict(prev_tai=1.0, prev_utc_days=7, prev_utc_secs=5.0, curr_day_length=86400.0)
        f = (lambda n, k, lo, hi: H.reals(tag + n, k, lo, hi)) if not few else (lambda n, k, lo, hi: [(lo + hi) / 2] * k)
        self.wfm = f('w', N * ZP, 0.5, 4)
        self.beam = f('ba', K, 1.541, 1.6)
        self.look = f('la', K, -0.03, 0.03)
        self.beam_ss = f('bs', size, 1.541, 1.6)
        self.mask = f('mv', size, 0, 512)
        self.s0 = f('s0', K, -300, 300)
        vals = dict(self.s)
        vals.update(self.t)
        vals.update(stack_bursts=bursts, closest_burst_index=closest, waveform_multilooked=H.arr(self.wfm),
                    beam_angles_surf=H.arr(self.beam), look_angles_surf=H.arr(self.look),
                    beam_angles_start_stop=H.arr(self.beam_ss), stack_mask_vector_start_stop=H.arr(self.mask),
                    sigma0_scaling_factor_beam=H.arr(self.s0))
        self.iq = None
        self.values = vals
        self.others(H, tag, few)
        self.cls, self.conf = S, (c, d)

    def with_iq(self, H, tag, few=False):
        rng = range(K * N * ZP)
        if few:
            self.iq = [[H.mkc(1.0, 2.0)] * (N * ZP) for _ in range(K)]
        else:
            it = iter(rng)
            self.iq = [[H.cplx('%siq%d' % (tag, next(it))) if (j < 2 and i < 1) else H.mkc(0.25, -0.5)
                        for j in range(N * ZP)] for i in range(K)]
        self.values['beams_range_compr_iq'] = H.arr(self.iq)
        return self

    def surface(self, num):
        plain = [k for k in ('look_index_surf', 'look_counter_surf') if not hasattr(self.cls, k)]
        out = self.cls(self.conf[0], self.conf[1], num, **{k: v for k, v in self.values.items() if k not in plain})
        for k in plain:
            setattr(out, k, self.values[k])
        return out


def _writer(H, kind):
    if not H.sym and kind is None:
        return
    opened = _nc.install(H, lambda path, mode: _nc.Dataset(path, mode))
    import os
    H.patch(os, 'makedirs', lambda *a, **k: None)
    c = cst(H)
    d = chd(H, c, N_samples_sar_chd=N)
    f = cnf(H, N_looks_stack_cnf=K, zp_fact_range_cnf=ZP)
    w = H.imp('dedop.data.output', kind)(filename='mem/x.nc', chd=d, cnf=f, cst=c)
    w.open()
    return w, opened[-1], c, d


def _want(H, case, kind, src, c):
    k, n = src
    v = case.s[n] if k[0] == 's' else case.b[n]
    return H.deg(v) if k.endswith('d') else v


def _scalars(H, ds, i, kind, case, c, tail=''):
    suf, table = KINDS[kind]
    for name, src in table.items():
        v = ds.variables.get(name + suf)
        H.check('%s is in the product' % name, v is not None)
        if v is None:
            continue
        rec = v.record(i)
        H.check('%s has one value%s' % (name, tail), list(rec) == [()])
        if list(rec) == [()]:
            H.eq('%s is %s%s' % (name, src[1], tail), rec[()], _want(H, case, kind, src, c))
    rec = ds.variables['range_ku' + suf].record(i)
    H.eq('range is half the window delay times c' + tail, rec.get(()), case.s['win_delay_surf'] * c.c / 2)
    if suf == '_l1b_echo_sar_ku':
        H.eq('gain correction' + tail, ds.variables['agc_cor_ku' + suf].record(i).get(()),
             case.b['agc_ku'] - case.b['agccode_ku'])
        H.eq('GPS time' + tail, ds.variables['GPS_time' + suf].record(i).get(()),
             case.s['time_surf'] + 7300 * 86400 - 19)


def _vector(H, ds, name, i, want, label=None):
    v = ds.variables[name]
    rec = v.record(i)
    H.check('%s has %d values' % (name, len(want)), sorted(rec) == [(j,) for j in range(len(want))])
    if len(rec) == len(want):
        for j, x in enumerate(want):
            H.eq('%s[%d]' % (name, j), rec.get((j,)), x)


@unit('O01', quick=[dict(kind=k) for k in KINDS], scope='one record, all contents arbitrary, nearest burst anywhere in '
      'a stack of 1 to 3', witness=('ran',), timeout_ms=20000)
def record(H, kind):
    w, ds, c, d = _writer(H, kind)
    size = H.pick('size', [1, 2, 3])
    closest = H.index('closest', size)
    case = Case(H, 'a', c, d, closest, size)
    if kind == 'L1BSWriter':
        case.with_iq(H, 'a', few=True)
    H.engine()
    w.write_record(case.surface(5))
    H.note('ran')
    _scalars(H, ds, 0, kind, case, c)
    suf = KINDS[kind][0]
    if kind == 'L1BWriterExtended':
        _vector(H, ds, 'beam_ang' + suf, 0, case.beam)
        _vector(H, ds, 'look_ang' + suf, 0, case.look)
        _vector(H, ds, 'stack_mask_vector' + suf, 0, case.mask)
        _vector(H, ds, 'stack_scale_factor_ku' + suf, 0, case.s0)
    elif kind == 'L1BWriter':
        _vector(H, ds, 'beam_ang' + suf, 0, [-x for x in case.look])
    else:
        _vector(H, ds, 'beam_ang' + suf, 0, case.beam_ss)
        H.check('record number', ds.variables['records_count' + suf].record(0).get(()) == 5)
    for n in NEVER.get(kind, []):
        H.check('%s stays unset' % n, not ds.variables[n + suf].record(0))


@unit('O01', quick=[dict(kind=k, n=3) for k in KINDS], thorough=[dict(kind=k, n=5) for k in KINDS],
      scope='n records one after the other, the value of one of them arbitrary; a record whose write fails',
      witness=('ran', 'sizes differ'))
def sequence(H, kind, n):
    w, ds, c, d = _writer(H, kind)
    suf = KINDS[kind][0]
    at = H.index('which', n)
    cases = []
    for i in range(n):
        size = 1 + (i + at) % 3
        case = Case(H, 'r%d' % i, c, d, 0, size, few=True)
        case.s['alt_sat'] = case.values['alt_sat'] = H.real('alt', 7e5, 8e5) if i == at else 7e5 + i
        case.s['time_surf'] = case.values['time_surf'] = 10.0 + i
        if kind == 'L1BSWriter':
            case.with_iq(H, 'r%d' % i, few=True)
        w.write_record(case.surface(i))
        cases.append(case)
    H.note('ran')
    H.note('sizes differ')
    for i, case in enumerate(cases):
        _scalars(H, ds, i, kind, case, c, ' (record %d)' % i)
        if kind == 'L1BSWriter':
            _vector(H, ds, 'beam_ang' + suf, i, case.beam_ss)
        elif kind == 'L1BWriterExtended':
            _vector(H, ds, 'stack_mask_vector' + suf, i, case.mask)
    for name, v in ds.variables.items():
        H.check('%s: no other records' % name, all(p[0] < n for p in v._cells))
    H.check('not closed before', ds.closed == 0)
    w.close()
    H.check('closed', ds.closed == 1)


@unit('O02', quick=[dict(kind=k) for k in KINDS], scope='any time, reference time and day; any length of day',
      witness=('same day', 'next day'))
def utc(H, kind):
    w, ds, c, d = _writer(H, kind)
    case = Case(H, 'a', c, d, 0, 1, few=True)
    if kind == 'L1BSWriter':
        case.with_iq(H, 'a', few=True)
    tai, dt = H.real('tai', 0, 1e6), H.real('dt', 0, 100)
    L = H.real('day_length', 86399, 86401)
    sec, day = H.real('sec', 0, 86401), H.int('day', 0, 30000)
    H.assume(sec < L)
    exact = H.flag('at midnight')
    if exact:
        H.assume(sec + dt == L)
        # keep the replay exact
        H.assume(L == 86400, tai == 512)
        H.assume(dt * 16 == H.int('dt16', 0, 1600))
    else:
        H.apart(sec + dt, L, 1e-4)
    case.values.update(prev_tai=tai, prev_utc_secs=sec, prev_utc_days=day, curr_day_length=L, time_surf=tai + dt)
    w.write_record(case.surface(0))
    suf = KINDS[kind][0]
    s = ds.variables['UTC_sec' + suf].record(0).get(())
    dd = ds.variables['UTC_day' + suf].record(0).get(())
    over = bool(sec + dt >= L)
    H.note('next day' if over else 'same day')
    H.eq('UTC day', dd, day + 1 if over else day)
    H.eq('UTC second of the day', s, sec + dt - L if over else sec + dt, atol=1e-4)


@unit('O03', quick=[dict(kind='L1BWriterExtended'), dict(kind='L1BWriter'), dict(kind='L1BSWriter')],
      scope='arbitrary waveforms of 4 samples, not all zero, any gain; stacks with two arbitrary complex samples',
      witness=('ran',), max_paths=4000, wall=240)
def samples(H, kind):
    w, ds, c, d = _writer(H, kind)
    suf = KINDS[kind][0]
    agc = H.real('agc', 0, 60)
    case = Case(H, 'a', c, d, 0, 1, few=True, agc_ku=agc)
    wf = [H.real('w%d' % i, 0, 100) for i in range(N * ZP)]
    H.assume(H.OR(*[x >= 0.01 for x in wf]))
    case.values['waveform_multilooked'] = H.arr(wf)
    if kind == 'L1BSWriter':
        case.with_iq(H, 'a')
    w.write_record(case.surface(0))
    H.note('ran')
    rec = ds.variables['i2q2_meas_ku' + suf].record(0)
    H.check('all samples', sorted(rec) == [(i,) for i in range(N * ZP)])
    if kind == 'L1BWriterExtended':
        scale = ds.variables['i2q2_scale_factor' + suf].record(0).get(())
        a = ds.variables['i2q2_meas_ku' + suf]._attrs
        for i in range(N * ZP):
            H.eq('sample %d times scale is the power' % i, rec[(i,)] * scale, wf[i])
            H.check('sample %d fits the number type' % i,
                    H.AND(rec[(i,)] >= 0, rec[(i,)] <= (2 ** 32 - 2) * a['scale_factor'] * (1 + 1e-12)))
    elif kind == 'L1BWriter':
        for i in range(N * ZP):
            H.eq('sample %d is the power' % i, rec[(i,)], wf[i])
    else:
        for i in range(N * ZP):
            H.eq('sample %d is the power without gain' % i, rec[(i,)], wf[i] * 10 ** (-agc / 10))
        q = ds.variables['iq_scale_factor' + suf].record(0).get(())
        I, Q = ds.variables['i_echoes_ku' + suf].record(0), ds.variables['q_echoes_ku' + suf].record(0)
        H.check('all looks', len(I) == len(Q) == K * N * ZP)
        for a in range(K):
            for b in range(N * ZP):
                z = H.mkc(I[(a, b)], Q[(a, b)]) * q
                H.eq('look %d sample %d times scale' % (a, b), z, case.iq[a][b])
                for v in (I[(a, b)], Q[(a, b)]):
                    H.check('look %d sample %d fits a byte' % (a, b), H.AND(v <= 127.000001, v >= -127.000001))


@unit('O03', quick=[dict(looks=300)], thorough=[dict(looks=300), dict(looks=512)],
      scope='a stack of a real number of looks, all alike but for an arbitrary complex sample in the first, a middle or '
            'the last look', witness=('ran',))
def large_stack(H, looks):
    global K
    was, K = K, looks
    try:
        w, ds, c, d = _writer(H, 'L1BSWriter')
        case = Case(H, 'a', c, d, 0, 1, few=True)
    finally:
        K = was
    row, col = H.pick('row', [0, 100, 127, 128, 200, 240, 255, 256, looks - 1]), H.pick('column', [0, N * ZP - 1])
    z = H.cplx('sample')
    plain = H.mkc(0.25, -0.5)
    rows = [[plain] * (N * ZP) for _ in range(looks)]
    rows[row] = [z if j == col else plain for j in range(N * ZP)]
    case.values.update(beams_range_compr_iq=H.arr(rows), data_stack_size=looks)
    w.write_record(case.surface(0))
    H.note('ran')
    suf = KINDS['L1BSWriter'][0]
    q = ds.variables['iq_scale_factor' + suf].record(0).get(())
    I, Q = ds.variables['i_echoes_ku' + suf].record(0), ds.variables['q_echoes_ku' + suf].record(0)
    H.check('all looks', len(I) == len(Q) == looks * N * ZP)
    for a in sorted({0, 1, 127, 128, 255, 256, row, looks - 1}):
        for b in (0, N * ZP - 1):
            i, j = I[(a, b)], Q[(a, b)]
            H.eq('look %d sample %d times scale' % (a, b), H.mkc(i, j) * q, z if (a, b) == (row, col) else plain)
            H.check('look %d sample %d fits a byte' % (a, b),
                    H.AND(i <= 127.000001, i >= -127.000001, j <= 127.000001, j >= -127.000001))


@unit('O03', quick=[dict(kind=k) for k in KINDS], scope='every scalar and angle variable over its physical range; '
      'resolution of each packed variable', witness=('ran',), timeout_ms=20000)
def packing(H, kind):
    np = H.np_real
    w, ds, c, d = _writer(H, kind)
    case = Case(H, 'a', c, d, 0, 3)
    if kind == 'L1BSWriter':
        case.with_iq(H, 'a', few=True)
    H.assume(case.t['prev_tai'] == case.s['time_surf'])
    w.write_record(case.surface(0))
    H.note('ran')
    suf = KINDS[kind][0]
    skip = {'i2q2_meas_ku', 'i_echoes_ku', 'q_echoes_ku'}
    for name, v in ds.variables.items():
        short = name[:-len(suf)] if name.endswith(suf) else name
        dt = np.dtype(v.dtype)
        fill = v._opts.get('fill_value')
        if 'flag_values' in v._attrs:
            means = v._attrs.get('flag_meanings', '')
            means = means.decode() if isinstance(means, bytes) else ' '.join(means) if isinstance(means, tuple) else means
            H.same('each value of %s has one meaning' % short, len(means.split()), len(set(v._attrs['flag_values'])))
        if short in skip or not v._cells:
            continue
        if fill is not None and dt.kind in 'iu':
            H.check('the fill value of %s can be stored' % short, np.iinfo(dt).min <= fill <= np.iinfo(dt).max)
        if dt.kind == 'f':
            H.check('%s is double' % short, dt.itemsize == 8 and 'scale_factor' not in v._attrs)
            continue
        info = np.iinfo(dt)
        sc, off = v._attrs.get('scale_factor', 1), v._attrs.get('add_offset', 0)
        if short in RESOLUTION:
            H.check('%s keeps its resolution' % short, sc <= RESOLUTION[short] * 1.000001)
        elif dt.kind in 'iu':
            H.check('%s is kept as it is' % short, sc == 1 and off == 0)
        for p, x in v._cells.items():
            H.check('%s%s fits its number type' % (short, list(p[1:]) or ''),
                    H.AND((x - off) / H.num(sc) >= int(info.min) - 0.5, (x - off) / H.num(sc) <= int(info.max) + 0.5))
            if fill is not None:
                y = (x - off) / H.num(sc) - int(fill)
                H.check('%s%s is not read back as missing' % (short, list(p[1:]) or ''), H.OR(y > 0.5, y < -0.5))


@unit('O01', scope='global attributes with a value, without one', witness=('ran',))
def global_attributes(H):
    kind = H.pick('kind', list(KINDS))
    w, ds, c, d = _writer(H, kind)
    x = H.real('axis', 6e6, 7e6)
    w.write_globals(title='a title', history=None, semi_major_ellipsoid_axis=x, contact=0, ellipsoid_flattening=0.0)
    H.note('ran')
    H.check('text', ds._attrs.get('title') == 'a title')
    H.check('missing', ds._attrs.get('history') == 'Not available')
    H.eq('number', ds._attrs.get('semi_major_ellipsoid_axis'), x)
    H.same('zero', ds._attrs.get('contact'), 0)
    H.same('zero as a float', ds._attrs.get('ellipsoid_flattening'), 0.0)
