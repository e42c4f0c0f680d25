"""Z01 azimuth focusing, B01/B02 beam angles, C01 instrument calibration"""
import math
from fractions import Fraction
from symx.harness import unit, HarnessGap
from props._common import cst, chd, cnf, surface, burst, norm3

ALG = 'dedop.proc.sar.algorithms.'


# ---------------------------------------------------------------- Z01
def _window(H, kind, P, width):
    """the taper over P pulses, centred, "width" pulses wide"""
    if kind == 'none':
        return [1] * P
    w = [0] * P
    start = P // 2 - width // 2
    for k in range(width):
        if kind == 'boxcar':
            v = 1
        else:
            co = math.cos(2 * math.pi * k / (width - 1))
            v = 0.5 - 0.5 * co if kind == 'hanning' else 0.54 - 0.46 * co
        w[start + k] = v
    return w


@unit('Z01', quick=[dict(P=4), dict(P=6)], thorough=[dict(P=4), dict(P=5), dict(P=8), dict(P=16)],
      scope='P pulses, every taper and every width from 2 to P', witness=('none', 'boxcar', 'hanning', 'hamming', 'used before'))
def window(H, P):
    c = cst(H)
    d = chd(H, c, N_ku_pulses_burst_chd=P, N_samples_sar_chd=1)
    kind = H.pick('kind', ['none', 'boxcar', 'hanning', 'hamming'])
    H.note(kind)
    width = H.pick('width', list(range(2, P + 1)))
    n = cnf(H, flag_azimuth_windowing_method_cnf=kind, azimuth_window_width_cnf=width,
            flag_azimuth_processing_method_cnf='exact')
    Alg = H.imp(ALG + 'azimuth_processing', 'AzimuthProcessingAlgorithm')
    X = [[H.cplx('x%d' % p)] for p in range(P)]
    # a beam at 90 degrees needs no phase: the focused beam is the plain sum of the tapered pulses
    b = burst(H, c, d, 0, vel=[0.0, 0.0, 7500.0], waveform_cor_sar=H.arr(X), beam_angles_list=[math.pi / 2],
              beam_angles_trend=1, pri_sar_pre_dat=1 / 17825., doppler_angle_sar_sat=0.0)
    alg = Alg(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        alg(burst(H, c, d, 90, vel=[0.0, 3.0, 4.0], waveform_cor_sar=H.arr([[H.mkc(1.0, 2.0)] * 1] * P),
                  beam_angles_list=[math.pi / 2] * P, beam_angles_trend=0, pri_sar_pre_dat=0.5,
                  doppler_angle_sar_sat=0.0), 0.5)
    alg(b, 0.022)
    w = _window(H, kind, P, width)
    want = sum(w[p] * X[p][0] for p in range(P)) / H.math.sqrt(H.num(P))
    H.eq('tapered sum', alg.beams_focused[0, 0], want, rtol=1e-5, atol=1e-5)


def _phase(H, v, wv, pri, ang, p):
    """two-way phase of pulse p for a look at angle ang"""
    return -4 * H.np.pi / wv * v * H.math.cos(ang) * pri * p


def _setup(H, P, N, method):
    c = cst(H)
    d = chd(H, c, N_ku_pulses_burst_chd=P, N_samples_sar_chd=N)
    n = cnf(H, flag_azimuth_windowing_method_cnf='none', flag_azimuth_processing_method_cnf=method)
    Alg = H.imp(ALG + 'azimuth_processing', 'AzimuthProcessingAlgorithm')
    X = [[H.cplx('x%d_%d' % (p, j)) for j in range(N)] for p in range(P)]
    vel = H.reals('v', 3, 0.5, 4)
    return c, d, Alg(d, c, n), X, vel, H.real('wv', 0.1, 4), H.real('pri', 0.1, 4)


@unit('Z01', quick=[dict(P=4, N=1)], thorough=[dict(P=4, N=2), dict(P=2, N=1), dict(P=6, N=1), dict(P=8, N=1)],
      scope='exact method, P pulses of N samples, one to P beams', witness=('ran', 'used before'))
def exact_method(H, P, N):
    c, d, alg, X, vel, wv, pri = _setup(H, P, N, 'exact')
    L = H.pick('beams', sorted({1, P // 2, P}))
    A = H.reals('a', L, 1.2, 1.9)
    b = burst(H, c, d, 0, vel=vel, waveform_cor_sar=H.arr(X), beam_angles_list=list(A), pri_sar_pre_dat=pri,
              beam_angles_trend=0 if L == P else H.pick('trend', [1, -1]), doppler_angle_sar_sat=0.0)
    if H.flag('used before'):
        H.note('used before')
        alg(burst(H, c, d, 90, vel=[0.0, 3.0, 4.0], waveform_cor_sar=H.arr([[H.mkc(1.0, 2.0)] * N] * P),
                  beam_angles_list=[math.pi / 2] * P, beam_angles_trend=0, pri_sar_pre_dat=0.5,
                  doppler_angle_sar_sat=0.0), 0.5)
    alg(b, wv)
    H.note('ran')
    v = norm3(H, vel)
    out = alg.beams_focused
    H.check('room for every beam', out.shape[0] >= L and out.shape[1] == N)
    for k in range(L):
        for j in range(N):
            want = 0
            for p in range(P):
                ph = _phase(H, v, wv, pri, A[k], p)
                want = want + X[p][j] * H.mkc(H.math.cos(ph), H.math.sin(ph))
            H.eq('beam[%d][%d]' % (k, j), out[k, j], want / H.math.sqrt(H.num(P)))


@unit('Z01', quick=[dict(P=4, N=1), dict(P=6, N=1)], thorough=[dict(P=4, N=2), dict(P=2, N=1), dict(P=6, N=1),
                                                              dict(P=8, N=1)],
      scope='approximate method, P pulses of N samples; full, growing and shrinking beam lists of every length',
      witness=('full', 'growing', 'shrinking', 'nadir outside', 'used before'))
def approximate_method(H, P, N):
    c, d, alg, X, vel, wv, pri = _setup(H, P, N, 'approx')
    L = H.index('beams', P) + 1
    trend = 0 if L == P else H.pick('trend', [1, -1])
    H.note({0: 'full', 1: 'growing', -1: 'shrinking'}[trend])
    A = H.reals('a', L, 1.2, 1.9)
    b = burst(H, c, d, 0, vel=vel, waveform_cor_sar=H.arr(X), beam_angles_list=list(A), pri_sar_pre_dat=pri,
              beam_angles_trend=trend, doppler_angle_sar_sat=0.0)
    if H.flag('used before'):
        H.note('used before')
        alg(burst(H, c, d, 90, vel=[0.0, 3.0, 4.0], waveform_cor_sar=H.arr([[H.mkc(1.0, 2.0)] * N] * P),
                  beam_angles_list=[math.pi / 2] * P, beam_angles_trend=0, pri_sar_pre_dat=0.5,
                  doppler_angle_sar_sat=0.0), 0.5)
    alg(b, wv)
    v = norm3(H, vel)
    h = P // 2
    # beam k of the list is beam k + off of the burst; the beam in the middle of the burst looks at nadir
    off = P - L if trend == 1 else 0
    nadir = h - off
    if not 0 <= nadir < L:
        H.note('nadir outside')
        nadir = 0 if nadir < 0 else L - 1
    y = []
    for p in range(P):
        ph = _phase(H, v, wv, pri, A[nadir], p)
        y.append([x * H.mkc(H.math.cos(ph), H.math.sin(ph)) for x in X[p]])
    out = alg.beams_focused
    for k in range(L):
        f = k + off - h
        for j in range(N):
            want = 0
            for p in range(P):
                ph = -2 * H.np.pi * H.num(Fraction((f * p) % P, P))
                want = want + y[p][j] * H.mkc(H.math.cos(ph), H.math.sin(ph))
            H.eq('beam[%d][%d]' % (k, j), out[k, j], want / H.math.sqrt(H.num(P)))


# ---------------------------------------------------------------- B01
@unit('B01', quick=[dict(S=3, P=2)], thorough=[dict(S=4, P=2), dict(S=4, P=3), dict(S=3, P=1)],
      scope='S surfaces along the track, at most P beams; positions, speed and Doppler angle arbitrary, two directions of flight',
      witness=('seen', 'none', 'too many', 'work seen', 'work not seen', 'used before'), max_paths=3000)
def visible_beams(H, S, P):
    C = H.real('c', 1, 8)
    c = cst(H, c_cst=C)
    prf = H.real('prf', 0.1, 1)
    freq = H.real('freq', 0.5, 8)
    d = chd(H, c, N_ku_pulses_burst_chd=P, prf_sar_chd=prf, freq_ku_chd=freq)
    n = cnf(H)
    v = H.real('speed', 0.5, 8)
    dop = H.real('doppler', -0.1, 0.1)
    ratio = C * prf / (4 * freq * v)
    H.assume(ratio < 1)
    x0, y0, z0 = H.reals('sat', 3, -4, 4)
    fwd, down = H.pick('frame', [((1, 2, 2), (2, 1, -2)), ((-2, 2, 1), (1, 2, -2))])
    fwd, down = ([H.num(Fraction(k, 3)) for k in w] for w in (fwd, down))
    b = burst(H, c, d, 0, vel=[v * k for k in fwd], pos=[x0, y0, z0], doppler_angle_sar_sat=dop)
    surfs, cosb = [], []
    for i in range(S):
        # surface in the orbit plane, ahead or behind, one unit below
        along = H.real('along%d' % i, -3, 3)
        r = H.math.sqrt(1 + along * along)
        cosb.append(along / r)
        at = [q + down[j] + along * fwd[j] for j, q in enumerate((x0, y0, z0))]
        surfs.append(surface(H, c, d, 10 + 2 * i, stage='gather', x_surf=at[0], y_surf=at[1], z_surf=at[2]))
    work = surfs[H.index('work', S)]
    alg = H.imp(ALG + 'beam_angles', 'BeamAnglesAlgorithm')(d, c, n)
    qmin = H.math.acos(ratio)
    ang = [H.math.acos(x) for x in cosb]
    for a in ang:
        H.apart(a - dop, qmin)
        H.apart(a - dop, H.np.pi - qmin)
    if H.flag('used before'):
        H.note('used before')
        ws = surface(H, c, d, 70, stage='gather', x_surf=-1.0, y_surf=0.0, z_surf=0.0)
        alg([ws], burst(H, c, d, 90, vel=[0.0, v, 0.0], pos=[0.0, 0.0, 0.0], doppler_angle_sar_sat=0.0), ws)
        kept = [(x, list(x)) for x in (alg.beam_angles, alg.surfaces_seen)]
    else:
        kept = []
    alg(surfs, b, work)
    # the lists stay with the burst they were made for
    H.check('lists of the burst before are left alone', all(len(x) == len(y) and all(p is q for p, q in zip(x, y))
                                                            for x, y in kept))
    vis = [bool(H.AND(qmin <= a - dop, a - dop <= H.np.pi - qmin)) for a in ang]
    # the first run of visible surfaces, and of those at most P, the last ones
    idx = []
    for i in range(S):
        if vis[i]:
            idx.append(i)
        elif idx:
            break
    H.note('seen' if idx else 'none')
    w = any(surfs[i] is work for i in idx)
    H.note('work seen' if w else 'work not seen')
    if len(idx) > P:
        H.note('too many')
    kept = idx[-P:]
    H.check('surfaces seen', list(alg.surfaces_seen) == [10 + 2 * i for i in kept])
    H.eqs('beam angle', alg.beam_angles, [ang[i] for i in kept])
    H.check('current surface seen', bool(alg.work_location_seen) == w)


# ---------------------------------------------------------------- B02 / burst geometry
def _made(H, obj, *names):
    """what the call just made is to have set"""
    for k in names:
        try:
            getattr(obj, k)
        except HarnessGap:
            H.check('%s is set' % k, False)
            return False
    return True


@unit('B02', quick=[dict(P=4)], thorough=[dict(P=4), dict(P=5), dict(P=64)],
      scope='beam lists of 0 to P beams after lists of -1 (none), 0 .. P beams', witness=('full', 'grow', 'shrink', 'same', 'first'))
def trend(H, P):
    c = cst(H)
    d = chd(H, c, N_ku_pulses_burst_chd=P)
    L = H.pick('n', list(range(P + 1)) if P < 10 else [0, 1, 31, 32, 33, 63, 64])
    b = burst(H, c, d, 0, beam_angles_list=[1.5] * L)
    prev = H.int('prev', -1, P)
    ptrend = H.pick('ptrend', [-1, 0, 1])
    b.calculate_beam_angles_trend(prev, ptrend)
    if not _made(H, b, 'beam_angles_trend'):
        return
    t = b.beam_angles_trend
    if L == P:
        H.note('full')
        H.eq('full list', t, 0)
    elif bool(prev == -1):
        H.note('first')
        H.eq('first burst grows', t, 1)
    elif bool(prev < L):
        H.note('grow')
        H.eq('growing', t, 1)
    elif bool(prev > L):
        H.note('shrink')
        H.eq('shrinking', t, -1)
    else:
        H.note('same')
        H.eq('same size keeps the trend', t, ptrend)


@unit('B02', quick=[dict(P=4)], thorough=[dict(P=4), dict(P=8), dict(P=64)],
      scope='beam number within the list, lists of 1 to P beams', witness=('grow', 'other'))
def look_number(H, P):
    c = cst(H)
    d = chd(H, c, N_ku_pulses_burst_chd=P)
    s = surface(H, c, d, 0, stage='gather')
    L = H.int('n', 1, P)
    k = H.int('k', 0, P - 1)
    H.assume(k < L)
    tr = H.pick('trend', [-1, 0, 1])
    s.add_stack_beam_index(k, tr, L)
    H.note('grow' if tr == 1 else 'other')
    H.eq('beam within the burst list', s.stack_all_beams_indices[-1], k)
    # the beam number counted from the middle of the burst, negative is before
    H.eq('look number', s.stack_all_beams_indices_abs[-1], (k + P - L if tr == 1 else k) - P // 2)
    b = burst(H, c, d, 3)
    s.add_stack_burst(b)
    H.check('burst is appended', s.stack_all_bursts[-1] is b and len(s.stack_all_bursts) == 1)


@unit('B02', scope='any position and window delay; Earth axes arbitrary', witness=('ran',))
def burst_position(H):
    C = H.real('c', 1, 8)
    c = cst(H, c_cst=C)
    d = chd(H, c)

    def lla(p, cc, lla_as_degrees=False):
        # any one-to-one map will do: the conversion itself is G01
        a, b, e = p
        return H.np.array([a + 2 * e, b - e, e + a * H.num(Fraction(1, 2))])
    H.replace('dedop.proc.geo', 'lla2ecef', lla)
    lat, lon, alt, wd = H.real('lat', -1.5, 1.5), H.real('lon', -3, 3), H.real('alt', 1, 8), H.real('wd', 0.1, 4)
    b = burst(H, c, d, 0, lat_sar_sat=lat, lon_sar_sat=lon, alt_sar_sat=alt, win_delay_sar_ku=wd)
    b.compute_location_sar_surf()
    H.note('ran')
    if not _made(H, b, *('%s_sar_%s' % (k, w) for k in 'xyz' for w in ('sat', 'surf'))):
        return
    H.eqs('satellite', [b.x_sar_sat, b.y_sar_sat, b.z_sar_sat], H.flat(lla((lat, lon, alt), c)))
    H.eqs('ground point lies the measured range below', [b.x_sar_surf, b.y_sar_surf, b.z_sar_surf],
          H.flat(lla((lat, lon, alt - wd * C / 2), c)))


@unit('B02', scope='satellite above any ground point, velocity in any direction', witness=('ran',))
def doppler_angle(H):
    c = cst(H)
    d = chd(H, c)
    g = H.reals('ground', 3, -2, 2)

    def lla(p, cc, lla_as_degrees=False):
        return H.np.array(list(g))
    H.replace('dedop.proc.geo', 'lla2ecef', lla)
    up = H.real('up', 1, 4)
    vh, vr = H.real('vh', 1, 4), H.real('vr', -0.3, 0.3)
    # satellite straight above the ground point along x; velocity mostly across, partly along the vertical
    th = H.real('heading', -3, 3)
    vel = [vr, vh * H.math.cos(th), vh * H.math.sin(th)]
    b = burst(H, c, d, 0, vel=vel, pos=[g[0] + up, g[1], g[2]], lat_sar_sat=0.1, lon_sar_sat=0.1, alt_sar_sat=1.0e6)
    b.compute_doppler_angle()
    H.note('ran')
    if not _made(H, b, 'doppler_angle_sar_sat'):
        return
    a = b.doppler_angle_sar_sat
    # the tilt of the velocity out of the horizontal plane, counted negative
    sp = H.math.sqrt(vh * vh + vr * vr)
    H.eq('cosine of the tilt', H.math.cos(a), vh / sp)
    H.le('not positive', a, 0)
    H.check('less than 90 degrees', a > -math.pi / 2)


# ---------------------------------------------------------------- C01
@unit('C01', quick=[dict(P=2, N=2)], thorough=[dict(P=3, N=2), dict(P=2, N=4), dict(P=4, N=4)],
      scope='P pulses of N samples; gains, power and phase corrections arbitrary', witness=('on', 'off', 'used before'))
def cal1(H, P, N):
    c = cst(H)
    d = chd(H, c, N_ku_pulses_burst_chd=P, N_samples_sar_chd=N)
    on = H.flag('on')
    H.note('on' if on else 'off')
    n = cnf(H, flag_cal1_corrections_cnf=on)
    X = [[H.cplx('x%d_%d' % (p, j)) for j in range(N)] for p in range(P)]
    pw, ph = H.reals('power', P, 0.1, 4), H.reals('phase', P, -3, 3)
    agc, cal = H.real('agc', -20, 60), H.real('sig0cal', -20, 60)
    b = burst(H, c, d, 0, waveform_cor_sar=H.arr(X, dtype=complex), cal1_power=H.arr(pw), cal1_phase=H.arr(ph), agc_ku=agc,
              sig0_cal_ku=cal)
    alg = H.imp('dedop.proc.sar.cal', 'CAL1Algorithm')(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        alg(burst(H, c, d, 90, waveform_cor_sar=H.arr([[H.mkc(1.0, 2.0)] * N] * P, dtype=complex), agc_ku=10.0,
                  sig0_cal_ku=0.0, cal1_power=H.arr([4.0] * P), cal1_phase=H.arr([0.0] * P)))
    alg(b)
    g = H.math.sqrt(10 ** ((agc - cal) / 10))
    out = b.waveform_cor_sar
    H.check('shape', tuple(out.shape) == (P, N))
    for p in range(P):
        k = H.math.sqrt(pw[p]) / g * H.mkc(H.math.cos(ph[p]), H.math.sin(ph[p])) if on else 1
        for j in range(N):
            H.eq('sample[%d][%d]' % (p, j), out[p, j], X[p][j] * k)


@unit('C01', quick=[dict(P=2, N=2), dict(P=1, N=4), dict(P=1, N=3)], thorough=[dict(P=2, N=4), dict(P=3, N=2), dict(P=1, N=3),
                                                              dict(P=1, N=6)],
      scope='P pulses of N samples; transfer function arbitrary positive', witness=('on', 'off', 'used before'))
def cal2(H, P, N):
    c = cst(H)
    d = chd(H, c, N_ku_pulses_burst_chd=P, N_samples_sar_chd=N)
    on = H.flag('on')
    H.note('on' if on else 'off')
    n = cnf(H, flag_cal2_correction_cnf=on)
    X = [[H.cplx('x%d_%d' % (p, j)) for j in range(N)] for p in range(P)]
    G = H.reals('g', N, 0.1, 4)
    b = burst(H, c, d, 0, waveform_cor_sar=H.arr(X), cal2_array=H.arr([g * g for g in G]))
    alg = H.imp('dedop.proc.sar.cal', 'CAL2Algorithm')(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        alg(burst(H, c, d, 90, waveform_cor_sar=H.arr([[H.mkc(1.0, 2.0)] * N] * P), cal2_array=H.arr([4.0] * N)))
    alg(b)
    out = b.waveform_cor_sar
    H.check('shape', tuple(out.shape) == (P, N))

    def tw(k):
        a = -2 * H.np.pi * H.num(Fraction(k % N, N))
        return H.mkc(H.math.cos(a), H.math.sin(a))
    for p in range(P):
        if not on:
            H.eqs('unchanged[%d]' % p, H.flat(out[p]), X[p])
            continue
        for k in range(N):
            # spectrum line k, counted from the lowest frequency as the table is
            f = k - N // 2
            si = sum(X[p][j] * tw(f * j) for j in range(N))
            so = sum(out[p, j] * tw(f * j) for j in range(N))
            H.eq('spectrum line divided by the transfer function[%d][%d]' % (p, k), so * G[k], si)
