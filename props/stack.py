"""K01..K06: the stack of looks of one surface, from gathering to the averaged waveform"""
import math
from fractions import Fraction
from symx.harness import unit
from props._common import cst, chd, cnf, surface, burst, norm3

ALG = 'dedop.proc.sar.algorithms.'


def rows(H, name, n, m, lo=-4, hi=4, f=None):
    f = f or H.real
    return [[f('%s_%d_%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)]


# ---------------------------------------------------------------- K04 masking
def _shift_parts(H, i, s):
    """three corrections which add up to the whole number s plus less than half a sample"""
    f = H.real('frac%d' % i, -0.45, 0.45)
    a = H.real('dop%d' % i, -3, 3)
    b = H.real('slant%d' % i, -3, 3)
    return a, b, s + f - a - b


@unit('K04', quick=[dict(N=2, zp=2, looks=3), dict(N=3, zp=1, looks=2)],
      thorough=[dict(N=2, zp=2, looks=3), dict(N=3, zp=1, looks=2), dict(N=4, zp=2, looks=2),
                dict(N=3, zp=3, looks=3), dict(N=6, zp=1, looks=2)],
      scope='up to "looks" looks, N samples, zero padding zp; misalignment up to one window beyond either edge; '
            'every stack size up to the limit', witness=('short stack', 'full stack', 'positive', 'negative', 'all masked', 'used before'))
def geometry_mask(H, N, zp, looks):
    c = cst(H)
    d = chd(H, c, N_samples_sar_chd=N)
    n = cnf(H, zp_fact_range_cnf=zp, N_looks_stack_cnf=looks, flag_stack_masking_cnf=True)
    Alg = H.imp(ALG + 'stack_masking', 'StackMaskingAlgorithm')
    size = H.pick('size', [1, 2])
    if size < looks:
        H.note('short stack')
    else:
        H.note('full stack')
    dop, sl, wn, ss = [0.0] * looks, [0.0] * looks, [0.0] * looks, []
    for i in range(size):
        s = H.index('s%d' % i, 2 * N + 3) - N - 1
        ss.append(s)
        dop[i], sl[i], wn[i] = _shift_parts(H, i, s)
        H.note('positive' if s > 0 else 'negative')
        if abs(s) >= N:
            H.note('all masked')
    B = rows(H, 'b', size, N * zp, 0, 4)
    alg = Alg(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        alg(surface(H, c, d, 7, stage='mask', data_stack_size=looks, doppler_corrections=H.arr([1.0] * looks),
                    slant_range_corrections=H.arr([0.25] * looks), win_delay_corrections=H.arr([-2.0] * looks),
                    beams_range_compr=H.arr([[3.0] * (N * zp)] * looks), look_angles_surf=H.arr([0.0] * looks)))
    s = surface(H, c, d, stage='mask', data_stack_size=size, doppler_corrections=H.arr(dop), slant_range_corrections=H.arr(sl),
                win_delay_corrections=H.arr(wn), beams_range_compr=H.arr(B), look_angles_surf=H.arr([0.0] * looks))
    alg(s)
    mask, vec, out = alg.stack_mask, alg.stack_mask_vector, alg.beams_masked
    H.check('mask has one row per look of the product', tuple(mask.shape) == (looks, N * zp))
    H.check('one output row per look in the stack', tuple(out.shape) == (size, N * zp))
    for i in range(looks):
        want = [0] * (N * zp)
        if i < size:
            for j in range(N * zp):
                # the sample j of the aligned waveform was inside the window before alignment
                want[j] = int(0 <= j - ss[i] * zp < N * zp) if ss[i] > 0 else int(j < (N + ss[i]) * zp)
        for j in range(N * zp):
            H.eq('mask value[%d][%d]' % (i, j), mask[i, j], want[j])
            if i < size:
                H.eq('masked beam[%d][%d]' % (i, j), out[i, j], B[i][j] * want[j])
        if want[-1] == 1:
            v = N * zp - 1
        elif 1 in want:
            v = max(j for j in range(N * zp) if want[j]) + 1
        else:
            v = 0
        H.eq('mask vector[%d]' % i, vec[i], v)


@unit('K04', quick=[dict(N=2, zp=1, looks=2)], thorough=[dict(N=2, zp=1, looks=3), dict(N=2, zp=2, looks=2)],
      scope='look angles and limits within +-3 degrees, limits given in degrees',
      witness=('limited', 'unlimited', 'one limit', 'cut', 'kept'))
def angle_mask(H, N, zp, looks):
    c = cst(H)
    lim = H.index('limits', 4)
    lo = H.real('lo', -3, 2.9)
    hi = H.real('hi', -2.9, 3)
    H.assume(lo + 0.01 < hi)
    kw = {}
    if lim & 1:
        kw['look_angle_mask_min_chd'] = lo
    if lim & 2:
        kw['look_angle_mask_max_chd'] = hi
    H.note({0: 'unlimited', 1: 'one limit', 2: 'one limit', 3: 'limited'}[lim])
    d = chd(H, c, N_samples_sar_chd=N, **kw)
    n = cnf(H, zp_fact_range_cnf=zp, N_looks_stack_cnf=looks, flag_stack_masking_cnf=True)
    Alg = H.imp(ALG + 'stack_masking', 'StackMaskingAlgorithm')
    L = H.reals('look', looks, -3, 3)       # degrees
    for x in L:
        H.apart(x, lo)
        H.apart(x, hi)
    B = rows(H, 'b', looks, N * zp, 0, 4)
    z = H.arr([0.0] * looks)
    s = surface(H, c, d, stage='mask', data_stack_size=looks, doppler_corrections=z, slant_range_corrections=z,
                win_delay_corrections=z, beams_range_compr=H.arr(B), look_angles_surf=H.arr([H.rad(x) for x in L]))
    alg = Alg(d, c, n)
    alg(s)
    for i in range(looks):
        # a look is dropped only when both limits are set and it is outside of them
        keep = lim != 3 or bool(H.AND(lo < L[i], L[i] < hi))
        H.note('kept' if keep else 'cut')
        for j in range(N * zp):
            H.eq('mask value[%d][%d]' % (i, j), alg.stack_mask[i, j], int(keep))
            H.eq('masked beam[%d][%d]' % (i, j), alg.beams_masked[i, j], B[i][j] if keep else 0)
        H.eq('mask vector[%d]' % i, alg.stack_mask_vector[i], N * zp - 1 if keep else 0)


@unit('K04', quick=[dict(N=2, zp=2, looks=3)], scope='masking switched off', witness=('ran',))
def masking_off(H, N, zp, looks):
    c = cst(H)
    d = chd(H, c, N_samples_sar_chd=N, look_angle_mask_min_chd=-0.1, look_angle_mask_max_chd=0.1)
    n = cnf(H, zp_fact_range_cnf=zp, N_looks_stack_cnf=looks, flag_stack_masking_cnf=False)
    Alg = H.imp(ALG + 'stack_masking', 'StackMaskingAlgorithm')
    size = H.pick('size', [1, looks])
    z = H.arr(H.reals('corr', looks, -9, 9))
    B = rows(H, 'b', size, N * zp, 0, 4)
    s = surface(H, c, d, stage='mask', data_stack_size=size, doppler_corrections=z, slant_range_corrections=z,
                win_delay_corrections=z, beams_range_compr=H.arr(B),
                look_angles_surf=H.arr(H.reals('look', looks, -1, 1)))
    alg = Alg(d, c, n)
    alg(s)
    H.note('ran')
    for i in range(size):
        H.eqs('beam[%d]' % i, alg.beams_masked[i], B[i])
        H.eqs('mask[%d]' % i, alg.stack_mask[i], [1] * (N * zp))
        H.eq('mask vector[%d]' % i, alg.stack_mask_vector[i], N * zp - 1)


# ---------------------------------------------------------------- K02 geometry corrections
def _bursts(H, c, d, k):
    return [burst(H, c, d, i, vel=H.reals('v%d' % i, 3, 1, 8), pos=H.reals('p%d' % i, 3, -8, 8),
                  win_delay_sar_ku=H.real('wd%d' % i, 0.1, 4)) for i in range(k)]


@unit('K02', quick=[dict(N=3, looks=2)], thorough=[dict(N=4, looks=3), dict(N=2, looks=2), dict(N=5, looks=2)],
      scope='one and two looks in a product of "looks" looks, N samples, arbitrary positions, speeds, delays and '
            'clock periods', witness=('all on', 'all off', 'short stack', 'used before'))
def corrections(H, N, looks):
    C = H.real('c', 1, 8)
    c = cst(H, c_cst=C)
    plen = H.real('plen', 0.1, 4)
    bw = H.real('bw', 0.1, 4)
    d = chd(H, c, N_samples_sar_chd=N, pulse_length_chd=plen, bw_ku_chd=bw)
    fd, fs = H.flag('doppler'), H.flag('slant')
    if fd and fs:
        H.note('all on')
    if not fd and not fs:
        H.note('all off')
    n = cnf(H, N_looks_stack_cnf=looks, flag_doppler_range_correction_cnf=fd, flag_slant_range_correction_cnf=fs)
    Alg = H.imp(ALG + 'geometry_corrections', 'GeometryCorrectionsAlgorithm')
    size = H.pick('size', [1, 2])
    if size < looks:
        H.note('short stack')
    wv = H.real('wv', 0.1, 4)
    bursts = _bursts(H, c, d, size)
    t0 = H.reals('t0', size, 0.1, 4)
    ang = H.reals('ang', size, 1.2, 1.9)
    ref = H.real('winref', 0.1, 4)
    P = H.reals('surf', 3, -8, 8)
    B = [[H.cplx('x_%d_%d' % (i, j)) for j in range(N)] for i in range(size)]
    pad = looks - size
    s = surface(H, c, d, stage='geometry', data_stack_size=size, stack_bursts=bursts + [0] * pad,
                beam_angles_surf=H.arr(ang + [0.0] * pad), t0_surf=H.arr(t0 + [0.0] * pad), win_delay_surf=ref,
                x_surf=P[0], y_surf=P[1], z_surf=P[2],
                beams_surf=H.arr(B + [[H.mkc(0.0, 0.0)] * N for _ in range(pad)]))
    alg = Alg(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        alg(surface(H, c, d, 7, stage='geometry', data_stack_size=looks, win_delay_surf=0.5, x_surf=1.0, y_surf=2.0, z_surf=2.0,
                    stack_bursts=[burst(H, c, d, 90, vel=[1.0, 2.0, 2.0], pos=[0.0, 0.0, 0.0],
                                        win_delay_sar_ku=0.25)] * looks,
                    beam_angles_surf=H.arr([math.pi / 2] * looks), t0_surf=H.arr([0.5] * looks),
                    beams_surf=H.arr([[H.mkc(1.0, 2.0)] * N for _ in range(looks)])), 0.5)
    alg(s, wv)
    for i in range(looks):
        if i >= size:
            for f in ('doppler_corrections', 'slant_range_corrections', 'win_delay_corrections', 'range_sat_surf'):
                H.eq('unused look is zero[%d]' % i, getattr(alg, f)[i], 0)
            H.eqs('unused look has no signal[%d]' % i, alg.beams_geo_corr[i], [0] * N)
            continue
        b = bursts[i]
        v = norm3(H, [b.x_vel_sat_sar, b.y_vel_sat_sar, b.z_vel_sat_sar])
        R = H.math.sqrt((b.x_sar_sat - P[0]) ** 2 + (b.y_sar_sat - P[1]) ** 2 + (b.z_sar_sat - P[2]) ** 2)
        # Doppler frequency 2 v cos(angle)/wavelength moves the chirp by f * T/B seconds
        dop = -(2 * v * H.math.cos(ang[i]) / wv) * (plen / bw) / t0[i] if fd else 0
        sl = (ref - 2 * R / C) / t0[i] if fs else 0
        wn = (b.win_delay_sar_ku - ref) / t0[i]
        H.eq('doppler correction[%d]' % i, alg.doppler_corrections[i], dop)
        H.eq('range[%d]' % i, alg.range_sat_surf[i], R)
        H.eq('slant range correction[%d]' % i, alg.slant_range_corrections[i], sl)
        H.eq('window delay correction[%d]' % i, alg.win_delay_corrections[i], wn)
        tot = dop + sl + wn
        for k in range(N):
            ph = 2 * H.np.pi / N * tot * k
            w = H.mkc(H.math.cos(ph), H.math.sin(ph))
            H.eq('corrected sample[%d][%d]' % (i, k), alg.beams_geo_corr[i, k], B[i][k] * w)


# ---------------------------------------------------------------- K03 range compression
@unit('K03', quick=[dict(N=2, zp=1, looks=2), dict(N=2, zp=2, looks=3), dict(N=4, zp=1, looks=2),
                    dict(N=3, zp=1, looks=2), dict(N=3, zp=2, looks=1)],
      thorough=[dict(N=n, zp=z, looks=2) for n in (2, 3, 4, 6, 8) for z in (1, 2, 3, 4) if n * z <= 8],
      scope='N complex samples per look, zero padding zp, stacks up to the limit',
      witness=('compressed', 'used before'))
def compression(H, N, zp, looks):
    c = cst(H)
    d = chd(H, c, N_samples_sar_chd=N)
    n = cnf(H, zp_fact_range_cnf=zp, N_looks_stack_cnf=looks)
    Alg = H.imp(ALG + 'range_compression', 'RangeCompressionAlgorithm')
    size = H.pick('size', sorted({1, looks, looks + 1}))
    use = min(size, looks)
    B = [[H.cplx('x_%d_%d' % (i, j)) for j in range(N)] for i in range(use)]
    s = surface(H, c, d, stage='range', data_stack_size=size,
                beams_geo_corr=H.arr(B + [[H.mkc(0.0, 0.0)] * N for _ in range(looks - use)]))
    alg = Alg(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        alg(surface(H, c, d, 7, stage='range', data_stack_size=looks,
                    beams_geo_corr=H.arr([[H.mkc(1.0, 2.0)] * N for _ in range(looks)])))
    alg(s)
    iq, pw = alg.beam_range_compr_iq, alg.beam_range_compr
    M = N * zp
    H.check('shape', tuple(iq.shape) == (use, M) and tuple(pw.shape) == (use, M))
    H.note('compressed')
    inv = 1 / H.math.sqrt(H.num(M))
    for i in range(use):
        for k in range(M):
            kk = (k - M // 2) % M             # zero frequency sits at the centre of the window
            want = 0
            for j in range(N):
                ph = -2 * H.np.pi * H.num(Fraction(kk * j, M))
                want = want + B[i][j] * H.mkc(H.math.cos(ph), H.math.sin(ph))
            want = want * inv
            H.eq('spectrum[%d][%d]' % (i, k), iq[i, k], want)
            re, im = H.np.real(want), H.np.imag(want)
            H.eq('power[%d][%d]' % (i, k), pw[i, k], re * re + im * im)
        # with an orthonormal transform no energy is gained or lost
        ein = sum(H.np.real(x) ** 2 + H.np.imag(x) ** 2 for x in B[i])
        H.eq('energy[%d]' % i, sum(H.flat(pw[i])), ein)


# ---------------------------------------------------------------- K06 sigma0
@unit('K06', quick=[dict(looks=2)], thorough=[dict(looks=3), dict(looks=4)],
      scope='stacks up to the limit; gains, ranges, speeds arbitrary positive', witness=('one', 'full', 'used before'))
def sigma0(H, looks):
    C = H.real('c', 1, 8)
    Re = H.real('earth', 1, 8)
    c = cst(H, c_cst=C, earth_radius_cst=Re)
    np_ = H.pick('pulses', [4, 64])
    P, G, tr, ptr = H.real('power', 0.1, 8), H.real('gain', 1, 60), H.real('trc', -3, 3), H.real('ptr', 0.1, 4)
    d = chd(H, c, N_ku_pulses_burst_chd=np_, power_tx_ant_ku_chd=P, antenna_gain_ku_chd=G, ratio_trc_ku_chd=tr,
            ptr_width_chd=ptr)
    n = cnf(H, N_looks_stack_cnf=looks)
    size = H.pick('size', [1, looks])
    H.note('one' if size == 1 else 'full')
    Alg = H.imp(ALG + 'sigma_zero_scaling', 'Sigma0ScalingFactorAlgorithm')
    wv = H.real('wv', 0.1, 4)
    rng = H.reals('range', size, 0.5, 8)
    vel = [H.reals('vel%d' % i, 3, 0.5, 8) for i in range(size)]
    vs = [norm3(H, v) for v in vel]
    pri = H.reals('pri', size, 0.1, 4)
    agc = H.reals('agc', size, -20, 80)
    bursts = [burst(H, c, d, i, vel=vel[i], pri_sar_pre_dat=pri[i], agc_ku=agc[i]) for i in range(size)]
    near = H.index('near', size)
    s = surface(H, c, d, stage='sigma', data_stack_size=size, range_sat_surf=H.arr(rng + [0.0] * (looks - size)),
                stack_bursts=bursts + [0] * (looks - size), closest_burst_index=near)
    alg = Alg(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        alg(surface(H, c, d, 7, stage='sigma', data_stack_size=looks, range_sat_surf=H.arr([2.0] * looks), closest_burst_index=0,
                    stack_bursts=[burst(H, c, d, 90, vel=[1.0, 2.0, 2.0], pri_sar_pre_dat=0.5, agc_ku=3.0)] * looks),
            0.5, 0.5)
    got = alg(s, wv, H.real('chirp', 0.1, 4))

    def lg(x):
        return H.math.log10(x)
    tot = 0
    for i in range(size):
        az = (1 + rng[i] / Re) * wv * rng[i] / (pri[i] * 2 * vs[i] * np_)
        rd2 = 4 * C * rng[i] * ptr * Re / (Re + rng[i])
        # radar equation in decibels
        v = (10 * lg(P) + 2 * G + 20 * lg(wv) + 10 * lg(az * H.math.sqrt(rd2) * H.num(Fraction('0.886')))
             - 30 * lg(4 * H.np.pi) - 40 * lg(rng[i]) - tr - 10 * lg(np_) + agc[near])
        tot = tot + v
    H.eq('sigma0 scale factor', got, tot / size)


# ---------------------------------------------------------------- K01 stack gathering
def _stack_burst(H, c, d, i, n_beams, N):
    pid = H.imp('dedop.model', 'PacketPid')
    return burst(H, c, d, 100 + 7 * i, beam_angles_list=H.reals('ba%d_' % i, n_beams, 1.2, 1.9),
                beams_focused=H.arr([[H.cplx('bf%d_%d_%d' % (i, k, j)) for j in range(N)] for k in range(n_beams)]),
                t0_sar=H.real('t0_%d' % i, 0.1, 4), doppler_angle_sar_sat=H.real('da%d' % i, -0.1, 0.1),
                pitch_sar=H.real('pitch%d' % i, -0.1, 0.1),
                isp_pid=pid.echo_rmc if H.flag('rmc%d' % i) else pid.echo_sar)


@unit('K01', quick=[dict(N=1, looks=2, most=3), dict(N=1, looks=3, most=2)],
      thorough=[dict(N=2, looks=2, most=4), dict(N=1, looks=3, most=4), dict(N=2, looks=3, most=2)],
      scope='up to "most" looks available, at most "looks" kept; look angles along the pass are ordered as the '
            'satellite moves', witness=('all kept', 'some dropped', 'rmc', 'raw', 'used before'), max_paths=4000)
def gathering(H, N, looks, most):
    c = cst(H)
    d = chd(H, c, N_samples_sar_chd=N)
    n = cnf(H, N_looks_stack_cnf=looks)
    Alg = H.imp(ALG + 'stack_gathering', 'StackGatheringAlgorithm')
    T = H.imp('dedop.model', 'SurfaceType')
    size = H.index('size', most) + 1
    bursts = [_stack_burst(H, c, d, i, 2, N) for i in range(size)]
    bi = [(i * 3 + 1) % 2 for i in range(size)]          # which beam of the burst looks at the surface
    la = [H.np.pi / 2 + b.doppler_angle_sar_sat - b.beam_angles_list[k] for b, k in zip(bursts, bi)]
    off = [abs(b.beam_angles_list[k] - H.np.pi / 2) for b, k in zip(bursts, bi)]
    for i in range(size - 1):
        H.assume(la[i] > la[i + 1] + 0.001)              # look angle decreases along the pass
    for i in range(size):
        for j in range(i):
            H.apart(off[i], off[j])
            H.apart(abs(la[i]), abs(la[j]))
    s = surface(H, c, d, stage='gather')
    s.stack_all_bursts = list(bursts)
    s.stack_all_beams_indices = list(bi)
    s.stack_all_beams_indices_abs = [k - 5 for k in bi]
    alg = Alg(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        w = surface(H, c, d, 7, stage='gather')
        wb = burst(H, c, d, 90, beam_angles_list=[1.5], beams_focused=H.arr([[H.mkc(1.0, 2.0)] * N]), t0_sar=0.5,
                   doppler_angle_sar_sat=0.0, pitch_sar=0.0, isp_pid=H.imp('dedop.model', 'PacketPid').echo_rmc)
        w.stack_all_bursts, w.stack_all_beams_indices = [wb] * looks, [0] * looks
        w.stack_all_beams_indices_abs = [3] * looks
        alg(w)
    alg(s)
    keep = min(size, looks)
    H.note('some dropped' if keep < size else 'all kept')
    H.check('number of looks', alg.data_stack_size == keep)
    # which looks were kept: by identity of the burst
    idx = []
    for k in range(keep):
        m = [i for i in range(size) if alg.stack_bursts[k] is bursts[i]]
        H.check('kept look comes from the stack', len(m) == 1)
        idx.append(m[0])
    H.check('order along the pass is kept', all(a < b for a, b in zip(idx, idx[1:])))
    for i in idx:
        for j in range(size):
            if j not in idx:
                H.check('kept looks are the nearest to nadir', abs(la[i]) <= abs(la[j]))
    for k, i in enumerate(idx):
        b = bursts[i]
        H.eqs('beam[%d]' % k, H.flat(alg.beams_surf[k]), H.flat(b.beams_focused[bi[i]]))
        H.eq('beam angle[%d]' % k, alg.beam_angles_surf[k], b.beam_angles_list[bi[i]])
        H.eq('clock[%d]' % k, alg.t0_surf[k], b.t0_sar)
        H.eq('doppler angle[%d]' % k, alg.doppler_angles_surf[k], b.doppler_angle_sar_sat)
        H.eq('look angle[%d]' % k, alg.look_angles_surf[k], la[i])
        H.eq('pointing angle[%d]' % k, alg.pointing_angles_surf[k], la[i] - b.pitch_sar)
        H.eq('look index[%d]' % k, alg.look_index_surf[k], bi[i] - 5)
        H.eq('look counter[%d]' % k, alg.look_counter_surf[k], b.seq_count_sar)
    for k in range(keep, looks):
        H.eq('unused look index[%d]' % k, alg.look_index_surf[k], -128)
        for f in ('look_counter_surf', 'beam_angles_surf', 't0_surf', 'doppler_angles_surf', 'look_angles_surf',
                  'pointing_angles_surf'):
            H.eq('unused look is empty[%d]' % k, getattr(alg, f)[k], 0)
    near = alg.closest_burst_index
    H.check('nearest burst is in the stack', 0 <= near < keep)
    for i in idx:
        H.check('nearest burst has the beam angle nearest to 90 degrees', off[idx[near]] <= off[i])
    rmc = any(bursts[i].isp_pid.name == 'echo_rmc' for i in idx)
    H.note('rmc' if rmc else 'raw')
    H.check('surface type', alg.surface_type == (T.surface_rmc if rmc else T.surface_raw))


# ---------------------------------------------------------------- K05 multilooking
def _fit_stub(H):
    """the least squares fit itself is outside: any parameters may come back"""
    def fit(f, x, y):
        return H.arr([0.5, 1.0, 2.0]), None
    H.curve_fit(fit)


def _mask_patterns(M):
    h = M // 2
    return [[1] * M, [1] * h + [0] * (M - h), [0] * h + [1] * (M - h), [0] * M]


def _vector(m):
    if m[-1]:
        return len(m) - 1
    return max([j + 1 for j in range(len(m)) if m[j]] or [0])


@unit('K05', quick=[dict(N=2, zp=1, looks=3)], thorough=[dict(N=2, zp=2, looks=3), dict(N=2, zp=1, looks=4)],
      scope='stacks of up to "looks" looks, each unmasked, partly masked or fully masked; averaging with and without '
            'the masked samples', witness=('zeros avoided', 'zeros counted', 'look skipped', 'short', 'nothing left', 'used before'))
def averaging(H, N, zp, looks):
    c = cst(H)
    d = chd(H, c, N_samples_sar_chd=N)
    avoid = H.flag('avoid')
    H.note('zeros avoided' if avoid else 'zeros counted')
    n = cnf(H, zp_fact_range_cnf=zp, N_looks_stack_cnf=looks, flag_avoid_zeros_in_multilooking_cnf=avoid,
            flag_antenna_weighting_cnf=0)
    Alg = H.imp(ALG + 'multilooking', 'MultilookingAlgorithm')
    _fit_stub(H)
    M = N * zp
    size = H.pick('size', [looks - 1, looks])
    if size < looks:
        H.note('short')
    pats = _mask_patterns(M)
    masks = [pats[H.index('pattern%d' % i, 4)] for i in range(size)]
    V = rows(H, 'v', size, M, 0.5, 4)
    B = [[V[i][j] * masks[i][j] for j in range(M)] for i in range(size)]
    pad = looks - size
    la, pa, ba, da = [H.reals(k, size, -0.1, 0.1) for k in ('look', 'point', 'beam', 'dop')]
    z = [0.0] * pad
    s = surface(H, c, d, stage='multilook', data_stack_size=size, beams_masked=H.arr(B),
                stack_mask=H.arr(masks + [[0] * M] * pad, dtype=float),
                stack_mask_vector=H.arr([_vector(m) for m in masks] + [0] * pad, dtype=float),
                look_angles_surf=H.arr(la + z), pointing_angles_surf=H.arr(pa + z),
                beam_angles_surf=H.arr([H.np.pi / 2 + x for x in ba] + z), doppler_angles_surf=H.arr(da + z),
                stack_bursts=[burst(H, c, d, i, source_seq_count=10 + 3 * i) for i in range(size)] + [0] * pad)
    alg = Alg(d, c, n)
    if H.flag('used before'):
        H.note('used before')
        alg(surface(H, c, d, 7, stage='multilook', data_stack_size=looks, beams_masked=H.arr([[2.0] * M] * looks),
                    stack_mask=H.arr([[1.0] * M] * looks), stack_mask_vector=H.arr([M - 1.0] * looks),
                    look_angles_surf=H.arr([0.3 - .01 * i for i in range(looks)]),
                    pointing_angles_surf=H.arr([0.2 - .01 * i for i in range(looks)]),
                    beam_angles_surf=H.arr([1.5 + .01 * i for i in range(looks)]),
                    doppler_angles_surf=H.arr([0.25] * looks),
                    stack_bursts=[burst(H, c, d, 90 + i, source_seq_count=900 + i) for i in range(looks)]))
    alg(s)
    used = [i for i in range(size) if any(masks[i])]
    if len(used) < size:
        H.note('look skipped')
    H.check('number of contributing looks', alg.n_beams_multilooking == len(used))
    for j in range(M):
        who = [i for i in used if masks[i][j] or not avoid]
        if who:
            H.eq('averaged sample[%d]' % j, alg.waveform_multilooked[j], sum(B[i][j] for i in who) / len(who))
    if not used:
        H.note('nothing left')
        H.check('no looks', alg.n_beams_start_stop == 0)
        for f in ('look', 'doppler', 'pointing', 'beam'):
            H.eq('no start', getattr(alg, 'start_%s_angle' % f), 0)
            H.eq('no stop', getattr(alg, 'stop_%s_angle' % f), 0)
        return
    a, b = used[0], used[-1]
    H.check('looks between first and last used', alg.n_beams_start_stop == b - a + 1)
    for f, v in (('look', la), ('doppler', da), ('pointing', pa)):
        H.eq('start %s angle' % f, getattr(alg, 'start_%s_angle' % f), v[a])
        H.eq('stop %s angle' % f, getattr(alg, 'stop_%s_angle' % f), v[b])
    H.eq('start beam angle', alg.start_beam_angle, H.np.pi / 2 + ba[a])
    H.eq('stop beam angle', alg.stop_beam_angle, H.np.pi / 2 + ba[b])
    H.eq('first burst', alg.start_burst_index, 10)
    H.eq('last burst', alg.stop_burst_index, 10 + 3 * (size - 1))
    for k in range(looks):
        on = k < b - a + 1
        H.eq('reported mask position[%d]' % k, alg.stack_mask_vector_start_stop[k], _vector(masks[a + k]) if on else 0)
        H.eq('reported look angle[%d]' % k, alg.look_angles_start_stop[k], la[a + k] if on else 0)
        H.eq('reported beam angle[%d]' % k, alg.beam_angles_start_stop[k], H.np.pi / 2 + ba[a + k] if on else 0)


@unit('K05', quick=[dict(looks=2)], thorough=[dict(looks=2), dict(looks=3)],
      scope='antenna pattern tabulated at 250 equally spaced angles; pointing angles below, above and within the first, '
            'second, middle and last cell of the table; weights of these cells arbitrary, the others fixed and distinct',
      witness=('inside', 'below', 'above'))
def antenna_weights(H, looks):
    K = 250
    c = cst(H)
    a0 = H.real('a0', -2, 2)
    sp = H.real('spacing', 0.05, 1)
    W = [H.num(Fraction(i * i % 97, 16)) for i in range(K)]
    for i in (0, 1, 2, 124, 125, 248, 249):
        W[i] = H.real('w%d' % i, -2, 2)
    angles = [a0 + sp * i for i in range(K)]
    d = chd(H, c, N_samples_sar_chd=2, antenna_weights_chd=W, antenna_angles_chd=angles, antenna_angles_spacing_chd=sp)
    n = cnf(H, zp_fact_range_cnf=1, N_looks_stack_cnf=looks, flag_antenna_weighting_cnf=1)
    Alg = H.imp(ALG + 'multilooking', 'MultilookingAlgorithm')
    _fit_stub(H)
    P, w = [], []
    for i in range(looks):
        k = H.pick('cell%d' % i, [-1, 0, 1, 124, 248, 249])         # -1 below the table, 249 above
        t = H.real('pos%d' % i, 0.01, 0.99)
        P.append(angles[0] - t if k < 0 else (angles[-1] + t if k == K - 1 else angles[k] + t * sp))
        w.append(W[0] if k < 0 else (W[-1] if k == K - 1 else (1 - t) * W[k] + t * W[k + 1]))
        H.note('below' if k < 0 else ('above' if k == K - 1 else 'inside'))
    B = rows(H, 'v', looks, 2, 0.5, 4)
    s = surface(H, c, d, stage='multilook', data_stack_size=looks, beams_masked=H.arr(B), stack_mask=H.arr([[1.0] * 2] * looks),
                stack_mask_vector=H.arr([1.0] * looks), look_angles_surf=H.arr([0.1 * i for i in range(looks)]),
                pointing_angles_surf=H.arr(P), beam_angles_surf=H.arr([1.5 + .01 * i for i in range(looks)]),
                doppler_angles_surf=H.arr([0.0] * looks),
                stack_bursts=[burst(H, c, d, i, source_seq_count=i) for i in range(looks)])
    alg = Alg(d, c, n)
    alg(s)
    for j in range(2):
        H.eq('weighted average[%d]' % j, alg.waveform_multilooked[j],
             sum(B[i][j] * w[i] for i in range(looks)) / looks)


@unit('K05', quick=[dict(looks=3)], thorough=[dict(looks=4), dict(looks=3)],
      scope='stack statistics for up to "looks" looks; the least squares fit is a stub returning arbitrary parameters',
      witness=('ran',), assumes='scipy.optimize.curve_fit is not encoded')
def characterisation(H, looks):
    N, zp = 2, 2
    c = cst(H)
    d = chd(H, c, N_samples_sar_chd=N)
    n = cnf(H, zp_fact_range_cnf=zp, N_looks_stack_cnf=looks)
    size = H.pick('size', [2, looks])
    par = {k: (H.real('fa_' + k, 0.5, 2), H.real('fb_' + k, -1, -0.2), H.real('fc_' + k, 0.5, 2))
           for k in ('look', 'point', 'pos')}
    pad = [0.0] * (looks - size)
    la, pa = H.reals('look', size, 0.01, 0.09), H.reals('point', size, -0.09, -0.01)
    calls = {}

    def fit(f, x, y):
        x, y = H.flat(x), H.flat(y)
        # which abscissa was handed over: look angles are positive, pointing angles negative, positions whole numbers
        v = x[1]
        k = 'point' if bool(v < 0) else ('pos' if bool(v > 0.5) else 'look')
        calls[k] = (x, y)
        return H.arr(list(par[k])), None
    H.curve_fit(fit)
    Alg = H.imp(ALG + 'multilooking', 'MultilookingAlgorithm')
    M = N * zp
    B = rows(H, 'v', size, M, 0.5, 4)
    ba = H.reals('beam', size, 1.5, 1.6)
    s = surface(H, c, d, stage='multilook', data_stack_size=size, beams_masked=H.arr(B), stack_mask=H.arr([[1.0] * M] * looks),
                stack_mask_vector=H.arr([float(M - 1)] * looks), look_angles_surf=H.arr(la + pad),
                pointing_angles_surf=H.arr(pa + pad), beam_angles_surf=H.arr(ba + pad),
                doppler_angles_surf=H.arr([0.0] * looks),
                stack_bursts=[burst(H, c, d, i, source_seq_count=i) for i in range(size)] + [0] * len(pad))
    alg = Alg(d, c, n)
    alg(s)
    H.note('ran')
    pw = [sum(r[:(N // 2) * zp]) for r in B]
    mx = pw[0]
    for p in pw[1:]:
        mx = p if bool(p > mx) else mx
    for k, xs in (('look', la), ('point', pa), ('pos', list(range(size)))):
        H.check('fitted against ' + k, k in calls)
        H.eqs('abscissa ' + k, calls[k][0], xs)
        H.eqs('normalised power ' + k, calls[k][1], [p / mx for p in pw])
    H.eq('stack maximum', alg.stack_max, par['look'][0])
    H.eq('look angle centre', alg.look_angle_centre, par['look'][1])
    H.eq('stack deviation', alg.stack_std, par['look'][2] / 2)
    H.eq('pointing angle centre', alg.pointing_angle_centre, par['point'][1])
    a, b, e = par['pos']
    g = [a * H.math.exp(-(i - b) ** 2 / e ** 2) for i in range(size)]
    mean = sum(g) / size
    var = sum((v - mean) ** 2 for v in g) / size
    sd = H.math.sqrt(var)
    H.eq('skewness', alg.stack_skewness, sum((v - mean) ** 3 for v in g) / (size * sd ** 3), rtol=1e-4, atol=1e-4)
    H.eq('kurtosis', alg.stack_kurtosis, sum((v - mean) ** 4 for v in g) / (size * sd ** 4) - 3, rtol=1e-4, atol=1e-4)


@unit('K05', quick=[dict(looks=300)], thorough=[dict(looks=300), dict(looks=520)],
      scope='stacks of "looks" looks or a few less; two candidate looks nearest to nadir near the start, the middle or the end '
            'with arbitrary angles; powers and angles at the edges of the fitted range arbitrary, the others fixed and distinct; '
            'the fit is a stub', witness=('cut left', 'cut right', 'whole left', 'whole right', 'shorter'),
      assumes='scipy.optimize.curve_fit is not encoded')
def central_looks(H, looks):
    c = cst(H)
    d = chd(H, c, N_samples_sar_chd=2)
    n = cnf(H, zp_fact_range_cnf=1, N_looks_stack_cnf=looks)
    Alg = H.imp(ALG + 'multilooking', 'MultilookingAlgorithm')
    size = H.pick('size', [looks, looks - 30])
    if size < looks:
        H.note('shorter')
    cand = H.pick('nearest', [(0, size - 1), (123, 125), (124, size - 124), (150, size - 125), (126, size - 126)])
    la = [H.num(Fraction(i + 1, 4 * looks)) for i in range(size)]
    pa = [H.num(Fraction(-i - 1, 4 * looks)) for i in range(size)]
    pw = [H.num(Fraction(i * i % 101 + 1, 64)) for i in range(size)]
    for i in (0, size - 1):
        pw[i] = H.real('power%d' % i, 0.1, 1)
    ba = [H.num(Fraction(1, 2) if i % 2 else 2) for i in range(size)]
    for i in cand:
        ba[i] = H.real('angle%d' % i, 1.55, 1.59)
    e0, e1 = [abs(ba[i] - H.np.pi / 2) for i in cand]
    H.apart(e0, e1)                                                    # which of two equally near looks is left open
    calls = {}

    def fit(f, x, y):
        x, y = H.flat(x), H.flat(y)
        v = x[1]
        k = 'point' if bool(v < 0) else ('pos' if bool(v > 0.5) else 'look')
        calls[k] = (x, y)
        return H.arr([1.0, 2.0, 30.0]), None
    H.curve_fit(fit)
    pad = [0.0] * (looks - size)
    s = surface(H, c, d, stage='multilook', data_stack_size=size, beams_masked=H.arr([[p, p] for p in pw]),
                stack_mask=H.arr([[1.0, 1.0]] * looks), stack_mask_vector=H.arr([1.0] * looks),
                look_angles_surf=H.arr(la + pad), pointing_angles_surf=H.arr(pa + pad), beam_angles_surf=H.arr(ba + pad),
                doppler_angles_surf=H.arr([0.0] * looks),
                stack_bursts=[burst(H, c, d, i, source_seq_count=i) for i in range(size)] + [0] * len(pad))
    alg = Alg(d, c, n)
    alg.compute_stack_characterization_params(s)
    k = cand[0] if bool(e0 <= e1) else cand[1]
    lo, hi = max(0, k - 124), min(size - 1, k + 124)
    H.note('cut left' if lo else 'whole left')
    H.note('cut right' if hi < size - 1 else 'whole right')
    mx = pw[0]
    for p in pw[1:]:
        mx = p if bool(p > mx) else mx
    for k, xs in (('look', la[lo:hi + 1]), ('point', pa[lo:hi + 1]), ('pos', list(range(hi - lo + 1)))):
        H.check('fitted against ' + k, k in calls)
        H.check('number of looks fitted (%s)' % k, len(calls[k][0]) == hi - lo + 1 and len(calls[k][1]) == hi - lo + 1)
        H.eqs('abscissa ' + k, calls[k][0], xs)
        H.eqs('normalised power ' + k, calls[k][1], [p / mx for p in pw[lo:hi + 1]])
