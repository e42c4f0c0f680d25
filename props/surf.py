"""S01..S03: placing surfaces along the ground track"""
import math
from fractions import Fraction
from symx.harness import unit
from props._common import cst, chd, cnf, surface, burst, norm3

ALG = 'dedop.proc.sar.algorithms.surface_locations'


def _geo_stubs(H):
    """simple one-to-one stand-ins for the two coordinate conversions (decided on their own by G01, G02)"""
    h = H.num(Fraction(1, 2))
    q = H.num(Fraction(1, 4))

    def to_ecef(p, c, lla_as_degrees=False):
        a, b, e = p
        return a + 2 * e, b - e, e + a * h

    def to_lla(p, c):
        x, y, z = p
        return H.np.array([x * q, y * h - z, x + z * h])
    H.replace('dedop.proc.geo', 'lla2ecef', to_ecef)
    H.replace('dedop.proc.geo', 'ecef2lla', to_lla)
    return to_ecef, to_lla


NAMES = ['time_sar_ku', 'alt_rate_sat_sar', 'roll_sar', 'pitch_sar', 'yaw_sar']


def _burst(H, c, d, i, ground=None, **kw):
    v = {k: H.real('%s%d' % (k, i), -2, 2) for k in NAMES}
    # time is TAI, days and seconds are UTC; leap seconds are the difference
    days = 6000 + i
    v.update(days=days, seconds=H.real('sec%d' % i, 0, 86400),
             win_delay_sar_ku=H.real('wd%d' % i, 0.1, 4), lat_sar_sat=H.real('lat%d' % i, -1.5, 1.5),
             lon_sar_sat=H.real('lon%d' % i, -3.1, 3.1), alt_sar_sat=H.real('alt%d' % i, 1, 8))
    v.update(kw)
    return burst(H, c, d, i, vel=H.reals('vel%d_' % i, 3, 1, 4), pos=H.reals('pos%d_' % i, 3, -4, 4),
                 ground=ground if ground is not None else H.reals('gr%d_' % i, 3, -4, 4), **v)


def _angle_cos(H, a, b):
    return (a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / (norm3(H, a) * norm3(H, b))


@unit('S01', scope='previous surface with any angular resolution, two bursts before and after the next surface',
      witness=('new', 'not yet'), timeout_ms=12000)
def next_surface(H):
    C = H.real('c', 1, 8)
    c = cst(H, c_cst=C, sec_in_day_cst=H.num(86400))
    d = chd(H, c)
    to_ecef, to_lla = _geo_stubs(H)
    Alg = H.imp(ALG, 'SurfaceLocationAlgorithm')
    n = cnf(H, flag_surface_focusing_cnf=False)
    # look directions in the orbit plane, from the satellite position of the last surface
    dist = H.real('dist', 1, 4)
    sat = H.reals('sat', 3, -2, 2)
    down = H.real('down', 1, 4)
    tp, tc = H.real('tanprev', 0.01, 1), H.real('tancur', 0.01, 1)
    H.assume(tp + 0.01 < tc)
    kp, kc = H.real('kprev', 0.5, 2), H.real('kcur', 0.5, 2)
    gp = [sat[0] - kp, sat[1] + kp * tp, sat[2]]
    gc = [sat[0] - kc, sat[1] + kc * tc, sat[2]]
    res = H.real('res', 0.005, 0.8)
    s = surface(H, c, d, 0, stage='gather', x_sat=sat[0], y_sat=sat[1], z_sat=sat[2], x_surf=sat[0] - down, y_surf=sat[1],
                z_surf=sat[2], angular_azimuth_beam_resolution=res, time_surf=0.0)
    s.compute_surf_sat_vector()
    b = [_burst(H, c, d, 0, ground=gp), _burst(H, c, d, 1, ground=gc)]
    # the angle of each ground point, seen from the satellite, away from the last surface
    ap = H.math.acos(1 / H.math.sqrt(1 + tp * tp))
    ac = H.math.acos(1 / H.math.sqrt(1 + tc * tc))
    H.apart(ac, res)
    H.assume(ap < res)             # otherwise the surface would have been placed one burst earlier
    H.apart(ap, res)
    alg = Alg(d, c, n)
    new = bool(alg([s], b))
    if bool(ac < res):
        H.note('not yet')
        H.check('no surface before the track has advanced by the beam resolution', not new)
        return
    H.note('new')
    H.check('surface once the track has advanced by the beam resolution', new)
    if not new:
        return
    g = alg.get_surface()
    al = (res - ap) / (ac - ap)

    def mid(x, y):
        return x + al * (y - x)
    want = dict(time_surf=mid(b[0].time_sar_ku, b[1].time_sar_ku))
    gx = [mid(gp[i], gc[i]) for i in range(3)]
    p0 = [b[0].x_sar_sat, b[0].y_sar_sat, b[0].z_sar_sat]
    p1 = [b[1].x_sar_sat, b[1].y_sar_sat, b[1].z_sar_sat]
    sx = [mid(p0[i], p1[i]) for i in range(3)]
    gl, sl = H.flat(to_lla(gx, c)), H.flat(to_lla(sx, c))
    want.update(x_surf=gx[0], y_surf=gx[1], z_surf=gx[2], x_sat=sx[0], y_sat=sx[1], z_sat=sx[2],
                lat_surf=gl[0], lon_surf=gl[1], alt_surf=gl[2], lat_sat=sl[0], lon_sat=sl[1], alt_sat=sl[2],
                x_vel_sat=mid(b[0].x_vel_sat_sar, b[1].x_vel_sat_sar),
                y_vel_sat=mid(b[0].y_vel_sat_sar, b[1].y_vel_sat_sar),
                z_vel_sat=mid(b[0].z_vel_sat_sar, b[1].z_vel_sat_sar),
                alt_rate_sat=mid(b[0].alt_rate_sat_sar, b[1].alt_rate_sat_sar),
                roll_sat=mid(b[0].roll_sar, b[1].roll_sar), pitch_sat=mid(b[0].pitch_sar, b[1].pitch_sar),
                yaw_sat=mid(b[0].yaw_sar, b[1].yaw_sar), win_delay_surf=2 * (sl[2] - gl[2]) / C)
    for k, v in want.items():
        H.eq(k, g[k], v)
    H.check('between the two bursts', H.AND(al > 0, al <= 1))
    # the UTC reference is that of the burst before
    H.eq('reference TAI', g['prev_tai'], b[0].time_sar_ku)
    H.eq('reference day', g['prev_utc_days'], b[0].days)
    H.eq('reference second', g['prev_utc_secs'], b[0].seconds)
    leap = (b[1].time_sar_ku - b[1].days * 86400 - b[1].seconds) - (b[0].time_sar_ku - b[0].days * 86400 - b[0].seconds)
    H.eq('length of the day', g['curr_day_length'], 86400 + leap)


@unit('S01', scope='any velocity, pulse interval, pulse count 4 or 64', witness=('ran',))
def resolution(H):
    C = H.real('c', 0.1, 0.4)
    c = cst(H, c_cst=C)
    f = H.real('freq', 1, 4)
    P = H.pick('pulses', [4, 64])
    d = chd(H, c, freq_ku_chd=f, N_ku_pulses_burst_chd=P)
    v = H.reals('v', 3, 1, 4)
    pri = H.real('pri', 1, 4)
    pos, sat = H.reals('g', 3, -4, 4), H.reals('s', 3, -4, 4)
    s = surface(H, c, d, 0, stage='gather', x_vel_sat=v[0], y_vel_sat=v[1], z_vel_sat=v[2], x_surf=pos[0], y_surf=pos[1],
                z_surf=pos[2], x_sat=sat[0], y_sat=sat[1], z_sat=sat[2])
    s.compute_angular_azimuth_beam_resolution(pri)
    H.note('ran')
    r = s.angular_azimuth_beam_resolution
    H.eq('sine of the beam resolution', H.math.sin(r), C / (2 * f * norm3(H, v) * P * pri))
    H.check('a positive angle', H.AND(r > 0, r <= math.pi / 2))
    s.compute_surf_sat_vector()
    H.eqs('line of sight', H.flat(s.surf_sat_vector), [pos[i] - sat[i] for i in range(3)])


@unit('S02', scope='first surface and surface forced by a gap, any burst', witness=('first', 'forced'))
def first_surface(H):
    C = H.real('c', 1, 8)
    c = cst(H, c_cst=C)
    d = chd(H, c)
    to_ecef, to_lla = _geo_stubs(H)
    n = cnf(H, flag_surface_focusing_cnf=False)
    alg = H.imp(ALG, 'SurfaceLocationAlgorithm')(d, c, n)
    b = [_burst(H, c, d, i) for i in range(2)]
    if H.flag('forced'):
        H.note('forced')
        s = surface(H, c, d, 0, stage='gather', x_sat=0.0, y_sat=0.0, z_sat=0.0, x_surf=-1.0, y_surf=0.0, z_surf=0.0,
                    angular_azimuth_beam_resolution=0.5)
        s.compute_surf_sat_vector()
        r = alg([s], b, True)
    else:
        H.note('first')
        r = alg([], b)
    H.check('a surface is placed', bool(r))
    g = alg.get_surface()
    k = b[1]
    alt = k.alt_sar_sat - k.win_delay_sar_ku * C / 2
    e = to_ecef((k.lat_sar_sat, k.lon_sar_sat, alt), c)
    want = dict(time_surf=k.time_sar_ku, lat_surf=k.lat_sar_sat, lon_surf=k.lon_sar_sat, alt_surf=alt,
                x_surf=e[0], y_surf=e[1], z_surf=e[2], x_sat=k.x_sar_sat, y_sat=k.y_sar_sat, z_sat=k.z_sar_sat,
                lat_sat=k.lat_sar_sat, lon_sat=k.lon_sar_sat, alt_sat=k.alt_sar_sat, x_vel_sat=k.x_vel_sat_sar,
                y_vel_sat=k.y_vel_sat_sar, z_vel_sat=k.z_vel_sat_sar, alt_rate_sat=k.alt_rate_sat_sar,
                roll_sat=k.roll_sar, pitch_sat=k.pitch_sar, yaw_sat=k.yaw_sar, win_delay_surf=k.win_delay_sar_ku)
    for f, v in want.items():
        H.eq(f, g[f], v)
    # UTC: time of the surface relative to the reference gives the burst's own day and second
    H.eq('reference day', g['prev_utc_days'], k.days)
    H.eq('UTC second', g['prev_utc_secs'] + g['time_surf'] - g['prev_tai'], k.seconds)
    H.eq('length of the day', g['curr_day_length'], c.sec_in_day)


@unit('S02', scope='a surface placed by interpolation, then one forced by a gap', witness=('ran',), timeout_ms=12000)
def forced_after_normal(H):
    c = cst(H)
    d = chd(H, c)
    _geo_stubs(H)
    n = cnf(H, flag_surface_focusing_cnf=False)
    alg = H.imp(ALG, 'SurfaceLocationAlgorithm')(d, c, n)
    tp, tc = H.real('tanprev', 0.05, 0.3), H.real('tancur', 0.6, 1)
    ap = H.math.acos(1 / H.math.sqrt(1 + tp * tp))
    ac = H.math.acos(1 / H.math.sqrt(1 + tc * tc))
    H.assume(ap < 0.45, ac > 0.51)
    b = [_burst(H, c, d, 0, ground=[-1.0, tp, 0.0]), _burst(H, c, d, 1, ground=[-1.0, tc, 0.0]), _burst(H, c, d, 2)]
    s = surface(H, c, d, 0, stage='gather', x_sat=0.0, y_sat=0.0, z_sat=0.0, x_surf=-1.0, y_surf=0.0, z_surf=0.0,
                angular_azimuth_beam_resolution=0.5, time_surf=0.0)
    s.compute_surf_sat_vector()
    H.assume(alg([s], b[:2]))
    H.check('forced', bool(alg([s], b, True)))
    H.note('ran')
    g = alg.get_surface()
    H.eq('time', g['time_surf'], b[2].time_sar_ku)
    H.eq('reference day', g['prev_utc_days'], b[2].days)
    H.eq('UTC second', g['prev_utc_secs'] + g['time_surf'] - g['prev_tai'], b[2].seconds)
    H.eq('length of the day', g['curr_day_length'], c.sec_in_day)


@unit('S03', scope='two surfaces and a target anywhere; new surface nearer to or farther from the target',
      witness=('moved', 'not passed yet', 'focused before', 'off', 'one surface only'), timeout_ms=12000)
def focusing(H):
    C = H.real('c', 1, 8)
    c = cst(H, c_cst=C)
    d = chd(H, c)
    to_ecef, to_lla = _geo_stubs(H)
    on = H.pick('on', [True, False])
    t = [H.real('tlat', -1, 1), H.real('tlon', -1, 1), H.real('talt', -1, 1)]
    n = cnf(H, flag_surface_focusing_cnf=on, surface_focusing_lat_cnf=H.deg(t[0]),
            surface_focusing_lon_cnf=H.deg(t[1]), surface_focusing_alt_cnf=t[2])
    alg = H.imp(ALG, 'SurfaceLocationAlgorithm')(d, c, n)
    P, ss = [], []
    T = list(to_ecef(t, c))

    def d2(p):
        return sum((p[k] - T[k]) * (p[k] - T[k]) for k in range(3))
    for i in range(2):
        p = H.reals('s%d_' % i, 3, -2, 2)
        P.append(p)
        ss.append(surface(H, c, d, i, stage='gather', x_surf=p[0], y_surf=p[1], z_surf=p[2], x_sat=0.0, y_sat=0.0, z_sat=0.0,
                          lat_surf=0.25, lon_surf=0.5, alt_surf=0.75, alt_sat=H.real('salt%d' % i, 1, 8),
                          win_delay_surf=0.125, focus_target_distance=H.math.sqrt(d2(p)), time_surf=0.0))
    b = _burst(H, c, d, 0)
    al = [P[1][k] - P[0][k] for k in range(3)]
    H.assume(al[0] * al[0] + al[1] * al[1] + al[2] * al[2] > 0.01)
    rel = [T[k] - P[0][k] for k in range(3)]
    H.assume(rel[0] * rel[0] + rel[1] * rel[1] + rel[2] * rel[2] > 0.01)
    which = H.pick('history', ['first time', 'again', 'one surface'])
    use = ss if which != 'one surface' else ss[1:]
    if which == 'again':
        alg.focus_found = True
    H.engine(sqrt_domain_fork=False)
    alg(use, [b], True)
    g = alg.get_surface()
    N = [g['x_surf'], g['y_surf'], g['z_surf']]
    if on:
        H.eq('distance of the new surface', g['focus_target_distance'], H.math.sqrt(d2(N)))
    moved = on and which == 'first time' and bool(H.math.sqrt(d2(N)) > H.math.sqrt(d2(P[1])))
    s = ss[1]
    got = [s.x_surf, s.y_surf, s.z_surf]
    for k in range(3):
        H.eq('surface before the last never moves[%d]' % k, [ss[0].x_surf, ss[0].y_surf, ss[0].z_surf][k], P[0][k])
    if not moved:
        H.note('off' if not on else {'first time': 'not passed yet', 'again': 'focused before',
                                     'one surface': 'one surface only'}[which])
        for k in range(3):
            H.eq('surface stays[%d]' % k, got[k], P[1][k])
        H.eq('altitude stays', s.alt_surf, 0.75)
        H.eq('window delay stays', s.win_delay_surf, 0.125)
        H.check('not marked', not s.target_focused)
        return
    H.note('moved')
    H.check('marked', bool(s.target_focused))
    # foot of the perpendicular from the target on the line through the two surfaces
    ll = sum(a * a for a in al)
    f = sum(al[k] * rel[k] for k in range(3)) / ll
    want = [P[0][k] + f * al[k] for k in range(3)]
    for k in range(3):
        H.eq('moved to the closest approach[%d]' % k, got[k], want[k])
    lla = H.flat(to_lla(want, c))
    H.eq('latitude', s.lat_surf, lla[0])
    H.eq('longitude', s.lon_surf, lla[1])
    H.eq('altitude', s.alt_surf, lla[2])
    H.eq('window delay', s.win_delay_surf, 2 * (s.alt_sat - lla[2]) / C)
    H.check('never again', bool(alg.focus_found))
