"""G01, G02: coordinate conversions"""
import math
from fractions import Fraction
from symx.harness import unit
from props._common import cst

A, B = 6378137.0, 6356752.3142


@unit('G01', scope='latitude in [-pi/2, pi/2], longitude in [-2pi, 2pi], altitude in [-12 km, 2000 km], WGS84 axes; '
                   'radians and degrees entry', witness=('radians', 'degrees'))
def lla_to_ecef(H):
    a = H.real('a', 6000000, 6500000)
    b = H.real('b', 6000000, 6500000)
    H.assume(b < a)
    c = cst(H, semi_major_axis_cst=a, semi_minor_axis_cst=b)
    lla2ecef = H.imp('dedop.proc.geo', 'lla2ecef')
    lat = H.real('lat', -math.pi / 2, math.pi / 2)
    lon = H.real('lon', -2 * math.pi, 2 * math.pi)
    alt = H.real('alt', -12000, 2000000)
    H.engine(sqrt_domain_fork=False)
    if H.flag('degrees'):
        H.note('degrees')
        x, y, z = lla2ecef((H.deg(lat), H.deg(lon), alt), c, lla_as_degrees=True)
    else:
        H.note('radians')
        x, y, z = lla2ecef((lat, lon, alt), c)
    cl, sl = H.math.cos(lat), H.math.sin(lat)
    co, so = H.math.cos(lon), H.math.sin(lon)
    e2 = 1 - (b * b) / (a * a)
    n = a / H.math.sqrt(1 - e2 * sl * sl)
    H.eq('x', x, (n + alt) * cl * co, atol=1e-3)
    H.eq('y', y, (n + alt) * cl * so, atol=1e-3)
    H.eq('z', z, (n * (1 - e2) + alt) * sl, atol=1e-3)


@unit('G01', quick=[dict(turns=2)], thorough=[dict(turns=6)],
      scope='angles within the stated number of turns', witness=('ran',))
def normalize_range(H, turns):
    c = cst(H)
    normalize = H.imp('dedop.proc.geo', 'normalize')
    t = H.real('t', -2 * math.pi * turns, 2 * math.pi * turns)
    r = normalize(t, c)
    H.note('ran')
    H.le('lower', -math.pi, r)
    H.le('upper', r, math.pi)
    H.eq('same direction cos', H.math.cos(r), H.math.cos(t))
    H.eq('same direction sin', H.math.sin(r), H.math.sin(t))


def _ellipsoid(H):
    """an Earth-like ellipsoid whose eccentricity is an exact rational, so that the code's
    constants carry no rounding noise in the symbolic run"""
    k = Fraction(41, 1000)
    f = H.num(1 - (1 - k * k) / (1 + k * k))
    a = H.num(6378137)
    b = H.num(6378137 * (1 - k * k) / (1 + k * k))
    return a, b, f, cst(H, semi_major_axis_cst=a, semi_minor_axis_cst=b, flat_coeff_cst=f)


@unit('G02', scope='points on the ellipsoid, any longitude, latitude strictly between the poles', witness=('ran',))
def surface_exact(H):
    ecef2lla = H.imp('dedop.proc.geo', 'ecef2lla')
    a, b, f, c = _ellipsoid(H)
    beta = H.real('beta', -1.5, 1.5)      # reduced latitude
    lam = H.real('lam', -3.1, 3.1)
    C, S = H.math.cos(beta), H.math.sin(beta)
    H.assume(C > 0.05)
    x, y, z = a * C * H.math.cos(lam), a * C * H.math.sin(lam), b * S
    lat, lon, alt = ecef2lla((x, y, z), c)
    H.note('ran')
    H.eq('latitude', H.math.sin(lat) * b * C / a, H.math.cos(lat) * S)
    H.check('cos(latitude) positive', H.math.cos(lat) > 0)
    H.eq('altitude', alt, 0.0, atol=1e-3)
    H.eq('longitude cos', H.math.cos(lon), H.math.cos(lam))
    H.eq('longitude sin', H.math.sin(lon), H.math.sin(lam))
    H.le('longitude >= 0', 0, lon)
    H.le('longitude <= 2pi', lon, 2 * math.pi)


@unit('G02', scope='equatorial plane, radius 6000-9000 km', witness=('ran',))
def equator(H):
    ecef2lla = H.imp('dedop.proc.geo', 'ecef2lla')
    a, b, f, c = _ellipsoid(H)
    p = H.real('p', 6000000, 9000000)
    lam = H.real('lam', -3.1, 3.1)
    x, y = p * H.math.cos(lam), p * H.math.sin(lam)
    lat, lon, alt = ecef2lla((x, y, 0.0), c)
    H.note('ran')
    H.eq('latitude is zero', lat, 0.0)
    H.eq('altitude', alt, p - a, atol=1e-3)


@unit('G02', scope='within 1 m of the rotation axis, both hemispheres; scalar and array entry',
      witness=('scalar', 'array'))
def poles(H):
    ecef2lla = H.imp('dedop.proc.geo', 'ecef2lla')
    a, b, f, c = _ellipsoid(H)
    x = H.real('x', 0.01, 0.9)
    y = 0.0
    z = H.real('z', 6300000, 9000000)
    if H.flag('south'):
        z = -z
    if H.flag('array'):
        lat, lon, alt = ecef2lla((H.arr([x]), H.arr([y]), H.arr([z])), c)
        lat, lon, alt = lat[0], lon[0], alt[0]
        H.note('array')
    else:
        lat, lon, alt = ecef2lla((x, y, z), c)
        H.note('scalar')
    H.eq('altitude above the pole', alt, abs(z) - b, atol=1e-2)
    H.check('hemisphere', H.OR(H.AND(z > 0, lat > 0), H.AND(z < 0, lat < 0)))


@unit('G02', scope='any point 6000-9000 km from the axis, |z| <= 6000 km', witness=('ran',))
def symmetry(H):
    ecef2lla = H.imp('dedop.proc.geo', 'ecef2lla')
    a, b, f, c = _ellipsoid(H)
    p = H.real('p', 6000000, 9000000)
    z = H.real('z', 1000, 6000000)
    lam = H.real('lam', -3.1, 3.1)
    lat, lon, alt = ecef2lla((p * H.math.cos(lam), p * H.math.sin(lam), z), c)
    lat0, lon0, alt0 = ecef2lla((p, 0.0, z), c)
    lats, lons, alts = ecef2lla((p, 0.0, -z), c)
    H.note('ran')
    H.eq('latitude does not depend on longitude', lat, lat0)
    H.eq('altitude does not depend on longitude', alt, alt0, atol=1e-3)
    H.eq('southern latitude mirrors northern (sin)', H.math.sin(lats), -H.math.sin(lat0))
    H.eq('southern latitude mirrors northern (cos)', H.math.cos(lats), H.math.cos(lat0))
    H.eq('southern altitude equals northern', alts, alt0, atol=1e-3)
    H.check('northern', H.AND(lat0 > 0, lat0 < math.pi / 2))
    H.check('southern', H.AND(lats < 0, lats > -math.pi / 2))
    H.eq('longitude cos', H.math.cos(lon), H.math.cos(lam))
    H.eq('longitude sin', H.math.sin(lon), H.math.sin(lam))
