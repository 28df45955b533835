"""Where the sun really is: an ephemeris written independently of pysolar.

Longitude: Newcomb-style mean elements with the equation of centre and the five largest periodic terms (Venus, Jupiter, the Moon), after
Meeus; nutation: the four largest terms; parallax and the horizon: plain vector algebra. Nothing is shared with the code under test
(VSOP87 series, 63-term nutation, formulas for single angles)."""
import math

AU_PARALLAX = math.radians(8.794148 / 3600)      # angle under which the earth's equatorial radius is seen at 1 au
FLAT = 1 / 298.257
EARTH = 6378140.0


def _s(x):
    return math.sin(math.radians(x))


def _c(x):
    return math.cos(math.radians(x))


def delta_t(jd):
    """TT - UT in seconds, coarse: 20 s of error move the sun by 0.0002 degrees"""
    y = 2000 + (jd - 2451544.5) / 365.25
    if y < 1955:
        return 29.07 + 0.407 * (y - 1950) if y > 1920 else -3.0 + 10.4 * (y - 1900) / 10 if y > 1900 else -4.0
    pts = ((1955, 31.1), (1965, 35.7), (1975, 45.5), (1985, 54.3), (1995, 60.8), (2005, 64.7), (2015, 67.6), (2025, 69.2), (2200, 69.2))
    for (a, u), (b, v) in zip(pts, pts[1:]):
        if y <= b:
            return u + (v - u) * (y - a) / (b - a)
    return 69.2


def ecliptic(jde):
    """(apparent longitude without aberration and nutation of date, distance in au)"""
    t = (jde - 2451545.0) / 36525
    m = 357.52911 + 35999.05029 * t - 0.0001537 * t * t
    e = 0.016708634 - 0.000042037 * t - 0.0000001267 * t * t
    c = (1.914602 - 0.004817 * t - 0.000014 * t * t) * _s(m) + (0.019993 - 0.000101 * t) * _s(2 * m) + 0.000289 * _s(3 * m)
    lon = 280.46646 + 36000.76983 * t + 0.0003032 * t * t + c
    u = (jde - 2415020.0) / 36525
    a, b = 153.23 + 22518.7541 * u, 216.57 + 45037.5082 * u
    j, d, l = 312.69 + 32964.3577 * u, 350.74 + 445267.1142 * u - 0.00144 * u * u, 231.19 + 20.20 * u
    h = 353.40 + 65928.7155 * u
    lon += 0.00134 * _c(a) + 0.00154 * _c(b) + 0.00200 * _c(j) + 0.00179 * _s(d) + 0.00178 * _s(l)
    r = 1.000001018 * (1 - e * e) / (1 + e * _c(m + c))
    r += 0.00000543 * _s(a) + 0.00001575 * _s(b) + 0.00001627 * _s(j) + 0.00003076 * _c(d) + 0.00000927 * _s(h)
    return lon, r


def nutation(jde):
    t = (jde - 2451545.0) / 36525
    om = 125.04452 - 1934.136261 * t + 0.0020708 * t * t
    l, lm = 280.4665 + 36000.7698 * t, 218.3165 + 481267.8813 * t
    return ((-17.20 * _s(om) - 1.32 * _s(2 * l) - 0.23 * _s(2 * lm) + 0.21 * _s(2 * om)) / 3600,
            (9.20 * _c(om) + 0.57 * _c(2 * l) + 0.10 * _c(2 * lm) - 0.09 * _c(2 * om)) / 3600)


def obliquity(jde):
    t = (jde - 2451545.0) / 36525
    return 23.43929111 - (46.8150 * t + 0.00059 * t * t - 0.001813 * t ** 3) / 3600


def sidereal(jd):
    t = (jd - 2451545.0) / 36525
    return (280.46061837 + 360.98564736629 * (jd - 2451545.0) + 0.000387933 * t * t - t ** 3 / 38710000) % 360


def sun(jd, lat, lon, height, geo=None, jde=None, eqeq=None):
    """unit vector (east, north, up) of the sun's centre from a site, without refraction.
    jd, jde: UT1 and terrestrial time; geo: (longitude, latitude, distance) to use instead; eqeq: another equation of the equinoxes"""
    if jde is None:
        jde = jd + delta_t(jd) / 86400
    lam, r = ecliptic(jde)
    beta = 0.0
    if geo:
        lam, beta, r = geo
    dpsi, deps = nutation(jde)
    eps = obliquity(jde) + deps
    lam += dpsi - 20.4898 / 3600 / r
    x, y, z = _c(beta) * _c(lam), _c(beta) * _s(lam), _s(beta)
    y, z = y * _c(eps) - z * _s(eps), y * _s(eps) + z * _c(eps)
    th = sidereal(jd) + (dpsi * _c(eps) if eqeq is None else eqeq) + lon
    # the observer, in earth radii, equatorial frame
    c = 1 / math.sqrt(_c(lat) ** 2 + ((1 - FLAT) * _s(lat)) ** 2)
    rho_c, rho_s = (c + height / EARTH) * _c(lat), ((1 - FLAT) ** 2 * c + height / EARTH) * _s(lat)
    p = math.sin(AU_PARALLAX) / r
    x, y, z = x - p * rho_c * _c(th), y - p * rho_c * _s(th), z - p * rho_s
    # turn to the local meridian, then to the horizon
    u, w = x * _c(th) + y * _s(th), -x * _s(th) + y * _c(th)      # towards the meridian, towards the east
    v = (w, z * _c(lat) - u * _s(lat), u * _c(lat) + z * _s(lat))
    n = math.sqrt(sum(q * q for q in v))
    return tuple(q / n for q in v)


def vec(az, alt):
    return (_c(alt) * _s(az), _c(alt) * _c(az), _s(alt))


def sep(v, w):
    cr = (v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0])
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in cr)), sum(x * y for x, y in zip(v, w))))


def track(jd, jde, sites):
    """unit vectors for several sites (lat, lon, height)"""
    return [sun(jd, a, o, h, jde=jde) for a, o, h in sites]


def refraction(alt, pressure, temperature):
    """degrees; standard formula (Bennett, Meeus), pressure in Pa, temperature in K"""
    return pressure / 101000.0 * 283.0 / temperature * 1.02 / (60 * math.tan(math.radians(alt + 10.3 / (alt + 5.11))))
