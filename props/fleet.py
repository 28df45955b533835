"""Trackers at their sites, and where the sun really is. Shared by C20, C21, C22, C26."""
import datetime as D, math
from sim import sunref as S, values as V
from props import c09

LO, HI = V._sec(1900, 1, 2) * 10 ** 6, V._sec(2099, 12, 30) * 10 ** 6
COVERED = c09.LO
HOUR = 3600 * 10 ** 6


def times(us):
    """(UT1, TT) as Julian days: exact where the published tables reach back, to 2 s before"""
    if us >= COVERED:
        return c09.model("stime.get_julian_solar_day", us), c09.model("stime.get_julian_ephemeris_day", us)
    jd = 2440587.5 + us / 86400e6
    return jd, jd + S.delta_t(jd) / 86400


def slack(us):
    return 0.0 if us >= COVERED else 0.008


def utc(us):
    return str(V.EPOCH + D.timedelta(microseconds=us))


def site(rng):
    r = rng.random()
    lat = rng.choice((0, 90, -90, 89.99, -89.99, 23.44, -23.44, 66.56, 45.0, 1e-6)) if r < 0.2 else round(rng.uniform(-90, 90), rng.choice((0, 2, 5)))
    lon = rng.choice((0, 180, -180, 90, -90, 179.999, 1e-6, -1e-6)) if rng.random() < 0.2 else round(rng.uniform(-180, 180), rng.choice((0, 2, 5)))
    return [lat, lon, rng.choice((0, 0, 0, 1830.14, 8000, -400))]


def moment(rng, lo=LO, hi=HI):
    r = rng.random()
    y = rng.randint(1900, 2099) if rng.random() < 0.4 else rng.randint(1972, 2050)
    if r < 0.2:
        us = V._sec(y, rng.randint(1, 12), 1) * 10 ** 6 + rng.choice((-1, 0, 1, -10 ** 6, 10 ** 6, rng.randint(-HOUR, HOUR)))
    elif r < 0.3:
        us = rng.choice(c09.LAT) + rng.choice((-1, 0, 1, -10 ** 6, 10 ** 6))
    elif r < 0.5:      # equinoxes and solstices
        us = V._sec(y, *rng.choice(((3, 20), (3, 21), (3, 22), (6, 21), (9, 22), (9, 23), (12, 21), (12, 22)))) * 10 ** 6 + rng.randint(0, 86399) * 10 ** 6
    elif r < 0.6:
        us = V._sec(y, *rng.choice(((1, 1), (2, 28), (3, 1), (12, 31), (7, 1)))) * 10 ** 6 + rng.randint(0, 1439) * 60 * 10 ** 6
    else:
        us = rng.randint(lo, hi)
    return min(max(us, lo), hi)


def advance(rng, us):
    r = rng.random()
    if r < 0.15:
        return moment(rng), "clock set"
    if r < 0.25:
        return us, "clock stalls"
    if r < 0.4:
        return max(LO, us - rng.choice((1, 1000, 10 ** 6, HOUR // 2, HOUR, 86400 * 10 ** 6))), "clock steps back"
    return min(HI, us + rng.choice((1, 1000, 10 ** 6, 60 * 10 ** 6, HOUR // 2, HOUR, rng.randint(1, HOUR), 86400 * 10 ** 6, 30 * 86400 * 10 ** 6))), "clock ticks"


def zones(rng):
    return ["utc"] + rng.sample(V.ZONE_NAMES, rng.choice((1, 2))) + [{"fixed": rng.choice((-43200, -12345, 900, 20700, 50400))}]


class Failing(Exception):
    pass


class FailingZone(D.tzinfo):
    """a zone whose n-th use fails"""

    def __init__(self, base, n):
        self.base, self.n, self.uses = base, n, 0

    def utcoffset(self, dt):
        self.uses += 1
        if self.uses == self.n:
            raise Failing()
        return self.base.utcoffset(dt)

    def dst(self, dt):
        return self.base.dst(dt)

    def tzname(self, dt):
        return "?"
