"""C09: time scales track the atomic clock."""
import bisect, datetime as D, json, os, random
from sim import harness as H, loader, ops as O, values as V

ID = "C09"
INSTRUMENT = False
RUNS = {"quick": 30000, "thorough": 300000}
RULE = ("Each run: one interpreter life under a simulated clock that ticks (1 us to hours), jumps forward and back, and is steered onto leap-second, month, year and zone-rule boundaries; observers in "
        "simulated zones read it (datetime.now under the clock shim, or handed over) and ask all four time-scale functions in random order. Reference: IERS TAI-UTC list and the published Delta-T table, "
        "exact rational arithmetic. Non-trivial: at least 3 readings; distinct: hash of readings and answers.")
COMPONENTS = {"real": "pysolar.solartime, solar.get_position's use of it, CPython datetime", "stub": "wall clock (LD_PRELOAD shim), time zones"}
ASSUMPTIONS = ["published data: IERS Bulletin C up to no. 70, USNO deltat.data Feb 1973 - Apr 2014 as the library ships it", "a double holds a Julian day to 4.7e-10 day; tolerance 2e-9 day"]
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEAP = [((D.datetime.fromisoformat(d) - V.EPOCH) // D.timedelta(microseconds=1), n) for d, n in json.load(open(os.path.join(ROOT, "data", "leap.json")))["list"]]
LAT = [x[0] for x in LEAP]
DT = {(y, m): v for y, m, v in json.load(open(os.path.join(ROOT, "data", "deltat.json")))}
FIRST, LAST = min(DT), max(DT)
FNS = ("stime.get_leap_seconds", "stime.get_delta_t", "stime.get_julian_ephemeris_day", "stime.get_julian_solar_day")
LO, HI = LAT[0], V._sec(2200, 1, 1) * 10 ** 6


def leap(us):
    return LEAP[bisect.bisect_right(LAT, us) - 1][1]


def delta_t(us):
    d = V.EPOCH + D.timedelta(microseconds=us)
    return DT[min(max((d.year, d.month), FIRST), LAST)]


def model(fn, us):
    if fn == FNS[0]:
        return leap(us)
    if fn == FNS[1]:
        return delta_t(us)
    # in units of 1e-7 s, exactly
    n = us * 10 + leap(us) * 10 ** 7 + 321840000
    if fn == FNS[3]:
        n -= round(delta_t(us) * 10 ** 7)
    q, r = divmod(n, 864000000000)
    return 2440587.5 + q + r / 864000000000


def generate(rng, ctx, i):
    zones = ["utc"] + rng.sample(V.ZONE_NAMES, rng.choice((1, 2, 3))) + [{"fixed": rng.choice((-86399, -43200, -12345, -1, 1, 900, 20700, 45296, 50400, 86399))}]

    def place():
        r = rng.random()
        if r < 0.3:
            return rng.choice(LAT) + near(rng)
        if r < 0.5:
            y, m = rng.choice(((1973, 1), (1973, 2), (1973, 3), (2014, 4), (2014, 5), (2014, 12), (2015, 1), (2015, 3), (2015, 4), (2016, 2), (2026, 1), (2026, 7), (2027, 1), (2000, 3), (2100, 3)))
            return V._sec(y, m, 1) * 10 ** 6 + near(rng)
        if r < 0.75:
            return V._sec(rng.randint(1972, 2060), rng.randint(1, 12), 1) * 10 ** 6 + near(rng)
        if r < 0.85:
            z = rng.choice([z for z in zones if isinstance(z, str) and z != "utc"])
            t = [x for x in V.zone(z)._utc if LO <= x * 10 ** 6 < HI]
            if t:
                return int(rng.choice(t) * 10 ** 6) + near(rng)
        return rng.randint(LO, HI if rng.random() < 0.2 else V._sec(2040, 1, 1) * 10 ** 6)
    us = min(max(place(), LO), HI)
    steps = []
    for _ in range(rng.choice((3, 6, 12, 24))):
        r = rng.random()
        if r < 0.35:
            us = place()
        elif r < 0.65:
            us += rng.choice((0, 1, 100, 1000, 10 ** 6, 6 * 10 ** 7, 3600 * 10 ** 6))
        elif r < 0.85:
            us += rng.choice((-1, 1)) * rng.choice((1, 30, 31, 181, 365, 366)) * 86400 * 10 ** 6
        else:
            us -= rng.choice((1, 1000, 10 ** 6, 3600 * 10 ** 6))
        us = min(max(us, LO), HI)
        fns = list(FNS)
        rng.shuffle(fns)
        steps.append([us, rng.choice(zones), fns[:rng.choice((1, 2, 4))], rng.choice(("now", "given", "given", "sub", "kw"))])
    return {"steps": steps}


def near(rng):
    return rng.choice((-1, 0, 1, -1000000, 999999, 1000000, -3600000000, 3600000000, rng.randint(-90000, 90000) * 10 ** 6, rng.randint(-90000000000, 90000000000)))


def execute(plan, ctx):
    res = H.Result()
    readings = {}
    try:
        pkg = ctx.fresh("math")
        for n, (us, z, fns, how) in enumerate(plan["steps"]):
            if how == "now":
                ctx.clock.set(us * 1000)
                when = D.datetime.now(V.mk_tz(z))
                res.count("reading of the simulated clock")
                if V.at(us, z)["dt"] != [when.year, when.month, when.day, when.hour, when.minute, when.second, when.microsecond]:
                    raise RuntimeError("clock shim")
            else:
                s = V.at(us, z)
                if how == "sub":
                    s["cls"] = "sub"
                when = V.mk_dt(s)
            for fn in fns:
                f = pkg.get(fn)
                g = H.outcome((lambda: f(when=when)) if how == "kw" else (lambda: f(when)))
                res.log(us, z, fn, g)
                res.ops += 1
                res.checks += 1
                want = model(fn, us)
                ok = g[0] == "ok" and isinstance(g[1], list) and g[1][0] == "n" and g[1][1] != "nan"
                v = float.fromhex(g[1][1]) if ok else None
                if not ok or (v != want if fn == FNS[0] else abs(v - want) > (2e-9 if fn in FNS[2:] else 1e-9)):
                    res.bad(fn.split(".")[1], "reading %d, %s UTC read in zone %s: %s gave %s, published data give %.17g" % (n, V.EPOCH + D.timedelta(microseconds=us), z, fn, V.short(g), want))
                    return res
                if fn == FNS[2]:
                    readings[us] = v
                    ks = sorted(readings)
                    p = bisect.bisect_left(ks, us)
                    for a, b in ((p - 1, p), (p, p + 1)):
                        if 0 <= a and b < len(ks):
                            d = ks[b] - ks[a]
                            if readings[ks[b]] < readings[ks[a]] or d >= 1000 and readings[ks[b]] == readings[ks[a]]:
                                res.bad("order", "the clock advanced from %s to %s UTC, the ephemeris day did not (%.17g, %.17g)" % (V.EPOCH + D.timedelta(microseconds=ks[a]), V.EPOCH + D.timedelta(microseconds=ks[b]), readings[ks[a]], readings[ks[b]]))
                                return res
    finally:
        ctx.clock.set(H.WALL0)
        loader.purge()
    us = [s[0] for s in plan["steps"]]
    res.sim_s = sum(abs(b - a) for a, b in zip(us, us[1:])) / 1e6
    res.nontrivial = len(us) >= 3
    for a, b in zip(us, us[1:]):
        if b < a:
            res.count("clock steps back")
        elif b - a > 86400 * 10 ** 6:
            res.count("clock jumps forward")
        else:
            res.count("clock ticks")
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["steps"]):
        if c:
            yield dict(plan, steps=c)
    for i, (us, z, fns, how) in enumerate(plan["steps"]):
        if len(fns) > 1:
            for f in fns:
                yield dict(plan, steps=plan["steps"][:i] + [[us, z, [f], how]] + plan["steps"][i + 1:])
        if z != "utc":
            yield dict(plan, steps=plan["steps"][:i] + [[us, "utc", fns, how]] + plan["steps"][i + 1:])
