"""C11: sunrise and sunset alarms ring with the sun on the horizon."""
import datetime as D, math
from sim import harness as H, loader, ops as O, values as V

ID = "C11"
INSTRUMENT = False
RUNS = {"quick": 8000, "thorough": 120000}
RULE = ("Each run: an alarm client at one place, living on a simulated zone's clock (DST, date line, base-offset changes, sub-minute offsets), asks the five functions at several moments of a local day "
        "(first and last microsecond, either side of a transition, both folds, clock stepped back), then the simulated wall clock is moved to each announced instant and the client looks at the sun with the "
        "library's own position functions. Non-trivial: at least two moments of one day; distinct: hash of place, moments and answers.")
COMPONENTS = {"real": "pysolar.util, solar, solartime; CPython datetime; numpy", "stub": "wall clock (LD_PRELOAD shim), time zones"}
ASSUMPTIONS = ["years 1950-2100; alarm accuracy is judged within 66 degrees of the equator, refusal and agreement everywhere",
               "the transit is required on the local day only where the zone's offset changes by an hour at most around it", "'does not rise or set' is judged by the library's own altitude: more than 1.5 degrees clear of the horizon all day"]
US = D.timedelta(microseconds=1)
FNS = ("get_sunrise_sunset_transit", "get_sunrise_sunset", "get_sunrise_time", "get_sunset_time", "get_transit_time")
PARTS = {"get_sunrise_sunset_transit": (0, 1, 2), "get_sunrise_sunset": (0, 1), "get_sunrise_time": (0,), "get_sunset_time": (1,), "get_transit_time": (2,)}
DAY = 86400 * 10 ** 6
LO, HI = V._sec(1950, 1, 3) * 10 ** 6, V._sec(2100, 12, 29) * 10 ** 6


def local_date(us, z):
    return V.at(us, z)["dt"][:3]


def generate(rng, ctx, i):
    z = rng.choice(V.ZONE_NAMES) if rng.random() < 0.75 else rng.choice(("utc", {"fixed": rng.choice((-43200, -34200, -12345, 900, 20700, 45900, 50400))}))
    if rng.random() < 0.5:
        lon = round(rng.uniform(-180, 180), 4)
    else:
        # a place where people use that clock
        off = V.mk_dt(V.at(V._sec(2000, 1, 1) * 10 ** 6, z)).utcoffset() / D.timedelta(hours=1)
        lon = round(((off * 15 + rng.uniform(-20, 20)) + 180) % 360 - 180, 4)
    r = rng.random()
    lat = round(rng.uniform(-66, 66), 4) if r < 0.75 else round(rng.choice((-1, 1)) * rng.uniform(66, 90), 4) if r < 0.95 else rng.choice((0, 66, -66, 90, -90, 66.56))
    days = []
    us = None
    for _ in range(rng.choice((1, 1, 2, 3))):
        r = rng.random()
        tr = [int(t * 10 ** 6) for t in V.zone(z)._utc if LO < t * 10 ** 6 < HI] if isinstance(z, str) and z != "utc" else []
        if us is not None and r < 0.3:
            us = us + rng.choice((-1, 1, 1, 7, 365)) * DAY
        elif tr and r < 0.75:
            us = rng.choice(tr) + rng.choice((-1, 0, 1, rng.randint(-DAY, DAY)))
        else:
            us = rng.randint(LO, HI)
        us = min(max(us, LO), HI)
        d = local_date(us, z)
        cand = [us]
        for _ in range(12):
            cand.append(us + rng.randint(-DAY, DAY))
        for t in tr:
            if abs(t - us) < DAY:
                cand += [t - 1, t, t + 1, t - 3600 * 10 ** 6, t + 3599 * 10 ** 6, t + 1800 * 10 ** 6]
        # the edges of the local day
        for sgn in (-1, 1):
            a, b = us, us + sgn * 2 * DAY
            if local_date(b, z) != d:
                while abs(b - a) > 1:
                    m = (a + b) // 2
                    a, b = (m, b) if local_date(m, z) == d else (a, m)
                cand += [a, a]
        cand = [c for c in cand if local_date(c, z) == d]
        rng.shuffle(cand)
        days.append([[c, rng.choice(FNS), rng.choice(("now", "given", "kw"))] for c in cand[:rng.choice((2, 3, 5, 8))]])
    return {"backend": rng.choice(("math", "numpy")), "lat": lat, "lon": lon, "tz": z, "days": days}


def us_of(t):
    return (t.astimezone(V.UTC) - D.datetime(1970, 1, 1, tzinfo=V.UTC)) // US


def execute(plan, ctx):
    res = H.Result()
    lat, lon, z = plan["lat"], plan["lon"], plan["tz"]
    where = "at %s,%s in zone %s (%s backend)" % (lat, lon, z, plan["backend"])
    try:
        pkg = ctx.fresh(plan["backend"])
        tz = V.mk_tz(z)
        for day in plan["days"]:
            answers = {}
            first = {}
            for us, fn, how in day:
                if how == "now":
                    ctx.clock.set(us * 1000)
                    when = D.datetime.now(tz)
                    res.count("asked at the clock's time")
                else:
                    when = V.mk_dt(V.at(us, z))
                f = getattr(pkg.util, fn)
                res.ops += 1
                try:
                    r = f(lat, lon, when=when) if how == "kw" else f(lat, lon, when)
                except ValueError as e:
                    r = None
                except Exception as e:
                    res.bad("exception", "%s(%s) %s raised %s: %s" % (fn, when, where, type(e).__name__, e))
                    return res
                if r is not None:
                    r = r if isinstance(r, (tuple, list)) else (r,)
                    if len(r) != len(PARTS[fn]) or not all(isinstance(x, D.datetime) and x.utcoffset() is not None for x in r):
                        res.bad("result", "%s(%s) %s returned %r" % (fn, when, where, r))
                        return res
                    for x in r:
                        if x.utcoffset() != x.astimezone(V.UTC).astimezone(tz).utcoffset():
                            res.bad("zone", "%s(%s) %s returned %s, which is not in the caller's zone" % (fn, when, where, x))
                            return res
                ans = dict(zip(PARTS[fn], [us_of(x) for x in r])) if r is not None else None
                res.log(us, fn, ans)
                for p in PARTS[fn]:
                    v = None if ans is None else ans[p]
                    res.checks += 1
                    if p in first:
                        w, (us0, fn0) = answers[p], first[p]
                        if (v is None) != (w is None) or v is not None and abs(v - w) > 1000:
                            res.bad("moment", "%s: %s asked at %s UTC says %s, %s asked at %s UTC, the same local day, says %s" % (
                                where, fn0, utc(us0), utc(w), fn, utc(us), utc(v)))
                            return res
                    else:
                        answers[p], first[p] = v, (us, fn)
                some = [v for v in answers.values()]
                if any(v is None for v in some) and any(v is not None for v in some):
                    res.bad("moment", "%s: on the local day of %s UTC only some moments or functions raise ValueError" % (where, utc(us)))
                    return res
            if not answers:
                continue
            res.sim_s += 86400
            us = day[0][0]
            if any(v is None for v in answers.values()) or abs(lat) > 66:
                lo, hi = extremes(pkg, lat, lon, us, z)
                rises = lo < -2.4 and hi > 0.7
                never = lo > 0.7 or hi < -2.4
                res.checks += 1
                if None in answers.values() and rises:
                    res.bad("refused", "%s: on the local day of %s UTC the sun is between %.2f and %.2f degrees, but ValueError is raised" % (where, utc(us), lo, hi))
                    return res
                if None not in answers.values() and never:
                    res.bad("polar", "%s: on the local day of %s UTC the sun stays between %.2f and %.2f degrees, but an alarm is set: %s" % (where, utc(us), lo, hi, [utc(v) for v in answers.values()]))
                    return res
            if None in answers.values():
                res.count("day without sunrise")
                continue
            if 0 in answers and 2 in answers and not answers[0] <= answers[2] or 2 in answers and 1 in answers and not answers[2] <= answers[1] or 0 in answers and 1 in answers and not answers[0] <= answers[1]:
                res.bad("order", "%s: sunrise, sunset, transit %s are out of order" % (where, [utc(answers.get(k)) for k in (0, 1, 2)]))
                return res
            if len([k for k in answers if k in (0, 1, 2)]) == 3 and abs(answers[0] + answers[1] - 2 * answers[2]) > 2 * 10 ** 6:
                res.bad("midway", "%s: the transit is not midway in %s" % (where, [utc(answers.get(k)) for k in (0, 1, 2)]))
                return res
            if 2 in answers:
                d = local_date(us, z)
                o = [V.mk_dt(V.at(us + k * DAY // 4, z)).utcoffset() for k in range(-5, 6)]
                if max(o) - min(o) <= D.timedelta(hours=1) and not any(local_date(answers[2] + k * 1801 * 10 ** 6, z) == d for k in (-2, -1, 0, 1, 2)):
                    res.bad("day", "%s: asked on the local day %s, the transit is on %s (%s UTC)" % (where, d, local_date(answers[2], z), utc(answers[2])))
                    return res
            if abs(lat) > 66:
                continue
            for p in (0, 1, 2):
                if p not in answers:
                    continue
                ctx.clock.set(answers[p] * 1000)
                now = D.datetime.now(tz)
                res.checks += 1
                res.count("alarm rung")
                alt = float(pkg.solar.get_altitude(lat, lon, now, pressure=0))
                if p < 2:
                    if not abs(alt + 0.833) <= 1:
                        res.bad("horizon", "%s: at %s %s the sun is at %.3f degrees (asked on %s UTC)" % (where, ("sunrise", "sunset")[p], now, alt, utc(us)))
                        return res
                    later = float(pkg.solar.get_altitude(lat, lon, now.astimezone(V.UTC) + D.timedelta(minutes=20), pressure=0))
                    if abs(lat) < 60 and (later > alt) != (p == 0):
                        res.bad("horizon", "%s: at %s %s the sun moves the wrong way (%.3f then %.3f degrees)" % (where, ("sunrise", "sunset")[p], now, alt, later))
                        return res
                else:
                    az = float(pkg.solar.get_azimuth(lat, lon, now))
                    h = math.degrees(math.asin(math.sin(math.radians(az)) * math.cos(math.radians(alt))))
                    other = float(pkg.solar.get_altitude(lat, lon, now.astimezone(V.UTC) + D.timedelta(hours=6), pressure=0))
                    if not abs(h) <= 0.5 or alt < other:
                        res.bad("meridian", "%s: at transit %s the sun is %.3f degrees off the meridian at %.3f degrees altitude (asked on %s UTC)" % (where, now, h, alt, utc(us)))
                        return res
    finally:
        ctx.clock.set(H.WALL0)
        loader.purge()
    res.nontrivial = any(len(d) > 1 for d in plan["days"])
    return res


def extremes(pkg, lat, lon, us, z):
    """lowest and highest altitude over the local day, by the library itself"""
    al = [float(pkg.solar.get_altitude(lat, lon, V.mk_dt(V.at(us + k * 1200 * 10 ** 6, "utc")), pressure=0)) for k in range(-72, 73)]
    return min(al), max(al)


def utc(us):
    return "ValueError" if us is None else str(V.EPOCH + us * US)


def shrink(plan):
    for c in H.drop_chunks(plan["days"]):
        if c:
            yield dict(plan, days=c)
    for k, d in enumerate(plan["days"]):
        if len(d) > 1:
            for c in H.drop_chunks(d):
                if c:
                    yield dict(plan, days=plan["days"][:k] + [c] + plan["days"][k + 1:])
    if plan["backend"] != "math":
        yield dict(plan, backend="math")
    for v in (0, round(plan["lat"])):
        if v != plan["lat"]:
            yield dict(plan, lat=v)
    for v in (0, round(plan["lon"])):
        if v != plan["lon"]:
            yield dict(plan, lon=v)
