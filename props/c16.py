"""C16: the sun's track has no jumps as the clock advances."""
import datetime as D, math
from sim import harness as H, loader, ops as O, values as V

ID = "C16"
INSTRUMENT = False
RUNS = {"quick": 15000, "thorough": 200000}
RULE = ("Each run: a tracker at one place follows the sun by a simulated clock that ticks, stalls, steps back (up to an hour) and is set to the edges of hours, days, months, years, leap seconds, table ends and "
        "zone changes, read in changing zones and through changing functions, in one interpreter life. Checked between all readings at most an hour apart. Non-trivial: at least one pair of different "
        "readings; distinct: hash of readings and positions.")
COMPONENTS = {"real": "pysolar.solar, solartime, constants; numpy", "stub": "wall clock (LD_PRELOAD shim), time zones"}
ASSUMPTIONS = ["refraction is switched off with pressure=0", "the hour angle is recovered from azimuth, altitude and latitude; latitudes up to 89 degrees for that rate"]
LO, HI = V._sec(1900, 1, 2) * 10 ** 6, V._sec(2099, 12, 30) * 10 ** 6
HOUR = 3600 * 10 ** 6


def generate(rng, ctx, i):
    zones = ["utc"] + rng.sample(V.ZONE_NAMES, rng.choice((1, 2))) + [{"fixed": rng.choice((-43200, -12345, 900, 20700, 50400))}]

    def place():
        r = rng.random()
        if r < 0.3:
            us = V._sec(rng.randint(1900, 2099), rng.randint(1, 12), 1)
        elif r < 0.45:
            us = V._sec(rng.choice((1972, 1973, 1981, 1999, 2006, 2009, 2012, 2014, 2015, 2017, 2026, 2027, 2000, 2100)), rng.choice((1, 7)), 1)
        elif r < 0.55:
            us = V._sec(*rng.choice(((1973, 2), (2014, 4), (2014, 5), (2015, 1), (2015, 2), (2015, 5), (2000, 3), (1900, 3), (2100, 1))), 1)
        elif r < 0.75:
            us = V._sec(rng.randint(1900, 2099), rng.randint(1, 12), rng.randint(1, 28)) + rng.choice((0, 43200, 3600 * rng.randint(0, 23)))
        elif r < 0.85:
            z = rng.choice([z for z in zones if isinstance(z, str) and z != "utc"])
            us = int(rng.choice(V.zone(z)._utc))
        else:
            us = rng.randint(V._sec(1900, 1, 2), V._sec(2099, 12, 1))
        return us * 10 ** 6 + rng.choice((-HOUR // 2, -1, -1000, -10 ** 6, rng.randint(-HOUR, 0)))
    us = place()
    steps = []
    for _ in range(rng.choice((2, 3, 6, 12, 20))):
        us = min(max(us, LO), HI)
        steps.append([us, rng.choice(zones), rng.choice(("pos", "sep", "now"))])
        r = rng.random()
        if r < 0.12:
            us = place()
        elif r < 0.25:
            pass
        elif r < 0.4:
            us = rng.choice([s[0] for s in steps])
        elif r < 0.55:
            us -= rng.choice((1, 1000, 10 ** 6, HOUR // 2, HOUR))
        else:
            us += rng.choice((1, 2, 1000, 10 ** 6, 2 * 10 ** 6, 60 * 10 ** 6, HOUR // 2, HOUR, rng.randint(1, HOUR)))
    lat = rng.choice((0, 90, -90, 89.9, 23.44, 66.56)) if rng.random() < 0.1 else round(rng.uniform(-89, 89), 5)
    lon = rng.choice((0, 180, -180)) if rng.random() < 0.1 else round(rng.uniform(-180, 180), 5)
    return {"backend": rng.choice(("math", "numpy")), "lat": lat, "lon": lon, "elev": rng.choice((0, 0, 1830.14, 8000)), "steps": steps}


def execute(plan, ctx):
    res = H.Result()
    lat, lon, el = plan["lat"], plan["lon"], plan["elev"]
    track = {}
    try:
        pkg = ctx.fresh(plan["backend"])
        s = pkg.solar
        ph = math.radians(lat)
        for n, (us, z, how) in enumerate(plan["steps"]):
            if how == "now":
                ctx.clock.set(us * 1000)
                when = D.datetime.now(V.mk_tz(z))
            else:
                when = V.mk_dt(V.at(us, z))
            try:
                if how == "sep":
                    az, alt = s.get_azimuth(lat, lon, when, elevation=el), s.get_altitude(lat, lon, when, elevation=el, pressure=0)
                else:
                    az, alt = s.get_position(lat, lon, when, elevation=el, pressure=0)
                az, alt = float(az), float(alt)
            except Exception as e:
                res.bad("exception", "reading %d at %s UTC, %s,%s: %s: %s" % (n, utc(us), lat, lon, type(e).__name__, e))
                return res
            res.ops += 1
            res.log(us, z, how, az.hex(), alt.hex())
            if not (math.isfinite(az) and math.isfinite(alt)):
                res.bad("position", "reading %d at %s UTC, %s,%s: position %r, %r" % (n, utc(us), lat, lon, az, alt))
                return res
            a, h = math.radians(az), math.radians(alt)
            v = (math.cos(h) * math.sin(a), math.cos(h) * math.cos(a), math.sin(h))
            ha = math.degrees(math.atan2(-v[0], v[2] * math.cos(ph) - v[1] * math.sin(ph)))
            if us in track:
                res.checks += 1
                if track[us][0] != (az, alt):
                    res.bad("retrace", "at %s UTC (%s backend, %s,%s) the sun was at %r before and is at %r on reading %d (zone %s)" % (utc(us), plan["backend"], lat, lon, track[us][0], (az, alt), n, z))
                    return res
            for u, (_, w, hb) in track.items():
                dt = us - u
                if dt == 0 or abs(dt) > HOUR:
                    continue
                hours = abs(dt) / HOUR
                res.checks += 1
                cr = (v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0])
                sep = math.degrees(math.atan2(math.sqrt(sum(x * x for x in cr)), sum(x * y for x, y in zip(v, w))))
                if sep > 15.05 * hours + 0.02:
                    res.bad("jump", "between %s and %s UTC (%g s, %s,%s, %s backend) the sun moved %.5f degrees" % (utc(u), utc(us), dt / 1e6, lat, lon, plan["backend"], sep))
                    return res
                if abs(lat) <= 89:
                    d = ((ha - hb) * (1 if dt > 0 else -1) + 180) % 360 - 180
                    if abs(d - 15 * hours) > 0.1 * hours + 0.01:
                        res.bad("hour angle", "between %s and %s UTC (%g s, %s,%s, %s backend) the hour angle advanced by %.5f degrees" % (utc(u), utc(us), dt / 1e6, lat, lon, plan["backend"], d * (1 if dt > 0 else -1)))
                        return res
            track[us] = ((az, alt), v, ha)
    finally:
        ctx.clock.set(H.WALL0)
        loader.purge()
    us = [x[0] for x in plan["steps"]]
    for a, b in zip(us, us[1:]):
        res.count("clock stalls" if a == b else "clock steps back" if b < a else "clock jumps" if b - a > HOUR else "clock ticks")
    res.sim_s = sum(abs(b - a) for a, b in zip(us, us[1:]) if abs(b - a) <= HOUR) / 1e6
    res.nontrivial = len(track) > 1
    return res


def utc(us):
    return str(V.EPOCH + D.timedelta(microseconds=us))


def shrink(plan):
    for c in H.drop_chunks(plan["steps"]):
        if c:
            yield dict(plan, steps=c)
    for k, (us, z, how) in enumerate(plan["steps"]):
        if z != "utc" or how != "pos":
            yield dict(plan, steps=plan["steps"][:k] + [[us, "utc", "pos"]] + plan["steps"][k + 1:])
    for f in ("lat", "lon"):
        for x in (0, round(plan[f])):
            if x != plan[f]:
                yield dict(plan, **{f: x})
    if plan["elev"]:
        yield dict(plan, elev=0)
