"""C21: a mount that follows pysolar always gets a valid command."""
import datetime as D, math
from sim import harness as H, loader, sunref as S, values as V
from props import fleet as F

ID = "C21"
INSTRUMENT = False
RUNS = {"quick": 8000, "thorough": 600000}
RULE = ("Each run: 1-3 vehicles carry mounts with panels (fixed, one tilted, one that faces the sun by the last command) and travel: to ordinary places, poles, the equator, the date line, the tropics and to the "
        "subsolar point and its antipode as the library itself gives them; clocks tick, stall, step back and are set to equinoxes, solstices and calendar edges; processes restart with and without numpy, backends are "
        "switched, zones fail in the middle of calls, single or vectorised. Non-trivial: at least two readings; distinct: hash of places, moments and commands.")
COMPONENTS = {"real": "pysolar.solar, solartime, constants, numeric; numpy", "stub": "wall clock (LD_PRELOAD shim), time zones, availability of numpy"}
ASSUMPTIONS = ["slope orientation is measured from south, as in the formula's source", "altitude may exceed 90 degrees by the refraction at the zenith (below 0.01)"]
EPS = 1e-9


def generate(rng, ctx, i):
    zs = F.zones(rng)
    us = F.moment(rng)
    steps = []
    place = F.site(rng)
    for _ in range(rng.choice((2, 4, 8, 16))):
        r = rng.random()
        if r < 0.07:
            steps.append(["use", rng.choice(("math", "numpy"))])
        elif r < 0.12:
            steps.append(["restart", rng.choice(("math", "numpy", "none"))])
        else:
            if rng.random() < 0.6:
                place = F.site(rng)
            if rng.random() < 0.1:       # to the day and place where the fast declination vanishes
                d = rng.choice((81, 81, 264, 355, 172))
                us = min(max(V._sec(rng.randint(1901, 2098), 1, 1) * 10 ** 6 + ((d - 1) * 1440 + rng.randint(0, 1439)) * 60 * 10 ** 6, F.LO), F.HI)
                place = [rng.choice((0, 0, 23.45, -23.45)), rng.choice((0, 0, 90, -90, 180, round(rng.uniform(-180, 180), 1))), 0]
            go = rng.choice(("site", "site", "site", "subsolar", "antisolar", "subsolar fast"))
            panel = [rng.choice((0, 90, 30, 180, round(rng.uniform(0, 90), 2))), rng.choice((0, 90, -90, 180, round(rng.uniform(-180, 180), 2)))]
            steps.append(["read", us, rng.choice(zs), place, go, panel, rng.choice(("std", "std", [600, 300], [108000, 220])), rng.choice((0, 0, 0, 0, 1, 2, 4)), rng.random() < 0.15])
        us, _ = F.advance(rng, us)
    return {"backend": rng.choice(("math", "numpy")), "steps": steps}


def travel(pkg, us, go, place, when):
    s = pkg.solar
    lat, lon, el = place
    if go.endswith("fast"):
        lat = float(s.get_declination(int(pkg.numeric.tm_yday(when))))
        lon = -float(s.get_hour_angle(when, 0))
    elif go != "site":
        lon = 0.0
        for _ in range(3):
            lat, h = (float(x) for x in s.get_topocentric_position(lat, lon, when, el))
            lon -= h
        if go == "antisolar":
            lat, lon = -lat, lon + 180
    return lat, (lon + 180) % 360 - 180, el


def bad_angles(az, alt, lo=-90.0):
    if not (math.isfinite(az) and math.isfinite(alt)):
        return "not finite"
    if not 0 <= az <= 360:
        return "azimuth out of range"
    if not lo - EPS <= alt <= 91:
        return "altitude out of range"


def execute(plan, ctx):
    res = H.Result()
    readings = 0
    try:
        pkg = ctx.fresh(plan["backend"])
        for n, st in enumerate(plan["steps"]):
            if st[0] == "use":
                if loader.numpy_available(True) is False:
                    loader.numpy_available(False)
                    st = ["use", "math"]
                pkg.use(st[1])
                res.count("backend switch")
                continue
            if st[0] == "restart":
                loader.numpy_available(st[1] != "none")
                pkg = ctx.fresh(None if st[1] == "none" else st[1])
                res.count("restart" + (" without numpy" if st[1] == "none" else ""))
                continue
            _, us, z, place, go, panel, air, fail, vec = st
            when = V.mk_dt(V.at(us, z))
            s = pkg.solar
            where = "step %d, %s UTC in %s (%s backend)" % (n, F.utc(us), z, pkg.numeric.current_mod)
            if fail:
                try:
                    s.get_position(place[0], place[1], when.replace(tzinfo=F.FailingZone(V.mk_tz(z), fail)))
                except F.Failing:
                    res.count("zone fails inside a call")
                except Exception:
                    pass
            try:
                lat, lon, el = travel(pkg, us, go, place, when)
                where += ", %s at %r, %r, %r" % (go, lat, lon, el)
                kw = {} if air == "std" else {"pressure": air[0] * 100 if air[0] < 2000 else air[0], "temperature": air[1]}
                p, t = kw.get("pressure", 101325.0), kw.get("temperature", 288.15)
                kw = dict(pressure=p, temperature=t)
                if vec and pkg.numeric.current_mod == "numpy":
                    import numpy as np
                    la, lo = np.array([lat, -lat]), np.array([lon, lon])
                    az, alt = (float(x[0]) for x in s.get_position(la, lo, when, elevation=el, **kw))
                    az2, alt2 = float(s.get_azimuth(la, lo, when, el)[0]), float(s.get_altitude(la, lo, when, el, **kw)[0])
                    faz, falt = float(s.get_azimuth_fast(la, lo, when)[0]), float(s.get_altitude_fast(la, lo, when)[0])
                    res.count("vectorised reading")
                else:
                    az, alt = (float(x) for x in s.get_position(lat, lon, when, elevation=el, **kw))
                    az2, alt2 = float(s.get_azimuth(lat, lon, when, el)), float(s.get_altitude(lat, lon, when, el, **kw))
                    faz, falt = float(s.get_azimuth_fast(lat, lon, when)), float(s.get_altitude_fast(lat, lon, when))
                dec, ha = (float(x) for x in s.get_topocentric_position(lat, lon, when, el))
                za = float(s.get_topocentric_zenith_angle(lat, dec, ha, p, t))
            except Exception as e:
                res.bad("exception", "%s: %s: %s" % (where, type(e).__name__, e))
                return res
            res.ops += 1
            readings += 1
            res.log(us, go, az.hex(), alt.hex(), faz.hex(), falt.hex())
            res.checks += 5
            w = bad_angles(az, alt) or bad_angles(faz, falt)
            if w:
                res.bad("range", "%s: %s: azimuth %r altitude %r, fast %r %r" % (where, w, az, alt, faz, falt))
                return res
            if not (abs(dec) <= 23.6 and math.isfinite(ha)):
                res.bad("range", "%s: declination %r, hour angle %r" % (where, dec, ha))
                return res
            # the single functions give the same command; loose in azimuth where the sun is at the zenith
            if abs(alt2 - alt) > 1e-9 or abs((az2 - az + 180) % 360 - 180) * S._c(min(alt, 90)) > 1e-6 or abs(za - (90 - alt)) > 1e-6:
                res.bad("consistency", "%s: get_position says %r, %r; get_azimuth %r, get_altitude %r, zenith angle %r" % (where, az, alt, az2, alt2, za))
                return res
            if go != "site" and el == 0 and abs((falt if "fast" in go else alt) - (-90 if go == "antisolar" else 90)) > 0.02:
                res.bad("zenith", "%s: the sun should be overhead (or below the feet), altitude %r, fast %r" % (where, alt, falt))
                return res
            # panels: slope and orientation (from south), normal vector against the direction of the sun
            tza = 90 - alt
            v = S.vec(az, alt)
            for sl, so in (panel, [panel[0], panel[1] + 90], [panel[0] / 2, panel[1] + 90], [0, panel[1]], [tza, az - 180]):
                res.checks += 1
                try:
                    g = float(s.get_incidence_angle(tza, sl, so, az))
                except Exception as e:
                    res.bad("exception", "%s: incidence on a panel with slope %r orientation %r, sun at zenith angle %r azimuth %r: %s: %s" % (where, sl, so, tza, az, type(e).__name__, e))
                    return res
                nv = (S._s(sl) * S._s(180 + so), S._s(sl) * S._c(180 + so), S._c(sl))
                want = S.sep(v, nv)
                if not abs(g - want) <= 1e-5:
                    res.bad("incidence", "%s: panel with slope %r orientation %r, sun at zenith angle %r azimuth %r: incidence %r, geometry says %r" % (where, sl, so, tza, az, g, want))
                    return res
    finally:
        loader.numpy_available(True)
        ctx.clock.set(H.WALL0)
        loader.purge()
    us = [x[1] for x in plan["steps"] if x[0] == "read"]
    for a, b in zip(us, us[1:]):
        res.count("clock stalls" if a == b else "clock steps back" if b < a else "clock jumps" if b - a > F.HOUR else "clock ticks")
    for x in plan["steps"]:
        if x[0] == "read":
            res.count("travel: " + x[4])
    res.sim_s = sum(abs(b - a) for a, b in zip(us, us[1:])) / 1e6
    res.nontrivial = readings > 1
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["steps"]):
        if c:
            yield dict(plan, steps=c)
    for k, st in enumerate(plan["steps"]):
        if st[0] == "read":
            for j, v in ((2, "utc"), (4, "site"), (6, "std"), (7, 0), (8, False), (5, [0, 0])):
                if st[j] != v:
                    yield H.set_in(plan, ["steps", k, j], v)
            for j in range(3):
                for v in (0, round(st[3][j])):
                    if st[3][j] != v:
                        yield H.set_in(plan, ["steps", k, 3, j], v)
    if plan["backend"] != "math":
        yield dict(plan, backend="math")
