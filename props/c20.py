"""C20: trackers that follow pysolar stay on the sun."""
import datetime as D, math
from sim import harness as H, loader, sunref as S, values as V
from props import fleet as F

ID = "C20"
INSTRUMENT = False
RUNS = {"quick": 14000, "thorough": 600000}
RULE = ("Each run: a fleet of 1-4 trackers lives by simulated clocks that tick, stall, step back and are set to edges of hours, months, years, leap seconds, equinoxes and solstices; they ask through changing functions "
        "and zones, one by one or (numpy) for the whole fleet in one vectorised call; processes are restarted with and without numpy, backends switched, and calls fail in the middle because a time zone does. Every reading "
        "is compared with an ephemeris written independently (mean elements, vector algebra). Non-trivial: at least two readings; distinct: hash of readings and positions.")
COMPONENTS = {"real": "pysolar.solar, solartime, constants, numeric; numpy", "stub": "wall clock (LD_PRELOAD shim), time zones, availability of numpy"}
ASSUMPTIONS = ["the independent ephemeris is good to 0.005 degrees (measured against the unmodified code and the published example of the algorithm)", "years 1900-2099; UT1 and TT by the published tables from 1972 on"]
TOL, STAGED = 0.007, 0.002
HOW = ("pos", "pos", "sep", "topo", "zenith", "air", "stages")
SITE = "solar.get_apparent_sidereal_time"
KNOWN = ("the equation of the equinoxes is computed with the cosine of the obliquity in degrees taken as radians; positions are off by up to 0.006 degrees "
         "(three existing tests pin the resulting altitude and azimuth to more digits than that)")


def air(rng, n):
    """pressures and temperatures"""
    return [[rng.choice((101325.0, 100000.0, 0, round(rng.uniform(30000, 110000), 1))) for _ in range(n)], [rng.choice((288.15, 273.15, 233.15, round(rng.uniform(190, 335), 2))) for _ in range(n)]]


def generate(rng, ctx, i):
    sites = [F.site(rng) for _ in range(rng.choice((1, 1, 2, 4, 7)))]
    zs = F.zones(rng)
    us = F.moment(rng)
    b = rng.choice(("math", "numpy"))
    steps = []
    large = rng.random() < 0.012
    if large:
        # a whole park of trackers, addressed at once
        sites = [F.site(rng) for _ in range(rng.randint(30, 300))]
        steps.append(["use", "numpy"])
        b = "numpy"
    for _ in range(rng.choice((2, 4, 8, 16)) if not large else 5):
        r = rng.random()
        if r < 0.08:
            b = rng.choice(("math", "numpy"))
            steps.append(["use", b])
        elif r < 0.14:
            b = rng.choice(("math", "numpy", "none"))
            steps.append(["restart", b])
        elif r < 0.2:
            steps.append(["fail", us, rng.choice(zs), rng.randrange(len(sites)), rng.choice(HOW), rng.choice((1, 2, 3, 4, 6))])
        elif r < (0.3 if not large else 0.8) and b == "numpy":
            steps.append(["fleet", us, rng.choice(zs), rng.choice(("pos", "sep", "air", "airs")), air(rng, len(sites))])
        else:
            steps.append(["read", us, rng.choice(zs), rng.randrange(len(sites)), rng.choice(HOW), rng.choice(("now", "given")), air(rng, 1)])
        us, _ = F.advance(rng, us)
    return {"backend": rng.choice(("math", "numpy")), "sites": sites, "steps": steps}


def close(res, got, us, site, where, tol, geo=None):
    """got: unit vector; reports unless the sun is there"""
    jd, tt = F.times(us)
    lat, lon, h = site
    tol += F.slack(us)
    v = S.sun(jd, lat, lon, h, geo, tt)
    res.checks += 1
    off = S.sep(got, v)
    if off <= tol:
        return True
    dpsi, deps = S.nutation(tt)
    w = S.sun(jd, lat, lon, h, geo, tt, eqeq=dpsi * math.cos(S.obliquity(tt) + deps))
    if S.sep(got, w) <= tol:
        res.finding("C20", SITE, KNOWN)
        return True
    res.bad("position", "%s: %.5f degrees from the sun (%s)" % (where, off, "given the library's own geocentric longitude" if geo else "independent ephemeris"))
    return False


def bent(res, where, dry, alt, p, t):
    """the altitude with refraction against the one in vacuum"""
    res.checks += 1
    if abs(dry + 0.83337) > 1e-6 and abs(dry + 5.11) > 1e-6:
        want = S.refraction(dry, p, t) if dry > -0.83337 else 0.0
        if not abs(alt - dry - want) <= 1e-6:
            res.bad("refraction", "%s: at %g Pa, %g K altitude %.7f against %.7f in vacuum, refraction should be %.7f" % (where, p, t, alt, dry, want))
            return False
    return True


def direction(s, how, lat, lon, when, el):
    """unit vector from the named functions, without refraction"""
    if how == "sep":
        az, alt = s.get_azimuth(lat, lon, when, el), s.get_altitude(lat, lon, when, elevation=el, pressure=0)
    elif how == "zenith":
        dec, ha = s.get_topocentric_position(lat, lon, when, el)
        az, alt = s.get_topocentric_azimuth_angle(ha, lat, dec), 90 - s.get_topocentric_zenith_angle(lat, dec, ha, 0, 288)
    elif how == "topo":
        dec, ha = (float(x) for x in s.get_topocentric_position(lat, lon, when, elevation=el))
        u, w, n = S._c(dec) * S._c(ha), -S._c(dec) * S._s(ha), S._s(dec)
        v = (w, n * S._c(lat) - u * S._s(lat), u * S._c(lat) + n * S._s(lat))
        return math.degrees(math.atan2(v[0], v[1])) % 360, math.degrees(math.asin(max(-1, min(1, v[2]))))
    else:
        az, alt = s.get_position(lat, lon, when, elevation=el, pressure=0)
    return float(az), float(alt)


def stages(res, pkg, us, site, when, where):
    """the documented intermediate quantities, one by one"""
    s, st = pkg.solar, pkg.solartime
    jd, tt = F.times(us)
    sl = F.slack(us)
    my_jd, my_tt = float(st.get_julian_solar_day(when)), float(st.get_julian_ephemeris_day(when))
    jce = st.get_julian_ephemeris_century(my_tt)
    jme = st.get_julian_ephemeris_millennium(jce)
    lon, lat, r = float(s.get_geocentric_longitude(jme)), float(s.get_geocentric_latitude(jme)), float(s.get_sun_earth_distance(jme))
    nut = s.get_nutation(jce)
    eps = float(s.get_true_ecliptic_obliquity(jme, nut))
    mean = float(s.get_mean_sidereal_time(my_jd))
    app = float(s.get_apparent_sidereal_time(my_jd, jme, nut))
    ab = float(s.get_aberration_correction(r))
    l0, r0 = S.ecliptic(tt)
    dpsi, deps = S.nutation(tt)
    wrap = lambda x: (x + 180) % 360 - 180
    for what, got, want, tol in (("geocentric longitude", wrap(lon - l0), 0, 0.006), ("geocentric latitude", lat, 0, 0.0005), ("distance", r, r0, 5e-5),
                                 ("nutation in longitude", float(nut["longitude"]), dpsi, 2e-4), ("nutation in obliquity", float(nut["obliquity"]), deps, 6e-5),
                                 ("obliquity", eps, S.obliquity(tt) + deps, 1e-4), ("mean sidereal time", wrap(mean - S.sidereal(my_jd)), 0, 2e-6), ("aberration", ab, -20.4898 / 3600 / r0, 2e-6),
                                 ("UT day", my_jd, jd, 1e-8 + sl / 180), ("ephemeris day", my_tt, tt, 1e-8 + 10 * sl)):
        res.checks += 1
        if not abs(got - want) <= tol:
            res.bad("stage", "%s: %s is %.8f, should be %.8f within %g" % (where, what, got, want, tol))
            return
    res.checks += 1
    e = wrap(app - mean)
    if abs(e - dpsi * S._c(eps)) > 3e-4:
        if abs(e - float(nut["longitude"]) * math.cos(eps)) < 1e-7:
            res.finding("C20", SITE, KNOWN)
        else:
            res.bad("stage", "%s: equation of the equinoxes is %.8f, should be %.8f" % (where, e, dpsi * S._c(eps)))
            return
    p = s.get_position(site[0], site[1], when, elevation=site[2], pressure=0)
    close(res, S.vec(float(p[0]), float(p[1])), us, site, where, STAGED, (lon, lat, r))


def execute(plan, ctx):
    res = H.Result()
    readings = 0
    try:
        pkg = ctx.fresh(plan["backend"])
        for n, st in enumerate(plan["steps"]):
            if st[0] == "use":
                if loader.numpy_available(True) is False:
                    loader.numpy_available(False)
                    st = ["use", "math"]
                pkg.use(st[1])
                res.count("backend switch")
                continue
            if st[0] == "restart":
                loader.numpy_available(st[1] != "none")
                pkg = ctx.fresh(None if st[1] == "none" else st[1])
                res.count("restart" + (" without numpy" if st[1] == "none" else ""))
                continue
            us, z = st[1], st[2]
            tz = V.mk_tz(z)
            if st[0] == "fleet" and pkg.numeric.current_mod != "numpy":
                continue
            where = "step %d, %s UTC read in %s" % (n, F.utc(us), z)
            if st[0] == "fleet":
                import numpy as np
                when = V.mk_dt(V.at(us, z))
                a = np.array(plan["sites"], dtype=float)
                try:
                    wet = None
                    if st[3] == "sep":
                        az, alt = pkg.solar.get_azimuth(a[:, 0], a[:, 1], when, elevation=a[:, 2]), pkg.solar.get_altitude(a[:, 0], a[:, 1], when, elevation=a[:, 2], pressure=0)
                    else:
                        az, alt = pkg.solar.get_position(a[:, 0], a[:, 1], when, elevation=a[:, 2], pressure=0)
                        if st[3] != "pos":
                            ps, ts = (np.array(x) for x in st[4]) if st[3] == "airs" else (st[4][0][0], st[4][1][0])
                            wet = [float(x) for x in (pkg.solar.get_position(a[:, 0], a[:, 1], when, a[:, 2], ts, ps)[1] if n % 2 else pkg.solar.get_altitude(a[:, 0], a[:, 1], when, a[:, 2], ts, ps))]
                    got = [(float(x), float(y)) for x, y in zip(az, alt)]
                    assert len(got) == len(a)
                except Exception as e:
                    res.bad("exception", "%s, whole fleet: %s: %s" % (where, type(e).__name__, e))
                    return res
                res.count("vectorised fleet reading")
                res.ops += 1
                readings += 1
                res.log(us, "fleet", [(x.hex(), y.hex()) for x, y in got])
                for j, (g, site) in enumerate(zip(got, plan["sites"])):
                    if wet and not bent(res, where + ", site %s of the fleet" % site, g[1], wet[j], st[4][0][j if st[3] == "airs" else 0], st[4][1][j if st[3] == "airs" else 0]):
                        return res
                    if not close(res, S.vec(*g), us, site, "%s, site %s of the fleet, azimuth %r altitude %r" % (where, site, g[0], g[1]), TOL):
                        return res
                continue
            site, how = plan["sites"][st[3]], st[4]
            lat, lon, el = site
            if st[0] == "fail":
                spec = V.at(us, z)
                when = V.mk_dt(spec).replace(tzinfo=F.FailingZone(tz, st[5]))
                try:
                    pkg.solar.get_position(lat, lon, when)
                except F.Failing:
                    res.count("zone fails inside a call")
                except Exception as e:
                    res.bad("exception", "%s at %s with a zone failing on use %d: %s: %s" % (where, site, st[5], type(e).__name__, e))
                    return res
                how_time = "given"
            else:
                how_time = st[5]
            if how_time == "now":
                ctx.clock.set(us * 1000)
                when = D.datetime.now(tz)
                res.count("reading of the simulated clock")
            else:
                when = V.mk_dt(V.at(us, z))
            res.ops += 1
            readings += 1
            where = "%s by %s at %s" % (where, how, site)
            try:
                if how == "stages":
                    stages(res, pkg, us, site, when, where)
                    res.log(us, how)
                elif how == "air":
                    p, t = (x[0] for x in (st[6] if st[0] == "read" else [[95000.0], [301.0]]))
                    az, alt = (float(x) for x in pkg.solar.get_position(lat, lon, when, el, t, p))
                    a2, dry = (float(x) for x in pkg.solar.get_position(lat, lon, when, el, pressure=0))
                    res.log(us, how, az.hex(), alt.hex())
                    if az != a2:
                        res.bad("refraction", "%s: azimuth %r at %g Pa, %g K, in vacuum %r" % (where, az, p, t, a2))
                    alt = float(pkg.solar.get_altitude(lat, lon, when, el, t, p)) if n % 2 else alt
                    bent(res, where, dry, alt, p, t)
                    close(res, S.vec(a2, dry), us, site, where, TOL)
                else:
                    az, alt = direction(pkg.solar, how, lat, lon, when, el)
                    res.log(us, how, az.hex(), alt.hex())
                    close(res, S.vec(az, alt), us, site, "%s, azimuth %.6f altitude %.6f" % (where, az, alt), TOL)
            except Exception as e:
                res.bad("exception", "%s: %s: %s" % (where, type(e).__name__, e))
            if res.violations:
                return res
    finally:
        loader.numpy_available(True)
        ctx.clock.set(H.WALL0)
        loader.purge()
    us = [x[1] for x in plan["steps"] if x[0] in ("read", "fail", "fleet")]
    for a, b in zip(us, us[1:]):
        res.count("clock stalls" if a == b else "clock steps back" if b < a else "clock jumps" if b - a > F.HOUR else "clock ticks")
    res.sim_s = sum(abs(b - a) for a, b in zip(us, us[1:])) / 1e6
    res.nontrivial = readings > 1
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["steps"]):
        if c:
            yield dict(plan, steps=c)
    for k, st in enumerate(plan["steps"]):
        if len(st) > 2 and st[2] != "utc":
            yield H.set_in(plan, ["steps", k, 2], "utc")
        if st[0] == "fail":
            yield H.set_in(plan, ["steps", k], ["read"] + st[1:5] + ["given", [[95000.0], [301.0]]])
        if st[0] == "read" and st[5] == "now":
            yield H.set_in(plan, ["steps", k, 5], "given")
    for k, s in enumerate(plan["sites"]):
        for j in range(3):
            for v in (0, round(s[j])):
                if s[j] != v:
                    yield H.set_in(plan, ["sites", k, j], v)
