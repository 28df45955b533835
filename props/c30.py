"""C30: the energy account of a plant that follows the library adds up."""
import datetime as D, math
from sim import harness as H, loader, sunref as S, values as V
from props import fleet as F

ID = "C30"
INSTRUMENT = False
RUNS = {"quick": 4000, "thorough": 300000}
RULE = ("Each run: the energy meters of 1-4 plants read the available sunlight by a simulated clock that ticks, stalls, steps back and is set to edges of days, months, years, equinoxes and solstices; processes are restarted with and "
        "without numpy, backends switched, readings fail because a time zone does and are taken again; some meters account whole days from samples that arrive in any order, duplicated, across restarts. Every reading is compared "
        "with the cited models and with an independent ephemeris, every day's account with the integral in closed form. Non-trivial: at least two readings; distinct: hash of the readings.")
COMPONENTS = {"real": "pysolar.radiation, util, solar, solartime, numeric; numpy", "stub": "wall clock (LD_PRELOAD shim), time zones, availability of numpy, arrival of samples"}
ASSUMPTIONS = ["years 1900-2099", "the one-day-accurate declination and one-minute-accurate hour angle behind extraterrestrial_irrad cost up to 1.6 degrees, 3.5 % of the solar constant"]
DAY = 86400 * 10 ** 6


def generate(rng, ctx, i):
    sites = [F.site(rng)[:2] for _ in range(rng.choice((1, 1, 2, 4)))]
    zs = F.zones(rng)
    us = F.moment(rng)
    b = rng.choice(("math", "numpy"))
    steps = []
    for _ in range(rng.choice((2, 4, 8, 16))):
        r = rng.random()
        k = rng.randrange(len(sites))
        if r < 0.08:
            b = rng.choice(("math", "numpy"))
            steps.append(["use", b])
        elif r < 0.14:
            b = rng.choice(("math", "numpy", "none"))
            steps.append(["restart", b])
        elif r < 0.2:
            steps.append(["fail", us, rng.choice(zs), k, rng.choice((1, 2, 3, 4))])
        elif r < 0.26:
            n = rng.choice((48, 72, 96))
            order = list(range(n))
            if rng.random() < 0.6:
                rng.shuffle(order)
            again = [rng.randrange(n) for _ in range(rng.choice((0, 0, 3)))]
            steps.append(["day", us - us % DAY, rng.choice(zs), k, order + again, rng.choice((None, None, rng.randrange(n)))])
        elif r < 0.34 and b == "numpy":
            n = rng.choice((1, 2, 5, 9)) if rng.random() < 0.93 else rng.randint(50, 1200)
            steps.append(["array", [F.moment(rng) for _ in range(n)], [rng.choice((0.0, -0.0, 90.0, -90.0, 0.01, -0.01, round(rng.uniform(-90, 90), 3), round(rng.uniform(0, 90), 3))) for _ in range(n)], rng.choice(("both", "alts", "times"))])
        else:
            steps.append(["read", us, rng.choice(zs), k, rng.choice(("now", "given")), {"SC": rng.choice((None, None, 1367.0, 1361.0, 1.0)), "TY": rng.choice((None, None, 365, 366, 365.25)),
                          "elevation": rng.choice((0.0, 0.0, 1830.14)), "temperature": rng.choice((None, 268.4, 303.0)), "pressure": rng.choice((None, 90000.0, 65000.0)), "TL": rng.choice((None, 2.0, 3.5)), "AM": rng.choice((None, 1.0, 1.3))}])
        us, _ = F.advance(rng, us)
    return {"backend": rng.choice(("math", "numpy")), "sites": sites, "steps": steps}


def day_of(us):
    return (V.EPOCH + D.timedelta(microseconds=us)).timetuple().tm_yday


def spencer(d):
    g = 2 * math.pi * (d - 1) / 365
    return 1.00010 + 0.034221 * math.cos(g) + 0.001280 * math.sin(g) + 0.000719 * math.cos(2 * g) + 0.000077 * math.sin(2 * g)


def decl(d, ty=365):
    return 23.45 * math.sin(2 * math.pi * (d - 81) / ty)


def masters(d, alt):
    if alt <= 0:
        return 0.0
    a = 1160 + 75 * math.sin(2 * math.pi / 365 * (d - 275))
    k = 0.174 + 0.035 * math.sin(2 * math.pi / 365 * (d - 100))
    return a * math.exp(-k / math.sin(math.radians(alt)))


def truth(us, site):
    """(sine of the sun's altitude, 1/r^2)"""
    jd, tt = F.times(us)
    return S.sun(jd, site[0], site[1], 0, jde=tt)[2], S.ecliptic(tt)[1] ** -2


class Off(Exception):
    pass


def near(res, what, got, want, tol):
    res.checks += 1
    got = float(got)
    if not abs(got - want) <= tol:
        raise Off("%s is %r, should be %.9g within %.2g" % (what, got, want, tol))


def outer(res, pkg, us, when, site, sc=None):
    """extraterrestrial irradiance, compared"""
    u, s = pkg.util, pkg.solar
    c = 1367.0 if sc is None else sc
    e = float(u.extraterrestrial_irrad(site[0], site[1], when) if sc is None else u.extraterrestrial_irrad(site[0], site[1], when, SC=sc) if us % 2 else u.extraterrestrial_irrad(site[0], site[1], when, sc))
    d = day_of(us)
    ha = math.radians(float(s.get_hour_angle(when, site[1])))
    la, de = math.radians(site[0]), math.radians(decl(d))
    z = math.sin(la) * math.sin(de) + math.cos(la) * math.cos(de) * math.cos(ha)
    near(res, "extraterrestrial irradiance (given the library's hour angle)", e, c * spencer(d) * max(z, 0), 3e-5 * c)
    sin_h, near_factor = truth(us, site)
    near(res, "extraterrestrial irradiance (independent ephemeris)", e, c * near_factor * max(sin_h, 0), 0.035 * c)
    if e < 0 or e and sin_h < -math.sin(math.radians(1.6)):
        raise Off("extraterrestrial irradiance is %r with the sun at %.3f degrees" % (e, math.degrees(math.asin(sin_h))))
    return e


def read(res, pkg, us, when, site, env):
    u, s, r = pkg.util, pkg.solar, pkg.radiation
    d = day_of(us)
    out = [outer(res, pkg, us, when, site, env["SC"])]
    near(res, "mean_earth_sun_distance", u.mean_earth_sun_distance(when), 1 - 0.0335 * math.sin(2 * math.pi * (d - 94) / 365), 1e-9)
    near(res, "mean_earth_sun_distance (independent ephemeris)", u.mean_earth_sun_distance(when), truth(us, site)[1], 0.004)
    near(res, "declination_degree", u.declination_degree(when) if env["TY"] is None else u.declination_degree(when, env["TY"]), decl(d, env["TY"] or 365), 1e-7)
    air = {k: env[k] for k in ("elevation", "temperature", "pressure") if env[k] is not None}
    alt = float(s.get_altitude(site[0], site[1], when, **air))
    dire = float(r.get_radiation_direct(when, alt))
    near(res, "get_radiation_direct at altitude %r" % alt, dire, masters(d, alt), 1e-6)
    sin_h = truth(us, site)[0]
    if dire and sin_h < -math.sin(math.radians(1)) or not 0 <= dire <= 1235:
        raise Off("get_radiation_direct is %r with the sun at %.3f degrees" % (dire, math.degrees(math.asin(sin_h))))
    if abs(alt) > 1e-6:
        near(res, "air mass times sine of the altitude", r.get_air_mass_ratio(alt) * math.sin(math.radians(alt)), 1, 1e-9)
    sa = math.sin(math.radians(alt))
    near(res, "solarelevation_function_clear", u.solarelevation_function_clear(site[0], site[1], when, **air), 0.038175 + 1.5458 * sa - 0.59980 * sa * sa, 1e-7)
    near(res, "solarelevation_function_overcast", u.solarelevation_function_overcast(site[0], site[1], when, **air), -0.0067133 + 0.78600 * sa + 0.22401 * sa * sa, 1e-7)
    sky = {k: env[k] for k in ("TY", "TL", "AM") if env[k] is not None}
    g = float(u.global_irradiance_clear(site[0], site[1], when, **sky, **air))
    a = float(u.direct_underclear(site[0], site[1], when, **sky, **air))
    b = float(u.diffuse_underclear(site[0], site[1], when, **air, **({"TL": env["TL"]} if env["TL"] is not None else {})))
    near(res, "global_irradiance_clear, against direct + diffuse for the same %s" % V.key(dict(sky, **air)), g, a + b, 1e-9 * max(1, abs(a), abs(b)))
    kd, tl = 1 - 0.0335 * math.sin(2 * math.pi * (d - 94) / 365), env["TL"] or 1.0
    dt = -21.657 + 41.752 * tl + 0.51905 * tl * tl
    turb = {"TL": tl} if env["TL"] is not None else {}
    for what, got, want in (("diffuse_transmittance", u.diffuse_transmittance(**turb), dt), ("diffuse_underclear", b, kd * dt * alt), ("diffuse_underovercast", u.diffuse_underovercast(site[0], site[1], when, **air, **turb), kd * dt * alt),
                            ("global_irradiance_overcast", u.global_irradiance_overcast(site[0], site[1], when, **air), 572 * alt),
                            ("direct_underclear", a, 1367 * kd * math.exp(-0.8662 * (env["AM"] or 2.0) * tl * decl(d, env["TY"] or 365)) * sa)):
        near(res, "%s for %s at altitude %r" % (what, V.key(dict(sky, **air)), alt), got, want, 1e-7 * max(1, abs(want)))
    near(res, "diffuse_ratio", u.diffuse_ratio(b, g), b / g, 1e-9 * abs(b / g)) if g else None
    e = float(u.extraterrestrial_irrad(site[0], site[1], when))
    if e > 1:
        near(res, "clear_index", u.clear_index(500.0, site[0], site[1], when), 500.0 / e, 1e-9 * 500 / e)
    return out + [alt, dire, g]


def whole_day(res, ctx, pkg, st, site, tz, have):
    """account of one UTC day from samples in any order"""
    us0, order, again = st[1], st[4], st[5]
    m = len(set(order))
    got = {}
    for k in order:
        if again is not None and k == again:
            pkg = ctx.fresh(pkg.numeric.current_mod if have else None)
            again = None
            res.count("restart in the middle of a day")
        us = us0 + k * DAY // m
        e = float(pkg.util.extraterrestrial_irrad(site[0], site[1], (V.EPOCH.replace(tzinfo=D.timezone.utc) + D.timedelta(microseconds=us)).astimezone(tz)))
        if k in got and got[k] != e:
            raise Off("sample %d of the day taken again is %r, first it was %r" % (k, e, got[k]))
        got[k] = e
    total = sum(got.values()) / m
    d = day_of(us0)
    la, de = math.radians(max(-89.9999, min(89.9999, site[0]))), math.radians(decl(d))
    x = -math.tan(la) * math.tan(de)
    ws = 0.0 if x >= 1 else math.pi if x <= -1 else math.acos(x)
    want = 1367 * spencer(d) / math.pi * (math.cos(la) * math.cos(de) * math.sin(ws) + ws * math.sin(la) * math.sin(de))
    near(res, "mean of the extraterrestrial irradiance over the day (%d samples)" % m, total, want, 1.5)
    res.count("day accounted")
    return pkg, total


def execute(plan, ctx):
    res = H.Result()
    readings = 0
    try:
        pkg = ctx.fresh(plan["backend"])
        have = True
        for n, st in enumerate(plan["steps"]):
            if st[0] == "use":
                pkg.use(st[1] if have else "math")
                res.count("backend switch")
                continue
            if st[0] == "restart":
                have = st[1] != "none"
                loader.numpy_available(have)
                pkg = ctx.fresh(st[1] if have else None)
                res.count("restart" + ("" if have else " without numpy"))
                continue
            mod = pkg.numeric.current_mod
            if st[0] == "array":
                if mod != "numpy":
                    continue
                import numpy as np
                us, alts = st[1], st[2]
                if st[3] == "alts":
                    us = [us[0]] * len(alts)
                if st[3] == "times":
                    alts = [alts[0]] * len(us)
                w = np.array([V.EPOCH + D.timedelta(microseconds=x) for x in us], dtype="datetime64[us]")
                try:
                    got = pkg.radiation.get_radiation_direct(w if st[3] != "alts" else V.mk_dt(V.at(us[0], "utc")), np.array(alts) if st[3] != "times" else alts[0])
                    for x, y, z in zip([float(v) for v in got], us, alts):
                        near(res, "step %d, array over %s: get_radiation_direct at %s UTC, altitude %r" % (n, st[3], F.utc(y), z), x, masters(day_of(y), z), 1e-6)
                except Off as e:
                    res.bad("irradiance", str(e))
                except Exception as e:
                    res.bad("exception", "step %d, array over %s: %s: %s" % (n, st[3], type(e).__name__, e))
                if res.violations:
                    return res
                res.log("array", [float(v).hex() for v in got])
                res.count("vectorised reading")
                readings += 1
                continue
            us, z, site = st[1], st[2], plan["sites"][st[3]]
            tz = V.mk_tz(z)
            where = "step %d, %s UTC read in %s at %s (%s backend)" % (n, F.utc(us), z, site, mod)
            res.ops += 1
            try:
                if st[0] == "day":
                    pkg, total = whole_day(res, ctx, pkg, st, site, tz, have)
                    res.log(us, "day", total.hex())
                    readings += 1
                    continue
                env = {"SC": None, "TY": None, "elevation": 0.0, "temperature": None, "pressure": None, "TL": None, "AM": None}
                if st[0] == "fail":
                    when = V.mk_dt(V.at(us, z)).replace(tzinfo=F.FailingZone(tz, st[4]))
                    try:
                        pkg.util.extraterrestrial_irrad(site[0], site[1], when)
                    except F.Failing:
                        res.count("zone fails inside a call")
                    when = V.mk_dt(V.at(us, z))
                else:
                    env.update(st[5])
                    if st[4] == "now":
                        ctx.clock.set(us * 1000)
                        when = D.datetime.now(tz)
                        res.count("reading of the simulated clock")
                    else:
                        when = V.mk_dt(V.at(us, z))
                readings += 1
                res.log(us, [x.hex() for x in read(res, pkg, us, when, site, env)])
            except Off as e:
                res.bad("irradiance", "%s: %s" % (where, e))
            except Exception as e:
                res.bad("exception", "%s: %s: %s" % (where, type(e).__name__, e))
            if res.violations:
                return res
    finally:
        loader.numpy_available(True)
        ctx.clock.set(H.WALL0)
        loader.purge()
    us = [x[1] for x in plan["steps"] if x[0] in ("read", "fail", "day")]
    for a, b in zip(us, us[1:]):
        res.count("clock stalls" if a == b else "clock steps back" if b < a else "clock jumps" if b - a > F.HOUR else "clock ticks")
    res.sim_s = sum(abs(b - a) for a, b in zip(us, us[1:])) / 1e6 + 86400 * sum(x[0] == "day" for x in plan["steps"])
    res.nontrivial = readings > 1
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["steps"]):
        if c:
            yield dict(plan, steps=c)
    for k, st in enumerate(plan["steps"]):
        if st[0] in ("read", "fail", "day") and st[2] != "utc":
            yield H.set_in(plan, ["steps", k, 2], "utc")
        if st[0] == "fail":
            yield H.set_in(plan, ["steps", k], ["read"] + st[1:4] + ["given", {}])
        if st[0] == "read":
            if st[4] == "now":
                yield H.set_in(plan, ["steps", k, 4], "given")
            for q, v in st[5].items():
                if v is not None and q != "elevation":
                    yield H.set_in(plan, ["steps", k, 5, q], None)
        if st[0] == "day" and st[5] is not None:
            yield H.set_in(plan, ["steps", k, 5], None)
        if st[0] == "array":
            for j in range(len(st[1])):
                if len(st[1]) > 1:
                    yield H.set_in(plan, ["steps", k], ["array", st[1][:j] + st[1][j + 1:], st[2][:j] + st[2][j + 1:], st[3]])
    for k, s in enumerate(plan["sites"]):
        for j in range(2):
            for v in (0, round(s[j])):
                if s[j] != v:
                    yield H.set_in(plan, ["sites", k, j], v)
