"""C22: a tracker that falls back on the fast functions stays close to the sun."""
import datetime as D, math
from sim import harness as H, loader, ops as O, sched, sunref as S, values as V
from props import conc, fleet as F

ID = "C22"
INSTRUMENT = True
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("Each run: 1-3 tracker threads ask for precise positions under a deadline: at planned bytecodes the calculation is cut off (timeout, Ctrl-C, allocation failure) and the tracker falls back on the fast functions, while "
        "other threads are switched to at planned bytecodes; then a longer stretch of fast readings (single, or vectorised over places or over times) under a clock that ticks, stalls, steps back and is set to equinoxes and "
        "calendar edges, with restarts, backend switches and zones. Fast and completed precise readings are compared with the independent ephemeris. Non-trivial: a deadline struck or two fast readings; distinct: hash of the event log.")
COMPONENTS = {"real": "pysolar.solar, solartime, constants, numeric; numpy", "stub": "deadlines (raised by the scheduler), wall clock, time zones, availability of numpy"}
ASSUMPTIONS = ["years 1950-2099; the fast functions read the clock to the minute and the declination to the day: 1.6 degrees"]
LO = V._sec(1950, 1, 1) * 10 ** 6
FAST, PRECISE = 1.6, 0.02


def call(fn, site, us, z, kw=False):
    if kw:
        return {"fn": fn, "a": [site[0], site[1]], "k": {"when": V.at(us, z)}}
    return {"fn": fn, "a": [site[0], site[1], V.at(us, z)], "k": {}}


def many(rng, n):
    return rng.choice((1, 2, n)) if rng.random() < 0.98 else rng.randint(40, 400)


def generate(rng, ctx, i):
    b = rng.choice(("math", "numpy"))
    zs = F.zones(rng)
    m = lambda: F.moment(rng, LO)
    nt = rng.choice((1, 1, 2, 3))
    threads, truth, faults = [], [], []
    if rng.random() < 0.6:
        for t in range(nt):
            calls, facts = [], []
            for _ in range(rng.choice((1, 1, 2))):
                us, site, z = max(LO, m()), F.site(rng)[:2], rng.choice(zs)
                fn = rng.choice(("solar.get_altitude", "solar.get_azimuth", "solar.get_position"))
                calls.append(call(fn, site, us, z, rng.random() < 0.2))
                facts.append([us, site])
                if rng.random() < 0.8:
                    k = conc.choose_k(rng, ctx.profile(calls[-1], b), intr=True)
                    faults.append({"at": [t, len(calls) - 1, k], "do": "raise", "exc": rng.choice(("TimeoutError", "TimeoutError", "KeyboardInterrupt", "MemoryError"))})
                for fn in rng.sample(("solar.get_altitude_fast", "solar.get_azimuth_fast"), 2):
                    calls.append(call(fn, site, us, z, rng.random() < 0.2))
                    facts.append([us, site])
            threads.append(calls)
            truth.append(facts)
    sc = {"points": [], "quantum": 0, "first": 0, "caps": {}}
    if len(threads) > 1:
        sc, _ = conc.gen_schedule(rng, threads, ctx, b)
    elif threads:
        sc["caps"] = {"0,%d" % j: 30 * ctx.profile(c, b)[0] + 60000 for j, c in enumerate(threads[0])}
    us = max(LO, m())
    site = F.site(rng)[:2]
    steps = []
    for _ in range(rng.choice((2, 6, 12, 30))):
        r = rng.random()
        if r < 0.06:
            steps.append(["use", rng.choice(("math", "numpy"))])
        elif r < 0.1:
            steps.append(["restart", rng.choice(("math", "numpy", "none"))])
        elif r < 0.25:
            steps.append(["many", us, rng.choice(("places", "times")), [F.site(rng)[:2] for _ in range(many(rng, 5))], [max(LO, m()) for _ in range(many(rng, 3))], rng.choice(("us", "us", "s", "ms", "ns", "m", "h"))])
        else:
            if rng.random() < 0.5:
                site = F.site(rng)[:2]
            if rng.random() < 0.06:        # the sun rises due east and sets due west, to the last bit
                us = V._sec(rng.randint(1950, 2099), 3, rng.choice((21, 22))) * 10 ** 6 + rng.randrange(1440) * 60 * 10 ** 6
                site = [rng.choice((0, 0, 1e-9, -1e-9)), rng.choice((0, 180, rng.randint(-180, 180), round(rng.uniform(-180, 180), 2)))]
            steps.append(["read", us, rng.choice(zs), site])
        us = max(LO, F.advance(rng, us)[0])
    return {"backend": b, "warm": [], "threads": threads, "truth": truth, "sched": sc, "faults": faults, "steps": steps}


def off(got, what, us, site):
    """by how many degrees an altitude or an azimuth is wrong, at least, as a direction"""
    jd, tt = F.times(us)
    v = S.sun(jd, site[0], site[1], 0, jde=tt)
    alt = math.degrees(math.asin(max(-1, min(1, v[2]))))
    if what == "altitude":
        return abs(got - alt)
    d = (got - math.degrees(math.atan2(v[0], v[1])) + 180) % 360 - 180
    if abs(d) > 90:
        return 90 - abs(alt)
    return math.degrees(math.asin(S._c(alt) * abs(S._s(d))))


def judge(res, fn, g, us, site, where):
    """g: canonical outcome of fn"""
    if g[0] != "ok":
        res.bad("hang" if g[0] == "hang" else "exception", "%s %s at %s, %s UTC gave %s" % (where, fn, site, F.utc(us), V.short(g)))
        return False
    try:
        v = g[1][1:] if g[1][0] == "t" else [g[1]]
        v = [float.fromhex(x[1]) for x in v]
        assert len(v) == (2 if fn.endswith("position") else 1)
    except Exception:
        res.bad("value", "%s %s at %s, %s UTC gave %s" % (where, fn, site, F.utc(us), V.short(g)))
        return False
    whats = ("azimuth", "altitude") if len(v) == 2 else ("altitude",) if "altitude" in fn else ("azimuth",)
    for what, x in zip(whats, v):
        res.checks += 1
        d = off(x, what, us, site) if math.isfinite(x) else float("inf")
        lim = FAST if "fast" in fn else 0.7 if what == "altitude" else PRECISE     # refraction: up to 0.6 degrees
        if not d <= lim:
            res.bad("fast" if "fast" in fn else "precise", "%s %s at %s, %s UTC gave %s %r, %.3f degrees off (at most %g)" % (where, fn, site, F.utc(us), what, x, d, lim))
            return False
    return True


def execute(plan, ctx):
    res = H.Result()
    fast = 0
    sched.patch_threading()
    try:
        pkg = ctx.fresh(plan["backend"])
        if plan["threads"]:
            got, sim, faulted = conc.execute(plan, ctx, pkg, res)
            for (t, i), g in sorted(got.items()):
                us, site = plan["truth"][t][i]
                if (t, i) in faulted and g[0] == "x":
                    continue
                if not judge(res, plan["threads"][t][i]["fn"], g, us, site, "call %d of tracker %d (%s backend):" % (i, t, plan["backend"])):
                    return res
        for n, st in enumerate(plan["steps"]):
            if st[0] == "use":
                if loader.numpy_available(True) is False:
                    loader.numpy_available(False)
                    st = ["use", "math"]
                pkg.use(st[1])
                res.count("backend switch")
                continue
            if st[0] == "restart":
                loader.numpy_available(st[1] != "none")
                pkg = ctx.fresh(None if st[1] == "none" else st[1])
                res.count("restart" + (" without numpy" if st[1] == "none" else ""))
                continue
            mod = pkg.numeric.current_mod
            us = st[1]
            res.ops += 1
            if st[0] == "read":
                z, site = st[2], st[3]
                for fn in ("solar.get_altitude_fast", "solar.get_azimuth_fast"):
                    g = H.outcome(O.bind(pkg, call(fn, site, us, z)))
                    res.log(us, fn, g)
                    fast += 1
                    if not judge(res, fn, g, us, site, "step %d, zone %s (%s backend):" % (n, z, mod)):
                        return res
                continue
            if mod != "numpy":
                continue
            import numpy as np
            for fn in ("solar.get_altitude_fast", "solar.get_azimuth_fast"):
                f = pkg.get(fn)
                if st[2] == "places":
                    cases = [(us, s) for s in st[3]]
                    a = np.array(st[3], dtype=float)
                    th = lambda: f(a[:, 0], a[:, 1], V.mk_dt(V.at(us, "utc")))
                else:
                    cases = [(u, st[3][0]) for u in st[4]]
                    w = np.array([V.EPOCH + D.timedelta(microseconds=u) for u in st[4]], dtype="datetime64[us]").astype("datetime64[%s]" % st[5])
                    cases = [(int(u), st[3][0]) for u in w.astype("datetime64[us]").astype("int64")]
                    th = lambda: f(st[3][0][0], st[3][0][1], w)
                try:
                    r = [float(x) for x in th()]
                    assert len(r) == len(cases)
                except Exception as e:
                    res.bad("exception", "step %d: vectorised %s over %s %s: %s: %s" % (n, fn, st[2], cases, type(e).__name__, e))
                    return res
                res.count("vectorised over " + st[2])
                res.log(us, fn, [x.hex() for x in r])
                for x, (u, s) in zip(r, cases):
                    fast += 1
                    if not judge(res, fn, ["ok", ["n", x.hex()]], u, s, "step %d, vectorised over %s:" % (n, st[2])):
                        return res
    finally:
        sched.unpatch_threading()
        loader.numpy_available(True)
        loader.purge()
    us = [x[1] for x in plan["steps"] if x[0] == "read"]
    for a, b in zip(us, us[1:]):
        res.count("clock stalls" if a == b else "clock steps back" if b < a else "clock jumps" if b - a > F.HOUR else "clock ticks")
    res.sim_s = sum(abs(b - a) for a, b in zip(us, us[1:])) / 1e6
    res.nontrivial = fast > 1 or any(k.startswith("raise") for k in res.fired)
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["steps"]):
        yield dict(plan, steps=c)
    if plan["threads"]:
        yield dict(plan, threads=[], truth=[], faults=[], sched={"points": [], "quantum": 0, "first": 0, "caps": {}})
        for c in conc.shrink_threads(dict(plan, threads=[[dict(c, truth=f) for c, f in zip(cs, fs)] for cs, fs in zip(plan["threads"], plan["truth"])])):
            yield dict(c, truth=[[x["truth"] for x in cs] for cs in c["threads"]], threads=[[{k: v for k, v in x.items() if k != "truth"} for x in cs] for cs in c["threads"]])
    for k, st in enumerate(plan["steps"]):
        if st[0] == "read" and st[2] != "utc":
            yield H.set_in(plan, ["steps", k, 2], "utc")
        if st[0] == "read":
            for j in range(2):
                for v in (0, round(st[3][j])):
                    if st[3][j] != v:
                        yield H.set_in(plan, ["steps", k, 3, j], v)
