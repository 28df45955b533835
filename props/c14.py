"""C14: using data beyond its validity warns every time and changes nothing."""
import io, math, sys, warnings
from sim import envs, harness as H, loader, ops as O, sched, values as V
from . import c09, conc

ID = "C14"
INSTRUMENT = True
RUNS = {"quick": 4500, "thorough": 140000}
RULE = ("Each run: 1-2 threads make calls on covered and uncovered dates and altitudes (steered onto 2026-07-01 UTC and 11 km) under a planned interleaving, repeating equal calls, while the fate of warnings "
        "is changed between and inside calls: recorded, suppressed, shown once, turned into errors, written to a missing or failing stream; clocks jump. In record mode every uncovered call must have issued "
        "a warning in its own thread and no covered call any; values always equal those of a pristine interpreter and of the model. Non-trivial: at least one uncovered call; distinct: hash of the event log.")
COMPONENTS = {"real": "pysolar.solartime, elevation and everything above them; CPython warnings module", "stub": "warning sink, standard error, clocks, choice of the running thread"}
ASSUMPTIONS = ["RuntimeWarning (numpy arithmetic) and DeprecationWarning (CPython) are not pysolar's statements about its data and are ignored"]
NEED = ["solar.get_position", "solar.get_topocentric_position", "solar.get_altitude", "solar.get_azimuth", "stime.get_leap_seconds", "stime.get_julian_solar_day", "stime.get_julian_ephemeris_day",
        "util.solarelevation_function_clear", "util.solarelevation_function_overcast", "util.diffuse_underclear", "util.diffuse_underovercast", "util.direct_underclear", "util.global_irradiance_clear",
        "util.global_irradiance_overcast", "stream.span"]
OTHER = ["solar.get_altitude_fast", "solar.get_hour_angle", "stime.get_delta_t", "util.get_sunrise_time", "radiation.get_radiation_direct", "elevation.get_temperature_with_elevation"]
EDGE = V._sec(2026, 7, 1) * 10 ** 6
MODES = ("record", "record", "record", "ignore", "default", "once", "module", "error", "broken", "none")


def generate(rng, ctx, i):
    b = rng.choice(("math", "numpy"))
    pools = O.Pools(rng, years=(1965, 2060), n_when=1, subclasses=False)
    pools.whens = []
    for _ in range(rng.choice((2, 3, 4))):
        r = rng.random()
        us = EDGE + rng.choice((-1, 0, 1, -10 ** 6, 10 ** 6, -3600 * 10 ** 6, 3600 * 10 ** 6, rng.randint(-10 ** 11, 10 ** 11))) if r < 0.5 else rng.choice((1, 3, 6, 12, 13, 24)) * 2629800 * 10 ** 6 + EDGE if r < 0.7 else pools.instant()
        pools.whens.append(V.at(us, rng.choice(pools.zones)))
    fns = rng.sample(NEED, rng.choice((1, 2, 3)))
    if rng.random() < 0.5:
        fns.append("elevation.get_pressure_with_elevation")
    if rng.random() < 0.3:
        fns.append(rng.choice(OTHER))
    base = []
    for _ in range(rng.choice((2, 3, 5))):
        c = pools.call(fn=rng.choice(fns))
        if c["fn"].startswith("elevation.get_pressure"):
            c["a"] = [rng.choice((0, 8848.0, 10999.999, 11000, 11000.0, 11000.000001, 11001, 12000, 20000.5, 30000))]
        base.append(c)
    nt = rng.choice((1, 1, 1, 2))
    threads = [[rng.choice(base) for _ in range(rng.choice((2, 3, 5)))] for _ in range(nt)]
    if nt > 1:
        sc, prof = conc.gen_schedule(rng, threads, ctx, b)
    else:
        prof = {(0, j): ctx.profile(c, b) for j, c in enumerate(threads[0])}
        sc = {"points": [], "quantum": 0, "first": 0, "caps": {"0,%d" % j: 30 * prof[0, j][0] + 60000 for j in range(len(threads[0]))}}
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice((1, 2, 3, 4))):
            t = rng.randrange(nt)
            j = rng.randrange(len(threads[t]))
            k = 0 if rng.random() < 0.75 else conc.choose_k(rng, prof[t, j])
            faults.append({"at": [t, j, k], "do": "env", "env": {"mode": rng.choice(MODES)} if rng.random() < 0.75 else rng.choice(({"clock": rng.randint(0, 5 * 10 ** 18)}, {"mono": 3600 * 10 ** 9}, {"tz": rng.choice(envs.TZS)}))})
    tail = [rng.choice(base) for _ in range(rng.choice((1, 2)))]
    return {"backend": b, "mode": rng.choice(MODES), "threads": threads, "sched": sc, "faults": faults, "after": tail}


def times(c):
    """instants at which the call needs leap seconds"""
    if c["fn"] == "stream.span":
        a, b = V.instant(c["a"][3]), V.instant(c["a"][4])
        st = round(c["a"][5] * 6e7)
        return [a + k * st for k in range(min(c["take"], max(0, (b - a) // st)))]
    if c["fn"] not in NEED:
        return []
    w = [x for x in list(c["a"]) + list(c.get("k", {}).values()) if isinstance(x, dict) and "dt" in x]
    return [V.instant(x) for x in w]


def uncovered(c):
    if c["fn"] == "elevation.get_pressure_with_elevation":
        return c["a"][0] > 11000
    return any(t >= EDGE for t in times(c))


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    seen = {}
    state = {"mode": None, "epoch": 0}
    spans = {}

    def hook(message, category, filename, lineno, file=None, line=None):
        if issubclass(category, (RuntimeWarning, DeprecationWarning)):
            return
        sim = sched.S.sim
        t = sim.running if sim is not None else None
        k = (t.id, t.opi) if t is not None else ("after", state["i"])
        seen[k] = seen.get(k, 0) + 1
    show = warnings.showwarning

    def mode(m):
        state["mode"] = m
        state["epoch"] += 1
        warnings.showwarning = hook if m == "record" else show
        warnings.simplefilter({"record": "always", "broken": "always", "none": "always"}.get(m, m))
        warnings.filterwarnings("ignore", category=RuntimeWarning)
        warnings.filterwarnings("ignore", category=DeprecationWarning)
        sys.stderr = None if m == "none" else envs.BrokenStream(28) if m == "broken" else io.StringIO()
    with envs.Environment(ctx) as e:
        warnings.onceregistry.clear()
        sched.patch_threading()
        try:
            mode(plan["mode"])
            pkg = ctx.fresh(b)
            acts = {}
            for f in plan["faults"]:
                t, i, k = f["at"]
                x = f["env"]
                if "mode" in x:
                    acts.setdefault((t, i), []).append((k, {"do": "run", "name": "warnings become: " + x["mode"], "fn": lambda task, m=x["mode"]: mode(m)}))
                else:
                    acts.setdefault((t, i), []).append((k, {"do": "run", "name": envs.name(x), "fn": lambda task, x=x: e.apply(x)}))

            def make(t, i, c):
                th = O.bind(pkg, c)

                def go():
                    # a plan action at k=0 has already run
                    ep, m = state["epoch"], state["mode"]
                    try:
                        return th()
                    finally:
                        spans[t, i] = (m, ep == state["epoch"])
                return go
            got, sim, _ = conc.execute(plan, ctx, pkg, res, make=make, actions=acts)
            mode("record")
            after = []
            for j, c in enumerate(plan["after"]):
                state["i"] = j
                after.append(H.outcome(O.bind(pkg, c)))
                spans["after", j] = ("record", True)
        finally:
            sched.unpatch_threading()
            loader.purge()
            warnings.showwarning = show
    todo = [((t, i), plan["threads"][t][i], g) for (t, i), g in sorted(got.items())] + [(("after", j), c, g) for j, (c, g) in enumerate(zip(plan["after"], after))]
    for k, c, g in todo:
        m, steady = spans[k]
        u = uncovered(c)
        n = seen.get(k, 0)
        res.log(k, m, n)
        res.checks += 1
        text = "%s%s (%s, warnings: %s)" % (c["fn"], V.key([c["a"], c.get("k", {})]), "call %d of thread %d" % (k[1], k[0]) if k[0] != "after" else "later call", m)
        if m == "record" and steady:
            if u and not n and g[0] != "x":     # a call may fail (overflow) before it needs the data
                res.bad("silent", "%s is beyond the published data or 11 km but issued no warning" % text)
                return res
            if not u and n:
                res.bad("spurious", "%s is covered but issued %d warnings" % (text, n))
                return res
        if g[0] == "x" and g[1] == "UserWarning" or g[0] == "x" and g[1].endswith("Warning"):
            if steady and m != "error":
                res.bad("error", "%s raised %s" % (text, V.short(g)))
                return res
            if not u:
                res.bad("spurious", "%s is covered but raised %s" % (text, V.short(g)))
                return res
            continue
        if m == "error" and steady and u and g[0] != "x":
            res.bad("silent", "%s is beyond the published data or 11 km but did not warn: %s" % (text, V.short(g)))
            return res
        want = ctx.oracle(c, b)
        if not V.same(g, want):
            res.bad("value", "%s gave %s, in a pristine interpreter with warnings ignored %s" % (text, V.short(g), V.short(want)))
            return res
        if c["fn"] in c09.FNS and times(c) and times(c)[0] >= c09.LO:
            v, w = float.fromhex(g[1][1]), c09.model(c["fn"], times(c)[0])
            if abs(v - w) > 2e-9:
                res.bad("value", "%s gave %.17g, from the last published leap second follows %.17g" % (text, v, w))
                return res
        if c["fn"].startswith("elevation.get_pressure"):
            # the International Standard Atmosphere, in the library's sign convention
            k2 = dict(dict(Ps=101325.0, Ts=288.15, Tl=-0.0065, Hb=0), **c.get("k", {}))
            t = k2["Ts"] + k2["Tl"] * (c["a"][0] - k2["Hb"])
            w = k2["Ps"] * (k2["Ts"] / t) ** (9.80665 * 0.0289644 / (8.31432 * k2["Tl"])) if t > 0 else None
            if w is not None and not abs(float.fromhex(g[1][1]) - w) <= 1e-9 * w:
                res.bad("value", "%s gave %s, the plain formula gives %.17g" % (text, V.short(g), w))
                return res
    res.nontrivial = any(uncovered(c) for _, c, _ in todo)
    res.count("calls beyond the data", sum(uncovered(c) for _, c, _ in todo))
    return res


def shrink(plan):
    yield from conc.shrink_threads(plan)
    for j, f in enumerate(plan["faults"]):
        if f["at"][2] > 0:
            yield dict(plan, faults=plan["faults"][:j] + [dict(f, at=f["at"][:2] + [0])] + plan["faults"][j + 1:])
