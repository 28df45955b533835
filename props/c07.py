"""C07: observers in different time zones agree on the sun."""
import datetime as D
from sim import harness as H, loader, ops as O, values as V

ID = "C07"
INSTRUMENT = False
RUNS = {"quick": 9000, "thorough": 160000}
RULE = ("Each run: 2-6 observers whose civil clocks follow simulated zones (fixed offsets down to microseconds, DST with folds and gaps, date-line jumps, base-offset changes) watch one shared "
        "timeline that ticks and jumps, also backwards, to transitions, month and year ends; every reading is fed to the library in one interpreter life and compared bit for bit with the UTC observer "
        "in a fresh interpreter. Non-trivial: at least two different local readings of one instant; distinct: hash of readings and outcomes.")
COMPONENTS = {"real": "all of pysolar, CPython datetime arithmetic, numpy", "stub": "time zones (explicit transition tables), the shared clock"}
ASSUMPTIONS = ["simulated zones follow PEP 495"]
FNS = [f for f in O.WHEN_FNS if f not in O.SUNRISE and f not in ("stream.range",)]


def generate(rng, ctx, i):
    zones = ["utc"] + rng.sample(V.ZONE_NAMES, rng.choice((1, 2, 3))) + [{"fixed": rng.choice((-86399, -43200, -34200.5, -12345, -1, 1, 75, 900, 20700, 45296, 50400.000001, 86399))} for _ in range(rng.choice((0, 1, 2)))]
    pools = O.Pools(rng, years=(1960, 2060), n_when=1, subclasses=False, special=1)
    pools.zones = zones
    b = rng.choice(("math", "numpy"))
    fns = rng.sample(FNS, rng.choice((1, 2, 3)))
    calls = []
    for f in fns:
        for _ in range(rng.choice((1, 2))):
            calls.append(pools.call(fn=f))
    us = pools.instant()
    steps = []
    lo, hi = V._sec(1960, 1, 2) * 10 ** 6, V._sec(2059, 12, 30) * 10 ** 6
    for _ in range(rng.choice((2, 4, 8, 16))):
        r = rng.random()
        if r < 0.25:
            us += rng.choice((0, 1, 1000000, 59999999, 60000000))
        elif r < 0.5:
            us += rng.choice((-1, 1)) * rng.choice((1800, 3600, 7200, 86400, 172800)) * 10 ** 6
        elif r < 0.8:
            us = pools.instant()
        else:
            us += rng.choice((-1, 1)) * 86400 * 10 ** 6 * rng.choice((30, 31, 365, 366))
        us = min(max(us, lo), hi)
        seen = [z for z in zones if rng.random() < 0.75] or zones[:1]
        rng.shuffle(seen)
        steps.append([us, [[rng.randrange(len(calls)), z] for z in seen]])
    return {"backend": b, "calls": calls, "steps": steps, "cls": rng.choice((None, None, None, "sub"))}


def put(c, us, z, cls=None):
    """the call with its datetimes read at instant us by the observer in zone z"""
    w0 = None

    def sub(v):
        nonlocal w0
        if isinstance(v, dict) and "dt" in v:
            i = V.instant(v)
            if w0 is None:
                w0 = i
            s = V.at(us + i - w0, z)
            if cls:
                s["cls"] = cls
            return s
        return v
    d = dict(c, a=[sub(v) for v in c["a"]])
    if "k" in c:
        d["k"] = {n: sub(v) for n, v in c["k"].items()}
    return d


def utc(c):
    """times in outcomes as instants"""
    if isinstance(c, list):
        if c and c[0] == "d" and c[2] is not None:
            return ["d", (D.datetime.fromisoformat(c[1]) - D.timedelta(seconds=c[2])).isoformat()]
        return [utc(x) for x in c]
    return c


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    pkg = ctx.fresh(b)
    prev, readings = None, set()
    try:
        with H.Alarm(120):
            for us, obs in plan["steps"]:
                if prev is not None:
                    res.sim_s += abs(us - prev) / 1e6
                    res.count("clock jumps back" if us < prev else "clock stalls" if us == prev else "clock advances")
                prev = us
                for ci, z in obs:
                    c = put(plan["calls"][ci], us, z, plan["cls"])
                    got = utc(H.outcome(O.bind(pkg, c)))
                    res.ops += 1
                    res.checks += 1
                    readings.add(V.key([c["a"], c.get("k")]))
                    res.log(us, z, c["fn"], got)
                    want = utc(ctx.oracle(put(plan["calls"][ci], us, "utc"), b))
                    if any(isinstance(v, dict) and v.get("fold") for v in list(c["a"]) + list(c.get("k", {}).values())):
                        res.count("reading in a fold")
                    if not V.same(got, want):
                        res.bad("disagree", "at instant %s the observer on clock %s gets %s(%s) = %s, the UTC observer gets %s"
                                % (V.at(us, "utc")["dt"], V.key(z), c["fn"], V.key([c["a"], c.get("k", {})]), V.short(got), V.short(want)))
                        return res
    finally:
        loader.purge()
    res.nontrivial = len(readings) > 1
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["steps"]):
        if c:
            yield dict(plan, steps=c)
    for i, (us, obs) in enumerate(plan["steps"]):
        if len(obs) > 1:
            for o in H.drop_chunks(obs):
                if o:
                    yield dict(plan, steps=plan["steps"][:i] + [[us, o]] + plan["steps"][i + 1:])
