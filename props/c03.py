"""C03: an interrupted call leaves no trace."""
import json
from sim import harness as H, loader, ops as O, sched, values as V
from . import conc

ID = "C03"
INSTRUMENT = True
RUNS = {"quick": 6000, "thorough": 140000}
RULE = ("Each run: calls on a fresh or warmed instance by 1-2 threads; at planned bytecodes (where CPython would deliver a signal, or at an allocation) an exception is raised inside a call "
        "or a handler makes other calls on top of it, interrupted in turn, up to four calls deep; caller-supplied zones and horizons fail or re-enter on their n-th use; afterwards the interrupted and related calls are made again. "
        "Non-trivial: at least one fault fired inside a call; distinct: different hash of the event log (place and kind of every fault, all outcomes).")
COMPONENTS = {"real": "all of pysolar, CPython exception and generator machinery, numpy", "stub": "signal delivery and allocation failure (raised by the scheduler), time zone and horizon objects"}
ASSUMPTIONS = ["asynchronous exceptions surface at function entry, backward jumps and after calls, as in CPython; allocation failures at allocating instructions"]


def generate(rng, ctx, i):
    b = rng.choice(("math", "math", "numpy"))
    pools = O.Pools(rng, n_when=3, naive=rng.random() < 0.1, special=1)
    names = [c[0] for c in O.CAT]
    only = rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2))) if rng.random() < 0.5 else None
    vec = b == "numpy" and rng.random() < 0.15
    nt = rng.choice((1, 1, 1, 2))
    threads = [[pools.call(only=only, vec=vec) for _ in range(rng.choice((1, 1, 2, 3)))] for _ in range(nt)]
    warm = [pools.call(only=only) for _ in range(rng.choice((0, 0, 0, 1, 2)))]
    faults, after = [], []
    for _ in range(rng.choice((1, 1, 2, 3))):
        t = rng.randrange(nt)
        j = rng.randrange(len(threads[t]))
        c = plain(threads[t][j])
        r = rng.random()
        if r < 0.5:
            exc = rng.choice(("KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "TimeoutError"))
            k = conc.choose_k(rng, ctx.profile(c, b), intr=True)
            faults.append({"at": [t, j, k], "do": "raise", "exc": exc})
        elif r < 0.8:
            k = conc.choose_k(rng, ctx.profile(c, b), intr=True)
            nc = pools.tweak(c) if rng.random() < 0.6 else pools.call(only=only)
            faults.append({"at": [t, j, k], "do": "call", "call": nc})
            if plain(nc) == nc:
                then = conc.gen_then(rng, pools, ctx, nc, b, only)
                if then:
                    faults[-1]["then"] = then
        else:
            c2 = poison(rng, c, pools, only)
            if c2 is not None:
                threads[t][j] = c2
        after.append(c)
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        base = rng.choice(after)
        after.append(base if r < 0.3 else pools.tweak(base) if r < 0.7 else pools.call(only=only))
    sc = {"points": [], "quantum": 0, "first": 0, "caps": {}}
    if nt > 1:
        sc, _ = conc.gen_schedule(rng, [[plain(c) for c in cs] for cs in threads], ctx, b)
    else:
        sc["caps"] = {"0,%d" % j: 30 * ctx.profile(plain(c), b)[0] + 60000 for j, c in enumerate(threads[0])}
    return {"backend": b, "warm": warm, "threads": threads, "sched": sc, "faults": faults, "after": after}


def poison(rng, c, pools, only):
    """the call with a zone (or horizon) that fails or re-enters"""
    c = json.loads(json.dumps(c))
    spec = {"at": sorted({rng.choice((1, 1, 2, 3, 4, 5, 8, 12)) for _ in range(rng.choice((1, 1, 2)))})}
    if rng.random() < 0.6:
        spec["exc"] = rng.choice(("ZoneFailure", "KeyboardInterrupt", "OSError", "ValueError"))
    else:
        spec["call"] = json.loads(json.dumps(pools.tweak(c) if rng.random() < 0.5 else pools.call(only=only)))
    for w in ("a", "k"):
        src = c.get(w, {})
        for key in (range(len(src)) if w == "a" else list(src)):
            v = src[key]
            if isinstance(v, dict) and v.get("dt") and isinstance(v.get("tz"), (str, dict)) and v["tz"] is not None and not (isinstance(v["tz"], dict) and "custom" in v["tz"]):
                if c["fn"].startswith("stream.") and rng.random() < 0.5:
                    continue
                v["tz"] = {"custom": dict(spec, base=v["tz"])}
                if c["fn"].startswith("stream."):
                    for x in c["a"]:
                        if isinstance(x, dict) and "dt" in x:
                            x["tz"] = v["tz"]
                return c
            if isinstance(v, dict) and "obj" in v and "horizon" in v["obj"]:
                v["obj"] = dict(spec, horizon=v["obj"]["horizon"])
                return c
    return None


def plain(c):
    """the call with well-behaved objects in place of the failing ones"""
    s = json.loads(json.dumps(c))

    def walk(x):
        if isinstance(x, dict):
            if "custom" in x:
                return x["custom"]["base"]
            if "obj" in x and "horizon" in x["obj"]:
                return {"obj": {"horizon": x["obj"]["horizon"]}}
            return {k: walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    return walk(s)


def poisoned(c):
    s = json.dumps(c)
    return "fails" if '"exc"' in s and ('"custom"' in s or '"at"' in s) else "reenters" if '"custom"' in s or '"at": [' in s else ""


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    fired_obj = []
    sched.patch_threading()
    try:
        pkg = ctx.fresh(b)

        def act(spec):
            sim = sched.S.sim
            cur, sched.S.cur = sched.S.cur, None
            try:
                if "exc" in spec:
                    res.count("caller object raises " + spec["exc"])
                    fired_obj.append(1)
                    raise O.EXC[spec["exc"]]("planned")
                t = sim.running if sim else None
                if t is not None and t.locks:
                    return
                res.count("caller object re-enters")
                fired_obj.append(1)
                c = spec["call"]
                g = H.outcome(O.bind(pkg, plain(c)))
                res.nested.append((plain(c), g))
            finally:
                sched.S.cur = cur
        env = O.Env(pkg, tz=lambda s: O.FaultZone(s, act), obj=lambda s: O.FaultHorizon(s, act) if "at" in s else O.default_obj(s))
        for c in plan["warm"]:
            H.outcome(O.bind(pkg, c))
        got, sim, faulted = conc.execute(plan, ctx, pkg, res, env=env)
        after = [H.outcome(O.bind(pkg, c)) for c in plan["after"]]
        res.ops += len(after)
    finally:
        sched.unpatch_threading()
        loader.purge()
    for (t, i), g in sorted(got.items()):
        c = plan["threads"][t][i]
        if (t, i) in faulted or poisoned(c) == "fails":
            if g[0] == "hang":
                res.bad("hang", "interrupted call %s hangs: %s" % (c["fn"], g[1]))
            continue
        p = plain(c)
        if p != c and g[0] == "ok":
            # a different (but equal) zone object: values are the same, datetimes print the same
            pass
        conc.expect(res, ctx, plan, b, g, p, "paused or undisturbed call %d of thread %d:" % (i, t))
    for c, g in res.nested:
        conc.expect(res, ctx, plan, b, g, c, "call made by the handler:")
    for j, (c, g) in enumerate(zip(plan["after"], after)):
        res.log("after", g)
        conc.expect(res, ctx, plan, b, g, c, "call %d after the interruption:" % j)
    res.nontrivial = any(k.startswith("raise") or k in ("handler call",) or k.startswith("caller") for k in res.fired)
    return res


shrink = conc.shrink_threads
