"""C05: backend switches are safe while other threads compute."""
import datetime as D
from sim import harness as H, loader, ops as O, sched, values as V
from . import conc

ID = "C05"
INSTRUMENT = True
RUNS = {"quick": 6000, "thorough": 110000}
TOL = 1e-5
RULE = ("Each run: 1-2 threads switch the backend (in the array variant: only redundant use_numpy) while 1-2 threads compute; the baton moves at planned bytecodes, also inside the switch; some "
        "switches are interrupted half-way. Concurrent scalar results must equal the undisturbed ones to rounding; after one final undisturbed switch all calculations must behave, types included, "
        "as if only that backend had ever been used. Non-trivial: a preemption or interruption inside a switch or calculation; distinct: hash of the event log.")
COMPONENTS = {"real": "all of pysolar, numpy, CPython threads", "stub": "choice of the running thread, delivery of the interrupt"}
ASSUMPTIONS = ["arguments are generic: not within 1e-9 of a branch point, so rounding cannot select another branch", "rounding: 1e-5 relative to max(1, |value|), 1 ms for times"]
SWITCHES = ("pysolar.use_numpy", "pysolar.use_math", "numeric.use_numpy", "numeric.use_math")


def sw(name):
    return {"fn": name, "a": []}


def generate(rng, ctx, i):
    arrays = rng.random() < 0.25
    start = "numpy" if arrays else rng.choice(("math", "numpy"))
    pools = O.Pools(rng, n_when=3, lat=lambda r: round(r.uniform(-58, 58), 4))
    names = [c[0] for c in O.CAT]
    only = rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2))) if rng.random() < 0.5 else None
    switch = ("pysolar.use_numpy", "numeric.use_numpy") if arrays else SWITCHES
    threads = [[sw(rng.choice(switch)) for _ in range(rng.choice((1, 2, 3, 4)))] for _ in range(rng.choice((1, 1, 2)))]
    for _ in range(rng.choice((1, 1, 2))):
        threads.append([generic(pools, only, arrays) for _ in range(rng.choice((1, 2, 3)))])
    sc, prof = conc.gen_schedule(rng, threads, ctx, start)
    if rng.random() < 0.5:
        # a switch right inside a calculation, a calculation right inside a switch
        for t, cs in enumerate(threads):
            for j in range(len(cs)):
                if rng.random() < 0.6:
                    sc["points"].append([t, j, rng.randint(1, prof[t, j][0]), rng.choice([x for x in range(len(threads)) if x != t])])
    faults = []
    if rng.random() < 0.35:
        for _ in range(rng.choice((1, 2))):
            t = rng.randrange(len(threads))
            j = rng.randrange(len(threads[t]))
            if threads[t][j]["fn"] in SWITCHES or rng.random() < 0.2:
                faults.append({"at": [t, j, rng.randint(1, prof[t, j][0])], "do": "raise", "exc": rng.choice(("KeyboardInterrupt", "MemoryError"))})
    after = [pools.call(only=only, vec=rng.random() < 0.3) for _ in range(3)] + [pools.call(vec=rng.random() < 0.3) for _ in range(2)]
    return {"start": start, "arrays": arrays, "threads": threads, "sched": sc, "faults": faults, "final": sw(rng.choice(SWITCHES)), "after": after}


def generic(pools, only, arrays):
    """a call whose result does not sit on a branch point"""
    for _ in range(20):
        c = pools.call(only=only, vec=arrays)
        if c["fn"] in ("elevation.get_pressure_with_elevation",) or not arrays or any(isinstance(x, dict) and ("arr" in x or "dt64" in x) for x in c["a"]):
            return c
    return c


def near(a, b):
    """equal to rounding"""
    if isinstance(a, list) and isinstance(b, list) and a and b:
        if a[0] == "n" and b[0] == "n":
            return V._close(a[1], b[1], TOL)
        if a[0] == "a" and b[0] == "a":
            return a[1] == b[1] and all(V._close(x, y, TOL) for x, y in zip(a[2], b[2]))
        if a[0] == "d" and b[0] == "d":
            return abs((D.datetime.fromisoformat(a[1]) - D.datetime.fromisoformat(b[1])).total_seconds()) < 1e-3 and a[2] == b[2]
        if a[0] == "x" and b[0] == "x":
            return a[1] == b[1]
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


def execute(plan, ctx):
    res = H.Result()
    sched.patch_threading()
    try:
        pkg = ctx.fresh(plan["start"])
        got, sim, faulted = conc.execute(plan, ctx, pkg, res)
        fin = H.outcome(O.bind(pkg, plan["final"]))
        after = [H.outcome(O.bind(pkg, c), kinds=True) for c in plan["after"]]
    finally:
        sched.unpatch_threading()
        loader.purge()
    for (t, i), g in sorted(got.items()):
        c = plan["threads"][t][i]
        if (t, i) in faulted:
            if g[0] == "hang":
                res.bad("hang", "interrupted %s hangs" % c["fn"])
            continue
        res.checks += 1
        if c["fn"] in SWITCHES:
            if g != ["ok", None]:
                res.bad("switch", "%s gave %s while others computed" % (c["fn"], V.short(g)))
            continue
        want = ctx.oracle(c, plan["start"])
        if not (V.same(g, want) if plan["arrays"] else near(g, want)):
            if not plan["arrays"] and near(g, ctx.oracle(c, "math" if plan["start"] == "numpy" else "numpy")):
                continue
            res.bad("hang" if g[0] == "hang" else "exception" if g[0] == "x" else "value", "%s%s gave %s while the backend was being switched; undisturbed it gives %s"
                    % (c["fn"], V.key([c["a"], c.get("k", {})]), V.short(g), V.short(want)))
    if fin != ["ok", None]:
        res.bad("switch", "final %s gave %s" % (plan["final"]["fn"], V.short(fin)))
    b = plan["final"]["fn"].split("_")[1]
    for c, g in zip(plan["after"], after):
        want = ctx.oracle(c, b, kinds=True)
        res.checks += 1
        res.log("after", g)
        if not V.same(g, want):
            res.bad("after", "after a final undisturbed %s, %s%s gave %s instead of %s" % (plan["final"]["fn"], c["fn"], V.key([c["a"], c.get("k", {})]), V.short(g), V.short(want)))
            break
    res.nontrivial = sim.switches > 0 or bool(res.fired)
    return res


shrink = conc.shrink_threads
