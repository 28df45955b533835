"""C12: naive clock readings are always refused, aware ones never."""
import inspect, json
from sim import harness as H, loader, ops as O, sched, values as V
from . import conc

ID = "C12"
INSTRUMENT = True
RUNS = {"quick": 5500, "thorough": 120000}
RULE = ("Each run: 1-3 threads call time-dependent functions with aware and naive datetimes of the same few wall-clock readings (folds, datetime subclasses), by position or keyword, under a planned "
        "interleaving with interruptions, re-entering handlers and backend switches in between; then the same again undisturbed. Non-trivial: at least one naive and one aware call; distinct: hash of the event log.")
COMPONENTS = {"real": "all of pysolar", "stub": "choice of the running thread, delivery of interruptions"}
ASSUMPTIONS = ["a tzinfo whose utcoffset() is None counts as a time zone (the library documents tzinfo is not None)", "radiation.get_radiation_direct is in none of the named modules and does not check"]
FNS = [f for f in O.WHEN_FNS if f.split(".")[0] in ("solar", "stime", "util")] + ["stream.span"]


def generate(rng, ctx, i):
    b = rng.choice(("math", "numpy"))
    pools = O.Pools(rng, years=(1960, 2060), n_when=2, subclasses=False, special=1)
    only = rng.sample(FNS, rng.choice((1, 2, 4)))
    nt = rng.choice((1, 1, 2, 2, 3))
    marks = []

    def one():
        c = json.loads(json.dumps(pools.call(fn=rng.choice(only if rng.random() < 0.85 else FNS), kwwhen=0.4)))
        if rng.random() < 0.5:
            c = strip(c)
        cls = rng.choice((None, None, "sub", "even"))
        if cls:
            for x in list(c["a"]) + list(c.get("k", {}).values()):
                if isinstance(x, dict) and "dt" in x and not (c["fn"].startswith("stream.")):
                    x["cls"] = cls
        if rng.random() < 0.3 and not c["fn"].startswith("stream."):
            c["allkw"] = True
        return c
    threads = [[one() for _ in range(rng.choice((1, 2, 3)))] for _ in range(nt)]
    base = [c for cs in threads for c in cs]
    if rng.random() < 0.7:
        # the other kind of reading with the same hands on the clock
        c = json.loads(json.dumps(rng.choice(base)))
        c = strip(c) if not is_naive(c) else dress(c, rng.choice(pools.zones))
        threads[rng.randrange(nt)].append(c)
    prof = {(t, j): ctx.profile(strip_kw(c), b) for t, cs in enumerate(threads) for j, c in enumerate(cs)}
    if nt > 1:
        sc, _ = conc.gen_schedule(rng, [[strip_kw(c) for c in cs] for cs in threads], ctx, b)
    else:
        sc = {"points": [], "quantum": 0, "first": 0, "caps": {"0,%d" % j: 30 * prof[0, j][0] + 60000 for j in range(len(threads[0]))}}
    faults = []
    if rng.random() < 0.5:
        for _ in range(rng.choice((1, 2))):
            t = rng.randrange(nt)
            j = rng.randrange(len(threads[t]))
            k = conc.choose_k(rng, prof[t, j], intr=True)
            if rng.random() < 0.6:
                faults.append({"at": [t, j, k], "do": "raise", "exc": rng.choice(("KeyboardInterrupt", "MemoryError"))})
            else:
                faults.append({"at": [t, j, k], "do": "call", "call": strip_kw(one())})
    after = [rng.choice(base) if rng.random() < 0.7 else one() for _ in range(rng.choice((1, 2, 3)))]
    return {"backend": b, "switch": rng.choice((None, None, "math", "numpy")), "threads": threads, "sched": sc, "faults": faults, "after": after}


def strip(c):
    return json.loads(json.dumps(c), object_hook=lambda d: dict(d, tz=None) if "dt" in d else d)


def dress(c, z):
    return json.loads(json.dumps(c), object_hook=lambda d: dict(d, tz=z) if "dt" in d else d)


def strip_kw(c):
    return {k: v for k, v in c.items() if k != "allkw"}


def is_naive(c):
    return any(isinstance(x, dict) and "dt" in x and x["tz"] is None for x in list(c["a"]) + list(c.get("k", {}).values()))


def bind(pkg, c, env=None, objs=None):
    if not c.get("allkw"):
        return O.bind(pkg, c, env, objs)
    f = pkg.get(c["fn"])
    names = list(inspect.signature(f).parameters)
    kw = {n: V.mk(x, env) for n, x in zip(names, c["a"])}
    kw.update({n: V.mk(x, env) for n, x in c.get("k", {}).items()})
    return lambda: f(**kw)


def judge(res, ctx, b, c, g, where):
    res.checks += 1
    text = "%s %s%s%s" % (where, c["fn"], V.key([c["a"], c.get("k", {})]), " (all by keyword)" if c.get("allkw") else "")
    if g[0] == "hang":
        res.bad("hang", "%s hangs" % text)
    elif is_naive(c):
        if c["fn"] == "stream.span" and (V.mk_dt(c["a"][4]) - V.mk_dt(c["a"][3])).total_seconds() < 60 * c["a"][5]:
            return          # no step to make
        if g[:2] != ["x", "NoTimeZoneInfoError"]:
            res.bad("accepted", "%s was not refused with NoTimeZoneInfoError but gave %s" % (text, V.short(g)))
    else:
        if g[:2] == ["x", "NoTimeZoneInfoError"]:
            res.bad("refused", "%s was refused although it is aware" % text)
        elif b is not None:
            want = ctx.oracle(strip_kw(c), b)
            if not V.same(g, want):
                res.bad("value", "%s gave %s, alone %s" % (text, V.short(g), V.short(want)))


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    sched.patch_threading()
    try:
        pkg = ctx.fresh(b)
        got, sim, faulted = conc.execute(plan, ctx, pkg, res, make=lambda t, i, c: bind(pkg, c))
        if plan["switch"]:
            pkg.use(plan["switch"])
        after = [H.outcome(bind(pkg, c)) for c in plan["after"]]
    finally:
        sched.unpatch_threading()
        loader.purge()
    for (t, i), g in sorted(got.items()):
        if (t, i) not in faulted:
            judge(res, ctx, b, plan["threads"][t][i], g, "call %d of thread %d" % (i, t))
    for c, g in res.nested:
        judge(res, ctx, b, c, g, "call from a handler")
    for c, g in zip(plan["after"], after):
        res.log("after", g)
        judge(res, ctx, plan["switch"] or b, c, g, "later call")
    k = [is_naive(c) for cs in plan["threads"] + [plan["after"]] for c in cs]
    res.nontrivial = any(k) and not all(k)
    res.count("naive readings", sum(k))
    return res


shrink = conc.shrink_threads
