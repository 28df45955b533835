"""C02: a result never depends on earlier calls."""
from sim import harness as H, loader, ops as O, values as V

ID = "C02"
INSTRUMENT = False
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("Each run: one interpreter life of 4 to 700 calls over small argument pools (repeats, equal-but-different arguments, failing calls, abandoned and "
        "still-open streams, backend switches); every outcome is compared with a restart that makes only that call. Non-trivial: at least 4 calls, at least one repeat or near-repeat; "
        "distinct: different hash of the call/outcome log.")
COMPONENTS = {"real": "all of pysolar", "stub": "none (time zones are simulated tzinfo objects)"}
ASSUMPTIONS = ["a fresh instance of the package (all modules re-executed) stands for a freshly started interpreter"]


def generate(rng, ctx, i):
    pools = O.Pools(rng, naive=rng.random() < 0.4, n_when=rng.choice((2, 4, 6)), special=1)
    b = rng.choice(("math", "math", "numpy"))
    kind = rng.random()
    names = [c[0] for c in O.CAT]
    only = rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2, 4))) if rng.random() < 0.6 else None
    long = kind > 0.965
    n = rng.randint(250, 700) if long else rng.randint(5, 25) if kind < 0.7 else rng.randint(30, 80)
    if long:
        pools.p.clear()
    switching = rng.random() < 0.3
    seq, calls = [], []
    for j in range(n):
        r = rng.random()
        if switching and r < 0.08:
            seq.append({"use": rng.choice(("math", "numpy"))})
            continue
        if calls and r < 0.3:
            c = rng.choice(calls[-40:])
        elif calls and r < 0.65:
            c = pools.tweak(rng.choice(calls[-40:]))
        else:
            if long:
                pools.p.clear()
                if rng.random() < 0.5:
                    pools.whens.append(pools.related(rng.choice(pools.whens)))
            c = pools.call(only=only if rng.random() < 0.85 else None, vec=b == "numpy" and rng.random() < 0.2)
        if rng.random() < 0.03:
            c = broken(rng, c)
        calls.append(c)
        it = {"call": c}
        if c["fn"].startswith("stream.") and rng.random() < 0.5:
            it["hold"] = True
        if not long or rng.random() < 0.25 or j >= n - 5:
            it["check"] = True
        seq.append(it)
    return {"backend": b, "seq": seq}


def broken(rng, c):
    """a call that fails half way: a wrong type or a missing argument"""
    c = dict(c, a=list(c["a"]))
    if c["a"]:
        j = rng.randrange(len(c["a"]))
        c["a"][j] = rng.choice(("x", None, {"map": {}}, []))
    return c


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    held = []
    pkg = ctx.fresh(b)
    env = O.Env(pkg)
    objs = {}
    try:
        with H.Alarm(120):
            for it in plan["seq"]:
                if "use" in it:
                    b = it["use"]
                    pkg.use(b)
                    res.count("backend switch")
                    continue
                c = it["call"]
                if it.get("hold"):
                    held.append(hold(pkg, c, env, objs))
                    res.count("half-consumed stream")
                got = H.outcome(O.bind(pkg, c, env, objs))
                res.ops += 1
                if got[0] == "x":
                    res.count("failed call")
                res.log(c["fn"], got)
                if it.get("check"):
                    want = ctx.oracle(c, b)
                    res.checks += 1
                    if not V.same(got, want):
                        res.bad("hang" if got[0] == "hang" else "exception" if got[0] == "x" and want[0] == "ok" else "value",
                                "call %d of the history: %s%s gave %s, a fresh interpreter gives %s" % (res.ops, c["fn"], V.key([c["a"], c.get("k", {})]), V.short(got), V.short(want)))
                        break
    finally:
        del held
        loader.purge()
    res.nontrivial = res.ops >= 4
    return res


def hold(pkg, c, env, objs):
    a = [V.mk(s, env) for s in c["a"]]
    f = pkg.get("simulate.simulate_span" if c["fn"] == "stream.span" else "simulate.datetime_range")
    try:
        g = f(*a)
        next(g)
        return g
    except Exception:
        return None


def shrink(plan):
    seq = plan["seq"]
    # everything after the last checked call is useless; then drop chunks
    for c in H.drop_chunks(seq):
        if any("call" in x and x.get("check") for x in c):
            yield dict(plan, seq=c)
