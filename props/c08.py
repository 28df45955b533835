"""C08: results do not depend on the process environment."""
import json
from sim import envs, harness as H, loader, ops as O, sched, values as V
from . import conc

ID = "C08"
INSTRUMENT = True
RUNS = {"quick": 9000, "thorough": 110000}
RULE = ("Each run: one interpreter life whose environment is changed before the import, between calls and at planned bytecodes inside calls (wall and monotonic clock jumps, TZ, working directory, "
        "locale, warning filters, random state, numpy error settings, standard streams missing or failing, environment variables), 1-2 threads; repeated and related calls are compared bit for bit with a "
        "fresh interpreter in the standard environment. Non-trivial: at least one change before or inside a call; distinct: hash of changes, places and outcomes.")
COMPONENTS = {"real": "all of pysolar, CPython warnings/locale/tzset machinery, numpy", "stub": "clocks (LD_PRELOAD shim), standard streams, choice of the running thread"}
ASSUMPTIONS = ["only the locales C, C.UTF-8 and POSIX are installed here", "streams fail with OSError; a stream object closed by the application is outside the property (Python itself then raises ValueError when a warning is shown)"]


def generate(rng, ctx, i):
    b = rng.choice(("math", "numpy"))
    pools = O.Pools(rng, years=rng.choice(((1960, 2060), (2024, 2032), (1900, 2100))), n_when=3, naive=rng.random() < 0.05, special=1)
    names = [c[0] for c in O.CAT]
    only = rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2, 3)))
    vec = b == "numpy" and rng.random() < 0.35
    if vec:
        only = rng.sample([c[0] for c in O.CAT if c[3]], rng.choice((1, 2, 3)))
    nt = rng.choice((1, 1, 1, 2))
    base = [pools.call(only=only if rng.random() < 0.8 else None, vec=vec) for _ in range(rng.choice((1, 2, 3)))]
    threads = [[rng.choice(base) if rng.random() < (0.4 if vec else 0.7) else pools.tweak(rng.choice(base)) for _ in range(rng.choice((2, 3, 4)))] for _ in range(nt)]
    if nt > 1:
        sc, prof = conc.gen_schedule(rng, threads, ctx, b)
    else:
        prof = {(0, j): ctx.profile(c, b) for j, c in enumerate(threads[0])}
        sc = {"points": [], "quantum": 0, "first": 0, "caps": {"0,%d" % j: 30 * prof[0, j][0] + 60000 for j in range(len(threads[0]))}}
    faults = []
    for _ in range(rng.choice((1, 2, 4, 6))):
        t = rng.randrange(nt)
        j = rng.randrange(len(threads[t]))
        k = 0 if rng.random() < 0.45 else conc.choose_k(rng, prof[t, j])
        faults.append({"at": [t, j, k], "do": "env", "env": envs.gen(rng)})
    pre = [envs.gen(rng) for _ in range(rng.choice((0, 1, 2, 3)))]
    if vec and rng.random() < 0.4:
        pre.append({"misc": "printoptions"})
    return {"backend": b, "pre": pre, "threads": threads, "sched": sc, "faults": faults}


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    with envs.Environment(ctx) as e:
        sched.patch_threading()
        try:
            for x in plan["pre"]:
                e.apply(x)
                res.count(envs.name(x))
            pkg = ctx.fresh(b)
            acts = {}
            for f in plan["faults"]:
                t, i, k = f["at"]
                acts.setdefault((t, i), []).append((k, {"do": "run", "name": envs.name(f["env"]), "fn": lambda task, x=f["env"]: e.apply(x)}))
            got, sim, _ = conc.execute(plan, ctx, pkg, res, actions=acts)
        finally:
            sched.unpatch_threading()
            loader.purge()
    for (t, i), g in sorted(got.items()):
        if not conc.expect(res, ctx, plan, b, g, plan["threads"][t][i], "in a changed environment call %d of thread %d:" % (i, t)):
            break
    res.nontrivial = bool(plan["pre"]) or any(k.startswith("env") for k in res.fired)
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["pre"]):
        yield dict(plan, pre=c)
    yield from conc.shrink_threads(plan)
    for j, f in enumerate(plan["faults"]):
        if f["at"][2] > 0:
            yield dict(plan, faults=plan["faults"][:j] + [dict(f, at=f["at"][:2] + [0])] + plan["faults"][j + 1:])
