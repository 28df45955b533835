"""C04: the last successful backend switch governs every calculation."""
import sys
from sim import harness as H, loader, ops as O, values as V

ID = "C04"
INSTRUMENT = False
RUNS = {"quick": 20000, "thorough": 150000}
RULE = ("Each run: an interpreter life (with restarts) of use_numpy / use_math (package level or numeric level), numpy disappearing and coming back, and calculations with scalar or array "
        "arguments; each calculation is compared, including result types, with an interpreter in which only the backend selected last was ever selected (for math: one that never saw numpy). "
        "Non-trivial: at least one switch or import fault before a compared call; distinct: hash of the history with outcomes.")
COMPONENTS = {"real": "all of pysolar, numpy", "stub": "presence of numpy in the import system (sys.modules)"}
ASSUMPTIONS = ["numpy is either importable or not for the duration of one switch; it does not vanish between two names of the same switch"]


def generate(rng, ctx, i):
    pools = O.Pools(rng, naive=rng.random() < 0.2, n_when=3, special=True)
    names = [c[0] for c in O.CAT]
    only = (rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 3))) if rng.random() < 0.5 else rng.sample(names, rng.choice((1, 2, 4)))) if rng.random() < 0.75 else None
    made = []
    faults = rng.random() < 0.6
    seq = [{"restart": not faults or rng.random() < 0.6}]
    for _ in range(rng.choice((4, 8, 15, 30))):
        r = rng.random()
        if r < 0.3:
            seq.append({"use": rng.choice(("math", "numpy")), "via": rng.choice(("pysolar", "numeric"))})
        elif r < 0.45 and faults:
            seq.append({"numpy": rng.random() < 0.5})
        elif r < 0.48:
            seq.append({"restart": not faults or rng.random() < 0.6})
        elif r < 0.52:
            seq.append({"mod": 1})
        else:
            # the same call again after switches, or a new one
            c = rng.choice(made) if made and rng.random() < 0.5 else pools.call(only=only, vec=rng.random() < 0.3)
            made.append(c)
            seq.append({"call": c})
    seq.append({"call": pools.call(vec=rng.random() < 0.3)})
    return {"seq": seq}


def execute(plan, ctx):
    res = H.Result()
    avail, cur, pkg, n = True, None, None, 0
    try:
        with H.Alarm(120):
            for it in plan["seq"]:
                if "restart" in it:
                    avail = it["restart"]
                    loader.numpy_available(avail)
                    res.count("restart with numpy" if avail else "restart without numpy")
                    try:
                        pkg = ctx.fresh()
                    except Exception as e:
                        res.bad("import", "pysolar does not import with numpy %s: %s" % ("available" if avail else "missing", V.canon_exc(e)))
                        return res
                    cur = "numpy" if avail else "math"
                    continue
                if pkg is None:
                    pkg, cur = ctx.fresh(), "numpy"
                if "numpy" in it:
                    if it["numpy"] != avail:
                        res.count("numpy appears" if it["numpy"] else "numpy disappears")
                    avail = it["numpy"]
                    loader.numpy_available(avail)
                elif "use" in it:
                    m = pkg.top if it["via"] == "pysolar" else pkg.numeric
                    f = m.use_numpy if it["use"] == "numpy" else m.use_math
                    got = H.outcome(f)
                    res.ops += 1
                    res.log(it, got)
                    n += 1
                    if it["use"] == "numpy" and not avail:
                        res.count("failed switch")
                        res.checks += 1
                        if got[0] != "x" or got[1] not in ("ImportError", "ModuleNotFoundError"):
                            res.bad("switch", "use_numpy() without numpy gave %s instead of ImportError" % V.short(got))
                            return res
                    else:
                        res.count("switch")
                        if got[0] != "ok":
                            res.bad("switch", "use_%s() failed: %s" % (it["use"], V.short(got)))
                            return res
                        cur = it["use"]
                elif "mod" in it:
                    res.checks += 1
                    if pkg.numeric.current_mod != cur:
                        res.bad("current_mod", "numeric.current_mod is %r after the last successful switch to %r" % (pkg.numeric.current_mod, cur))
                        return res
                else:
                    c = it["call"]
                    got = H.outcome(O.bind(pkg, c), kinds=True)
                    res.ops += 1
                    res.checks += 1
                    res.log(c["fn"], got)
                    want = ctx.oracle(c, cur, kinds=True, numpy_ok=cur == "numpy")
                    if not V.same(got, want):
                        v = V.same(strip(got), strip(want))
                        res.bad("type" if v else "value", "with backend %s selected last, %s%s gave %s, an interpreter that only ever used %s gives %s"
                                % (cur, c["fn"], V.key([c["a"], c.get("k", {})]), got if v else V.short(got), cur, want if v else V.short(want)))
                        return res
    finally:
        loader.numpy_available(True)
        loader.purge()
    res.nontrivial = n > 0
    return res


def strip(x):
    if isinstance(x, list):
        if x and x[0] == "n":
            return x[:2]
        if x and x[0] == "a":
            return ["n", x[2][0]] if x[1] == [] else x[:3]
        return [strip(y) for y in x]
    return x


def shrink(plan):
    for c in H.drop_chunks(plan["seq"]):
        if c:
            yield dict(plan, seq=c)
