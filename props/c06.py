"""C06: caller's arrays are never modified and results are never shared."""
import json, math
import numpy as np
from sim import harness as H, loader, ops as O, sched, values as V
from . import conc

ID = "C06"
INSTRUMENT = True
RUNS = {"quick": 4500, "thorough": 90000}
RULE = ("Each run: 2-4 phases; in each phase 1-3 threads make vectorised calls on shared caller buffers (contiguous, strided, reversed or read-only) under a planned interleaving, the buffers being "
        "checked byte for byte at every baton move and after every call; between phases the caller overwrites buffers with new values and scribbles over every result (arrays, lists, mappings) it got. "
        "All results are compared with a fresh interpreter and with themselves at the end. Non-trivial: at least two vectorised calls; distinct: hash of the event log.")
COMPONENTS = {"real": "all of pysolar, numpy", "stub": "choice of the running thread"}
ASSUMPTIONS = ["numpy does not release the baton inside one array operation"]
VEC = [c[0] for c in O.CAT if c[3]]
SHARED = ["solar.get_nutation", "rest.get_water_vapor_transmittance_coefficients", "util.get_sunrise_sunset_transit", "stream.range", "stream.span"]


def generate(rng, ctx, i):
    b = "numpy" if rng.random() < 0.85 else "math"
    pools = O.Pools(rng, n_when=2, special=3)
    pools.uniform = rng.random() < 0.12
    light = rng.random() < 0.6          # many functions, one thread
    only = (rng.sample(VEC, rng.choice((1, 2, 4, 8))) if light or rng.random() < 0.4 else rng.choices(VEC, [O.WEIGHT[n] for n in VEC], k=rng.choice((1, 2, 3)))) if rng.random() < 0.8 else None
    bufs, phases = {}, []
    names = {}

    def buf(v):
        k = V.key(v)
        if k not in names:
            names[k] = "b%d" % len(names)
            bufs[names[k]] = dict(v, layout=rng.choice((None, None, "strided", "rev", "ro")))
        return {"buf": names[k]}

    def sub(x):
        if isinstance(x, dict) and ("arr" in x or "dt64" in x):
            return buf(x)
        return x
    calls = []
    for _ in range(rng.choice((4, 8, 12)) if light else rng.choice((1, 2, 3, 4))):
        if b == "numpy" and rng.random() < 0.85:
            c = pools.vcall(only=only)
        else:
            c = pools.call(fn=rng.choice(SHARED))
        d = dict(c, a=[sub(x) for x in c["a"]])
        if "k" in c:
            d["k"] = {n: sub(x) for n, x in c["k"].items()}
        calls.append(d)
    for p in range(rng.choice((2, 2, 3, 4))):
        nt = 1 if light else rng.choice((1, 2, 2, 3))
        threads = [rng.sample(calls, len(calls))] if light else [[rng.choice(calls) for _ in range(rng.choice((1, 2)))] for _ in range(nt)]
        sets = {}
        if p:
            for n, v in bufs.items():
                if v["layout"] != "ro" and rng.random() < 0.6:
                    sets[n] = fresh_values(rng, v, pools, calls, n)
        ph = {"threads": threads, "set": sets, "scribble": rng.random() < 0.7}
        cur = {n: dict(v) for n, v in bufs.items()}
        if light:
            ph["sched"] = {"points": [], "quantum": 0, "first": 0, "caps": {}}
            phases.append(ph)
            continue
        ph["sched"], _ = conc.gen_schedule(rng, [[resolve(c, cur) for c in cs] for cs in threads], ctx, b)
        phases.append(ph)
    return {"backend": b, "bufs": bufs, "phases": phases}


def fresh_values(rng, v, pools, calls, name):
    """new contents for a buffer: values of the kind its first use has"""
    kind = None
    for c in calls:
        pos = O.PARAMS[c["fn"]]
        for k, x in zip(pos, c["a"]):
            if x == {"buf": name}:
                kind = k
        for kw, x in c.get("k", {}).items():
            if x == {"buf": name}:
                kind = dict(s.split(":") for s in O.BY[c["fn"]][2].split())[kw]
    if "dt64" in v:
        xs = [pools.instant() for _ in v["dt64"]]
        return [(V.EPOCH + V.D.timedelta(microseconds=x)).isoformat(timespec="microseconds") for x in xs]
    if kind is None:
        return [float(x) for x in reversed(v["arr"])]
    xs = [float(O.SCALAR[kind](rng)) for _ in v["arr"]]
    if len(set(math.copysign(1, x) for x in v["arr"])) == 1 and rng.random() < 0.7:
        xs = [math.copysign(x, v["arr"][0]) for x in xs]
    return xs


def resolve(c, cur):
    def sub(x):
        if isinstance(x, dict) and "buf" in x:
            return {k: v for k, v in cur[x["buf"]].items() if k != "layout"}
        return x
    d = dict(c, a=[sub(x) for x in c["a"]])
    if "k" in c:
        d["k"] = {n: sub(x) for n, x in c["k"].items()}
    return d


def walk(r):
    """mutable parts of a result"""
    if isinstance(r, np.ndarray):
        yield r
    elif isinstance(r, (tuple, list)):
        if isinstance(r, list):
            yield r
        for x in r:
            yield from walk(x)
    elif isinstance(r, dict):
        yield r
        for x in r.values():
            yield from walk(x)


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    vec = 0
    sched.patch_threading()
    try:
        pkg = ctx.fresh(b)
        env = O.Env(pkg)
        cur = {n: dict(v) for n, v in plan["bufs"].items()}
        env.bufs = {n: V.mk(v) for n, v in cur.items()}
        old = []            # results of earlier phases
        for pi, ph in enumerate(plan["phases"]):
            for n, vals in ph["set"].items():
                key = "dt64" if "dt64" in cur[n] else "arr"
                cur[n][key] = vals
                env.bufs[n][...] = np.array(vals, dtype=env.bufs[n].dtype).reshape(env.bufs[n].shape)
                res.count("caller reuses buffer")
            snap = {n: a.tobytes() for n, a in env.bufs.items()}
            bad = []
            results = {}

            def check(where):
                for n, a in env.bufs.items():
                    if a.tobytes() != snap[n] and not bad:
                        bad.append("buffer %s was changed (%s)" % (n, where))

            def on_switch(t, o):
                check("seen while call %d of thread %d, %s, is running" % (t.opi, t.id, ph["threads"][t.id][t.opi]["fn"]))

            def extra(t, i, r):
                results[t, i] = r
                check("seen after %s" % ph["threads"][t][i]["fn"])
            objs = {}
            got, sim, _ = conc.execute(dict(ph, kinds=False), ctx, pkg, res, on_switch=on_switch, extra=extra,
                                       make=lambda t, i, c: O.bind(pkg, c, env))
            check("seen at the end of the phase")
            if bad:
                res.bad("argument", "phase %d: %s" % (pi, bad[0]))
                return res
            for (t, i), g in sorted(got.items()):
                c = resolve(ph["threads"][t][i], cur)
                vec += any(isinstance(x, dict) and ("arr" in x or "dt64" in x) for x in c["a"])
                if not conc.expect(res, ctx, plan, b, g, c, "phase %d thread %d:" % (pi, t)):
                    return res
                if (t, i) in results and not V.same(["ok", V.canon(results[t, i])], g):
                    res.bad("result", "phase %d: the result of %s changed after it was returned" % (pi, c["fn"]))
                    return res
            # sharing
            parts = [((t, i), m) for (t, i), r in sorted(results.items()) for m in walk(r)]
            arrs = [(k, m) for k, m in parts if isinstance(m, np.ndarray) and m.size]
            for x, (k, m) in enumerate(arrs):
                if not m.flags.writeable or any(st == 0 and d > 1 for st, d in zip(m.strides, m.shape)):
                    res.bad("shared", "phase %d: the array returned by %s %s" % (pi, ph["threads"][k[0]][k[1]]["fn"], "cannot be written to" if not m.flags.writeable else "keeps several elements in one place"))
                    return res
                for n, a in env.bufs.items():
                    if np.may_share_memory(m, a):
                        res.bad("shared", "phase %d: the result of %s shares memory with the caller's array %s" % (pi, ph["threads"][k[0]][k[1]]["fn"], n))
                        return res
                for k2, m2 in arrs[:x]:
                    if m is m2 or np.may_share_memory(m, m2):
                        res.bad("shared", "phase %d: results of %s and %s share memory" % (pi, ph["threads"][k2[0]][k2[1]]["fn"], ph["threads"][k[0]][k[1]]["fn"]))
                        return res
                for o in old:
                    if isinstance(o, np.ndarray) and np.may_share_memory(m, o):
                        res.bad("shared", "phase %d: the result of %s shares memory with an earlier result" % (pi, ph["threads"][k[0]][k[1]]["fn"]))
                        return res
            if ph["scribble"]:
                for k, m in parts:
                    scribble(m)
                    res.count("result scribbled over")
            old += [m for k, m in parts]
    finally:
        sched.unpatch_threading()
        loader.purge()
    res.nontrivial = vec >= 2
    return res


def scribble(m):
    try:
        if isinstance(m, np.ndarray):
            if m.dtype.kind == "f":
                m[...] = 1e300
            elif m.dtype.kind in "iu":
                m[...] = 77
            elif m.dtype.kind == "b":
                m[...] = ~m
        elif isinstance(m, dict):
            for k in list(m):
                m[k] = 12345.0
        elif isinstance(m, list):
            m[:] = [9e99] * (len(m) + 1)
    except (ValueError, TypeError):
        pass


def shrink(plan):
    ph = plan["phases"]
    for c in H.drop_chunks(ph):
        if c:
            yield dict(plan, phases=c)
    for i, p in enumerate(ph):
        for q in conc.shrink_threads(p):
            if q["threads"] and all(q["threads"]):
                yield dict(plan, phases=ph[:i] + [q] + ph[i + 1:])
        for n in p["set"]:
            yield dict(plan, phases=ph[:i] + [dict(p, set={k: v for k, v in p["set"].items() if k != n})] + ph[i + 1:])
