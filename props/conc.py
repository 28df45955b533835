"""Shared machinery of the properties that need the baton scheduler."""
import json
from sim import harness as H, loader, ops as O, sched, values as V


def choose_k(rng, prof, intr=False):
    n, novel, novel_intr, hot = prof
    r = rng.random()
    if intr and novel_intr and r < 0.45:
        return rng.choice(novel_intr)
    if hot and r < 0.4:
        return rng.choice(hot)
    if novel and r < 0.72:
        return rng.choice(novel)
    return rng.randint(1, max(1, n))


def gen_schedule(rng, threads, ctx, backend):
    """points / quantum over the calls of the threads"""
    prof = {}
    for t, calls in enumerate(threads):
        for i, c in enumerate(calls):
            prof[t, i] = (1, [], [], []) if c["fn"] == "fork" else ctx.profile(c, backend)
    pos = sorted(prof)
    style = rng.random()
    pts, q, hot = [], 0, []
    if len(threads) > 1 and rng.random() < 0.25:
        p, s = rng.choice((0.1, 0.3, 0.3, 1.0)), rng.choice((0, 0, 0, 20, 60))
        hot = [[h, rng.choice((-1, -1, rng.randrange(len(threads))))] for h in range(s + 1, s + int(50 / p ** 0.5)) if rng.random() < p]
        style *= 0.6
    total = sum(p[0] for p in prof.values())
    if style < 0.6 or len(threads) < 2:
        for _ in range(rng.choice((0, 0, 1, 3)) if hot else rng.choice((1, 1, 2, 3, 5, 8))):
            t, i = rng.choice(pos)
            others = [x for x in range(len(threads)) if x != t]
            if others:
                pts.append([t, i, choose_k(rng, prof[t, i]), rng.choice(others)])
        if rng.random() < 0.3 and len(threads) > 1:
            # two threads side by side in the same place
            t, i = rng.choice(pos)
            k = choose_k(rng, prof[t, i])
            for u in range(len(threads)):
                pts.append([u, min(i, len(threads[u]) - 1), max(0, k + rng.choice((0, 0, -1, 1, 2, 5))), (u + 1) % len(threads)])
    else:
        q = max(int(10 ** rng.uniform(0.3, 3.6)), total // 2500)
    caps = {"%d,%d" % k: 30 * p[0] + 60000 for k, p in prof.items()}
    return {"points": pts, "quantum": q, "hot": hot, "first": rng.randrange(len(threads)), "caps": caps}, prof


def execute(plan, ctx, pkg, res, make=None, on_switch=None, actions=None, extra=None, env=None):
    """Runs plan["threads"] under plan["sched"]; returns {(task, op): outcome}. `faulted` marks ops a fault hit."""
    sc = plan.get("sched", {})
    acts = {}
    res.nested = []

    def nested(c, then=(), depth=1):
        """a handler that makes the call c; `then` are the faults that hit the handler's own call"""
        acts, raises = [], False
        for f in then:
            if f["do"] == "raise":
                acts.append((f["k"], {"do": "raise", "exc": f["exc"]}))
                raises = True
            else:
                acts.append((f["k"], {"do": "call", "name": "handler call, %d deep" % (depth + 1), "fn": nested(f["call"], f.get("then", ()), depth + 1)}))

        def go(task, th):
            try:
                with sched.count_events(task):
                    r = th()
                return ["ok", V.canon(r, plan.get("kinds", False))]
            except (sched.SimAbort, sched.SimHang):
                raise
            except BaseException as e:
                return V.canon_exc(e)

        def fn(task):
            th = O.bind(pkg, c)
            g = task.sim.nest(task, acts, lambda: go(task, th))
            if not raises:
                res.nested.append((c, g))
            res.log("nested", depth, g)
        return fn
    for t, i, k, to in sc.get("points", ()):
        acts.setdefault((t, i), []).append((k, {"do": "switch", "to": to}))
    faulted = set()
    for f in plan.get("faults", ()):
        t, i, k = f["at"]
        if f["do"] == "raise":
            acts.setdefault((t, i), []).append((k, {"do": "raise", "exc": f["exc"]}))
            faulted.add((t, i))
        elif f["do"] == "call":
            acts.setdefault((t, i), []).append((k, {"do": "call", "name": "handler call", "fn": nested(f["call"], f.get("then", ()))}))
    for k, a in (actions or {}).items():
        acts.setdefault(k, []).extend(a)
    objs = res.objs = {}
    env = env or O.Env(pkg)

    def op(t, i, call):
        th = make(t, i, call) if make else O.bind(pkg, call, env, objs)
        kinds = plan.get("kinds", False)

        def go(task):
            try:
                with sched.count_events(task):
                    r = th()
                if extra is not None:
                    extra(t, i, r)
                return ["ok", V.canon(r, kinds)]
            except sched.SimAbort:
                raise
            except sched.SimHang as e:
                return ["hang", str(e)]
            except BaseException as e:
                return V.canon_exc(e)
        return go
    tasks = [[op(t, i, c) for i, c in enumerate(calls)] for t, calls in enumerate(plan["threads"])]
    caps = {tuple(map(int, k.split(","))): v for k, v in sc.get("caps", {}).items()}
    sim = sched.Sim(tasks, acts, quantum=sc.get("quantum", 0), caps=caps, first=min(sc.get("first", 0), len(tasks) - 1), on_switch=on_switch, hot=sc.get("hot"))
    log = sim.run()
    res.events += sim.events
    res.ops += len(log)
    for k, n in sim.fired.items():
        res.count(k, n)
    res.trace.update(sim.trace.digest())
    res.switches = getattr(res, "switches", 0) + sim.switches
    return {(t, i): out for t, i, out, _, _ in log}, sim, faulted


def gen_then(rng, pools, ctx, c, b, only, depth=1):
    """faults that hit the call c a handler makes, and the handlers' handlers"""
    out = []
    while rng.random() < (0.45 if not out else 0.2):
        k = choose_k(rng, ctx.profile(c, b), intr=True)
        if rng.random() < 0.35:
            out.append({"k": k, "do": "raise", "exc": rng.choice(("KeyboardInterrupt", "MemoryError", "TimeoutError"))})
            break
        nc = pools.tweak(c) if rng.random() < 0.7 else pools.call(only=only)
        f = {"k": k, "do": "call", "call": nc}
        if depth < 3:
            th = gen_then(rng, pools, ctx, nc, b, only, depth + 1)
            if th:
                f["then"] = th
        out.append(f)
    return out


def expect(res, ctx, plan, backend, got, call, where, tol=0.0, numpy_ok=True):
    want = ctx.oracle(call, backend, plan.get("kinds", False), numpy_ok)
    res.checks += 1
    if not V.same(got, want, tol):
        cls = "hang" if got[0] == "hang" else "exception" if got[0] == "x" and want[0] == "ok" else "value"
        res.bad(cls, "%s %s%s gave %s, alone in a fresh interpreter it gives %s" % (where, call["fn"], V.key([call["a"], call.get("k", {})]), V.short(got), V.short(want)))
        return False
    return True


def shrink_threads(plan):
    """Smaller concurrent plans: fewer threads, calls, warm-ups, after-calls, switch points, faults."""
    th = plan["threads"]
    sc = plan.get("sched", {})
    for key in ("after", "warm"):
        if plan.get(key):
            for c in H.drop_chunks(plan[key]):
                yield dict(plan, **{key: c})
    for t in range(len(th)):
        if len(th) > 1:
            yield drop_thread(plan, t)
    for t in range(len(th)):
        for i in range(len(th[t])):
            if len(th[t]) > 1:
                yield drop_op(plan, t, i)
    if sc.get("points"):
        for c in H.drop_chunks(sc["points"]):
            yield dict(plan, sched=dict(sc, points=c))
    if sc.get("hot"):
        for c in H.drop_chunks(sc["hot"]):
            yield dict(plan, sched=dict(sc, hot=c))
    if sc.get("quantum"):
        yield dict(plan, sched=dict(sc, quantum=0))
        for q in (sc["quantum"] * 8, sc["quantum"] * 2):
            if q < 200000:
                yield dict(plan, sched=dict(sc, quantum=q))
    if plan.get("faults"):
        for c in H.drop_chunks(plan["faults"]):
            yield dict(plan, faults=c)
        for j, f in enumerate(plan["faults"]):
            if f.get("then"):
                yield dict(plan, faults=plan["faults"][:j] + [{k: v for k, v in f.items() if k != "then"}] + plan["faults"][j + 1:])


def _remap(plan, ft, fi):
    """ft(t) -> new t or None; fi(t, i) -> new i or None"""
    sc = plan.get("sched", {})
    pts = []
    for t, i, k, to in sc.get("points", ()):
        nt, ni, nto = ft(t), fi(t, i), ft(to)
        if nt is not None and ni is not None:
            pts.append([nt, ni, k, nto if nto is not None else -1])
    caps = {}
    for s, v in sc.get("caps", {}).items():
        t, i = map(int, s.split(","))
        if ft(t) is not None and fi(t, i) is not None:
            caps["%d,%d" % (ft(t), fi(t, i))] = v
    faults = []
    for f in plan.get("faults", ()):
        t, i, k = f["at"]
        if ft(t) is not None and fi(t, i) is not None:
            faults.append(dict(f, at=[ft(t), fi(t, i), k]))
    d = dict(plan, sched=dict(sc, points=pts, caps=caps, first=ft(sc.get("first", 0)) or 0))
    if "faults" in plan:
        d["faults"] = faults
    return d


def drop_thread(plan, x):
    d = _remap(plan, lambda t: None if t == x else t - (t > x), lambda t, i: i)
    d["threads"] = [c for t, c in enumerate(plan["threads"]) if t != x]
    return d


def drop_op(plan, x, y):
    d = _remap(plan, lambda t: t, lambda t, i: i if t != x else None if i == y else i - (i > y))
    d["threads"] = [[c for i, c in enumerate(cs) if not (t == x and i == y)] for t, cs in enumerate(plan["threads"])]
    return d
