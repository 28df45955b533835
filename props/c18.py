"""C18: a long-running process neither grows nor slows."""
import gc, hashlib, os, random, sys, threading, types, warnings
import numpy as np
from sim import harness as H, loader, ops as O, values as V

ID = "C18"
INSTRUMENT = False
RUNS = {"quick": 320, "thorough": 16000}
RULE = ("Each run: one process life in phases of 300 operations each: calls with ever new arguments (arrays of ever new lengths) while the simulated clock advances, repeated and failing calls, warnings, abandoned streams and streams "
        "kept open for the whole life, calls from short-lived threads, backend switches. After each phase everything reachable from the library, all allocated memory blocks, threads, descriptors and "
        "filters are counted, and the bytecodes of fixed probe calls and of one more step of the open streams. What grows in every phase is pursued until it stops or has grown beyond any plausible "
        "cache. Non-trivial: all; distinct: hash of the log of outcomes.")
COMPONENTS = {"real": "all of pysolar, numpy, CPython's memory management, threads (one at a time)", "stub": "the clock, caller time zones and horizons that fail on plan"}
ASSUMPTIONS = ["a cache of a fixed size up to roughly 20000 entries counts as bounded"]
PHASE = 300
FIRST = 5
BLOCKS, BYTES, COST = 120000, 12 << 20, 15000
KINDS = ("new", "repeat", "fail", "abandon", "stream", "thread", "switch", "zone", "vector")


def generate(rng, ctx, i):
    names = [c[0] for c in O.CAT]
    fns = sorted(set(rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2, 4, 8)))))
    if rng.random() < 0.3:
        fns = sorted(set(fns[:2] + [rng.choice(("elevation.get_pressure_with_elevation", "stime.get_leap_seconds", "stime.get_delta_t"))]))
    on = sorted(set(["new"] + rng.sample(KINDS, rng.choice((1, 2, 3, 5)))))
    return {"backend": rng.choice(("math", "math", "numpy")), "seed": rng.randrange(1 << 32), "fns": fns, "switch": rng.choice((["math", "numpy"], ["math", "numpy"], ["math"], ["numpy"])), "mix": [[k, rng.choice((1, 3))] for k in on],
            "start": rng.choice((-200000000, 0, 946684800, 1500000000, 1790000000)) + rng.randrange(10 ** 8), "step": rng.choice((1, 61, 3601, 86407, 86400 * 9 + 3)),
            "filter": rng.choice(("default",) * 5 + ("once", "once", "always", "ignore", "error"))}


class Life:
    """the work one process does, operation after operation"""

    def __init__(self, plan, ctx, pkg, res):
        self.p, self.pkg, self.res = plan, pkg, res
        self.r = random.Random(plan["seed"])
        self.b = plan["backend"]
        self.t = plan["start"]
        self.kinds, self.weights = [k for k, _ in plan["mix"]], [w for _, w in plan["mix"]]
        self.fns = plan["fns"]
        self.open = []
        self.zones = ["utc"] + [z for z in V.ZONE_NAMES[:2]]
        self.last = None
        self.length = 1
        self.log = hashlib.sha256()
        self.env = O.Env(pkg, tz=lambda s: O.FaultZone(s, self.act), obj=lambda s: O.FaultHorizon(s, self.act) if "at" in s else O.default_obj(s))

    def act(self, spec):
        raise O.EXC[spec["exc"]]("planned")

    def when(self):
        self.t += self.p["step"]
        if self.t > 2 ** 31:
            self.t -= 3000000000
        return V.at(self.t * 1000000 + self.r.choice((0, self.r.randrange(10 ** 6))), self.r.choice(self.zones))

    def draw(self, kind):
        r = self.r
        if kind == "when":
            return self.when()
        if kind == "band":
            return r.choice(O.BANDS)
        if kind == "coeffs":
            return {"table": r.choice(O.COEFFS)}
        if kind == "nut":
            return {"map": {"longitude": r.uniform(-0.01, 0.01), "obliquity": r.uniform(-0.01, 0.01)}}
        v = O.SCALAR[kind](r)
        return v + r.random() * 1e-3 if isinstance(v, float) else v

    def call(self):
        r = self.r
        fn = r.choice(self.fns)
        _, pos, kws, flag = O.BY[fn]
        if fn.startswith("stream."):
            w = self.when()
            st = r.uniform(1, 90)
            e = V.at(V.instant(w) + int(st * 180000000), w["tz"])
            if fn == "stream.range":
                return {"fn": fn, "a": [w, e, st], "take": 3}
            return {"fn": fn, "a": [self.draw("lat"), self.draw("lon"), {"obj": {"horizon": 1}}, w, e, st], "take": 2}
        d = {"fn": fn, "a": [self.draw(k) for k in pos.split()]}
        k = {kw.split(":")[0]: self.draw(kw.split(":")[1]) for kw in kws.split() if r.random() < 0.4}
        if k:
            d["k"] = k
        return d

    def go(self, c):
        g = H.outcome(O.bind(self.pkg, c, self.env))
        self.log.update(repr(g).encode())
        if g[0] == "x":
            self.res.count("failing call")
        return g

    def one(self):
        r = self.r
        k = r.choices(self.kinds, self.weights)[0]
        if k == "switch":
            self.b = r.choice(self.p["switch"])
            self.pkg.use(self.b)
            self.res.count("backend switch")
        elif k == "stream":
            self.step(r)
        elif k == "vector" and self.b == "numpy":
            c = self.call()
            _, pos, _, flag = O.BY[c["fn"]]
            if "p" in flag:
                self.length = n = self.length % 4000 + 1        # every length is new
                c["a"] = [{"arr": [float(self.draw(q)) + j * 1e-6 for j in range(n)] if n < 40 else [float(self.draw(q))] * n} if q in O.SCALAR else x for q, x in zip(pos.split(), c["a"])]
            self.go(c)
            self.res.count("vectorised call")
        elif k == "thread":
            c = self.call()
            t = threading.Thread(target=self.go, args=(c,))
            t.start()
            t.join()
            self.res.count("call on a short-lived thread")
        elif k == "abandon":
            w = self.when()
            e = V.at(V.instant(w) + 86400 * 10 ** 6, w["tz"])
            self.go({"fn": "stream.span", "a": [self.draw("lat"), self.draw("lon"), {"obj": {"horizon": 1}}, w, e, r.uniform(5, 90)], "take": r.choice((1, 2))})
            self.res.count("abandoned stream")
        else:
            c = self.last if k == "repeat" and self.last else self.call()
            self.last = c
            if k == "fail":
                c = self.broken(c)
            elif k == "zone":
                # a caller whose time zone objects are made for one call each
                c = dict(c, a=[dict(x, tz={"custom": {"base": x["tz"], "at": []}}) if isinstance(x, dict) and "dt" in x else x for x in c["a"]])
                self.res.count("short-lived time zone")
            self.go(c)
        self.res.ops += 1

    def broken(self, c):
        r = self.r
        a = list(c["a"])
        w = [j for j, x in enumerate(a) if isinstance(x, dict) and "dt" in x]
        q = r.random()
        if w and q < 0.4:
            x = a[w[0]]
            a[w[0]] = dict(x, tz={"custom": {"base": x["tz"], "at": [r.randint(1, 4)], "exc": r.choice(("KeyboardInterrupt", "MemoryError", "ValueError", "ZoneFailure"))}})
        elif w and q < 0.6:
            a[w[0]] = V.naive(a[w[0]])
        elif a:
            a[r.randrange(len(a))] = r.choice(("x", None, [], {"map": {}}))
        return dict(c, a=a)

    def step(self, r):
        if not self.open:
            w = V.mk(V.at((self.t + 977) * 1000000, r.choice(self.zones)), self.env)
            e = w + V.D.timedelta(days=4000)
            f = self.pkg.get("simulate.simulate_span"), self.pkg.get("simulate.datetime_range")
            self.open = [f[0](40.5, -105.25, O.horizon(0), w, e, 2), f[1](w, e, 2)]
        for g in self.open:
            try:
                self.log.update(repr(next(g)).encode())
            except (StopIteration, Warning):
                self.open = []
                break
        self.res.count("step of a long stream")

    # ------------------------------------------------------------------------------------------------------ measuring
    def probes(self):
        """bytecodes the library executes for calls that are always the same, and for one more step of the open streams"""
        out = {}
        for fn in self.p["fns"][:3] + ["solar.get_position", "util.get_sunrise_time"]:
            if fn in out or fn.startswith("stream."):
                continue
            rr, self.r, t = self.r, random.Random(fn), self.t
            self.t = 1700000000
            c = {"fn": fn, "a": [self.draw(k) for k in O.BY[fn][1].split()]}
            self.r, self.t = rr, t
            th = O.bind(self.pkg, c, self.env)
            out["cost of " + fn] = cost(lambda: H.outcome(th))
        if self.open:
            out["cost of a stream's next step"] = min(cost(lambda: next(self.open[0], None)) for _ in range(3))
            out["cost of a range's next step"] = cost(lambda: next(self.open[1], None))
        return out


def cost(thunk):
    n = [0]
    root = loader._FINDER.source.root

    def tr(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        if event == "opcode":
            n[0] += 1
        return tr
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        thunk()
    except Warning:
        pass
    finally:
        sys.settrace(old)
    return n[0]


STOP = (types.ModuleType, types.CodeType, types.BuiltinFunctionType, types.MethodDescriptorType, types.GetSetDescriptorType)


def reach(pkg):
    """(objects, bytes) reachable from the library's modules"""
    seen = set()
    todo = [vars(m) for m in pkg.modules.values()]
    mine = set(map(id, todo))
    n = size = 0
    skip = set(map(id, (vars(m) for m in list(sys.modules.values()) if m is not None and hasattr(m, "__dict__")))) - mine
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in skip or isinstance(o, STOP):
            continue
        if isinstance(o, type) and not o.__module__.startswith("pysolar"):
            continue
        seen.add(id(o))
        n += 1
        try:
            size += sys.getsizeof(o) + (o.nbytes if isinstance(o, np.ndarray) and o.base is not None else 0)
        except Exception:
            pass
        todo.extend(gc.get_referents(o))
    return n, size


def measure(life):
    cost_of = life.probes()
    gc.collect()
    n, size = reach(life.pkg)
    d = {"objects the library holds": n, "bytes the library holds": size, "threads": threading.active_count(),
         "open descriptors": len(os.listdir("/proc/self/fd")), "warning filters": len(warnings.filters)}
    d.update(cost_of)
    d["allocated blocks"] = sys.getallocatedblocks()
    return d


def tolerance(k, v):
    if k.startswith("cost"):
        return 10 + 0.004 * v
    return {"bytes the library holds": 400, "allocated blocks": 60, "objects the library holds": 2}.get(k, 0)


def execute(plan, ctx):
    res = H.Result()
    res.nontrivial = True
    ctx.memo.clear()
    with warnings.catch_warnings():
        warnings.simplefilter(plan["filter"])
        warnings.showwarning = lambda *a, **k: None
        try:
            with H.Alarm(600):
                pkg = ctx.fresh(plan["backend"])
                life = Life(plan, ctx, pkg, res)
                try:
                    run(life, res)
                finally:
                    life.open = []
        finally:
            loader.purge()
    return res


def run(life, res):
    def phase(n):
        for _ in range(n):
            life.one()
        res.checks += 1
        return measure(life)
    for _ in range(2):
        phase(PHASE)
    ms = [phase(PHASE) for _ in range(FIRST)]
    # what is pursued below may depend on how full the allocator's pools were: it is no part of the run's identity
    res.log(life.log.hexdigest())
    grow = growing(ms)
    if not grow:
        return
    # something grew in every phase: follow it, doing only what makes it grow, until it stops or is beyond any plausible cache
    first, at0, n = ms[0], 3 * PHASE, PHASE
    res.count("growth pursued")
    narrow(life, grow[0], (ms[-1][grow[0]] - ms[-2][grow[0]]) / PHASE, phase)
    ms = ms[-1:]
    before = res.ops
    while True:
        n = min(2 * n, 4000)
        ms.append(phase(n))
        grow = [k for k in grow if k in ms[-1] and ms[-1][k] - ms[-2][k] > tolerance(k, ms[-2][k])]
        if not grow:
            return
        over = [k for k in grow if ms[-1][k] - first[k] > limit(k) or res.ops - before > 60000]
        if over:
            k = over[0]
            res.bad("cost" if k.startswith("cost") else "growth", "%s: %d after %d operations, %d after %d, still growing by %d per %d (%s; %s)" % (
                k, first[k], at0, ms[-1][k], res.ops, ms[-1][k] - ms[-2][k], n, ", ".join(life.fns), ", ".join(life.kinds)))
            return


def growing(ms):
    return [k for k in ms[-1] if all(k in m for m in ms) and all(b[k] - a[k] > tolerance(k, a[k]) for a, b in zip(ms, ms[1:]))]


def limit(k):
    return BLOCKS if k in ("allocated blocks", "objects the library holds") else BYTES if k.startswith("bytes") else COST if k.startswith("cost") else 40


def narrow(life, k, rate, phase):
    """the one kind of operation on the one function that makes this grow fastest, unless it takes a mixture"""
    every = life.kinds, life.weights, life.fns
    best = (0, every)
    last = measure(life)
    for kind in every[0]:
        for fn in every[2]:
            life.kinds, life.weights, life.fns = [kind], [1], [fn]
            m = phase(40)
            if k in m and k in last:
                best = max(best, ((m[k] - last[k] - tolerance(k, last[k])) / 40, (life.kinds, life.weights, life.fns)))
            last = m
    if best[0] < rate / 2:
        best = 0, every
    life.kinds, life.weights, life.fns = best[1]


def shrink(plan):
    for c in H.drop_chunks(plan["fns"]):
        if c:
            yield dict(plan, fns=c)
    for c in H.drop_chunks(plan["mix"]):
        if c:
            yield dict(plan, mix=c)
    if plan["filter"] != "ignore":
        yield dict(plan, filter="ignore")
