"""C28: importing can be interrupted, retried and repeated."""
import importlib, sys
from sim import harness as H, loader, ops as O, sched, values as V

ID = "C28"
INSTRUMENT = True
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("Each run: one process imports the library's modules in a drawn order; some of these imports are cut short at a planned bytecode of module-level code (or of a function it calls) by an interrupt or allocation "
        "failure, or meet a numpy that is missing or breaks while it is imported, and are retried until they succeed; then calculations; then modules are reloaded, in any order, also interrupted and repeated, and "
        "calculations follow through functions obtained before and after. Every outcome, types included, is compared with a fresh interpreter. Non-trivial: at least one import or reload failed or was "
        "repeated; distinct: hash of the event log.")
COMPONENTS = {"real": "all of pysolar, CPython import machinery, numpy", "stub": "delivery of interrupts and allocation failures, presence of numpy in the import system"}
ASSUMPTIONS = ["after numeric has been reloaded the application selects a backend explicitly", "a module whose reload was interrupted is reloaded again before it is used"]
NAMES = ["pysolar"] + ["pysolar." + n for n in loader.SUBMODULES]
CORE = ["pysolar." + n for n in ("constants", "numeric", "solartime", "solar", "util", "radiation")]


def fault(rng, name):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.8:
        return {"k": int(10 ** rng.uniform(0, 4 if name == "pysolar" else 3.2)), "exc": rng.choice(("KeyboardInterrupt", "MemoryError"))}
    return {"numpy": rng.choice(("missing", "missing", "OSError", "RuntimeError", "KeyboardInterrupt", "AttributeError", "ModuleNotFoundError"))}


def generate(rng, ctx, i):
    names = [c[0] for c in O.CAT]
    only = rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2))) if rng.random() < 0.3 else None
    pools = O.Pools(rng, naive=rng.random() < 0.2, n_when=3)
    phases = []
    for p in range(rng.choice((1, 2, 2, 3))):
        steps = []
        if p == 0:
            for _ in range(rng.choice((0, 1, 2, 3, 5))):
                n = rng.choice(["pysolar"] * 4 + NAMES)
                steps.append(["import", n, fault(rng, n)])
        else:
            for _ in range(rng.choice((1, 1, 2, 4))):
                n = rng.choice(NAMES + CORE)
                f = fault(rng, n)
                steps.append(["reload", n, f if rng.random() < 0.6 else None])
            if rng.random() < 0.2:
                steps += [["reload", n, None] for n in rng.sample(NAMES, len(NAMES))]
        calls = [dict(pools.call(only=only, vec=rng.random() < 0.15), held=rng.random() < 0.4) for _ in range(rng.choice((2, 3, 5)))]
        phases.append({"steps": steps, "use": rng.choice((None, "math", "numpy")), "calls": calls})
    return {"phases": phases}


_ready = [None]


def instrument(source):
    """module-level code too"""
    if _ready[0] is source:
        return
    for path, code, _ in source.mods.values():
        sys.monitoring.set_local_events(loader.TOOL, code, loader.E.INSTRUCTION)
        source.allowed[id(code)] = loader.fault_points(code)
        source.hot[id(code)] = frozenset()
    _ready[0] = source


class Interrupt:
    """raises the planned exception at (or soon after) the planned event"""

    def __init__(self, source, f, res, what):
        self.source, self.f, self.res, self.what, self.n, self.on = source, f, res, what, 0, True

    def __call__(self, code, off):
        if not self.on:
            return
        self.n += 1
        if self.n >= self.f["k"]:
            intr, alloc = self.source.allowed.get(id(code), ((), ()))
            if off in intr or self.f["exc"] == "MemoryError" and off in alloc:
                self.on = False
                self.res.count("%s cut short by %s" % (self.what, self.f["exc"]))
                self.res.log("raise", self.n, code.co_qualname, off)
                raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": sched.MemFault}[self.f["exc"]]()


def step(do, name, f, ctx, res):
    """-> the exception it ended with, or None"""
    mon = sys.monitoring
    f = f or {}
    hit = None
    if "k" in f:
        hit = Interrupt(ctx.source, f, res, do)
        mon.register_callback(loader.TOOL, loader.E.INSTRUCTION, hit)
    if "numpy" in f:
        loader.numpy_available(False, None if f["numpy"] == "missing" else f["numpy"])
        res.count("numpy missing" if f["numpy"] == "missing" else "numpy breaks while imported")
    try:
        if do == "import":
            importlib.import_module(name)
        else:
            importlib.reload(sys.modules[name])
        return None
    except BaseException as e:
        return e
    finally:
        loader.numpy_available(True)
        if hit is not None:
            mon.register_callback(loader.TOOL, loader.E.INSTRUCTION, sched._cb)


def execute(plan, ctx):
    res = H.Result()
    instrument(ctx.source)
    held = {}
    known = None            # the backend in force, None: any one of the two
    loader.purge()
    failed = 0
    try:
        with H.Alarm(60):
            for p, ph in enumerate(plan["phases"]):
                history = []
                again = []
                for do, name, f in ph["steps"]:
                    if do == "reload" and name not in sys.modules:
                        continue
                    res.ops += 1
                    e = step(do, name, f, ctx, res)
                    history.append("%s %s%s" % (do, name, "" if e is None else " (%s)" % type(e).__name__))
                    res.log(do, name, type(e).__name__)
                    failed += e is not None or do == "reload"
                    if do == "reload" and name == "pysolar.numeric":
                        known = None
                    if e is not None:
                        if not f:
                            res.bad("import", "%s raised %s: %s" % (", ".join(history), type(e).__name__, e))
                            return res
                        if do == "reload":
                            again.append(name)
                for name in again:
                    e = step("reload", name, None, ctx, res)
                    history.append("reload " + name)
                    if e is not None:
                        res.bad("import", "%s raised %s: %s" % (", ".join(history), type(e).__name__, e))
                        return res
                for name in NAMES:
                    if name in ctx.source.mods:
                        e = step("import", name, None, ctx, res)
                        if e is not None:
                            res.bad("import", "%s, import %s raised %s: %s" % (", ".join(history), name, type(e).__name__, e))
                            return res
                pkg = loader.Package({n: m for n, m in sys.modules.items() if n == "pysolar" or n.startswith("pysolar.")})
                if ph["use"]:
                    pkg.use(ph["use"])
                    known = ph["use"]
                elif p and known is None and any(n == "pysolar.numeric" for do, n, f in ph["steps"] if do == "reload"):
                    pkg.use("math")
                    known = "math"
                for c in ph["calls"]:
                    th = O.bind(pkg, c)
                    if c.get("held") and c["fn"] in held:
                        th = O.bind(Held(pkg, held), c)
                    elif "." in c["fn"] and c["fn"].split(".")[0] not in ("stream", "tables"):
                        held.setdefault(c["fn"], pkg.get(c["fn"]))
                    g = H.outcome(th, kinds=True)
                    res.log(g)
                    res.ops += 1
                    res.checks += 1
                    plain = {k: v for k, v in c.items() if k != "held"}
                    fit = [b for b in ([known] if known else ["numpy", "math"]) if V.same(g, ctx.oracle(plain, b, kinds=True))]
                    if not fit:
                        res.bad("hang" if g[0] == "hang" else "value", "after %s, %s%s gave %s; in a fresh interpreter (%s backend) it gives %s" % (
                            ", ".join(history) or "a plain import", c["fn"], V.key([c["a"], c.get("k", {})]), V.short(g), known or "either", V.short(ctx.oracle(plain, known or "numpy", kinds=True))))
                        return res
                    if len(fit) == 1:
                        known = fit[0]
    finally:
        loader.numpy_available(True)
        loader.purge()
    res.nontrivial = failed > 0
    return res


class Held:
    """the library seen through functions obtained earlier"""

    def __init__(self, pkg, held):
        self.pkg, self.held, self.constants = pkg, held, pkg.constants

    def __getattr__(self, n):
        return getattr(self.pkg, n)

    def get(self, dotted):
        return self.held.get(dotted) or self.pkg.get(dotted)


def shrink(plan):
    ps = plan["phases"]
    for c in H.drop_chunks(ps):
        if c:
            yield dict(plan, phases=c)

    def put(i, **k):
        return dict(plan, phases=ps[:i] + [dict(ps[i], **k)] + ps[i + 1:])
    for i, p in enumerate(ps):
        for c in H.drop_chunks(p["steps"]):
            yield put(i, steps=c)
        for c in H.drop_chunks(p["calls"]):
            yield put(i, calls=c)
        for j, s in enumerate(p["steps"]):
            if s[2]:
                yield put(i, steps=p["steps"][:j] + [[s[0], s[1], None]] + p["steps"][j + 1:])
        if p["use"]:
            yield put(i, use=None)
