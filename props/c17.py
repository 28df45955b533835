"""C17: calls leave the process and their arguments as they found them."""
import atexit, builtins, calendar, collections, contextlib, copy, copyreg, datetime, decimal, faulthandler, fractions, functools, gc, inspect, io, itertools, json, locale, logging, math, operator, os, pickle, random, re, signal, socket, string, sys, threading, time, types, warnings, zoneinfo
import numpy as np
from sim import envs, harness as H, loader, ops as O, sched, values as V
from . import c03, conc

ID = "C17"
INSTRUMENT = True
RUNS = {"quick": 4500, "thorough": 140000}
RULE = ("Each run: the application puts its process-wide state (warning filters, numpy error settings, decimal context, random state, TZ, locale, working directory, streams, limits, handlers) into a drawn "
        "condition, imports the library, and 1-3 threads make calls and backend switches under a planned interleaving while interrupts, allocation failures, handlers that call again and failing caller "
        "objects strike at planned bytecodes; then every item of that state, and every argument, is compared with what it was. Non-trivial: a fault, a thread change or a failing call inside the library; "
        "distinct: hash of the event log.")
COMPONENTS = {"real": "all of pysolar, numpy, CPython's process-wide state", "stub": "signal delivery and allocation failure (raised by the scheduler), choice of the running thread, standard streams"}
ASSUMPTIONS = ["state is compared when all calls have ended; what a call changes and puts back while it runs alone is its own business"]
CODE = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)
OTHERS = (calendar, collections, contextlib, copy, fractions, functools, inspect, io, itertools, json, locale, logging, operator, os, pickle, re, signal, string, threading, warnings, zoneinfo, np.random, np.linalg)
SWITCH = ("pysolar.use_numpy", "pysolar.use_math")


# as found when the harness starts; what an earlier instance of the library has left behind must not hide what the next one does
FIRST = {m: dict(vars(m)) for m in (math, np, datetime, time, random, decimal) + OTHERS if m is not builtins}
CALLBACKS, HANDLERS, PATHS, HOOKS = list(gc.callbacks), list(logging.root.handlers), list(sys.meta_path), list(sys.path_hooks)


def pristine(s):
    for m, d in FIRST.items():
        for k, v in d.items():
            if isinstance(v, CODE) and vars(m).get(k) is not v:
                setattr(m, k, v)
        if m in (math, datetime, time):
            for k in [k for k in vars(m) if k not in d]:
                delattr(m, k)
    logging.root.handlers[:] = HANDLERS
    logging.root.setLevel((logging.WARNING, logging.WARNING, logging.ERROR, logging.INFO)[s % 4])
    logging.disable(0)
    logging.setLoggerClass(logging.Logger)
    logging.setLogRecordFactory(logging.LogRecord)
    logging.raiseExceptions = True
    calendar.setfirstweekday(s % 7)
    socket.setdefaulttimeout((None, 17.0)[s % 2])
    gc.callbacks[:] = CALLBACKS
    gc.set_debug(0)
    sys.path_hooks[:] = HOOKS


DIGITS = re.compile("[0-9]+")


class State:
    """the process-wide state an application shares with its libraries"""

    def __init__(self):
        c = decimal.getcontext()
        st = random.getstate(), np.random.get_state()
        self.d = {
            "warning filters": [tuple(f) for f in warnings.filters],
            "warning hooks": (warnings.showwarning, warnings.formatwarning, warnings._showwarnmsg_impl, warnings.warn),
            "numpy error settings": (np.geterr(), np.geterrcall()),
            "numpy print options": str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
            "decimal context": (c.prec, c.rounding, c.Emin, c.Emax, {k.__name__: v for k, v in c.traps.items()}),
            "random state": hash(st[0]),
            "numpy random state": (st[1][1].tobytes(), st[1][2:]),
            "locale": locale.setlocale(locale.LC_ALL, None),
            "environment variables": dict(os.environ),
            "time zone of the process": (time.tzname, time.timezone),
            "working directory": cwd(),
            "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
            "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGUSR1, signal.SIGPIPE)],
            "timers": signal.getitimer(signal.ITIMER_VIRTUAL),
            "interpreter limits": (sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits()),
            "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.breakpointhook, sys.getprofile(), sys.gettrace()),
            "argv": list(sys.argv),
            "module path": (list(sys.path), [id(x) for x in sys.meta_path]),
            "garbage collector": (gc.get_threshold(), gc.isenabled()),
            "garbage collector's callbacks": ([id(x) for x in gc.callbacks], gc.get_debug()),
            "umask": umask(),
            "logging": (logging.root.level, [id(x) for x in logging.root.handlers], [id(x) for x in logging.root.filters], logging.root.manager.disable, logging.raiseExceptions, id(logging.lastResort),
                        logging.getLoggerClass(), logging.getLogRecordFactory()),
            "default decimal context": str(decimal.DefaultContext),
            "first day of the week": calendar.firstweekday(),
            "pickling table": sorted(k.__name__ for k in copyreg.dispatch_table),
            "defaults": (socket.getdefaulttimeout(), threading.stack_size(), faulthandler.is_enabled(), getattr(sys, "tracebacklimit", None), sys.dont_write_bytecode, zoneinfo.TZPATH),
            "path hooks": [id(x) for x in sys.path_hooks],
        }
        self.threads = {t.ident: DIGITS.sub("N", t.name) for t in threading.enumerate() if t.is_alive() and not isinstance(t, threading._DummyThread)}
        self.mods = {m.__name__: {k: id(v) for k, v in vars(m).items()} for m in (math, np, datetime, time, builtins, random, decimal)}
        for m in OTHERS:
            self.mods[m.__name__] = {k: id(v) for k, v in vars(m).items() if isinstance(v, CODE)}

    def changes(self, other):
        out = [(k, v, other.d[k]) for k, v in self.d.items() if v != other.d[k]]
        new = sorted({n for i, n in other.threads.items() if i not in self.threads})
        if new:
            out.append(("threads", "", new))
        for m, d in self.mods.items():
            e = other.mods[m]
            out += [("module " + m, k, "changed or removed") for k, i in d.items() if e.get(k) != i]
            if m in ("math", "builtins", "datetime", "time"):
                out += [("module " + m, k, "added") for k in e if k not in d]
        return out


def own():
    """the part that belongs to each thread"""
    c = decimal.getcontext()
    return {"decimal context": (c.prec, c.rounding, c.Emin, c.Emax, sorted(k.__name__ for k, v in c.traps.items() if v)), "numpy error settings": (str(np.geterr()), np.geterrcall()),
            "numpy print options": str(sorted((k, str(v)) for k, v in np.get_printoptions().items()))}


def own_state(n):
    decimal.getcontext().prec = 5 + n % 41
    if n & 8:
        np.seterr(over="warn", invalid="ignore", divide="warn", under="ignore")
    else:
        np.seterr(all="ignore")


def cwd():
    try:
        return os.getcwd()
    except OSError:
        return None


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def generate(rng, ctx, i):
    b = rng.choice(("math", "numpy"))
    pools = O.Pools(rng, n_when=3, naive=rng.random() < 0.15, special=1, years=rng.choice(((1960, 2060), (2024, 2032))))
    names = [c[0] for c in O.CAT]
    only = rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2, 3))) if rng.random() < 0.6 else None
    nt = rng.choice((1, 1, 2, 2, 3))
    switching = rng.random() < 0.3
    big = rng.random() < 0.06
    if big:
        # one function, large arrays
        b, nt, switching, only = "numpy", 1, False, [rng.choice([c[0] for c in O.CAT if c[3]])]
        pools.p["size"] = rng.choice((300, 600, 1100))

    def one():
        if switching and rng.random() < 0.35:
            return {"fn": rng.choice(SWITCH), "a": []}
        c = pools.call(only=only, vec=b == "numpy" and (big or rng.random() < 0.4))
        if rng.random() < 0.08:
            c = dict(c, a=list(c["a"]))
            if c["a"]:
                c["a"][rng.randrange(len(c["a"]))] = rng.choice(("x", None, [], {"map": {}}))
        return c
    threads = [[one() for _ in range(rng.choice((1, 1, 2, 3)))] for _ in range(nt)]
    faults = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        t = rng.randrange(nt)
        j = rng.randrange(len(threads[t]))
        c = c03.plain(threads[t][j])
        r = rng.random()
        if r < 0.6:
            faults.append({"at": [t, j, conc.choose_k(rng, ctx.profile(c, b), intr=True)], "do": "raise", "exc": rng.choice(("KeyboardInterrupt", "MemoryError", "TimeoutError"))})
        elif r < 0.75:
            faults.append({"at": [t, j, conc.choose_k(rng, ctx.profile(c, b), intr=True)], "do": "call", "call": pools.call(only=only)})
        else:
            threads[t][j] = c03.poison(rng, c, pools, only) or c
    sc = {"points": [], "quantum": 0, "first": 0, "caps": {}}
    if nt > 1:
        sc, _ = conc.gen_schedule(rng, [[c03.plain(c) for c in cs] for cs in threads], ctx, b)
    else:
        sc["caps"] = {"0,%d" % j: 30 * ctx.profile(c03.plain(c), b)[0] + 60000 for j, c in enumerate(threads[0])}
    pre = [x for x in (envs.gen(rng) for _ in range(rng.choice((0, 1, 2, 4)))) if x.get("misc") != "trace"]
    return {"backend": b, "pre": pre, "state": rng.randrange(1 << 16), "threads": threads, "sched": sc, "faults": [] if big else faults, "big": big}


def execute(plan, ctx):
    res = H.Result()
    kept = warnings.showwarning, decimal.getcontext().copy(), sys.getrecursionlimit(), np.get_printoptions(), os.umask(0o22), np.geterrcall(), gc.get_threshold(), gc.isenabled(), sys.excepthook, list(sys.path)
    sigs = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGPIPE)}
    pristine(plan["state"])
    with envs.Environment(ctx) as e:
        if not plan.get("big"):
            sched.patch_threading()
        try:
            for x in plan["pre"]:
                e.apply(x)
            s = plan["state"]
            decimal.getcontext().prec = 5 + s % 40
            sys.setrecursionlimit(1500 + s % 7)
            if s & 8:
                np.seterr(over="warn", invalid="ignore", divide="print", under="warn")
            if s & 16:
                np.set_printoptions(precision=3)
            if s & 96:           # as in any application; without collections in the middle of a run
                if gc.get_threshold()[0] < 1000000:
                    gc.set_threshold(1000000 + s % 3)
                gc.enable()
            out, err = sys.stdout, sys.stderr
            quiet = not any("warn" in x for x in plan["pre"])
            before = State()
            pkg = ctx.fresh(None)
            res.checks += 1
            bad = before.changes(State())
            if bad:
                report(res, "import", "importing the library", bad)
                return res
            pkg.use(plan["backend"])

            def act(spec):
                cur, sched.S.cur = sched.S.cur, None
                try:
                    if "exc" in spec:
                        res.count("caller object raises " + spec["exc"])
                        raise O.EXC[spec["exc"]]("planned")
                    sim = sched.S.sim
                    if sim and sim.running and sim.running.locks:
                        return
                    res.count("caller object re-enters")
                    H.outcome(O.bind(pkg, c03.plain(spec["call"])))
                finally:
                    sched.S.cur = cur
            env = O.Env(pkg, tz=lambda s: O.FaultZone(s, act), obj=lambda s: O.FaultHorizon(s, act) if "at" in s else O.default_obj(s))
            mine, objs = [], {}

            def make(t, i, call):
                th = O.bind(pkg, call, env, objs)

                def go():
                    # what belongs to the calling thread
                    own_state(plan["state"] + t)
                    b = own()
                    try:
                        return th()
                    finally:
                        a = own()
                        mine.extend((k, b[k], a[k]) for k in b if a[k] != b[k])
                return go
            if plan.get("big"):
                # large arrays: the library is free to use threads of its own here, as long as it ends them
                got = {}
                th = threading.Thread(target=lambda: got.update({(0, i): H.outcome(make(0, i, c)) for i, c in enumerate(plan["threads"][0])}))
                th.start()
                th.join()
                res.ops += len(got)
                res.count("large arrays")
            else:
                got, sim, _ = conc.execute(plan, ctx, pkg, res, make=make, env=env)
            res.objs = objs
            after = State()
            said = [x.getvalue() for x in (out, err) if isinstance(x, io.StringIO) and (x is out or quiet)]
            args = [k for k, v in res.objs.items() if not unchanged(k, v, env)]
        finally:
            sched.unpatch_threading()
            loader.purge()
            warnings.showwarning = kept[0]
            decimal.setcontext(kept[1])
            sys.setrecursionlimit(kept[2])
            np.set_printoptions(**{k: v for k, v in kept[3].items() if k != "override_repr"})
            os.umask(kept[4])
            np.seterrcall(kept[5])
            gc.set_threshold(*kept[6])
            (gc.enable if kept[7] else gc.disable)()
            sys.excepthook = kept[8]
            sys.path[:] = kept[9]
            for s, h in sigs.items():
                signal.signal(s, h)
    calls = ", ".join(sorted({c["fn"] for cs in plan["threads"] for c in cs}))
    for k, g in sorted(got.items()):
        res.log(k, g)
        if g[0] == "x":
            res.count("failing call")
    res.checks += len(before.d) + len(res.objs)
    bad = before.changes(after) + [("calling thread's " + k, a, b) for k, a, b in mine]
    if bad:
        report(res, "state", calls, bad)
    elif any(said):
        res.bad("output", "%s wrote to the application's output: %r" % (calls, "".join(said)[:200]))
    elif args:
        res.bad("argument", "%s changed the caller's argument %s" % (calls, args[0][:200]))
    res.nontrivial = bool(res.fired) or len(plan["threads"]) > 1
    return res


def report(res, cls, calls, bad):
    res.bad(cls, "after %s the process is not as before: %s" % (calls, "; ".join("%s: %s -> %s" % (k, clip(a), clip(b)) for k, a, b in bad[:3])))


def clip(x):
    s = repr(x) if not isinstance(x, str) else x
    return s if len(s) < 160 else s[:80] + "..." + s[-60:]


def unchanged(k, v, env):
    import json
    spec = json.loads(k)
    if isinstance(spec, dict) and ("map" in spec or "arr" in spec or "dt64" in spec or "obj" in spec and "at" not in spec["obj"]):
        w = V.mk(spec, env)
    elif isinstance(spec, list):
        w = V.mk(spec, env)
    else:
        return True
    if isinstance(w, np.ndarray):
        return isinstance(v, np.ndarray) and v.dtype == w.dtype and v.shape == w.shape and v.tobytes() == w.tobytes() and v.flags.writeable == w.flags.writeable
    return v == w


def shrink(plan):
    for c in H.drop_chunks(plan["pre"]):
        yield dict(plan, pre=c)
    if plan["state"]:
        yield dict(plan, state=0)
    yield from conc.shrink_threads(plan)
