"""Runs of one property: seeds -> plans -> simulated runs -> verdicts; minimisation; replay; evidence."""
import contextlib, ctypes, functools, gc, hashlib, importlib, io, json, os, random, signal, subprocess, sys, time, traceback, warnings

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
PY = "/opt/venv/bin/python"
SHIM = os.path.join(ROOT, "build", "simclock.so")
RUN_STATE, ORACLE_STATE = 20130, 77
WALL0 = 1_600_000_000 * 10 ** 9      # what the machine's clock shows unless the plan says otherwise


def run_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%s:%s:%s" % (seed, prop, i)).encode()).digest()[:8], "big")


# ---------------------------------------------------------------------------------------------------- the process
class Generators:
    """The process-wide random generators: one state for simulated runs, another for the pristine interpreters they are compared with."""
    import numpy.random as np

    @classmethod
    def seed(cls, n):
        random.seed(n)
        cls.np.seed(n)

    @classmethod
    def save(cls):
        return random.getstate(), cls.np.get_state()

    @classmethod
    def restore(cls, s):
        random.setstate(s[0])
        cls.np.set_state(s[1])


class Clock:
    """CLOCK_REALTIME of this process (through the LD_PRELOAD shim)."""

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        try:
            self.lib.simclk_set.argtypes = [ctypes.c_longlong]
            self.lib.simclk_reads.restype = ctypes.c_long
            self.lib.simclk_step.argtypes = [ctypes.c_longlong]
            self.lib.simclk_seen.argtypes = [ctypes.c_long]
            self.lib.simclk_seen.restype = ctypes.c_longlong
            self.lib.simclk_mono.argtypes = [ctypes.c_longlong]
            self.lib.simclk_mono_add.argtypes = [ctypes.c_longlong]
        except AttributeError:
            raise RuntimeError("the clock shim is not loaded")
        self.set(WALL0)

    def set(self, ns):
        self.ns = ns
        self.lib.simclk_set(ns)

    def reads(self):
        return self.lib.simclk_reads()

    def step(self, ns):
        """the clock moves by ns after every reading; forgets earlier readings"""
        self.lib.simclk_step(ns)

    def seen(self):
        """the readings since step()"""
        return [self.lib.simclk_seen(i) for i in range(min(self.reads(), 4096))]

    def mono(self, ns):
        self.lib.simclk_mono(ns)

    def mono_add(self, ns):
        self.lib.simclk_mono_add(ns)

    def mono_off(self):
        self.lib.simclk_mono_off()


class Alarm:
    """Real-time watchdog for code that is not instrumented; only ever fires on a call that does not return."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        from .sched import SimHang

        def h(*a):
            raise SimHang("no answer after %s s" % self.s)
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Context:
    def __init__(self, prop, tier="quick"):
        from . import loader, ops, sched
        self.prop, self.tier = prop, tier
        self.clock = Clock()
        self.source = loader.Source()
        ops.dictionary(self.source.numbers)
        loader.install(self.source)
        self.instrumented = getattr(prop, "INSTRUMENT", False)
        if self.instrumented:
            sched.setup(self.source)
        self.memo = {}
        warnings.simplefilter("ignore")
        import numpy as np
        np.seterr(all="ignore")

    def fresh(self, backend=None):
        from . import loader
        return loader.fresh(backend)

    def oracle(self, call, backend, kinds=False, numpy_ok=True, setup=None):
        """Outcome of the call made alone in a fresh interpreter."""
        from . import loader, ops, values as V
        k = (backend, kinds, numpy_ok, V.key(call))
        r = self.memo.get(k)
        if r is None:
            saved = {n: m for n, m in sys.modules.items() if n == "pysolar" or n.startswith("pysolar.")}
            rnd = Generators.save()
            Generators.seed(ORACLE_STATE)
            had = loader.numpy_available(numpy_ok)
            try:
                pkg = loader.fresh(backend)
                r = outcome(ops.bind(pkg, call), kinds)
            finally:
                loader.numpy_available(had)
                loader.purge()
                sys.modules.update(saved)
                Generators.restore(rnd)
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[k] = r
        return r

    def profile(self, call, backend, warm=False):
        """(events, novel points, novel interruption points) of the call in a fresh interpreter."""
        from . import loader, ops, sched, values as V
        k = ("profile", backend, warm, V.key(call))
        r = self.memo.get(k)
        if r is None:
            saved = {n: m for n, m in sys.modules.items() if n == "pysolar" or n.startswith("pysolar.")}
            rnd = Generators.save()
            Generators.seed(ORACLE_STATE)
            pkg = loader.fresh(backend)
            if warm:
                outcome(ops.bind(pkg, call))
            th = ops.bind(pkg, call)
            p = sched.profile(lambda: outcome(th))
            loader.purge()
            sys.modules.update(saved)
            Generators.restore(rnd)
            r = (p.n, p.novel, p.novel_intr, p.hot)
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[k] = r
        return r


def outcome(thunk, kinds=False, extra=None):
    """Canonical outcome of a call."""
    from . import sched, values as V
    try:
        r = thunk()
        if extra is not None:
            extra(r)
        return ["ok", V.canon(r, kinds)]
    except sched.SimAbort:
        raise
    except sched.SimHang as e:
        return ["hang", str(e)]
    except BaseException as e:
        return V.canon_exc(e)


class Result:
    """What one simulated run found."""

    def __init__(self):
        self.violations = []      # (class, detail)
        self.fired = {}
        self.events = 0
        self.ops = 0
        self.sim_s = 0.0
        self.trace = hashlib.sha256()
        self.states = []          # short hashes: what makes the run distinct
        self.checks = 0
        self.nontrivial = False
        self.objs = {}            # the caller's objects, by their specification
        self.known = {}           # findings of known_findings.txt met in the run

    def bad(self, cls, detail):
        self.violations.append((cls, detail))

    def finding(self, prop, site, detail, cls="value"):
        """a defect that known_findings.txt may list by property and site; otherwise a violation"""
        if any(l.startswith("known: property=%s site=%s " % (prop, site)) for l in known_findings()):
            self.known.setdefault(site, detail)
        else:
            self.bad(cls, "%s: %s" % (site, detail))

    def count(self, what, n=1):
        self.fired[what] = self.fired.get(what, 0) + n

    def log(self, *a):
        self.trace.update(json.dumps(a, sort_keys=True, default=str).encode())

    def digest(self):
        return self.trace.hexdigest()[:16]


# ------------------------------------------------------------------------------------------------------- minimising
def minimise(plan, fails, candidates, budget_s=60, budget_n=400):
    t0, n, improved = time.monotonic(), 0, True
    while improved and n < budget_n and time.monotonic() - t0 < budget_s:
        improved = False
        for c in candidates(plan):
            n += 1
            if n > budget_n or time.monotonic() - t0 > budget_s:
                break
            try:
                if fails(c):
                    plan, improved = c, True
                    break
            except Exception:
                continue
    return plan, n


def drop_chunks(lst):
    """smaller versions of a list: halves first, then single elements"""
    n = len(lst)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k:]
        k //= 2


def set_in(plan, path, value):
    p = json.loads(json.dumps(plan))
    q = p
    for k in path[:-1]:
        q = q[k]
    q[path[-1]] = value
    return p


# ---------------------------------------------------------------------------------------------------------- workers
def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


def at_depth(n, f):
    """f(), always from the same stack depth, so that running out of stack happens at the same place in a search and in a replay"""
    fr, d = sys._getframe(), 0
    while fr:
        fr, d = fr.f_back, d + 1
    return f() if d >= n else at_depth(n, f)


def safe_execute(prop, plan, ctx):
    gc.collect()
    gc.disable()
    Generators.seed(RUN_STATE)
    try:
        return at_depth(40, lambda: prop.execute(plan, ctx))
    finally:
        gc.enable()


def first_class(res, cls=None):
    for c, d in res.violations:
        if cls is None or c == cls:
            return c, d
    return None


def worker(pid, tier, seed, w, nw, total, limit_n=None, digests=False):
    """Executes run indices w, w+nw, ... and prints one JSON line per batch."""
    out = os.fdopen(os.dup(1), "w", buffering=1)
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)           # whatever the code under test prints
    prop = load_prop(pid)
    ctx = Context(prop, tier)
    agg = dict(runs=0, ops=0, checks=0, events=0, sim_s=0.0, fired={}, nontrivial=0, cut=0)
    states, samples, dig, told = set(), [], [], set()
    sent = 0

    def flush(final=False):
        nonlocal states, samples, dig
        out.write(json.dumps(dict(t="stats", agg=agg, states=sorted(states), samples=samples, digests=dig, final=final)) + "\n")
        states, samples, dig = set(), [], []
        for k in agg:
            agg[k] = {} if k == "fired" else 0 * agg[k]
    try:
        stop = os.times()[4] + float(os.environ.get("SIM_SECONDS", "1e9"))
        for i in range(w, total, nw):
            if os.times()[4] > stop:
                agg["cut"] = 1
                break
            rs = run_seed(seed, pid, i)
            plan = prop.generate(random.Random(rs), ctx, i)
            plan = json.loads(json.dumps(plan))
            res = safe_execute(prop, plan, ctx)
            agg["runs"] += 1
            agg["ops"] += res.ops
            agg["checks"] += res.checks
            agg["events"] += res.events
            agg["sim_s"] += res.sim_s
            agg["nontrivial"] += bool(res.nontrivial)
            for k, v in res.fired.items():
                agg["fired"][k] = agg["fired"].get(k, 0) + v
            if res.nontrivial:
                states.add(res.digest())
                states.update(res.states)
            if digests:
                dig.append([i, res.digest()])
            if len(samples) < 1 and sent < 2 and res.nontrivial:
                sent += 1
                samples.append(dict(run=i, seed=rs, plan=abbreviate(plan), trace=res.digest()))
            for k, what in sorted(res.known.items()):
                if k not in told:
                    told.add(k)
                    out.write(json.dumps(dict(t="known", id=k, what=what)) + "\n")
            if res.violations:
                cls = res.violations[0][0]
                flush()
                first = [plan, list(res.violations[0]), res.digest()]
                out.write(json.dumps(dict(t="found", run=i, seed=rs, cls=cls, detail=res.violations[0][1], plan=plan, tried=0, trace=res.digest(), first=first)) + "\n")

                def fails(p):
                    return first_class(safe_execute(prop, json.loads(json.dumps(p)), ctx), cls) is not None
                small, tried = minimise(plan, fails, prop.shrink)
                small = json.loads(json.dumps(small))
                r2 = safe_execute(prop, small, ctx)
                fc = first_class(r2, cls)
                if fc is None:
                    small, fc, r2 = plan, res.violations[0], res
                out.write(json.dumps(dict(t="violation", run=i, seed=rs, cls=fc[0], detail=fc[1], plan=small, tried=tried, trace=r2.digest(), first=first)) + "\n")
                flush(True)
                return 0
            if agg["runs"] >= 25:
                flush()
        flush(True)
        return 0
    except BaseException:
        out.write(json.dumps(dict(t="error", text=traceback.format_exc()[-4000:])) + "\n")
        return 3


def abbreviate(x, n=12):
    if isinstance(x, list):
        return [abbreviate(y, n) for y in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: abbreviate(v, n) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 300:
        return x[:300] + "..."
    return x


def worker_env(hashseed="0"):
    e = dict(os.environ)
    e.update(LD_PRELOAD=SHIM, PYTHONHASHSEED=hashseed, TZ="UTC", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONPATH=ROOT, LC_ALL="C.UTF-8", PYTHONWARNINGS="ignore")
    return e


def build_shim():
    src = os.path.join(ROOT, "native", "simclock.c")
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(SHIM), exist_ok=True)
        tmp = SHIM + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True)
        os.replace(tmp, SHIM)


def replay_file(path, quiet=False):
    """In a fresh process: executes the plan; returns (class, detail) or None."""
    p = subprocess.run([PY, "-m", "sim.harness", "--replay-inner", path], cwd=ROOT, env=worker_env(), capture_output=True, text=True, timeout=600)
    for line in p.stdout.splitlines():
        if line.startswith("REPLAY "):
            return json.loads(line[7:])
    raise RuntimeError("replay failed: " + p.stdout[-500:] + p.stderr[-2000:])


@functools.cache
def known_findings():
    path = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(path):
        return []
    return [l.strip() for l in open(path) if l.strip() and not l.startswith("#")]


def main(pid, tier, seed, nw=None, total=None, digests=False, quiet=False, hashseed="0"):
    t0 = time.monotonic()
    build_shim()
    prop = load_prop(pid)
    nw = nw or int(os.environ.get("SIM_WORKERS", "8"))
    total = total or prop.RUNS[tier]
    # a slow machine explores less; a worker that does not come back at all is an error
    seconds = float(os.environ.get("SIM_SECONDS", "480" if tier == "quick" else str(6 * 3600)))
    deadline = t0 + seconds + 320
    procs = [subprocess.Popen([PY, "-m", "sim.harness", "--worker", pid, tier, str(seed), str(w), str(nw), str(total), "1" if digests else "0"],
                              cwd=ROOT, env=dict(worker_env(hashseed), SIM_SECONDS=str(seconds)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1) for w in range(nw)]
    import threading, queue
    q = queue.Queue()

    def pump(w, p):
        for line in p.stdout:
            q.put((w, line))
        q.put((w, None))
    errs = [""] * nw

    def pump_err(w, p):
        for line in p.stderr:
            errs[w] = (errs[w] + line)[-4000:]
    for w, p in enumerate(procs):
        threading.Thread(target=pump, args=(w, p), daemon=True).start()
        threading.Thread(target=pump_err, args=(w, p), daemon=True).start()
    agg = dict(runs=0, ops=0, checks=0, events=0, sim_s=0.0, fired={}, nontrivial=0, cut=0)
    states, samples, dig = set(), [], []
    viol, found, error, known = [], [], None, {}
    alive, final = set(range(nw)), set()
    grace = None
    while alive:
        now = time.monotonic()
        if now > deadline:
            error = "wall-clock limit reached before all runs were done"
            break
        if grace is not None and now > grace:
            break
        try:
            w, line = q.get(timeout=1)
        except queue.Empty:
            continue
        if line is None:
            alive.discard(w)
            rc = procs[w].wait()
            if w not in final and error is None:
                error = "worker %d ended with %s: %s" % (w, rc, errs[w][-1500:])
            if error and not viol and grace is None:
                break
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m["t"] == "stats":
            for k, v in m["agg"].items():
                if k == "fired":
                    for f, n in v.items():
                        agg["fired"][f] = agg["fired"].get(f, 0) + n
                else:
                    agg[k] += v
            states.update(m["states"])
            samples += m["samples"]
            dig += m["digests"]
            if m["final"]:
                final.add(w)
        elif m["t"] == "known":
            known[m["id"]] = min(m["what"], known.get(m["id"], m["what"]))
        elif m["t"] == "found":
            found.append(m)
            if grace is None:
                grace = time.monotonic() + 150
        elif m["t"] == "violation":
            viol.append(m)
            break
        elif m["t"] == "error":
            error = m["text"]
            final.add(w)
            if grace is None:
                break
    for p in procs:
        if p.poll() is None:
            p.kill()
    for p in procs:
        p.wait()
    wall = time.monotonic() - t0
    rc, replay = 0, None
    viol = viol or found[:1]      # not minimised in time
    if viol:
        v = min(viol, key=lambda m: m["run"])
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        replay = os.path.join(ROOT, "replays", "%s-%d-%d.json" % (pid, seed, v["run"]))

        def record(plan, detail, trace):
            with open(replay, "w") as f:
                json.dump(dict(property=pid, verif_seed=seed, run=v["run"], seed=v["seed"], violation=v["cls"], detail=detail, trace=trace,
                               replay_with="./check %s --replay %s" % (pid, os.path.relpath(replay, ROOT)), plan=plan), f, indent=1)
            try:
                a = replay_file(replay)
            except Exception as e:
                a = ["error", str(e)]
            return a, bool(a) and len(a) > 2 and a[0] == v["cls"] and a[2] == trace
        again, exact = record(v["plan"], v["detail"], v["trace"])
        if not exact:       # the state of this worker had a part in it while minimising: the plan as drawn may do
            again2, exact = record(v["first"][0], v["first"][1][1], v["first"][2])
            if exact or not again:
                again, v["detail"] = again2, v["first"][1][1]
            if not exact and not again2:
                record(v["plan"], v["detail"], v["trace"])
        if not quiet:
            print("%s: %s" % (v["cls"], v["detail"]))
            print("run %d seed %d; minimised in %d steps; replay in a fresh process %s" % (v["run"], v["seed"], v["tried"], "reproduces it exactly" if exact else "gave %r" % (again,)))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        rc = 1
    elif error:
        print("ERROR: " + error, file=sys.stderr)
        rc = 2
    else:
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]))
    if rc != 2 or viol:
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(viol),
                  coverage=dict(evaluations=agg["runs"], distinct_nontrivial=len(states), rule=prop.RULE, samples=samples[:6] or [dict(note="no sample recorded before the violation")],
                                simulated_runs=agg["runs"], runs_per_hour=int(agg["runs"] / wall * 3600) if wall else 0, seeds_per_hour=int(agg["runs"] / wall * 3600) if wall else 0,
                                operations=agg["ops"], oracle_comparisons=agg["checks"], instructions_scheduled=agg["events"],
                                simulated_time_s=round(agg["sim_s"], 3), faults_and_perturbations_fired=dict(sorted(agg["fired"].items())),
                                nontrivial_runs=agg["nontrivial"], planned_runs=total, stopped_by_time_limit=bool(agg["cut"]), components=prop.COMPONENTS, workers=nw),
                  assumptions=getattr(prop, "ASSUMPTIONS", []))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", "%s.json.tmp" % pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", "%s.json" % pid))
        if not quiet:
            print("%s: %d runs, %d operations, %d comparisons, %d distinct, %.1f s; %s" % (pid, agg["runs"], agg["ops"], agg["checks"], len(states), wall,
                  ", ".join("%s=%d" % kv for kv in sorted(agg["fired"].items()))))
    return rc, dict(agg=agg, digests=sorted(dig), replay=replay, viol=viol, error=error)


def cli(argv):
    if argv[0] == "--worker":
        pid, tier, seed, w, nw, total, d = argv[1:8]
        sys.exit(worker(pid, tier, int(seed), int(w), int(nw), int(total), digests=d == "1"))
    if argv[0] == "--replay-inner":
        r = json.load(open(argv[1]))
        prop = load_prop(r["property"])
        out = os.fdopen(os.dup(1), "w", buffering=1)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        ctx = Context(prop)
        res = safe_execute(prop, r["plan"], ctx)
        fc = first_class(res, r.get("violation")) or first_class(res)
        out.write("REPLAY " + json.dumps([fc[0], fc[1], res.digest()] if fc else None) + "\n")
        return 0
    pid = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in argv:
        path = os.path.abspath(argv[argv.index("--replay") + 1])
        build_shim()
        r = replay_file(path)
        want = json.load(open(path))
        if r is None:
            print("the plan runs without a violation")
            return 0
        print("%s: %s" % (r[0], r[1]))
        print("trace %s (%s)" % (r[2], "identical to the recorded run" if r[2] == want["trace"] else "recorded: " + want["trace"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    total = int(argv[argv.index("--runs") + 1]) if "--runs" in argv else None
    return main(pid, tier, seed, total=total)[0]


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    from sim import harness as H
    sys.exit(H.cli(sys.argv[1:]))
