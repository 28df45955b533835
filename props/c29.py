"""C29: work handed to other processes comes back unharmed."""
import json, os, pickle, signal, sys
from sim import harness as H, loader, ops as O, sched, values as V
from . import conc
from .c05 import SWITCHES, sw

ID = "C29"
INSTRUMENT = True
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("Each run: a coordinator thread forks worker processes (real fork) at planned moments while 0-2 other threads of the parent are parked at planned bytecodes inside calculations or backend switches; "
        "tasks reach the workers as pickled function references with arguments, some twice, in any order; some workers die at a planned bytecode of a task and what they did not answer is "
        "given to the next worker; answers come back pickled. Every answer is compared with the same call alone in a fresh interpreter. "
        "Non-trivial: a worker was forked; distinct: hash of the event log.")
COMPONENTS = {"real": "all of pysolar, os.fork and its hooks, pickle, numpy, CPython threads", "stub": "choice of the running thread and the place where it is parked, moment and place of a worker's death, pipes with whole messages"}
ASSUMPTIONS = ["arguments are built by the worker from the task description", "a worker that does not answer within 20 s hangs"]


def generate(rng, ctx, i):
    backend = rng.choice(("math", "math", "numpy"))
    names = [c[0] for c in O.CAT]
    only = rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2))) if rng.random() < 0.4 else None
    pools = O.Pools(rng, naive=rng.random() < 0.5, n_when=3)
    switching = rng.random() < 0.25
    threads = [[]]
    for _ in range(rng.choice((0, 1, 1, 1, 2))):
        threads.append([sw(rng.choice(SWITCHES)) if switching and rng.random() < 0.6 else pools.call(only=only, vec=backend == "numpy" and rng.random() < 0.2)
                        for _ in range(rng.choice((1, 2, 3)))])
    todo = [pools.call(only=only, vec=backend == "numpy" and rng.random() < 0.2) for _ in range(rng.choice((1, 2, 3, 5)))]
    for _ in range(rng.choice((1, 1, 2, 3))):
        if rng.random() < 0.3:
            threads[0].append(pools.call(only=only))
        tasks = [rng.choice(todo) for _ in range(rng.choice((1, 2, 4)))]
        if rng.random() < 0.3:
            tasks.append(dict(rng.choice(todo)))
        op = {"fn": "fork", "a": [], "tasks": tasks}
        if switching:
            op["use"] = rng.choice(("math", "numpy"))
        if rng.random() < 0.25:
            j = rng.randrange(len(tasks))
            op["die"] = [j, conc.choose_k(rng, ctx.profile(tasks[j], backend))]
        threads[0].append(op)
    if rng.random() < 0.5:
        threads[0].append(pools.call(only=only))
    sc, prof = conc.gen_schedule(rng, threads, ctx, backend)
    if len(threads) > 1:
        t = rng.randrange(1, len(threads))
        j = rng.randrange(len(threads[t]))
        sc["points"].append([t, j, conc.choose_k(rng, prof[t, j]), 0])
        if rng.random() < 0.6:
            sc["first"] = t
    return {"backend": backend, "warm": [pools.call() for _ in range(rng.choice((0, 0, 0, 2)))], "threads": threads, "sched": sc, "switching": switching}


def thunk(pkg, call, msg):
    """the task as the worker performs it: the function arrives pickled"""
    if "." not in call["fn"] or call["fn"].split(".")[0] in ("stream", "tables", "numeric"):
        return O.bind(pkg, call)
    f = pickle.loads(msg)
    env = O.Env(pkg)
    a = [V.mk(s, env) for s in call["a"]]
    k = {n: V.mk(s, env) for n, s in call.get("k", {}).items()}
    return lambda: f(*a, **k)


def state_of(e):
    return sorted((n, V.canon(v) if not isinstance(v, V.D.tzinfo) else repr(v)) for n, v in vars(e).items())


def worker(pkg, op, msgs, w):
    """the child process: never returns"""
    code = 3
    try:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGALRM])
        signal.setitimer(signal.ITIMER_REAL, 20)
        sched.S.sim = sched.S.cur = None
        if op.get("use"):
            pkg.use(op["use"])
        for j, c in enumerate(op["tasks"]):
            th = thunk(pkg, c, msgs[j])
            n = [0]
            if op.get("die") and op["die"][0] == j:
                def count(code, off):
                    n[0] += 1
                    if n[0] >= op["die"][1]:
                        os._exit(9)
                sys.monitoring.register_callback(loader.TOOL, loader.E.INSTRUCTION, count)
            extra = None
            try:
                r = ("ok", th())
                local = ["ok", V.canon(r[1])]
            except sched.SimHang as e:
                r, local = ("hang", str(e)), None
            except Exception as e:
                r, local = ("err", e), V.canon_exc(e)
                extra = state_of(e)
            try:
                data = pickle.dumps((j, r, local, extra))
            except Exception as e:
                data = pickle.dumps((j, ("unpicklable", repr(e)), local, None))
            data = len(data).to_bytes(4, "big") + data
            while data:
                data = data[os.write(w, data):]
        code = 0
    except BaseException as e:
        try:
            os.write(w, b"\xff\xff\xff\xff" + repr(e).encode()[:3000])
        except OSError:
            pass
    finally:
        os._exit(code)


def collect(r, pid):
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    out, err = [], None
    while data:
        n = int.from_bytes(data[:4], "big")
        if n == 0xffffffff:
            return out, data[4:].decode(errors="replace"), status
        if len(data) < 4 + n:
            break
        out.append(data[4:4 + n])
        data = data[4 + n:]
    return out, err, status


def forker(pkg, op, res):
    def th():
        task, sched.S.cur = sched.S.cur, None
        left = list(range(len(op["tasks"])))
        answers = {}
        die = op.get("die")
        try:
            while left:
                sub = dict(op, tasks=[op["tasks"][j] for j in left], die=die)
                msgs = [pickle.dumps(pkg.get(c["fn"])) if c["fn"].split(".")[0] not in ("stream", "tables", "numeric") else b"" for c in sub["tasks"]]
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    worker(pkg, sub, msgs, w)
                os.close(w)
                res.count("worker forked")
                got, err, status = collect(r, pid)
                for g in got:
                    try:
                        j, kind, local, extra = pickle.loads(g)
                    except Exception as e:
                        j = len(answers) and max(answers) + 1 or 0
                        j, (kind, local, extra) = left.index(j) if j in left else 0, (("lost", "%s: %s" % (type(e).__name__, e)), None, None)
                    answers[left[j]] = back(kind, local, extra)
                if err is not None:
                    answers[left[0]] = ["worker", err]
                    break
                left = [j for j in left if j not in answers]
                if status == 9 << 8 and die:
                    res.count("worker died in mid-call")
                    die = None
                elif status or left:
                    for j in left[:1]:
                        answers[j] = ["hang", "the worker was still busy after 20 s" if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM else "the worker ended with status %d" % status]
                    break
        finally:
            sched.S.cur = task
        return json.dumps(sorted(answers.items()))
    return th


def back(kind, local, extra):
    if kind[0] == "hang":
        return ["hang", kind[1]]
    if kind[0] in ("unpicklable", "lost"):
        return [kind[0], kind[1]]
    got = ["ok", V.canon(kind[1])] if kind[0] == "ok" else V.canon_exc(kind[1])
    if got != local:
        return ["changed", V.short(local) + " became " + V.short(got)]
    if kind[0] == "err" and state_of(kind[1]) != extra:
        return ["changed", "attributes %r became %r" % (extra, state_of(kind[1]))]
    return got


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    sched.patch_threading()
    try:
        pkg = ctx.fresh(b)
        pkg.activate()
        for c in plan["warm"]:
            H.outcome(O.bind(pkg, c))

        def make(t, i, call):
            return forker(pkg, call, res) if call["fn"] == "fork" else O.bind(pkg, call)
        got, sim, _ = conc.execute(plan, ctx, pkg, res, make=make)
    finally:
        sched.unpatch_threading()
        loader.purge()
    for (t, i), g in sorted(got.items()):
        c = plan["threads"][t][i]
        if c["fn"] == "fork":
            if g[0] != "ok":
                res.bad("fork", "handing out work failed: %s" % V.short(g))
                continue
            answers = dict((j, a) for j, a in json.loads(g[1]))
            for j, task in enumerate(c["tasks"]):
                a = answers.get(j)
                if a is None:
                    continue
                res.checks += 1
                where = "task %d of a worker forked %s: %s%s" % (j, "while other threads were inside calls" if len(plan["threads"]) > 1 else "by a single-threaded parent", task["fn"], V.key([task["a"], task.get("k", {})]))
                if a[0] in ("worker", "hang", "unpicklable", "lost", "changed"):
                    res.bad(a[0], "%s: %s" % (where, {"worker": "the worker failed: ", "hang": "", "unpicklable": "its outcome cannot be sent back: ", "lost": "its outcome cannot be received: ",
                                                      "changed": "on the way back "}[a[0]] + a[1]))
                    break
                want = ctx.oracle(task, c.get("use") or b)
                if not V.same(a, want):
                    res.bad("value", "%s gave %s, alone in a fresh interpreter it gives %s" % (where, V.short(a), V.short(want)))
                    break
        elif not plan["switching"]:
            conc.expect(res, ctx, plan, b, g, c, "thread %d call %d of the parent:" % (t, i))
        elif g[0] == "hang":
            res.bad("hang", "%s hangs in the parent" % c["fn"])
    res.nontrivial = res.fired.get("worker forked", 0) > 0
    return res


def shrink(plan):
    yield from conc.shrink_threads(plan)
    for i, op in enumerate(plan["threads"][0]):
        if op["fn"] == "fork":
            def put(o):
                return dict(plan, threads=[plan["threads"][0][:i] + [o] + plan["threads"][0][i + 1:]] + plan["threads"][1:])
            if op.get("die"):
                yield put({k: v for k, v in op.items() if k != "die"})
            for c in H.drop_chunks(op["tasks"]):
                if c:
                    yield put(dict({k: v for k, v in op.items() if k != "die"}, tasks=c))
