"""C01: concurrent calls do not disturb each other."""
from sim import harness as H, loader, ops as O, sched, values as V
from . import conc

ID = "C01"
INSTRUMENT = True
RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("Each run: 2-4 caller threads of 1-3 calls on one package instance (fresh or warmed up), small shared argument pools, either backend, scalar or shared-array "
        "arguments; the baton moves at planned bytecode numbers (few chosen points, or round robin every q instructions). Non-trivial: at least one preemption inside a "
        "call happened; distinct: different hash of the whole event log (switch places, outcomes).")
COMPONENTS = {"real": "all of pysolar (source of /repo's working tree), CPython threads, numpy", "stub": "choice of the running thread, threading.Lock/RLock and time.sleep if the library uses them"}
ASSUMPTIONS = ["switches happen between bytecodes of pysolar functions, not inside numpy or the standard library", "the reference is the same call made alone on a fresh instance"]


def gen_threads(rng, ctx, backend, nt=None, maxops=3):
    pools = O.Pools(rng, naive=rng.random() < 0.15, n_when=rng.choice((2, 3, 4)), special=1)
    nt = nt or rng.choice((2, 2, 2, 3, 4))
    same_fn = rng.random() < 0.5
    vec = backend == "numpy" and rng.random() < 0.25
    only = None
    if same_fn:
        names = [c[0] for c in O.CAT]
        only = rng.choices(names, [O.WEIGHT[n] for n in names], k=rng.choice((1, 2)))
    threads = [[pools.call(only=only, vec=vec) for _ in range(rng.randint(1, maxops))] for _ in range(nt)]
    return threads, pools


def generate(rng, ctx, i):
    backend = rng.choice(("math", "math", "numpy"))
    threads, pools = gen_threads(rng, ctx, backend)
    warm = [pools.call() for _ in range(rng.choice((0, 0, 1, 3)))]
    sc, _ = conc.gen_schedule(rng, threads, ctx, backend)
    return {"backend": backend, "warm": warm, "threads": threads, "sched": sc}


def execute(plan, ctx):
    res = H.Result()
    b = plan["backend"]
    sched.patch_threading()
    try:
        pkg = ctx.fresh(b)
        for c in plan["warm"]:
            H.outcome(O.bind(pkg, c))
        got, sim, _ = conc.execute(plan, ctx, pkg, res)
    finally:
        sched.unpatch_threading()
        loader.purge()
    for (t, i), g in sorted(got.items()):
        conc.expect(res, ctx, plan, b, g, plan["threads"][t][i], "thread %d call %d:" % (t, i))
    res.nontrivial = sim.switches > 0 and res.events > 0
    return res


shrink = conc.shrink_threads
