"""The scheduler: real threads, one baton. Nothing but the plan decides who runs, when, and what goes wrong.

Every instruction of every pysolar function is an event of the running operation. At planned event numbers the
scheduler moves the baton, raises an exception inside the call, runs other calls on top of it (a signal handler),
or changes the environment. Threads only ever wait for the baton, so the choice of who runs is never the OS's."""
import _thread, ctypes, hashlib, sys, threading, time
from . import loader

RawLock = _thread.allocate_lock
ORIG = dict(Lock=threading.Lock, RLock=threading.RLock, _allocate_lock=threading._allocate_lock, sleep=time.sleep)
BIG = 1 << 60
NESTED_CAP = 3_000_000
TSTATE, LEAVE, ENTER = ctypes.pythonapi.PyThreadState_Get, ctypes.pythonapi.PyThreadState_LeaveTracing, ctypes.pythonapi.PyThreadState_EnterTracing
TSTATE.restype, TSTATE.argtypes = ctypes.c_void_p, []
for _f in (LEAVE, ENTER):
    _f.restype, _f.argtypes = None, [ctypes.c_void_p]


class SimHang(BaseException):
    """The call would never return."""


class SimAbort(BaseException):
    """The run is over; unwinds parked threads."""


class MemFault(MemoryError):
    pass


class _S:
    cur = None        # task whose pysolar instructions are being counted
    sim = None        # running simulation
    handlers = 0


S = _S()


def _cb(code, off):
    t = S.cur
    if t is None:
        return
    n = t.n = t.n + 1
    if n >= t.next:
        t.sim.hit(t, code, off)


def _cb_hot(code, off):
    """As _cb, for runs that also switch at accesses to shared state wherever the run happens to meet them."""
    t = S.cur
    if t is None:
        return
    n = t.n = t.n + 1
    if off in _SOURCE.hot[id(code)]:
        sim = t.sim
        k = (t.id, t.opi, id(code), off)
        c = sim.hotseen.get(k, 0)
        if c < 4:
            sim.hotseen[k] = c + 1
            sim.hotn += 1
            if sim.hotn in sim.hot:
                S.cur = None
                try:
                    sim._switch(t, sim.hot[sim.hotn], code, off)
                finally:
                    S.cur = t
                    sim.running = t
    if n >= t.next:
        t.sim.hit(t, code, off)


_prof = None


def _cb_prof(code, off):
    p = _prof
    if p is None:
        return
    n = p.n = p.n + 1
    k = (id(code), off)
    if k not in p.seen:
        p.seen.add(k)
        p.novel.append(n)
        if off in loader_allowed(code)[0]:
            p.novel_intr.append(n)
    if off in _SOURCE.hot[k[0]]:
        c = p.hotseen.get(k, 0)
        if c < 6:
            p.hotseen[k] = c + 1
            p.hot.append(n)
    if n > p.cap:
        raise SimHang("profile cap")


def loader_allowed(code):
    return _SOURCE.allowed.get(id(code), (frozenset(), frozenset()))


_SOURCE = None


def setup(source):
    global _SOURCE
    _SOURCE = source
    source.instrument()
    sys.monitoring.register_callback(loader.TOOL, loader.E.INSTRUCTION, _cb)


class Profile:
    def __init__(self, cap=20_000_000):
        self.n, self.seen, self.novel, self.novel_intr, self.cap = 0, set(), [], [], cap
        self.hot, self.hotseen = [], {}


def profile(thunk):
    """Runs thunk alone, counting its events. Returns (Profile)."""
    global _prof
    p = Profile()
    sys.monitoring.register_callback(loader.TOOL, loader.E.INSTRUCTION, _cb_prof)
    _prof = p
    try:
        thunk()
    finally:
        _prof = None
        sys.monitoring.register_callback(loader.TOOL, loader.E.INSTRUCTION, _cb)
    return p


class SimLock:
    """Stands in for threading.Lock / RLock objects the library may create."""
    reentrant = False

    def __init__(self):
        self.owner, self.count, self.waiters = None, 0, []

    def acquire(self, blocking=True, timeout=-1):
        t = S.owner_task() if S.sim is not None else None
        who = t if t is not None else "main"
        if self.reentrant and self.owner is who:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if t is None:
                raise SimHang("lock is held and nobody will release it")
            if timeout is not None and timeout >= 0:
                if not t.sim.yield_from(t, None):
                    return False
                timeout = timeout - 1 if timeout > 1 else 0
                if timeout == 0 and self.owner is not None:
                    return False
                continue
            t.sim.block(t, self)
        self.owner, self.count = who, 1
        if t is not None:
            t.locks += 1
            t.shield = t.n + 4
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count:
            return
        o, self.owner = self.owner, None
        if o != "main":
            o.locks -= 1
            o.shield = o.n + 4
        for w in self.waiters:
            w.blocked = None
        self.waiters = []

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        t = S.owner_task() if S.sim is not None else None
        return self.owner is (t if t is not None else "main")

    def _release_save(self):
        c = self.count
        self.count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


class SimRLock(SimLock):
    reentrant = True


def _owner_task():
    return S.sim.running if S.sim is not None else None


S.owner_task = _owner_task


def patch_threading():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    time.sleep = _sleep


def unpatch_threading():
    threading.Lock = ORIG["Lock"]
    threading.RLock = ORIG["RLock"]
    threading._allocate_lock = ORIG["_allocate_lock"]
    time.sleep = ORIG["sleep"]


def _sleep(seconds):
    sim = S.sim
    if sim is not None and sim.running is not None:
        sim.slept += 1
        sim.yield_from(sim.running, None)


class Task:
    __slots__ = ("id", "sim", "ops", "lock", "n", "next", "opi", "acts", "ai", "done", "blocked", "locks", "shield", "qleft", "cap", "state", "born")

    def __init__(self, tid, sim, ops):
        self.id, self.sim, self.ops = tid, sim, ops
        self.lock = RawLock()
        self.lock.acquire()
        self.n, self.next, self.opi = 0, BIG, -1
        self.acts, self.ai = [], 0
        self.done, self.blocked, self.locks, self.shield = False, None, 0, -1
        self.cap = BIG
        self.state = None
        self.born = False


class Sim:
    """One run: tasks = list of lists of callables f(task) -> canonical outcome.

    actions: {(task, op): [(k, dict), ...]}, dict["do"] in switch / raise / call / run.
    quantum: events between forced round-robin switches (0: none).
    hot: [n, to] pairs: switch at the n-th access to shared state met in the whole run.
    """

    def __init__(self, tasks, actions=None, quantum=0, max_switch=4000, caps=None, on_switch=None, first=0, hot=None):
        self.hot, self.hotn, self.hotseen = dict(hot or ()), 0, {}
        self.tasks = [Task(i, self, ops) for i, ops in enumerate(tasks)]
        self.actions = actions or {}
        self.quantum = quantum
        self.max_switch = max_switch
        self.caps = caps or {}
        self.running = None
        self.main = RawLock()
        self.main.acquire()
        self.log = []              # (task, op, outcome)
        self.trace = hashlib.sha256()
        self.switches = 0
        self.fired = {}
        self.events = 0
        self.slept = 0
        self.abort = None
        self.on_switch = on_switch
        self.first = first
        self.seq = 0
        self.codeids = {}

    # ---- called in task threads
    def hit(self, t, code, off):
        S.cur = None
        try:
            self._hit(t, code, off)
        finally:
            S.cur = t
            self.running = t

    def _name(self, code):
        return "%s:%s" % (code.co_qualname, code.co_firstlineno)

    def _hit(self, t, code, off):
        if t.n > t.cap:
            # maybe it only waits for somebody else: let the others finish first, once per cap
            if any(not o.done and o.blocked is None for o in self.tasks if o is not t) and t.cap < 50 * self.basecap(t):
                t.cap += self.basecap(t)
                self._replan(t)
                self._switch(t, None, code, off)
                return
            t.cap = BIG
            t.next = BIG
            raise SimHang("no progress within %d steps" % t.n)
        exc = None
        while t.ai < len(t.acts) and t.acts[t.ai][0] <= t.n:
            k, a = t.acts[t.ai]
            do = a["do"]
            if do == "switch":
                t.ai += 1
                self._switch(t, a.get("to"), code, off)
                continue
            if do == "raise":
                intr, alloc = loader_allowed(code)
                ok = (off in intr or (a["exc"] == "MemoryError" and off in alloc and not t.locks)) and t.n > t.shield
                if not ok:
                    t.next = t.n + 1
                    return
                t.ai += 1
                self.count("raise:" + a["exc"])
                self.note("raise", t.id, t.opi, t.n, self._name(code), off, a["exc"])
                exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemFault, "TimeoutError": TimeoutError, "SystemExit": SystemExit}[a["exc"]]
                break
            if do in ("call", "run"):
                intr, alloc = loader_allowed(code)
                if do == "call" and not (off in intr and not t.locks and t.n > t.shield):
                    t.next = t.n + 1
                    return
                t.ai += 1
                self.count(a.get("name", do))
                self.note(do, t.id, t.opi, t.n, self._name(code), off)
                a["fn"](t)
                continue
            raise RuntimeError(do)
        if exc is None and self.quantum and t.n >= t.qleft:
            t.qleft = t.n + self.quantum
            self._switch(t, None, code, off)
        self._replan(t)
        if exc is not None:
            raise exc()

    def nest(self, t, acts, thunk):
        """Runs thunk on top of the paused operation of t; its events are counted from 1 and acts apply to them."""
        saved = [(a, getattr(t, a)) for a in ("n", "next", "acts", "ai", "cap", "qleft", "shield")]
        t.n, t.acts, t.ai, t.cap, t.qleft, t.shield = 0, sorted(acts, key=lambda a: a[0]), 0, NESTED_CAP, BIG, -1
        self._replan(t)
        cur, S.cur = S.cur, t
        # CPython keeps instruction events off while their callback runs; the nested call needs them
        ts = TSTATE()
        LEAVE(ts)
        try:
            return thunk()
        finally:
            ENTER(ts)
            S.cur = cur
            self.events += t.n
            for a, v in saved:
                setattr(t, a, v)

    def basecap(self, t):
        return self.caps.get((t.id, t.opi), 400_000)

    def _replan(self, t):
        nx = t.cap + 1
        if t.ai < len(t.acts):
            nx = min(nx, t.acts[t.ai][0])
        if self.quantum and self.switches < self.max_switch:
            nx = min(nx, t.qleft)
        t.next = nx

    def count(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    def note(self, *a):
        self.seq += 1
        self.trace.update(repr(a).encode())

    def _runnable(self, t):
        return not t.done and t.blocked is None

    def _pick(self, t, to):
        n = len(self.tasks)
        if to is not None and 0 <= to < n and self._runnable(self.tasks[to]) and self.tasks[to] is not t:
            return self.tasks[to]
        for d in range(1, n):
            o = self.tasks[(t.id + d) % n]
            if self._runnable(o):
                return o
        return None

    def _switch(self, t, to, code=None, off=0):
        if self.abort is not None:
            raise SimAbort()
        o = self._pick(t, to)
        if o is None:
            return False
        self.switches += 1
        self.count("preempt")
        if code is not None:
            self.note("switch", t.id, t.opi, t.n, self._name(code), off, o.id)
        else:
            self.note("switch", t.id, t.opi, t.n, o.id)
        if self.on_switch is not None:
            self.on_switch(t, o)
        self._give(o)
        t.lock.acquire()
        self.running = t
        if self.abort is not None:
            raise SimAbort()
        return True

    def _give(self, o):
        self.running = o
        if not o.born:
            o.born = True
            _thread.start_new_thread(self._thread, (o,))
        else:
            o.lock.release()

    def yield_from(self, t, to):
        """Voluntary switch from library-called code (locks, sleep, a simulated tz object)."""
        c, S.cur = S.cur, None
        try:
            return self._switch(t, to)
        finally:
            S.cur = c
            self.running = t

    def block(self, t, lock):
        c, S.cur = S.cur, None
        try:
            t.blocked = lock
            lock.waiters.append(t)
            o = self._pick(t, None)
            if o is None:
                t.blocked = None
                raise SimHang("deadlock")
            self.note("block", t.id, t.opi, t.n)
            self.count("block")
            self._give(o)
            t.lock.acquire()
            self.running = t
            if self.abort is not None:
                raise SimAbort()
        finally:
            S.cur = c
            self.running = t

    def _thread(self, t):
        try:
            for i, op in enumerate(t.ops):
                if self.abort is not None:
                    break
                t.opi, t.n = i, 0
                t.acts, t.ai = sorted(self.actions.get((t.id, i), ()), key=lambda a: a[0]), 0
                t.cap = self.basecap(t)
                t.shield = -1
                t.qleft = self.quantum if self.quantum else BIG
                while t.ai < len(t.acts) and t.acts[t.ai][0] <= 0:
                    a = t.acts[t.ai][1]
                    t.ai += 1
                    if a["do"] == "switch":
                        self._switch(t, a.get("to"))
                    elif a["do"] == "run":
                        self.count(a.get("name", "run"))
                        a["fn"](t)
                self._replan(t)
                self.seq += 1
                start = self.seq
                out = op(t)
                self.events += t.n
                self.seq += 1
                self.log.append((t.id, i, out, start, self.seq))
                self.trace.update(repr((t.id, i, out, t.n)).encode())
        except SimAbort:
            pass
        except BaseException as e:      # a bug of the harness
            self.abort = e
        S.cur = None
        t.done = True
        o = None
        if self.abort is None:
            o = self._pick(t, None)
            if o is None and any(not x.done for x in self.tasks):
                # only blocked tasks are left: wake one with a deadlock
                o = next(x for x in self.tasks if not x.done)
                o.blocked = None      # it finds its lock still held and reports the deadlock
                self._give(o)
                return
        else:
            o = next((x for x in self.tasks if not x.done and x.born), None)
            if o is not None:
                o.blocked = None
        if o is not None:
            self._give(o)
        else:
            self.running = None
            self.main.release()

    def run(self):
        assert S.sim is None
        S.sim = self
        if self.hot:
            sys.monitoring.register_callback(loader.TOOL, loader.E.INSTRUCTION, _cb_hot)
        try:
            self._give(self.tasks[self.first])
            self.main.acquire()
        finally:
            if self.hot:
                sys.monitoring.register_callback(loader.TOOL, loader.E.INSTRUCTION, _cb)
            S.sim = None
            S.cur = None
            self.running = None
        if self.abort is not None:
            raise self.abort
        return self.log


class count_events:
    """with count_events(task): pysolar instructions belong to the task."""

    def __init__(self, t):
        self.t = t

    def __enter__(self):
        S.cur = self.t

    def __exit__(self, *a):
        S.cur = None
