"""C15: the built-in day report follows one reading of the clock."""
import datetime as D, io, math, os, sys, time
from sim import harness as H, loader, ops as O, sunref as S, values as V
from props import fleet as F

ID = "C15"
INSTRUMENT = False
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("Each run: solar_test() is called 1-3 times in one interpreter life under a simulated wall clock that moves on (or jumps, also backwards) after every reading and at planned writes, with machine time "
        "zones, backends and other calls in between; output goes to a stream that fails, or raises an interrupt, at a planned character. The text is compared with the report computed from direct calls "
        "on a pristine instance for each clock value that was read. Non-trivial: the clock moved or the stream failed; distinct: hash of clock script, fault and output.")
COMPONENTS = {"real": "solar.solar_test and everything below it, CPython print and datetime.now", "stub": "wall clock (LD_PRELOAD shim), standard output, machine time zone"}
ASSUMPTIONS = ["numbers in the report are compared to 1e-9 relative, time stamps exactly"]
LO, HI = V._sec(1960, 1, 1) * 10 ** 6, V._sec(2060, 1, 1) * 10 ** 6
TZS = ("UTC", "America/New_York", "Pacific/Apia", "XXX-14", "YYY+11:30")


class Out(io.TextIOBase):
    def __init__(self, fail, jumps, ctx, res):
        self.buf, self.fail, self.jumps, self.ctx, self.res, self.n = "", fail, dict((k, v) for k, v in jumps), ctx, res, 0
        self.failed = None

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.n in self.jumps:
            self.ctx.clock.set(self.jumps[self.n] * 1000)
            self.res.count("clock jumps during the report")
        if self.fail is not None:
            room = self.fail[0] - len(self.buf)
            if room < len(s):
                self.buf += s[:max(0, room)]
                self.failed = self.fail[1]
                self.res.count("output: " + self.fail[1])
                if self.fail[1] == "interrupt":
                    self.fail = None
                    raise KeyboardInterrupt("planned")
                if self.fail[1] == "once":
                    self.fail = None
                raise OSError(28, os.strerror(28))
        self.buf += s
        return len(s)


def on_the_horizon(us):
    """a moment on the day of us when the sun of the report, refraction included, is on the horizon"""
    def up(u):
        jd, tt = F.times(u)
        h = math.degrees(math.asin(S.sun(jd, 42.364908, -71.112828, 0, jde=tt)[2]))
        return h + (S.refraction(h, 101325.0, 288.15) if h > -0.83337 else 0) > 0
    a = us
    for k in range(1, 49):
        b = us + k * 1800 * 10 ** 6
        if up(b) != up(a):
            break
        a = b
    while b - a > 10 ** 5:
        m = (a + b) // 2
        a, b = (m, b) if up(m) == up(a) else (a, m)
    return a


def generate(rng, ctx, i):
    pools = O.Pools(rng, years=(1960, 2059), n_when=1)
    calls = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        us = pools.instant() if rng.random() < 0.6 else V._sec(rng.randint(1965, 2058), rng.randint(1, 12), rng.choice((1, 28))) * 10 ** 6 + rng.choice((-1, 0, 1, 84600, 86399, 43200)) * 10 ** 6
        if rng.random() < 0.3:        # one of the half-hours is at the edge between day and night
            us = on_the_horizon(us) - rng.randrange(48) * 1800 * 10 ** 6 + rng.choice((0, 0, -10 ** 6, 10 ** 6, rng.randint(-20, 20) * 10 ** 6))
        us = min(max(us, LO), HI - 400 * 86400 * 10 ** 6)
        c = {"at": us, "step": rng.choice((0, 0, 1000, 10 ** 9, 600 * 10 ** 9, -3600 * 10 ** 9, 1800 * 10 ** 9, 86400 * 10 ** 9)), "jumps": []}
        if rng.random() < 0.5:
            c["jumps"] = sorted([rng.randint(1, 250), min(max(us + rng.choice((-1, 1)) * rng.choice((10 ** 6, 1800 * 10 ** 6, 86400 * 10 ** 6, 180 * 86400 * 10 ** 6)), LO), HI)] for _ in range(rng.choice((1, 2, 5))))
        if rng.random() < 0.35:
            c["fail"] = [rng.choice((0, 1, 30, rng.randint(0, 2500))), rng.choice(("full", "once", "interrupt"))]
        if rng.random() < 0.3:
            c["tz"] = rng.choice(TZS)
        if rng.random() < 0.2:
            c["switch"] = rng.choice(("math", "numpy"))
        if rng.random() < 0.3:
            c["before"] = [pools.call(only=["solar.get_altitude", "solar.get_azimuth", "solar.get_position", "util.get_sunrise_time", "stime.get_leap_seconds"])]
        calls.append(c)
    return {"backend": rng.choice(("math", "numpy")), "calls": calls}


def report(pkg, us):
    """[(time stamp, altitude, azimuth, power)] by direct calls"""
    out = []
    for k in range(48):
        d = D.datetime(1970, 1, 1, tzinfo=V.UTC) + D.timedelta(microseconds=us + k * 1800 * 10 ** 6)
        alt = pkg.solar.get_altitude(42.364908, -71.112828, d)
        if alt > 0:
            out.append((d.ctime(), float(alt), float(pkg.solar.get_azimuth(42.364908, -71.112828, d)), float(pkg.radiation.get_radiation_direct(d, alt))))
    return out


def parse(text):
    """[(time stamp, numbers...)], last incomplete line (or '')"""
    lines = text.split("\n")
    rows = []
    for l in lines[:-1]:
        w = l.split()
        try:
            rows.append((" ".join(w[:5]), w[5], [float(x) for x in w[6:]]))
        except (IndexError, ValueError):
            return None, l
    return rows, lines[-1]


def match(rows, rest, want, complete):
    """does the output belong to the report?"""
    if rows is None or len(rows) > len(want) or complete and (len(rows) != len(want) or rest):
        return False
    for (stamp, z, nums), (s, a, b, c) in zip(rows, want):
        if " ".join(s.split()) != stamp or z != "UTC" or len(nums) != 3 or not all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(nums, (a, b, c))):
            return False
    if rest:
        if len(rows) == len(want):
            return False
        s = want[len(rows)][0] + " UTC "
        k = min(len(rest), len(s))
        if rest[:k] != s[:k]:
            return False
        for x, y in zip(rest[k:].split(), want[len(rows)][1:]):
            if not ("%r" % y).startswith(x[:8]) and not x[:8] in str(y):
                return False
    return True


def execute(plan, ctx):
    res = H.Result()
    std = sys.stdout
    tz0 = os.environ.get("TZ")
    try:
        pkg = ctx.fresh(plan["backend"])
        ref = {b: ctx.fresh(b) for b in ("math", "numpy")}
        pkg.activate()
        mode = plan["backend"]
        for n, c in enumerate(plan["calls"]):
            if c.get("switch"):
                pkg.use(c["switch"])
                mode = c["switch"]
            if c.get("tz"):
                os.environ["TZ"] = c["tz"]
                time.tzset()
                res.count("machine zone changes")
            for b in c.get("before", ()):
                H.outcome(O.bind(pkg, b))
            out = Out(c.get("fail"), c["jumps"], ctx, res)
            ctx.clock.set(c["at"] * 1000)
            ctx.clock.step(c["step"])
            if c["step"]:
                res.count("clock moves on with every reading")
            sys.stdout = out
            err = None
            try:
                with H.Alarm(60):
                    pkg.solar.solar_test()
            except BaseException as e:
                err = e
            finally:
                sys.stdout = std
                seen = sorted(set(ctx.clock.seen()))
                ctx.clock.step(0)
                ctx.clock.set(H.WALL0)
            res.ops += 1
            res.log(c, out.buf, type(err).__name__)
            where = "report %d, clock at %s UTC (moving %g s per reading%s), %s backend" % (n, V.EPOCH + D.timedelta(microseconds=c["at"]), c["step"] / 1e9, ", jumping" if c["jumps"] else "", mode)
            if out.failed:
                if err is None:
                    res.bad("swallowed", "%s: the output failed (%s) but no error surfaced" % (where, out.failed))
                    return res
                if not (isinstance(err, KeyboardInterrupt) if out.failed == "interrupt" else isinstance(err, OSError)):
                    res.bad("error", "%s: the output failed (%s) but %s: %s surfaced" % (where, out.failed, type(err).__name__, err))
                    return res
            elif err is not None:
                res.bad("error", "%s: raised %s: %s" % (where, type(err).__name__, err))
                return res
            rows, rest = parse(out.buf)
            res.checks += 1 + len(rows or ())
            ok = False
            for s in seen[:64]:
                us = s // 1000
                if match(rows, rest, report(ref[mode], us), not out.failed):
                    ok = True
                    break
            if not ok:
                res.bad("report", "%s: read %d times; the output is not the report of any reading%s: %r..." % (where, len(seen), " (or a prefix of it)" if out.failed else "", out.buf[:300]))
                return res
            res.sim_s += 86400
            res.nontrivial = res.nontrivial or bool(c["step"] or c["jumps"] or out.failed)
    finally:
        sys.stdout = std
        ctx.clock.step(0)
        ctx.clock.set(H.WALL0)
        if tz0 is not None:
            os.environ["TZ"] = tz0
            time.tzset()
        loader.purge()
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["calls"]):
        if c:
            yield dict(plan, calls=c)
    for k, c in enumerate(plan["calls"]):
        def put(x):
            return dict(plan, calls=plan["calls"][:k] + [x] + plan["calls"][k + 1:])
        for f in ("fail", "tz", "switch", "before"):
            if f in c:
                yield put({a: b for a, b in c.items() if a != f})
        if c["jumps"]:
            for j in H.drop_chunks(c["jumps"]):
                yield put(dict(c, jumps=j))
        if c["step"]:
            yield put(dict(c, step=0))
