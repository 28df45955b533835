"""C10: span simulations yield every step exactly once, however they are driven."""
import datetime as D, math, threading
from sim import harness as H, loader, ops as O, values as V

ID = "C10"
INSTRUMENT = False
RUNS = {"quick": 5500, "thorough": 140000}
RULE = ("Each run: 1-4 simulate_span / datetime_range streams in simulated zones are driven by a seeded script that interleaves their steps (also from different threads), direct calls, backend switches, "
        "abandonment and restarts; zones and horizon profiles supplied by the caller fail or re-enter (stepping other streams) on planned uses. Every yielded entry is compared with the model of the stream "
        "and with direct calls on a pristine instance. Non-trivial: at least 3 entries; distinct: hash of script and entries.")
COMPONENTS = {"real": "pysolar.simulate, solar, radiation, numeric; CPython generators", "stub": "time zones and horizon profiles (simulated, fault injecting), driver script"}
ASSUMPTIONS = ["a profile entry covers the sun when it is smaller than 380 - round(380 sin altitude), the scale documented by simulate.py's alt_zero; altitudes or azimuths within 1e-7 of a rounding edge decide nothing"]
US = D.timedelta(microseconds=1)
STEPS = (1, 5, 30, 60, 1440, 0.5, 2.5, 0.25, 7.75, 1 / 60, 0.1, 90.5, 15.0)


def sunedge(rng, ctx, lat, lon, us):
    """an instant near us with the sun next to the horizon, or us"""
    pkg = getattr(ctx, "c10", None)
    if pkg is None:
        pkg = ctx.c10 = ctx.fresh("math")
        loader.purge()
    alt = lambda u: pkg.solar.get_altitude(lat, lon, D.datetime(1970, 1, 1, tzinfo=V.UTC) + D.timedelta(microseconds=u))
    try:
        xs = [us + k * 1800 * 10 ** 6 for k in range(49)]
        al = [alt(x) for x in xs]
        c = [k for k in range(48) if (al[k] > 0) != (al[k + 1] > 0)]
        if not c:
            return us
        k = rng.choice(c)
        a, b = xs[k], xs[k + 1]
        for _ in range(32):
            m = (a + b) // 2
            if (alt(m) > 0) == (al[k] > 0):
                a = m
            else:
                b = m
        return a
    except Exception:
        return us


def generate(rng, ctx, i):
    pools = O.Pools(rng, years=(1968, 2050), n_when=2, subclasses=False, lat=lambda r: round(r.uniform(-89, 89), 3))
    streams = []
    long = rng.random()
    long = "range" if long < 0.006 else "span" if long < 0.0075 else None
    for _ in range(1 if long else rng.choice((1, 1, 2, 3, 4))):
        if streams and rng.random() < 0.3:
            s = dict(rng.choice(streams))
        else:
            lat, lon = pools.get("lat"), pools.get("lon")
            us = pools.instant()
            step = rng.choice(STEPS)
            su = round(D.timedelta(minutes=step) / US)
            if rng.random() < 0.4:
                us = sunedge(rng, ctx, lat, lon, us)
                if rng.random() < 0.6:
                    step, su = 1 / 60, 10 ** 6
                us -= su * rng.randint(0, 8)
            n = rng.choice((0, 1, 2, 5, 10, 16))
            if long:
                # as long a sequence as a real simulation has
                n = rng.randint(1100, 2000) if long == "span" else rng.randint(3000, 40000)
                step, su = rng.choice(((1, 60 * 10 ** 6), (1 / 60, 10 ** 6), (5, 300 * 10 ** 6)))
            span = n * su + rng.choice((0, 0, 1, su - 1, su // 2)) if rng.random() < 0.9 else -rng.choice((1, su, 10 * su))
            lo, hi = V._sec(1967, 1, 1) * 10 ** 6, V._sec(2058, 1, 1) * 10 ** 6
            us = min(max(us, lo), hi)
            z = rng.choice(pools.zones)
            s = {"kind": long or "range" if rng.random() < 0.25 or long else "span", "lat": lat, "lon": lon, "start": us, "end": us + span, "tz": z, "tz2": z if rng.random() < 0.75 else rng.choice(pools.zones), "step": step,
                 "horizon": {"horizon": rng.choice((0, 1, 2))}, "extra": {}}
            for k, kind in (("elevation", "elev"), ("temperature", "temp"), ("pressure", "pres")):
                if rng.random() < 0.25:
                    s["extra"][k] = pools.get(kind)
            s["pos"] = rng.random() < 0.3
        if s["kind"] == "span" and rng.random() < 0.35 and not long:
            h = {"horizon": s["horizon"]["horizon"], "at": sorted({rng.randint(1, 8) for _ in range(rng.choice((1, 2)))})}
            if rng.random() < 0.5:
                h["exc"] = rng.choice(("ZoneFailure", "KeyboardInterrupt", "OSError", "ValueError", "StopIteration"))
            elif rng.random() < 0.5:
                h["call"] = pools.call(only=["solar.get_altitude", "solar.get_azimuth", "solar.get_position", "radiation.get_radiation_direct", "stream.span"])
            else:
                h["step"] = rng.randrange(4)
            s["horizon"] = h
        if rng.random() < 0.2 and not long:
            z = {"base": s["tz"] if not isinstance(s["tz"], dict) or "custom" not in s["tz"] else s["tz"]["custom"]["base"], "at": sorted({rng.randint(1, 40) for _ in range(rng.choice((1, 2)))}),
                 "exc": rng.choice(("ZoneFailure", "KeyboardInterrupt", "OSError"))}
            s["tz"] = {"custom": z}
        streams.append(s)
    script = []
    for _ in range(rng.choice((4, 10, 24, 40))):
        r = rng.random()
        k = rng.randrange(len(streams))
        if r < 0.66:
            script.append(["next", k, rng.choice((1, 1, 2, 5)) if not long else rng.choice((1, 100, 1000))])
        elif r < 0.72:
            script.append(["nextT", k, 1])
        elif r < 0.80:
            script.append(["direct", pools.call(only=["solar.get_altitude", "solar.get_azimuth", "solar.get_position", "radiation.get_radiation_direct", "stime.get_leap_seconds", "util.get_sunrise_time"])])
        elif r < 0.88:
            script.append(["switch", rng.choice(("math", "numpy"))])
        elif r < 0.93:
            script.append(["drop", k, rng.choice(("close", "del", "throw"))])
        else:
            script.append(["restart", k])
    return {"backend": rng.choice(("math", "numpy")), "streams": streams, "script": script}


class Stream:
    def __init__(self, spec, pkg, run):
        self.s, self.pkg, self.run = spec, pkg, run
        self.dt = D.timedelta(minutes=spec["step"])
        self.su = self.dt // US
        self.n = max(0, (spec["end"] - spec["start"]) // self.su)
        self.i = 0                # next entry expected
        self.gen = None
        self.failed = 0
        self.busy = False
        self.ended = False
        self.tz = V.mk_tz(spec["tz"], {"tz": lambda z: O.FaultZone(z, lambda sp: run.zone(self, sp))})
        self.horizon = O.FaultHorizon(spec["horizon"], lambda sp: run.horizon(self, sp)) if "at" in spec["horizon"] else O.horizon(spec["horizon"]["horizon"])
        self.table = O.horizon(spec["horizon"]["horizon"])

    def when(self, us, tz, raw=None):
        d = V.mk_dt(V.at(us, raw))
        return d.replace(tzinfo=tz)

    def open(self):
        s = self.s
        raw = s["tz"]["custom"]["base"] if isinstance(s["tz"], dict) and "custom" in s["tz"] else s["tz"]
        a = self.when(s["start"] + self.i * self.su, self.tz, raw)
        raw2 = s["tz2"]
        b = V.mk_dt(V.at(s["end"], raw2)) if raw2 != raw else self.when(s["end"], self.tz, raw)
        if s["kind"] == "range":
            self.gen = self.pkg.simulate.datetime_range(a, b, s["step"])
        else:
            x = s["extra"]
            if s["pos"]:
                c = self.pkg.constants
                self.gen = self.pkg.simulate.simulate_span(s["lat"], s["lon"], self.horizon, a, b, s["step"], x.get("elevation", 0), x.get("temperature", c.standard_temperature), x.get("pressure", c.standard_pressure))
            else:
                self.gen = self.pkg.simulate.simulate_span(s["lat"], s["lon"], self.horizon, a, b, s["step"], **x)
        self.ended = False


class Run:
    def __init__(self, plan, ctx, res):
        self.plan, self.ctx, self.res = plan, ctx, res
        self.pkg = ctx.fresh(plan["backend"])
        self.mode = plan["backend"]
        self.streams = [Stream(s, self.pkg, self) for s in plan["streams"]]
        self.entries = []         # (stream, index, tuple, backend)
        self.nested = []
        self.depth = 0

    def zone(self, st, spec):
        self.res.count("zone raises " + spec["exc"])
        raise EXC[spec["exc"]]("planned")

    def horizon(self, st, spec):
        if "exc" in spec:
            self.res.count("horizon raises " + spec["exc"])
            raise EXC[spec["exc"]]("planned")
        if "call" in spec:
            self.res.count("horizon re-enters the library")
            self.nested.append((spec["call"], self.mode, H.outcome(O.bind(self.pkg, spec["call"]))))
        else:
            k = spec["step"] % len(self.streams)
            if not self.streams[k].busy and self.depth < 3:
                self.res.count("horizon steps another stream")
                self.next(k)

    def next(self, k):
        st = self.streams[k]
        res = self.res
        if st.busy or res.violations:
            return
        st.busy = True
        self.depth += 1
        try:
            if st.gen is None:
                try:
                    st.open()
                except BaseException as e:
                    if not planned(e):
                        raise
                    st.gen = None
                    return
            try:
                x = next(st.gen)
            except StopIteration:
                res.log("end", k, st.i)
                st.ended = True
                if st.i != st.n:
                    res.bad("count", "stream %d (%s) ended after %d of %d entries" % (k, self.show(st), st.i, st.n))
                return
            except BaseException as e:
                if not planned(e):
                    res.bad("exception", "stream %d (%s) raised %s: %s at entry %d" % (k, self.show(st), type(e).__name__, e, st.i))
                    return
                res.log("fail", k, st.i, type(e).__name__)
                # a failed stream is over; it is restarted from where it stopped
                try:
                    y = next(st.gen)
                    res.bad("zombie", "stream %d went on with %r after it had failed" % (k, y))
                except StopIteration:
                    pass
                st.gen = None
                st.failed += 1
                return
            res.ops += 1
            if st.i >= st.n:
                res.bad("count", "stream %d (%s) has only %d entries but went on with %r" % (k, self.show(st), st.n, x))
                return
            self.entries.append((k, st.i, x, self.mode))
            t = x[0] if st.s["kind"] == "span" else x
            want = st.s["start"] + st.i * st.su
            calm(st, True)
            try:
                got = (t.astimezone(V.UTC) - D.datetime(1970, 1, 1, tzinfo=V.UTC)) / US
                there, here = t.astimezone(st.tz).utcoffset(), t.utcoffset()
            except Exception as e:
                res.bad("time", "stream %d entry %d has no usable time: %r" % (k, st.i, t))
                return
            finally:
                calm(st, False)
            if abs(got - want) > 1000:
                res.bad("time", "stream %d (%s) entry %d is at %s UTC instead of %s UTC" % (k, self.show(st), st.i, V.EPOCH + got * US, V.EPOCH + want * US))
                return
            if there != here:
                res.bad("zone", "stream %d (%s) entry %d, %s, reads a clock %s ahead of UTC; in the zone of the start it is %s" % (k, self.show(st), st.i, t, here, there))
                return
            res.log("entry", k, st.i, want, V.canon(x[1:]) if st.s["kind"] == "span" else None)
            st.i += 1
        finally:
            st.busy = False
            self.depth -= 1

    def show(self, st):
        s = st.s
        return "%s from %s to %s step %.6g min in zone %s at %s,%s" % (s["kind"], V.EPOCH + s["start"] * US, V.EPOCH + s["end"] * US, s["step"], s["tz"], s["lat"], s["lon"])


EXC = dict(O.EXC, StopIteration=lambda m: RuntimeError("planned"))


def calm(st, yes):
    """the harness's own look at a time must not trigger the zone's faults"""
    if isinstance(st.tz, O.FaultZone):
        st.tz.trig.busy = yes


def planned(e):
    return bool(e.args) and e.args[0] == "planned"


def execute(plan, ctx):
    res = H.Result()
    try:
        run = Run(plan, ctx, res)
        direct = []
        with H.Alarm(60):
            for op in plan["script"]:
                if res.violations:
                    break
                if op[0] == "next":
                    for _ in range(op[2]):
                        if not run.streams[op[1]].ended:
                            run.next(op[1])
                elif op[0] == "nextT":
                    if not run.streams[op[1]].ended:
                        th = threading.Thread(target=run.next, args=(op[1],))
                        th.start()
                        th.join()
                        res.count("stepped from another thread")
                elif op[0] == "direct":
                    direct.append((op[1], run.mode, H.outcome(O.bind(run.pkg, op[1]))))
                elif op[0] == "switch":
                    run.pkg.use(op[1])
                    run.mode = op[1]
                    res.count("backend switch")
                elif op[0] == "drop":
                    st = run.streams[op[1]]
                    if st.gen is not None:
                        res.count("stream abandoned: " + op[2])
                        if op[2] == "close":
                            st.gen.close()
                        elif op[2] == "throw":
                            try:
                                st.gen.throw(KeyboardInterrupt("planned"))
                                res.bad("throw", "an exception thrown into stream %d vanished" % op[1])
                            except (KeyboardInterrupt, StopIteration):
                                pass
                        st.gen = None
                        st.ended = False
                elif op[0] == "restart":
                    st = run.streams[op[1]]
                    st.gen, st.i, st.ended = None, 0, False
                    res.count("stream restarted")
            # drain: once faults stop every stream comes to its end within bounded steps
            for k, st in enumerate(run.streams):
                tries = 0
                while not res.violations and not (st.ended and st.i == st.n):
                    run.next(k)
                    tries += 1
                    if tries > st.n + 120:
                        res.bad("progress", "stream %d makes no progress" % k)
        if not res.violations:
            check(plan, ctx, run, direct, res)
    finally:
        loader.purge()
    res.nontrivial = len(run.entries) >= 3
    res.sim_s = sum(max(0, s["end"] - s["start"]) for s in plan["streams"]) / 1e6
    return res




def check(plan, ctx, run, direct, res):
    for c, mode, g in direct + run.nested:
        res.checks += 1
        want = ctx.oracle(c, mode)
        if not V.same(g, want, 1e-9):
            res.bad("direct", "direct call %s%s between steps gave %s, alone %s" % (c["fn"], V.key(c["a"]), V.short(g), V.short(want)))
            return
    ref = {}

    def pristine(mode):
        if mode not in ref:
            ref[mode] = ctx.fresh(mode)
        return ref[mode]
    for n, (k, i, x, mode) in enumerate(sorted(run.entries, key=lambda e: (e[3], e[0], -e[1]))):
        st = run.streams[k]
        s = st.s
        if s["kind"] == "range":
            continue
        us = s["start"] + i * st.su
        w = V.at(us, "utc")
        e = s["extra"]
        pick = n % 11 == 0
        if not (isinstance(x, tuple) and len(x) == 5):
            res.bad("entry", "stream %d entry %d is %r" % (k, i, x))
            return
        t, alt, azi, rad, shade = x
        where = "stream %d (%s) entry %d at %s UTC (%s backend)" % (k, run.show(st), i, V.EPOCH + us * US, mode)
        ca = {"fn": "solar.get_altitude", "a": [s["lat"], s["lon"], w], "k": e}
        cz = {"fn": "solar.get_azimuth", "a": [s["lat"], s["lon"], w], "k": {a: b for a, b in e.items() if a == "elevation"}}
        wa = ctx.oracle(ca, mode) if pick else H.outcome(O.bind(pristine(mode), ca))
        wz = ctx.oracle(cz, mode) if pick else H.outcome(O.bind(pristine(mode), cz))
        res.checks += 3
        for what, g, wnt in (("altitude", alt, wa), ("azimuth", azi, wz)):
            if not V.same(["ok", V.canon(g)], wnt, 1e-9):
                res.bad(what, "%s: %s %r, a direct call gives %s" % (where, what, g, V.short(wnt)))
                return
        wa, wz = float.fromhex(wa[1][1]), float.fromhex(wz[1][1])
        if abs(wz % 1 - 0.5) > 1e-7 and shade != st.table[round(wz)] or shade not in (st.table[math.floor(wz)], st.table[min(360, math.floor(wz) + 1)]):
            res.bad("shade", "%s: horizon value %r, the profile has %r at %r degrees" % (where, shade, st.table[round(wz)], wz))
            return
        try:
            r = float(rad)
        except Exception:
            r = float("nan")
        if not (math.isfinite(r) and r >= 0):
            res.bad("radiation", "%s: radiation %r with the sun at %r degrees" % (where, rad, wa))
            return
        cr = {"fn": "radiation.get_radiation_direct", "a": [w, wa]}
        wr = ctx.oracle(cr, mode) if pick else H.outcome(O.bind(pristine(mode), cr))
        if wr[0] != "ok":
            res.bad("radiation", "%s: get_radiation_direct raises %s" % (where, wr))
            return
        wr = float.fromhex(wr[1][1])
        h = 380 * math.sin(math.radians(wa))
        if wa <= 0:
            ok, want = r == 0, 0.0
        elif abs(h % 1 - 0.5) < 1e-7:
            ok, want = r == 0 or abs(r - wr) <= 1e-9 * max(1, wr), wr
        elif shade < 380 - round(h):
            ok, want = r == 0, 0.0
        else:
            ok, want = abs(r - wr) <= 1e-9 * max(1, wr), wr
        if not ok:
            res.bad("radiation", "%s: radiation %r instead of %r (sun at %r degrees, horizon value %r)" % (where, rad, want, wa, shade))
            return


def shrink(plan):
    for c in H.drop_chunks(plan["script"]):
        yield dict(plan, script=c)
    n = len(plan["streams"])
    for k in range(n):
        if n > 1:
            sc = [[o[0], o[1] - (o[1] > k)] + o[2:] if o[0] in ("next", "nextT", "drop", "restart") else o for o in plan["script"] if not (o[0] in ("next", "nextT", "drop", "restart") and o[1] == k)]
            yield dict(plan, streams=plan["streams"][:k] + plan["streams"][k + 1:], script=sc)
    for k, s in enumerate(plan["streams"]):
        def put(**kw):
            return dict(plan, streams=plan["streams"][:k] + [dict(s, **kw)] + plan["streams"][k + 1:])
        if "at" in s["horizon"]:
            yield put(horizon={"horizon": s["horizon"]["horizon"]})
        if isinstance(s["tz"], dict) and "custom" in s["tz"]:
            yield put(tz=s["tz"]["custom"]["base"])
        if s["extra"]:
            yield put(extra={})
        if s["tz"] != "utc" and not (isinstance(s["tz"], dict) and "custom" in s["tz"]):
            yield put(tz="utc", tz2="utc")
        su = round(D.timedelta(minutes=s["step"]) / US)
        if s["end"] - s["start"] > 40 * su:
            yield put(end=s["start"] + (s["end"] - s["start"]) // 2)
        if s["end"] - s["start"] > su:
            yield put(end=s["start"] + su)
            yield put(start=s["start"] + su)
            yield put(end=s["end"] - su)
