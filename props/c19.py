"""C19: sun events keep a 24-hour rhythm from day to day."""
import datetime as D
from sim import harness as H, loader, values as V
from props.c11 import FNS, PARTS, DAY, LO, HI, us_of, utc, local_date

ID = "C19"
INSTRUMENT = False
RUNS = {"quick": 40000, "thorough": 150000}
RULE = ("Each run: an alarm client at one place asks for sunrise, transit and sunset on successive (sometimes skipped, sometimes repeated) local days under a simulated clock that is carried across year "
        "ends, leap days, DST and zone-rule changes, at changing moments of the day, through changing functions and backends, and in changing zones (a traveller, a server for many users). Every pair of answers up "
        "to ten days apart is compared modulo 24 hours. Non-trivial: at least two local days or zones; distinct: hash of place, moments and answers.")
COMPONENTS = {"real": "pysolar.util, solar; CPython datetime; numpy", "stub": "wall clock (LD_PRELOAD shim), time zones"}
ASSUMPTIONS = ["latitudes up to 60 degrees, years 1950-2100"]
RATE = {0: 240, 1: 240, 2: 40}       # seconds per day
PART = ("sunrise", "sunset", "transit")


def generate(rng, ctx, i):
    zones = V.ZONE_NAMES + ["utc"] + [{"fixed": rng.choice((-43200, -34200, -12345, 900, 20700, 45900, 50400))}]
    z = rng.choice(zones)
    same = rng.random() < 0.5
    lat = rng.choice((round(rng.uniform(-60, 60), 4), round(rng.uniform(-60, 60), 4), 0, 60, -60))
    lon = rng.choice((round(rng.uniform(-180, 180), 4), round(rng.uniform(-180, 180), 4), 0, 180, -180))
    us = rng.randint(LO, HI)
    r = rng.random()
    if r < 0.35:
        us = V._sec(rng.randint(1951, 2099), rng.choice((12, 1)), rng.choice((1, 30, 31))) * 10 ** 6
    elif r < 0.5:
        us = V._sec(rng.randint(1951, 2099), rng.choice((2, 3)), rng.choice((1, 27, 28))) * 10 ** 6
    elif r < 0.75 and isinstance(z, str) and z != "utc":
        tr = [int(t * 10 ** 6) for t in V.zone(z)._utc if LO < t * 10 ** 6 < HI]
        if tr:
            us = rng.choice(tr) - rng.randint(0, 4) * DAY
    asks = []
    for _ in range(rng.choice((2, 4, 8, 20))):
        if not same and rng.random() < 0.6:
            z = rng.choice(zones)
        asks.append([min(max(us, LO), HI), z, rng.choice(FNS), rng.choice(("now", "given", "kw")), rng.choice(("math", "numpy")) if rng.random() < 0.1 else None])
        us += rng.choice((365, 366, 364, -365, 731)) * DAY if rng.random() < 0.04 else rng.choice((0, DAY, DAY, DAY, DAY, 2 * DAY, 7 * DAY, -DAY)) + (rng.randint(-DAY // 2, DAY // 2) if rng.random() < 0.5 else 0)
    return {"backend": rng.choice(("math", "numpy")), "lat": lat, "lon": lon, "asks": asks}


def execute(plan, ctx):
    res = H.Result()
    lat, lon = plan["lat"], plan["lon"]
    seen = {0: [], 1: [], 2: []}
    where = "at %s,%s" % (lat, lon)
    try:
        pkg = ctx.fresh(plan["backend"])
        for us, z, fn, how, backend in plan["asks"]:
            if backend:
                pkg.use(backend)
                res.count("backend switch")
            tz = V.mk_tz(z)
            if how == "now":
                ctx.clock.set(us * 1000)
                when = D.datetime.now(tz)
                res.count("asked at the clock's time")
            else:
                when = V.mk_dt(V.at(us, z))
            f = getattr(pkg.util, fn)
            res.ops += 1
            try:
                r = f(lat, lon, when=when) if how == "kw" else f(lat, lon, when)
                r = r if isinstance(r, (tuple, list)) else (r,)
                ans = [us_of(x) for x in r]
                assert len(ans) == len(PARTS[fn])
            except Exception as e:
                res.bad("exception", "%s(%s) %s raised %s: %s" % (fn, when, where, type(e).__name__, e))
                return res
            d = D.date(*local_date(us, z)).toordinal()
            res.log(us, fn, ans)
            for p, v in zip(PARTS[fn], ans):
                for v0, d0, us0, z0 in seen[p][-12:]:
                    k = abs(d - d0)
                    if k > 10:
                        continue
                    res.checks += 1
                    off = (v - v0 + DAY // 2) % DAY - DAY // 2
                    if abs(off) > (1000 if k == 0 else k * RATE[p] * 10 ** 6):
                        res.bad("rhythm", "%s: %s asked for %s at %s UTC in zone %s is %s, for %s at %s UTC in zone %s it is %s: %.3f s off the 24-hour rhythm in %d days" % (
                            where, PART[p], D.date.fromordinal(d0), utc(us0), z0, utc(v0), D.date.fromordinal(d), utc(us), z, utc(v), off / 1e6, k))
                        return res
                seen[p].append((v, d, us, z))
        us = [a[0] for a in plan["asks"]]
        res.sim_s = (max(us) - min(us)) / 1e6
        res.nontrivial = len({(str(local_date(a[0], a[1])), str(a[1])) for a in plan["asks"]}) > 1
    finally:
        ctx.clock.set(H.WALL0)
        loader.purge()
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["asks"]):
        if c:
            yield dict(plan, asks=c)
    if plan["backend"] != "math":
        yield dict(plan, backend="math")
    for k, a in enumerate(plan["asks"]):
        for j, v in ((1, "utc"), (2, "get_sunrise_sunset_transit"), (3, "given"), (4, None)):
            if a[j] != v:
                yield dict(plan, asks=plan["asks"][:k] + [a[:j] + [v] + a[j + 1:]] + plan["asks"][k + 1:])
    for n in ("lat", "lon"):
        for v in (0, round(plan[n])):
            if v != plan[n]:
                yield dict(plan, **{n: v})
