"""C26: how samples are batched does not matter."""
import datetime as D, json, math
from sim import harness as H, loader, ops as O, values as V

ID = "C26"
INSTRUMENT = False
RUNS = {"quick": 16000, "thorough": 400000}
RULE = ("Each run: a live station evaluates one calculation sample by sample and sends the samples over a simulated network that loses (and resends), duplicates, delays and reorders them; a batch worker turns whatever has arrived into "
        "arrays (any length, sometimes with nothing in it, sometimes with gaps (NaN) in the record; plain, strided, reversed, two-dimensional in C, Fortran or mixed order, read-only, big-endian, of integers; instants as datetime64) and evaluates each batch in one vectorised call. The worker dies and is restarted with its queue, switches "
        "backends in between, meets batches it must refuse, and gets them again. Every element of every batch is compared with the live value of its sample. Non-trivial: a batch of at least two samples; distinct: hash of batches and results.")
COMPONENTS = {"real": "pysolar (all functions that accept arrays), numpy", "stub": "network between station and worker, worker restarts"}
ASSUMPTIONS = ["agreement to 1e-9 relative (numpy's vector loops may round differently), angles modulo 360 degrees"]
VEC = [c for c in O.CAT if c[3]]
LAYOUTS = ("plain", "plain", "strided", "reversed", "square", "readonly", "column", "zerod", "fortran", "mixed")


def generate(rng, ctx, i):
    pools = O.Pools(rng, n_when=3)
    fn, pos, kws, flag = rng.choices(VEC, [O.WEIGHT[c[0]] for c in VEC])[0]
    pos = pos.split()
    pools.fn = fn
    slots = [(j, k) for j, k in enumerate(pos) if k in O.SCALAR and "p" in flag]
    if "p" in flag:
        slots += [(kw.split(":")[0], kw.split(":")[1]) for kw in kws.split()]
    if "w" in flag:
        slots += [(j, "when") for j, k in enumerate(pos) if k == "when"]
    vary = dict(rng.sample(slots, rng.randint(1, len(slots)))) if slots else {}
    fixed = {}
    for j, k in enumerate(pos):
        if j not in vary:
            fixed[str(j)] = pools.get(k)
    for kw in kws.split():
        n, k = kw.split(":")
        if n not in vary and rng.random() < 0.3:
            fixed[n] = pools.get(k)
    unit = rng.choice(("s", "us", "us", "ms", "ns", "m", "h", "D"))
    dtype = rng.choice((">f8", "i8", "i8")) if rng.random() < 0.4 else "f8"
    if dtype == "i8" and fn == "rest.get_aerosol_optical_depth":
        dtype = "f8"        # numpy itself refuses integer arrays to negative powers
    n = rng.choice((1, 2, 3, 5, 9, 16, 33)) if rng.random() < 0.98 else rng.randint(60, 1500)
    samples = []
    for _ in range(n):
        s = {}
        for j, k in vary.items():
            if k == "when":
                us = pools.instant()
                q = {"s": 10 ** 6, "ms": 1000, "us": 1, "ns": 1, "m": 60 * 10 ** 6, "h": 3600 * 10 ** 6, "D": 86400 * 10 ** 6}[unit]
                s[str(j)] = {"us": us // q * q}
            else:
                s[str(j)] = float(O.SCALAR[k](rng)) if rng.random() < 0.9 else float(rng.choice((0, 1, -1, 90)))
                if k in ("alt", "dalt", "day", "jd", "dist", "air", "tl", "mbar", "ghi", "pres", "temp", "unit", "alpha", "beta", "ty", "prd") and s[str(j)] in (0.0, -1.0, 1.0, 90.0):
                    s[str(j)] = float(O.SCALAR[k](rng))
                if dtype[0] == "i":
                    s[str(j)] = int(s[str(j)])
        samples.append(s)
    # gaps in the record
    gaps = dtype != "i8" and rng.random() < 0.12
    if gaps:
        for s in samples:
            for j, k in vary.items():
                if k != "when" and rng.random() < 0.3:
                    s[str(j)] = "nan"
    # the network: what arrives when
    ids = list(range(n))
    r = rng.random()
    if r < 0.5:
        rng.shuffle(ids)
    net = {"duplicated": 0, "lost and resent": 0, "reordered": int(r < 0.5)}
    for x in list(ids):
        if rng.random() < 0.15:
            ids.insert(rng.randrange(len(ids) + 1), x)
            net["duplicated"] += 1
        elif rng.random() < 0.15:
            ids.remove(x)
            ids.append(x)
            net["lost and resent"] += 1
    batches = []
    while ids:
        k = rng.choice((1, 1, 2, 3, 4, 8, 16, 40)) if n < 60 else rng.choice((1, 40, 100, 1000))
        batches.append({"ids": ids[:k], "layout": rng.choice(LAYOUTS), "scalars": rng.choice(("scalar", "scalar", "scalar", "full"))})
        ids = ids[k:]
    if rng.random() < 0.08:
        batches.insert(rng.randrange(len(batches) + 1), {"ids": [], "layout": rng.choice(LAYOUTS), "scalars": "scalar"})
    for b in batches:
        r = rng.random()
        if r < 0.1:
            b["before"] = "restart"
        elif r < 0.2:
            b["before"] = "toggle"
        elif r < 0.27:
            b["before"] = "refused"
    if rng.random() < 0.3 and batches:
        batches.append(dict(rng.choice(batches), layout=rng.choice(LAYOUTS)))        # at-least-once delivery of a whole batch
    return {"fn": fn, "live": rng.choice(("math", "numpy")), "fixed": fixed, "vary": {str(j): k for j, k in vary.items()}, "unit": unit, "dtype": dtype, "samples": samples, "batches": batches, "net": net}


def build(pkg, plan, values):
    """positional and keyword arguments; values: slot -> object for varying slots"""
    a, k = {}, {}
    for j, v in list(plan["fixed"].items()):
        (a if j.isdigit() else k)[j] = V.mk(v, O.Env(pkg)) if not isinstance(v, (int, float, str)) else v
    for j, v in values.items():
        (a if j.isdigit() else k)[j] = v
    return [a[str(i)] for i in range(len(a))], k


def live(plan, s):
    return {j: float(v) if isinstance(v, str) else (D.datetime(1970, 1, 1, tzinfo=D.timezone.utc) + D.timedelta(microseconds=v["us"])) if isinstance(v, dict) else v for j, v in s.items()}


def arrays(plan, batch):
    """one array per varying slot, laid out as planned, and the ids in the order of the flattened result"""
    import numpy as np
    ids, lay = batch["ids"], batch["layout"]
    if lay in ("square", "fortran", "mixed") and len(ids) % 2:
        lay = "plain"
    if not ids and lay == "strided":
        lay = "plain"
    if lay == "zerod" and len(ids) != 1:
        lay = "plain"
    out = {}
    for j, kind in plan["vary"].items():
        xs = [plan["samples"][i][j] for i in ids]
        if kind == "when":
            x = np.array([V.EPOCH + D.timedelta(microseconds=v["us"]) for v in xs], dtype="datetime64[%s]" % plan["unit"])
        else:
            x = np.array([float(v) if isinstance(v, str) else v for v in xs], dtype=plan.get("dtype", "f8"))
        if lay == "strided":
            y = np.repeat(x, 3)
            y[1::3] = y[0]
            x = y[::3]
        elif lay == "reversed":
            x = x[::-1].copy()[::-1]
        elif lay == "square":
            x = x.reshape(2, -1)
        elif lay == "fortran" or lay == "mixed" and len(out) % 2 == 0:
            x = np.asfortranarray(x.reshape(2, -1))
        elif lay == "mixed":
            x = x.reshape(2, -1)
        elif lay == "column":
            x = x.reshape(-1, 1)
        elif lay == "zerod":
            x = x.reshape(())
        elif lay == "readonly":
            x.flags.writeable = False
        out[j] = x
    return out, next(iter(out.values())).shape if out else ()


def numbers(r):
    """a result as a list of (name, number or array)"""
    if isinstance(r, dict):
        return [(k, r[k]) for k in sorted(r)]
    if isinstance(r, (tuple, list)):
        return [(str(k), x) for k, x in enumerate(r)]
    return [("", r)]


def close(x, y):
    if x == y or (math.isnan(x) and math.isnan(y)):
        return True
    d = abs(x - y)
    return d <= 1e-9 * max(1.0, abs(x), abs(y)) or abs(d - 360) <= 1e-7


def execute(plan, ctx):
    import numpy as np
    res = H.Result()
    fn = plan["fn"]
    big = 0
    try:
        pkg = ctx.fresh(plan["live"])
        want = []
        f = getattr(pkg.numeric, fn.split(".")[1]) if fn.startswith("numeric.") else pkg.get(fn)
        for s in plan["samples"]:
            a, k = build(pkg, plan, live(plan, s))
            try:
                want.append([(n, float(x)) for n, x in numbers(f(*a, **k))])
            except Exception as e:
                want.append(None)
                res.count("sample without a live value")
        pkg = ctx.fresh("numpy")
        for nb, b in enumerate(plan["batches"]):
            do = b.get("before")
            if do == "restart":
                pkg = ctx.fresh("numpy")
                res.count("worker restarted")
            elif do == "toggle":
                pkg.use("math")
                pkg.use("numpy")
                res.count("backend switched and back")
            vals, shape = arrays(plan, b)
            f = getattr(pkg.numeric, fn.split(".")[1]) if fn.startswith("numeric.") else pkg.get(fn)
            if do == "refused" and vals:
                a, k = build(pkg, plan, {j: (x if j != sorted(vals)[0] else np.array(["not", "numbers"])) for j, x in vals.items()})
                try:
                    f(*a, **k)
                except Exception:
                    res.count("batch of rubbish refused")
            if any(want[i] is None for i in b["ids"]) or None in want and not b["ids"]:
                continue
            a, k = build(pkg, plan, vals)
            if b["scalars"] == "full" and fn != "solar.get_coeff":
                for j in range(len(a)):
                    if isinstance(a[j], (int, float)) and not isinstance(a[j], bool):
                        a[j] = np.full(shape, float(a[j]))
            res.ops += 1
            for x in ("duplicated", "lost and resent"):
                if nb == 0 and plan["net"][x]:
                    res.count("message " + x, plan["net"][x])
            where = "batch %d (%s, shape %s) of %s, varying %s, fixed %s" % (nb, b["layout"], shape, fn, sorted(plan["vary"]), V.key(plan["fixed"]))
            try:
                r = [(n, np.asarray(x)) for n, x in numbers(f(*a, **k))]
            except Exception as e:
                res.bad("exception", "%s: %s: %s" % (where, type(e).__name__, e))
                return res
            res.log(nb, [[n, [float(y).hex() for y in np.ravel(x)]] for n, x in r])
            big += len(b["ids"]) > 1
            if not b["ids"]:
                res.count("empty batch")
            elif [n for n, _ in r] != [n for n, _ in want[b["ids"][0]]]:
                res.bad("shape", "%s: result has parts %s, live %s" % (where, [n for n, _ in r], [n for n, _ in want[b["ids"][0]]]))
                return res
            for p, (n, x) in enumerate(r):
                if not b["ids"] and x.size and vals and not all(p < len(w) and close(float(x.flat[0]), w[p][1]) for w in want):
                    res.checks += 1
                    res.bad("shape", "%s: an empty batch gives %d values" % (where, x.size))
                    return res
                if not x.ndim and shape and any(w is not None and p < len(w) and not close(w[p][1], want[b["ids"][0]][p][1]) for w in want) if b["ids"] else False:
                    res.bad("shape", "%s: result is a single number" % where)
                    return res
                try:
                    x = np.broadcast_to(x, shape).ravel()
                except ValueError:
                    res.bad("shape", "%s: result has shape %s" % (where, x.shape))
                    return res
                for q, i in enumerate(b["ids"]):
                    res.checks += 1
                    if not close(float(x[q]), want[i][p][1]):
                        res.bad("element", "%s: element %d (sample %d, %s)%s is %r, evaluated live (%s) it is %r" % (where, q, i, V.key(plan["samples"][i]), " part " + n if n else "", float(x[q]), plan["live"], want[i][p][1]))
                        return res
    finally:
        loader.purge()
    res.nontrivial = big > 0
    return res


def shrink(plan):
    for c in H.drop_chunks(plan["batches"]):
        if c:
            yield dict(plan, batches=c)
    for k, b in enumerate(plan["batches"]):
        if b.get("before"):
            yield H.set_in(plan, ["batches", k, "before"], None)
        if b["layout"] != "plain":
            yield H.set_in(plan, ["batches", k, "layout"], "plain")
        if b["scalars"] != "scalar":
            yield H.set_in(plan, ["batches", k, "scalars"], "scalar")
        for c in H.drop_chunks(b["ids"]):
            if c or not b["ids"]:
                yield H.set_in(plan, ["batches", k, "ids"], c)
