"""Plan values: JSON in the plan, Python objects in the run, canonical outcomes in the log."""
import datetime as D, functools, json, math, re
import numpy as np

UTC = D.timezone.utc
EPOCH = D.datetime(1970, 1, 1)
_S = D.timedelta(seconds=1)


class SimZone(D.tzinfo):
    """A civil clock given by an explicit list of (UTC second from which it holds, offset in seconds)."""

    def __init__(self, name, first, transitions):
        self.name, self.first = name, first
        self.trans = []
        prev = first
        for at, off in transitions:
            self.trans.append((at, prev, off))
            prev = off
        self._utc = [t[0] for t in self.trans]
        # wall second at which the new offset is certainly in force / may be in force
        self._lo = [t[0] + min(t[1], t[2]) for t in self.trans]
        self._hi = [t[0] + max(t[1], t[2]) for t in self.trans]

    def _off(self, dt):
        if dt is None:
            return None
        w = (dt.replace(tzinfo=None) - EPOCH) / _S
        off = self.first
        for (at, old, new), lo, hi in zip(self.trans, self._lo, self._hi):
            if w >= hi:
                off = new
            elif w >= lo:
                # inside a gap (old < new) fold=0 reads the old offset, inside an overlap fold=0 is the first pass: old too
                return new if dt.fold else old
            else:
                break
        return off

    def utcoffset(self, dt):
        o = self._off(dt)
        return None if o is None else D.timedelta(seconds=o)

    def dst(self, dt):
        return None if dt is None else D.timedelta(0)

    def tzname(self, dt):
        return self.name

    def fromutc(self, dt):
        u = (dt.replace(tzinfo=None) - EPOCH) / _S
        off, prev, at0 = self.first, None, None
        for at, old, new in self.trans:
            if u >= at:
                off, prev, at0 = new, old, at
            else:
                break
        r = (dt + D.timedelta(seconds=off)).replace(fold=0)
        if prev is not None and prev > off and u - at0 < prev - off:
            r = r.replace(fold=1)
        return r

    def __repr__(self):
        return "SimZone(%s)" % self.name

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (zone, (self.name,))


def _sec(y, m, d, h=0, mi=0):
    return (D.datetime(y, m, d, h, mi) - EPOCH) // _S


def _nth(y, m, wd, n):
    """n-th (1..) or last (-1) weekday wd (Mon=0) of the month"""
    if n > 0:
        d = D.date(y, m, 1)
        return d + D.timedelta(days=(wd - d.weekday()) % 7 + 7 * (n - 1))
    d = (D.date(y + (m == 12), m % 12 + 1, 1)) - D.timedelta(days=1)
    return d - D.timedelta(days=(d.weekday() - wd) % 7)


def _dst(std, save, start, end, years, local=True, first=None):
    """start/end: f(year) -> (date, hour) in local standard/daylight clock (or UTC)."""
    t = []
    for y in years:
        d, h = start(y)
        t.append((_sec(d.year, d.month, d.day) + int(h * 3600) - (std if local else 0), std + save))
        d, h = end(y)
        t.append((_sec(d.year, d.month, d.day) + int(h * 3600) - (std + save if local else 0), std))
    t.sort()
    return std if first is None else first, t


def _zones():
    z = {}
    yrs = range(1967, 2061)
    us = lambda y: (_nth(y, 3, 6, 2), 2) if y >= 2007 else (_nth(y, 4, 6, 1 if y >= 1987 else -1), 2)
    ue = lambda y: (_nth(y, 11, 6, 1), 2) if y >= 2007 else (_nth(y, 10, 6, -1), 2)
    z["NY"] = _dst(-18000, 3600, us, ue, yrs)
    eu_s, eu_e = (lambda y: (_nth(y, 3, 6, -1), 1)), (lambda y: (_nth(y, 10, 6, -1), 1))
    f, t = _dst(3600, 3600, eu_s, eu_e, range(1980, 2061), local=False)
    z["BER"] = (3208, [(_sec(1893, 3, 31, 23, 6) + 32, 3600)] + t)
    f, t = _dst(0, 3600, eu_s, eu_e, range(1980, 2061), local=False)
    z["LON"] = (-75, [(_sec(1880, 1, 1), 0)] + t)
    f, t = _dst(36000, 3600, lambda y: (_nth(y, 10, 6, 1), 2), lambda y: (_nth(y, 4, 6, 1), 2), range(1980, 2061))
    z["SYD"] = (36292, [(_sec(1895, 1, 31, 13, 55), 36000)] + t)
    z["LHI"] = _dst(37800, 1800, lambda y: (_nth(y, 10, 6, 1), 2), lambda y: (_nth(y, 4, 6, 1), 2), range(1985, 2061))
    # changes over at local midnight: the day of the change has no 00:00 in spring and two 23:xx in autumn
    z["MID"] = _dst(-10800, 3600, lambda y: (_nth(y, 10, 6, 3), 0), lambda y: (_nth(y, 2, 6, 3), 0), range(1985, 2061))
    # date line jump: the local day 2011-12-30 does not exist; before that a repeated day in 1892
    z["APIA"] = (45184, [(_sec(1892, 7, 4, 11, 26, ), -41216), (_sec(1911, 1, 1, 11, 26), -41400), (_sec(1950, 1, 1, 11, 30), -39600),
                         (_sec(2010, 9, 26, 11), -36000), (_sec(2011, 4, 2, 14), -39600), (_sec(2011, 9, 24, 14), -36000),
                         (_sec(2011, 12, 30, 10), 50400), (_sec(2012, 3, 31, 14), 46800)])
    # rule changes of the base offset, in both directions
    z["RULE"] = (-14400, [(_sec(1972, 7, 1), -16200), (_sec(1987, 12, 31, 23, 59), -14400), (_sec(2007, 12, 9, 7), -16200),
                          (_sec(2016, 5, 1, 7), -14400), (_sec(2027, 1, 1, 0), -18000)])
    z["KTM"] = (20476, [(_sec(1919, 12, 31, 18, 18), 19800), (_sec(1985, 12, 31, 18, 30), 20700)])
    z["ODD"] = (-16211.25, [(_sec(1990, 1, 1), -16199.000001), (_sec(2015, 6, 30, 23, 59), 4172.5)])
    z["KIR"] = (-38400, [(_sec(1979, 10, 1, 10, 40), -36000), (_sec(1994, 12, 31, 10), 50400)])
    return z


_Z = {}
ZONES = {k: v for k, v in _zones().items()}
ZONE_NAMES = sorted(ZONES)


def zone(name):
    if name not in _Z:
        _Z[name] = SimZone(name, *ZONES[name])
    return _Z[name]


class SubDT(D.datetime):
    """A datetime subclass as date libraries have them (pandas.Timestamp, pendulum, ...)."""


class EvenDT(D.datetime):
    def __repr__(self):
        return "EvenDT(%s)" % self.isoformat()


class NoOffset(D.tzinfo):
    """A tzinfo that knows no offset: Python calls such a datetime naive, pysolar accepts it (tzinfo is set)."""

    def utcoffset(self, dt):
        return None

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "?"


def mk_tz(s, env=None):
    if s is None:
        return None
    if s == "utc":
        return UTC
    if isinstance(s, str):
        return zone(s)
    if "fixed" in s:
        return D.timezone(D.timedelta(seconds=s["fixed"]))
    if "custom" in s:
        return env["tz"](s["custom"])
    raise ValueError(s)


def dtspec(dt, tz):
    r = {"dt": [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond], "tz": tz}
    if dt.fold:
        r["fold"] = 1
    return r


def at(us, tz):
    """spec of the instant `us` (microseconds since 1970) read on the clock of zone tz"""
    return dtspec((D.datetime(1970, 1, 1, tzinfo=UTC) + D.timedelta(microseconds=us)).astimezone(mk_tz(tz)), tz)


def naive(spec):
    r = dict(spec, tz=None)
    return r


def mk_dt(s, env=None):
    y, mo, d, h, mi, sec, us = s["dt"]
    return {"sub": SubDT, "even": EvenDT}.get(s.get("cls"), D.datetime)(y, mo, d, h, mi, sec, us, tzinfo=mk_tz(s["tz"], env), fold=s.get("fold", 0))


def instant(s):
    d = mk_dt(s)
    return (d.astimezone(UTC) - D.datetime(1970, 1, 1, tzinfo=UTC)) // D.timedelta(microseconds=1)


def layout(a, how):
    """the same values in another memory layout"""
    if a.ndim != 1:
        a = a[::-1].copy()[::-1] if how == "rev" and a.ndim else np.array(a.T, order="C").T if how == "strided" else a
        if how == "ro":
            a.flags.writeable = False
        return a
    if how == "strided":
        b = np.zeros(3 * len(a) + 2, dtype=a.dtype)[1:3 * len(a) + 1:3]
        b[...] = a
        return b
    if how == "rev":
        b = np.array(a[::-1])[::-1]
        return b
    if how == "ro":
        a.flags.writeable = False
    return a


def mk(s, env=None):
    """JSON -> object"""
    if isinstance(s, dict):
        if "dt" in s:
            return mk_dt(s, env)
        if "arr" in s:
            a = np.array(s["arr"], dtype=s.get("dtype", "float64"))
            return layout(a if s.get("shape") is None else a.reshape(s["shape"]), s.get("layout"))
        if "dt64" in s:
            a = np.array(s["dt64"], dtype="datetime64[%s]" % s.get("unit", "s"))
            return layout(a if s.get("shape") is None else a.reshape(s["shape"]), s.get("layout"))
        if "buf" in s:
            return env["buf"](s["buf"])
        if "map" in s:
            return {k: mk(v, env) for k, v in s["map"].items()}
        if "table" in s:
            return env["table"](s["table"])
        if "td" in s:
            return D.timedelta(seconds=s["td"])
        if "obj" in s:
            return env["obj"](s["obj"])
        raise ValueError("value %r" % (s,))
    if isinstance(s, list):
        return [mk(x, env) for x in s]
    return s


_ADDR = re.compile(r"0x[0-9a-fA-F]+")


def num(x):
    x = float(x)
    if x != x:
        return "nan"
    return x.hex()


def canon(v, kinds=False):
    """Canonical, JSON-able form of a result. Scalars exactly; with kinds=True also their type."""
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (bool, int, float, np.number, np.bool_)):
        if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 2 ** 53:
            return ["i", str(v)]
        return ["n", num(v), type(v).__name__] if kinds else ["n", num(v)]
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "mM":
            return ["a64", list(v.shape), [str(x) for x in v.ravel()]]
        if v.dtype.kind == "O":
            return ["ao", list(v.shape), [canon(x, kinds) for x in v.ravel()]]
        if v.shape == () and not kinds:
            return ["n", num(v)]
        return ["a", list(v.shape), [num(x) for x in v.ravel()]] + ([str(v.dtype)] if kinds else [])
    if isinstance(v, D.datetime):
        o = v.utcoffset()
        return ["d", v.replace(tzinfo=None, fold=0).isoformat(), None if o is None else o.total_seconds(), v.fold if v.tzinfo is not None else 0]
    if isinstance(v, D.timedelta):
        return ["td", v.total_seconds()]
    if isinstance(v, tuple) or isinstance(v, list):
        return ["t"] + [canon(x, kinds) for x in v]
    if isinstance(v, dict):
        return ["m"] + [[str(k), canon(x, kinds)] for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))]
    return ["o", type(v).__name__]


def canon_exc(e):
    return ["x", type(e).__name__, _ADDR.sub("0x", str(e))[:300]]


def _close(a, b, tol):
    if a == b:
        return True
    if a == "nan" or b == "nan":
        return False
    x, y = float.fromhex(a), float.fromhex(b)
    if x == y:
        return tol > 0      # zeros of different sign
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


ARR_TOL = 1e-9   # numpy's vector loops may round differently by position in an array


def same(a, b, tol=0.0):
    """Are two canonical outcomes the same? Scalars within tol (0: bit for bit), array elements within max(tol, ARR_TOL)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        if not a or not b:
            return a == b
        if a[0] == "n" and b[0] == "n":
            return a[2:] == b[2:] and _close(a[1], b[1], tol)
        if a[0] == "a" and b[0] == "a":
            return a[1] == b[1] and a[3:] == b[3:] and all(_close(x, y, max(tol, ARR_TOL)) for x, y in zip(a[2], b[2]))
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def key(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def short(c, n=220):
    def dec(x):
        if isinstance(x, list):
            if x and x[0] == "n":
                return "nan" if x[1] == "nan" else "%.17g" % float.fromhex(x[1])
            if x and x[0] == "a":
                return "array" + str([("nan" if y == "nan" else "%.17g" % float.fromhex(y)) for y in x[2]])
            return "[" + ", ".join(dec(y) for y in x) + "]"
        return str(x)
    s = dec(c)
    return s if len(s) <= n else s[:n] + "..."
