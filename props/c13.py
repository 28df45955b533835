"""C13: the Delta-T table generator emits a faithful table or fails."""
import builtins, datetime as D, errno, io, os, re, sys, tempfile, urllib.error, urllib.request, urllib.response
from sim import harness as H, loader, ops as O, values as V

ID = "C13"
INSTRUMENT = False
RUNS = {"quick": 30000, "thorough": 300000}
RULE = ("Each run: util/get_delta_t executes 1-3 times (as a cron job retries) on a generated data set that reaches it through simulated file or network I/O and writes to a simulated output: short reads and "
        "writes, read and write errors at planned bytes, failing opens, truncation, corrupted, dropped, repeated or swapped records; successful output is installed in the time-scale module and every received "
        "month looked up. Non-trivial: a fault or corruption was applied or at least 3 records; distinct: hash of data, faults and outcome.")
COMPONENTS = {"real": "util/get_delta_t, pysolar.solartime, CPython's buffered and text I/O layers", "stub": "raw file, FTP response and output device (fault injecting)"}
ASSUMPTIONS = ["a connection that ends early without an error cannot be told from a shorter file: what was received counts", "python runs without -O (the script relies on assert)"]


# ------------------------------------------------------------------------------------------------- simulated devices
class RawIn(io.RawIOBase):
    def __init__(self, data, chunks, fail, res):
        self.data, self.chunks, self.fail, self.res, self.pos, self.n = data, chunks, fail, res, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.fail is not None and self.pos >= self.fail[0]:
            self.res.count("read error")
            raise OSError(self.fail[1], os.strerror(self.fail[1]))
        k = self.chunks[self.n % len(self.chunks)] if self.chunks else len(b)
        self.n += 1
        if self.fail is not None:
            k = min(k, max(1, self.fail[0] - self.pos))
        k = min(k, len(b), len(self.data) - self.pos)
        if k < min(len(b), len(self.data) - self.pos):
            self.res.count("short read")
        b[:k] = self.data[self.pos:self.pos + k]
        self.pos += k
        return k


class RawOut(io.RawIOBase):
    def __init__(self, chunks, fail, res):
        self.out, self.chunks, self.fail, self.res, self.n = bytearray(), chunks, fail, res, 0
        self.failed = False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.fail is not None and len(self.out) >= self.fail[0]:
            self.res.count("write error")
            self.failed = True
            raise OSError(self.fail[1], os.strerror(self.fail[1]))
        k = self.chunks[self.n % len(self.chunks)] if self.chunks else len(b)
        self.n += 1
        if self.fail is not None:
            k = min(k, max(1, self.fail[0] - len(self.out)))
        k = min(k, len(b))
        if k < len(b):
            self.res.count("short write")
        self.out += b[:k]
        return k


# ------------------------------------------------------------------------------------------------------- data model
INT = re.compile(r"[+-]?[0-9]+\Z")
NUM = re.compile(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")


def parse(data):
    """received records, or None if they are not a gapless table of numbers"""
    try:
        text = data.decode("ascii")
    except UnicodeDecodeError:
        return None
    for nl in ("\n", "\r\n|\r|\n"):       # a lone CR ends a line in a text file, and is white space in a network record
        r = table(re.split(nl, text))
        if r is not None:
            return r


def table(lines):
    out = []
    for line in lines:
        f = line.split()
        if not f:
            continue
        if len(f) != 4 or not all(INT.match(x) for x in f[:3]) or not NUM.match(f[3]):
            return None
        y, m, d, v = int(f[0]), int(f[1]), int(f[2]), float(f[3])
        if d != 1 or not 1 <= m <= 12:
            return None
        if out and (y, m) != ((out[-1][0], out[-1][1] + 1) if out[-1][1] < 12 else (out[-1][0] + 1, 1)):
            return None
        out.append((y, m, v))
    return out


def generate(rng, ctx, i):
    y, m = rng.choice(((1973, 2), (1973, 1), (rng.randint(1950, 2020), rng.randint(1, 12)), (1999, 12))), None
    y, m = y
    n = rng.choice((1, 2, 3, 11, 12, 13, 25, 60, 200, 495))
    v = rng.uniform(20, 80)
    dec = rng.choice((4, 4, 4, 4, 2, 0, 6))
    style = rng.randrange(4)
    recs = []
    for _ in range(n):
        recs.append([y, m, 1, "%.*f" % (dec, v)])
        v += rng.uniform(-0.05, 0.2)
        m += 1
        if m == 13:
            y, m = y + 1, 1
    lines = [line(r, style) for r in recs]
    nl = rng.choice(("\n", "\n", "\r\n", "\n\n"))
    tail = rng.choice(("\n", "", " \n \n"))
    runs = []
    for a in range(rng.choice((1, 1, 2, 3))):
        ls, what = list(lines), []
        if rng.random() < 0.5:
            for _ in range(rng.choice((1, 1, 2))):
                ls, w = corrupt(rng, ls, recs, style)
                what.append(w)
        data = bytearray((nl.join(ls) + tail).encode("utf-8"))
        r = rng.random()
        if r < 0.15 and data:
            for _ in range(rng.choice((1, 1, 3))):
                k = rng.randrange(len(data))
                data[k] = rng.choice((data[k] ^ (1 << rng.randrange(8)), rng.randrange(256), 0x5f, 0x0a, 0x20, 0x2e, 0x30 + rng.randrange(10)))
            what.append("byte corrupted")
        elif r < 0.22 and data:
            del data[rng.randrange(len(data)):]
            what.append("truncated")
        elif r < 0.24:
            data = bytearray()
            what.append("empty")
        run = {"src": rng.choice(("file", "net")), "data": data.decode("latin-1"), "what": what}
        r = rng.random()
        if r < 0.35:
            run["rchunks"] = [rng.choice((1, 2, 7, 40, 512, 4096)) for _ in range(rng.choice((1, 3)))]
        if rng.random() < 0.15:
            run["rfail"] = [rng.randint(0, len(data)), rng.choice((errno.EIO, errno.ECONNRESET, errno.ETIMEDOUT))]
        if rng.random() < 0.05:
            run["open"] = rng.choice((errno.ENOENT, errno.EACCES, errno.ECONNREFUSED, errno.EMFILE))
        if rng.random() < 0.3:
            run["wchunks"] = [rng.choice((1, 2, 7, 40, 512, 4096)) for _ in range(rng.choice((1, 3)))]
        if rng.random() < 0.2:
            run["wfail"] = [rng.choice((0, 1, rng.randint(0, 30 * n + 100), rng.randint(20 * n, 30 * n + 60))), rng.choice((errno.ENOSPC, errno.EIO, errno.EPIPE))]
        runs.append(run)
    if rng.random() < 0.3:
        runs.append({"src": rng.choice(("file", "net")), "data": nl.join(lines) + tail, "what": []})
    return {"runs": runs}


def line(r, style):
    y, m, d, v = r
    return ("%d %d %d %s", " %4d %2d  %d %9s", "%d\t%d\t%d\t%s", " %d  %02d  %d  %s  ")[style] % (y, m, d, v)


def corrupt(rng, ls, recs, style):
    if not ls:
        return ls, "none"
    k = rng.randrange(len(ls)) if rng.random() < 0.6 else rng.choice((0, len(ls) - 1))
    r = rng.randrange(11)
    rec = list(recs[min(k, len(recs) - 1)])
    if r == 0:
        del ls[k]
        return ls, "record dropped"
    if r == 1:
        ls.insert(k, ls[k])
        return ls, "record repeated"
    if r == 2:
        j = rng.randrange(len(ls))
        ls[k], ls[j] = ls[j], ls[k]
        return ls, "records swapped"
    if r == 3:
        rec[2] = rng.choice((0, 2, 15, 31))
        ls[k] = line(rec, style)
        return ls, "other day"
    if r == 4:
        rec[1] = rng.choice((0, 13, 12 if rec[1] != 12 else 11, rec[1] % 12 + 1, -1))
        ls[k] = line(rec, style)
        return ls, "other month"
    if r == 5:
        rec[0] += rng.choice((-1, 1, 10, 100))
        ls[k] = line(rec, style)
        return ls, "other year"
    if r in (6, 7):
        v = rec[3]
        rec[3] = rng.choice(("nan", "inf", "-", "", v + "x", v.replace(".", ","), v.replace(".", "_"), v[:2] + "_" + v[2:], v + " 1", "0x1p3", v.replace(".", ".."), "\u0664\u0663.5", "1_0", "None", "-inf", "Infinity"))
        ls[k] = line(rec, style)
        return ls, "malformed number"
    if r == 8:
        ls[k] = rng.choice(("# comment", "<html>", ls[k][:len(ls[k]) // 2], ls[k] + ls[k], "\ufeff" + ls[k], ls[k].replace("1", "l", 1), "19_73 2 1 43.0"))
        return ls, "junk line"
    if r == 9:
        j = min(len(ls), k + rng.choice((1, 12, 24)))
        del ls[k:j]
        return ls, "block dropped"
    # a whole year's worth more, behind December
    y, m, d, v = recs[-1]
    ls.append(line([y, m + 1, 1, v], style))
    return ls, "month appended without carrying into the next year" if m == 12 else "record appended"


def run_script(text, run, res, path):
    """-> (ok, detail, bytes that reached the output)"""
    data = run["data"].encode("latin-1")
    raw = RawOut(run.get("wchunks"), run.get("wfail"), res)
    out = io.TextIOWrapper(io.BufferedWriter(raw), encoding="utf-8", write_through=False)
    state = {"open": 0}

    def source():
        state["open"] += 1
        if "open" in run:
            res.count("open fails")
            raise OSError(run["open"], os.strerror(run["open"]))
        return RawIn(data, run.get("rchunks"), run.get("rfail"), res)

    def sim_open(file, mode="r", *a, **k):
        if isinstance(file, (str, os.PathLike)) and os.fspath(file) == path:
            b = io.BufferedReader(source())
            if "b" in mode:
                return b
            enc = k.get("encoding") or (a[1] if len(a) > 1 else None) or "utf-8"
            return io.TextIOWrapper(b, encoding=enc, errors=k.get("errors") or (a[2] if len(a) > 2 else None), newline=k.get("newline") or (a[3] if len(a) > 3 else None))
        return real_open(file, mode, *a, **k)

    def sim_urlopen(url, *a, **k):
        try:
            b = io.BufferedReader(source())
        except OSError as e:
            raise urllib.error.URLError(e)
        return urllib.response.addinfourl(b, {}, url if isinstance(url, str) else getattr(url, "full_url", ""))
    real_open, real_io_open, real_url = builtins.open, io.open, urllib.request.urlopen
    std, argv = (sys.stdout, sys.stderr), sys.argv
    builtins.open = io.open = sim_open
    urllib.request.urlopen = sim_urlopen
    sys.stdout, sys.stderr = out, io.StringIO()
    sys.argv = ["get_delta_t"] + ([path] if run["src"] == "file" else [])
    ok, detail = True, ""
    try:
        try:
            with H.Alarm(20):
                exec(compile(text, "get_delta_t", "exec", dont_inherit=True), {"__name__": "__main__", "__builtins__": builtins})
        except SystemExit as e:
            ok, detail = e.code in (None, 0), "exit %r" % (e.code,)
        except BaseException as e:
            ok, detail = False, "%s: %s" % (type(e).__name__, str(e)[:120])
        if ok:
            # what the interpreter does at exit
            try:
                sys.stdout.flush()
            except BaseException as e:
                ok, detail = False, "at exit: %s" % e
    finally:
        builtins.open, io.open, urllib.request.urlopen = real_open, real_io_open, real_url
        sys.stdout, sys.stderr = std
        sys.argv = argv
        final = bytes(raw.out)
        raw.fail = raw.chunks = None
        raw.write = lambda b: len(bytes(b))
        try:
            out.detach().detach()
        except Exception:
            pass
    return ok, detail, final, raw.failed, state["open"]


def execute(plan, ctx):
    res = H.Result()
    src = os.path.join(ctx.source.repo, "util", "get_delta_t")
    with open(src, "rb") as f:
        text = f.read()
    scratch = tempfile.mkdtemp(prefix="sim-c13-")
    path = os.path.join(scratch, "deltat.data")
    try:
        for k, run in enumerate(plan["runs"]):
            with open(path, "wb") as f:
                f.write(run["data"].encode("latin-1"))
            for w in run["what"]:
                res.count("data: " + w)
            failed0 = res.fired.get("read error", 0)
            ok, detail, out, wfailed, opened = run_script(text, run, res, path)
            rfailed = res.fired.get("read error", 0) > failed0
            recs = parse(run["data"].encode("latin-1"))
            res.ops += 1
            res.checks += 1
            res.log(run, ok, out.hex())
            how = "run %d on %s data (%s)" % (k, run["src"], ", ".join(run["what"]) or "well-formed")
            if ok:
                if "open" in run or rfailed or wfailed:
                    res.bad("swallowed", "%s: an error of the %s did not surface; the script ended successfully" % (how, "output" if wfailed else "input"))
                    return res
                if recs is None:
                    res.bad("accepted", "%s: the received data are not a gapless table of numbers, but the script ended successfully: %r" % (how, excerpt(run)))
                    return res
                if recs and not install(ctx, out, recs, res, how):
                    return res
            elif recs and not ("open" in run or run.get("rfail") or run.get("wfail")) and strict(run["data"]):
                res.bad("failed", "%s: well-formed data without any error, but the script failed with %s" % (how, detail))
                return res
            res.nontrivial = res.nontrivial or len(recs or ()) >= 3 or bool(run["what"])
    finally:
        os.unlink(path)
        os.rmdir(scratch)
        loader.purge()
    return res


LINE = re.compile(r"[ \t]*[0-9]{4}[ \t]+[0-9]{1,2}[ \t]+[0-9]{1,2}[ \t]+[0-9]+(\.[0-9]+)?[ \t]*\Z")


def strict(data):
    return all(LINE.match(x) or not x.strip(" \t") for x in data.replace("\r\n", "\n").split("\n")) and "\r" not in data.replace("\r\n", "\n")


def excerpt(run):
    d = run["data"]
    return d if len(d) < 300 else d[:150] + " ... " + d[-120:]


def install(ctx, out, recs, res, how):
    pkg = ctx.fresh("math")
    ns = pkg.solartime.__dict__
    try:
        exec(compile(out, "table", "exec", dont_inherit=True), ns)
    except Exception as e:
        res.bad("output", "%s: the output is not a usable Python fragment (%s: %s)" % (how, type(e).__name__, e))
        return False
    step = max(1, len(recs) // 60)
    for j, (y, m, v) in enumerate(recs):
        if not 1 <= y <= 9999 or (j % step and j < len(recs) - 14 and j > 14):
            continue
        g = H.outcome(lambda: pkg.solartime.get_delta_t(D.datetime(y, m, 15, tzinfo=D.timezone.utc)))
        res.checks += 1
        if g[0] != "ok" or not isinstance(g[1], list) or g[1][0] != "n" or not abs(float.fromhex(g[1][1]) - v) <= 0.5001e-4 * max(1, 1e-11 * abs(v)):
            res.bad("value", "%s: %d-%02d was received as %r, with the new table get_delta_t gives %s" % (how, y, m, v, V.short(g)))
            return False
    return True


def shrink(plan):
    for c in H.drop_chunks(plan["runs"]):
        if c:
            yield dict(plan, runs=c)
    for k, r in enumerate(plan["runs"]):
        def put(x):
            return dict(plan, runs=plan["runs"][:k] + [x] + plan["runs"][k + 1:])
        for f in ("rchunks", "wchunks", "rfail", "wfail", "open"):
            if f in r:
                yield put({a: b for a, b in r.items() if a != f})
        ls = r["data"].split("\n")
        for c in H.drop_chunks(ls):
            yield put(dict(r, data="\n".join(c)))
        # fewer records from the front or the back keeps the table gapless
