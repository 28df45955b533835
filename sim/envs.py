"""The process environment: changes a plan can make to it, and its restoration."""
import decimal, gc, inspect, io, locale, os, random, sys, tempfile, time, warnings
import numpy as np

TZS = ("UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Australia/Lord_Howe", "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "YYY+11:30", "")


class BrokenStream(io.TextIOBase):
    """every write fails with an OSError"""

    def __init__(self, err):
        self.err = err

    def writable(self):
        return True

    def write(self, s):
        raise OSError(self.err, os.strerror(self.err))

    def flush(self):
        raise OSError(self.err, os.strerror(self.err))


class SlowStream(io.StringIO):
    pass


def gen(rng, year_hint=None):
    """one change"""
    r = rng.randrange(13)
    if r <= 2:
        return {"clock": rng.choice((0, 10 ** 9, -10 ** 9, 86400 * 10 ** 9, 4102444800 * 10 ** 9, 1782864000 * 10 ** 9, 1798761600 * 10 ** 9, 1000000000 * 10 ** 9, rng.randint(-10 ** 18, 5 * 10 ** 18)))}
    if r == 3:
        return {"mono": rng.choice((1, 10 ** 9, 3600 * 10 ** 9, 10 ** 15))}
    if r <= 5:
        return {"tz": rng.choice(TZS)}
    if r == 6:
        return {"cwd": rng.choice(("/", "scratch", "gone"))}
    if r == 7:
        return {"locale": rng.choice(("C", "C.UTF-8", "POSIX"))}
    if r == 8:
        return {"warn": rng.choice(("ignore", "default", "always", "once", "module", "reset"))}
    if r == 9:
        return {"seed": rng.randint(0, 99)}
    if r == 10:
        return {"nperr": rng.choice(("ignore", "warn", "print"))}
    if r == 11:
        return {"stream": [rng.choice(("stdout", "stderr", "stdin")), rng.choice(("none", "broken", "full", "memory"))]}
    return {"misc": rng.choice(("environ", "prec", "gc", "trace", "argv", "switchinterval", "printoptions", "limits"))}


def name(e):
    k = next(iter(e))
    return "env: " + {"clock": "wall clock jumps", "mono": "monotonic clock jumps", "tz": "TZ changes", "cwd": "working directory changes", "locale": "locale set", "warn": "warning filters change",
                      "seed": "random state set", "nperr": "numpy error settings change", "stream": "standard stream replaced", "misc": "other process state changes"}[k]


class Environment:
    """with Environment(ctx) as e: e.apply({...}); everything is put back at the end."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.cwd = os.getcwd()
        self.env = dict(os.environ)
        self.filters = warnings.filters[:]
        self.std = (sys.stdin, sys.stdout, sys.stderr)
        self.argv = sys.argv[:]
        self.err = np.geterr()
        self.prec = decimal.getcontext().prec
        self.si = sys.getswitchinterval()
        self.limits = sys.getrecursionlimit(), sys.get_int_max_str_digits()
        self.print = np.get_printoptions()
        self.dir = None
        self.ctx.clock.mono(10 ** 12)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        self.ctx.clock.mono_off()
        self.ctx.clock.set(__import__("sim.harness", fromlist=["x"]).WALL0)
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.env)
        time.tzset()
        warnings.filters[:] = self.filters
        warnings._filters_mutated()
        sys.stdin, sys.stdout, sys.stderr = self.std
        sys.argv[:] = self.argv
        np.seterr(**self.err)
        decimal.getcontext().prec = self.prec
        sys.setswitchinterval(self.si)
        sys.setrecursionlimit(self.limits[0])
        sys.set_int_max_str_digits(self.limits[1])
        np.set_printoptions(**{k: v for k, v in self.print.items() if k != "override_repr"})
        sys.settrace(None)
        locale.setlocale(locale.LC_ALL, "C.UTF-8")
        if self.dir:
            os.rmdir(self.dir)

    def apply(self, e):
        (k, v), = e.items()
        if k == "clock":
            self.ctx.clock.set(v)
        elif k == "mono":
            self.ctx.clock.mono_add(v)
        elif k == "tz":
            os.environ["TZ"] = v
            time.tzset()
        elif k == "cwd":
            if v == "/":
                os.chdir("/")
            else:
                if self.dir is None:
                    self.dir = tempfile.mkdtemp(prefix="sim-env-")
                if v == "scratch":
                    os.chdir(self.dir)
                else:
                    d = os.path.join(self.dir, "gone")
                    os.mkdir(d)
                    os.chdir(d)
                    os.rmdir(d)
        elif k == "locale":
            locale.setlocale(locale.LC_ALL, v)
        elif k == "warn":
            if v == "reset":
                warnings.resetwarnings()
            else:
                warnings.simplefilter(v)
        elif k == "seed":
            random.seed(v)
            np.random.seed(v)
        elif k == "nperr":
            np.seterr(all=v)
        elif k == "stream":
            which, how = v
            setattr(sys, which, {"none": None, "broken": BrokenStream(5), "full": BrokenStream(28), "memory": io.StringIO()}[how])
        elif k == "misc":
            if v == "environ":
                for n in list(os.environ):
                    if n not in ("TZ", "LD_PRELOAD"):
                        del os.environ[n]
                os.environ.update(PYSOLAR="1", LANG="de_DE.UTF-8", HOME="/nonexistent", DEBUG="1")
            elif v == "prec":
                decimal.getcontext().prec = 3
            elif v == "gc":
                gc.collect()
            elif v == "argv":
                sys.argv[:] = ["prog", "--x"]
            elif v == "switchinterval":
                sys.setswitchinterval(0.001)
            elif v == "printoptions":
                np.set_printoptions(precision=2, threshold=3, suppress=True)
            elif v == "limits":
                sys.setrecursionlimit(700 + len(inspect.stack(0)))
                sys.set_int_max_str_digits(640)
            elif v == "trace":
                sys.settrace(None)
        else:
            raise ValueError(e)
