"""Determinism of the simulator itself: the same runs (seeds) executed by other numbers of workers, in other processes and under another
string-hash seed must give the identical event logs.  python tools/selftest.py [seed] [C01 ...]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
os.chdir(sys.path[0])
from sim import harness as H
N = {"C18": 16}
seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
bad = 0
for pid in sys.argv[2:] or ["C%02d" % i for i in list(range(1, 23)) + [26, 28, 29, 30]]:
    n = N.get(pid, 200)
    base = None
    for nw, hs in ((8, "0"), (3, "0"), (5, "12345")):
        rc, r = H.main(pid, "quick", seed, nw=nw, total=n, digests=True, quiet=True, hashseed=hs)
        d = [tuple(x) for x in r["digests"]]
        if rc or r["error"] or len(d) != n:
            print(pid, "rc", rc, "digests", len(d), r["error"]); bad += 1
        if base is None:
            base = d
        elif d != base:
            diff = [a for a, b in zip(base, d) if a != b]
            print("%s: %d of %d runs differ with %d workers, hash seed %s; first %r" % (pid, len(diff), n, nw, hs, diff[:2])); bad += 1
    print("%s: %d runs identical in 3 executions" % (pid, n) if base else pid, flush=True)
sys.exit(bad > 0)
