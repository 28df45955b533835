"""Development tool: turns a bug specification into seeded/<id>/ after confirming it, and runs checks against it.

  plant.py make SPEC.py [id ...]    scratch copy of /repo's HEAD, edit, 90 tests, demo passes without / fails with the change
  plant.py run [id ...]             the property's check (and any named after a colon: id:C01,C02) against each seeded bug
SPEC.py defines BUGS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new), ...], demo=python source)]."""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
PY = "/opt/venv/bin/python"
SCRATCH = "/tmp/plant/trees"
SH = '#!/bin/sh\n# run in /repo\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tree(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    p = subprocess.Popen(["git", "-C", "/repo", "archive", "HEAD"], stdout=subprocess.PIPE)
    subprocess.run(["tar", "x", "-C", d], stdin=p.stdout, check=True)
    for c in (("init", "-q"), ("config", "core.autocrlf", "false"), ("add", "-A", "-f"), ("-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "base")):
        sh("git", "-C", d, *c)
    return d


def edit(path, old, new):
    s = open(path, newline="").read()
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    if s.count(old) != 1:
        raise SystemExit("%s: %d occurrences of %r" % (path, s.count(old), old[:80]))
    open(path, "w", newline="").write(s.replace(old, new))


def tests(d):
    x = os.path.join(d, "..", os.path.basename(d) + ".xml")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    r = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=300", "--junitxml=" + x, cwd=d, env=env)
    t = ET.parse(x).getroot()
    t = t if t.tag == "testsuite" else t[0]
    os.remove(x)
    n = [int(t.get(k)) for k in ("tests", "failures", "errors", "skipped")]
    return n[0] - sum(n[1:]), r.stdout[-1500:]


def demo(sd, d):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    try:
        r = sh("sh", os.path.join(sd, "demo.sh"), cwd=d, env=env, timeout=250)
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    return r.returncode, (r.stdout + r.stderr)[-600:]


def make(spec, ids):
    g = {}
    exec(compile(open(spec).read(), spec, "exec"), g)
    lib = open("/verif/tools/demolib.py").read()
    for b in g["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = tree(b["id"])
        sd = os.path.join(SCRATCH, b["id"] + ".seed")
        shutil.rmtree(sd, ignore_errors=True)
        os.makedirs(sd)
        open(sd + "/demo.sh", "w").write(SH)
        os.chmod(sd + "/demo.sh", 0o755)
        open(sd + "/demo.py", "w").write(b["demo"])
        if "demolib" in b["demo"]:
            open(sd + "/demolib.py", "w").write(lib)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(sd + "/meta.json", "w"), indent=1)
        a, out0 = demo(sd, d)
        for f, old, new in b["edits"]:
            edit(os.path.join(d, f), old, new)
        open(sd + "/patch.diff", "w", newline="").write(subprocess.run(["git", "-C", d, "diff"], capture_output=True).stdout.decode())
        c, out1 = demo(sd, d)
        n, tout = tests(d)
        r = sh("git", "-C", "/repo", "apply", "--check", sd + "/patch.diff")
        ok = a == 0 and c != 0 and n == 90 and r.returncode == 0
        print("%-28s %s  clean=%d patched=%d tests=%d apply=%d" % (b["id"], "OK " if ok else "BAD", a, c, n, r.returncode), flush=True)
        if ok:
            fin = os.path.join(ROOT, "seeded", b["id"])
            shutil.rmtree(fin, ignore_errors=True)
            shutil.copytree(sd, fin)
            if "-v" in sys.argv:
                print("   ", out1.strip().splitlines()[-1:] )
        else:
            print(out0, "\n---", out1, "\n---", tout if n != 90 else "", r.stderr)
        shutil.rmtree(d)
        shutil.rmtree(sd)


def run(ids):
    for x in ids or sorted(os.listdir(ROOT + "/seeded")):
        i, _, props = x.partition(":")
        sd = os.path.join(ROOT, "seeded", i)
        d = tree(i)
        r = sh("git", "-C", d, "apply", sd + "/patch.diff")
        if r.returncode:
            print(i, "does not apply", r.stderr)
            continue
        for p in props.split(",") if props else [json.load(open(sd + "/meta.json"))["property"]]:
            t = sh("bash", ROOT + "/check", p, env=dict(os.environ, SIM_REPO=d), timeout=1500)
            lines = t.stdout.strip().splitlines()
            what = next((l for l in lines if not l.startswith(("C", "run", "VIOL"))), "")
            print("%-28s %s rc=%d %s %s" % (i, p, t.returncode, what[:170], t.stderr.strip()[-300:] if t.returncode == 2 else ""), flush=True)
            info = next((l for l in lines if l.startswith("run ")), "")
            if info:
                print("        " + info[:150], "|", lines[-1].split(";")[0][:90])
        shutil.rmtree(d)


{"make": lambda a: make(a[0], [x for x in a[1:] if x != "-v"]), "run": run}[sys.argv[1]](sys.argv[2:])
