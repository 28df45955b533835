"""Instantiates the pysolar package from /repo's working tree, as often as wanted.

Code objects are compiled once per worker, straight from the source text (no .pyc is read or written), so all
instances share them; an instance is a new set of module objects, i.e. an interpreter restart as far as
pysolar is concerned (it keeps nothing on disk)."""
import dis, importlib.abc, importlib.util, os, sys, threading, types

REPO = os.environ.get("SIM_REPO", "/repo")
SUBMODULES = ("constants", "numeric", "tzinfo_check", "solartime", "radiation", "solar", "util", "simulate", "elevation", "rest")
TOOL = 3
E = sys.monitoring.events


class Source:
    """The compiled package."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "pysolar")
        self.mods = {}          # dotted name -> (path, code, is_pkg)
        self.codes = {}         # id(code) -> code, every function body
        self.allowed = {}       # id(code) -> (interrupt offsets, allocation offsets)
        self.hot = {}           # id(code) -> offsets right after an access to state that outlives the call
        self.numbers = {}       # "module.function" -> the numbers its code mentions (a dictionary for input generation)
        for d, dirs, fs in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                with open(path, "rb") as s:
                    code = compile(s.read(), path, "exec", dont_inherit=True)
                self.mods[".".join(rel)] = (path, code, is_pkg)
                self._collect(code)
                for c in code.co_consts:
                    if isinstance(c, types.CodeType):
                        self.numbers["%s.%s" % (rel[-1], c.co_name)] = sorted(numbers(c))

    def _collect(self, code):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                self.codes[id(c)] = c
                self._collect(c)

    def instrument(self):
        m = sys.monitoring
        if m.get_tool(TOOL) is None:
            m.use_tool_id(TOOL, "sim")
        for i, c in self.codes.items():
            m.set_local_events(TOOL, c, E.INSTRUCTION)
            self.allowed[i] = fault_points(c)
        shared = set()
        for c in self.codes.values():
            shared |= {x.argval for x in dis.get_instructions(c) if x.opname in ("STORE_GLOBAL", "DELETE_GLOBAL")}
        for _, c, _ in self.mods.values():
            shared |= containers(c) - {x.co_name for x in self.codes.values()}
        for i, c in self.codes.items():
            self.hot[i] = hot_points(c, shared)


def numbers(code):
    out = set()
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out |= numbers(c)
        elif isinstance(c, (int, float)) and not isinstance(c, bool) and abs(c) < 1e7:
            out.add(c)
    return out


def fault_points(code):
    """(offsets where a signal can surface, offsets where an allocation can fail).

    CPython looks at pending signals on function entry, on backward jumps and at the end of a call. An
    instruction after a call is only used when the same exception handler covers both, so that raising there
    is the same as raising at the end of the call."""
    table = dis._parse_exception_table(code)

    def handler(off):
        h = None
        for e in table:
            if e.start <= off < e.end:
                h = (e.target, e.depth, e.lasti)
        return h
    intr, alloc = set(), set()
    ins = [i for i in dis.get_instructions(code)]
    gen = bool(code.co_flags & 0x2A0)
    for i, x in enumerate(ins):
        op = x.opname
        nxt = ins[i + 1] if i + 1 < len(ins) else None
        if op in ("CALL", "CALL_FUNCTION_EX", "RESUME") and nxt is not None and handler(x.offset) == handler(nxt.offset):
            if not (op == "RESUME" and gen and x.arg == 0):
                intr.add(nxt.offset)
        if op.startswith("JUMP_BACKWARD") and "NO_INTERRUPT" not in op:
            intr.add(x.offset)
        if op in ("CALL", "CALL_FUNCTION_EX", "BINARY_OP", "BUILD_LIST", "BUILD_TUPLE", "BUILD_MAP", "BUILD_CONST_KEY_MAP",
                  "FORMAT_VALUE", "STORE_SUBSCR", "LIST_APPEND", "MAP_ADD", "BINARY_SUBSCR", "MAKE_FUNCTION", "STORE_GLOBAL"):
            if x.positions is None or x.positions.lineno is not None:
                alloc.add(x.offset)
    # a with block's normal exit (three Nones, CALL 2) cannot be told from any other call by name only; a failing
    # allocation there would be an artefact, so drop calls whose arguments are three constant Nones
    for i, x in enumerate(ins):
        if x.opname == "CALL" and i >= 3 and all(ins[i - k].opname == "LOAD_CONST" and ins[i - k].argval is None for k in (1, 2, 3)):
            alloc.discard(x.offset)
    return frozenset(intr), frozenset(alloc)


MUTATORS = {"append", "clear", "update", "pop", "setdefault", "extend", "insert", "remove", "add", "discard", "popitem", "move_to_end",
            "sort", "reverse", "send", "put", "get", "__setitem__", "setattr", "globals", "vars", "acquire", "release"}


def containers(code):
    """Module-level names that start as an empty container or as whatever a call returns: caches, locks, thread-local storage."""
    ins = list(dis.get_instructions(code))
    return {y.argval for x, y in zip(ins, ins[1:]) if y.opname in ("STORE_NAME", "STORE_GLOBAL")
            and (x.opname in ("BUILD_MAP", "BUILD_LIST") and x.arg == 0 or x.opname in ("CALL", "CALL_FUNCTION_EX", "BINARY_OP"))}


def hot_points(code, shared):
    """Offsets following a possible access to shared state. Only a bias for choosing preemption points."""
    out = set()
    ins = list(dis.get_instructions(code))
    for i, x in enumerate(ins[:-1]):
        nxt = ins[i + 1].offset
        if x.opname in ("STORE_GLOBAL", "STORE_SUBSCR", "STORE_ATTR", "DELETE_SUBSCR", "DELETE_ATTR", "DELETE_GLOBAL", "STORE_DEREF", "STORE_SLICE"):
            out.add(nxt)
        elif x.opname == "LOAD_GLOBAL" and x.argval in shared:
            out.add(nxt)
        elif x.opname == "LOAD_ATTR" and x.argval in shared:
            out.add(nxt)
        elif x.opname == "CALL":
            for y in reversed(ins[max(0, i - 12):i]):
                if y.opname in ("LOAD_ATTR", "LOAD_GLOBAL", "LOAD_METHOD"):
                    if y.argval in MUTATORS:
                        out.add(nxt)
                    break
    return frozenset(out)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, source):
        self.source = source

    def find_spec(self, name, path=None, target=None):
        if name != "pysolar" and not name.startswith("pysolar."):
            return None
        m = self.source.mods.get(name)
        if m is None:
            return None
        path, code, is_pkg = m
        spec = importlib.util.spec_from_file_location(name, path, loader=self, submodule_search_locations=[os.path.dirname(path)] if is_pkg else None)
        spec.cached = None
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.source.mods[module.__name__][1], module.__dict__)


class Package:
    """One instance of pysolar (one "interpreter")."""

    def __init__(self, modules):
        self.modules = modules
        self.top = modules["pysolar"]
        for n in SUBMODULES:
            setattr(self, n, modules.get("pysolar." + n))
        self.stime = self.solartime

    def activate(self):
        for n in [n for n in sys.modules if n == "pysolar" or n.startswith("pysolar.")]:
            if n not in self.modules:
                del sys.modules[n]
        sys.modules.update(self.modules)

    def get(self, dotted):
        m, f = dotted.split(".", 1)
        return getattr(self.top if m == "pysolar" else getattr(self, m), f)

    def use(self, backend):
        (self.top.use_numpy if backend == "numpy" else self.top.use_math)()


def purge():
    for n in [n for n in sys.modules if n == "pysolar" or n.startswith("pysolar.")]:
        del sys.modules[n]


_FINDER = None


def install(source):
    global _FINDER
    if _FINDER is not None:
        sys.meta_path.remove(_FINDER)
    _FINDER = _Finder(source)
    sys.meta_path.insert(0, _FINDER)


def fresh(backend=None):
    """A new instance; the caller decides beforehand whether numpy can be imported."""
    purge()
    _IMPORT_MODULE("pysolar")
    for n in SUBMODULES:
        if "pysolar." + n in _FINDER.source.mods:
            _IMPORT_MODULE("pysolar." + n)
    p = Package({n: m for n, m in sys.modules.items() if n == "pysolar" or n.startswith("pysolar.")})
    if backend is not None:
        p.use(backend)
    return p


import numpy as NUMPY
import builtins, importlib
_IMPORT, _IMPORT_MODULE = builtins.__import__, importlib.import_module
_state = {"numpy": True, "exc": None}


def _blocked(name):
    if _state["numpy"] or not (name == "numpy" or str(name).startswith("numpy.")):
        return False
    f = sys._getframe(2)
    return str(f.f_globals.get("__name__", "")).split(".")[0] == "pysolar"


def _why():
    if _state["exc"]:
        return getattr(builtins, _state["exc"])("numpy is broken")
    return ModuleNotFoundError("No module named 'numpy'", name="numpy")


def _import(name, *a, **k):
    if _blocked(name):
        raise _why()
    return _IMPORT(name, *a, **k)


def _import_module(name, package=None):
    if _blocked(name):
        raise _why()
    return _IMPORT_MODULE(name, package)


def numpy_available(yes, exc=None):
    """Makes numpy importable or not for pysolar (numpy itself, once loaded, keeps working, as after an uninstall)."""
    was = _state["numpy"]
    _state["numpy"] = bool(yes)
    _state["exc"] = exc
    builtins.__import__ = _IMPORT if yes else _import
    importlib.import_module = _IMPORT_MODULE if yes else _import_module
    return was
