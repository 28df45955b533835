"""Helpers for demonstrations: stop a call at one of its source lines and let something else happen there."""
import os, sys, threading
sys.path.insert(0, os.getcwd())
PKG = os.path.join(os.getcwd(), "pysolar") + os.sep


def fresh():
    for m in [m for m in sys.modules if m.split(".")[0] == "pysolar"]:
        del sys.modules[m]
    import pysolar
    return pysolar


def outcome(f):
    try:
        return repr(f())
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def at_line(f, k, what):
    """Runs f; just before its k-th pysolar source line, what() runs. Returns the number of lines."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                what()
                sys.settrace(glob)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        f()
    finally:
        sys.settrace(old)
    return n[0]


def in_thread(f, seconds=10):
    t = threading.Thread(target=f, daemon=True)
    t.start()
    t.join(seconds)
    return not t.is_alive()


def stop():
    raise KeyboardInterrupt
