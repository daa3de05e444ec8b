"""Replays scenarios (generated by TLC from the Gen* specifications) against the real
fastvpinns code and records what it observably does as an ndjson trace."""
import contextlib, io, json, math, os, shutil, signal, sys, tempfile
from fractions import Fraction

import numpy as np

OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


def num(x):
    """scenario number (int, 'n/d', decimal string) -> nearest float"""
    if isinstance(x, (int, float)):
        return float(x)
    return float(Fraction(x))


def hx(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return x.hex()


def arr(a):
    """(nested) array -> nested lists of exact hexadecimal floats"""
    a = np.asarray(a)
    if a.dtype == object:
        a = a.astype(np.float64)
    if a.ndim == 0:
        return hx(a)
    if a.ndim == 1:
        return [hx(v) for v in a.tolist()]
    return [arr(v) for v in a]


def ints(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return int(a)
    return [ints(v) for v in a]


def shape(a):
    return [int(s) for s in np.shape(a)]


class NotReturning(Exception):
    """a call that takes minutes where seconds are usual"""


def _alarm(*a):
    raise NotReturning("the call does not return")


signal.signal(signal.SIGALRM, _alarm)


class Ctx:
    """one scenario's objects and scratch folder"""

    def __init__(self, root, sid):
        self.dir = os.path.join(root, "s%s" % sid)
        os.makedirs(self.dir)
        self.o = {}

    def path(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q


class Call:
    """runs real code; records success or the exception's class"""

    def __init__(self, ev):
        self.ev = ev

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.ev["ok"] = True
            self.ev["exc"] = ""
            return False
        if issubclass(t, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        self.ev["ok"] = False
        self.ev["exc"] = t.__name__
        self.ev["msg"] = str(v)[:200]
        return True


def run_scenario(sc, root, out):
    np.random.seed(int(sc.get("seed", 0)) % (2 ** 32))
    if "tensorflow" in sys.modules:
        sys.modules["tensorflow"].random.set_seed(int(sc.get("seed", 0)) % (2 ** 31))
    ctx = Ctx(root, sc["id"])
    cwd = os.getcwd()
    os.chdir(ctx.dir)
    evs = [{"op": "start", "sid": sc["id"]}]
    try:
        for o in sc["ops"]:
            ev = {"op": o["op"], "sid": sc["id"]}
            sink = io.StringIO()
            f = OPS[o["op"]]
            signal.alarm(240)
            with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
                try:
                    r = f(ctx, o, ev)
                    json.dumps(ev)
                except Exception as e:      # a result the driver cannot even record
                    if os.environ.get("FV_DEBUG"):
                        raise
                    ev = {"op": o["op"], "sid": sc["id"], "ok": False, "exc": type(e).__name__,
                          "msg": ("unrecordable: " + str(e))[:200], "obj": o.get("obj", "")}
                    ev["broken"] = True
                    r = False
                finally:
                    signal.alarm(0)
            if "ok" not in ev:
                raise RuntimeError("driver op %s did not record an outcome" % o["op"])
            evs.append(ev)
            if r is False:      # scenario cannot go on (object was not built)
                break
            if "matplotlib.pyplot" in sys.modules:
                sys.modules["matplotlib.pyplot"].close("all")
    finally:
        os.chdir(cwd)
        shutil.rmtree(ctx.dir, ignore_errors=True)
    for e in evs:
        out.write(json.dumps(e) + "\n")


def main():
    scen, trace = sys.argv[1], sys.argv[2]
    import importlib
    for m in sys.argv[3].split(","):
        importlib.import_module(m)
    root = tempfile.mkdtemp(prefix="fv", dir=os.path.dirname(os.path.abspath(trace)))
    try:
        with open(trace, "w") as out:
            for line in open(scen):
                if line.strip():
                    run_scenario(json.loads(line), root, out)
    finally:
        shutil.rmtree(root, ignore_errors=True)
