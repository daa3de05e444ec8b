"""Functions of (x, y) described by data, so that the specification can evaluate them too."""
from fractions import Fraction
import numpy as np
from common import num, hx


def match(d):
    """polynomial forcing for which d["u"] solves the equation d["eq"] with parameters d["p"]"""
    u = [(int(i), int(j), Fraction(v)) for i, j, v in d["u"]["c"]]
    p = {k: Fraction(v) for k, v in d["p"].items()}
    dx = lambda c: [(i - 1, j, i * v) for i, j, v in c if i > 0]
    dy = lambda c: [(i, j - 1, j * v) for i, j, v in c if j > 0]
    sc = lambda k, c: [(i, j, k * v) for i, j, v in c]
    lap = dx(dx(u)) + dy(dy(u))
    if d["eq"] == "helmholtz":
        r = sc(p["eps"], lap) + sc(p["k"] ** 2, u)
    else:
        r = sc(-p["eps"], lap)
        if d["eq"] == "cd2d":
            r += sc(p["b_x"], dx(u)) + sc(p["b_y"], dy(u)) + sc(p["c"], u)
    tot = {}
    for i, j, v in r:
        tot[i, j] = tot.get((i, j), 0) + v
    return {"kind": "poly", "c": [[i, j, str(v)] for (i, j), v in sorted(tot.items()) if v] or [[0, 0, "0"]]}


def deriv(d, m):
    """derivative of a polynomial description with respect to coordinate m"""
    c = []
    for t in d["c"]:
        e = [int(t[0]), int(t[1])]
        if e[m] > 0:
            v = Fraction(t[2]) * e[m]
            e[m] -= 1
            c.append([e[0], e[1], str(v)])
    return {"kind": "poly", "c": c or [[0, 0, "0"]]}


def place(d, cells):
    """a kink ("rampat") or a narrow strip ("bumpat") through the middle of one of the cells"""
    if d["kind"] not in ("rampat", "bumpat"):
        return d
    q = np.asarray(cells, float)[d["cell"] % len(cells)]
    m = q.mean(axis=0)
    h = max(np.ptp(q[:, 0]), np.ptp(q[:, 1]))
    a, b, c = (num(v) for v in d["abc"])
    s = (4.0 if d["kind"] == "bumpat" else 1.0) / h
    a, b = a * s, b * s
    return {"kind": d["kind"][:-2], "abc": [a, b, c - (a * m[0] + b * m[1])]}


def make(d):
    """callable for arrays and scalars"""
    k = d["kind"]
    if k == "poly":
        terms = [(int(t[0]), int(t[1]), num(t[2])) for t in d["c"]]

        def f(x, y):
            s = 0.0 * x + 0.0 * y
            for i, j, c in terms:
                s = s + c * x ** i * y ** j
            return s
        return f
    a, b, c = (num(v) for v in d["abc"])
    if k == "abs":
        return lambda x, y: np.abs(a * x + b * y + c)
    if k == "ramp":
        return lambda x, y: np.maximum(0.0, a * x + b * y + c)
    if k == "bump":
        return lambda x, y: np.maximum(0.0, 1.0 - (a * x + b * y + c) ** 2)
    if k == "top":       # of a single point only
        return lambda x, y: float(np.max([a * x, b * y, c + 0.0 * x]))
    if k == "step":
        return lambda x, y: np.where(a * x + b * y + c >= 0, 1.0, -2.0) + 0.0 * x
    if k == "sin":
        return lambda x, y: np.sin(a * x + b * y + c)
    raise KeyError(k)


def desc(d):
    """the description with the exact coefficients that were used"""
    if d["kind"] == "poly":
        return {"kind": "poly", "c": [{"i": int(t[0]), "j": int(t[1]), "v": hx(num(t[2]))} for t in d["c"]]}
    return {"kind": d["kind"], "abc": [hx(num(v)) for v in d["abc"]]}
