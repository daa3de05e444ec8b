"""Data-layer operations: Dirichlet data, handlers, sensors, parameter dictionaries."""
import os
import numpy as np
import tensorflow as tf
from common import op, num, hx, arr, shape, Call
import fn, fe, geo
from fastvpinns.data.datahandler2d import DataHandler2D


def dt(t):
    return t.dtype.name if hasattr(t, "dtype") and hasattr(t.dtype, "name") else str(getattr(t, "dtype", type(t).__name__))


def seq(a):
    """like arr, but total for empty arrays of any rank"""
    a = np.asarray(a)
    return [] if a.size == 0 else arr(a)


@op("data.dirichlet")
def dirichlet(c, o, ev):
    s = c.o[o["obj"]]
    ev.update(obj=o["obj"], comp=max(o["comp"], 0))
    with Call(ev):
        x, y = s.generate_dirichlet_boundary_data() if o["comp"] < 0 else s.generate_dirichlet_boundary_data_vector(o["comp"])
        ev["pts"] = seq(np.array(x)); ev["vals"] = [hx(np.asarray(v).reshape(-1)[0]) for v in y]
        if any(np.size(v) != 1 for v in y):
            ev["vals"] = []
        if o.get("scribble"):
            for v in list(x) + list(y):
                v[...] = -5.5


@op("data.tables")
def tables(c, o, ev):
    s = c.o[o["obj"]]
    ev["obj"] = o["obj"]
    with Call(ev):
        ev["cells"] = [{"pts": arr(s.get_quadrature_actual_coordinates(i)), "val": arr(s.get_shape_function_val(i)),
                        "gx": arr(s.get_shape_function_grad_x(i)), "gy": arr(s.get_shape_function_grad_y(i)),
                        "force": arr(s.get_forcing_function_values(i))} for i in range(s.n_cells)]


class Dom:
    def __init__(self, pts):
        self.pts = pts

    def get_test_points(self):
        return self.pts


BADTYPES = {"float64 string": "float64", "np.float64": np.float64, "None": None, "32": 32, "float": float, "tf.float32 string": "tf.float32",
            "np.dtype": np.dtype("float32"), "tuple": (tf.float32,), "empty": ""}


@op("data.handler")
def handler(c, o, ev):
    valid = o["dtype"] in ("float32", "float64")
    ev.update(obj=o["obj"], space=o["space"], dtype=o["dtype"], valid=valid)
    dom = c.o[o["dom"]] if "dom" in o else Dom(np.array([[num(v) for v in p] for p in o["testpts"]]))
    ev["testpts"] = "dom" if "dom" in o else "stub"
    t = {"float32": tf.float32, "float64": tf.float64}[o["dtype"]] if valid else BADTYPES[o["dtype"]]
    with Call(ev):
        c.o[o["obj"]] = DataHandler2D(c.o[o["space"]], dom, t)
        c.o[o["obj"] + ".dom"] = dom
    if valid:
        return ev["ok"]


@op("data.tensors")
def tensors(c, o, ev):
    h = c.o[o["obj"]]
    ev["obj"] = o["obj"]
    with Call(ev):
        ts = [h.x_pde_list, h.shape_val_mat_list, h.grad_x_mat_list, h.grad_y_mat_list, h.forcing_function_list]
        ev["dt"] = [dt(t) for t in ts]; ev["sh"] = [shape(t) for t in ts]
        ev["x"], ev["v"], ev["gx"], ev["gy"], ev["f"] = (arr(np.asarray(t)) for t in ts)


@op("data.testpts")
def testpts(c, o, ev):
    h = c.o[o["obj"]]
    ev["obj"] = o["obj"]
    ev["domain"] = seq(c.o[o["obj"] + ".dom"].get_test_points())
    with Call(ev):
        t = h.get_test_points()
        ev["dt"] = dt(t); ev["pts"] = seq(t)


@op("data.newtest")
def newtest(c, o, ev):
    """the domain gets other test points after the handler was built"""
    ev["obj"] = o["obj"]
    with Call(ev):
        c.o[o["obj"] + ".dom"].pts = np.array([[num(v) for v in p] for p in o["testpts"]])


@op("data.hdirichlet")
def hdirichlet(c, o, ev):
    h = c.o[o["obj"]]
    ev["obj"] = o["obj"]
    with Call(ev):
        x, y = h.get_dirichlet_input()
        ev.update(dtp=dt(x), dtv=dt(y), shp=shape(x), shv=shape(y), pts=seq(x), vals=seq(y))


def csv(c, o):
    """table file: columns x, y, value, extras; returns rows as written"""
    p = c.path("tab", o["file"])
    rows = [[float("nan") if v == "" else num(v) for v in r] for r in o["rows"]]
    if not os.path.exists(p) or o.get("rewrite"):
        with open(p, "w") as f:
            f.write(",".join(o["header"]) + "\n")
            for i, r in enumerate(rows):
                f.write(",".join([("" if v != v else str(int(v)) if o["int"][m] else repr(v)) for m, v in enumerate(r)] + [repr(7.5 * i - 3)] * (len(o["header"]) - 3)) + "\n")
    return p, rows


def sensor_args(c, o, ev):
    f = fn.make(o["f"])
    ev.update(kind=o["kind"], f=fn.desc(o["f"]), n=o["n"], rows=[], space=o["space"])
    if o["kind"] == "external":
        p, rows = csv(c, o)
        ev["rows"] = arr(rows)
        return f, p
    return f, None


@op("data.sensor")
def sensor(c, o, ev):
    s = c.o[o["space"]]
    f, p = sensor_args(c, o, ev)
    with Call(ev):
        pts, vals = s.get_sensor_data(f, o["n"]) if p is None else s.get_sensor_data_external(f, o["n"], p)
        ev.update(pts=seq(pts), vals=seq(np.asarray(vals).reshape(-1)))


@op("data.hsensor")
def hsensor(c, o, ev):
    h = c.o[o["obj"]]
    ev["obj"] = o["obj"]
    f, p = sensor_args(c, o, ev)
    with Call(ev):
        pts, vals = h.get_sensor_data(f, o["n"], o["kind"], p) if p is not None or o.get("named") else h.get_sensor_data(f, o["n"], o["kind"])
        ev.update(dtp=dt(pts), dtv=dt(vals), shp=shape(pts), shv=shape(vals), pts=seq(pts), vals=seq(vals))


KIND = {"float": num, "int": lambda v: int(num(v)), "list": lambda v: [num(x) for x in v], "npf32": lambda v: np.float32(num(v)),
        "np0": lambda v: np.array(num(v)), "np1": lambda v: np.array([num(x) for x in v]), "npint": lambda v: np.array([int(num(x)) for x in v]),
        "np2": lambda v: np.array([[num(x) for x in r] for r in v]), "tuple": lambda v: tuple(num(x) for x in v)}


class UserFn:
    """the user's parameter function; the i-th call returns the i-th dictionary (fresh, or one shared object that is updated)"""

    def __init__(self, mode, dicts):
        self.mode, self.dicts, self.n, self.d = mode, dicts, 0, None
        self.log = []

    def __call__(self):
        new = {e[0]: KIND[e[1]](e[2]) for e in self.dicts[self.n % len(self.dicts)]}
        if self.mode == "const" and self.d is not None:
            new = self.d
        elif self.mode == "shared":
            if self.d is None:
                self.d = new
            else:
                self.d.update(new)
            new = self.d
        if self.mode == "const":
            self.d = new
        self.n += 1
        self.log.append(snap(new))
        self.last = new
        return new


def snap(d):
    return [{"key": str(k), "kind": type(v).__name__, "sh": shape(v), "v": arr(v)} for k, v in sorted(d.items())]


def result(r):
    return [{"key": str(k), "dt": dt(v), "sh": shape(v), "v": arr(np.asarray(v))} for k, v in sorted(r.items())]


@op("data.userfn")
def userfn(c, o, ev):
    with Call(ev):
        c.o["fn." + o["name"]] = UserFn(o["mode"], o["dicts"])


@op("data.params")
def params(c, o, ev):
    h = c.o[o["obj"]]
    u = c.o["fn." + o["src"]]
    n0 = len(u.log)
    ev.update(obj=o["obj"], which=o["which"], res_id=o["res"])
    with Call(ev):
        r = (h.get_bilinear_params_dict_as_tensors if o["which"] == "bilinear" else h.get_inverse_params)(u)
        c.o["res." + o["res"]] = r
        ev.update(res=result(r), calls=len(u.log) - n0, given=u.log[-1], userafter=snap(u.last))


@op("data.recheck")
def recheck(c, o, ev):
    ev.update(obj=o["obj"], res_id=o["res"])
    with Call(ev):
        ev["res"] = result(c.o["res." + o["res"]])
