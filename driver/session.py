"""Whole seeded sessions (mesh to prediction), several of them interleaved in one process or alone in a
process of their own.  Every call is made after seeding; its result must depend on the session's own calls only."""
import hashlib, json, os, subprocess, sys
import numpy as np
import tensorflow as tf
from common import op, num, hx, Call
import fn, geo, fe
from phys import loss_fn
from train import cls, layers
from fastvpinns.Geometry.geometry_2d import Geometry_2D
from fastvpinns.FE.fespace2d import Fespace2D
from fastvpinns.data.datahandler2d import DataHandler2D
from fastvpinns.utils import compute_utils, plot_utils


class Session:
    def __init__(self, folder):
        self.dir = folder
        os.makedirs(folder)
        self.held = {}
        self.got = {}           # of what the last call added: the content at that moment
        self.holds = False
        self.failing, self.left = "", 0

    def tick(self, what):
        """a function of the user that fails once, at some evaluation, when told so"""
        if self.failing == what:
            self.left -= 1
            if self.left == 0:
                self.failing = ""
                raise RuntimeError("the user's %s function fails" % what)

    def make(self, what, desc):
        f = fn.make(desc)

        def g(x, y):
            self.tick(what)
            return f(x, y)
        return g

    def hold(self, name, v):
        """v is an argument or a result that the caller keeps"""
        if self.holds:
            n = "%03d.%s" % (len(self.held), name)
            self.held[n], self.got[n] = v, digest(v)
        return v

    def digests(self):
        return {k: digest(v) for k, v in self.held.items()}


class File(str):
    """a file that the caller wrote"""


def digest(v):
    h = hashlib.sha1()

    def go(v):
        if isinstance(v, File):
            h.update(open(v, "rb").read())
        elif isinstance(v, np.ndarray) or hasattr(v, "numpy"):
            a = v.numpy() if hasattr(v, "numpy") else v
            h.update(b"a%s%s" % (str(a.dtype).encode(), str(a.shape).encode()))
            h.update(np.ascontiguousarray(a).tobytes() if a.dtype != object else repr(a.tolist()).encode())
        elif isinstance(v, dict):
            h.update(b"d%d" % len(v))
            for k in v:
                h.update(repr(k).encode())
                go(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"%s%d" % (type(v).__name__.encode(), len(v)))
            for w in v:
                go(w)
        elif callable(v):
            h.update(b"f%d" % id(v))
        else:
            h.update(repr(v).encode())
    go(v)
    return h.hexdigest()[:16]


def dig(a):
    if isinstance(a, bytes):
        return hashlib.sha1(a).hexdigest()[:16]
    a = np.ascontiguousarray(a.numpy() if hasattr(a, "numpy") else np.asarray(a, dtype=np.float64))
    return "%s%s:%s" % (a.dtype.name, list(a.shape), hashlib.sha1(a.tobytes()).hexdigest()[:16])


def nums(a):
    return [hx(v) for v in np.asarray(a, dtype=np.float64).reshape(-1).tolist()]


def call_mesh(s, c):
    folder = os.path.join(s.dir, "out")
    os.makedirs(folder, exist_ok=True)
    if not c.get("again"):
        s.g = Geometry_2D("quadrilateral", c["src"], c["nt"][0], c["nt"][1], folder)
    if c["src"] == "internal":
        s.cells, s.bd = s.g.generate_quad_mesh_internal(x_limits=s.hold("x", [num(v) for v in c["x"]]), y_limits=s.hold("y", [num(v) for v in c["y"]]), n_cells_x=c["n"][0], n_cells_y=c["n"][1],
                                                        num_boundary_points=c["nb"])
    else:
        p = File(os.path.join(s.dir, "in%d.mesh" % len(s.held)))
        geo.write_mesh(p, c["mesh"])
        s.hold("mesh file", p)
        s.cells, s.bd = s.g.read_mesh(str(p), c["r"], c["method"], refinement_level=1)
    s.hold("cells", s.cells), s.hold("boundary", s.bd)
    return {"cells": dig(s.cells), "tags": json.dumps([int(t) for t in s.bd]), **{"b%d" % i: dig(v) for i, v in enumerate(s.bd.values())}}, {}


def call_testpts(s, c):
    g = s.g
    return {"pts": dig(s.hold("testpts", g.get_test_points())), "nodes": dig(g.mesh.points), "quads": dig(g.mesh.cells_dict["quad"]), "cells": dig(g.cell_points),
            "tags": json.dumps([int(t) for t in g.bd_dict]), **{"b%d" % i: dig(v) for i, v in enumerate(g.bd_dict.values())}}, {}


def call_space(s, c):
    f = s.make("forcing", c["f"])
    fs = [s.make("boundary", d) for d in c["bdf"]]
    bf = {t: (lambda x, y, g=fs[i % len(fs)]: g(x, y)) for i, t in enumerate(s.bd)}
    # the conditions may be given for all, some or none of the tags
    bc = {t: "dirichlet" for i, t in enumerate(s.bd) if (c["order"] + c["qorder"]) % 3 == 0 or (i + c["order"]) % 3 == 0}
    s.hold("bound functions", bf), s.hold("bound conditions", bc)
    s.sp = Fespace2D(mesh=s.g.mesh, cells=s.cells, boundary_points=s.bd, cell_type="quadrilateral", fe_order=c["order"], fe_type=c["type"], quad_order=c["qorder"],
                     quad_type=c["qtype"], fe_transformation_type=c["trans"], bound_function_dict=bf, bound_condition_dict=bc, forcing_function=f,
                     output_path=os.path.join(s.dir, "out"), generate_mesh_plot=False)
    return {"n": str(s.sp.n_cells)}, {}


def call_vspace(s, c):
    """a space whose functions give two components"""
    f, g, b, d = s.make("vector forcing", c["f"]), fn.make(c["g"]), s.make("vector boundary", c["b"]), fn.make(c["d"])
    s.vs = Fespace2D(mesh=s.g.mesh, cells=s.cells, boundary_points=s.bd, cell_type="quadrilateral", fe_order=c["order"], fe_type=c["type"], quad_order=3, quad_type="gauss-legendre", fe_transformation_type="bilinear",
                     bound_function_dict={t: (lambda x, y: (b(x, y), d(x, y))) for t in s.bd}, bound_condition_dict={t: "dirichlet" for t in s.bd}, forcing_function=lambda x, y: (f(x, y) + 0 * x, g(x, y) + 0 * x),
                     output_path=os.path.join(s.dir, "out"), generate_mesh_plot=False)
    return {"n": str(s.vs.n_cells)}, {}


def call_components(s, c):
    q = s.vs
    r = {}
    for k in c["order"]:
        f = [s.hold("forcing %d" % k, q.get_forcing_function_values_vector(i, k)) for i in range(q.n_cells)]
        x, y = s.hold("dirichlet %d" % k, q.generate_dirichlet_boundary_data_vector(k))
        r.update({"f%d" % k: dig(np.concatenate([np.asarray(v).reshape(-1) for v in f])), "x%d" % k: dig(np.array(x)), "y%d" % k: dig(np.array([float(np.asarray(v).reshape(-1)[0]) for v in y]))})
    return r, {}


def call_tables(s, c):
    q = s.sp
    t = {"pts": q.get_quadrature_actual_coordinates, "w": q.get_quadrature_weights, "v": q.get_shape_function_val, "gx": q.get_shape_function_grad_x, "gy": q.get_shape_function_grad_y,
         "rx": q.get_shape_function_grad_x_ref, "ry": q.get_shape_function_grad_y_ref, "f": q.get_forcing_function_values}
    return {k: dig(np.concatenate([np.asarray(s.hold(k, g(i)), dtype=np.float64).reshape(-1) for i in range(q.n_cells)])) for k, g in t.items()}, {}


def call_dirichlet(s, c):
    x, y = s.hold("dirichlet", s.sp.generate_dirichlet_boundary_data())
    return {"x": dig(np.array(x)), "y": dig(np.array([float(np.asarray(v).reshape(-1)[0]) for v in y]))}, {}


def call_sensor(s, c):
    p, v = s.hold("sensor", s.sp.get_sensor_data(fn.make(c["u"]), c["n"]))
    return {"p": dig(p), "v": dig(np.asarray(v).reshape(-1))}, {}


def call_filesensor(s, c):
    p = File(os.path.join(s.dir, "sol%d.csv" % len(s.held)))
    r = np.random.RandomState(c["rows"])
    with open(p, "w") as f:
        f.write("x,y,u\n" + "".join("%r,%r,%r\n" % tuple(v) for v in r.standard_normal((c["rows"] % 40 + 9, 3)).tolist()))
    s.hold("table file", p)
    p, v = s.h.get_sensor_data(fn.make(c["u"]), c["n"], "external", str(p))
    s.hold("sensors", [p, v])
    return {"p": dig(p), "v": dig(v)}, {}


def call_handler(s, c):
    s.dt = {"float32": tf.float32, "float64": tf.float64}[c["dtype"]]
    s.h = DataHandler2D(s.sp, s.g, s.dt)
    h = s.h
    s.bx, s.by = h.get_dirichlet_input()
    s.hold("tensors", [h.x_pde_list, h.shape_val_mat_list, h.grad_x_mat_list, h.grad_y_mat_list, h.forcing_function_list, s.bx, s.by])
    return {"x": dig(h.x_pde_list), "v": dig(h.shape_val_mat_list), "gx": dig(h.grad_x_mat_list), "gy": dig(h.grad_y_mat_list), "f": dig(h.forcing_function_list),
            "bx": dig(s.bx), "by": dig(s.by), "t": dig(h.get_test_points())}, {}


def call_params(s, c):
    given, ginv = s.hold("given", {k: num(v) for k, v in c["p"].items()}), s.hold("given inverse", {"eps": num(c["inv"])})
    s.p = s.hold("params", s.h.get_bilinear_params_dict_as_tensors(lambda: given))
    s.inv = s.hold("inverse", s.h.get_inverse_params(lambda: ginv))
    return {"keys": json.dumps(list(s.p)), **{k: dig(v) for k, v in s.p.items()}, "inv": dig(s.inv["eps"])}, {}


def weights(m):
    return nums(np.concatenate([np.concatenate([np.asarray(l.kernel, dtype=np.float64).reshape(-1), np.asarray(l.bias, dtype=np.float64).reshape(-1)]) for l in layers(m)]))


def call_model(s, c):
    h = s.h
    lr = {"initial_learning_rate": num(c["lr"]), "use_lr_scheduler": c["sched"], "decay_steps": 2, "decay_rate": 0.5, "staircase": True}
    kw = dict(layer_dims=list(c["dims"]), learning_rate_dict=lr, params_dict={"n_cells": s.sp.n_cells}, loss_function=loss_fn(c["eq"]), input_tensors_list=[h.x_pde_list, s.bx, s.by],
              orig_factor_matrices=[h.shape_val_mat_list, h.grad_x_mat_list, h.grad_y_mat_list], force_function_list=h.forcing_function_list, tensor_dtype=s.dt, activation=c["act"])
    if c["kind"] == "hard":
        g = fn.make(c["hard"])
        kw["hard_constraint_function"] = lambda x, y: g(x[:, 0:1], x[:, 1:2]) * y
    if c["kind"] in ("inverse", "domain"):
        kw["sensor_list"] = list(h.get_sensor_data(fn.make(c["u"]), 10, "internal"))
    if c["kind"] == "inverse":
        kw["inverse_params_dict"] = s.inv
    s.hold("arguments", kw)
    s.m = cls(c["kind"])(**kw)
    s.losses = []
    return {"shapes": json.dumps([list(l.kernel.shape) for l in layers(s.m)])}, {"w": weights(s.m)}


def call_steps(s, c):
    r = []
    for i in range(c["n"]):
        d = s.m.train_step(beta=num(c["beta"]), bilinear_params_dict=s.p)
        s.hold("losses", d)
        r += [float(np.asarray(d[k]).reshape(-1)[0]) for k in sorted(d) if k.startswith("loss")]
    s.losses += r
    return {}, {"loss": nums(r), "w": weights(s.m)}


def call_predict(s, c):
    t = s.hold("points", s.h.get_test_points())
    y = s.hold("prediction", s.m(t))
    s.y = np.asarray(y, dtype=np.float64)
    return {"shape": json.dumps(list(s.y.shape))}, {"y": nums(s.y)}


def call_errors(s, c):
    t = s.g.get_test_points()
    u = fn.make(c["u"])(t[:, 0], t[:, 1])
    a = s.y[:, 0]
    s.hold("exact", u), s.hold("predicted", a)
    return {}, {"e": nums(s.hold("errors", compute_utils.compute_errors_combined(u, a)))}


def call_vtk(s, c):
    t = s.g.get_test_points()
    f = fn.make(c["u"])
    sol = np.stack([f(t[:, 0], t[:, 1]) * (i + 1) for i in range(len(c["names"]))], axis=1)
    if c["special"]:
        sol[0, 0], sol[-1, -1] = np.nan, -np.inf
    p = os.path.join(s.dir, "res")
    os.makedirs(p, exist_ok=True)
    s.g.write_vtk(s.hold("solution", sol), output_path=p, filename=c["file"], data_names=s.hold("names", list(c["names"])))
    return {"files": json.dumps(sorted(os.listdir(p))), "text": dig(open(os.path.join(p, c["file"]), "rb").read())}, {}


def call_plots(s, c):
    p = os.path.join(s.dir, "plots")
    os.makedirs(p, exist_ok=True)
    n = len(s.cells)
    r = s.hold("residuals", np.random.standard_normal(n))
    loss = s.hold("loss history", list(s.losses))
    if c["what"] == "mesh":
        s.sp.generate_plot(p)
    elif c["what"] == "residual":
        s.g.plot_adaptive_mesh(s.hold("cell list", [q for q in s.cells]) if c["list"] else s.cells, r, 3, "res")
    elif c["what"] == "loss":
        plot_utils.plot_loss_function(loss, p)
    else:
        plot_utils.plot_array(s.hold("array", np.array(loss)), p, "a", "b")
    return {}, {}


# calls that the package has to refuse
def refuse(s, c):
    k = c["what"]
    out = os.path.join(s.dir, "out")
    if k == "sampling":
        s.g.read_mesh(c["file"], 1, "random", 1)
    elif k == "extension":
        s.g.read_mesh(c["file"][:-5] + ".msh", 1, "uniform", 1)
    elif k == "missing file":
        s.g.read_mesh(os.path.join(s.dir, "none.mesh"), 1, "uniform", 1)
    elif k == "no quads":
        s.g.read_mesh(c["file2"], 1, "uniform", 1)
    elif k == "level":
        s.g.read_mesh(c["file"], "2", "uniform", 1)
    elif k == "limits":
        s.g.generate_quad_mesh_internal((-7.5, 9.0), (3.0,), 2, 3, 40)
    elif k == "bound count":
        s.g.generate_quad_mesh_internal((-7.5, 9.0), (3.0, 4.0), 2, 3, None)
    elif k == "cell count":
        s.g.generate_quad_mesh_internal((-7.5, 9.0), (3.0, 4.0), 2, "3", 40)
    elif k == "names":
        s.g.write_vtk(np.zeros((4, 2)), out, "refused.vtk", ["only one"])
    elif k == "folder":
        s.g.write_vtk(np.zeros((4, 1)), os.path.join(s.dir, "not there"), "refused.vtk", ["u"])
    elif k == "geometry kind":
        Geometry_2D("triangle", "internal", 2, 2, out)
    elif k in ("fe type", "order", "quadrature", "map"):
        kw = dict(mesh=s.g.mesh, cells=s.cells, boundary_points=s.bd, cell_type="quadrilateral", fe_order=2, fe_type="legendre", quad_order=3, quad_type="gauss-legendre", fe_transformation_type="bilinear",
                  bound_function_dict={t: (lambda x, y: x) for t in s.bd}, bound_condition_dict={t: "dirichlet" for t in s.bd}, forcing_function=lambda x, y: x, output_path=out, generate_mesh_plot=False)
        kw[{"fe type": "fe_type", "order": "fe_order", "quadrature": "quad_type", "map": "fe_transformation_type"}[k]] = {"fe type": "legendr", "order": 1, "quadrature": "gauss", "map": "linear"}[k]
        Fespace2D(**kw)
    elif k == "forcing":
        def f(x, y):
            raise RuntimeError("no forcing here")
        Fespace2D(mesh=s.g.mesh, cells=s.cells, boundary_points=s.bd, cell_type="quadrilateral", fe_order=3, fe_type="legendre", quad_order=4, quad_type="gauss-legendre", fe_transformation_type="bilinear",
                  bound_function_dict={}, bound_condition_dict={}, forcing_function=f, output_path=out, generate_mesh_plot=False).get_forcing_function_values(0)
    elif k == "index":
        s.sp.get_forcing_function_values(s.sp.n_cells)
    elif k == "negative":
        s.sp.get_quadrature_weights(-1)
    elif k == "component":
        s.sp.generate_dirichlet_boundary_data_vector(0)
    elif k == "force component":
        s.sp.get_forcing_function_values_vector(s.sp.n_cells + 2, 0)
    elif k == "tensor type":
        DataHandler2D(s.sp, s.g, "float64")
    elif k == "no table":
        s.h.get_sensor_data(lambda x, y: x, 5, "external", os.path.join(s.dir, "none.csv"))
    elif k == "exact":
        def u(x, y):
            raise RuntimeError("not known")
        s.h.get_sensor_data(u, 20, "internal")
    elif k == "parameters":
        s.h.get_bilinear_params_dict_as_tensors(lambda: {"eps": 7.0, "k": "seven", "c": object()})
    elif k == "inverse":
        s.h.get_inverse_params(lambda: {"eps": object()})
    elif k == "step":
        s.m.train_step(beta=1234.5, bilinear_params_dict={})
    elif k == "beta":
        s.m.train_step(beta="ten", bilinear_params_dict=s.p)
    elif k == "width":
        s.m(tf.zeros((3, 5), dtype=s.dt))
    elif k == "checkpoint":
        s.m.load_weights(os.path.join(s.dir, "never saved"))
    elif k.startswith("failing "):
        s.failing, s.left = {"failing forcing": "forcing", "failing handler": "forcing", "failing boundary": "boundary", "failing input": "boundary", "failing vector": "vector forcing", "failing vector boundary": "vector boundary"}[k], c["n"]
        try:
            if k == "failing forcing":
                s.sp.get_forcing_function_values(c["i"] % s.sp.n_cells)
            elif k == "failing handler":
                DataHandler2D(s.sp, s.g, s.dt)
            elif k == "failing boundary":
                s.sp.generate_dirichlet_boundary_data()
            elif k == "failing input":
                s.h.get_dirichlet_input()
            elif k == "failing vector":
                s.left = 1
                s.vs.get_forcing_function_values_vector(c["i"] % s.vs.n_cells, c["n"] % 2)
            else:
                s.vs.generate_dirichlet_boundary_data_vector(c["n"] % 2)
        finally:
            s.failing = ""
    elif k == "component 2":
        s.vs.get_forcing_function_values_vector(c["i"] % s.vs.n_cells, 2)
    elif k == "component name":
        s.vs.generate_dirichlet_boundary_data_vector("u")
    elif k == "lengths":
        compute_utils.compute_errors_combined(np.ones(5), np.ones(4))
    else:
        raise AssertionError(k)


def call_refuse(s, c):
    c = dict(c)
    for n, quads in (("file", True), ("file2", False)):
        p = c[n] = os.path.join(s.dir, n + ".mesh")
        if not os.path.exists(p):
            geo.write_mesh(p, {"dim": 2, "order": "VEQ" if quads else "VE", "pts": [["-3", "0"], ["11", "0"], ["12", "5"], ["0", "9"]], "edges": [[1, 2, 5], [2, 3, 6], [3, 4, 7], [4, 1, 8]], "quads": [[1, 2, 3, 4]]})
    refuse(s, c)
    return {}, {}


def perform(s, c):
    np.random.seed(c["seed"])
    tf.keras.utils.set_random_seed(c["seed"])
    return globals()["call_" + c["do"]](s, c)


def record(s, c):
    ev = {"call": json.dumps(c, sort_keys=True), "res": {}, "num": {}}
    with Call(ev):
        ev["res"], ev["num"] = perform(s, c)
        ev["res"] = {k: str(v) for k, v in ev["res"].items()}
    return ev


@op("ses.call")
def ses_call(c, o, ev):
    if "ses." + o["run"] not in c.o:
        c.o["ses." + o["run"]] = Session(os.path.join(c.dir, o["run"]))
    ev["run"] = o["run"]
    s = c.o["ses." + o["run"]]
    s.holds, s.got = bool(o.get("hold")), {}
    ev.update(record(s, o["call"]))
    ev["refused"] = o["call"]["do"] == "refuse"
    if s.holds:
        ev["held"], ev["got"] = s.digests(), s.got
        ev["others"] = {k[4:]: digest(q.digests()) for k, q in c.o.items() if k.startswith("ses.")}


@op("ses.process")
def ses_process(c, o, ev):
    """the calls of one session alone in a new process"""
    d = os.path.join(c.dir, "proc%d" % len(os.listdir(c.dir)))
    os.makedirs(d)
    with open(os.path.join(d, "script.json"), "w") as f:
        json.dump(o["calls"], f)
    env = dict(os.environ, PYTHONHASHSEED=str(o["hashseed"]))
    p = subprocess.run([sys.executable, os.path.abspath(__file__), d], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=230)
    out = os.path.join(d, "result.json")
    if not os.path.exists(out):
        raise RuntimeError("session process failed: " + p.stdout.decode(errors="replace")[-400:])
    ev["ok"], ev["exc"] = True, ""
    ev["calls"] = json.load(open(out))


if __name__ == "__main__":
    import contextlib, io
    d = sys.argv[1]
    s = Session(os.path.join(d, "s"))
    os.chdir(d)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        res = [record(s, c) for c in json.load(open(os.path.join(d, "script.json")))]
    with open(os.path.join(d, "r.tmp"), "w") as f:
        json.dump(res, f)
    os.rename(os.path.join(d, "r.tmp"), os.path.join(d, "result.json"))
