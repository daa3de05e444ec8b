"""Option validation: every constructor and call that takes an option."""
import os
import numpy as np
from common import op, num, hx, arr, Call
import geo

LINES = [[1, 2, 1], [2, 3, 2], [3, 4, 3], [4, 1, 4]]
SQ = {"dim": 2, "order": "VEQ", "pts": [["0", "0"], ["1", "0"], ["1", "1"], ["0", "1"]], "edges": LINES, "quads": [[1, 2, 3, 4]]}


def deviate(v, how):
    """a value that differs from v in one place only"""
    if how == "":
        return v
    if how.startswith("="):
        return how[1:]
    return {"upper": v.upper(), "cap": v.capitalize(), "lead": " " + v, "trail": v + " ", "nl": v + "\n", "tab": "\t" + v, "prefix": v[:-1], "short": v[:3], "suffix": v[1:], "plural": v + "s",
            "dash": v.replace("_", "-") if "_" in v else v.replace("-", "_") if "-" in v else v + "-", "space": v.replace("_", " ").replace("-", " ") if set("_-") & set(v) else v[:2] + " " + v[2:],
            "joined": v.replace("_", "").replace("-", ""), "twice": v + v, "more": v + "_2", "quoted": "'" + v + "'", "empty": "", "swap": v[:1].swapcase() + v[1:]}[how]


def real(t):
    """the Python value a token stands for"""
    import tensorflow as tf
    if not isinstance(t, str):
        return t
    if t.startswith("tf:"):
        return getattr(tf, t[3:])
    if t.startswith("np:"):
        return getattr(np, t[3:])
    if t.startswith("str:"):
        return t[4:]
    if t.startswith("#"):
        return {"#None": None, "#0": 0, "#1": 1, "#True": True, "#list": [], "#dict": {}, "#float": float, "#dtype": np.dtype("float32"), "#b": b"uniform"}.get(t, t)
    return t


def good(c, what):
    """an object built from supported options, once per scenario"""
    import tensorflow as tf
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    from fastvpinns.FE.fespace2d import Fespace2D
    from fastvpinns.data.datahandler2d import DataHandler2D
    k = "good." + what
    if k not in c.o:
        if what == "geometry":
            g = Geometry_2D("quadrilateral", "internal", 3, 3, c.dir, is_optimized=True)
            c.o["good.mesh"] = g.generate_quad_mesh_internal(x_limits=(0, 1), y_limits=(0, 1), n_cells_x=2, n_cells_y=1, num_boundary_points=12)
            c.o[k] = g
        elif what == "space":
            c.o[k] = space(c, dict(cell_type="quadrilateral", order=2, basis="legendre", qorder=3, quad="gauss-legendre", map="bilinear"))
        elif what == "handler":
            c.o[k] = DataHandler2D(good(c, "space"), good(c, "geometry"), dtype=tf.float32)
    return c.o[k]


def space(c, v):
    from fastvpinns.FE.fespace2d import Fespace2D
    g = good(c, "geometry")
    cells, bd = c.o["good.mesh"]
    return Fespace2D(mesh=g.mesh, cells=cells, boundary_points=bd, cell_type=v["cell_type"], fe_order=v["order"], fe_type=v["basis"], quad_order=v["qorder"], quad_type=v["quad"],
                     fe_transformation_type=v["map"], bound_function_dict={t: (lambda x, y: x) for t in bd}, bound_condition_dict={t: "dirichlet" for t in bd}, forcing_function=lambda x, y: x + y, output_path=c.dir)


def setup(v, **kw):
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    d = dict(cell_type="quadrilateral", fe_order=3, fe_type="legendre", quad_order=4, quad_type="gauss-legendre")
    d.update(kw)
    return FE2DSetupMain(**d)


def do_model(c, kind, dtype):
    import tensorflow as tf
    import train
    dt = dtype if isinstance(dtype, tf.DType) else tf.float32
    t = lambda *s: tf.constant(np.ones(s), dtype=dt)
    kw = dict(layer_dims=[2, 3, 1], learning_rate_dict={"initial_learning_rate": 0.1, "use_lr_scheduler": False, "decay_steps": 1, "decay_rate": 0.9, "staircase": False}, params_dict={"n_cells": 1},
              loss_function=None, input_tensors_list=[t(4, 2), t(2, 2), t(2, 1)], orig_factor_matrices=[t(1, 1, 4)] * 3, force_function_list=t(1, 1), tensor_dtype=dtype)
    if kind in ("inverse", "domain"):
        kw["sensor_list"] = [t(2, 2), t(2, 1)]
    if kind == "inverse":
        kw["inverse_params_dict"] = {"eps": t()}
    if kind == "hard":
        kw["hard_constraint_function"] = lambda x, y: y
    return train.cls(kind)(**kw)


@op("cfg.call")
def call(c, o, ev):
    kind = o["call"]
    opts = {k: (deviate(v, o["how"]) if k == o["dev"] and isinstance(v, str) else v) for k, v in o["opts"].items()}
    if kind == "read" and o["how"] == "empty" and o["dev"] == "suffix" and "." in o["stem"]:
        opts["suffix"] = ".txt"
    ev.update(call=kind, opts=opts, dev=o["dev"], stem=o["stem"])
    v = {k: real(t) for k, t in opts.items()}
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    r = None
    if kind == "sensors":
        h = good(c, "handler")
    elif kind == "handler":
        s, g = good(c, "space"), good(c, "geometry")
    elif kind == "space":
        good(c, "geometry")
    elif kind == "read":
        p = c.path("in", o["stem"] + opts["suffix"])
        geo.write_mesh(p + ".tmp.mesh", SQ)
        try:                    # content in the format the name stands for, where there is one
            import meshio
            ext = os.path.splitext(p)[1].lower()
            if ext in (".mesh", ""):
                raise ValueError
            m = meshio.read(p + ".tmp.mesh")
            if ext == ".msh":
                meshio.write(p, m, file_format="gmsh22", binary=False)
            else:
                meshio.write(p, m)
        except (ValueError, KeyError, SystemExit, Exception):
            os.replace(p + ".tmp.mesh", p)
        g = Geometry_2D("quadrilateral", "external", 3, 3, c.dir)
    with Call(ev):
        if kind == "geometry":
            r = Geometry_2D(v["mesh_type"], v["source"], 3, 3, c.dir)
        elif kind == "read":
            r = g.read_mesh(p, 1, v["sampling"], 1)
            r = r if all(x is not None for x in r) else None
        elif kind == "basis":
            r = setup(v, cell_type=v["cell_type"], fe_order=v["order"], fe_type=v["basis"], quad_type=v["quad"]).assign_basis_function()
        elif kind == "quadrature":
            r = setup(v, cell_type=v["cell_type"], quad_order=v["qorder"], quad_type=v["quad"], fe_type=v["basis"]).assign_quadrature_rules()
            r = r if all(x is not None for x in r) else None
        elif kind == "rule":
            from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D
            r = Quadratureformulas_Quad2D(4, v["quad"]).get_quad_values()
            r = r if all(x is not None for x in r) else None
        elif kind == "transformation":
            r = setup(v, cell_type=v["cell_type"], fe_type=v["basis"], quad_type=v["quad"]).assign_fe_transformation(v["map"], np.array([[0.0, 0], [1, 0], [1, 1], [0, 1]]))
        elif kind == "space":
            r = space(c, v)
        elif kind == "handler":
            from fastvpinns.data.datahandler2d import DataHandler2D
            r = DataHandler2D(s, g, dtype=v["dtype"])
        elif kind == "sensors":
            f = None
            if v["source"] == "external":
                f = c.path("in", "sol.csv")
                with open(f, "w") as q:
                    q.write("\n".join("%r,%r,%r" % (i / 9, 1 - i / 9, 0.5 * i) for i in range(10)) + "\n")
            r = h.get_sensor_data(lambda x, y: x * y, 4, v["source"], f) if f else h.get_sensor_data(lambda x, y: x * y, 4, v["source"])
            r = r if all(x is not None for x in r) else None
        elif kind == "model":
            r = do_model(c, o["kind"], v["dtype"])
    ev["got"] = bool(ev["ok"] and r is not None)
