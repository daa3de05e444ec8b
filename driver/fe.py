"""Finite-element operations: rules, test functions, spaces and their tables."""
import os
import numpy as np
import meshio
from common import op, num, hx, arr, ints, shape, Call
import fn
from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D
from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
from fastvpinns.FE.fespace2d import Fespace2D

DERIVS = ("value", "gradx", "grady", "gradxx", "gradxy", "gradyy")


@op("fe.quad")
def fe_quad(c, o, ev):
    ev.update(n=o["n"], qtype=o["qtype"], via=o["via"])
    with Call(ev):
        if o["via"] == "setup":
            w, xi, eta = FE2DSetupMain("quadrilateral", 2, "legendre", o["n"], o["qtype"]).assign_quadrature_rules()
            npts = len(w)
        else:
            q = Quadratureformulas_Quad2D(o["n"], o["qtype"])
            w, xi, eta = q.get_quad_values()
            npts = int(q.get_num_quad_points())
        ev.update(w=arr(w), xi=arr(xi), eta=arr(eta), npts=npts)
        if o.get("scribble"):
            w *= 3.0


@op("fe.basis")
def fe_basis(c, o, ev):
    key = "basis." + o["obj"]
    what = o["what"]
    ev.update(obj=o["obj"], order=o["order"], type=o["type"], what=what)
    xi = np.array([num(v) for v in o["xi"]]); eta = np.array([num(v) for v in o["eta"]])
    ev["xi"], ev["eta"] = arr(xi), arr(eta)
    with Call(ev):
        if key not in c.o:
            c.o[key] = FE2DSetupMain("quadrilateral", o["order"], o["type"], 3, "gauss-legendre").assign_basis_function()
        b = c.o[key]
        v = getattr(b, what)(xi, eta)
        ev["val"] = arr(v)
        ev["nsf"] = int(b.num_shape_functions)


def bdfun(i):
    return lambda x, y: 0.0 * x


RET = {"same": lambda v: v, "arr0": lambda v: np.array(v), "arr1": lambda v: np.array([v]), "float": float, "list": lambda v: [v]}


def bdmake(ds, ret, vector):
    """boundary function from its description; ret = how it returns a value"""
    gs = [fn.make(d) for d in ds]
    if vector:
        return lambda x, y: [RET[ret](g(x, y)) for g in gs]
    return lambda x, y: RET[ret](gs[0](x, y))


@op("fe.space")
def fe_space(c, o, ev):
    ev.update(obj=o["obj"], order=o["order"], type=o["type"], qorder=o["qorder"], qtype=o["qtype"], trans=o["trans"])
    if "from" in o:
        cells = c.o[o["from"] + ".cells"]; bd = c.o[o["from"] + ".bd"]; mesh = c.o[o["from"]].mesh
    else:
        cells = np.array([[[num(v) for v in p] for p in q] for q in o["cells"]], dtype=np.float64)
        if o.get("cform") == "int" and np.all(cells == np.round(cells)):
            cells = cells.astype(np.int64)
        elif o.get("cform") == "fortran":
            cells = np.asfortranarray(cells)
        elif o.get("cform") == "view":
            cells = np.repeat(cells, 2, axis=0)[::2]
        bd = {1000: np.array([cells[0][0], cells[0][1]])}
        mesh = meshio.Mesh(cells.reshape(-1, 2), [("quad", np.arange(4 * len(cells)).reshape(-1, 4))])
    bf = {t: bdfun(t) for t in bd}
    if "bd" in o:
        bd = {int(b["tag"]): np.array([[num(v) for v in p] for p in b["pts"]], dtype=np.float64).reshape(-1, 2) for b in o["bd"]}
        if o.get("bdlists"):
            bd = {t: [tuple(p) for p in v] for t, v in bd.items()}
        bfd = {int(b["tag"]): b["f"] for b in o["bd"]}
        bf = {int(b["tag"]): bdmake(b["f"], b.get("ret", "same"), len(b["f"]) > 1) for b in o["bd"]}
    elif "bdf" in o:
        bfd = {t: o["bdf"][i % len(o["bdf"])] for i, t in enumerate(bd)}
        bf = {t: bdmake(bfd[t], "same", len(bfd[t]) > 1) for t in bd}
    if "bd" in o or "bdf" in o:
        if o.get("bforder"):        # the dictionary of functions in another order than that of the points
            bf = {t: bf[t] for t in reversed(list(bf))}
        ev["bd"] = [{"tag": int(t), "pts": arr(np.array([[p[0], p[1]] for p in v])) if len(v) else [], "f": [fn.desc(d) for d in bfd[t]]} for t, v in bd.items()]
        mp = np.asarray(mesh.points)
        ev["box"] = [[hx(mp[:, m].min()), hx(mp[:, m].max())] for m in range(2)]
    o = dict(o, f=[fn.place(d, cells) for d in o["f"]])
    o = dict(o, f=[fn.match(d) if d["kind"] == "match" else d for d in o["f"]])
    c.o["f." + o["obj"]] = o["f"]
    fs = [fn.make(d) for d in o["f"]]
    if o["vector"]:
        force = lambda x, y: tuple(f(x, y) for f in fs)
    else:
        force = fs[0]
    ev.update(cells=arr(cells), vector=bool(o["vector"]), f=[fn.desc(d) for d in o["f"]])
    c.o["fs." + o["obj"]] = fs
    out = os.path.join(c.dir, "out_" + o["obj"]); os.makedirs(out, exist_ok=True)
    rule = Quadratureformulas_Quad2D(o["qorder"], o["qtype"]).get_quad_values()
    ev.update(rw=arr(rule[0]), rxi=arr(rule[1]), reta=arr(rule[2]))
    bc = {t: "dirichlet" for t in bd}
    with Call(ev):
        s = Fespace2D(mesh=mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=o["order"], fe_type=o["type"],
                      quad_order=o["qorder"], quad_type=o["qtype"], fe_transformation_type=o["trans"], bound_function_dict=bf,
                      bound_condition_dict=bc, forcing_function=force, output_path=out, generate_mesh_plot=False)
        c.o[o["obj"]] = s
        ev["ncells"] = int(s.n_cells)
    return ev["ok"]


ACC = {"val": "get_shape_function_val", "gx": "get_shape_function_grad_x", "gy": "get_shape_function_grad_y",
       "gxref": "get_shape_function_grad_x_ref", "gyref": "get_shape_function_grad_y_ref",
       "pts": "get_quadrature_actual_coordinates", "w": "get_quadrature_weights", "force": "get_forcing_function_values",
       "forcev": "get_forcing_function_values_vector"}
SECOND = {"gxx": "basis_gradxx_at_quad", "gxy": "basis_gradxy_at_quad", "gyy": "basis_gradyy_at_quad"}


@op("fe.get")
def fe_get(c, o, ev):
    s = c.o[o["obj"]]
    acc = o["acc"]
    comp = o.get("comp", 0)
    cell = o["cell"]
    ev.update(obj=o["obj"], acc=acc, cell=cell, comp=comp, val=[])
    if o.get("half"):       # between the cells and the first index outside: still outside
        cell = cell + 0.5 if cell < 0 else float(cell)
    with Call(ev):
        if acc in SECOND:
            v = getattr(s.fe_cell[cell], SECOND[acc])
        elif acc == "forcev":
            v = s.get_forcing_function_values_vector(cell, comp)
        else:
            v = getattr(s, ACC[acc])(np.int64(cell) if o.get("np") and not o.get("half") else cell)
        ev["val"] = arr(v)
        sc = o.get("scribble", 0)
        if sc and acc not in SECOND:
            if sc == 1:
                v[...] = 7.25
            elif sc == 2:
                v *= -3.0
            else:
                v.flat[0] = np.nan; v += 1.0
    if acc in ("force", "forcev"):
        # what the function yields at the space's own quadrature points (only needed for transcendental forcing)
        fs = c.o["fs." + o["obj"]]
        if o.get("wit") and ev["ok"]:
            p = s.get_quadrature_actual_coordinates(cell)
            ev["wit"] = arr(np.array([float(fs[comp](q[0], q[1])) for q in p]))
