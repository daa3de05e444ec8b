"""Error metrics, plots and exported files."""
import hashlib, os
import numpy as np
from common import op, num, hx, arr, Call
import fn, geo


# ---------------------------------------------------------------- metrics
def layout(a, how):
    """the same numbers in another memory layout"""
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        a = a.copy(); a.setflags(write=False)
        return a
    return a.copy()


@op("rep.arrays")
def arrays(c, o, ev):
    rng = np.random.RandomState(o["seed"])
    sh = tuple(o["shape"])
    pat = o["pattern"]
    u = rng.standard_normal(sh)
    d = rng.standard_normal(sh)
    if pat == "mixed":
        u = u * 10.0 ** rng.randint(-8, 9, size=sh); d = d * 10.0 ** rng.randint(-8, 9, size=sh)
    elif pat == "negative":
        u = -1 - np.abs(u); d = -np.abs(d)
    elif pat == "equal":
        d = d * 0
    elif pat == "one":          # differ at one place only, by little
        e = np.zeros(d.size); e[rng.randint(d.size)] = rng.choice([1e-6, -1.0, 1e-3]); d = e.reshape(sh)
    elif pat == "cancel":       # differences of sum zero
        d = np.abs(d).reshape(-1); d[1::2] = -d[0::2][:len(d[1::2])]; d = d.reshape(sh)
    elif pat == "scaled":
        d = u * 0.5
    elif pat == "huge":
        u, d = u * 1e15, d * 1e15
    elif pat == "tiny":
        u, d = u * 1e-15, d * 1e-15
    elif pat == "constant":
        u = u * 0 + 2; d = d * 0 - 0.25
    elif pat == "spike":
        u = u * 0; u.flat[rng.randint(u.size)] = -3.0
    v = u + d
    if o["dtype"] == "int64":
        u, v = np.round(u * 10), np.round(v * 10)
        if not u.any():
            u.flat[0] = -7
    t = {"mixed": ("float64", "float32")}.get(o["dtype"], (o["dtype"], o["dtype"]))
    u, v = layout(u.astype(t[0]), o["lay"][0]), layout(v.astype(t[1]), o["lay"][1])
    if o["column"]:             # (n, 1) against (n, 1) is the usual case for predictions
        u, v = u.reshape(-1, 1), v.reshape(-1, 1)
    c.o[o["obj"]] = (u, v)
    ev.update(obj=o["obj"], dtype=o["dtype"], u=arr(u.flatten()), v=arr(v.flatten()), nz=bool(np.any(u != 0)), ok=True, exc="")


FN = {"l1": "compute_l1_error", "l2": "compute_l2_error", "linf": "compute_linf_error", "l1r": "compute_l1_error_relative", "l2r": "compute_l2_error_relative", "linfr": "compute_linf_error_relative",
      "all": "compute_errors_combined"}


@op("rep.metric")
def metric(c, o, ev):
    from fastvpinns.utils import compute_utils
    u, v = c.o[o["obj"]]
    if o["perm"]:
        p = np.random.RandomState(o["perm"]).permutation(u.size)
        u2, v2 = u.flatten()[p].reshape(u.shape), v.flatten()[p].reshape(u.shape)
    else:
        u2, v2 = u, v
    if o["swap"]:
        u2, v2 = v2, u2
    keep = (u2.copy(), v2.copy())
    ev.update(obj=o["obj"], f=o["f"], swap=o["swap"], nz=bool(np.any(u2 != 0)))
    if o["f"] in ("l1r", "l2r", "linfr", "all") and not ev["nz"]:
        ev.update(ok=True, exc="", r=[], skip=True, same=True, sh=True)
        return
    ev["skip"] = False
    with Call(ev):
        r = getattr(compute_utils, FN[o["f"]])(u2, v2)
        ev["sh"] = all(np.ndim(x) == 0 for x in (r if o["f"] == "all" else [r]))
        ev["r"] = [hx(x) for x in r] if o["f"] == "all" else [hx(r)]
    ev["same"] = bool(all(np.array_equal(a, b) and a.dtype == b.dtype and a.shape == b.shape for a, b in zip(keep, (u2, v2))))


# ---------------------------------------------------------------- files
OLD = 1_000_000_000


def kind(p):
    h = open(p, "rb").read(64)
    return ("png" if h[:8] == b"\x89PNG\r\n\x1a\n" else "svg" if h.lstrip()[:5] in (b"<?xml", b"<svg ") else "vtk" if h[:5] == b"# vtk" else "msh" if h[:11] == b"$MeshFormat" else "empty" if not h else "other")


def listing(d):
    r = []
    for root, dirs, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            r.append({"f": os.path.relpath(p, d), "h": hashlib.sha1(open(p, "rb").read()).hexdigest()[:16], "k": kind(p), "new": int(os.stat(p).st_mtime) != OLD})
    return sorted(r, key=lambda e: e["f"])


def age(d):
    for root, _, fs in os.walk(d):
        for f in fs:
            os.utime(os.path.join(root, f), (OLD, OLD))


def digest(x, seen=None):
    """digest of data: arrays, containers of arrays, numbers"""
    h = hashlib.sha1()
    def go(v):
        if isinstance(v, np.ndarray):
            h.update(b"a%s%s" % (str(v.dtype).encode(), str(v.shape).encode())); h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v.tolist()).encode())
        elif isinstance(v, dict):
            for k in v:
                h.update(repr(k).encode()); go(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"l%d" % len(v))
            for w in v:
                go(w)
        elif isinstance(v, (int, float, str, bool, type(None), np.generic)):
            h.update(repr(v).encode())
    go(x)
    return h.hexdigest()[:16]


@op("rep.userfile")
def userfile(c, o, ev):
    p = c.path(*o["file"].split("/"))
    with Call(ev):
        with open(p, "w") as f:
            f.write(o["text"])
    ev["file"] = o["file"]
    ev["after"] = listing(c.dir)


def space_data(s):
    r = {"cells": s.cells, "bd": s.boundary_points}
    for i, fc in enumerate(s.fe_cell):
        r[i] = {k: v for k, v in sorted(vars(fc).items()) if isinstance(v, np.ndarray)}
    return r


def curve(rng, o):
    n = o["n"]
    a = np.exp(rng.standard_normal(n)) if o["values"] == "positive" else rng.standard_normal(n) if o["values"] == "signed" else np.ones(n) * 0.5 if o["values"] == "constant" else np.where(rng.rand(n) < 0.5, 0.0, rng.rand(n))
    return a.tolist() if o["list"] else a


def make_space(c, o, out, plot):
    """a space on a strip of cells with any number of boundary tags"""
    from fastvpinns.FE.fespace2d import Fespace2D
    rng = np.random.RandomState(o["seed"])
    cells = np.array([[[i, 0], [i + 1, 0], [i + 1, 1], [i, 1]] for i in range(o["ncells"])], dtype=np.float64)
    bd = {int(10 * t + 3): rng.rand(1 + rng.randint(4), 2) for t in range(o["tags"])}
    bf = {k: (lambda x, y: x + 2 * y) for k in bd}
    return Fespace2D(mesh=None, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=2, fe_type="legendre", quad_order=3, quad_type="gauss-legendre", fe_transformation_type="bilinear",
                     bound_function_dict=bf, bound_condition_dict={k: "dirichlet" for k in bd}, forcing_function=lambda x, y: x * y, output_path=out, generate_mesh_plot=plot)


@op("rep.call")
def call(c, o, ev):
    """one plotting or export helper"""
    from fastvpinns.utils import plot_utils as pu
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    rng = np.random.RandomState(o["seed"])
    h = o["helper"]
    rel = o["dir"]
    full = os.path.join(c.dir, rel) if rel else c.dir
    os.makedirs(full, exist_ok=True)
    out = {"abs": full, "rel": rel or ".", "slash": full + "/"}[o["how"]]
    ev.update(helper=h, dir=rel, name=o["name"], prefix=o["prefix"], epoch=o["epoch"], optimized=o["optimized"], kind=o["kind"])
    a = curve(rng, o)
    if h in ("loss", "inverse_test", "test", "array", "test_time", "multiple", "inverse_param"):
        data = [a]
        if h == "multiple":
            data = [[curve(rng, o) for _ in range(1 + o["n"] % 4)]]
        if h == "test_time":
            data = [np.sort(rng.rand(len(a))) + 1.0, a]
    elif h == "contour":
        x, y = np.meshgrid(np.linspace(0, 1, 3 + o["n"] % 5), np.linspace(-1, 2, 4))
        data = [x, y, rng.standard_normal(x.shape)]
    elif h == "residual":
        n = 1 + o["ncells"]
        cl = np.array([[[i, 0], [i + 1, 0], [i + 1, 1], [i, 1]] for i in range(n)], dtype=np.float64)
        data = [[q for q in cl] if o["list"] else cl, None]
        v = {"constant": np.ones(n), "signed": rng.standard_normal(n), "zeros": np.zeros(n), "positive": 3.0 * rng.rand(n)}[o["values"]]
        data[1] = v.tolist() if o["list"] and o["values"] != "signed" else v
    elif h in ("mesh",):
        data = [make_space(c, o, full, False)]
    elif h == "solution":
        g = Geometry_2D("quadrilateral", "internal", 4, 3, full)
        data = [rng.standard_normal((len(geo.parse_vtk(os.path.join(full, "internal.vtk"))["points"]), 1 + o["n"] % 3))]
    else:
        data = [[o["n"]]]
    dig = lambda: digest([space_data(d) if h == "mesh" else d for d in data])
    ev["d0"] = dig()
    age(c.dir)
    ev["before"] = listing(c.dir)
    with Call(ev):
        if h == "loss":
            pu.plot_loss_function(a, out)
        elif h == "inverse_test":
            pu.plot_inverse_test_loss_function(a, out)
        elif h == "test":
            pu.plot_test_loss_function(a, out, o["prefix"]) if o["prefix"] else pu.plot_test_loss_function(a, out)
        elif h == "test_time":
            pu.plot_test_time_loss_function(data[0], data[1], out)
        elif h == "array":
            pu.plot_array(a, out, o["name"], o["title"])
        elif h == "multiple":
            pu.plot_multiple_loss_function(data[0], out, o["name"], ["s%d" % i for i in range(len(data[0]))], "error", o["title"])
        elif h == "inverse_param":
            pu.plot_inverse_param_function(a, "eps", 0.3, out, o["name"])
        elif h == "contour":
            pu.plot_contour(data[0], data[1], data[2], out, o["name"], o["title"])
        elif h == "residual":
            g = Geometry_2D("quadrilateral", "internal", 2, 2, out)
            g.plot_adaptive_mesh(data[0], data[1], o["epoch"], o["name"]) if o["name"] != "cell_residual" else g.plot_adaptive_mesh(data[0], data[1], o["epoch"])
        elif h == "mesh":
            data[0].generate_plot(out)
        elif h == "mesh_at_construction":
            make_space(c, o, out, True)
        elif h == "internal_mesh":
            g = Geometry_2D("quadrilateral", "internal", 3, 4, out, is_optimized=o["optimized"])
            g.generate_quad_mesh_internal(x_limits=(0, 1), y_limits=(0, 2), n_cells_x=2, n_cells_y=1, num_boundary_points=20)
        elif h == "solution":
            g.write_vtk(data[0], out, o["name"], ["f%d" % i for i in range(data[0].shape[1])])
        elif h == "external_mesh":
            g = Geometry_2D("quadrilateral", "external", 3, 4, out, is_optimized=o["optimized"])
            g.read_mesh(c.o["mesh"], 1, "uniform", 1)
    ev["after"] = listing(c.dir)
    ev["d1"] = dig()


@op("rep.meshfile")
def meshfile(c, o, ev):
    p = c.path("in", "m.mesh")
    c.o["mesh"] = p
    with Call(ev):
        geo.write_mesh(p, {"dim": 2, "order": "VEQ", "pts": [["0", "0"], ["1", "0"], ["1", "1"], ["0", "1"]], "edges": [[1, 2, 1], [2, 3, 2], [3, 4, 3], [4, 1, 4]], "quads": [[1, 2, 3, 4]]})
    ev["after"] = listing(c.dir)
