"""Geometry operations: internal and external meshes, boundary points, test points, exports."""
import hashlib, os, pathlib
import meshio
import numpy as np
from common import op, num, hx, arr, ints, shape, Call
from fastvpinns.Geometry.geometry_2d import Geometry_2D


def bd(d):
    return [{"tag": int(k), "pts": arr(np.asarray(v)[:, :2]) if len(v) else []} for k, v in d.items()]


@op("geo.new")
def geo_new(c, o, ev):
    ev.update(obj=o["obj"], kind=o["kind"], ntx=o["ntx"], nty=o["nty"], opt=bool(o.get("opt", False)))
    folder = os.path.join(c.dir, o.get("folder", o["obj"]))
    os.makedirs(folder, exist_ok=True)
    ev["folder"] = o.get("folder", o["obj"])
    with Call(ev):
        c.o[o["obj"]] = Geometry_2D("quadrilateral", o["kind"], o["ntx"], o["nty"], folder, is_optimized=bool(o.get("opt", False)))
    return ev["ok"]


def mesh_object(g, ev):
    ev["mpts"] = arr(np.asarray(g.mesh.points)[:, :2])
    conn = np.asarray(g.mesh.cells_dict["quad"])
    ok = np.all(np.equal(np.mod(conn, 1), 0)) and conn.ndim == 2
    ev["conn"] = ints(conn) if ok and np.issubdtype(conn.dtype, np.integer) else []


@op("geo.internal")
def geo_internal(c, o, ev):
    g = c.o[o["obj"]]
    x = (num(o["x"][0]), num(o["x"][1])); y = (num(o["y"][0]), num(o["y"][1]))
    if o.get("ints"):
        x, y = (tuple(int(v) for v in w) if all(v == int(v) for v in w) else w for w in (x, y))
    if o.get("lists"):
        x, y = list(x), list(y)
    if o.get("arrays"):
        x, y = np.array(x), np.array(y)
    ev.update(obj=o["obj"], x=arr(x), y=arr(y), nx=o["nx"], ny=o["ny"], nb=o["nb"])
    with Call(ev):
        cells, b = g.generate_quad_mesh_internal(x_limits=x, y_limits=y, n_cells_x=o["nx"], n_cells_y=o["ny"], num_boundary_points=o["nb"])
        ev["cells"] = arr(cells); ev["bd"] = bd(b)
        ev["attr_cells"] = arr(g.cell_points); ev["attr_bd"] = bd(g.bd_dict)
        mesh_object(g, ev)
        c.o[o["obj"] + ".cells"], c.o[o["obj"] + ".bd"] = cells, b
        c.o.setdefault(o["obj"] + ".held", []).append((cells, b))


def write_mesh(path, m):
    dim = m["dim"]
    out = ["MeshVersionFormatted 2", "", "Dimension %d" % dim, ""]
    pts = [[num(v) for v in p] for p in m["pts"]]
    for sec in m["order"]:
        if sec == "V":
            out += ["Vertices", str(len(pts))]
            out += [" ".join([repr(p[0]), repr(p[1])] + (["0.0"] if dim == 3 else [])) + " %d" % (i % 3) for i, p in enumerate(pts)]
        elif sec == "E":
            out += ["Edges", str(len(m["edges"]))]
            out += ["%d %d %d" % (a[0], a[1], a[2]) for a in m["edges"]]
        elif sec == "Q":
            out += ["Quadrilaterals", str(len(m["quads"]))]
            out += [" ".join(str(v) for v in q) + " %d" % (7 + i % 2) for i, q in enumerate(m["quads"])]
        elif sec == "T" and m.get("tris"):
            out += ["Triangles", str(len(m["tris"]))]
            out += [" ".join(str(v) for v in q) + " 5" for q in m["tris"]]
        out.append("")
    out.append("End")
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


@op("geo.read")
def geo_read(c, o, ev):
    g = c.o[o["obj"]]
    m = o["mesh"]
    p = c.path("in", o.get("file", o["obj"] + ".mesh"))
    write_mesh(p, m)
    if os.path.splitext(p)[1] in (".meshb", ".vtk", ".vtu", ".msh"):
        # the same mesh, properly written in the format of that suffix
        q = c.path("in", "source-of-other-format.mesh")
        write_mesh(q, m)
        meshio.write(p, meshio.read(q))
    if o.get("path"):
        p = pathlib.Path(p)
    ev.update(obj=o["obj"], pts=[arr([num(v) for v in q]) for q in m["pts"]], quads=m["quads"], edges=m["edges"],
              r=o["r"], method=o["method"], suffix=os.path.splitext(p)[1])
    with Call(ev):
        cells, b = g.read_mesh(p, o["r"], o["method"], refinement_level=o.get("ref", 1))
        ev["cells"] = arr(cells); ev["bd"] = bd(b)
        ev["attr_cells"] = arr(g.cell_points); ev["attr_bd"] = bd(g.bd_dict)
        c.o[o["obj"] + ".cells"], c.o[o["obj"] + ".bd"] = cells, b
        c.o.setdefault(o["obj"] + ".held", []).append((cells, b))


@op("geo.recheck")
def geo_recheck(c, o, ev):
    """everything the object has handed out so far, and its attributes, read again"""
    g = c.o[o["obj"]]
    ev["obj"] = o["obj"]
    with Call(ev):
        ev["held"] = [{"cells": arr(q), "bd": bd(b)} for q, b in c.o.get(o["obj"] + ".held", [])]
        ev["attr_cells"] = arr(g.cell_points); ev["attr_bd"] = bd(g.bd_dict)
        if g.mesh_generation_method == "internal":
            mesh_object(g, ev)


@op("geo.testpts")
def geo_testpts(c, o, ev):
    ev["obj"] = o["obj"]
    with Call(ev):
        ev["pts"] = arr(c.o[o["obj"]].get_test_points())


def parse_vtk(path):
    """tokens of an ASCII VTK file -> points, cells, scalar fields"""
    r = {"points": [], "cells": [], "npd": -1, "fields": [], "after": 0}
    tok = open(path).read().split("\n")
    words = []
    for ln in tok[2:] if len(tok) > 2 else []:
        words += ln.split()
    i = 0
    n = len(words)
    while i < n:
        w = words[i]
        if w == "POINTS":
            k = int(words[i + 1]); i += 3
            v = [float(t) for t in words[i:i + 3 * k]]; i += 3 * k
            r["points"] = [arr(v[3 * j:3 * j + 2]) for j in range(k)]
        elif w == "CELLS":
            k = int(words[i + 1]); tot = int(words[i + 2]); i += 3
            v = [int(t) for t in words[i:i + tot]]; i += tot
            j = 0
            while j < tot:
                r["cells"].append(v[j + 1:j + 1 + v[j]]); j += v[j] + 1
        elif w == "CELL_TYPES":
            i += 2 + int(words[i + 1])
        elif w == "POINT_DATA":
            r["npd"] = int(words[i + 1]); i += 2
        elif w == "SCALARS" and r["npd"] >= 0:
            name = words[i + 1]; i += 3
            if i < n and words[i] == "LOOKUP_TABLE":
                i += 2
            v = []
            while i < n:
                try:
                    v.append(hx(float(words[i]))); i += 1
                except ValueError:
                    break
            r["fields"].append({"name": name, "vals": v})
        else:
            r["after"] += 1 if r["npd"] >= 0 else 0
            i += 1
    return r


def snapshot(d):
    s = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            s[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()[:16]
    return [{"f": k, "h": s[k]} for k in sorted(s)]


@op("geo.vtk")
def geo_vtk(c, o, ev):
    g = c.o[o["obj"]]
    if "rows" in o:
        rows = o["rows"]
    else:
        rows = len(g.get_test_points())
    rng = np.random.RandomState(o["seed"])
    sol = rng.standard_normal((rows, o["cols"])) * 10.0 ** rng.randint(-12, 13, size=(rows, o["cols"]))
    sol[rng.rand(rows, o["cols"]) < 0.1] = 0.0
    dt = o.get("form", "plain")
    if dt == "special":
        for v in (np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7e308):
            sol.flat[rng.randint(sol.size)] = v
    if dt == "float32":
        sol = np.clip(sol, -1e6, 1e6).astype(np.float32)
    elif dt == "int":
        sol = rng.randint(-10 ** 6, 10 ** 6, size=sol.shape)
    elif dt == "fortran":
        sol = np.asfortranarray(sol)
    elif dt == "view":
        sol = np.repeat(np.repeat(sol, 2, axis=0), 2, axis=1)[::2, ::2]
    names = tuple(o["names"]) if dt == "float32" else list(o["names"])
    folder = os.path.join(c.dir, o["folder"]); os.makedirs(folder, exist_ok=True)
    target = {"view": folder + "/", "fortran": pathlib.Path(folder)}.get(dt, folder)
    keep = sol.copy()
    ev.update(obj=o["obj"], rows=rows, cols=o["cols"], names=list(names), sol=arr(sol), file=os.path.join(o["folder"], o["file"]))
    ev["before"] = snapshot(c.dir)
    with Call(ev):
        g.write_vtk(sol, output_path=target, filename=o["file"], data_names=names)
    ev["after"] = snapshot(c.dir)
    ev["same"] = bool(np.array_equal(keep, sol, equal_nan=dt != "int"))
    base = os.path.join(g.output_folder, o["kind"] + ".vtk")
    ev["mesh"] = {k: v for k, v in parse_vtk(base).items() if k in ("points", "cells")}
    p = os.path.join(folder, o["file"])
    ev["exists"] = os.path.exists(p)
    ev["out"] = parse_vtk(p) if ev["ok"] and ev["exists"] else {"points": [], "cells": [], "npd": -1, "fields": [], "after": 0}
