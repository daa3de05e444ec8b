"""PDE losses: on arbitrary tensors, and at the end of the pipeline."""
import importlib
import numpy as np
import tensorflow as tf
from common import op, num, hx, arr, Call
import fn, fe, geo, data

LOSS = {"poisson": ("poisson2d", "pde_loss_poisson"), "poisson_inverse": ("poisson2d_inverse", "pde_loss_poisson_inverse"), "cd2d": ("cd2d", "pde_loss_cd2d"),
        "cd2d_inverse": ("cd2d_inverse", "pde_loss_cd2d"), "cd2d_inverse_domain": ("cd2d_inverse_domain", "pde_loss_cd2d_inverse_domain"), "helmholtz": ("helmholtz2d", "pde_loss_helmholtz")}


def loss_fn(eq):
    m, f = LOSS[eq]
    return getattr(importlib.import_module("fastvpinns.physics." + m), f)


def pick(rng, shape, pat):
    a = rng.standard_normal(shape)
    if pat == "sparse":
        a[rng.rand(*shape) < 0.7] = 0.0
    elif pat == "hot":
        b = np.zeros(shape); b.flat[rng.randint(b.size)] = 1.0 + rng.rand(); a = b if rng.rand() < 0.5 else a
    elif pat == "mixed":
        a = a * 10.0 ** rng.randint(-4, 4, size=shape)
    elif pat == "ints":
        a = rng.randint(-3, 4, size=shape).astype(float)
    elif pat == "onecell":
        k = rng.randint(shape[0]); b = np.zeros(shape); b[k] = a[k]; a = b
    elif pat == "big":
        a = a * 1e3
    elif pat == "small":
        a = a * 1e-3
    elif pat == "tiny":
        a = a * 1e-4
    return a


NAMES = {"eps": "eps", "b_x": "b_x", "b_y": "b_y", "c": "c", "k": "k"}


def par(v, dtype, ptype):
    if ptype == "float":
        return float(dtype.as_numpy_dtype(v))
    if ptype == "array1":
        return tf.constant([v], dtype=dtype)
    return tf.constant(v, dtype=dtype)


@op("phys.loss")
def loss(c, o, ev):
    rng = np.random.RandomState(o["seed"])
    dtype = tf.float32 if o["dtype"] == "float32" else tf.float64
    C, M, Q = o["C"], o["M"], o["Q"]
    pat = o["pattern"]
    t = {}
    for n, sh in (("v", (C, M, Q)), ("gx", (C, M, Q)), ("gy", (C, M, Q)), ("u", (C, Q)), ("ux", (C, Q)), ("uy", (C, Q)), ("f", (M, C)), ("coef", (C, Q))):
        a = pick(rng, sh, "dense" if pat in ("zero_u",) or (pat == "onecell" and n == "f") else pat)
        if pat == "zero_u" and n in ("u", "ux", "uy") and rng.rand() < 0.7:
            a = a * 0.0
        t[n] = tf.constant(a, dtype=dtype)
    p = {k: par(num(v), dtype, o["ptype"]) for k, v in o["p"].items()}
    ev.update(eq=o["eq"], dtype=o["dtype"], p={k: hx(float(np.asarray(v, dtype=np.float64).reshape(-1)[0])) for k, v in p.items()})
    for n, a in t.items():
        ev[n] = arr(a.numpy())
    names = {"poisson": ["eps"], "poisson_inverse": [], "cd2d": ["eps", "b_x", "b_y", "c"], "cd2d_inverse": ["b_x", "b_y", "c"],
             "cd2d_inverse_domain": ["b_x", "b_y", "c"], "helmholtz": ["eps", "k"]}[o["eq"]]
    if o["extra"]:          # dictionaries may hold further parameters
        names = sorted(set(names + ["eps", "b_x", "b_y", "c", "k"]), reverse=True)
    bil = {n: p[n] for n in names}
    inv = {"eps": p["inv"]} if o["eq"] != "cd2d_inverse_domain" else [t["coef"]]
    f = loss_fn(o["eq"])
    args = [t["v"], t["gx"], t["gy"], t["u"], t["ux"], t["uy"], t["f"], bil] + ([inv] if "inverse" in o["eq"] else [])
    with Call(ev):
        if o["mode"] == "function":
            r = tf.function(lambda: f(*args))()
        else:
            r = f(*args)
        ev["loss"] = arr(np.asarray(r)); ev["dt"] = data.dt(r)


@op("phys.pipe")
def pipe(c, o, ev):
    h = c.o[o["obj"]]
    s = h.fespace
    name = [k for k, v in c.o.items() if v is s][0]
    ev.update(obj=o["obj"], eq=o["eq"], dtype=h.dtype.name, u=fn.desc(o["u"]), f=fn.desc(c.o["f." + name][0]))
    ev["p"] = {k: hx(num(v)) for k, v in o["p"].items()}
    with Call(ev):
        x = np.asarray(h.x_pde_list).astype(np.float64)
        nc = s.n_cells
        vals = [tf.constant(fn.make(d)(x[:, 0], x[:, 1]).reshape(nc, -1), dtype=h.dtype) for d in (o["u"], fn.deriv(o["u"], 0), fn.deriv(o["u"], 1))]
        bil = h.get_bilinear_params_dict_as_tensors(lambda: {k: num(v) for k, v in o["p"].items() if k != "inv"})
        r = loss_fn(o["eq"])(h.shape_val_mat_list, h.grad_x_mat_list, h.grad_y_mat_list, vals[0], vals[1], vals[2], h.forcing_function_list, bil)
        ev["loss"] = arr(np.asarray(r))
