"""Networks and training: the four models on given tensors."""
import os
from fractions import Fraction
from pathlib import Path

import numpy as np
import tensorflow as tf
from common import op, num, hx, arr, Call
import data, phys
from phys import pick, loss_fn

KIND = {"std": ("model", "DenseModel"), "hard": ("model_hard", "DenseModel_Hard"), "inverse": ("model_inverse", "DenseModel_Inverse"), "domain": ("model_inverse_domain", "DenseModel_Inverse_Domain")}


def cls(kind):
    import importlib
    m, c = KIND[kind]
    return getattr(importlib.import_module("fastvpinns.model." + m), c)


def poly_tf(terms):
    t = [(int(a), int(b), num(v)) for a, b, v in terms]
    def f(p):
        x, y = p[:, 0:1], p[:, 1:2]
        s = tf.zeros_like(x)
        for a, b, v in t:
            s = s + tf.constant(v, dtype=p.dtype) * x ** a * y ** b
        return s
    return f


def desc_poly(terms):
    return [{"i": int(a), "j": int(b), "v": hx(num(v))} for a, b, v in terms]


def square(x):
    return x * x


class Rec:
    pass


def layers(m):
    """the dense layers with parameters, in the order they are applied"""
    return [l for l in m.layers if hasattr(l, "kernel")]


def flat(m):
    r = []
    for l in layers(m):
        r += np.asarray(l.kernel).astype(np.float64).reshape(-1).tolist() + np.asarray(l.bias).astype(np.float64).reshape(-1).tolist()
    return [hx(v) for v in r]


def shapes(m):
    return [[int(v) for v in l.kernel.shape] for l in layers(m)]


def inv_of(r):
    if r.kind != "inverse":
        return "0x0p+0"
    return hx(float(np.asarray(r.m.inverse_params_dict["eps"]).reshape(-1)[0]))


def given_inv(r):
    return hx(float(np.asarray(r.inv["eps"]).reshape(-1)[0]))


def state(r, ev):
    ev["w"] = flat(r.m)
    ev["inv"] = inv_of(r)


TENS = ("v", "gx", "gy", "pts", "f", "bp", "bv", "sp", "sv")


def enc_lr(d):
    return {"lr0": hx(d["initial_learning_rate"]), "sched": bool(d["use_lr_scheduler"]), "steps": Fraction(d["decay_steps"]).numerator, "sden": Fraction(d["decay_steps"]).denominator, "rate": hx(d["decay_rate"]), "stair": bool(d["staircase"])}


def make_tensors(o, dtype):
    rng = np.random.RandomState(o["tseed"])
    C, M, Q, nb, ns = o["C"], o["M"], o["Q"], o["nb"], o["ns"]
    t = {}
    for n, sh in (("v", (C, M, Q)), ("gx", (C, M, Q)), ("gy", (C, M, Q)), ("pts", (C * Q, 2)), ("f", (M, C)), ("bp", (nb, 2)), ("bv", (nb, 1)), ("sp", (ns, 2)), ("sv", (ns, 1))):
        a = pick(rng, sh, o["pattern"] if n in ("v", "gx", "gy", "f") else "dense")
        if n in ("pts", "bp", "sp") and o["pattern"] == "ints":
            a = rng.randint(-2, 3, size=sh) / 2.0
        if n in ("bv", "sv") and o["pattern"] == "tiny":
            a = a * 1e-4
        t[n] = tf.constant(a, dtype=dtype)
    return t


@op("train.model")
def model(c, o, ev):
    dtype = tf.float32 if o["dtype"] == "float32" else tf.float64
    r = Rec()
    r.kind, r.dtype = o["kind"], dtype
    lr = {"initial_learning_rate": num(o["lr"]["lr0"]), "use_lr_scheduler": o["lr"]["sched"], "decay_steps": num(o["lr"]["steps"]) if "/" in str(o["lr"]["steps"]) else int(o["lr"]["steps"]), "decay_rate": num(o["lr"]["rate"]), "staircase": o["lr"]["stair"]}
    r.lr, r.dims, r.pd = lr, list(o["dims"]), {}
    if o["share"] and o["share"] in c.o:        # built from the same tensors and parameters as another model
        q = c.o[o["share"]]
        r.t, r.dtype, r.inv, r.inv0 = q.t, q.dtype, q.inv, q.inv0
        if o["sharelr"]:
            r.lr = q.lr
        if o["sharedims"] and o["dims"] == q.dims:
            r.dims = q.dims
        dtype = r.dtype
    else:
        r.t = make_tensors(o, dtype)
        r.inv = {"eps": tf.constant(num(o["inv"]), dtype=dtype)}
        r.inv0 = given_inv(r)
    t = r.t
    ev.update(obj=o["obj"], kind=o["kind"], eq=o["eq"], dims=o["dims"], act=o["act"], dtype=dtype.name, ginv=r.inv0,
              lr=enc_lr(r.lr),
              hard={"b": desc_poly(o["hb"]), "g": desc_poly(o["hg"])})
    for n in TENS:
        ev[n] = arr(t[n].numpy())
    kw = dict(layer_dims=r.dims, learning_rate_dict=r.lr, params_dict={"n_cells": int(t["v"].shape[0])}, loss_function=loss_fn(o["eq"]),
              input_tensors_list=[t["pts"], t["bp"], t["bv"]], orig_factor_matrices=[t["v"], t["gx"], t["gy"]], force_function_list=t["f"], tensor_dtype=dtype)
    if o["act"] != "tanh" or o["actgiven"]:
        kw["activation"] = square if o["act"] == "square" else None if o["act"] == "linear" and o["actgiven"] else o["act"]
    if o["kind"] == "hard":
        if o["hnone"]:
            pass
        else:
            fb, fg = poly_tf(o["hb"]), poly_tf(o["hg"])
            kw["hard_constraint_function"] = lambda x, y: fb(x) * y + fg(x)
    if o["kind"] in ("inverse", "domain"):
        kw["sensor_list"] = [t["sp"], t["sv"]]
    if o["kind"] == "inverse":
        kw["inverse_params_dict"] = r.inv
    with Call(ev):
        r.m = cls(o["kind"])(**kw)
        ev["shapes"] = shapes(r.m)
        state(r, ev)
    if not ev["ok"]:
        return False
    c.o[o["obj"]] = r


@op("train.set")
def setw(c, o, ev):
    r = c.o[o["obj"]]
    ev["obj"] = o["obj"]
    rng = np.random.RandomState(o["wseed"])
    sc = num(o.get("wscale", "1"))
    with Call(ev):
        for l in layers(r.m):
            l.kernel.assign(tf.constant(sc * rng.randint(-16, 17, size=l.kernel.shape) / 8.0, dtype=r.dtype))
            l.bias.assign(tf.constant(sc * rng.randint(-16, 17, size=l.bias.shape) / 8.0, dtype=r.dtype))
        state(r, ev)


@op("train.predict")
def predict(c, o, ev):
    r = c.o[o["obj"]]
    ev.update(obj=o["obj"], how=o["how"])
    rng = np.random.RandomState(o["pseed"])
    x = rng.standard_normal((o["n"], 2))
    if o["grid"]:
        x = rng.randint(-4, 5, size=(o["n"], 2)) / 2.0
    x = x.astype(r.dtype.as_numpy_dtype)
    ev["x"] = arr(x)
    with Call(ev):
        if o["how"] == "call":
            y = np.asarray(r.m(tf.constant(x)))
        elif o["how"] == "predict":
            y = r.m.predict(tf.constant(x), batch_size=o["batch"], verbose=0)
        elif o["how"] == "single":
            y = np.concatenate([np.asarray(r.m(tf.constant(x[i:i + 1]))) for i in range(len(x))])
        else:               # any order, any batches
            p = rng.permutation(len(x))
            y = np.zeros((len(x), o["out"]), dtype=x.dtype)
            for s in range(0, len(x), o["batch"]):
                y[p[s:s + o["batch"]]] = np.asarray(r.m(tf.constant(x[p[s:s + o["batch"]]])))
        ev["y"] = arr(y)


def par(v, dtype, ptype):
    return float(dtype.as_numpy_dtype(v)) if ptype == "float" else tf.constant(v, dtype=dtype)


@op("train.step")
def step(c, o, ev):
    r = c.o[o["obj"]]
    p = {k: par(num(v), r.dtype, o["ptype"]) for k, v in o["p"].items() if k != "inv"}
    if o["pmode"] == "same":        # one dictionary object whose values are changed between the steps
        r.pd.update(p)
        p = r.pd
    b = num(o["beta"])
    beta = int(b) if o["btype"] == "int" else float(r.dtype.as_numpy_dtype(b)) if o["btype"] == "float" else tf.constant(b, dtype=r.dtype)
    ev.update(obj=o["obj"], beta=hx(float(np.asarray(beta, dtype=np.float64))), p={k: hx(float(np.asarray(v, dtype=np.float64))) for k, v in p.items()})
    with Call(ev):
        d = r.m.train_step(beta=beta, bilinear_params_dict=p)
        def one(n):
            a = np.asarray(d[n], dtype=np.float64)
            return [hx(v) for v in a.reshape(-1).tolist()]
        ev["pde"], ev["bnd"], ev["tot"] = one("loss_pde"), one("loss_dirichlet"), one("loss")
        ev["sens"] = one("sensor_loss") if r.kind in ("inverse", "domain") else []
        state(r, ev)


@op("train.recheck")
def recheck(c, o, ev):
    r = c.o[o["obj"]]
    ev["obj"] = o["obj"]
    with Call(ev):
        for n in TENS:
            ev[n] = arr(r.t[n].numpy())
        ev["ginv"], ev["lr"], ev["dims"] = given_inv(r), enc_lr(r.lr), list(r.dims)
        state(r, ev)


def ckpath(c, o):
    p = os.path.join(c.dir, *o["dir"])
    os.makedirs(p, exist_ok=True)
    p = os.path.join(p, o["name"])
    return Path(p) if o["as"] == "Path" else p


@op("train.save")
def save(c, o, ev):
    r = c.o[o["obj"]]
    ev.update(obj=o["obj"], key="/".join(o["dir"] + [o["name"]]))
    with Call(ev):
        r.m.save_weights(str(ckpath(c, o)))
        state(r, ev)


@op("train.load")
def load(c, o, ev):
    r = c.o[o["obj"]]
    ev.update(obj=o["obj"], key="/".join(o["dir"] + [o["name"]]))
    with Call(ev):
        r.m.load_weights(str(ckpath(c, o)))
        state(r, ev)


@op("train.config")
def config(c, o, ev):
    r = c.o[o["obj"]]
    ev.update(obj=o["obj"], key=o["key"])
    with Call(ev):
        c.o["config:" + o["key"]] = (r, r.m.get_config())
        state(r, ev)


@op("train.rebuild")
def rebuild(c, o, ev):
    """a model made from the configuration, possibly with some entries replaced, given the weights of another"""
    got = c.o.get("config:" + o["key"])
    if got is None:
        return False
    old, cfg = got
    src = c.o[o["from"]]
    cfg = dict(cfg)
    r = Rec()
    r.kind, r.dtype, r.t, r.dims, r.pd = old.kind, old.dtype, old.t, old.dims, {}
    r.lr, r.inv, ed = old.lr, old.inv, o["edit"]
    hard = o["hard"]
    if ed == "act":
        cfg["activation"] = square if o["act"] == "square" else o["act"]
    if ed == "lr":
        r.lr = cfg["learning_rate_dict"] = {"initial_learning_rate": num(o["lr"]["lr0"]), "use_lr_scheduler": o["lr"]["sched"], "decay_steps": float(num(o["lr"]["steps"])), "decay_rate": num(o["lr"]["rate"]), "staircase": o["lr"]["stair"]}
    if ed == "hard" and old.kind == "hard":
        fb, fg = poly_tf(hard["b"]), poly_tf(hard["g"])
        cfg["hard_constraint_function"] = lambda x, y: fb(x) * y + fg(x)
    if old.kind == "inverse":
        r.inv = cfg.get("inverse_params_dict", old.inv)
    ev.update(obj=o["obj"], key=o["key"], src=o["from"], edit=ed, act=o["act"], lr=enc_lr(r.lr), hard={"b": desc_poly(hard["b"]), "g": desc_poly(hard["g"])}, ginv=given_inv(r))
    with Call(ev):
        r.m = cls(old.kind).from_config(cfg)
        r.m.set_weights(src.m.get_weights())
        ev["shapes"] = shapes(r.m)
        ev["dtypes"] = sorted({v.dtype.name for v in r.m.trainable_variables})
        ev["count"] = len(r.m.trainable_variables) - len(src.m.trainable_variables)
        state(r, ev)
        ev["fw"], ev["finv"] = flat(src.m), inv_of(src)
    if not ev["ok"]:
        return False
    c.o[o["obj"]] = r

def fresh(o, dtype=tf.float64, edit=None, **more):
    """a small model of a kind, of its own tensors"""
    t = make_tensors(o, dtype)
    if edit:
        t[edit[0]] = edit[1](t[edit[0]])
    kw = dict(layer_dims=[2, 3, 2 if o["kind"] == "domain" else 1], learning_rate_dict={"initial_learning_rate": 0.01, "use_lr_scheduler": False, "decay_steps": 2, "decay_rate": 0.5, "staircase": False},
              params_dict={"n_cells": int(t["v"].shape[0])}, loss_function=loss_fn(o["eq"]), input_tensors_list=[t["pts"], t["bp"], t["bv"]], orig_factor_matrices=[t["v"], t["gx"], t["gy"]],
              force_function_list=t["f"], tensor_dtype=dtype)
    if o["kind"] in ("inverse", "domain"):
        kw["sensor_list"] = [t["sp"], t["sv"]]
    if o["kind"] == "inverse":
        kw["inverse_params_dict"] = {"eps": tf.constant(1.5, dtype=dtype)}
    kw.update(more)
    return cls(o["kind"])(**kw)


@op("train.nonfinite")
def nonfinite(c, o, ev):
    """one datum is not a number, or beyond all numbers: the losses that depend on it say so"""
    def spoil(t):
        a = t.numpy()
        a.flat[o["at"] % a.size] = float(o["value"])
        return tf.constant(a)
    p = {k: tf.constant(num(v), dtype=tf.float64) for k, v in o["p"].items() if k != "inv"}
    ev.update(kind=o["kind"], where=o["where"], value=o["value"])
    with Call(ev):
        m = fresh(o, edit=(o["where"], spoil))
        d = m.train_step(beta=tf.constant(2.0, tf.float64), bilinear_params_dict=p)
        def one(n):
            return [hx(v) for v in np.asarray(d[n], dtype=np.float64).reshape(-1).tolist()]
        ev["pde"], ev["bnd"], ev["tot"] = one("loss_pde"), one("loss_dirichlet"), one("loss")
        ev["sens"] = one("sensor_loss") if o["kind"] in ("inverse", "domain") else []


@op("train.attention")
def attention(c, o, ev):
    """a model with attention and one made from its configuration, on the same points"""
    ev.update(kind=o["kind"])
    rng = np.random.RandomState(o["pseed"])
    x = tf.constant(rng.standard_normal((o["n"], 2)))
    p = {k: tf.constant(num(v), dtype=tf.float64) for k, v in o["p"].items() if k != "inv"}
    with Call(ev):
        a = fresh(o, use_attention=True)
        if o["trained"]:
            a.train_step(beta=tf.constant(2.0, tf.float64), bilinear_params_dict=p)
        b = cls(o["kind"]).from_config(a.get_config())
        b.set_weights(a.get_weights())
        ev["ya"], ev["yb"] = arr(np.asarray(a(x))), arr(np.asarray(b(x)))
