"""Hyper-parameter search: the tuner on a stand-in study, the objective on stand-in trials."""
import os, shutil, sys, threading, time, types
import numpy as np
from common import op, num, hx, arr, Call

CTX = {"objective": None, "study": None, "problem": None, "gpus": 0, "barrier": None}
TLS = threading.local()

# ------------------------------------------------------- stand-in for the tuning library
optuna = types.ModuleType("optuna")


class DuplicatedStudyError(Exception):
    pass


class Trial:
    """a trial whose suggestions come from the scenario, moved into the declared range"""

    def __init__(self, number, wants):
        self.number, self.wants, self.params, self.value = number, wants, {}, None
        self.user_attrs = {}

    def _want(self, name):
        w = self.wants.get(name)
        if w is None and name.startswith("layer_"):
            w = self.wants["layer_%d" % (int(name.split("_")[1]) % 5)]
        return w if w is not None else "1/3"

    def _give(self, name, v):
        if name in self.params:
            v = self.params[name]
        self.params[name] = v
        return v

    def suggest_int(self, name, low, high, step=1, log=False):
        w = int(float(num(self._want(name))))
        return self._give(name, low + step * ((min(max(w, low), high) - low) // step))

    def suggest_float(self, name, low, high, step=None, log=False):
        return self._give(name, min(max(num(self._want(name)), low), high))

    def suggest_loguniform(self, name, low, high):
        return self.suggest_float(name, low, high, log=True)

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)

    def suggest_discrete_uniform(self, name, low, high, q):
        return self.suggest_float(name, low, high)

    def suggest_categorical(self, name, choices):
        return self._give(name, choices[int(num(self._want(name))) % len(choices)])

    def report(self, *a, **k):
        pass

    def should_prune(self):
        return False

    def set_user_attr(self, k, v):
        self.user_attrs[k] = v


class Study:
    def __init__(self, name, direction):
        self.study_name, self.direction, self._trials = name, direction, []
        self._lock = threading.Lock()

    def optimize(self, func, n_trials=None, timeout=None, n_jobs=1, catch=(), callbacks=None, gc_after_trial=False, show_progress_bar=False):
        o = CTX["scenario"]
        if CTX["earlier"] is None:
            CTX["earlier"] = [{"i": t.number, "v": hx(t.value), "params": jparam(t.params)} for t in self._trials if t.value is not None]
        n = 40 if n_trials is None else n_trials
        workers = n if n_jobs == -1 else max(1, n_jobs)
        todo = list(range(n))
        errors = []

        def work():
            while True:
                with self._lock:
                    if not todo or errors:
                        return
                    todo.pop()
                    i = len(self._trials)
                    t = Trial(i, o["wants"][i % len(o["wants"])])
                    if o["real"] is False:
                        t.params = {"n_cells_x": 2 + i, "salt": o["salts"][i % len(o["salts"])]}
                    self._trials.append(t)
                try:
                    v = func(t)
                    t.value = v
                except Exception as e:
                    errors.append(e)
        th = [threading.Thread(target=work) for _ in range(min(workers, max(n, 1), 12))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        if errors:
            raise errors[0]

    @property
    def trials(self):
        return list(self._trials)

    @property
    def best_trial(self):
        done = [t for t in self._trials if t.value is not None]
        if not done:
            raise ValueError("Record does not exist.")
        return (max if str(self.direction).lower().endswith("maximize") else min)(done, key=lambda t: t.value)

    @property
    def best_params(self):
        return dict(self.best_trial.params)

    @property
    def best_value(self):
        return self.best_trial.value


def create_study(*, storage=None, sampler=None, pruner=None, study_name=None, direction=None, load_if_exists=False, directions=None):
    key = (storage, study_name)
    if storage is not None and key in CTX["studies"]:
        if not load_if_exists:
            raise DuplicatedStudyError(study_name)
        return CTX["studies"][key]
    s = Study(study_name, direction or "minimize")
    if storage is not None:
        CTX["studies"][key] = s
    CTX["made"].append(s)
    return s


def load_study(*, study_name=None, storage=None, **k):
    return CTX["studies"][(storage, study_name)]


optuna.create_study, optuna.load_study, optuna.Study, optuna.Trial = create_study, load_study, Study, Trial
for n in ("samplers", "pruners", "exceptions", "trial", "study", "logging", "visualization"):
    m = types.ModuleType("optuna." + n)
    setattr(optuna, n, m)
    sys.modules["optuna." + n] = m
optuna.exceptions.DuplicatedStudyError = DuplicatedStudyError
optuna.exceptions.TrialPruned = type("TrialPruned", (Exception,), {})
optuna.TrialPruned = optuna.exceptions.TrialPruned
for n in ("TPESampler", "RandomSampler", "MedianPruner", "NopPruner"):
    for m in (optuna.samplers, optuna.pruners):
        setattr(m, n, lambda *a, **k: None)
optuna.logging.set_verbosity = lambda *a: None
optuna.logging.WARNING = optuna.logging.INFO = 1
sys.modules["optuna"] = optuna

# ------------------------------------------------------- the user's problem
sin_cos = types.ModuleType("sin_cos")
P = lambda: CTX["problem"]
sin_cos.np = np
sin_cos.rhs = lambda x, y: P()["f"][0] + P()["f"][1] * x + P()["f"][2] * y + 0 * (x + y)
sin_cos.exact_solution = lambda x, y: P()["u"][0] + P()["u"][1] * x + P()["u"][2] * y + P()["u"][3] * x * y
sin_cos.get_boundary_function_dict = lambda: {t: sin_cos.exact_solution for t in (1000, 1001, 1002, 1003)}
sin_cos.get_bound_cond_dict = lambda: {t: "dirichlet" for t in (1000, 1001, 1002, 1003)}
sin_cos.get_bilinear_params_dict = lambda: {"eps": P()["eps"]}
sys.modules["sin_cos"] = sin_cos

import tensorflow as tf

# ------------------------------------------------------- stand-in devices
REAL = {"list": tf.config.list_physical_devices, "device": tf.device, "exists": os.path.exists, "isdir": os.path.isdir}


def list_devices(device_type=None):
    r = [d for d in REAL["list"](device_type) if d.device_type != "GPU"]
    if device_type in (None, "GPU"):
        r += [tf.config.PhysicalDevice("/physical_device:GPU:%d" % i, "GPU") for i in range(CTX["gpus"])]
    return r


class Device:
    """records the device a trial runs on"""

    def __init__(self, name):
        self.name = str(name)

    def __enter__(self):
        TLS.dev = getattr(TLS, "dev", []) + [self.name]

    def __exit__(self, *a):
        TLS.dev = TLS.dev[:-1]


tf.config.list_physical_devices = tf.config.experimental.list_physical_devices = list_devices
tf.config.list_logical_devices = lambda t=None: list_devices(t)
tf.config.get_visible_devices = lambda t=None: list_devices(t)
tf.config.experimental.set_memory_growth = lambda d, v: None
tf.config.set_visible_devices = lambda *a, **k: None
tf.config.set_logical_device_configuration = lambda *a, **k: None
tf.device = lambda n: Device(n) if "GPU" in str(n).upper() and CTX["gpus"] else REAL["device"](n)

import fastvpinns.hyperparameter_tuning.objective as om

REAL["objective"] = om.objective


def dispatch(*a, **k):
    return CTX["objective"](*a, **k)


om.objective = dispatch
import fastvpinns.hyperparameter_tuning.optuna_tuner as ot

# ------------------------------------------------------- what a trial builds
from fastvpinns.Geometry.geometry_2d import Geometry_2D
from fastvpinns.FE.fespace2d import Fespace2D
from fastvpinns.model.model import DenseModel


def watch(cls, key):
    init = cls.__init__

    def __init__(self, *a, **k):
        if getattr(TLS, "made", None) is not None:
            TLS.made.setdefault(key, []).append(self)
        init(self, *a, **k)
    cls.__init__ = __init__


watch(Geometry_2D, "geo"); watch(Fespace2D, "space"); watch(DenseModel, "model")
step0 = DenseModel.train_step


def train_step(self, *a, **k):
    if getattr(TLS, "made", None) is not None:
        import inspect
        b = inspect.signature(getattr(step0, "python_function", step0)).bind(self, *a, **k).arguments
        TLS.made.setdefault("beta", []).append(hx(float(np.asarray(b.get("beta", 10)))))
    return (step0.__get__(self, type(self)))(*a, **k)


DenseModel.train_step = train_step


def reset(o):
    CTX.update(scenario=o, gpus=o["gpus"], problem={"u": [num(v) for v in o["u"]], "f": [num(v) for v in o["f"]], "eps": num(o["eps"])})
    CTX.setdefault("studies", {})
    CTX.setdefault("made", [])


def jparam(p):
    return {k: (hx(v) if isinstance(v, float) else v) for k, v in p.items()}


@op("tune.new")
def new(c, o, ev):
    """a fresh set of stored studies"""
    CTX["studies"], CTX["made"] = {}, []
    ev.update(ok=True, exc="")


@op("tune.run")
def run(c, o, ev):
    """OptunaTuner.run with an objective that only takes time and returns a value"""
    reset(o)
    log, lock = [], threading.Lock()
    state = {"running": 0, "started": 0}
    CTX["earlier"] = None

    def objective(trial, num_epochs=None, *a, **k):
        with lock:
            state["running"] += 1; state["started"] += 1
            log.append({"e": "start", "i": trial.number, "epochs": int(num_epochs), "dev": (getattr(TLS, "dev", None) or ["none"])[-1].split("/")[-1].replace("device:", "")})
            mine = state["started"]
        # give the other workers a chance to run at the same time, for the scenario's pattern of delays
        t0 = time.time()
        d = o["delays"][trial.number % len(o["delays"])]
        while time.time() - t0 < 0.01 * d:
            time.sleep(0.002)
        v = num(o["values"][trial.number % len(o["values"])])
        with lock:
            state["running"] -= 1
            log.append({"e": "end", "i": trial.number, "v": hx(v), "params": jparam(trial.params)})
        return v
    CTX["objective"] = objective
    ev.update(n=o["n"], jobs=o["jobs"], epochs=o["epochs"], gpus=o["gpus"], study=o["study"])
    r = None
    with Call(ev):
        kw = {"n_trials": o["n"], "study_name": o["study"], "n_jobs": o["jobs"], "n_epochs": o["epochs"]}
        for k in o["defaults"]:
            kw.pop(k)
        r = ot.OptunaTuner(**kw).run()
    ev["log"], ev["earlier"] = log, CTX["earlier"] or []
    ev["ret"] = jparam(r) if isinstance(r, dict) else {"": "none"}


def record(c, o, made, trial, value):
    """what one call of the real objective built"""
    e = {"suggested": jparam(trial.params), "value": hx(value), "geos": len(made.get("geo", [])), "spaces": len(made.get("space", [])), "models": len(made.get("model", [])), "betas": made.get("beta", [])}
    g, s, m = made["geo"][-1], made["space"][-1], made["model"][-1]
    cl = np.asarray(s.cells)
    e["ncells"] = int(cl.shape[0])
    e["xs"] = sorted(set(np.round(cl[:, :, 0], 9).reshape(-1).tolist())); e["ys"] = sorted(set(np.round(cl[:, :, 1], 9).reshape(-1).tolist()))
    e["nxs"], e["nys"] = len(e["xs"]), len(e["ys"])
    e["lim"] = [hx(e["xs"][0]), hx(e["xs"][-1]), hx(e["ys"][0]), hx(e["ys"][-1])]
    del e["xs"], e["ys"]
    e["nb"] = [int(len(v)) for v in s.boundary_points.values()]
    e["nbd"] = int(len(m.dirichlet_input))
    v = s.get_shape_function_val(0)
    e["nshape"], e["nquad"] = int(v.shape[0]), int(v.shape[1])
    e["fe_type"], e["quad_type"] = s.fe_type, s.quad_type
    # one row of the rule along the cell's edge: a Lobatto rule has points on the edge
    q = np.asarray(s.get_quadrature_actual_coordinates(0))
    e["edge"] = bool(np.abs(q[:, 0] - cl[0][:, 0].min()).min() < 1e-9)
    e["pre"] = [int(t) for t in m.pre_multiplier_val.shape]
    ks = [l.kernel for l in m.layers if hasattr(l, "kernel")]
    e["dims"] = [int(ks[0].shape[0])] + [int(k.shape[1]) for k in ks]
    e["act"] = [l.activation.__name__ for l in m.layers if hasattr(l, "kernel")]
    lr = m.optimizer._learning_rate if hasattr(m.optimizer, "_learning_rate") else m.optimizer.learning_rate
    ds = int(trial.params.get("decay_steps", 1000))
    e["lr"] = [hx(float(np.asarray(lr(tf.constant(k * ds, dtype=tf.int64)))) if callable(lr) else float(np.asarray(lr))) for k in (0, 1, 2, 5)]
    e["steps"] = int(m.optimizer.iterations.numpy())
    pts = np.asarray(g.get_test_points())
    e["u"] = arr(np.asarray(sin_cos.exact_solution(pts[:, 0], pts[:, 1]), dtype=np.float64))
    e["p"] = arr(np.asarray(m(pts)).reshape(-1).astype(np.float64))
    return e


@op("tune.trial")
def trial(c, o, ev):
    """the real objective, for several trials at the same time"""
    reset(o)
    if o["fresh"]:
        shutil.rmtree(os.path.join(c.dir, "output_temp"), ignore_errors=True)
    ts = [Trial(i, w) for i, w in enumerate(o["wants"])]
    res, errs = {}, {}
    # the threads meet where shared folders are examined and made, so that every schedule of "look, then act" occurs
    meet = threading.Barrier(len(ts)) if len(ts) > 1 else None

    def wait():
        if meet is not None and threading.current_thread() is not threading.main_thread():
            try:
                meet.wait(0.3)
            except threading.BrokenBarrierError:
                pass
    hooked = {}
    if meet is not None:
        def look(how, p):
            r = REAL[how](p)
            if "output" in str(p) and not hooked.get(("e", threading.get_ident())):
                hooked[("e", threading.get_ident())] = 1
                wait()
            return r
        os.path.exists, os.path.isdir = (lambda p: look("exists", p)), (lambda p: look("isdir", p))

    def go(t):
        TLS.made = {}
        try:
            v = REAL["objective"](t, o["epochs"])
            res[t.number] = record(c, o, TLS.made, t, float(v))
        except Exception as e:
            errs[t.number] = "%s: %s" % (type(e).__name__, str(e)[:150])
            if os.environ.get("FV_DEBUG"):
                import traceback
                traceback.print_exc(file=sys.__stderr__)
        finally:
            TLS.made = None
    try:
        if len(ts) == 1:
            go(ts[0])
        else:
            th = [threading.Thread(target=go, args=(t,)) for t in ts]
            for t in th:
                t.start()
            for t in th:
                t.join()
    finally:
        os.path.exists, os.path.isdir = REAL["exists"], REAL["isdir"]
    tf.keras.backend.clear_session()
    ev.update(ok=not errs, exc="" if not errs else sorted(errs.values())[0].split(":")[0], msg="" if not errs else sorted(errs.values())[0], epochs=o["epochs"], res=[res[k] for k in sorted(res)], n=len(ts))
