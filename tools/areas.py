"""Which modules decide which property, and how much is generated."""
TRUST = ["TLC and the Java evaluation of the rational operators (cross-checked against their TLA+ definitions by RatCheck on every run)",
         "the drivers record arguments and results faithfully; numbers travel as exact hexadecimal floats"]

AREA = {
    "Geometry": dict(gen="Geometry", tr="Geometry", drv="geo",
                     mc={"quick": [("MC_Geometry", "MC_Geometry_one"), ("MC_Geometry", "MC_Geometry_two")],
                         "thorough": [("MC_Geometry", "MC_Geometry_deep"), ("MC_Geometry", "MC_Geometry_two")]},
                     assumptions=TRUST + ["exhaustive for the small constants of MC_Geometry; real executions are sampled from catalogues of limits, cell counts, tag sets and mesh files"]),
    "FE": dict(gen="FE", tr="FE", drv="fe",
               mc={"quick": [("MC_FE", "MC_FE"), ("MC_FEHist", "MC_FEHist"), ("MC_FEHist", "MC_FEHist_alias", "NeverChanges")],
                   "thorough": [("MC_FE", "MC_FE_deep"), ("MC_FEHist", "MC_FEHist_deep"), ("MC_FEHist", "MC_FEHist_alias", "NeverChanges")]},
               assumptions=TRUST + ["real executions are sampled from catalogues of orders, families, cells and forcing functions; tolerances about 1e-9 relative to the row scale",
                                    "sine forcing: the function values at the quadrature points are taken from numpy"]),
    "Data": dict(gen="Data", tr="Data", drv="data",
                 mc={"quick": [("MC_DataPairs", "MC_DataPairs"), ("MC_DataPairs", "MC_DataPairs_late", "Paired"), ("MC_DataParams", "MC_DataParams"), ("MC_DataParams", "MC_DataParams_inplace", "Untouched")],
                     "thorough": [("MC_DataPairs", "MC_DataPairs_deep"), ("MC_DataPairs", "MC_DataPairs_late", "Paired"), ("MC_DataParams", "MC_DataParams_deep"), ("MC_DataParams", "MC_DataParams_inplace", "Untouched")]},
                 assumptions=TRUST + ["real executions are sampled from catalogues of meshes, boundary dictionaries, functions, table files and parameter dictionaries",
                                      "boundary and exact-solution functions are polynomials and absolute values of linear forms"]),
    "Physics": dict(gen="Physics", tr="Physics", drv="phys",
                    mc={"quick": [("MC_Patch", "MC_Patch"), ("MC_Patch", "MC_Patch_wrong", "Patch"), ("MC_Loss", "MC_Loss"), ("MC_Loss", "MC_Loss_notrans", "Agree"), ("MC_Loss", "MC_Loss_axis", "Agree")],
                        "thorough": [("MC_Patch", "MC_Patch_deep"), ("MC_Patch", "MC_Patch_wrong", "Patch"), ("MC_Loss", "MC_Loss_deep"), ("MC_Loss", "MC_Loss_notrans", "Agree"), ("MC_Loss", "MC_Loss_axis", "Agree")]},
                    assumptions=TRUST + ["real executions are sampled: tensor extents, contents and parameters for the losses; meshes, families, orders, rules, maps and polynomials for the pipeline",
                                         "the prediction fed to the pipeline is evaluated by the driver at the coordinates of the training tensors"]),
    "Train": dict(gen="Train", tr="Train", drv="train",
                  mc={"quick": [("MC_Grad", "MC_Grad"), ("MC_Grad", "MC_Grad_flat", "GradientOfLoss"), ("MC_Adam", "MC_Adam"), ("MC_Adam", "MC_Adam_shared", "OwnHistory")],
                      "thorough": [("MC_Grad", "MC_Grad_deep"), ("MC_Grad", "MC_Grad_flat", "GradientOfLoss"), ("MC_Adam", "MC_Adam_deep"), ("MC_Adam", "MC_Adam_shared", "OwnHistory")]},
                  assumptions=TRUST + ["real executions are sampled: small networks (up to three hidden layers), linear, relu, square, tanh and sigmoid activations, random tensors, histories of up to six steps of two models",
                                       "the parameters before and after a step are read through the Keras layers; the moments are never read, the specification keeps its own"]),
    "Session": dict(gen="Session", tr="Session", drv="session",
                    mc={"quick": [("MC_Session", "MC_Session"), ("MC_Session", "MC_Session_full"), ("MC_Session", "MC_Session_stream", "Stable"), ("MC_Session", "MC_Session_cache", "Stable")],
                        "thorough": [("MC_Session", "MC_Session_deep"), ("MC_Session", "MC_Session"), ("MC_Session", "MC_Session_stream", "Stable"), ("MC_Session", "MC_Session_cache", "Stable")]},
                    assumptions=TRUST + ["arrays of a session are compared by digest, trained quantities up to the rounding of reordered sums; sessions are sampled from catalogues of settings and interleavings"]),
    "Report": dict(gen="Report", tr="Report", drv="report",
                   mc={"quick": [("MC_Metrics", "MC_Metrics"), ("MC_Metrics", "MC_Metrics_signed", "ZeroIffEqual"), ("MC_Files", "MC_Files"), ("MC_Files", "MC_Files_clean", "NothingLost"), ("MC_Files", "MC_Files_fixed", "Found")],
                       "thorough": [("MC_Metrics", "MC_Metrics_deep"), ("MC_Metrics", "MC_Metrics_signed", "ZeroIffEqual"), ("MC_Files", "MC_Files_deep"), ("MC_Files", "MC_Files_clean", "NothingLost"), ("MC_Files", "MC_Files_fixed", "Found")]},
                   assumptions=TRUST + ["real executions are sampled from catalogues of shapes, memory layouts, types and value patterns, and of helpers, folders, names and data",
                                        "what an image shows is not examined, only that a well-formed file is written anew"]),
    "Config": dict(gen="Config", tr="Config", drv="config",
                   mc={"quick": [("MC_Config", "MC_Config"), ("MC_Config", "MC_Config_overlook", "Sound"), ("MC_Config", "MC_Config_deny", "Complete")],
                       "thorough": [("MC_Config", "MC_Config"), ("MC_Config", "MC_Config_overlook", "Sound"), ("MC_Config", "MC_Config_deny", "Complete")]},
                   assumptions=TRUST + ["wrong values are single alterations of documented values and a catalogue of other names and Python objects; tensor types of TensorFlow other than float32 and float64 are not judged"]),
    "Tuner": dict(gen="Tuner", tr="Tuner", drv="tuner",
                  mc={"quick": [("MC_Tuner", "MC_Tuner"), ("MC_Tuner", "MC_Tuner_any"), ("MC_Tuner", "MC_Tuner_late", "IsSearch"), ("MC_Tuner", "MC_Tuner_wide", "IsSearch"), ("MC_Tuner", "MC_Tuner_last", "IsSearch")],
                      "thorough": [("MC_Tuner", "MC_Tuner_deep"), ("MC_Tuner", "MC_Tuner_any"), ("MC_Tuner", "MC_Tuner_late", "IsSearch"), ("MC_Tuner", "MC_Tuner_wide", "IsSearch"), ("MC_Tuner", "MC_Tuner_last", "IsSearch")]},
                  assumptions=TRUST + ["the tuning library is absent: a stand-in study runs the trials in threads, stand-in trials give the suggestions, stand-in devices record where a trial runs",
                                       "schedules are sampled: delays of the trials, and a meeting point where shared folders are looked for"]),
}
CHECKS = {
    "C01": dict(area="Geometry", k=(48, 400), need=["geo.internal"]),
    "C02": dict(area="Geometry", k=(48, 400), need=["geo.internal"]),
    "C03": dict(area="Geometry", k=(64, 600), need=["geo.read", "geo.read (refused)"]),
    "C04": dict(area="Geometry", k=(64, 600), need=["geo.read", "geo.read (refused)"]),
    "C05": dict(area="Geometry", k=(64, 500), need=["geo.testpts"]),
    "C06": dict(area="Geometry", k=(48, 300), need=["geo.vtk", "geo.vtk (refused)"]),
    "C07": dict(area="FE", k=(48, 96), need=["fe.quad"]),
    "C08": dict(area="FE", k=(150, 600), need=["fe.basis"]),
    "C09": dict(area="FE", k=(180, 720), need=["fe.basis", "fe.get"]),
    "C10": dict(area="FE", k=(120, 1000), need=["fe.get"]),
    "C11": dict(area="FE", k=(80, 800), need=["fe.get"]),
    "C12": dict(area="FE", k=(80, 800), need=["fe.get"]),
    "C14": dict(area="Data", k=(64, 600), need=["data.dirichlet", "data.hdirichlet"]),
    "C15": dict(area="Data", k=(48, 480), need=["data.tensors", "data.testpts", "data.handler (refused)"]),
    "C16": dict(area="Data", k=(48, 480), need=["data.sensor", "data.hsensor"]),
    "C17": dict(area="Data", k=(96, 960), need=["data.params", "data.recheck"]),
    "C18": dict(area="Physics", k=(96, 960), need=["phys.loss"]),
    "C19": dict(area="Physics", k=(72, 720), need=["phys.pipe"]),
    "C20": dict(area="Train", k=(48, 480), need=["train.step", "train.recheck"]),
    "C21": dict(area="Train", k=(48, 480), need=["train.step", "train.recheck"]),
    "C22": dict(area="Train", k=(80, 640), need=["train.predict"]),
    "C27": dict(area="Train", k=(32, 320), need=["train.save", "train.load", "train.step"],
                mc={t: [("MC_Ckpt", "MC_Ckpt" if t == "quick" else "MC_Ckpt_deep")] + [("MC_Ckpt", "MC_Ckpt_" + v, "Uninterrupted") for v in ("moments", "count", "weights")] for t in ("quick", "thorough")}),
    "C28": dict(area="Session", k=(48, 460), need=["ses.call", "ses.process"]),
    "C29": dict(area="Session", k=(24, 240), need=["ses.call"],
                mc={t: [("MC_Held", "MC_Held_fresh" if t == "quick" else "MC_Held_deep"), ("MC_Held", "MC_Held_share")] + [("MC_Held", "MC_Held_" + v, "Unchanged") for v in ("buffer", "inplace", "late")] for t in ("quick", "thorough")}),
    "C30": dict(area="Session", k=(40, 400), need=["ses.call", "ses.call (refused)"],
                mc={t: [("MC_Refuse", "MC_Refuse_first" if t == "quick" else "MC_Refuse_deep")] + [("MC_Refuse", "MC_Refuse_" + v, "NoTrace") for v in ("early", "count")] for t in ("quick", "thorough")}),
    "C31": dict(area="Train", k=(32, 320), need=["train.config", "train.rebuild", "train.step", "train.predict"],
                mc={t: [("MC_Rebuild", "MC_Rebuild_none" if t == "quick" else "MC_Rebuild_deep")] + [("MC_Rebuild", "MC_Rebuild_" + v, i) for v, i in (("forget", "Same"), ("live", "Apart"), ("late", "Same"))] for t in ("quick", "thorough")}),
    "C24": dict(area="Report", k=(96, 960), need=["rep.metric"]),
    "C25": dict(area="Report", k=(48, 480), need=["rep.call"]),
    "C23": dict(area="Config", k=(36, 360), need=["cfg.call", "cfg.call (refused)"]),
    "C26": dict(area="Tuner", k=(24, 240), need=["tune.run", "tune.trial"]),
    "C13": dict(area="FE", k=(64, 600), need=["fe.get", "fe.get (refused)"]),
}
