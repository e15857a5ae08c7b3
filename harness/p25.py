"""P25: dense feature normalisation, its layout, and the identification of feature types and parameters."""
import math
import random
from dataclasses import asdict

import numpy as np
import torch

from reagent.parameters import NormalizationParameters
from reagent.preprocessing import normalization as N
from reagent.preprocessing.preprocessor import Preprocessor
from vf import attempt, fx, fxl

TRACE = "P25Trace"
MC = [("MC_Preprocess", "MC_Preprocess.cfg")]
MC_THOROUGH = [("MC_Preprocess", "MC_Preprocess_deep.cfg")]
GEN = [{"name": "mix", "module": "MC_Preprocess", "cfg": "Gen_Preprocess.cfg"}]
NEED = ["layout", "out", "mono", "identify", "roundtrip", "range"]
ASSUMPTIONS = ["power-transform exponents between -2 and 2, deviations at least one half", "action ranges are not empty", "quantiles are strictly increasing",
               "whether a continuous feature is best left as it is, power-transformed or cut into quantiles is a statistical judgement the specification leaves open"]
UNIT = 8192
TYPES = ["BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS", "CLIP_LOG"]
FINE = 2 ** 26


def feature(rng, fid, ty):
    f = {"id": fid, "ty": ty}
    e = lambda lo, hi: rng.randint(lo * 8, hi * 8) / 8
    if ty in ("CONTINUOUS", "BOXCOX"):
        f.update(mean=e(-3, 3), std=rng.choice([0.5, 1.0, 2.0, 3.0, 0.75]))
    if ty == "BOXCOX":
        f.update(shift=e(-2, 4), **{"lambda": rng.choice([0.5, 2.0, 1.0, -1.0, -0.5, 0.25, -2.0])})
    if ty == "ENUM":
        f["values"] = rng.sample(range(0, 12), rng.randint(1, 4))
    if ty == "QUANTILE":
        f["q"] = sorted(rng.sample([i / 8 for i in range(-40, 60)], rng.randint(2, 6)))
    if ty == "CONTINUOUS_ACTION":
        f["min"] = e(-4, 2)
        f["max"] = f["min"] + rng.choice([0.5, 1, 2, 3, 8])
    return f


def entry(rng, f):
    ty = f["ty"]
    if ty == "BINARY":
        return float(rng.choice([0, 1, 1, -2, 0.5]))
    if ty == "PROBABILITY":
        return rng.choice([0.0, 1.0, 1.5, -0.5, rng.randint(1, 63) / 64])
    if ty == "ENUM":
        return float(rng.choice(f["values"] + [13, 0]))
    if ty == "QUANTILE":
        return rng.choice(f["q"] + [rng.randint(-64, 80) / 8, f["q"][0] - 1.0, f["q"][-1] + 5])
    if ty == "DISCRETE_ACTION":
        return float(rng.randint(0, 6 if rng.random() < 0.95 else 9))
    if ty == "CLIP_LOG":
        return rng.choice([0.0, -3.0, rng.randint(1, 400) / 8, 0.125, 0.5])
    if ty == "BOXCOX":
        return rng.randint(-48, 16) / 8 if rng.random() < 0.2 else rng.randint(1, 40) / 8 - f["shift"]
    return rng.randint(-96, 96) / 8


def table(rng, fs, n, miss):
    x, p = [], []
    for _ in range(n):
        here = [rng.random() >= miss for _ in fs]
        x.append([entry(rng, f) if h or rng.random() < 0.3 else N.MISSING_VALUE for f, h in zip(fs, here)])
        p.append([int(h) for h in here])
    return x, p


def scenarios(tier, rng, gens):
    q = tier == "quick"
    for g in gens["mix"]:
        yield pre(rng, [feature(rng, f["id"], f["ty"]) for f in g["fs"]])
    for i in range(150 if q else 3000):
        n = rng.randint(1, 8)
        kinds = rng.choice([TYPES, ["CONTINUOUS", "QUANTILE", "BOXCOX"], ["ENUM", "QUANTILE"], TYPES])
        yield pre(rng, [feature(rng, i, rng.choice(kinds)) for i in rng.sample(range(40), n)])
    for i in range(60 if q else 600):
        ty = rng.choice(["PROBABILITY", "CONTINUOUS", "QUANTILE", "QUANTILE", "CONTINUOUS_ACTION", "BOXCOX", "CLIP_LOG"])
        fs = [feature(rng, 1, ty)]
        if ty == "QUANTILE":
            fs += [feature(rng, 2 + k, ty) for k in range(rng.randint(0, 2))]
        yield {"kind": "mono", "fs": fs, "seed": rng.randint(0, 10 ** 6)}
    for i in range(120 if q else 1500):
        yield identify(rng)
    for i in range(20 if q else 200):
        n = rng.randint(1, 4)
        fs = [feature(rng, i, rng.choice(["CONTINUOUS_ACTION", "CONTINUOUS_ACTION", "DO_NOT_PREPROCESS"])) for i in rng.sample(range(20), n)]
        for f in fs:
            f.setdefault("min", float(rng.randint(-4, 0)))
            f.setdefault("max", float(rng.randint(1, 4)))
        yield {"kind": "range", "fs": fs, "over": {str(f["id"]): [rng.randint(-8, -4) / 2, rng.randint(4, 8) / 2] for f in fs if rng.random() < 0.4}}


def pre(rng, fs):
    order = list(range(len(fs)))
    rng.shuffle(order)
    fs = [fs[i] for i in order]
    lay = sorted(fs, key=lambda f: (TYPES.index(f["ty"]), f["id"]))     # only to choose inputs; the columns are judged by the specification
    batches = []
    for _ in range(rng.randint(1, 3)):
        x, p = table(rng, lay, rng.randint(1, 4), rng.choice([0, 0.3, 0.3, 1]))
        batches.append({"x": x, "p": p, "training": rng.random() < 0.5, "pt": rng.choice(["uint8", "bool", "float"])})
    return {"kind": "pre", "fs": fs, "batches": batches}


def identify(rng):
    n = rng.choice([5, 19, 20, 24, 30, 40, 60, 60])
    shape = rng.choice(["binary", "constant", "prob", "enum", "sparse_enum", "negative_ints", "normal", "skewed", "skewed", "skewed", "heavy", "heavy"])
    r8 = lambda v: round(max(-30, min(30, v)) * 64) / 64
    draw = {"binary": lambda: rng.randint(0, 1), "constant": lambda: 2.5, "prob": lambda: rng.randint(0, 64) / 64, "enum": lambda: rng.randint(0, 6), "sparse_enum": lambda: rng.choice([0, 5, 90]),
            "negative_ints": lambda: rng.randint(-4, 4), "normal": lambda: r8(rng.gauss(1, 2)), "skewed": lambda: r8(min(30, math.exp(rng.gauss(0, 1)))),
            "heavy": lambda: r8(rng.choice([rng.gauss(0, 0.2), rng.gauss(0, 0.2), rng.gauss(0, 0.3), rng.gauss(0, 10)]))}[shape]
    return {"kind": "identify", "v": [float(draw()) for _ in range(n)], "most": rng.choice([3, 7, 100]), "size": rng.choice([2, 4, 5, 10]), "k2": rng.choice([1.0, 5.0, 1000.0]), "skipbox": rng.random() < 0.5,
            "skipq": rng.random() < 0.3, "override": rng.choice(["", "", "", "", "CONTINUOUS", "DO_NOT_PREPROCESS", "CONTINUOUS_ACTION", "ENUM" if shape in ("enum", "binary", "sparse_enum") else ""]),
            "how": rng.choice(["name", "default"]), "seed": 0}


# ---------------------------------------------------------------- runs
def params(f):
    return NormalizationParameters(feature_type=f["ty"], boxcox_lambda=f.get("lambda"), boxcox_shift=f.get("shift"), mean=f.get("mean"), stddev=f.get("std"), possible_values=f.get("values"),
                                   quantiles=f.get("q"), min_value=f.get("min"), max_value=f.get("max"))


def spec(f):
    out = {"id": f["id"], "ty": f["ty"]}
    for k in ("lambda", "shift", "mean", "std", "min", "max", "values", "q"):
        if k in f:
            out[k] = fxl(f[k], UNIT) if isinstance(f[k], list) else fx(f[k], UNIT)
    return out


def run(scn):
    return {"pre": run_pre, "mono": run_mono, "identify": run_identify, "range": run_range}[scn["kind"]](scn)


def run_pre(scn):
    fs = scn["fs"]
    given = {f["id"]: params(f) for f in fs}
    pp, exc = attempt(Preprocessor, given, device=torch.device("cpu"))
    ev = []
    e = {"ev": "layout", "exc": exc, "sorted": [], "sorted2": [], "starts": [], "n": 0}
    if not exc:
        srt, _ = N.sort_features_by_normalization(given)
        e.update(sorted=list(pp.sorted_features), sorted2=list(srt), starts=N.get_feature_start_indices(srt, given), n=N.get_num_output_features(given))
    ev.append(e)
    stored, x2 = attempt(lambda: N.deserialize(N.serialize(given)))
    text = lambda d: [[str(k), repr(sorted(asdict(v).items()))] for k, v in sorted(d.items())]
    ev.append({"ev": "roundtrip", "exc": x2, "given": text(given), "back": [] if x2 else text(stored)})
    if not exc:
        for b in scn["batches"]:
            pp.train(b["training"])
            x, p = torch.tensor(b["x"]), torch.tensor(b["p"]).to({"uint8": torch.uint8, "bool": torch.bool, "float": torch.float}[b["pt"]])
            y, x3 = attempt(pp, x, p)
            ev.append({"ev": "out", "exc": x3, "training": b["training"], "x": fxl(b["x"], UNIT), "p": b["p"], "y": [] if x3 else fxl(y, UNIT)})
        _, x4 = attempt(pp, torch.zeros(2, len(fs)), torch.ones(1, len(fs)))
        ev.append({"ev": "shape", "exc": x4})
    return {"cfg": {"kind": "pre", "fs": [spec(f) for f in fs]}, "ev": ev}


def run_mono(scn):
    rng = random.Random(scn["seed"])
    fs = scn["fs"]
    pp = Preprocessor({f["id"]: params(f) for f in fs}, device=torch.device("cpu")).eval()
    pts = {0.0, 0.01, 0.99, 1.0, 1e-6, -1e-6, 50.0, -50.0}
    for f in fs:
        pts |= set(f.get("q", [])) | {f.get("min", 0.0), f.get("max", 0.0), f.get("mean", 0.0), -f.get("shift", 0.0)}
    pts |= {rng.uniform(-8, 8) for _ in range(20)}
    near = set()
    for v in pts:
        v = np.float32(v)
        near |= {float(v), float(np.nextafter(v, np.float32(-1e9))), float(np.nextafter(v, np.float32(1e9))), float(np.float32(v + 1e-4)), float(np.float32(v - 1e-4))}
    xs = sorted(near)
    ev = []
    for k, f in enumerate(fs):
        y, exc = attempt(pp, torch.tensor([[x] * len(fs) for x in xs]), torch.ones(len(xs), len(fs)))
        lo, hi = {"QUANTILE": (0, 1), "CONTINUOUS_ACTION": (-1, 1)}.get(f["ty"], (-6, 6))
        ev.append({"ev": "mono", "exc": exc, "y": [] if exc else fxl(y[:, k], FINE), "slack": 128, "lo": lo * FINE, "hi": hi * FINE})
    return {"cfg": {"kind": "mono"}, "ev": ev}


def run_identify(scn):
    np.random.seed(0)
    v = scn["v"]
    opts = {"max_unique_enum_values": scn["most"], "quantile_size": scn["size"], "quantile_k2_threshold": scn["k2"], "skip_box_cox": scn["skipbox"], "skip_quantiles": scn["skipq"],
            "feature_overrides": {"f": scn["override"], "g": "ENUM"} if scn["override"] and scn["how"] == "name" else None}
    if scn["override"] and scn["how"] == "default":
        opts["default_feature_override"] = scn["override"]
    p, exc = attempt(N.get_feature_norm_metadata, "f", list(v), opts)
    e = {"ev": "identify", "exc": exc, "none": p is None and not exc, "v": fxl(v, UNIT), "sorted": fxl(sorted(v), UNIT), "most": scn["most"], "size": scn["size"], "skipbox": scn["skipbox"], "skipq": scn["skipq"],
         "override": scn["override"], "out": {}}
    ev = [e]
    if p is not None:
        z = lambda x: fx(0 if x is None else x, UNIT)
        e["out"] = {"ty": p.feature_type, "mean": z(p.mean), "std": z(p.stddev), "min": z(p.min_value), "max": z(p.max_value), "lambda": z(p.boxcox_lambda), "shift": z(p.boxcox_shift),
                    "values": [int(x) for x in p.possible_values or []], "q": fxl(p.quantiles or [], UNIT)}
        if p.feature_type in ("BOXCOX", "CONTINUOUS") and len(set(v)) > 1:
            y, x2 = attempt(lambda: Preprocessor({1: p}, device=torch.device("cpu")).eval()(torch.tensor(v).unsqueeze(1), torch.ones(len(v), 1))[:, 0])
            s = {"ev": "settles", "exc": x2, "mean": 0, "std": 0, "tol": 1000}
            if not x2 and float(y.abs().max()) < 5.9:
                s.update(mean=fx(y.mean(), UNIT), std=fx(y.std(), UNIT))
            ev.append(s)
    return {"cfg": {"kind": "identify"}, "ev": ev}


def run_range(scn):
    fs = scn["fs"]
    r, exc = attempt(N.construct_action_scale_tensor, {f["id"]: params(f) for f in fs}, {int(k): v for k, v in scn["over"].items()})
    want = [dict(lo=fx(scn["over"].get(str(f["id"]), [f["min"]])[0], UNIT), hi=fx(scn["over"].get(str(f["id"]), [0, f["max"]])[1], UNIT)) for f in sorted(fs, key=lambda f: (TYPES.index(f["ty"]), f["id"]))]
    return {"cfg": {"kind": "range"}, "ev": [{"ev": "range", "exc": exc, "want": want, "lo": [] if exc else fxl(r[0][0], UNIT), "hi": [] if exc else fxl(r[1][0], UNIT)}]}
