"""P34: slate off-policy evaluation: laws over slates, slate metrics, weights made of rewards, and the slate estimators."""
import itertools
import random

import numpy as np
import torch

import reagent.training  # noqa
from reagent.ope.estimators import slate_estimators as S
from reagent.ope.estimators.types import PredictResults, Trainer
from reagent.ope.utils import Clamper
from vf import attempt, fx

TRACE = "P34Trace"
MC = [("MC_Slates", "MC_Slates.cfg")]
MC_THOROUGH = [("MC_Slates", "MC_Slates_deep.cfg")]
NEED = ["set", "prob", "space", "expect", "rewards", "draw", "draws", "metric", "weigh", "ips", "pbm", "proj", "dm", "dr"]
ASSUMPTIONS = ["weights of items are small whole numbers; a slate has no more slots than items with weight", "relevances in metrics are whole numbers",
               "the pseudo-inverse estimator is judged as the projection on the expected logged indicator that the repository computes, not as the estimator of the paper (a known finding)",
               "self-normalised estimates without any weight are undefined and not judged"]
LIMIT = 60
FINE = 1 << 20
U = 8192


def fxu(v):
    return fx(v, U)


def scenarios(tier, rng, gens):
    q = tier == "quick"
    n = {"dist": (160, 12000), "rows": (90, 8000), "metric": (90, 8000), "weigh": (40, 3000), "est": (200, 16000), "many": (1, 4)}
    for k, (a, b) in n.items():
        for _ in range(a if q else b):
            yield dict(SCN[k](rng), kind=k, seed=rng.randint(0, 10 ** 6))
    for name, d in NAMED.items():
        yield dict(d, name=name)


def row(rng, m, n, zeros=True, distinct=False):
    while True:
        w = rng.sample(range(1, m + 4), m) if distinct else [rng.randint(0 if zeros else 1, 4) for _ in range(m)]
        if sum(x > 0 for x in w) >= n and sum(w) <= 16:
            return w


# ---------------------------------------------------------------- laws
def s_dist(rng):
    m = rng.randint(1, 5)
    top = min(3, m)
    g = rng.random() < 0.3
    w = row(rng, m, top, distinct=g)
    ops = []
    for _ in range(rng.randint(3, 7)):
        k = rng.choice(["prob", "prob", "space", "expect", "expect", "rewards", "draw", "draws", "set"])
        n = rng.randint(1, top)
        if k == "set":
            ops.append(["set", row(rng, m, top, distinct=g)])
        elif k == "prob":
            ops.append([k, rng.sample(range(m), n)])
        elif k == "space":
            ops.append([k, n, rng.choice([-1, -1, -1, 1, 3, 7])])
        elif k == "rewards":
            ops.append([k, n, [rng.randint(-8, 8) for _ in range(m)]])
        else:
            ops.append([k, n])
    return {"m": m, "w": w, "greedy": g, "keyed": rng.random() < 0.3, "slotkeys": rng.random() < 0.3, "scale": rng.choice([1, 1, 0.25, 3]), "as": rng.choice(["list", "tensor", "array"]), "ops": ops}


def s_rows(rng):
    m = rng.randint(1, 5)
    n = rng.randint(1, min(3, m))
    g = rng.random() < 0.4
    same = not g and rng.random() < 0.5
    if g or same:
        rows = [row(rng, m, n, zeros=not g, distinct=g)] * n if same else [row(rng, m, n, zeros=False, distinct=g) for _ in range(n)]
    else:
        rows = [row(rng, m, n, zeros=False) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(["prob", "prob", "draw", "draws"] + (["expect", "rewards"] if g or same or n == 1 else []))
        if k == "prob":
            ops.append([k, rng.sample(range(m), rng.randint(1, n))])
        elif k == "rewards":
            ops.append([k, n, [rng.randint(-8, 8) for _ in range(m)]])
        else:
            ops.append([k, n])
    return {"m": m, "rows": rows, "greedy": g, "keyed": rng.random() < 0.3, "slotkeys": rng.random() < 0.3, "scale": rng.choice([1, 1, 0.25]), "ops": ops}


def item(scn, i):
    return S.SlateItem(10 * i + 3 if scn["keyed"] else i)


def slot(scn, k):
    return S.SlateSlot(7 - 2 * k if scn["slotkeys"] else k)


def slots(scn, n):
    return S.SlateSlots([slot(scn, k) for k in range(n)]) if scn["slotkeys"] else S.SlateSlots(n)


def items_of(scn, vals, cls, **kw):
    if scn["keyed"]:
        return cls({item(scn, i): v for i, v in enumerate(vals)}, **kw)
    how = scn.get("as", "list")
    return cls(list(vals) if how == "list" else torch.tensor(vals) if how == "tensor" else np.array(vals), **kw)


def slate(scn, s):
    return S.make_slate(slots(scn, len(s)), [item(scn, i) for i in s])


def back(scn, x):
    """position of an item, from 1; 0 when it is none"""
    v = x.value if hasattr(x, "value") else None
    if not isinstance(v, int):
        return 0
    return v + 1 if not scn["keyed"] else ((v - 3) // 10 + 1 if v % 10 == 3 else 0)


def fine(x):
    return 999999937 if x != x or abs(x) > 500 else int(round(float(x) * FINE))


def shown(scn, sl, n):
    """the items of a slate in the order of the slots asked; empty when its slots are others"""
    got = list(sl)
    if [k for k, _ in got] != [slot(scn, k) for k in range(n)]:
        return []
    return [back(scn, i) for _, i in got]


def law(scn):
    if "rows" in scn:
        rows = [items_of(scn, [v * scn["scale"] for v in r], S.SlateItemValues) for r in scn["rows"]]
        return S.SlateSlotItemProbabilities({slot(scn, k): r for k, r in enumerate(rows)} if scn["slotkeys"] else rows, greedy=scn["greedy"])
    return items_of(scn, [v * scn["scale"] for v in scn["w"]], S.SlateItemProbabilities, greedy=scn["greedy"])


def table(scn, e, n, m):
    if e is None:
        return []
    if [k for k, _ in e] != [slot(scn, k) for k in range(n)]:
        return [[0] * m]
    return [[fine(e[slot(scn, k)][item(scn, i)]) for i in range(m)] for k in range(n)]


def r_law(scn):
    torch.manual_seed(scn["seed"])
    random.seed(scn["seed"])
    p = law(scn)
    rows = "rows" in scn
    m = scn["m"]
    ev = []
    for o in scn["ops"]:
        k = o[0]
        if k == "set":
            for i, v in enumerate(o[1]):
                p[item(scn, i)] = v * scn["scale"]
            ev.append({"ev": "set", "w": o[1]})
        elif k == "prob":
            x, exc = attempt(lambda: p.slate_probability(slate(scn, o[1])))
            ev.append({"ev": k, "s": [i + 1 for i in o[1]], "p": fine(x) if exc == "" else 0, "exc": exc})
        elif k == "space":
            x, exc = attempt(lambda: list(p.slate_space(slots(scn, o[1]), o[2])))
            ev.append({"ev": k, "n": o[1], "max": o[2], "all": [{"s": [back(scn, i) for i in s], "p": fine(q)} for s, q in x or []], "exc": exc})
        elif k in ("expect", "rewards"):
            x, exc = attempt(lambda: p.slot_item_expectations() if rows else p.slot_item_expectations(slots(scn, o[1])))
            if k == "expect":
                ev.append({"ev": k, "n": o[1], "E": table(scn, x, o[1], m), "exc": exc})
            else:
                if exc == "":
                    y, exc = attempt(lambda: x.expected_rewards(items_of(scn, [v / 4 for v in o[2]], S.SlateItemValues)))
                z, exc = attempt(lambda: [[a, fxu(b)] for a, b in y]) if exc == "" else (None, exc)
                ev.append({"ev": k, "n": o[1], "r": [v * U // 4 for v in o[2]], "v": [b for _, b in z] if exc == "" and [a for a, _ in z] == [slot(scn, j) for j in range(o[1])] else [], "exc": exc})
        elif k == "draw":
            x, exc = attempt(lambda: shown(scn, p.sample_slate(slots(scn, o[1])), o[1]))
            ev.append({"ev": k, "n": o[1], "s": x or [], "exc": exc})
        else:
            N = 40 if scn["greedy"] else 1200
            tally = {}
            exc = ""
            for _ in range(N):
                x, exc = attempt(lambda: shown(scn, p.sample_slate(slots(scn, o[1])), o[1]))
                if exc:
                    break
                tally[tuple(x)] = tally.get(tuple(x), 0) + 1
            ev.append({"ev": k, "n": o[1], "N": N, "all": [{"s": list(s), "c": c} for s, c in sorted(tally.items())], "exc": exc})
    cfg = {"kind": "law", "m": m, "greedy": scn["greedy"], "rows": scn["rows"] if rows else [], "w": [] if rows else scn["w"]}
    return {"cfg": cfg, "ev": ev}


def s_many(rng):
    m = 8
    return {"m": m, "w": [rng.randint(1, 3) for _ in range(m)], "n": m}


def r_many(scn):
    torch.manual_seed(scn["seed"])
    d = dict(scn, keyed=False, slotkeys=False, scale=1, greedy=False)
    x, exc = attempt(lambda: law(d).slot_item_expectations(slots(d, scn["n"])))
    return {"cfg": {"kind": "many", "m": scn["m"], "w": scn["w"]}, "ev": [{"ev": "expect", "n": scn["n"], "E": table(d, x, scn["n"], scn["m"]), "exc": exc}]}


# ---------------------------------------------------------------- metrics
def s_metric(rng):
    m = rng.randint(1, 6)
    top = rng.randint(1, 4)
    rel = [rng.randint(0, top) for _ in range(m)]
    if rng.random() < 0.1:
        rel = [0] * m
    uses = [[rng.choice(["call", "reward", "given", "weights", "values"]), rng.sample(range(m), rng.randint(1, min(4, m)))] for _ in range(rng.randint(2, 6))]
    return {"m": m, "rel": rel, "top": top if rng.random() < 0.7 else rng.randint(1, 4), "uses": uses, "keyed": rng.random() < 0.3, "slotkeys": rng.random() < 0.3,
            "names": [rng.choice(["sum", "dcg", "ndcg", "err"]) for _ in uses]}


def r_metric(scn):
    R = items_of(scn, [float(v) for v in scn["rel"]], S.SlateItemValues)
    made = {"sum": S.SlateMetric(), "dcg": S.DCGSlateMetric(), "ndcg": S.NDCGSlateMetric(R), "err": S.ERRSlateMetric(float(scn["top"]))}
    ev = []
    for (how, s), name in zip(scn["uses"], scn["names"]):
        M, n = made[name], len(s)
        sl = slate(scn, s)

        def go():
            z = slots(scn, n)
            r = sl.slot_values(R)
            keys = [slot(scn, k) for k in range(n)]
            if how == "call":
                return [fxu(M(z, r))]
            if how == "reward":
                return [fxu(M.calculate_reward(z, r))]
            if how == "given":
                return [fxu(M.calculate_reward(z, None, M.slot_values(r), M.slot_weights(z)))]
            v = M.slot_weights(sl.slots) if how == "weights" else M.slot_values(r)
            return [fxu(x) for _, x in v] if [k for k, _ in v] == keys else []
        v, exc = attempt(go)
        ev.append({"ev": "metric", "how": how, "name": name, "s": [i + 1 for i in s], "v": v or [], "exc": exc})
    return {"cfg": {"kind": "metric", "rel": scn["rel"], "top": scn["top"]}, "ev": ev}


# ---------------------------------------------------------------- weights made of rewards
def s_weigh(rng):
    m = rng.randint(1, 6)
    k = rng.choice(["same", "rank", "frechet"])
    return {"m": m, "r": rng.sample(range(1, 12), m), "how": k, "a": rng.choice([-1, 0, 1, 2, 3]) if k == "rank" else rng.choice([1, 2, 3]), "fix": rng.random() < 0.4, "keyed": rng.random() < 0.4, "slotkeys": False}


def r_weigh(scn):
    D = {"same": lambda: S.PassThruDistribution(scn["fix"]), "rank": lambda: S.RankingDistribution(scn["a"] / 2 if scn["a"] >= 0 else -1.0, scn["fix"]),
         "frechet": lambda: S.FrechetDistribution(float(scn["a"]), scn["fix"])}[scn["how"]]()
    R = items_of(scn, [v / 4 for v in scn["r"]], S.SlateItemValues)
    got, exc = attempt(lambda: D(R))
    ok = exc == "" and [back(scn, k) for k, _ in got] == list(range(1, scn["m"] + 1))
    return {"cfg": {"kind": "weigh"}, "ev": [{"ev": "weigh", "how": scn["how"], "a": scn["a"], "r": scn["r"], "fix": bool(scn["fix"]), "is": bool(got.is_deterministic) if exc == "" else False,
                                           "v": [fxu(v) for _, v in got] if ok else [], "kept": [fxu(v) for _, v in R], "exc": exc}]}


# ---------------------------------------------------------------- estimators
def chance(L, g, s):
    a, b = 1, 1
    for k, i in enumerate(s):
        left = [j for j in range(len(L[k])) if j not in s[:k]]
        if g:
            a *= max(left, key=lambda j: L[k][j]) == i
        else:
            a *= L[k][i]
            b *= sum(L[k][j] for j in left) or 1
    return a / b


def policy(rng, m, n, allow, explicit):
    """source of a law: item weights, rows, or a stated chance of the logged slate"""
    k = rng.choice(allow)
    if k == "item":
        g = rng.random() < 0.15
        return {"src": "item", "greedy": g, "rows": [row(rng, m, n, distinct=g)] * n, "p": -1}
    if k == "rows":
        g = rng.random() < 0.2
        return {"src": "rows", "greedy": g, "rows": [row(rng, m, n, zeros=False, distinct=g) for _ in range(n)] if g else [row(rng, m, n, zeros=False)] * n, "p": -1}
    if k == "stated":
        return {"src": rng.choice(["item", "none"]) if explicit else "item", "greedy": False, "rows": [row(rng, m, n)] * n, "p": rng.randint(0, 16)}
    return {"src": "none", "greedy": False, "rows": [[1] * m] * n, "p": -1}


def s_est(rng):
    what = rng.choice(["ips", "ips", "pbm", "pbm", "proj", "dm", "dr", "dr"])
    clamp = rng.choice([[0, 31], [0, 31], [0.5, 2], [0, 1.5], [0.25, 4]])
    N = rng.randint(1, 5)
    model = what in ("dm", "dr")
    m, n0 = rng.randint(2, 4), rng.randint(1, 3)
    one = model or rng.random() < 0.3
    sam = []
    while len(sam) < N:
        if not one:
            m, n0 = rng.randint(1, 4), rng.randint(1, 3)
        n = min(n0, m)
        z = {"m": m, "n": n, "log": policy(rng, m, n, ["item", "item", "rows", "stated"] if what in ("ips", "dr") else ["item", "item", "rows"], False),
             "tgt": policy(rng, m, n, ["item"] if model else (["item", "item", "rows", "stated", "none"] if what == "ips" else ["item", "rows"]), True),
             "s": rng.sample(range(m), n), "r": rng.randint(-16, 16), "gt": rng.choice([rng.randint(-16, 16), "nan"]),
             "pw": [rng.randint(1, 8) for _ in range(n)] if rng.random() < 0.5 else [], "pp": [rng.randint(1, 4) for _ in range(n)] if rng.random() < 0.5 else [],
             "x": [rng.randint(-4, 4) for _ in range(m)]}
        if rng.random() < 0.1:
            z["tgt"] = dict(z["log"]) if not model or z["log"]["src"] == "item" else z["tgt"]
        lg = z["log"]["p"] / 16 if z["log"]["p"] >= 0 else chance(z["log"]["rows"], z["log"]["greedy"], z["s"]) if z["log"]["src"] != "none" else 0
        tg = z["tgt"]["p"] / 16 if z["tgt"]["p"] >= 0 else chance(z["tgt"]["rows"], z["tgt"]["greedy"], z["s"]) if z["tgt"]["src"] != "none" else 0
        if lg > 0 and tg / lg > 20 or (what == "dr" and (lg == 0 and tg > 0)):
            continue
        sam.append(z)
    ratio = rng.choice([0, 1, 0.5, 0.5, 0.25, 0.75]) if model else 0
    feat = (rng.random() < 0.85) if model else False
    weighted = rng.random() < 0.5 if not model else (what == "dr" and (not feat) and rng.random() < 0.5)
    return {"what": what, "lo": clamp[0], "hi": clamp[1], "noclamp": rng.random() < 0.3, "weighted": weighted, "sam": sam, "ratio": ratio, "feat": feat, "again": feat and rng.random() < 0.5, "trainer": not (model and rng.random() < 0.1),
            "coef": [rng.randint(-4, 4) for _ in range(3)], "bias": rng.randint(-8, 8), "keyed": rng.random() < 0.25, "slotkeys": rng.random() < 0.25, "twice": rng.random() < 0.4}


class Model(Trainer):
    """answers with a fixed linear score of the features, and keeps what it was taught"""

    def __init__(self, coef, bias):
        super().__init__()
        self.coef, self.bias, self.taught = coef, bias, []

    @property
    def name(self):
        return "fixed"

    def train(self, data, iterations=1, num_samples=0):
        self._model = 1
        self.taught.append(data)

    def predict(self, x, device=None):
        assert self._model is not None
        c = torch.tensor(self.coef[: x.shape[1]], dtype=torch.double) / 8
        return PredictResults(None, x.double() @ c + self.bias / 8, None)

    def score(self, x, y, weight=None):
        return 0.0

    def save_model(self, file):
        pass

    def load_model(self, file):
        pass


def source(scn, z, side):
    """fields of a log sample for one side ("log" or "tgt")"""
    p = z[side]
    out = {}
    if p["p"] >= 0:
        out["_%s_slate_probability" % side] = p["p"] / 16
    if p["src"] == "item":
        out["_%s_item_probabilities" % side] = items_of(dict(scn, **{"as": "list"}), [float(v) for v in p["rows"][0]], S.SlateItemProbabilities, greedy=p["greedy"])
    elif p["src"] == "rows":
        rows = [items_of(dict(scn, **{"as": "list"}), [float(v) for v in r], S.SlateItemValues) for r in p["rows"]]
        out["_%s_slot_item_probabilities" % side] = S.SlateSlotItemProbabilities({slot(scn, k): r for k, r in enumerate(rows)} if scn["slotkeys"] else rows, greedy=p["greedy"])
    return out


def perslot(scn, vals):
    return S.SlateSlotValues({slot(scn, k): v for k, v in enumerate(vals)}) if scn["slotkeys"] else S.SlateSlotValues(vals)


def sample(scn, z):
    d = source(scn, z, "log")
    d.update(source(scn, z, "tgt"))
    return S.LogSample(
        context=S.SlateContext(S.SlateQuery((1,)), slots(scn, z["n"])), metric=S.SlateMetric(), log_slate=slate(scn, z["s"]), log_reward=z["r"] / 8,
        ground_truth_reward=float("nan") if z["gt"] == "nan" else z["gt"] / 8,
        slot_weights=perslot(scn, [v / 4 for v in z["pw"]]) if z["pw"] else None, slot_probabilities=perslot(scn, [v / 4 for v in z["pp"]]) if z["pp"] else None,
        item_features=items_of(dict(scn, **{"as": "list"}), [torch.tensor([float(v)]) for v in z["x"]], S.SlateItemFeatures) if scn["feat"] else None, **d)


def r_est(scn):
    torch.manual_seed(scn["seed"])
    clamp = None if scn["noclamp"] else Clamper(scn["lo"], scn["hi"])
    T = Model(scn["coef"], scn["bias"]) if scn["trainer"] else None
    E = {"ips": lambda: S.IPSEstimator(clamp, scn["weighted"]), "pbm": lambda: S.PBMEstimator(clamp, scn["weighted"]), "proj": lambda: S.PseudoInverseEstimator(clamp, scn["weighted"]),
         "dm": lambda: S.DMEstimator(T, scn["ratio"]), "dr": lambda: S.DoublyRobustEstimator(T, scn["ratio"], clamp, scn["weighted"])}[scn["what"]]()
    ev = []
    for feat in [scn["feat"]] + ([scn["again"]] if scn["twice"] else []):
        logs = [sample(dict(scn, feat=feat), z) for z in scn["sam"]]
        if T is not None:
            T.taught = []
        x, exc = attempt(lambda: E.evaluate(S.SlateEstimatorInput(logs)))
        e = {"ev": scn["what"], "exc": exc, "feat": feat, "none": exc == "" and x is None, "log": 0, "est": 0, "gt": 0, "w": 0, "taught": []}
        if exc == "" and x is not None:
            e.update(log=fxu(x.log_reward), est=fxu(x.estimated_reward), gt=fxu(x.ground_truth_reward), w=fxu(x.estimated_weight))
        if T is not None:
            e["taught"] = [{"x": [[int(round(float(v))) for v in r] for r in d.train_x], "y": [int(round(8 * float(v))) for v in d.train_y],
                            "vx": [[int(round(float(v))) for v in r] for r in d.validation_x], "vy": [int(round(8 * float(v))) for v in d.validation_y]} for d in T.taught]
        ev.append(e)
    c = lambda z, side: {"has": z[side]["src"] != "none", "rows": z[side]["rows"], "greedy": z[side]["greedy"], "p": z[side]["p"]}
    cfg = {"kind": "est", "what": scn["what"], "lo": 0 if scn["noclamp"] else int(scn["lo"] * U), "hi": 31 * U if scn["noclamp"] else int(scn["hi"] * U), "weighted": scn["weighted"], "trainer": scn["trainer"],
           "take": int(len(logs) * scn["ratio"]) if 0 < scn["ratio"] < 1 else len(logs), "coef": scn["coef"], "bias": scn["bias"],
           "sam": [{"m": z["m"], "n": z["n"], "log": c(z, "log"), "tgt": c(z, "tgt"), "s": [i + 1 for i in z["s"]], "r": z["r"], "gt": [] if z["gt"] == "nan" else [z["gt"]],
                    "pw": z["pw"], "pp": z["pp"], "x": z["x"]} for z in scn["sam"]]}
    return {"cfg": cfg, "ev": ev}


SCN = {"dist": s_dist, "rows": s_rows, "metric": s_metric, "weigh": s_weigh, "est": s_est, "many": s_many}
RUN = {"dist": r_law, "rows": r_law, "metric": r_metric, "weigh": r_weigh, "est": r_est, "many": r_many}
NAMED = {}
for j, rr in enumerate([[[1, 2, 1], [4, 1, 1]], [[2, 1, 3, 1], [1, 4, 1, 1], [1, 1, 1, 3]]]):
    NAMED["rows-differ-%d" % j] = {"kind": "rows", "seed": 1, "m": len(rr[0]), "rows": rr, "greedy": False, "keyed": False, "slotkeys": False, "scale": 1, "ops": [["expect", len(rr)]]}
one = lambda w, s, r, x: {"m": len(w), "n": len(s), "log": {"src": "item", "greedy": False, "rows": [w] * len(s), "p": -1}, "tgt": {"src": "item", "greedy": False, "rows": [x] * len(s), "p": -1}, "s": s, "r": r, "gt": 0, "pw": [], "pp": [], "x": [1, 2, 3][: len(w)]}
base = {"kind": "est", "seed": 1, "lo": 0, "hi": 31, "noclamp": True, "ratio": 0, "feat": False, "trainer": True, "coef": [0, 0, 0], "bias": 0, "keyed": False, "slotkeys": False, "twice": False}
NAMED["paper-self"] = dict(base, what="proj", paper=True, weighted=False, sam=[one([3, 1], [0], 8, [3, 1])])
NAMED["paper-one-slot"] = dict(base, what="proj", paper=True, weighted=False, sam=[one([1, 1, 2], [2], 8, [2, 1, 1])])
# a model that is right about every slate: rewards are the scores, so weights must not matter
NAMED["exact-model-normalised"] = dict(base, what="dr", weighted=True, feat=True, coef=[8, 8, 8], sam=[one([3, 1], [0], 8, [1, 3]), one([3, 1], [0], 8, [1, 3])])


def run(scn):
    out = RUN[scn["kind"]](scn)
    if scn.get("paper"):
        for e in out["ev"]:
            e["ev"] = "paper"
    if scn.get("name") == "exact-model-normalised":
        out["ev"][0]["ev"] = "exact"
    return out
