"""P22: counterfactual estimates: the evaluator, its estimators, the adapter over the policy evaluation library, and a learner's own evaluation."""
import math
import random

import numpy as np
import torch

import reagent.training  # noqa
import p21
from reagent.core.observers import ValueListObserver
from reagent.evaluation.cpe import bootstrapped_std_error_of_mean
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.evaluation.evaluator import Evaluator
from reagent.evaluation.ope_adapter import OPEvaluator
from reagent.evaluation.weighted_sequential_doubly_robust_estimator import WeightedSequentialDoublyRobustEstimator
from vf import attempt, fx, fxl

TRACE = "P22Trace"
GEN = [{"name": "gen", "module": "MC_Estimates", "cfg": "Gen_Estimates.cfg"}]
MC = [("MC_Estimates", "MC_Estimates.cfg")]
MC_THOROUGH = [("MC_Estimates", "MC_Estimates_deep.cfg")]
NEED = ["est", "details", "mix", "boot", "names"]
ASSUMPTIONS = ["standard errors are bootstrapped: judged against the spread of what they average, within sampling error", "step-wise weighted estimates are judged where importance weights are multiples of a quarter",
               "how a mixture of more than two step-wise returns is weighted is not judged, only that it is one"]
UNIT = 8192
PARTS = ["direct_method", "inverse_propensity", "doubly_robust", "sequential_doubly_robust", "weighted_doubly_robust", "magic"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 220 if q else 4000]:
        yield scenario(rng, g["lens"], g["kind"], g["g"])
    for i in range(30 if q else 400):
        n = rng.randint(1, 7)
        yield scenario(rng, [rng.randint(1, 5 if n < 6 else 3) for _ in range(n)], "any", rng.randint(0, 8), neat=rng.random() < 0.7)
    for i in range(15 if q else 150):
        lens = [rng.randint(1, 4) for _ in range(rng.randint(2, 5))]
        where = [(m + 1, t) for m, k in enumerate(lens) for t in range(k)]
        rng.shuffle(where)
        cut = rng.randint(1, len(where) - 1)
        yield {"kind": "learner", "scn": p21.scenario(random.Random(rng.random()), [where[:cut], where[cut:]]), "seed": rng.randint(0, 10 ** 6)}
    for i in range(10 if q else 60):
        n = rng.choice([4, 9, 16, 40])
        same = rng.random() < 0.2
        v = rng.randint(-20, 20)
        yield {"kind": "boot", "data": [v if same else rng.randint(-20, 20) for _ in range(n)], "pct": rng.choice([2, 4, 8]), "num": rng.choice([1000, 2000]), "torch": rng.random() < 0.5, "seed": rng.randint(0, 10 ** 6)}


def scenario(rng, lens, kind, g, neat=True):
    A, M = rng.randint(1, 3), rng.randint(0, 2)
    val = lambda: rng.randint(-6, 6)
    quick = lambda: [val() for _ in range(A)]
    eps = []
    for n in lens:
        ep = []
        for t in range(n):
            if neat:
                cuts = sorted(rng.choice([0, 4, 8, 12, 16]) for _ in range(A - 1))
                p = rng.choice([8, 16])
            else:
                cuts = sorted(rng.randint(0, 16) for _ in range(A - 1))
                p = rng.randint(4, 16)
            pi = [b - a for a, b in zip([0] + cuts, cuts + [16])]
            a = rng.randint(1, A) if rng.random() < 0.95 else 0
            x = {"a": a, "pi": pi, "p": p, "r": val(), "mr": quick(), "mrl": val(), "mv": quick(), "met": [val() for _ in range(M)], "mm": [val() for _ in range(A * M)], "mmv": [val() for _ in range(A * M)],
                 "oq": quick(), "act": rng.randint(1, A), "lv": val(), "mvl": val()}
            if kind == "same":
                x["a"] = a = max(a, 1)
                x["pi"], x["p"] = [16 * (k == a - 1) for k in range(A)], 16
            if kind in ("same", "right") and a:
                x["mrl"] = x["mr"][a - 1] = x["r"]
            if kind == "blind":
                x["mr"], x["mv"], x["mrl"] = [0] * A, [0] * A, 0
            ep.append(x)
        eps.append(ep)
    return {"kind": "page", "A": A, "M": M, "g": g, "neat": neat, "eps": eps, "metrics": rng.random() < 0.8, "k": rng.choice([1, 2, 2]), "norm": rng.random() < 0.7, "seed": rng.randint(0, 10 ** 6)}


def page(eps, A, M, ids):
    rows = [x for e in eps for x in e]
    n = len(rows)
    col = lambda k, sc=4: torch.tensor([[x[k] / sc] for x in rows])
    mat = lambda k, sc=4: torch.tensor([[v / sc for v in x[k]] for x in rows])
    lm = col("mrl")
    return EvaluationDataPage(
        mdp_id=torch.tensor([[ids[i]] for i, e in enumerate(eps) for _ in e]), sequence_number=torch.tensor([[t] for e in eps for t in range(len(e))]), logged_propensities=col("p", 16), logged_rewards=col("r"),
        action_mask=torch.tensor([[float(x["a"] == k + 1) for k in range(A)] for x in rows]), model_rewards=mat("mr"), model_rewards_for_logged_action=lm, model_values=mat("mv"), model_values_for_logged_action=col("mvl"),
        model_propensities=mat("pi", 16), logged_values=col("lv"), optimal_q_values=mat("oq"), eval_action_idxs=torch.tensor([[x["act"] - 1] for x in rows]), logged_metrics=mat("met") if M else None,
        logged_metrics_values=mat("met") if M else None, model_metrics=mat("mm") if M else None, model_metrics_values=mat("mmv") if M else None)


def num(v):
    v = float(v)
    return fx(v, UNIT) if math.isfinite(v) and abs(v) < 200000 else 999999937


def estimate(x):
    return {"raw": num(x.raw), "norm": num(x.normalized), "rse": num(x.raw_std_error), "nse": num(x.normalized_std_error)}


def row(x):
    u = lambda k: [v * UNIT // 4 for v in x[k]]
    return {"a": x["a"], "pi": [v * UNIT // 16 for v in x["pi"]], "p": x["p"] * UNIT // 16, "r": x["r"] * UNIT // 4, "mr": u("mr"), "mrl": x["mrl"] * UNIT // 4, "mv": u("mv"), "met": u("met"), "mm": u("mm"), "mmv": u("mmv"), "oq": u("oq"),
            "act": x["act"], "lv": x["lv"] * UNIT // 4, "mvl": x["mvl"] * UNIT // 4}


def results(who, d, names):
    """one event per thing scored"""
    evs = []
    for m, s in [(0, d.reward_estimates)] + [(names.index(k) + 1, v) for k, v in d.metric_estimates.items() if k in names]:
        evs.append({"ev": "est", "who": who, "m": m, "exc": "", "res": {p: estimate(getattr(s, p)) for p in PARTS}})
    return evs


def details(d, names, seen):
    get = lambda f: [num(f[n]) for n in names] if f else []
    return {"ev": "details", "mc": num(d.mc_loss), "mean": get(d.q_value_means), "std": get(d.q_value_stds), "dist": get(d.action_distribution), "told": seen}


def run(scn):
    torch.manual_seed(scn["seed"])
    np.random.seed(scn["seed"] % 2 ** 31)
    random.seed(scn["seed"])
    return {"page": run_page, "learner": run_learner, "boot": run_boot}[scn["kind"]](scn)


def run_page(c):
    A, M = c["A"], c["M"]
    # episodes come one after the other, their identities in any order
    p = page(c["eps"], A, M, random.sample(range(0, 2 * len(c["eps"])), len(c["eps"])))
    names, acts, g = ["m%d" % i for i in range(M)], [chr(97 + i) for i in range(A)], c["g"] / 8
    cfg = {"A": A, "M": M, "g": c["g"], "neat": c["neat"], "E": [[row(x) for x in e] for e in c["eps"]]}
    evs = []
    for who, cls in (("own", Evaluator), ("library", OPEvaluator))[: 1 + (len(c["eps"]) > 1)]:
        ev = cls(acts, g, None, metrics_to_score=names if c["metrics"] else None)
        obs = ValueListObserver("cpe_details")
        ev.add_observer(obs)
        d, exc = attempt(ev.evaluate_post_training, p)
        if exc:
            evs.append({"ev": "est", "who": who, "m": 0, "exc": exc, "res": {}})
            continue
        evs += results(who, d, names)
        evs.append({"ev": "names", "got": sorted(d.metric_estimates), "want": names if c["metrics"] else []})
        evs.append(details(d, acts, obs.values == [d]))
    if c["neat"]:
        e, exc = attempt(WeightedSequentialDoublyRobustEstimator(g).estimate, p, c["k"], c["norm"])
        evs.append({"ev": "mix", "k": c["k"], "norm": c["norm"], "exc": exc, "raw": 0 if exc else num(e.raw)})
    return {"cfg": cfg, "ev": evs}


class Reports:
    def __init__(self):
        self.got = []

    def log(self, **kw):
        self.got += [v for k, v in kw.items() if k == "cpe_details"]

    def flush(self, epoch):
        pass


def run_learner(c):
    """a learner's own evaluation: batches in, reported estimates out; what the evaluation page holds is P21's business"""
    s = c["scn"]
    s["algo"], s["boost"] = "dqn", [0] * s["A"]
    for pg in s["pages"]:
        for r in pg:
            r["a"], r["mask"], r["cand"] = r["cand"][r["a"]] if len(r["cand"]) == s["A"] else 0, [1] * s["A"], list(range(s["A"]))
            r["p"], r["r"] = max(r["p"], 8), max(-6, min(6, r["r"]))
    tr, _ = p21.trainer(s)
    for n in tr.children():
        n.eval()
    rep = Reports()
    tr.set_reporter(rep)
    batches = [p21.batch(s, rows) for rows in s["pages"]]
    pg = tr.gather_eval_data(batches)
    _, exc = attempt(tr.test_epoch_end, batches)
    M, names, acts = s["M"], ["m%d" % i for i in range(s["M"])], [str(i) for i in range(s["A"])]
    rows = [{"a": int(pg.action_mask[i].argmax()) + 1, "pi": fxl(pg.model_propensities[i], UNIT), "p": fx(pg.logged_propensities[i].item(), UNIT), "r": fx(pg.logged_rewards[i].item(), UNIT), "mr": fxl(pg.model_rewards[i], UNIT),
             "mrl": fx(pg.model_rewards_for_logged_action[i].item(), UNIT), "mv": fxl(pg.model_values[i], UNIT), "met": fxl(pg.logged_metrics[i], UNIT) if M else [], "mm": fxl(pg.model_metrics[i], UNIT) if M else [],
             "mmv": fxl(pg.model_metrics_values[i], UNIT) if M else [], "oq": fxl(pg.optimal_q_values[i], UNIT), "act": int(pg.eval_action_idxs[i]) + 1, "lv": fx(pg.logged_values[i].item(), UNIT),
             "mvl": fx(pg.model_values_for_logged_action[i].item(), UNIT)} for i in range(len(pg.logged_rewards))]
    eps, last = [], None
    for i, x in enumerate(rows):
        m = int(pg.mdp_id[i])
        if m != last:
            eps.append([])
        eps[-1].append(x)
        last = m
    cfg = {"A": s["A"], "M": M, "g": s["gamma"], "neat": False, "E": eps}
    if exc or len(rep.got) != 1:
        return {"cfg": cfg, "ev": [{"ev": "est", "who": "own", "m": 0, "exc": exc or "NoReport", "res": {}}]}
    d = rep.got[0]
    return {"cfg": cfg, "ev": results("own", d, names) + [{"ev": "names", "got": sorted(d.metric_estimates), "want": names}, details(d, acts, True)]}


def run_boot(c):
    data = np.array(c["data"]) / 4
    e, exc = attempt(bootstrapped_std_error_of_mean, torch.tensor(data) if c["torch"] else data, c["pct"] / 16, c["num"])
    return {"cfg": {}, "ev": [{"ev": "boot", "data": [v * UNIT // 4 for v in c["data"]], "k": c["pct"] * len(c["data"]) // 16, "exc": exc, "se": 0 if exc else num(e)}]}
