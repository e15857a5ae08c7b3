"""P10: Q-learning targets and updates, on tabular networks through the real training loop."""
import random

import torch

import reagent.types as rlt
from learn import TabQ, TabQA, fit
from reagent.optimizer.union import Optimizer__Union, classes
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import BCQConfig, DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from vf import attempt, fx, fxl

TRACE = "P10Trace"
GEN = [{"name": "gen", "module": "MC_QLearning", "cfg": "Gen_QLearning.cfg"}]
MC_THOROUGH = [("MC_QLearning", "MC_QLearning_deep.cfg")]
NEED = ["step"]
ASSUMPTIONS = ["networks are tables over one-hot states (and actions), the optimizer is plain SGD; other networks only change how a value is computed",
               "rows that do not end an episode have at least one possible next action"]
UNIT = 8192


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 400 if q else 4000]:
        c = g["c"]
        c = dict(c, boost=[b // 2048 for b in c["boost"]], heads="none")
        tab = lambda x: [[v // 2048 for v in r] for r in x]
        rows = [dict(r, r=r["r"] // 2048) for r in g["rows"]]
        for kind in (["dqn", "pdqn"] if c["boost"] == [0] * c["A"] else ["dqn"]):
            yield {"kind": kind, "c": c, "q": tab(g["q"]), "tq": tab(g["tq"]), "batches": [rows], "seed": rng.randint(0, 10 ** 6)}
    for _ in range(500 if q else 6000):
        yield random_scn(rng)


def random_scn(rng):
    kind = rng.choice(["dqn", "dqn", "pdqn"])
    S, A = rng.randint(1, 4), rng.randint(1, 4)
    c = {"S": S, "A": A, "maxq": rng.random() < 0.7, "double": rng.random() < 0.5, "discount": rng.choice(["const", "const", "time", "steps"]),
         "loss": rng.choice(["mse", "huber"]), "bcq": False, "gamma": rng.choice([0, 4, 8, 12, 15, 16]), "lr": rng.choice([1, 2, 4, 8]),
         "tau": rng.choice([0, 1, 4, 8, 16]), "boost": [0] * A, "metrics": 1, "temp": rng.choice([1, 2]), "imitator": [], "drop": 0, "heads": "none"}
    if kind == "dqn":
        if rng.random() < 0.4:
            c["boost"] = [rng.randint(-6, 6) for _ in range(A)]
        if rng.random() < 0.5:
            c["heads"], c["metrics"] = "full", rng.randint(1, 3)
        if rng.random() < 0.25:
            c["bcq"] = True
            c["imitator"] = [[rng.randint(0, 4) for _ in range(A)] for _ in range(S)]
            c["drop"] = rng.choice([0, 2, 8, 20, 50, 100])
    else:
        c["heads"], c["metrics"] = "reward", rng.randint(1, 3)
    val = lambda: rng.randint(-16, 16)
    tab = lambda: [[val() for _ in range(A)] for _ in range(S)]
    head = lambda: [[[val() for _ in range(A)] for _ in range(c["metrics"])] for _ in range(S)]
    s = {"kind": kind, "c": c, "q": tab(), "tq": tab(), "rw": head(), "cq": head(), "tcq": head(), "seed": rng.randint(0, 10 ** 6), "batches": []}
    for _ in range(rng.randint(1, 3)):
        n, rows = rng.randint(1, 6), []
        ncand = rng.randint(1, A)
        for _ in range(n):
            nt = int(rng.random() < 0.75)
            cand = list(range(A)) if kind == "dqn" else [rng.randrange(A) for _ in range(ncand)]
            s2 = rng.randrange(S)
            mask = [int(rng.random() < 0.6) for _ in cand]
            if nt:
                ok = [i for i in range(len(cand)) if not c["bcq"] or viable(c, s2, cand[i])]
                if not any(mask[i] for i in ok):
                    mask[rng.choice(ok)] = 1
            rows.append({"s": rng.randrange(S), "a": rng.randrange(A), "s2": s2, "a2": rng.randrange(A), "r": rng.randint(-12, 12), "nt": nt,
                         "td": rng.randint(0, 3), "k": rng.randint(1, 3), "cand2": cand, "mask2": mask, "m": [rng.randint(-12, 12) for _ in range(c["metrics"] - 1)]})
        s["batches"].append(rows)
    return s


def viable(c, s, a):
    import math
    x = c["imitator"][s]
    return math.exp(x[a] - max(x)) >= c["drop"] / 100


def sgd(lr):
    return Optimizer__Union(SGD=classes["SGD"](lr=lr))


def rl_params(c, names):
    return RLParameters(gamma=c["gamma"] / 16, target_update_rate=c["tau"] / 16, maxq_learning=c["maxq"], q_network_loss=c["loss"], temperature=float(c["temp"]),
                        reward_boost={names[i]: b / 4 for i, b in enumerate(c["boost"]) if b} or None,
                        use_seq_num_diff_as_time_diff=c["discount"] == "time", multi_steps=2 if c["discount"] == "steps" else None)


def onehot(xs, n, zero=()):
    t = torch.zeros(len(xs), n)
    for i, x in enumerate(xs):
        if i not in zero:
            t[i, x] = 1
    return t


def batch(c, rows, kind, rng):
    S, A = c["S"], c["A"]
    col = lambda k, sc=1.0: torch.tensor([[r[k] / sc] for r in rows])
    fd = rlt.FeatureData
    # what follows a terminal step carries no information: any action (or none) may be recorded
    blank = {i for i, r in enumerate(rows) if not r["nt"] and rng.random() < 0.5}
    ex = rlt.ExtraData(action_probability=torch.ones(len(rows), 1))
    if c["metrics"] > 1:
        ex.metrics = torch.tensor([[x / 4 for x in r["m"]] for r in rows])
    base = dict(state=fd(onehot([r["s"] for r in rows], S)), next_state=fd(onehot([r["s2"] for r in rows], S)), reward=col("r", 4),
                time_diff=col("td"), step=torch.tensor([[r["k"]] for r in rows]), not_terminal=col("nt"), extras=ex)
    a, a2 = onehot([r["a"] for r in rows], A), onehot([r["a2"] for r in rows], A, blank)
    mask2 = torch.tensor([[float(x) for x in r["mask2"]] for r in rows])
    if kind == "dqn":
        mask1 = torch.tensor([[float(x == r["a"] or rng.random() < 0.5) for x in range(A)] for r in rows])
        return rlt.DiscreteDqnInput(action=a, next_action=a2, possible_actions_mask=mask1, possible_next_actions_mask=mask2, **base)
    cands = torch.cat([onehot(r["cand2"], A) for r in rows])
    return rlt.ParametricDqnInput(action=fd(a), next_action=fd(a2), possible_actions=fd(cands.clone()), possible_actions_mask=torch.ones_like(mask2),
                                  possible_next_actions=fd(cands), possible_next_actions_mask=mask2, **base)


def quarter(x):
    return [quarter(v) for v in x] if isinstance(x, list) else x / 4


def run(scn):
    c, kind = scn["c"], scn["kind"]
    rng = random.Random(scn["seed"])
    S, A, M = c["S"], c["A"], c["metrics"]
    names = [str(i) for i in range(A)]
    qn, tn = TabQ(quarter(scn["q"])) if kind == "dqn" else TabQA(quarter(scn["q"])), TabQ(quarter(scn["tq"])) if kind == "dqn" else TabQA(quarter(scn["tq"]))
    nets = {"q": qn, "t": tn}
    rl, opt = rl_params(c, names), sgd(c["lr"] / 16)
    if kind == "dqn":
        kw = {}
        if c["heads"] == "full":
            flat = lambda h: [[v for m in st for v in m] for st in quarter(h)]
            nets.update(rw=TabQ(flat(scn["rw"])), cq=TabQ(flat(scn["cq"])), tcq=TabQ(flat(scn["tcq"])))
            kw = dict(q_network_cpe=nets["cq"], q_network_cpe_target=nets["tcq"], metrics_to_score=["m%d" % i for i in range(M - 1)] or None)
        if c["bcq"]:
            kw.update(bcq=BCQConfig(drop_threshold=c["drop"] / 100), imitator=TabQ([[float(v) for v in r] for r in c["imitator"]]))
        tr = DQNTrainer(qn, tn, nets.get("rw"), actions=names, rl=rl, double_q_learning=c["double"], optimizer=opt,
                        evaluation=EvaluationParameters(calc_cpe_in_training=c["heads"] == "full"), **kw)
    else:
        rw = torch.zeros(S, A, M)
        if "rw" in scn:
            rw = torch.tensor(quarter(scn["rw"])).permute(0, 2, 1)
        nets["rw"] = TabQA(rw.tolist())
        c = dict(c, heads="reward")
        tr = ParametricDQNTrainer(qn, tn, nets["rw"], rl=rl, double_q_learning=c["double"], optimizer=opt)

    def tables():
        o = {"q": fxl(qn.table, UNIT), "tq": fxl(tn.table, UNIT), "rw": [], "cq": [], "tcq": []}
        for k in ("rw", "cq", "tcq"):
            if k in nets:
                tb = nets[k].table.detach()
                o[k] = fxl(tb.reshape(S, M, A) if kind == "dqn" else tb.permute(0, 2, 1), UNIT)
        return o

    cfg = dict(c, **tables())
    cfg["boost"] = [b * (UNIT // 4) for b in c["boost"]]
    cfg["imitator"] = [[v * UNIT for v in r] for r in c["imitator"]]
    cfg["drop"] = c["drop"] * 32768 // 100
    evs = []
    rows = lambda b: [dict(r, r=r["r"] * (UNIT // 4), m=[x * (UNIT // 4) for x in r["m"]]) for r in b]
    _, exc = attempt(fit, tr, [batch(c, b, kind, rng) for b in scn["batches"]],
                     on_batch_end=lambda b, i: evs.append(dict(tables(), ev="step", exc="", rows=rows(scn["batches"][i]))))
    if exc or len(evs) != len(scn["batches"]):
        evs.append(dict(tables(), ev="step", exc=exc or "steps missing", rows=[]))
    return {"cfg": cfg, "ev": evs}
