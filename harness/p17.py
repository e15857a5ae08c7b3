"""P17: slate value learning and slate choice, on tabular networks through the real training loop."""
import torch

import reagent.types as rlt
from learn import TabQA, fit
from p10 import onehot, quarter, sgd
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.gym.policies.scorers.slate_q_scorer import slate_q_scorer, slate_q_serving_scorer
from reagent.parameters import RLParameters
from reagent.training.slate_q_trainer import SlateQTrainer
from vf import attempt, fx, fxl

TRACE = "P17Trace"
GEN = [{"name": "gen", "module": "MC_SlateQ", "cfg": "Gen_SlateQ.cfg"}]
NEED = ["step", "act", "absent"]
ASSUMPTIONS = ["networks are tables over one-hot states and items, the optimizer is plain SGD", "all candidates of a choice are present",
               "next slates of terminal steps may hold any index"]
UNIT = 8192


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    down = lambda x: [[v // (UNIT // 4) for v in r] for r in x]
    qv = lambda x: [v // (UNIT // 4) for v in x]
    for g in gg[: 300 if q else 100000]:
        rows = [dict(r, r=qv(r["r"]), vals=qv(r["vals"]), vals2=qv(r["vals2"])) for r in g["rows"]]
        yield {"c": dict(g["c"], S=2, D=2, k=1), "q": down(g["q"]), "tq": down(g["tq"]), "batches": [rows], "act": [], "absent": 0, "seed": 0}
    for i in range(400 if q else 8000):
        yield rand(rng, i % 20 == 0)


def rand(rng, absent):
    S, D, n, k = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 5), 1
    k = rng.randint(1, n)
    c = {"single": rng.random() < 0.6, "gamma": rng.choice([0, 8, 12, 16]), "lr": rng.choice([1, 2, 4]), "tau": rng.choice([0, 1, 4, 16]), "S": S, "D": D, "k": k}
    tab = lambda: [[rng.randint(-12, 12) for _ in range(D)] for _ in range(S)]

    def row(term):
        nt = int(rng.random() < 0.75)
        docs = lambda: [rng.randrange(D) for _ in range(n)]
        vals = lambda: [rng.randint(-6, 6) for _ in range(n)]
        r = {"s": rng.randrange(S), "docs": docs(), "vals": vals(), "a": rng.sample(range(n), k), "r": [rng.randint(-8, 8) for _ in range(k)],
             "m": [int(rng.random() < 0.6) for _ in range(k)], "s2": rng.randrange(S), "docs2": docs(), "vals2": vals(), "a2": rng.sample(range(n), k), "nt": nt}
        return r
    return {"c": c, "q": tab(), "tq": tab(), "batches": [[row(i) for i in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))],
            "act": [{"s": rng.randrange(S), "docs": [rng.randrange(D) for _ in range(n)], "vals": [rng.randint(-6, 6) for _ in range(n)]} for _ in range(rng.randint(1, 3))],
            "absent": int(absent), "seed": rng.randint(0, 10 ** 6)}


class Serving(torch.nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, s, a):
        return ["Q"], self.net(rlt.FeatureData(s[0]), rlt.FeatureData(a[0]))


def docs(c, rows, kd, kv, mask=None):
    D = c["D"]
    return rlt.DocList(float_features=torch.stack([onehot(r[kd], D) for r in rows]), mask=mask, value=torch.tensor([[v / 4 for v in r[kv]] for r in rows]))


def run(scn):
    c = scn["c"]
    S = c["S"]
    torch.manual_seed(scn["seed"])
    qn, tn = TabQA(quarter(scn["q"])), TabQA(quarter(scn["tq"]))
    mk = lambda a, b: SlateQTrainer(a, b, rl=RLParameters(gamma=c["gamma"] / 16, target_update_rate=c["tau"] / 16, maxq_learning=False), optimizer=sgd(c["lr"] / 16), single_selection=c["single"])
    tr = mk(qn, tn)
    fd = rlt.FeatureData
    tabs = lambda: {"q": fxl(qn.table, UNIT), "tq": fxl(tn.table, UNIT)}

    def batch(rows, mask=None):
        blank = scn["seed"] % 2 == 0
        a2 = [r["a2"] if r["nt"] or not blank else [99 + i for i in range(len(r["a2"]))] for r in rows]
        return rlt.SlateQInput(state=fd(onehot([r["s"] for r in rows], S), candidate_docs=docs(c, rows, "docs", "vals", mask)), next_state=fd(onehot([r["s2"] for r in rows], S), candidate_docs=docs(c, rows, "docs2", "vals2")),
                               action=torch.tensor([r["a"] for r in rows]), next_action=torch.tensor(a2), reward=torch.tensor([[x / 4 for x in r["r"]] for r in rows]),
                               reward_mask=torch.tensor([[bool(x) for x in r["m"]] for r in rows]), time_diff=torch.ones(len(rows), 1), step=None,
                               not_terminal=torch.tensor([[float(r["nt"])] for r in rows]))
    fxr = lambda b: [dict(r, r=fxl([x / 4 for x in r["r"]], UNIT), vals=fxl([x / 4 for x in r["vals"]], UNIT), vals2=fxl([x / 4 for x in r["vals2"]], UNIT)) for r in b]
    cfg = dict(c, **tabs())
    evs = []
    if scn["absent"]:
        # the shown item is marked as not there
        rows = scn["batches"][0]
        m = torch.ones(len(rows), len(rows[0]["docs"]), dtype=torch.bool)
        m[0, rows[0]["a"][0]] = False
        _, exc = attempt(fit, mk(TabQA(quarter(scn['q'])), TabQA(quarter(scn['tq']))), [batch(rows, m)])
        evs.append({"ev": "absent", "exc": exc})
    _, exc = attempt(fit, tr, [batch(b) for b in scn["batches"]], on_batch_end=lambda b, i: evs.append(dict(tabs(), ev="step", exc="", rows=fxr(scn["batches"][i]))))
    if exc or len([e for e in evs if e["ev"] == "step"]) != len(scn["batches"]):
        evs.append(dict(tabs(), ev="step", exc=exc or "steps missing", rows=[]))
        return {"cfg": cfg, "ev": evs}
    if scn["act"]:
        n = len(scn["act"][0]["docs"])
        for scorer in (slate_q_scorer(n, qn), slate_q_serving_scorer(n, Serving(qn))):
            out, exc = attempt(lambda: Policy(scorer=scorer, sampler=TopKSampler(k=c["k"])).act(fd(onehot([r["s"] for r in scn["act"]], S), candidate_docs=docs(c, scn["act"], "docs", "vals"))))
            evs.append({"ev": "act", "exc": exc, "rows": [dict(r, vals=fxl([v / 4 for v in r["vals"]], UNIT), a=out.action[i].tolist()) for i, r in enumerate(scn["act"])] if not exc else []})
    return {"cfg": cfg, "ev": evs}
