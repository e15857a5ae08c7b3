"""P11: distributional learners on tabular networks through the real training loop."""
import random

import torch

import p10
from learn import TabQ, fit
from p10 import UNIT, batch, quarter, rl_params, sgd
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.parameters import EvaluationParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from vf import attempt, fxl

TRACE = "P11Trace"
GEN = [{"name": "gen", "module": "MC_Distributional", "cfg": "Gen_Distributional.cfg"}]
MC_THOROUGH = [("MC_Distributional", "MC_Distributional_deep.cfg")]
NEED = ["step"]
ASSUMPTIONS = p10.ASSUMPTIONS + ["fixed supports have dyadic spacing"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 300 if q else 5000]:
        s = random_scn(rng, "c51", N=g["N"], small=True)
        s["c"].update(zmin=g["zmin"], gap=g["gap"], boost=[0] * s["c"]["A"])
        for r in s["batches"][0]:
            r["r8"], r["nt"] = g["z"], 0
        yield s
    for _ in range(500 if q else 6000):
        yield random_scn(rng, rng.choice(["c51", "qr"]))


def random_scn(rng, kind, N=None, small=False):
    while True:
        s = p10.random_scn(rng)
        if s["kind"] == "dqn" and not s["c"]["bcq"]:
            break
    c = s["c"]
    s["kind"] = c["kind"] = kind
    c["N"] = N or rng.randint(2, 5)
    c["zmin"], c["gap"] = 8 * rng.randint(-4, 1), rng.choice([2, 4, 8, 16])
    c["lrc"] = rng.choice([1, 2, 4])
    if kind == "c51":
        c["heads"] = "none"
    if small:
        s["batches"] = [b[:2] for b in s["batches"][:1]]
    val = (lambda: rng.randint(-8, 8)) if kind == "c51" else (lambda: rng.randint(-16, 16))
    tab = lambda: [[[val() for _ in range(c["N"])] for _ in range(c["A"])] for _ in range(c["S"])]
    s["q"], s["tq"] = tab(), tab()
    for b in s["batches"]:
        for r in b:
            r["r8"] = 2 * r["r"]
    return s



def run(scn):
    c, kind = scn["c"], scn["kind"]
    rng = random.Random(scn["seed"])
    S, A, M = c["S"], c["A"], c["metrics"]
    names = [str(i) for i in range(A)]
    nets = {"q": TabQ(quarter(scn["q"])), "t": TabQ(quarter(scn["tq"]))}
    rl, opt = rl_params(c, names), sgd(c["lr"] / 16)
    zmax = c["zmin"] + c["gap"] * (c["N"] - 1)
    if kind == "c51":
        wrap = lambda n: CategoricalDQN(n, qmin=c["zmin"] / 8, qmax=zmax / 8, num_atoms=c["N"])
        tr = C51Trainer(wrap(nets["q"]), wrap(nets["t"]), actions=names, rl=rl, double_q_learning=c["double"], num_atoms=c["N"], qmin=c["zmin"] / 8, qmax=zmax / 8, optimizer=opt)
    else:
        kw = {}
        if c["heads"] == "full":
            flat = lambda h: [[v for m in st for v in m] for st in quarter(h)]
            nets.update(rw=TabQ(flat(scn["rw"])), cq=TabQ(flat(scn["cq"])), tcq=TabQ(flat(scn["tcq"])))
            kw = dict(reward_network=nets["rw"], q_network_cpe=nets["cq"], q_network_cpe_target=nets["tcq"], metrics_to_score=["m%d" % i for i in range(M - 1)] or None)
        tr = QRDQNTrainer(nets["q"], nets["t"], actions=names, rl=rl, double_q_learning=c["double"], num_atoms=c["N"], optimizer=opt, cpe_optimizer=sgd(c["lrc"] / 16),
                          evaluation=EvaluationParameters(calc_cpe_in_training=c["heads"] == "full"), **kw)

    def tables():
        o = {"q": fxl(nets["q"].table, UNIT), "tq": fxl(nets["t"].table, UNIT), "rw": [], "cq": [], "tcq": []}
        for k in ("rw", "cq", "tcq"):
            if k in nets:
                o[k] = fxl(nets[k].table.detach().reshape(S, M, A), UNIT)
        return o

    cfg = dict(c, **tables())
    cfg["boost"] = [b * (UNIT // 4) for b in c["boost"]]
    cfg["zmin"], cfg["gap"] = c["zmin"] * (UNIT // 8), c["gap"] * (UNIT // 8)
    evs = []
    rows = lambda b: [dict(r, r=r["r8"] * (UNIT // 8), m=[x * (UNIT // 4) for x in r["m"]]) for r in b]
    bs = [batch(c, [dict(r, r=r["r8"] / 2) for r in b], "dqn", rng) for b in scn["batches"]]
    _, exc = attempt(fit, tr, bs, on_batch_end=lambda b, i: evs.append(dict(tables(), ev="step", exc="", rows=rows(scn["batches"][i]))))
    if exc or len(evs) != len(bs):
        evs.append(dict(tables(), ev="step", exc=exc or "steps missing", rows=[]))
    return {"cfg": cfg, "ev": evs}
