"""P19: planning with world models (every simulated step recorded) and exhaustive sequence planning."""
import itertools
import random

import numpy as np
import torch

import reagent.training  # noqa: first, the planner and the trainers import each other
import reagent.types as rlt
from reagent.models.cem_planner import CEMPlannerNetwork
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.parameters import NormalizationParameters
from reagent.prediction.predictor_wrapper import Seq2RewardPlanShortSeqWithPreprocessor, Seq2RewardWithPreprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.training.utils import gen_permutations
from reagent.training.world_model.seq2reward_trainer import get_Q
from vf import attempt, fx, fxl

TRACE = "P19Trace"
GEN = [{"name": "gen", "module": "MC_Planning", "cfg": "Gen_Planning.cfg"}]
MC = [("MC_Planning", "MC_Planning.cfg")]
NEED = ["call", "plan", "q", "short"]
ASSUMPTIONS = ["world models are tables whose predictions are recorded as they are asked for; every choice a model leaves open is drawn from the listed outcomes",
               "bounds of a continuous action differ in every dimension", "continuous planning is followed without predicted ends"]
UNIT = 8192


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 100 if q else 4096]:
        yield {"kind": "cem", "disc": True, "H": 2, "pop": 16, "ens": 1, "n": 2, "S": 2, "s0": 0, "term": g["term"], "gamma4": g["gamma4"], "seed": rng.randint(0, 10 ** 6),
               "W": [[[dict(x, nexts=[x["next"]]) for x in r] for r in g["w"]]]}
    for i in range(80 if q else 1200):
        yield world(rng, True)
    for i in range(60 if q else 800):
        yield world(rng, False)
    for i in range(120 if q else 1500):
        L, n = rng.randint(1, 4), rng.randint(1, 4)
        if n ** L > 100:
            L = 2
        yield {"kind": "q", "L": L, "n": n, "batch": rng.randint(1, 3), "S": rng.randint(1, 3), "net": rng.choice(["table", "lstm", "lstm"]), "serve": rng.random() < 0.5, "seed": rng.randint(0, 10 ** 6)}


def world(rng, disc):
    n, S, H = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    ens = rng.choice([1, 1, 2, 3])
    M = rng.randint(1, 2)
    w = {"kind": "cem", "disc": disc, "H": H, "pop": rng.choice([1, 5, 9, 10, 12, 20] + ([64] if disc and H < 3 else [])), "ens": ens, "n": n, "S": S, "s0": rng.randrange(S), "term": rng.random() < 0.6,
         "gamma4": rng.choice([0, 2, 3, 4]), "seed": rng.randint(0, 10 ** 6),
         "W": [[[{"r4": rng.randint(-8, 8), "nexts": rng.sample(range(S), min(S, rng.choice([1, 1, 2]))), "done": rng.random() < 0.3} for a in range(n)] for s in range(S)] for m in range(M)]}
    if not disc:
        w.update(term=False, pop=rng.choice([6, 9, 15, 30]), iters=rng.randint(1, 4), D=rng.randint(1, 2), eps=rng.choice([0.001, 0.05, 0.5]), alpha4=rng.choice([0, 1, 2]), ens=rng.choice([1, 1, 2]))
        w["lo"] = [rng.randint(-8, 2) / 4 for _ in range(w["D"])]
        w["hi"] = [x + rng.randint(1, 10) / 4 for x in w["lo"]]
        w["elites"] = rng.randint(1, max(1, w["pop"] // 2))
        w["aim"] = [[[rng.randint(-6, 8) / 4 for _ in range(w["D"])] for _ in range(S)] for m in range(M)]
    return w


class World(torch.nn.Module):
    """a world model given by a table; notes every question it is asked"""

    def __init__(self, scn, m, log):
        super().__init__()
        self.scn, self.m, self.log = scn, m, log

    def forward(self, state, action):
        c = self.scn
        S = c["S"]
        x, u = state.float_features.reshape(-1), action.float_features.reshape(-1)
        s = int(torch.argmax(x))
        if not torch.allclose(x, torch.eye(S)[s], atol=1e-4):
            s = -1
        if c["disc"]:
            a = int(torch.argmax(u))
            if not torch.equal(u, torch.eye(c["n"])[a]):
                a = -1
            row = c["W"][self.m][s][max(a, 0)]
            r = row["r4"] / 4
        else:
            a = fxl(u, UNIT)
            row = c["W"][self.m][s][0]
            r = row["r4"] / 4 - float(((u - torch.tensor(c["aim"][self.m][s])) ** 2).sum())
        self.log.append({"ev": "call", "m": self.m + 1, "s": s, "a": a, "r": fx(r, UNIT), "done": row["done"], "nexts": row["nexts"]})
        K = len(row["nexts"])
        return rlt.MemoryNetworkOutput(
            mus=torch.eye(S)[row["nexts"]].reshape(1, 1, K, S), sigmas=torch.full((1, 1, K, S), 1e-9), logpi=torch.full((1, 1, K), 1.0 / K).log(), reward=torch.tensor([[r]]),
            not_terminal=torch.tensor([[-100.0 if row["done"] else 100.0]]), last_step_lstm_hidden=None, last_step_lstm_cell=None, all_steps_lstm_hidden=None)


def run(scn):
    random.seed(scn["seed"])
    np.random.seed(scn["seed"])
    torch.manual_seed(scn["seed"])
    return run_q(scn) if scn["kind"] == "q" else run_cem(scn)


def run_cem(c):
    log = []
    disc = c["disc"]
    nets = [World(c, m, log) for m in range(len(c["W"]))]
    A = c["n"] if disc else c["D"]
    kw = {} if disc else dict(alpha=c["alpha4"] / 4, epsilon=c["eps"], action_upper_bounds=np.array(c["hi"]), action_lower_bounds=np.array(c["lo"]))
    planner = CEMPlannerNetwork(nets, c.get("iters", 1), c["pop"], c["ens"], c.get("elites", 1), c["H"], c["S"], A, disc, c["term"], c["gamma4"] / 4, **kw)
    out, exc = attempt(planner, rlt.FeatureData(torch.eye(c["S"])[c["s0"]].unsqueeze(0)))
    e = {"ev": "plan", "exc": exc, "a": 0, "act": [], "onehot": True}
    if not exc and disc:
        e["a"] = int(out[0])
        e["onehot"] = bool(torch.equal(torch.as_tensor(out[1]).float().reshape(-1), torch.eye(c["n"])[int(out[0])]))
    elif not exc:
        e["act"] = fxl(torch.as_tensor(out).reshape(-1), UNIT)
    cfg = {"disc": disc, "H": c["H"], "pop": c["pop"], "ens": c["ens"], "iters": c.get("iters", 1), "elites": c.get("elites", 1), "n": c["n"], "S0": c["s0"], "term": c["term"], "gamma": c["gamma4"] * UNIT // 4,
           "lo": fxl(c.get("lo", []), UNIT), "hi": fxl(c.get("hi", []), UNIT), "alpha": c.get("alpha4", 0) * UNIT // 4, "eps": fx(c.get("eps", 0), UNIT), "nets": len(nets)}
    return {"cfg": cfg, "ev": log + [e]}


class SeqTable(torch.nn.Module):
    """a reward for every state and sequence of up to four actions, in tables"""

    def __init__(self, S, n, seed):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.w = torch.randint(-8, 9, (S, 4, n, n), generator=g) / 4
        self.asked = []

    def forward(self, state, action, valid_reward_len=None):
        s = state.float_features[0].argmax(1)
        a = action.float_features.argmax(2)
        for b in range(s.shape[0]):
            self.asked.append((int(s[b]), tuple(a[:, b].tolist())))
        acc = sum(self.w[s, j, a[j], a[j - 1] if j else a[j]] for j in range(a.shape[0]))
        return rlt.Seq2RewardOutput(acc_reward=acc.reshape(-1, 1))


def run_q(c):
    L, n, S, B = c["L"], c["n"], c["S"], c["batch"]
    net = SeqTable(S, n, c["seed"]) if c["net"] == "table" else Seq2RewardNetwork(S, n, 4, random.randint(1, 2))
    # different states when their questions are to be told apart
    B = min(B, S)
    states = torch.eye(S)[random.sample(range(S), B)]

    def value(b, seq):
        with torch.no_grad():
            a = torch.eye(n)[list(seq)].unsqueeze(1)
            return fx(net(rlt.FeatureData(states[b].reshape(1, 1, S).repeat(len(seq), 1, 1)), rlt.FeatureData(a)).acc_reward.item(), UNIT)
    vals = [[[value(b, s) for s in itertools.product(range(n), repeat=k)] for b in range(B)] for k in range(1, L + 1)]
    evs = []

    def q(f):
        if hasattr(net, "asked"):
            net.asked.clear()
        out, exc = attempt(f)
        e = {"ev": "q", "L": L, "n": n, "batch": B, "val": vals[L - 1], "out": fxl(out, UNIT) if not exc else [], "counted": hasattr(net, "asked"), "seen": []}
        if e["counted"]:
            idx = [int(s.argmax()) for s in states]
            e["seen"] = [[sum(x == (i, s) for x in net.asked) for s in itertools.product(range(n), repeat=L)] + [1 for x in net.asked if x[0] == i and (len(x[1]) != L)] for i in idx]
        evs.append(e)
    q(lambda: get_Q(net, states, gen_permutations(L, n)))
    if c["serve"]:
        ident = NormalizationParameters("DO_NOT_PREPROCESS")
        pre = lambda: Preprocessor({i: ident for i in range(S)}, use_gpu=False)
        x = rlt.ServingFeatureData((states, torch.ones_like(states)), {}, {})
        q(lambda: Seq2RewardWithPreprocessor(net, pre(), L, n)(x))
        steps = torch.nn.Linear(S, L)
        with torch.no_grad():
            steps.weight.mul_(3)
            p = torch.softmax(steps(states), dim=1)
            out, exc = attempt(lambda: Seq2RewardPlanShortSeqWithPreprocessor(net, steps, pre(), L, n)(x))
        evs.append({"ev": "short", "L": L, "n": n, "batch": B, "vals": vals, "p": fxl(p, UNIT), "out": fxl(out, UNIT) if not exc else []})
    return {"cfg": {"kind": "q"}, "ev": evs}
