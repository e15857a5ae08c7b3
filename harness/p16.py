"""P16: Reinforce and PPO on a tabular policy: every optimizer step against the specified credit assignment."""
import math

import torch

import reagent.types as rlt
from learn import Recorder
from legacy import sgd
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.reinforce import Reinforce, ReinforceParams
from vf import attempt, fx, fxl

TRACE = "P16Trace"
MC = [("MC_PolicyGradient", "MC_PolicyGradient.cfg")]
NEED = ["episode", "opt", "trained", "refused"]
ASSUMPTIONS = ["policies are tabular softmax policies, optimizers plain SGD", "outcomes that hinge on rounding of a ratio at its clip bound are not judged",
               "normalised episodes have clearly different returns, or a single step whose mean is subtracted"]
UNIT = 8192
S, A = 3, 3


class Tab(torch.nn.Module):
    def __init__(self, table):
        super().__init__()
        self.table = torch.nn.Parameter(torch.tensor(table, dtype=torch.float32))

    def forward(self, state, mask=None):
        v = state.float_features @ self.table
        return v if mask is None else v - (1 - mask.float()) * 1e9


def returns(rs, g, clip):
    out, R = [], 0.0
    for r in reversed(rs):
        R = min(r, clip) + g * R
        out.insert(0, R)
    return out


def std(x):
    m = sum(x) / len(x)
    return math.sqrt(sum((v - m) ** 2 for v in x) / (len(x) - 1))


def episode(rng, o, masked):
    while True:
        T = rng.randint(1, 4)
        s = [rng.randrange(S) for _ in range(T)]
        ok = []
        for _ in range(T):
            m = [1] * A
            if masked and rng.random() < 0.6:
                m[rng.randrange(A)] = 0
            ok.append(m)
        a = [rng.choice([j for j in range(A) if ok[i][j]]) for i in range(T)]
        r = [rng.randint(-8, 8) / 4 for _ in range(T)]
        if o["norm"]:
            if T == 1 and not o["sub"]:
                continue
            R = returns(r, o["gamma"] / 16, o["clip"])
            if T > 1 and (std(R) < 0.4 or max(map(abs, R)) > 4 * std(R)):
                continue
        return {"s": s, "a": a, "r": r, "lp": [round(rng.uniform(-2.2, -0.2), 3) for _ in range(T)], "ok": ok}


def opts(rng):
    algo = rng.choice(["reinforce", "ppo"])
    norm = rng.random() < 0.35
    base = rng.random() < 0.4 and not norm
    return {"algo": algo, "gamma": rng.choice([0, 8, 12, 16]), "lr": rng.choice([1, 2, 4]), "vlr": rng.choice([1, 2, 4]), "temp": rng.choice([1, 2, 2, 4]),
            "clip": rng.choice([0.5, 1.0, 1e6, 1e6]), "norm": norm, "sub": rng.random() < 0.7, "floor": rng.random() < 0.2, "base": base,
            "off": rng.random() < 0.5, "rclip": rng.choice([1.0, 2.0, 1e6]), "eps": rng.choice([0, 1, 2, 4]), "ent": rng.choice([0, 0, 1, 4]),
            "freq": rng.randint(1, 4), "epochs": rng.randint(1, 3), "batch": rng.randint(1, 4)}


def scenarios(tier, rng, gens):
    for i in range(600 if tier == "quick" else 8000):
        o = opts(rng)
        if i % 40 == 0:
            o["norm"] = o["base"] = True
            o["freq"] = 1
        masked = rng.random() < 0.4
        n = o["freq"] * rng.randint(1, 2) + rng.randint(0, max(0, o["freq"] - 1))
        eps = [episode(rng, o, masked) for _ in range(n)]
        yield {"o": o, "masked": masked, "eps": eps, "th": [[rng.randint(-8, 8) / 8 for _ in range(A)] for _ in range(S)], "v": [rng.randint(-8, 8) / 8 for _ in range(S)],
               # logged by the current policy
               "onpol": rng.random() < 0.5, "seed": rng.randint(0, 10 ** 6)}


def run(scn):
    o = scn["o"]
    torch.manual_seed(scn["seed"])
    pol, val = Tab(scn["th"]), (Tab([[x] for x in scn["v"]]) if o["base"] else None)
    sampler = SoftmaxActionSampler(temperature=o["temp"] / 2)
    common = dict(gamma=o["gamma"] / 16, optimizer=sgd(o["lr"] / 8), optimizer_value_net=sgd(o["vlr"] / 8), off_policy=o["off"], reward_clip=o["clip"], normalize=o["norm"],
                  subtract_mean=o["sub"], offset_clamp_min=o["floor"], update_freq=o["freq"])
    p = Policy(scorer=pol, sampler=sampler)
    if o["algo"] == "ppo":
        tr = PPOTrainer(p, update_epochs=o["epochs"], ppo_batch_size=o["batch"], ppo_epsilon=o["eps"] / 16, entropy_weight=o["ent"] / 16, value_net=val, **common)
    else:
        tr = Reinforce(p, ReinforceParams(clip_param=o["rclip"], **common), value_net=val)
    th = lambda: fxl(pol.table, UNIT)
    v = lambda: fxl(val.table[:, 0], UNIT) if val is not None else fxl(scn["v"], UNIT)
    cfg = {"algo": o["algo"], "gamma16": o["gamma"], "lr8": o["lr"], "vlr8": o["vlr"], "temp2": o["temp"], "clip": fx(min(o["clip"], 1000), UNIT), "norm": o["norm"], "sub": o["sub"],
           "floor": o["floor"], "base": o["base"], "off": o["off"], "rclip": fx(min(o["rclip"], 1000), UNIT), "eps": fx(o["eps"] / 16, UNIT),
           "ent": fx(o["ent"] / 16, UNIT) if o["algo"] == "ppo" else 0, "freq": o["freq"], "epochs": o["epochs"], "batch": o["batch"], "th": th(), "v": v()}
    evs = []
    rec = Recorder({"policy": pol, "value": val}, lambda i, own, opt: evs.append({"ev": "opt", "own": "+".join(own), "th": th(), "v": v()}))
    with rec:
        for e in scn["eps"]:
            st = rlt.FeatureData(torch.eye(S)[e["s"]])
            act = torch.eye(A)[e["a"]]
            mask = torch.tensor(e["ok"], dtype=torch.float32) if scn["masked"] else None
            lp = torch.tensor(e["lp"])
            if scn["onpol"]:
                lp = sampler.log_prob(pol(st, mask), act).detach()
            evs.append({"ev": "episode", "tr": {"s": [x + 1 for x in e["s"]], "a": [x + 1 for x in e["a"]], "r": fxl(e["r"], UNIT), "lp": fxl(lp, UNIT), "ok": e["ok"]}})
            _, exc = attempt(tr.train, rlt.PolicyGradientInput(state=st, action=act, reward=torch.tensor(e["r"]), log_prob=lp, possible_actions_mask=mask))
            if exc or (o["norm"] and o["base"]):
                evs.append({"ev": "refused", "exc": exc})
                break
            evs.append({"ev": "trained", "th": th(), "v": v()})
    return {"cfg": cfg, "ev": evs}
