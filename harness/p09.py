"""P09: action selection (samplers, scorers, random policies)."""
import math

import gym
import numpy as np
import torch

import reagent.types as rlt
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.random_policies import make_random_policy_for_env
from reagent.gym.policies.samplers.continuous_sampler import GaussianSampler
from reagent.gym.policies.samplers.discrete_sampler import EpsilonGreedyActionSampler, GreedyActionSampler, SoftmaxActionSampler
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.gym.policies.scorers.continuous_scorer import sac_scorer
from reagent.gym.policies.scorers.discrete_scorer import discrete_dqn_scorer, parametric_dqn_scorer
from reagent.models.actor import GaussianFullyConnectedActor
from vf import attempt, fx, fxl

TRACE = "P09Trace"
GEN = [{"name": "gen", "module": "MC_ActionSelection", "cfg": "Gen_ActionSelection.cfg"}]
MC_THOROUGH = [("MC_ActionSelection", "MC_ActionSelection_deep.cfg")]
NEED = ["draw", "logp", "update", "entropy", "topk", "multi", "box", "gauss"]
ASSUMPTIONS = ["distributions are judged on 3000 seeded draws with a tolerance of 5 percentage points (> 5 sigma); reported probabilities to 5e-4",
               "ln and atanh of returned Gaussian actions are computed when projecting them to the specification's integers"]
LN2 = math.log(2.0)
N = 3000


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    kinds = ["soft", "eps", "greedy", "random"]
    for i, g in enumerate(gg[: 240 if q else 4000]):
        yield {"kind": kinds[i % 4], "ks": [g["k"]], "mask": g["mask"], "seed": rng.randint(0, 10 ** 6)}
    for i in range(120 if q else 1200):
        n, b = rng.randint(1, 6), rng.randint(1, 5)
        yield {"kind": kinds[i % 3], "ks": [[rng.randint(0, 5) for _ in range(n)] for _ in range(b)], "mask": [], "seed": rng.randint(0, 10 ** 6)}
    for kind, k in (("entropy", 40), ("topk", 60), ("multi", 40), ("box", 40), ("gauss", 60)):
        for _ in range(k if q else 10 * k):
            yield {"kind": kind, "seed": rng.randint(0, 10 ** 6)}


class Q(torch.nn.Module):
    """scores given by the scenario; 2-d or with atoms"""
    def __init__(self, scores, atoms):
        super().__init__()
        self.s, self.atoms = scores, atoms

    def forward(self, x):
        s = self.s.clone()
        if self.atoms:
            d = torch.tensor([-1.0, 1.0])
            return torch.stack([s + v for v in d], dim=2)
        return s


class PQ(torch.nn.Module):
    def __init__(self, scores):
        super().__init__()
        self.s = scores

    def forward(self, state, action):
        row = state.float_features[:, 0].long()
        a = action.float_features.argmax(1)
        return self.s[row, a].unsqueeze(1)


def probs(lp):
    return fx(math.exp(float(lp)) if float(lp) < 20 else 1e9, 10 ** 5)


def run(scn):
    rng = np.random.RandomState(scn["seed"])
    torch.manual_seed(scn["seed"])
    if scn["kind"] in ("soft", "eps", "greedy", "random"):
        return run_dist(scn, rng)
    return globals()["run_" + scn["kind"]](scn, rng)


def run_dist(scn, rng):
    kind, ks, mask = scn["kind"], scn["ks"], scn["mask"]
    n = len(ks[0])
    temp = [1.0, 0.5, 2.0, 4.0][int(rng.randint(4))]
    den = 64
    e0, dn, mn = den // int(2 ** rng.randint(0, 3)), int(rng.randint(1, 3)), int(rng.choice([0, 2, 3, 5, 8, 12]))
    cfg = {"kind": kind, "e": e0, "dn": dn, "dd": 2, "min": mn, "den": den, "tol": 50}
    scores = torch.tensor(ks, dtype=torch.float) * (LN2 * temp if kind == "soft" else 1.0)
    if kind == "soft":
        scores = scores + float(rng.randint(-3, 4))  # a shift changes nothing
    ev = []
    if kind == "random":
        env = type("E", (), {"action_space": gym.spaces.Discrete(n)})()
        pol = make_random_policy_for_env(env)
        ks = [[0] * n]

        def draw(b):
            m = np.array(mask, dtype=bool) if mask else None
            outs = [pol.act(rlt.FeatureData(torch.zeros(1, 2)), m) for _ in range(400)]
            return torch.cat([o.action for o in outs]), torch.cat([o.log_prob for o in outs])
        sampler = None
        cfg["tol"] = 140
    else:
        sampler = {"soft": lambda: SoftmaxActionSampler(temperature=temp),
                   "eps": lambda: EpsilonGreedyActionSampler(e0 / den, dn / 2, mn / den) if mn / den <= dn / 2 else EpsilonGreedyActionSampler(e0 / den, dn / 2),
                   "greedy": lambda: GreedyActionSampler()}[kind]()

        def draw(b):
            row = scores[b:b + 1]
            if mask or rng.randint(2):
                # through the policy: scorer, mask, sampler
                par = not mask and rng.randint(2)
                if par:
                    sc = parametric_dqn_scorer(n, PQ(row))
                    pol = Policy(sc, sampler)
                    outs = [pol.act(rlt.FeatureData(torch.zeros(1, 1)))]
                else:
                    pol = Policy(discrete_dqn_scorer(Q(row, bool(rng.randint(2)))), sampler)
                    m = np.array(mask, dtype=bool) if mask else None
                    outs = [pol.act(rlt.FeatureData(torch.zeros(1, 1)), m) for _ in range(3)]
                outs += [sampler.sample_action(masked(row).repeat(N - len(outs), 1))]
                return torch.cat([o.action for o in outs]), torch.cat([o.log_prob.reshape(-1) for o in outs])
            o = sampler.sample_action(row.repeat(N, 1))
            return o.action, o.log_prob

        def masked(row):
            row = row.clone()
            if mask:
                row[:, ~torch.tensor(mask, dtype=torch.bool)] = -float("inf")
            return row
    rounds = 3 if kind == "eps" else 1
    for r in range(rounds):
        for b, k in enumerate(ks):
            v, exc = attempt(draw, b)
            e = {"ev": "draw", "k": k, "mask": mask, "exc": exc, "counts": [0] * n, "n": N, "lps": []}
            if not exc:
                act, lp = v
                e["n"] = int(act.shape[0])
                onehot = bool(((act == 0) | (act == 1)).all()) and bool((act.sum(1) == 1).all()) and act.shape[1] == n
                e["counts"] = [int(x) for x in act.sum(0)] if onehot else [-1] * n
                idx = act.argmax(1)
                for a in sorted(set(idx.tolist())):
                    vals = lp[idx == a]
                    e["lps"].append([a + 1, probs(vals[0])])
                    far = (vals - vals[0]).abs().argmax()
                    e["lps"].append([a + 1, probs(vals[far])])
            ev.append(e)
            if sampler is not None:
                # score every action of every row of the batch at once
                if not mask:
                    v, exc = attempt(sampler.log_prob, scores.repeat_interleave(n, 0), torch.eye(n).repeat(len(ks), 1))
                    v = v[b * n:(b + 1) * n] if not exc else None
                else:
                    v, exc = attempt(sampler.log_prob, masked(scores[b:b + 1]).repeat(n, 1), torch.eye(n))
                ev.append({"ev": "logp", "k": k, "mask": mask, "exc": exc, "p": [] if exc else [probs(x) for x in v]})
            if exc:
                return {"cfg": cfg, "ev": ev}
        if kind == "eps" and r < rounds - 1:
            if mn / den > dn / 2:
                cfg["min"] = 0
            for _ in range(int(rng.randint(1, 3))):
                _, exc = attempt(sampler.update)
                ev.append({"ev": "update", "exc": exc})
    return {"cfg": cfg, "ev": ev}


DYADIC = [[0, 0], [3, 3], [1, 0, 0], [2, 1, 0, 0], [0, 0, 0, 0], [3, 2, 1, 0, 0], [1, 1, 0, 0, 0, 0, 1], [2, 0, 0, 0, 0]]


def run_entropy(scn, rng):
    by = {}
    for r in DYADIC:
        by.setdefault(len(r), []).append(r)
    n = [2, 3, 4, 5][int(rng.randint(4))]
    rows = []
    for _ in range(int(rng.randint(1, 4))):
        r = list(by[n][int(rng.randint(len(by[n])))])
        rng.shuffle(r)
        rows.append([int(x) for x in r])
    rows = [r for r in rows if math.log2(sum(2 ** x for x in r)).is_integer()] or [[0, 0]]
    temp = [0.5, 1.0, 2.0][int(rng.randint(3))]
    v, exc = attempt(SoftmaxActionSampler(temperature=temp).entropy, torch.tensor(rows).float() * LN2 * temp)
    return {"cfg": {"kind": "entropy"}, "ev": [{"ev": "entropy", "exc": exc, "rows": rows, "h": 0 if exc else fx(float(v) / LN2, 1000)}]}


def run_topk(scn, rng):
    n = int(rng.randint(1, 8))
    k = int(rng.randint(1, n + 1))
    b = int(rng.randint(1, 5))
    s = rng.randint(-9, 10, size=(b, n)) if rng.randint(2) else np.array([rng.permutation(n) for _ in range(b)])
    o, exc = attempt(TopKSampler(k).sample_action, torch.tensor(s).float())
    ev = []
    for i in range(b):
        ev.append({"ev": "topk", "exc": exc, "scores": [int(x) for x in s[i]], "idx": [] if exc else [int(x) + 1 for x in o.action[i]]})
    return {"cfg": {"kind": "topk", "k": k}, "ev": ev}


def run_multi(scn, rng):
    nv = [int(x) for x in rng.randint(1, 5, size=int(rng.randint(1, 5)))]
    pol = make_random_policy_for_env(type("E", (), {"action_space": gym.spaces.MultiDiscrete(nv)})())
    ev = []
    for _ in range(20):
        o, exc = attempt(pol.act, rlt.FeatureData(torch.zeros(1, 2)))
        ev.append({"ev": "multi", "exc": exc, "n": nv, "act": [] if exc else [int(x) for x in o.action.reshape(-1)], "p": 0 if exc else probs(o.log_prob.reshape(()))})
    return {"cfg": {"kind": "multi"}, "ev": ev}


def run_box(scn, rng):
    d, b = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    pol = make_random_policy_for_env(type("E", (), {"action_space": gym.spaces.Box(-7, 9, shape=(d,))})())
    ev = []
    for _ in range(20):
        o, exc = attempt(pol.act, rlt.FeatureData(torch.zeros(b, 2)))
        for i in range(b):
            ev.append({"ev": "box", "exc": exc, "act": [] if exc else fxl(o.action[i], 1000), "p": 0 if exc else probs(o.log_prob[i])})
    return {"cfg": {"kind": "box"}, "ev": ev}


def run_gauss(scn, rng):
    d, b, s = int(rng.randint(1, 4)), int(rng.randint(1, 5)), int(rng.randint(1, 4))
    net = GaussianFullyConnectedActor(s, d, [4], ["linear"])
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.tensor(rng.uniform(-0.5, 0.5, size=tuple(p.shape))))
    x = rlt.FeatureData(torch.tensor(rng.randint(-1, 2, size=(b, s))).float())
    out = sac_scorer(net)(x)
    loc, ls = out.loc.double(), out.scale_log.double()
    ev = []

    def emit(act, lp, lp2, exc):
        for i in range(b):
            a = act[i].double()
            z = (torch.atanh(a) - loc[i]) / ls[i].exp()
            if float(z.abs().max()) > 5 or float(a.abs().max()) > 0.999:
                continue  # fixed point has no precision there
            ev.append({"ev": "gauss", "exc": exc, "act": fxl(a, 1000), "z": fxl(z, 1000), "ls": fxl(ls[i], 1000), "j": fxl((1 - a ** 2).log(), 1000),
                       "lp": fx(lp.reshape(b, -1)[i].sum(), 1000), "lp2": fx(lp2.reshape(b, -1)[i].sum(), 1000)})

    def sampler():
        g = GaussianSampler(net)
        o = Policy(sac_scorer(net), g).act(x)
        return o.action, o.log_prob, g.log_prob(out, o.action)

    def actor():
        with torch.no_grad():
            o = net(x)
            return o.action, o.log_prob, net.get_log_prob(x, o.action)
    for f in (sampler, actor):
        v, exc = attempt(f)
        if exc:
            ev.append({"ev": "gauss", "exc": exc, "act": [], "z": [], "ls": [], "j": [], "lp": 0, "lp2": 0})
        else:
            emit(*v, "")
    if not ev:
        ev.append({"ev": "gauss", "exc": "", "act": [], "z": [], "ls": [], "j": [], "lp": 0, "lp2": 0})
    return {"cfg": {"kind": "gauss"}, "ev": ev}
