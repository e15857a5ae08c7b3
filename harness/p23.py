"""P23: the library of off-policy estimators: bandits, episodes, tables of states, and the small types they are built on."""
import math
import multiprocessing
import os
import random
import tempfile

import numpy as np
import torch

import reagent.training  # noqa
from reagent.ope.estimators import contextual_bandits_estimators as B
from reagent.ope.estimators import sequential_estimators as Q
from reagent.ope.estimators.estimator import Evaluator
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace, PredictResults, Trainer
from reagent.ope.test.envs import Environment
from reagent.ope.trainers import rl_tabular_trainers as T
from reagent.ope.utils import Clamper, RunningAverage
from vf import attempt, fx, fxl, limit

TRACE = "P23Trace"
GEN = [{"name": "bandit", "module": "MC_OffPolicy", "cfg": "Gen_OffPolicy_Bandit.cfg"}, {"name": "seq", "module": "MC_OffPolicy", "cfg": "Gen_OffPolicy_Seq.cfg"}]
MC = [("MC_OffPolicy", "MC_OffPolicy_%s.cfg" % k) for k in ("bandit", "episodes", "tables")]
MC_THOROUGH = [("MC_OffPolicy", "MC_OffPolicy_%s.cfg" % k) for k in ("bandit_deep", "episodes_deep")]
NEED = ["bandit", "seq", "table", "improve", "average", "plain", "learnt", "running", "clamp", "policy", "values", "runs", "dice", "step"]
ASSUMPTIONS = ["unweighted importance sampling averages each step over the episodes that have it (the library's convention)", "a candidate the logging policy never takes has weight zero when switching (the library's convention)",
               "a self-normalised estimate without any weight is undefined and not judged", "a sampled policy's preferences are total returns (the library's convention)"]
U = 8192
LIMIT = 60


def scenarios(tier, rng, gens):
    q = tier == "quick"
    for name, n in (("bandit", 300), ("seq", 260)):
        gg = gens[name]
        rng.shuffle(gg)
        for g in gg[: n if q else 4000]:
            for _ in range(1 if q else 4):
                yield (bandit if name == "bandit" else seq)(rng, g)
    for i in range(20 if q else 200):
        yield trained(rng)
    for i in range(30 if q else 300):
        yield dict(table(rng), kind="dp", eps=rng.choice([0, 0, 2, 4]))
        yield dict(table(rng, acyclic=rng.random() < 0.5), kind="improve")
    for i in range(30 if q else 300):
        yield dict(table(rng), kind="mc", once=rng.random() < 0.6, times=rng.randint(1, 6), most=rng.randint(2, 9), horizon=rng.randint(1, 6))
        if i % 3 == 0:
            yield dict(table(rng), kind="plain", times=rng.randint(1, 5), horizon=rng.randint(1, 6))
            yield dict(table(rng), kind="learnt", once=rng.random() < 0.6, times=rng.randint(1, 4), horizon=rng.randint(1, 6))
    for i in range(30 if q else 300):
        vals = [rng.choice([rng.randint(-9, 9), rng.randint(-9, 9), "nan", "inf", "-inf"]) for _ in range(rng.randint(0, 8))]
        yield {"kind": "small", "init": rng.choice(["nan", rng.randint(-4, 4)]), "vals": vals, "lo": rng.randint(-6, 4), "hi": rng.randint(-4, 6)}
        yield {"kind": "policy", "A": rng.randint(1, 4), "eps": rng.choice([0, 1, 2, 4]), "cuts": [rng.randint(0, 8) for _ in range(3)]}
        n = rng.randint(1, 5)
        yield {"kind": "values", "keyed": rng.random() < 0.5, "as": rng.choice(["list", "tensor", "array"]), "vals": [rng.randint(-2, 8) for _ in range(n)], "seed": rng.randint(0, 10 ** 6),
               "ops": [[rng.choice(["probability", "up", "down", "greedy", "set", "replace", "sample"]), rng.randint(1, n), rng.randint(0, 8), [rng.randint(0, 8) for _ in range(n)]] for _ in range(rng.randint(2, 12))]}
    for i in range(8 if q else 60):
        logs = [bandit(rng, {"what": "ips", "n": rng.randint(1, 4), "A": 2, "clamp": "none", "c": 0, "rmax": True, "none": False})["S"] for _ in range(rng.randint(1, 5))]
        yield {"kind": "runs", "logs": logs, "A": 2, "ests": rng.sample(["ips", "dm", "dr", "top"], rng.randint(1, 3)), "workers": rng.choice([0, 1, 2, 3])}
    for i in range(24 if q else 300):
        yield {"kind": "dice", "det": i % 2 == 0, "avg": i // 2 % 2 == 0, "deg": rng.choice([3, 4, 6]), "batch": rng.choice([1, 2]), "lr": rng.choice([1, 4, 16]), "seed": rng.randint(0, 10 ** 6),
               "scn": seq(rng, {"what": "dm", "lens": rng.choice([[1], [2], [1, 2], [2, 2]]), "g": rng.choice([2, 4, 6]), "clamp": False, "gaps": False})}


def split(rng, A, parts):
    cuts = sorted(rng.randint(0, parts) for _ in range(A - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [parts])]


def lp(rng, A):
    """logging probabilities in quarters: powers of two, possibly none for a candidate"""
    opts = {1: [[4]], 2: [[2, 2], [4, 0]], 3: [[2, 1, 1], [2, 2, 0], [4, 0, 0]]}[A]
    p = list(rng.choice(opts))
    rng.shuffle(p)
    return p


def bandit(rng, g):
    A = g["A"]
    S = []
    for _ in range(g["n"]):
        l = lp(rng, A)
        while g["clamp"] == "both" and 0 in l and A > 1:
            l = [2, 2] if A == 2 else rng.sample([2, 1, 1], 3)
        a = 0 if g["none"] and rng.random() < 0.4 else rng.randint(1, A)
        q = [rng.randint(-6, 8) for _ in range(A)]
        S.append({"a": a, "r": rng.randint(-4, 8), "lp": l, "tp": split(rng, A, 4), "q": q, "qa": q[a - 1] if a else 0, "gt": rng.choice([99, rng.randint(-4, 8), rng.randint(-4, 8)])})
    lo, hi = {"none": (0, 64), "top": (0, rng.choice([2, 4, 6])), "both": (rng.choice([1, 2, 4]), rng.choice([5, 7, 9]))}[g["clamp"]]
    return {"kind": "bandit", "what": g["what"], "A": A, "S": S, "lo": lo, "hi": hi, "clamped": g["clamp"] != "none", "cuts": g["c"], "rmax": 0 if g["rmax"] else rng.choice([4, 8, 12]), "halves": False}


def trained(rng):
    g = {"what": rng.choice(["dm", "dr"]), "n": 2 * rng.randint(2, 5), "A": rng.randint(1, 3), "clamp": rng.choice(["none", "top"]), "c": 0, "rmax": True, "none": False}
    s = bandit(rng, g)
    s["halves"] = True
    return s


def table(rng, acyclic=False):
    n, A = rng.randint(1, 3), rng.randint(1, 3)
    P = []
    for s in range(n):
        row = []
        for a in range(A):
            outs = rng.sample(range(s + 2 if acyclic else 1, n + 2), rng.randint(1, min(2, n + 1 - (s + 1 if acyclic else 0))))
            ps = [4] if len(outs) == 1 else rng.choice([[2, 2], [1, 3]])
            row.append([[o, p, rng.randint(-4, 8)] for o, p in zip(outs, ps)])
        P.append(row)
    return {"P": P, "A": A, "pi": [split(rng, A, 4) for _ in range(n)], "g": rng.choice([0, 4, 6, 7]), "seed": rng.randint(0, 10 ** 6)}


def seq(rng, g):
    n, A = rng.randint(1, 3), rng.randint(1, 3)
    E = []
    for k in g["lens"]:
        E.append([[rng.randint(1, n), 0 if g["gaps"] and rng.random() < 0.15 else rng.randint(1, A), 0 if g["gaps"] and rng.random() < 0.15 else rng.choice([1, 2, 4]), rng.randint(-4, 8)] for _ in range(k)])
    val = lambda: rng.randint(-6, 8)
    return {"kind": "seq", "what": g["what"], "E": E, "n": n, "A": A, "g": g["g"], "pi": [split(rng, A, 4) for _ in range(n)], "V": [val() for _ in range(n)], "T": [val() for _ in range(n)], "Q": [[val() for _ in range(A)] for _ in range(n)],
            "lo": 0, "hi": rng.choice([2, 4, 6]) if g["clamp"] else 4000, "clamped": g["clamp"]}


def num(v):
    return fx(v, U) if v is not None else 999999931


def run(scn):
    torch.manual_seed(scn.get("seed", 1))
    np.random.seed(scn.get("seed", 1) % 2 ** 31)
    random.seed(scn.get("seed", 1))
    return globals()["run_" + scn["kind"]](scn)


# ---------------------------------------------------------------- bandits
def samples(S, outputs=True):
    return [B.LogSample(context=i, log_action=Action(x["a"] - 1 if x["a"] else None), log_reward=x["r"] / 4, log_action_probabilities=ActionDistribution([p / 4 for p in x["lp"]]),
                        tgt_action_probabilities=ActionDistribution([p / 4 for p in x["tp"]]), tgt_action=Action(0), model_outputs=B.ModelOutputs(x["qa"] / 4, [v / 4 for v in x["q"]]) if outputs else None,
                        ground_truth_reward=float("nan") if x["gt"] == 99 else x["gt"] / 4, item_feature=None if outputs else torch.tensor([float(i + 1)])) for i, x in enumerate(S)]


def rows(S):
    u = lambda v: v * U // 4
    return [{"a": x["a"], "r": u(x["r"]), "lp": [u(p) for p in x["lp"]], "tp": [u(p) for p in x["tp"]], "q": [u(v) for v in x["q"]], "qa": u(x["qa"]), "gt": 999999937 if x["gt"] == 99 else u(x["gt"])} for x in S]


class Tables(Trainer):
    """predicts what the sample says, and writes down what it was shown"""

    def __init__(self, S):
        super().__init__()
        self.S, self.folds = S, []

    @property
    def name(self):
        return "tables"

    def train(self, data, iterations=1, num_samples=0):
        self._model = 1
        self.folds.append({"fit": sorted({int(r[1]) for x in (data.train_x, data.validation_x) for r in x}), "ask": []})

    def predict(self, x, device=None):
        self.folds[-1]["ask"] += [int(x[0, 1])]
        return PredictResults(None, torch.tensor([self.S[int(r[1]) - 1]["q"][int(r[0])] / 4 for r in x]))

    def score(self, x, y, weight=None):
        return 0.0


def estimator(c, trainer=None):
    cl = Clamper(c["lo"] / 4, c["hi"] / 4) if c["clamped"] else None
    rmax = c["rmax"] / 4 if c["rmax"] else None
    return {"dm": lambda: B.DMEstimator(trainer), "ips": lambda: B.IPSEstimator(cl), "wips": lambda: B.IPSEstimator(cl, True), "dr": lambda: B.DoublyRobustEstimator(trainer, cl),
            "switch": lambda: B.SwitchEstimator(trainer, cl, rmax), "switchdr": lambda: B.SwitchDREstimator(trainer, cl, rmax)}[c["what"]]()


def run_bandit(c):
    tr = Tables(c["S"]) if c["halves"] else None
    est = estimator(c, tr)
    kw = {"exp_base": 2, "candidates": c["cuts"]} if c["what"].startswith("switch") else {}
    r, exc = attempt(est.evaluate, B.BanditsEstimatorInput(ActionSpace(c["A"]), samples(c["S"], not c["halves"]), not c["halves"]), **kw)
    if not exc and r is None:
        exc = "NoResult"
    e = {"ev": "bandit", "S": rows(c["S"]), "exc": exc, "halves": c["halves"], "folds": tr.folds if tr else []}
    if not exc:
        e.update(est=num(r.estimated_reward), logged=num(r.log_reward), gt=num(r.ground_truth_reward), weight=int(r.estimated_weight), norm=num(r.estimated_reward_normalized))
    return {"cfg": {"kind": "bandit", "what": c["what"], "lo": c["lo"] * U // 4, "hi": c["hi"] * U // 4, "cuts": c["cuts"], "rmax": c["rmax"] * U // 4}, "ev": [e]}


def run_runs(c):
    mk = {"ips": lambda: B.IPSEstimator(), "dm": lambda: B.DMEstimator(), "dr": lambda: B.DoublyRobustEstimator(), "top": lambda: B.IPSEstimator(Clamper(0.0, 0.5))}
    ests = [mk[k]() for k in c["ests"]]
    exps = [(ests, B.BanditsEstimatorInput(ActionSpace(c["A"]), samples(S), True)) for S in c["logs"]]
    multiprocessing.current_process()._config["daemon"] = False      # the check's own workers may have children here
    with limit(60):
        r, exc = attempt(lambda: Evaluator(exps, c["workers"]).evaluate())
    names = [repr(x) for x in ests]
    got, mean = [], []
    if not exc:
        for k in names:
            if k in r:
                got.append([num(x.estimated_reward) for x in r[k].results])
                m, e2 = attempt(r[k].report)
                mean.append(num(m[1]) if not e2 else 999999937)
    cfgs = [{"what": "ips" if k == "top" else k, "lo": 0, "hi": U // 2 if k == "top" else 16 * U, "cuts": 0, "rmax": 0} for k in c["ests"]]
    return {"cfg": {"kind": "runs", "ests": cfgs, "logs": [rows(S) for S in c["logs"]]}, "ev": [{"ev": "runs", "exc": exc, "got": got, "mean": mean}]}


# ---------------------------------------------------------------- episodes
class Pol(Q.RLPolicy):
    def __init__(self, space, pi):
        super().__init__(space)
        self.pi = pi

    def action_dist(self, state):
        return self._action_space.distribution([p / 4 for p in self.pi[int(state.value) - 1]])


class Says(Q.ValueFunction):
    def __init__(self, V, Q_):
        self.V, self.Q = V, Q_

    def state_action_value(self, state, action):
        return self.Q[int(state.value) - 1][action.value] / 4

    def state_value(self, state):
        return self.V[int(state.value) - 1] / 4

    def reset(self):
        pass


def log_of(c, state=lambda s: Q.State(s)):
    out = []
    for e in c["E"]:
        ep = []
        for t, (s, a, p, r) in enumerate(e):
            end = t == len(e) - 1
            nxt = Q.State(state(c["n"] + 1).value, True) if end else state(e[t + 1][0])
            ep.append(Q.Transition(last_state=state(s), action=Action(a - 1) if a else None, action_prob=p / 4, state=nxt, reward=r / 4, status=Q.Transition.Status.TERMINATED if end else Q.Transition.Status.NORMAL))
        out.append(ep)
    return out


def run_seq(c):
    cl = Clamper(c["lo"] / 4, c["hi"] / 4) if c["clamped"] else None
    est = {"dm": lambda: Q.DMEstimator(), "is": lambda: Q.IPSEstimator(cl, False), "wis": lambda: Q.IPSEstimator(cl, True), "dr": lambda: Q.DoublyRobustEstimator(cl, False), "wdr": lambda: Q.DoublyRobustEstimator(cl, True)}[c["what"]]()
    inp = Q.RLEstimatorInput(gamma=c["g"] / 8, log=log_of(c), target_policy=Pol(ActionSpace(c["A"]), c["pi"]), value_function=Says(c["V"], c["Q"]), ground_truth=Says(c["T"], c["Q"]))
    r, exc = attempt(est.evaluate, inp)
    if not exc and len(r.results) != 1:
        exc = "NoResult"
    u = lambda v: v * U // 4
    e = {"ev": "seq", "exc": exc, "E": [[{"s": s, "a": a, "p": u(p), "r": u(r_)} for s, a, p, r_ in x] for x in c["E"]]}
    if not exc:
        x = r.results[0]
        e.update(est=num(x.estimated_reward), logged=num(x.log_reward), gt=num(x.ground_truth_reward))
    cfg = {"kind": "seq", "what": c["what"], "weighted": c["what"] in ("wis", "wdr"), "g": c["g"], "lo": u(c["lo"]), "hi": u(c["hi"]), "pi": [[u(p) for p in x] for x in c["pi"]], "V": [u(v) for v in c["V"]], "T": [u(v) for v in c["T"]],
           "Q": [[u(v) for v in x] for x in c["Q"]]}
    return {"cfg": cfg, "ev": [e]}


def run_dice(c):
    s = c["scn"]
    hot = lambda k: Q.State(tuple(float(k == i + 1) for i in range(s["n"] + 1)))
    acts = lambda k: s["pi"][min(k, len(s["pi"]) - 1)]

    class Hot(Pol):
        def action_dist(self, state):
            return self._action_space.distribution([p / 4 for p in acts(state.value.index(1.0))])

    def table(net):
        with torch.no_grad():
            return [[fx(net(torch.cat((torch.tensor(hot(k + 1).value).reshape(1, -1), torch.eye(s["A"])[a].reshape(1, -1)), dim=1)).item(), U) for a in range(s["A"])] for k in range(s["n"] + 1)]
    u = lambda v: v * U // 4
    ev, was = [], []

    def told(zl, vl, me):
        now = [table(me.v_net), table(me.zeta_net)]
        ev.append({"ev": "step", "zl": fx(zl, U), "vl": fx(vl, U), "v0": was[0], "z0": was[1], "v1": now[0], "z1": now[1]})
        was[:] = now
    est, exc = attempt(lambda: Q.NeuralDualDICE(s["n"] + 1, s["A"], c["det"], average_next_v=c["avg"], polynomial_degree=c["deg"] / 2, training_samples=4, batch_size=c["batch"], hidden_dim=4, value_lr=c["lr"] / 64, zeta_lr=c["lr"] / 64, loss_callback_fn=told, reporting_frequency=1))
    if not exc:
        was[:] = [table(est.v_net), table(est.zeta_net)]
        r, exc = attempt(est.evaluate, Q.RLEstimatorInput(gamma=s["g"] / 8, log=log_of(s, hot), target_policy=Hot(ActionSpace(s["A"]), s["pi"])))
    T = [{"s": x[t][0], "a": x[t][1], "n": x[t + 1][0] if t + 1 < len(x) else s["n"] + 1, "i": x[0][0], "t": t} for x in s["E"] for t in range(len(x))]
    e = {"ev": "dice", "exc": exc, "E": [[{"s": s_, "a": a, "p": u(p), "r": u(r_)} for s_, a, p, r_ in x] for x in s["E"]]}
    if not exc:
        x = r.results[0]
        e.update(est=num(x.estimated_reward), logged=num(x.log_reward), z=table(est.zeta_net))
    return {"cfg": {"kind": "dice", "det": c["det"], "avg": c["avg"], "deg": c["deg"], "batch": c["batch"], "g": s["g"], "T": T, "pi": [[u(p) for p in acts(k)] for k in range(s["n"] + 1)]}, "ev": ev + [e]}


# ---------------------------------------------------------------- tables
class Small(Environment):
    """a small table of states; remembers the episodes it played"""

    def __init__(self, c, horizon=-1):
        super().__init__(horizon)
        self.c, self.n, self.played = c, len(c["P"]), []

    def at(self, s):
        return Q.State(s, s > self.n)

    def next_state_reward_dist(self, state, action):
        return {self.at(o): Q.RewardProbability(r / 4, p / 4) for o, p, r in self.c["P"][state.value - 1][action.value]}

    def reset(self, state=None):
        super().reset(state)
        self.played.append([])
        return self.current_state

    def step(self, policy):
        tr = super().step(policy)
        self.played[-1].append({"s": tr.last_state.value, "a": tr.action.value + 1, "r": fx(tr.reward, U)})
        return tr

    def take(self):
        p, self.played = self.played, []
        return p

    def close(self):
        pass

    @property
    def observation_space(self):
        return (self.n + 1,)

    @property
    def states(self):
        return [self.at(s + 1) for s in range(self.n)]


def cfg_of(c, kind):
    u = lambda v: v * U // 4
    return {"kind": kind, "g": c["g"], "P": [[[{"n": o, "p": u(p), "r": u(r)} for o, p, r in x] for x in row] for row in c["P"]], "once": c.get("once", True), "times": c.get("times", 1), "most": c.get("most", 1)}


def policy_of(c, env, eps=0):
    pol = T.TabularPolicy(ActionSpace(c["A"]), eps / 8)
    for s, p in zip(env.states, c["pi"]):
        pol.update(s, [v / 4 for v in p])
    return pol


def probs(pol, env):
    return [[fx(pol(s)[Action(a)], U) for a in range(len(pol.action_space))] for s in env.states]


def run_dp(c):
    env = Small(c)
    pol = policy_of(c, env, c["eps"])
    with limit(40):
        vf = T.DPValueFunction(pol, env, c["g"] / 8)
        V, exc = attempt(lambda: [fx(vf(s), U) for s in env.states])
        Qs, exc2 = attempt(lambda: [[fx(vf(s, Action(a)), U) for a in range(c["A"])] for s in env.states])
        end, exc3 = attempt(lambda: fx(vf(env.at(env.n + 1)), U))
    exc = exc or exc2 or exc3
    return {"cfg": cfg_of(c, "dp"), "ev": [{"ev": "table", "exc": exc, "V": V or [], "Q": Qs or [], "final": end or 0, "pi": probs(pol, env)}]}


def run_improve(c):
    env = Small(c)
    pol = T.TabularPolicy(ActionSpace(c["A"]))
    with limit(40):
        vf, exc = attempt(lambda: T.DPTrainer(env, pol).train(c["g"] / 8))
        V, exc2 = attempt(lambda: [fx(vf(s), U) for s in env.states])
    return {"cfg": cfg_of(c, "improve"), "ev": [{"ev": "improve", "exc": exc or exc2, "V": V or [], "pi": probs(pol, env)}]}


def run_mc(c):
    env = Small(c, c["horizon"])
    vf = T.MonteCarloValueFunction(policy_of(c, env), env, c["g"] / 8, c["once"], c["times"], c["most"])
    evs = []
    order = env.states + env.states[:1]
    random.shuffle(order)
    for s in order:
        with limit(40):
            v, exc = attempt(vf.state_value, s)
        evs.append({"ev": "average", "s": s.value, "exc": exc, "got": num(v) if not exc else 0, "eps": env.take()})
    return {"cfg": cfg_of(c, "mc"), "ev": evs}


def run_plain(c):
    env = Small(c, c["horizon"])
    vf, exc = attempt(T.EstimatedStateValueFunction, policy_of(c, env), env, c["g"] / 8, c["times"])
    V, exc2 = attempt(lambda: [num(vf(s)) for s in env.states])
    return {"cfg": cfg_of(c, "plain"), "ev": [{"ev": "plain", "exc": exc or exc2, "V": V or [], "eps": env.take()}]}


def run_learnt(c):
    env = Small(c, c["horizon"])
    pol = policy_of(c, env)
    _, exc = attempt(T.MonteCarloTrainer(env, pol).train, c["times"], c["g"] / 8, c["once"], c["times"])
    return {"cfg": cfg_of(c, "learnt"), "ev": [{"ev": "learnt", "exc": exc, "pi": probs(pol, env), "eps": env.take()}]}


# ---------------------------------------------------------------- small things
def run_small(c):
    f = lambda v: float(v) if isinstance(v, str) else v / 4
    ra = RunningAverage() if c["init"] == "nan" else RunningAverage(f(c["init"]))
    for v in c["vals"]:
        ra.add(f(v))
    evs = [{"ev": "running", "vals": [fx(f(v), U) for v in c["vals"]], "avg": fx(ra.average, U), "count": ra.count, "total": fx(ra.total, U) if ra.count else 0}]
    cl, exc = attempt(Clamper, c["lo"] / 4, c["hi"] / 4)
    vals = [f(v) for v in c["vals"] if not isinstance(v, str)]
    got = []
    if not exc:
        got = [fxl(cl(x), U) for x in (vals, torch.tensor(vals), np.array(vals))] + [[fx(cl(v), U) for v in vals]]
    return {"cfg": {"kind": "small", "init": fx(f(c["init"]), U), "lo": c["lo"] * U // 4, "hi": c["hi"] * U // 4}, "ev": evs + [{"ev": "clamp", "exc": exc, "vals": fxl(vals, U), "got": got}]}


def run_policy(c):
    A = c["A"]
    cuts = sorted(c["cuts"][: A - 1])
    base = [(b - a) / 8 for a, b in zip([0] + cuts, cuts + [8])]
    space = ActionSpace(A)
    evs = []

    def ask(who, mk, known=True, s=1):
        def go():
            p = mk()
            return [fx(p(Q.State(s))[Action(a)], U) for a in range(A)], len(p.action_space)
        r, exc = attempt(go)
        evs.append({"ev": "policy", "who": who, "exc": exc, "got": r[0] if r else [], "space": r[1] if r else 0, "base": fxl(base, U), "known": known})

    def tab(eps):
        p = T.TabularPolicy(space, eps)
        p.update(Q.State(1), base)
        return p

    def reload():
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "policy")
            assert tab(c["eps"] / 8).save(f)
            p = T.TabularPolicy(ActionSpace(A))
            assert p.load(f)
            return p

    ask("random", lambda: Q.RandomRLPolicy(space))
    ask("table", lambda: tab(c["eps"] / 8))
    ask("table", lambda: tab(c["eps"] / 8), False, 2)
    ask("table", reload)
    ask("table", reload, False, 2)
    ask("greedy", lambda: Q.EpsilonGreedyRLPolicy(tab(0.0), c["eps"] / 8))
    return {"cfg": {"kind": "policy", "A": A, "eps": c["eps"] * U // 8}, "ev": evs}


def run_values(c):
    n = len(c["vals"])
    keys = [Action((7, i)) if c["keyed"] else Action(i) for i in range(n)]
    f = lambda xs: [x / 4 for x in xs]
    conv = {"list": list, "tensor": torch.tensor, "array": np.array}[c["as"]]
    make = lambda xs: {k: v for k, v in zip(keys, f(xs))} if c["keyed"] else conv(f(xs))
    d = ActionDistribution(make(c["vals"]))
    cur = list(c["vals"])
    where = lambda ks: [keys.index(k) + 1 for k in ks]
    evs, old = [], []
    for op, k, v, to in c["ops"]:
        key = keys[k - 1]
        if op == "sample":
            k = sum(x > 0 for x in cur)
            if k == 0:
                continue
        if op == "probability" and not any(x > 0 for x in cur):
            continue
        e = {"ev": "values", "op": op, "k": k, "v": v * U // 4, "to": [x * U // 4 for x in to], "keys": [], "got": []}

        def go():
            nonlocal d
            if op == "probability":
                e["got"] = [fx(d.probability(key), U)]
            elif op in ("up", "down"):
                ks, vs = d.sort(op == "down")
                e["keys"], e["got"] = where(ks), fxl(vs, U)
            elif op == "greedy":
                e["keys"] = where(d.greedy(k))
            elif op == "sample":
                e["keys"] = where(d.sample(k))
            e["all"] = [fx(d[x], U) for x in keys]
            if op == "set":
                d[key] = v / 4
            elif op == "replace":
                old.append((d, list(cur)))
                d = d.replace(make(to))
        _, e["exc"] = attempt(go)
        e.setdefault("all", [])
        if op == "set":
            cur[k - 1] = v
        elif op == "replace":
            cur = list(to)
        if any([fx(o[x], U) for x in keys] != [y * U // 4 for y in was] for o, was in old):
            e["all"] = []
        evs.append(e)
    return {"cfg": {"kind": "values", "vals": [x * U // 4 for x in c["vals"]]}, "ev": evs}
