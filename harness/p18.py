"""P18: ranking samplers, the ranking network in all its modes, and the ranking learners on a tabular ranker."""
import itertools
import math
import os
import shutil
import tempfile

import torch

import reagent.types as rlt
from legacy import sgd, slate_net
from reagent.core.observers import ValueListObserver
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.parameters import Seq2SlateParameters
from reagent.parameters_seq2slate import IPSClamp, IPSClampMethod, RewardClamp, SimulationParameters
from reagent.samplers.frechet import FrechetSort
from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
from reagent.training.ranking.seq2slate_sim_trainer import Seq2SlateSimulationTrainer
from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from vf import attempt, fx, fxl

TRACE = "P18Trace"
MC = [("MC_Ranking", "MC_Ranking.cfg")]
NEED = ["logp", "sample", "freq", "refused", "rank", "total", "batch"]
ASSUMPTIONS = ["learners rank with a tabular model of item scores and step with plain SGD", "scores to sample from are positive and at most as many ranks are asked for as there are candidates",
               "sampling frequencies are compared at six standard deviations with fixed seeds", "teacher forcing is given its own target sequence as input"]
UNIT = 8192


# ---------------------------------------------------------------- scenarios
def scenarios(tier, rng, gens):
    q = tier == "quick"
    for i in range(120 if q else 1500):
        yield frechet(rng)
    for i in range(6 if q else 40):
        n = rng.randint(2, 3)
        yield {"kind": "freq", "x": [rng.randint(-4, 4) / 4 for _ in range(n)], "shape": rng.choice([1, 2, 4]), "upto": rng.choice([None, rng.randint(1, n)]), "log": rng.random() < 0.5,
               "n": 3000, "seed": rng.randint(0, 10 ** 6)}
    for i in range(60 if q else 800):
        n = rng.randint(1, 5)
        yield {"kind": "net", "arch": rng.choice(["frechet_sort", "frechet_sort", "autoregressive", "encoder_score"]), "n": n, "t": rng.randint(1, n), "batch": rng.randint(1, 3),
               "spread": rng.choice([0, 1, 2]), "seed": rng.randint(0, 10 ** 6)}
    for i in range(250 if q else 4000):
        yield learn(rng)


def frechet(rng):
    n = rng.randint(1, 6)
    topk = rng.choice([None, rng.randint(1, n)])
    upto = rng.choice([None, rng.randint(1, topk or n)])
    B = rng.randint(1, 4)
    a = []
    for _ in range(B):
        p = rng.sample(range(n), n)
        k = rng.randint(1, n)
        a.append(p if rng.random() < 0.6 else p[:k] + [n] * (n - k))
    return {"kind": "frechet", "x": [[rng.randint(-12, 12) / 8 for _ in range(n)] for _ in range(B)], "a": a, "topk": topk, "upto": upto, "shape": rng.choice([4, 8, 12, 16, 32]) / 8,
            "log": rng.random() < 0.5, "seed": rng.randint(0, 10 ** 6)}


def learn(rng):
    algo = rng.choice(["rl", "rl", "rl", "sim", "tf", "attn", "dr", "dr"])
    S, V = rng.randint(1, 2), rng.randint(2, 4)
    n = rng.randint(1, 4)
    T = rng.randint(1, n)
    c = {"algo": algo, "lr8": rng.choice([1, 2, 4]), "blr8": rng.choice([1, 2]), "interval": rng.choice([1, 1, 2, 3]), "warm": rng.randint(0, 3), "base": algo in ("rl", "sim") and rng.random() < 0.5,
         "clamp": rng.choice(["none", "max", "drop"]) if algo in ("rl", "dr") else "none", "cmax": rng.choice([1, 2, 4]), "onpol": algo == "sim" or (algo == "dr" and rng.random() < 0.4),
         "n": n, "T": T, "S": S, "V": V}
    if algo == "sim":
        k = rng.randint(1, 2)
        c.update(pow=[rng.choice([1, 2]) for _ in range(k)], w4=[rng.choice([-4, 2, 4, 8]) for _ in range(k)], rclamp=rng.random() < 0.4, rmin=rng.choice([-1, 0]), rmax=rng.choice([1, 2]), pen8=rng.choice([0, 0, 1, 2]))
    rows = lambda: [{"s": rng.randrange(S), "items": [rng.randrange(V) for _ in range(n)], "a": rng.sample(range(n), T), "r": rng.randint(-8, 8) / 4, "p": rng.choice([0.125, 0.25, 0.3, 0.5, 0.9]),
                     "pr": [rng.randint(0, 6) / 4 for _ in range(T)]} for _ in range(rng.randint(1, 3))]
    return {"kind": "learn", "c": c, "th": [[rng.randint(-8, 8) / 8 for _ in range(V)] for _ in range(S)], "b": [rng.randint(-4, 4) / 4 for _ in range(S)],
            "batches": [rows() for _ in range(rng.randint(1, 6))], "seed": rng.randint(0, 10 ** 6)}


# ---------------------------------------------------------------- a tabular ranker with the network's interface
class Ranker(torch.nn.Module):
    def __init__(self, th, n, T):
        super().__init__()
        self.table = torch.nn.Parameter(torch.tensor(th))
        self.max_src_seq_len, self.max_tgt_seq_len = n, T
        self.drawn = None

    def scores(self, i):
        return torch.einsum("bs,sv,bnv->bn", i.state.float_features, self.table, i.src_seq.float_features)

    def per_rank(self, x, a):
        # log share of every candidate at every rank
        out, left = [], torch.ones_like(x, dtype=torch.bool)
        for k in range(a.shape[1]):
            out.append(torch.log_softmax(x.masked_fill(~left, -math.inf), 1))
            left = left.scatter(1, a[:, k:k + 1], False)
        return torch.stack(out, 1)

    def forward(self, i, mode, tgt_seq_len=None, greedy=None):
        x = self.scores(i)
        if mode == Seq2SlateMode.ENCODER_SCORE_MODE:
            return rlt.RankingOutput(encoder_scores=torch.gather(x, 1, i.tgt_out_idx - 2))
        if mode == Seq2SlateMode.RANK_MODE:
            a = torch.multinomial(torch.softmax(x, 1), tgt_seq_len or self.max_tgt_seq_len)
            self.drawn = a
            lp = torch.gather(self.per_rank(x, a), 2, a.unsqueeze(2)).squeeze(2).sum(1, keepdim=True)
            return rlt.RankingOutput(ranked_tgt_out_idx=a + 2, ranked_per_seq_probs=torch.exp(lp))
        a = i.tgt_out_idx - 2
        lp = self.per_rank(x, a)
        if mode == Seq2SlateMode.PER_SEQ_LOG_PROB_MODE:
            return rlt.RankingOutput(log_probs=torch.gather(lp, 2, a.unsqueeze(2)).squeeze(2).sum(1, keepdim=True))
        pad = torch.full((lp.shape[0], lp.shape[1], 2), -math.inf)
        return rlt.RankingOutput(log_probs=torch.cat([pad, lp], 2).clamp(min=math.log(1e-40)))


class Base(torch.nn.Module):
    def __init__(self, b):
        super().__init__()
        self.table = torch.nn.Parameter(torch.tensor(b))

    def forward(self, i):
        return i.state.float_features @ self.table.unsqueeze(1)


class RewardNet(torch.nn.Module):
    def __init__(self, u, v):
        super().__init__()
        self.u, self.v = torch.nn.Parameter(torch.tensor(u)), torch.nn.Parameter(torch.tensor(v))

    def forward(self, state, src, slate, mask, idx):
        return state @ self.u.unsqueeze(1) + (slate[:, 0, :] @ self.v.unsqueeze(1))


# ---------------------------------------------------------------- runs
def run(scn):
    torch.manual_seed(scn["seed"])
    return {"frechet": run_frechet, "freq": run_freq, "net": run_net, "learn": run_learn}[scn["kind"]](scn)


EMPTY = {"algo": "none", "th": [[0]], "b": [0]}
one = lambda a: [int(v) + 1 for v in a]


def sampler(scn, **kw):
    return FrechetSort(shape=scn["shape"], topk=scn.get("topk"), equiv_len=scn["upto"], log_scores=scn["log"])


def run_frechet(scn):
    x = torch.tensor(scn["x"])
    n, B = x.shape[1], x.shape[0]
    given = x if scn["log"] else torch.exp(x)
    f, evs, sh8 = sampler(scn), [], int(scn["shape"] * 8)
    upto = scn["upto"] or scn["topk"] or n
    fixed = [fxl(r, UNIT) for r in scn["x"]]
    lp, exc = attempt(f.log_prob, given, torch.tensor(scn["a"]))
    for i in range(B):
        if exc:
            evs.append({"ev": "failed", "what": exc})
            break
        evs.append({"ev": "logp", "x": fixed[i], "sh8": sh8, "a": one(scn["a"][i]), "upto": upto, "lp": fx(lp[i], UNIT)})
        if i == 0:
            v, exc = attempt(f.log_prob, given[0], torch.tensor(scn["a"][0]))
            evs.append({"ev": "logp", "x": fixed[0], "sh8": sh8, "a": one(scn["a"][0]), "upto": upto, "lp": fx(v.item() if not exc else 99.0, UNIT)})
    out, exc = attempt(f.sample_action, given)
    if exc:
        evs.append({"ev": "failed", "what": exc})
    else:
        evs.append({"ev": "sample", "batch": B, "sh8": sh8, "topk": scn["topk"] or n, "upto": upto,
                    "rows": [{"x": fixed[i], "a": one(a), "lp": fx(out.log_prob[i], UNIT)} for i, a in enumerate(out.action)]})
    if n > 1:
        _, exc = attempt(lambda: FrechetSort(topk=n - 1, equiv_len=n))
        evs.append({"ev": "refused", "want": "ValueError", "exc": exc})
        _, exc = attempt(f.log_prob, given, torch.tensor([r[:n - 1] for r in scn["a"]]))
        evs.append({"ev": "refused", "want": "NotImplementedError", "exc": exc})
        _, exc = attempt(f.log_prob, given, torch.tensor([r + [0] for r in scn["a"]]))
        evs.append({"ev": "refused", "want": "ValueError", "exc": exc})
    return {"cfg": EMPTY, "ev": evs}


def run_freq(scn):
    n, N = len(scn["x"]), scn["n"]
    x = torch.tensor([scn["x"]] * N)
    out = sampler(scn).sample_action(x if scn["log"] else torch.exp(x)).action.tolist()
    upto = scn["upto"] or n
    counts = {}
    for a in out:
        counts[tuple(a[:upto])] = counts.get(tuple(a[:upto]), 0) + 1
    return {"cfg": EMPTY, "ev": [{"ev": "freq", "x": fxl(scn["x"], UNIT), "sh8": int(scn["shape"] * 8), "n": N,
                                  "counts": [{"a": one(p), "k": counts.get(p, 0)} for p in itertools.permutations(range(n), upto)]}]}


def run_net(scn):
    n, t, B, arch = scn["n"], scn["t"], scn["batch"], scn["arch"]
    net = slate_net(scn["seed"], arch, n, t)
    with torch.no_grad():
        for p in net.parameters():
            p.mul_(1 + scn["spread"])
    state, cand = torch.randn(B, 2), torch.randn(B, n, 2)
    mk = lambda a=None: rlt.PreprocessedRankingInput.from_input(state=state, candidates=cand, device=torch.device("cpu"), action=a)
    evs = []
    full = torch.arange(n).repeat(B, 1)
    x = [[0] * n] * B
    if arch == "encoder_score":
        sc, exc = attempt(lambda: net(mk(full), mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores)
        if exc or list(sc.shape) != [B, n]:
            return {"cfg": EMPTY, "ev": [{"ev": "failed", "what": exc or str(list(sc.shape))}]}
        x = [fxl(r, UNIT) for r in sc]
    for greedy in (True, False, False):
        with torch.no_grad():
            out, exc = attempt(lambda: net(mk(), mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=t, greedy=greedy))
            if exc:
                evs.append({"ev": "failed", "what": exc})
                continue
            a = out.ranked_tgt_out_idx - 2
            good = bool(((a >= 0) & (a < n)).all())
            lp = sym = None
            if good and arch != "encoder_score":
                lp = net(mk(a), mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs
                sym = torch.exp(net(mk(a), mode=Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs)
        pr = lambda m: [fxl(r, UNIT) for r in m]
        evs.append({"ev": "rank", "arch": arch, "n": n, "t": t, "greedy": greedy, "batch": B,
                    "rows": [{"a": one(a[i]), "pp": pr(out.ranked_per_symbol_probs[i]), "ps": fx(out.ranked_per_seq_probs[i].item(), UNIT), "x": x[i],
                              "lp": fx(lp[i].item(), UNIT) if lp is not None else 0, "sym": pr(sym[i]) if sym is not None else pr(out.ranked_per_symbol_probs[i])} for i in range(len(a))]})
    if arch != "encoder_score" and n <= 4:
        s = torch.zeros(B)
        with torch.no_grad():
            for p in itertools.permutations(range(n), t):
                s += torch.exp(net(mk(torch.tensor([p] * B)), mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs).squeeze(1)
        evs.append({"ev": "total", "sums": fxl(s, UNIT)})
    return {"cfg": EMPTY, "ev": evs}


def run_learn(scn):
    c = scn["c"]
    S, V, n, T = c["S"], c["V"], c["n"], c["T"]
    net, base = Ranker(scn["th"], n, T), Base(scn["b"]) if c["base"] else None
    clamp = {"none": None, "max": IPSClamp(IPSClampMethod.UNIVERSAL, float(c["cmax"])), "drop": IPSClamp(IPSClampMethod.AGGRESSIVE, float(c["cmax"]))}[c["clamp"]]
    opt, bopt = sgd(c["lr8"] / 8), sgd(c["blr8"] / 8)
    kw = dict(baseline_net=base, baseline_warmup_num_batches=c["warm"], policy_optimizer=opt, baseline_optimizer=bopt, policy_gradient_interval=c["interval"])
    algo, scratch, nets = c["algo"], None, {}
    par = Seq2SlateParameters(on_policy=c["onpol"], ips_clamp=clamp)
    if algo == "rl":
        tr = Seq2SlateTrainer(net, 4, par, **kw)
    elif algo == "sim":
        scratch = tempfile.mkdtemp(prefix="vf18")
        g = torch.Generator().manual_seed(scn["seed"])
        for j in range(len(c["pow"])):
            nets[f"r{j}"] = RewardNet(*[(torch.randint(-2, 5, (k,), generator=g) / 4).tolist() for k in (S, V)])
            torch.jit.script(nets[f"r{j}"]).save(os.path.join(scratch, f"r{j}"))
        par = Seq2SlateParameters(simulation=SimulationParameters(
            reward_name_weight={k: c["w4"][j] / 4 for j, k in enumerate(nets)}, reward_name_power={k: float(c["pow"][j]) for j, k in enumerate(nets)},
            reward_name_path={k: os.path.join(scratch, k) for k in nets}, reward_clamp=RewardClamp(float(c["rmin"]), float(c["rmax"])) if c["rclamp"] else None,
            distance_penalty=c["pen8"] / 8 if c["pen8"] else None))
        tr = Seq2SlateSimulationTrainer(net, 4, par, **kw)
    elif algo == "tf":
        tr = Seq2SlateTeacherForcingTrainer(net, par, 4, policy_optimizer=opt, policy_gradient_interval=c["interval"])
    elif algo == "attn":
        tr = Seq2SlatePairwiseAttnTrainer(net, 4, policy_optimizer=opt)
    else:
        tr = Seq2SlateDifferentiableRewardTrainer(net, par, 4, policy_optimizer=opt)
    tab = lambda: [fxl(r, UNIT) for r in net.table]
    bs = lambda: fxl(base.table, UNIT) if base else fxl(scn["b"], UNIT)
    cfg = dict(c, cmax=c["cmax"] * UNIT, th=tab(), b=bs(), tol=40 + 16 * c["interval"])
    if algo == "sim":
        cfg.update(rmin=c["rmin"] * UNIT, rmax=c["rmax"] * UNIT)
    evs = []
    eye = torch.eye
    told = [ValueListObserver(k) for k in ("train_ips_score", "train_clamped_ips_score", "train_ips_ratio", "train_clamped_ips_ratio", "train_advantages")] if algo == "rl" else []
    if told:
        tr.add_observers(told)
    for rows in scn["batches"]:
        state = eye(S)[[r["s"] for r in rows]]
        cand = torch.stack([eye(V)[r["items"]] for r in rows])
        act = torch.tensor([r["a"] for r in rows])
        col = lambda k: torch.tensor([[r[k]] for r in rows])
        b = rlt.PreprocessedRankingInput.from_input(state=state, candidates=cand, device=torch.device("cpu"), action=None if algo == "sim" else act, optimal_action=act if algo == "tf" else None,
                                                    logged_propensities=None if algo == "sim" else col("p"), slate_reward=col("r") if algo == "rl" else None,
                                                    position_reward=torch.tensor([r["pr"] for r in rows]) if algo in ("dr", "attn") else None)
        for o in told:
            o.values.clear()
        _, exc = attempt(tr.train, b)
        a = net.drawn if algo == "sim" and net.drawn is not None else act
        raw = []
        if nets:
            slate = torch.stack([cand[i][a[i]] for i in range(len(rows))])
            with torch.no_grad():
                raw = torch.cat([m(state, cand, slate, None, None) for m in nets.values()], 1)
        evs.append({"ev": "batch", "exc": exc, "told": [[fxl(torch.as_tensor(v).detach().reshape(-1), UNIT) for v in o.values] for o in told], "th": tab(), "b": bs(), "rows": [{
            "s": r["s"] + 1, "items": one(r["items"]), "a": one(a[i]), "r": fx(r["r"], UNIT), "llp": fx(math.log(r["p"]), UNIT), "pr": fxl(r["pr"], UNIT),
            "raw": fxl(raw[i], UNIT) if nets else []} for i, r in enumerate(rows)]})
        if exc:
            break
    if scratch:
        shutil.rmtree(scratch)
    return {"cfg": cfg, "ev": evs}
