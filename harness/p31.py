"""P31: supervised learners and their evaluators on linear networks, whose losses and steps the specification computes."""
import copy
import random

import numpy as np
import torch

import stubs  # noqa: F401
import reagent.training  # noqa: first, the planner and the trainers import each other
import reagent.types as rlt
from legacy import sgd, slate_net
from reagent.core.tracker import Observer
from reagent.evaluation.compress_model_evaluator import CompressModelEvaluator
from reagent.evaluation.ranking_listwise_evaluator import RankingListwiseEvaluator
from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator
from reagent.evaluation.seq2reward_evaluator import Seq2RewardEvaluator
from reagent.evaluation.world_model_evaluator import FeatureImportanceEvaluator, FeatureSensitivityEvaluator, LossEvaluator
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.models.mdn_rnn import MDNRNNMemoryPool, gmm_loss
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
from reagent.models.world_model import MemoryNetwork
from reagent.parameters import MDNRNNTrainerParameters, RLParameters, Seq2RewardTrainerParameters
from reagent.training.imitator_training import ImitatorTrainer, get_valid_actions_from_imitator
from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer
from reagent.training.world_model.compress_model_trainer import CompressModelTrainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer
from vf import attempt, fx, fxl

TRACE = "P31Trace"
MC = [("MC_Supervised", "MC_Supervised.cfg")]
NEED = ["train", "eval", "report", "keep", "importance", "sensitivity", "insert", "sample", "rank", "gmm", "net"]
ASSUMPTIONS = ["networks are linear in their inputs where losses and steps are computed; the repository's own sequence networks are judged for independence of rows, prefixes and continuation",
               "where the learner builds Adam itself, its first step is judged by direction and length, later ones by the loss reported before each step",
               "labels of ranked lists are 0 or 1 and every candidate is shown"]
UNIT = 8192
KINDS = ["reward", "imit", "world", "s2r", "comp", "rank", "pool", "gmm", "net"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    n = {"reward": (160, 16000), "imit": (80, 8000), "world": (80, 8000), "s2r": (80, 8000), "comp": (60, 6000), "rank": (80, 8000), "pool": (30, 2000), "gmm": (60, 6000), "net": (100, 3000)}
    for k in KINDS:
        for i in range(n[k][0 if q else 1]):
            yield dict(SCN[k](rng), kind=k, seed=rng.randint(0, 10 ** 6))


def d8(rng, lo, hi):
    return rng.randint(lo, hi) / 8


# ---------------------------------------------------------------- reward regression
def s_reward(rng):
    loss = rng.choice([x.name for x in LossFunction])
    bce = loss == "BCELoss"
    S = rng.randint(1, 3)
    y = (lambda: rng.choice([0.0, 1.0, 0.5, 0.25])) if bce else (lambda: d8(rng, -24, 24))
    ops = []
    for _ in range(rng.randint(2, 6)):
        ops.append([rng.choice(["train", "train", "eval", "eval", "report"]), [[rng.randrange(S), y()] for _ in range(rng.randint(1, 4))]])
    ops += [["eval", [[rng.randrange(S), y()]]], ["report", []]]
    return {"loss": loss, "S": S, "lr": rng.choice([1 / 64, 1 / 32]) if bce else rng.choice([1 / 4, 1 / 8]), "cut": rng.random() < 0.5, "limit": rng.choice([0.5, 0.25]) if bce else d8(rng, -8, 20),
            "th": [rng.choice([0.25, 0.5, 0.75]) if bce else d8(rng, -16, 16) for _ in range(S)], "ops": ops, "rank": rng.random() < 0.5, "evalmode": rng.random() < 0.3}


class Table(torch.nn.Module):
    def __init__(self, th):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(th))

    def forward(self, x):
        return rlt.RewardNetworkOutput(predicted_reward=x.state.float_features @ self.w.reshape(-1, 1))


def reward_batch(rows, S, rank):
    s = torch.eye(S)[[r[0] for r in rows]]
    y = torch.tensor([[r[1]] for r in rows])
    if rank:
        n = len(rows)
        b = rlt.PreprocessedRankingInput.from_tensors(state=s, src_seq=torch.zeros(n, 1, 1), slate_reward=y)
        return b
    return rlt.BaseInput(state=rlt.FeatureData(s), next_state=rlt.FeatureData(s), reward=y, time_diff=torch.ones_like(y), step=None, not_terminal=torch.ones_like(y))


def run_reward(c):
    net = Table(c["th"])
    net.train(not c["evalmode"])
    t = RewardNetTrainer(net, optimizer=sgd(c["lr"]), loss_type=LossFunction[c["loss"]], reward_ignore_threshold=c["limit"] if c["cut"] else None)
    ev, out = RewardNetEvaluator(t), []
    pending = False
    for op, rows in c["ops"]:
        if c["loss"] == "BCELoss" and not bool(((net.w > 0.12) & (net.w < 0.88)).all()):
            break
        if op == "report" and not pending:
            continue
        e = {"ev": op, "rows": [{"s": s + 1, "y": fx(y, UNIT)} for s, y in rows], "loss": 0}
        mode = net.training
        if op == "train":
            r, e["exc"] = attempt(t.train, reward_batch(rows, c["S"], c["rank"]))
            e["loss"] = fx(r, UNIT) if not e["exc"] else 0
        elif op == "eval":
            r, e["exc"] = attempt(ev.evaluate, reward_batch(rows, c["S"], c["rank"]))
            pending = True
        else:
            r, e["exc"] = attempt(ev.evaluate_post_training)
            e.update(loss=fx(r["loss"], UNIT), y=fxl(r["rewards"], UNIT), p=fxl(r["pred_rewards"], UNIT), best=fxl(ev.best_model.w, UNIT)) if not e["exc"] else None
            pending = False
        e["mode"] = net.training == mode
        e["th"] = fxl(net.w, UNIT)
        out.append(e)
    return {"cfg": {"kind": "reward", "loss": LossFunction[c["loss"]].value, "cut": c["cut"], "limit": fx(c["limit"], UNIT), "lr": fx(c["lr"], UNIT), "th": fxl(c["th"], UNIT), "tol": 40 if c["loss"] == "BCELoss" else 12}, "ev": out}


# ---------------------------------------------------------------- imitation
def s_imit(rng):
    S, A = rng.randint(1, 3), rng.randint(2, 3)
    row = lambda: [rng.randrange(S), rng.randrange(A)]
    return {"S": S, "A": A, "every": rng.choice([1, 1, 2, 3]), "lr": rng.choice([0.5, 0.25, 1.0]), "th": [[d8(rng, -8, 8) for _ in range(A)] for _ in range(S)],
            "ops": [[rng.choice(["train", "train", "train", "eval", "keep"]), [row() for _ in range(rng.randint(1, 5))], rng.choice([0.25, 0.5, 0.9])] for _ in range(rng.randint(3, 8))]}


class Tab2(torch.nn.Module):
    def __init__(self, th):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(th))

    def forward(self, x):
        return x @ self.w


class _In:
    pass


def run_imit(c):
    net = Tab2(c["th"])
    t = ImitatorTrainer(net, rl=RLParameters(), minibatches_per_step=c["every"], optimizer=sgd(c["lr"]))
    out = []
    for op, rows, thr in c["ops"]:
        b, b.training_input = _In(), None
        s = torch.eye(c["S"])[[r[0] for r in rows]]
        a = torch.eye(c["A"])[[r[1] for r in rows]]
        b.training_input = rlt.DiscreteDqnInput(state=rlt.FeatureData(s), next_state=rlt.FeatureData(s), reward=a[:, :1], time_diff=a[:, :1], step=None, not_terminal=a[:, :1], action=a, next_action=a,
                                                possible_actions_mask=torch.ones_like(a), possible_next_actions_mask=torch.ones_like(a), extras=rlt.ExtraData())
        e = {"ev": op, "rows": [{"s": x + 1, "a": y + 1} for x, y in rows], "acc": 0}
        if op == "keep":
            m, e["exc"] = attempt(get_valid_actions_from_imitator, net, rlt.FeatureData(s), thr)
            e.update(mask=fxl(m, UNIT) if not e["exc"] else [], thr=fx(thr, UNIT))
        else:
            r, e["exc"] = attempt(t.train, b, train=op == "train")
            e["acc"] = fx(r, 1000) if not e["exc"] else 0
        e["th"] = fxl(net.w, UNIT)
        out.append(e)
    return {"cfg": {"kind": "imit", "every": c["every"], "lr": fx(c["lr"], UNIT), "th": fxl(c["th"], UNIT)}, "ev": out}


# ---------------------------------------------------------------- world models
def starts(rng, dim):
    return [0] + sorted(rng.sample(range(1, dim), rng.randint(0, dim - 1)))


def s_world(rng):
    sd, ad, G = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2)
    T, B = rng.randint(1, 3), rng.randint(1, 3)
    step = lambda: {"a": [d8(rng, -6, 6) for _ in range(ad)], "s": [d8(rng, -6, 6) for _ in range(sd)], "nx": [d8(rng, -8, 8) for _ in range(sd)], "r": d8(rng, -12, 12), "nt": rng.choice([0, 1])}
    disc = rng.random() < 0.4
    wt = lambda: rng.choice([1.0, 1.0, 0.5, 2.0, 0.0])
    ops = []
    for _ in range(rng.randint(2, 4)):
        st = [[step() for _ in range(B)] for _ in range(T)]
        if disc or rng.random() < 0.3:
            for r in st:
                for x in r:
                    k = rng.randrange(ad)
                    x["a"] = [float(i == k) for i in range(ad)]
        ops.append([rng.choice(["train", "train", "eval", "importance", "sensitivity"]), st])
    # action or not action features: all positions their own when discrete
    return {"sd": sd, "ad": ad, "G": G, "T": T, "B": B, "disc": disc, "last": rng.random() < 0.3, "wr": wt(), "wn": wt(), "wt": wt(), "lr": rng.choice([1 / 64, 1 / 32]), "ops": ops,
            "fa": list(range(ad)) if disc else starts(rng, ad), "fs": starts(rng, sd), "bool": rng.random() < 0.3}


class Linear(torch.nn.Module):
    """stands for the recurrent part: everything predicted is linear in a step's own input"""

    def __init__(self, c, seed):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        n = c["sd"] * c["G"]
        w = torch.randint(-4, 5, (2 * n + c["G"] + 2, c["ad"] + c["sd"]), generator=g) / 8
        w[n:2 * n] /= 2
        self.w = torch.nn.Parameter(w)


class LinearWorld(torch.nn.Module):
    def __init__(self, c, seed):
        super().__init__()
        self.c = c
        self.mdnrnn = Linear(c, seed)

    def forward(self, state, action):
        c = self.c
        o = torch.cat([action.float_features, state.float_features], dim=2) @ self.mdnrnn.w.t()
        T, B = o.shape[:2]
        n = c["sd"] * c["G"]
        return rlt.MemoryNetworkOutput(mus=o[:, :, :n].reshape(T, B, c["G"], c["sd"]), sigmas=o[:, :, n:2 * n].reshape(T, B, c["G"], c["sd"]).exp(), logpi=torch.log_softmax(o[:, :, 2 * n:2 * n + c["G"]], 2),
                                       reward=o[:, :, -2], not_terminal=o[:, :, -1], last_step_lstm_hidden=None, last_step_lstm_cell=None, all_steps_lstm_hidden=None)


def world_batch(st, boolean):
    f = lambda k: torch.tensor([[x[k] for x in r] for r in st]).float()
    nt = f("nt")
    return rlt.MemoryNetworkInput(state=rlt.FeatureData(f("s")), next_state=rlt.FeatureData(f("nx")), action=f("a"), reward=f("r"), time_diff=torch.ones_like(nt), step=None, not_terminal=nt.bool() if boolean else nt)


def run_world(c):
    net = LinearWorld(c, c["seed"])
    cfg = {"kind": "world", "sd": c["sd"], "ad": c["ad"], "G": c["G"], "last": c["last"], "disc": c["disc"], "lr": fx(c["lr"], UNIT), "th": fxl(net.mdnrnn.w, UNIT), "fa": [x + 1 for x in c["fa"]], "fs": [x + 1 for x in c["fs"]]}
    for k in ("wr", "wn", "wt"):
        cfg[k] = fx(c[k], UNIT)
    p = MDNRNNTrainerParameters(learning_rate=c["lr"], num_gaussians=c["G"], action_dim=c["ad"], reward_loss_weight=c["wr"], next_state_loss_weight=c["wn"], not_terminal_loss_weight=c["wt"], fit_only_one_next_step=c["last"])
    t = MDNRNNTrainer(net, p)
    out = []
    if not (c["wr"] or c["wn"] or c["wt"]):
        c["ops"] = [[o[0] if o[0] != "train" else "eval", o[1]] for o in c["ops"]]
    for op, st in c["ops"]:
        b = world_batch(st, c["bool"])
        e = {"ev": op, "T": c["T"], "B": c["B"], "steps": [{"x": fxl(x["a"] + x["s"], UNIT), "nx": fxl(x["nx"], UNIT), "r": fx(x["r"], UNIT), "nt": x["nt"] * UNIT, "t": i + 1, "b": j + 1} for i, r in enumerate(st) for j, x in enumerate(r)]}
        if op == "train":
            r, e["exc"] = attempt(t.train, b)
        elif op == "eval":
            r, e["exc"] = attempt(LossEvaluator(t, c["sd"]).evaluate, b)
        elif op == "importance":
            r, e["exc"] = attempt(FeatureImportanceEvaluator(t, c["disc"], c["sd"] and len(c["fs"]), len(c["fa"]), c["fa"], c["fs"]).evaluate, b)
            e["imp"] = fxl(r["feature_loss_increase"], UNIT) if not e["exc"] else []
        else:
            r, e["exc"] = attempt(FeatureSensitivityEvaluator(t, len(c["fs"]), c["fs"]).evaluate, b)
            e["sen"] = fxl(r["feature_sensitivity"], UNIT) if not e["exc"] else []
        if op in ("train", "eval") and not e["exc"]:
            e.update({k: fx(r[k], UNIT) for k in ("gmm", "bce", "mse", "loss")})
        e["mode"] = net.mdnrnn.training
        e["th"] = fxl(net.mdnrnn.w, UNIT)
        out.append(e)
    return {"cfg": cfg, "ev": out}


# ---------------------------------------------------------------- sequence reward and compressed policies
def s_s2r(rng):
    S, n, L = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    B = rng.randint(1, 4)
    row = lambda: {"s": [d8(rng, -8, 8) for _ in range(S)], "a": [rng.randrange(n) for _ in range(L)], "r": [d8(rng, -10, 10) for _ in range(L)], "len": rng.randint(1, L)}
    return {"S": S, "n": n, "L": L, "gamma": rng.choice([1.0, 0.5, 0.75, 0.0]), "view": rng.random() < 0.5, "lr": rng.choice([1 / 64, 1 / 32]), "evalmode": rng.random() < 0.3,
            "ops": [[rng.choice(["train", "eval"]), [row() for _ in range(B)]] for _ in range(rng.randint(2, 4))]}


class LinearSeq(torch.nn.Module):
    def __init__(self, S, n, L, seed):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.state_dim, self.action_dim = S, n
        self.s = torch.nn.Parameter(torch.randint(-8, 9, (S,), generator=g) / 8)
        self.a = torch.nn.Parameter(torch.randint(-12, 13, (L, n), generator=g) / 8)

    def forward(self, state, action, valid_reward_len=None):
        x, u = state.float_features[0], action.float_features
        part = torch.cumsum((u * self.a[: u.shape[0]].unsqueeze(1)).sum(2), 0)
        last = part[-1] if valid_reward_len is None else part[valid_reward_len - 1, torch.arange(part.shape[1])]
        return rlt.Seq2RewardOutput(acc_reward=(x @ self.s + last).unsqueeze(1))


def seq_batch(rows, n):
    L = len(rows[0]["a"])
    s = torch.tensor([r["s"] for r in rows]).unsqueeze(0)
    # only the first state is where planning starts; later ones differ
    states = torch.cat([s] + [s + 1.0 + i for i in range(L - 1)], 0)
    a = torch.eye(n)[torch.tensor([r["a"] for r in rows]).t()]
    r = torch.tensor([r["r"] for r in rows]).t().contiguous()
    ln = torch.tensor([[x["len"]] for x in rows])
    return rlt.MemoryNetworkInput(state=rlt.FeatureData(states), next_state=rlt.FeatureData(states + 1), action=a, reward=r, time_diff=torch.ones_like(r), step=None, not_terminal=torch.ones_like(r), valid_seq_len=ln, valid_next_seq_len=ln)


class Heard(Observer):
    def __init__(self, keys):
        super().__init__(observing_keys=keys)
        self.got = {}

    def update(self, key, value):
        self.got[key] = value


def flat(v):
    return torch.as_tensor(v).float().reshape(-1)


def told(obs, **want):
    return all(k in obs.got and flat(obs.got[k]).shape == flat(v).shape and torch.allclose(flat(obs.got[k]), flat(v)) for k, v in want.items())


def table(net):
    return {"s": fxl(net.s, UNIT), "a": fxl(net.a, UNIT)}


def params(c, **k):
    return Seq2RewardTrainerParameters(learning_rate=c["lr"], multi_steps=c["L"], action_names=[str(i) for i in range(c["n"])], gamma=c["gamma"], view_q_value=c["view"], step_predict_net_size=3, compress_model_learning_rate=c["lr"])


def seq_rows(rows):
    return [{"s": fxl(r["s"], UNIT), "a": [x + 1 for x in r["a"]], "r": fxl(r["r"], UNIT), "len": r["len"]} for r in rows]


def run_s2r(c):
    net = LinearSeq(c["S"], c["n"], c["L"], c["seed"])
    net.train(not c["evalmode"])
    t = Seq2RewardTrainer(net, params(c))
    ev = Seq2RewardEvaluator(t)
    ot, oe = Heard(["mse_loss", "step_entropy_loss", "q_values"]), Heard(["mse_loss", "step_entropy_loss", "q_values", "action_distribution"])
    t.add_observer(ot)
    ev.add_observer(oe)
    cfg = {"kind": "s2r", "S": c["S"], "n": c["n"], "L": c["L"], "gamma": fx(c["gamma"], UNIT), "lr": fx(c["lr"], UNIT), "view": c["view"], "th": table(net)}
    out = []
    for op, rows in c["ops"]:
        b = seq_batch(rows, c["n"])
        with torch.no_grad():
            lg = t.step_predict_network(b.state.float_features[0])
        before = copy.deepcopy(list(t.step_predict_network.parameters()))
        e = {"ev": op, "rows": seq_rows(rows), "mse": 0, "ce": 0, "q": [], "dist": [], "told": False}
        for i, r in enumerate(e["rows"]):
            r["logit"] = fxl(lg[i], UNIT)
        mode = net.training
        if op == "train":
            r, e["exc"] = attempt(t.train, b)
            if not e["exc"]:
                e["told"] = told(ot, mse_loss=r[0], step_entropy_loss=r[1], q_values=r[2])
        else:
            r, e["exc"] = attempt(ev.evaluate, b)
            if not e["exc"]:
                e["told"] = told(oe, mse_loss=r[0], step_entropy_loss=r[1], q_values=r[2], action_distribution=r[3])
                e["dist"] = fxl(r[3], UNIT)
        if not e["exc"]:
            e.update(mse=fx(r[0], UNIT), ce=fx(r[1], UNIT), q=fxl(r[2], UNIT))
        e["mode"] = net.training == mode
        e["steps"] = any(not torch.equal(x, y) for x, y in zip(before, t.step_predict_network.parameters()))
        e["th"] = table(net)
        out.append(e)
    return {"cfg": cfg, "ev": out}


class LinearPolicy(torch.nn.Module):
    def __init__(self, S, n, seed):
        super().__init__()
        g = torch.Generator().manual_seed(seed + 1)
        self.w = torch.nn.Parameter(torch.randint(-12, 13, (n, S), generator=g) / 8)

    def forward(self, x):
        return x @ self.w.t()


def run_comp(c):
    net, pol = LinearSeq(c["S"], c["n"], c["L"], c["seed"]), LinearPolicy(c["S"], c["n"], c["seed"])
    pol.train(not c["evalmode"])
    t = CompressModelTrainer(pol, net, params(c))
    ev = CompressModelEvaluator(t)
    ot, oe = Heard(["mse_loss", "accuracy"]), Heard(["mse_loss", "q_values", "action_distribution", "accuracy"])
    t.add_observer(ot)
    ev.add_observer(oe)
    cfg = {"kind": "comp", "S": c["S"], "n": c["n"], "L": c["L"], "lr": fx(c["lr"], UNIT), "net": table(net), "th": fxl(pol.w, UNIT)}
    out = []
    for op, rows in c["ops"]:
        b = seq_batch(rows, c["n"])
        e = {"ev": op, "rows": seq_rows(rows), "mse": 0, "acc": 0, "q": [], "dist": [], "told": False}
        mode = pol.training
        if op == "train":
            r, e["exc"] = attempt(t.train, b)
            if not e["exc"]:
                e.update(mse=fx(r[0], UNIT), acc=fx(r[1], UNIT), told=told(ot, mse_loss=r[0], accuracy=r[1]))
        else:
            r, e["exc"] = attempt(ev.evaluate, b)
            if not e["exc"]:
                e.update(mse=fx(r[0], UNIT), q=fxl(r[1], UNIT), dist=fxl(r[2], UNIT), acc=fx(r[3], UNIT), told=told(oe, mse_loss=r[0], q_values=r[1], action_distribution=r[2], accuracy=r[3]))
        e["mode"] = pol.training == mode
        e["kept"] = table(net) == cfg["net"]
        e["th"] = fxl(pol.w, UNIT)
        out.append(e)
    return {"cfg": cfg, "ev": out}


# ---------------------------------------------------------------- ranked lists
def s_rank(rng):
    n, B = rng.randint(2, 5), rng.randint(1, 4)
    row = lambda: {"x": [d8(rng, -12, 12) for _ in range(n)], "lab": [rng.choice([0, 1]) for _ in range(n)], "rank": rng.sample(range(n), n), "logged": rng.sample(range(n), n)}
    return {"n": n, "cpe": rng.random() < 0.8, "rows": [row() for _ in range(B)], "evalmode": rng.random() < 0.3}


class Ranker(torch.nn.Module):
    """scores and rankings as given"""

    def __init__(self, rows):
        super().__init__()
        self.rows = rows

    def forward(self, x, mode, greedy=None, **kw):
        if mode == Seq2SlateMode.ENCODER_SCORE_MODE:
            return rlt.RankingOutput(encoder_scores=torch.tensor([r["x"] for r in self.rows]))
        assert mode == Seq2SlateMode.RANK_MODE and greedy
        return rlt.RankingOutput(ranked_tgt_out_idx=torch.tensor([r["rank"] for r in self.rows]) + 2)


METRICS = {"dcg": "dcg", "ndcg": "ndcg", "map": "mean_ap", "auc": "auc", "base_dcg": "base_dcg", "base_ndcg": "base_ndcg", "base_map": "base_map", "base_auc": "base_auc"}


def run_rank(c):
    rows, n, B = c["rows"], c["n"], len(c["rows"])
    net = Ranker(rows)
    net.train(not c["evalmode"])
    ev = RankingListwiseEvaluator(net, n, c["cpe"])
    ob = Heard(["cross_entropy_loss"] + list(METRICS.values()))
    ev.add_observer(ob)
    b = rlt.PreprocessedRankingInput.from_tensors(state=torch.zeros(B, 1), src_seq=torch.zeros(B, n, 1), tgt_out_idx=torch.tensor([r["logged"] for r in rows]) + 2, tgt_out_seq=torch.zeros(B, n, 1),
                                                  position_reward=torch.tensor([r["lab"] for r in rows]).float())
    mode = net.training
    _, exc = attempt(ev.evaluate, b)
    _, ex2 = attempt(ev.evaluate_post_training)
    e = {"ev": "rank", "exc": exc or ex2, "mode": net.training == mode, "ce": fx(ob.got["cross_entropy_loss"], UNIT) if "cross_entropy_loss" in ob.got else 0, "metrics": any(v in ob.got for v in METRICS.values()), "rows": []}
    for k, v in METRICS.items():
        e[k] = fx(ob.got[v], UNIT) if v in ob.got else 999999937
    for r in rows:
        y = [0] * n
        for pos, i in enumerate(r["logged"]):
            y[i] = r["lab"][pos]
        e["rows"].append({"x": fxl(r["x"], UNIT), "lab": r["lab"], "y": y, "rank": [i + 1 for i in r["rank"]], "logged": [i + 1 for i in r["logged"]]})
    return {"cfg": {"kind": "rank", "cpe": c["cpe"]}, "ev": [e]}


# ---------------------------------------------------------------- pool of sequences
def s_pool(rng):
    return {"cap": rng.randint(1, 4), "T": rng.randint(1, 3), "S": rng.randint(1, 2), "A": rng.randint(1, 2), "ops": ["insert"] + [rng.choice(["insert", "insert", "sample"]) for _ in range(rng.randint(3, 12))] + ["sample"]}


def run_pool(c):
    pool = MDNRNNMemoryPool(c["cap"])
    T, out = c["T"], []
    for k, op in enumerate(c["ops"]):
        if op == "insert":
            d = lambda m: [[random.randint(0, 99) for _ in range(m)] for _ in range(T)]
            s, a, nx = d(c["S"]), d(c["A"]), d(c["S"])
            r, nt = [random.randint(0, 99) for _ in range(T)], [random.randint(0, 1) for _ in range(T)]
            pool.insert_into_memory(*[torch.tensor(x).float() for x in (s, a, nx, r, nt)])
            out.append({"ev": "insert", "item": [s, a, nx, r, nt], "size": pool.memory_size})
        else:
            n = random.randint(1, 5)
            b, exc = attempt(pool.sample_memories, n)
            e = {"ev": "sample", "exc": exc, "n": n, "rows": []}
            if not exc:
                parts = [b.state.float_features, b.action, b.next_state.float_features, b.reward, b.not_terminal]
                e["rows"] = [[fxl(p[:, i]) for p in parts] for i in range(parts[0].shape[1])]
            out.append(e)
    return {"cfg": {"kind": "pool", "cap": c["cap"]}, "ev": out}


# ---------------------------------------------------------------- mixture likelihood
def s_gmm(rng):
    return {"T": rng.randint(1, 3), "B": rng.randint(1, 3), "G": rng.randint(1, 3), "sd": rng.randint(1, 3), "reduce": rng.random() < 0.5}


def run_gmm(c):
    T, B, G, D = c["T"], c["B"], c["G"], c["sd"]
    r = lambda *s: torch.randint(-8, 9, s) / 8
    nx, mu, s, pi = r(T, B, D), r(T, B, G, D), r(T, B, G, D) / 2, torch.log_softmax(r(T, B, G), 2)
    v, exc = attempt(gmm_loss, nx, mu, s.exp(), pi, reduce=c["reduce"])
    e = {"ev": "gmm", "exc": exc, "reduce": c["reduce"], "want": [T, B], "shape": list(v.shape) if not exc else [], "out": 0}
    if not exc:
        e["out"] = fx(v, UNIT) if c["reduce"] else fxl(v.reshape(-1), UNIT)
    e["steps"] = [{"nx": fxl(nx[i, j], UNIT), "o": {"mu": fxl(mu[i, j], UNIT), "s": fxl(s[i, j], UNIT), "lp": fxl(pi[i, j], UNIT)}} for i in range(T) for j in range(B)]
    return {"cfg": {"kind": "gmm", "G": G, "sd": D}, "ev": [e]}


# ---------------------------------------------------------------- the repository's networks
def s_net(rng):
    return {"net": rng.choice(["memory", "memory", "seq", "gru", "transformer"]), "T": rng.randint(2, 4), "B": rng.randint(1, 3), "layers": rng.randint(1, 2), "S": rng.randint(1, 3), "A": rng.randint(1, 3), "G": rng.randint(1, 3)}


def run_net(c):
    T, B, S, A = c["T"], c["B"], c["S"], c["A"]
    e = {"ev": "net", "exc": "", "alone": [], "prefix": [], "resume": [], "mass": [], "positive": True}
    far = lambda x, y: fx((x - y).abs().max(), UNIT)

    def go():
        s, a = torch.randn(T, B, S), torch.randn(T, B, A)
        f = rlt.FeatureData
        if c["net"] == "memory":
            net = MemoryNetwork(S, A, 5, c["layers"], c["G"])
            parts = lambda o: [o.mus, o.sigmas, o.logpi, o.reward, o.not_terminal, o.all_steps_lstm_hidden]
            full = net(f(s), f(a))
            for i in range(B):
                e["alone"] += [far(x[:, i:i + 1], y) for x, y in zip(parts(full), parts(net(f(s[:, i:i + 1]), f(a[:, i:i + 1]))))]
            k = random.randint(1, T - 1)
            head = net(f(s[:k]), f(a[:k]))
            e["prefix"] += [far(x[:k], y) for x, y in zip(parts(full), parts(head))]
            tail = net.mdnrnn(a[k:], s[k:], (head.last_step_lstm_hidden, head.last_step_lstm_cell))
            e["resume"] += [far(x[k:], y) for x, y in zip(parts(full), tail)]
            fresh = net.mdnrnn(a, s, net.mdnrnn.get_initial_hidden_state(B))
            e["resume"] += [far(x, y) for x, y in zip(parts(full), fresh)]
            e["mass"] = fxl(full.logpi.exp().sum(2).reshape(-1), UNIT)
            e["positive"] = bool((full.sigmas > 0).all()) and tuple(full.mus.shape) == (T, B, c["G"], S)
        elif c["net"] == "seq":
            net = Seq2RewardNetwork(S, A, 5, c["layers"])
            ln = torch.randint(1, T + 1, (B,))
            full = net(f(s), f(a), ln).acc_reward
            whole = net(f(s), f(a)).acc_reward
            for i in range(B):
                n = int(ln[i])
                e["prefix"].append(far(full[i], net(f(s[:n, i:i + 1]), f(a[:n, i:i + 1])).acc_reward))
                e["alone"].append(far(whole[i], net(f(s[:, i:i + 1]), f(a[:, i:i + 1])).acc_reward))
        else:
            src = T
            tgt = random.randint(1, src)
            net = Seq2SlateGRURewardNet(S, A, c["layers"], 8, src, tgt) if c["net"] == "gru" else Seq2SlateTransformerRewardNet(S, A, c["layers"], 2, 8, 8, src, tgt)
            net.eval()
            cand = torch.randn(B, src, A)
            idx = torch.stack([torch.tensor(random.sample(range(src), tgt)) for _ in range(B)])
            pick = torch.stack([cand[i][idx[i]] for i in range(B)])

            def ask(rows):
                m = len(rows)
                shown = pick[rows]
                return net(rlt.PreprocessedRankingInput.from_tensors(state=s[0][rows], src_seq=cand[rows], src_src_mask=torch.ones(m, src, src), tgt_in_seq=torch.cat([torch.zeros(m, 1, A), shown[:, :-1]], 1),
                                                                     tgt_out_seq=shown, tgt_tgt_mask=torch.tril(torch.ones(m, tgt, tgt)), tgt_out_idx=idx[rows] + 2)).predicted_reward
            whole = ask(list(range(B)))
            e["positive"] = tuple(whole.shape) == (B, 1)
            for i in range(B):
                e["alone"].append(far(whole[i], ask([i])))
    with torch.no_grad():
        _, e["exc"] = attempt(go)
    return {"cfg": {"kind": "net"}, "ev": [e]}


SCN = {"reward": s_reward, "imit": s_imit, "world": s_world, "s2r": s_s2r, "comp": s_s2r, "rank": s_rank, "pool": s_pool, "gmm": s_gmm, "net": s_net}
RUN = {"reward": run_reward, "imit": run_imit, "world": run_world, "s2r": run_s2r, "comp": run_comp, "rank": run_rank, "pool": run_pool, "gmm": run_gmm, "net": run_net}


def run(scn):
    random.seed(scn["seed"])
    np.random.seed(scn["seed"])
    torch.manual_seed(scn["seed"])
    scn = copy.deepcopy(scn)
    return RUN[scn["kind"]](scn)
