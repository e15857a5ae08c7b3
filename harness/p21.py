"""P21: evaluation pages built by the value learners (and for rankings), joined, sorted, valued, validated."""
import random

import torch

import reagent.types as rlt
from learn import TabQ, TabQA
from legacy import slate_net
from p10 import onehot, quarter, sgd
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from vf import attempt, fx, fxl

TRACE = "P21Trace"
GEN = [{"name": "gen", "module": "MC_EvalData", "cfg": "Gen_EvalData.cfg"}]
MC = [("MC_EvalData", "MC_EvalData.cfg")]
NEED = ["page", "sort", "values", "valid", "mixed", "nets", "metric", "slate"]
ASSUMPTIONS = ["networks are tables (some with normalisation and dropout in front), episode ids are numbers", "a parametric learner predicts no values of metrics, so those are not judged",
               "every row allows at least one action"]
UNIT = 8192


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 250 if q else 1296]:
        yield scenario(rng, [[(r["mdp"], r["seq"]) for r in g["rows"]]])
    for i in range(200 if q else 3000):
        yield scenario(rng, None)
    for i in range(40 if q else 400):
        yield {"kind": "slate", "n": rng.randint(2, 4), "t": rng.randint(1, 2), "batch": rng.randint(1, 4), "greedy": rng.random() < 0.5, "seed": rng.randint(0, 10 ** 6)}


def scenario(rng, where):
    algo = rng.choice(["dqn", "pdqn"])
    S, A, M = rng.randint(1, 3), rng.randint(1, 3), rng.randint(0, 2)
    n = rng.randint(1, A)
    if where is None:
        k, ids = rng.randint(1, 7), []
        for m in rng.sample(range(1, 9), 3):
            ids += [(m, x) for x in rng.sample(range(0, 9), rng.randint(1, 3))]
        rng.shuffle(ids)
        ids = ids[:k]
        if rng.random() < 0.4:
            ids.sort()
        cut = rng.randint(0, len(ids))
        where = [ids[:cut], ids[cut:]] if 0 < cut < len(ids) else [ids]

    def row(w):
        cand = list(range(A)) if algo == "dqn" else rng.sample(range(A), n)
        mask = [int(rng.random() < 0.7) for _ in cand]
        a = rng.randrange(len(cand))
        mask[a] = 1
        return {"s": rng.randrange(S), "cand": cand, "a": a, "mask": mask, "p": rng.randint(1, 16), "r": rng.randint(-8, 8), "met": [rng.randint(-8, 8) for _ in range(M)], "mdp": w[0], "seq": w[1]}
    val = lambda: rng.randint(-12, 12)
    tab = lambda: [[[val() for _ in range(A)] for _ in range(M + 1)] for _ in range(S)]
    return {"kind": "page", "algo": algo, "S": S, "A": A, "M": M, "q": [[val() for _ in range(A)] for _ in range(S)], "cq": tab(), "rw": tab(), "boost": [rng.choice([0, 0, 2, -3]) for _ in range(A)] if algo == "dqn" else [0] * A,
            "temp": rng.choice([1, 2]), "gamma": rng.choice([0, 4, 6, 7, 8]), "pages": [[row(w) for w in p] for p in where], "train": [rng.random() < 0.5 for _ in range(4)],
            "cut": rng.choice(["", "", "logged_propensities", "logged_rewards", "logged_values", "model_propensities", "model_rewards", "model_values", "action_mask"]), "metric": rng.randint(1, M) if M else 0,
            "seed": rng.randint(0, 10 ** 6)}


class Dressed(torch.nn.Module):
    """the table, and beside it layers whose state or output depends on the training mode"""

    def __init__(self, tab, parametric):
        super().__init__()
        self.tab, self.norm, self.drop = tab, torch.nn.BatchNorm1d(1), torch.nn.Dropout(0.5)

    def forward(self, s, a=None):
        x = s.float_features[:, :1]
        if x.shape[0] > 1 or not self.training:
            self.norm(x)
        v = self.tab(s) if a is None else self.tab(s, a)
        return v if not self.training else self.drop(v)


def batch(c, rows):
    fd = rlt.FeatureData
    S, A = c["S"], c["A"]
    col = lambda k, sc: torch.tensor([[r[k] / sc] for r in rows])
    ex = rlt.ExtraData(mdp_id=torch.tensor([[r["mdp"]] for r in rows]), sequence_number=torch.tensor([[r["seq"]] for r in rows]), action_probability=col("p", 16))
    if c["M"]:
        ex.metrics = torch.tensor([[x / 4 for x in r["met"]] for r in rows])
    n = len(rows)
    st = fd(onehot([r["s"] for r in rows], S))
    mask = torch.tensor([[float(x) for x in r["mask"]] for r in rows])
    act = onehot([r["cand"][r["a"]] for r in rows], A)
    base = dict(state=st, next_state=st, reward=col("r", 4), time_diff=torch.ones(n, 1), step=torch.ones(n, 1), not_terminal=torch.ones(n, 1), extras=ex)
    if c["algo"] == "dqn":
        return rlt.DiscreteDqnInput(action=act, next_action=act, possible_actions_mask=mask, possible_next_actions_mask=mask, **base)
    ex.max_num_actions = len(rows[0]["cand"])
    cands = torch.cat([onehot(r["cand"], A) for r in rows])
    return rlt.ParametricDqnInput(action=fd(act), next_action=fd(act), possible_actions=fd(cands), possible_actions_mask=mask, possible_next_actions=fd(cands), possible_next_actions_mask=mask, **base)


def dump(e):
    g = lambda f: fxl(getattr(e, f), UNIT) if getattr(e, f) is not None else [[]] * len(e.logged_rewards)
    one = lambda f: [int(v) for v in getattr(e, f).reshape(-1)]
    cols = {"p": g("logged_propensities"), "r": g("logged_rewards"), "met": g("logged_metrics"), "am": g("action_mask"), "pam": g("possible_actions_mask"), "mr": g("model_rewards"), "mrl": g("model_rewards_for_logged_action"),
            "mv": g("model_values"), "mvl": g("model_values_for_logged_action"), "oq": g("optimal_q_values"), "mp": g("model_propensities"), "mm": g("model_metrics"), "mmv": g("model_metrics_values"),
            "mml": g("model_metrics_for_logged_action"), "mmvl": g("model_metrics_values_for_logged_action")}
    ids = {"mdp": one("mdp_id"), "seq": one("sequence_number")}
    n = len(ids["mdp"])
    if any(len(v) != n for v in cols.values()):
        return []
    single = {"p", "r", "mrl", "mvl"}
    return [dict({k: v[i] for k, v in ids.items()}, **{k: (v[i][0] if k in single and len(v[i]) == 1 else v[i]) for k, v in cols.items()}) for i in range(n)]


def run(scn):
    torch.manual_seed(scn["seed"])
    random.seed(scn["seed"])
    return run_slate(scn) if scn["kind"] == "slate" else run_page(scn)


def trainer(c):
    S, A, M = c["S"], c["A"], c["M"]
    par = c["algo"] == "pdqn"
    names = [str(i) for i in range(A)]
    rl = RLParameters(gamma=c["gamma"] / 8, temperature=float(c["temp"]), reward_boost={names[i]: b / 4 for i, b in enumerate(c["boost"]) if b} or None)
    flat = lambda h: [[v for m in st for v in m] for st in quarter(h)]
    if par:
        nets = [TabQA(quarter(c["q"])), TabQA(quarter(c["q"])), TabQA(torch.tensor(quarter(c["rw"])).permute(0, 2, 1).tolist())]
    else:
        nets = [TabQ(quarter(c["q"])), TabQ(quarter(c["q"])), TabQ(flat(c["rw"])), TabQ(flat(c["cq"])), TabQ(flat(c["cq"]))]
    nets = [Dressed(n, par) for n in nets]
    if par:
        return ParametricDQNTrainer(*nets, rl=rl, optimizer=sgd(0.1)), nets
    return DQNTrainer(nets[0], nets[1], nets[2], q_network_cpe=nets[3], q_network_cpe_target=nets[4], metrics_to_score=["m%d" % i for i in range(M)] or None, actions=names, rl=rl,
                      evaluation=EvaluationParameters(calc_cpe_in_training=True), optimizer=sgd(0.1)), nets


def run_page(c):
    tr, nets = trainer(c)
    for n, m in zip(nets, c["train"] + [True]):
        n.train(m)
    state = lambda: [v.clone() for n in nets for v in n.state_dict().values()]
    modes = lambda: [[x.training for x in n.modules()] for n in nets]
    before, was = state(), modes()
    cfg = {"algo": c["algo"], "A": c["A"], "M": c["M"], "q": fxl(quarter(c["q"]), UNIT), "cq": fxl(quarter(c["cq"]), UNIT), "rw": fxl(quarter(c["rw"]), UNIT), "boost": fxl(quarter(c["boost"]), UNIT), "temp": c["temp"],
           "gamma": c["gamma"] * UNIT // 8}
    evs, page = [], None
    for rows in c["pages"]:
        out, exc = attempt(EvaluationDataPage.create_from_training_batch, batch(c, rows), tr)
        if not exc and page is not None:
            out, exc = attempt(page.append, out)
        log = [{"s": r["s"] + 1, "cand": [x + 1 for x in r["cand"]], "a": r["a"] + 1, "mask": r["mask"], "p": r["p"] * UNIT // 16, "r": r["r"] * UNIT // 4, "met": [x * UNIT // 4 for x in r["met"]], "mdp": r["mdp"], "seq": r["seq"]} for r in rows]
        if exc:
            return {"cfg": cfg, "ev": evs + [{"ev": "page", "exc": exc, "rows": log, "page": []}]}
        page = out
        evs.append({"ev": "page", "exc": "", "rows": log, "page": dump(page)})
    evs.append({"ev": "nets", "same": all(torch.equal(x, y) for x, y in zip(before, state())), "modes": modes() == was})
    if c["M"]:
        _, exc = attempt(page.append, page._replace(logged_metrics=None))
        evs.append({"ev": "mixed", "exc": exc})

    def valid(p, cut):
        p, exc = attempt(lambda: p.compute_values(c["gamma"] / 8))
        if cut and not exc:
            p = p._replace(**{cut: getattr(p, cut)[:-1]})
        if not exc:
            _, exc = attempt(p.validate)
        return {"ev": "valid", "exc": exc, "cut": cut}
    evs.append(valid(page, ""))
    page = page.sort()
    evs.append({"ev": "sort", "page": dump(page)})
    cut = c["cut"] or ("logged_metrics" if c["M"] and c["seed"] % 2 else "model_metrics" if c["M"] and c["seed"] % 3 else "")
    evs.append(valid(page, ""))
    if cut:
        evs.append(valid(page, cut))
    page = page.compute_values(c["gamma"] / 8)
    evs.append({"ev": "values", "lv": [fx(v, UNIT) for v in page.logged_values.reshape(-1)], "lmv": fxl(page.logged_metrics_values, UNIT) if c["M"] else []})
    if c["metric"]:
        n = page.action_mask.shape[1]
        m, exc = attempt(page.set_metric_as_reward, c["metric"] - 1, n)
        e = {"ev": "metric", "m": c["metric"], "exc": exc, "rows": []}
        if not exc:
            rows = dump(m._replace(mdp_id=page.mdp_id))
            lv = [fx(v, UNIT) for v in m.logged_values.reshape(-1)]
            e["rows"] = [dict(r, lv=lv[i]) for i, r in enumerate(rows)]
        evs.append(e)
    return {"cfg": cfg, "ev": evs}


class SlateWorth(torch.nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = w

    def forward(self, state, cand, slate, mask, idx):
        # the items at their ranks; idx are their positions, offset by two
        return (slate[:, :, 0] * self.w[: slate.shape[1]]).sum(1, keepdim=True)


def run_slate(c):
    n, t, B = c["n"], min(c["t"], c["n"]), c["batch"]
    net = slate_net(c["seed"], "frechet_sort", n, t).eval()
    w = torch.tensor([1.0, 0.5, 0.25])
    x = torch.randint(-8, 9, (B, n, 2)).float() / 4
    state = torch.rand(B, 2)
    a = torch.stack([torch.randperm(n)[:t] for _ in range(B)])
    mk = lambda act: rlt.PreprocessedRankingInput.from_input(state=state, candidates=x, device=torch.device("cpu"), action=act, logged_propensities=torch.rand(B, 1) if False else prob, slate_reward=rew)
    prob, rew = (torch.randint(1, 16, (B, 1)) / 16), torch.randint(-8, 9, (B, 1)) / 4
    with torch.no_grad():
        best = net(mk(a), mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=t, greedy=True).ranked_tgt_out_idx - 2
        if c["seed"] % 2:
            a[0] = best[0]
        lp = net(mk(a), mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs.exp()
    e, exc = attempt(EvaluationDataPage.create_from_tensors_seq2slate, net, SlateWorth(w), mk(a), c["greedy"])
    ev = {"ev": "slate", "exc": exc, "batch": B, "greedy": c["greedy"], "w": fxl(w, UNIT), "rows": []}
    if not exc:
        f = lambda k, i: fx(getattr(e, k)[i].item(), UNIT)
        ev["rows"] = [{"x": fxl(x[i, :, 0], UNIT), "a": [v + 1 for v in a[i].tolist()], "best": [v + 1 for v in best[i].tolist()], "lr": fx(rew[i].item(), UNIT), "lp": fx(prob[i].item(), UNIT), "prob": fx(lp[i].item(), UNIT),
                       "mr": f("model_rewards", i), "mrl": f("model_rewards_for_logged_action", i), "r": f("logged_rewards", i), "p": f("logged_propensities", i), "am": f("action_mask", i), "mp": f("model_propensities", i)}
                      for i in range(len(e.logged_rewards))]
    return {"cfg": {}, "ev": [ev]}
