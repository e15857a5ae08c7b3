"""P26: models as served - raw inputs and presence to values, names, actions and rankings - against the trained networks."""
import copy
import io
import random

import learners
import numpy as np
import torch

import reagent.training  # noqa: F401
import reagent.types as rlt
from reagent.models.mdn_rnn import MDNRNN
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
from reagent.gym.policies.predictor_policies import create_predictor_policy_from_model
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.models.actor import DirichletFullyConnectedActor, FullyConnectedActor
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.mlp_scorer import MLPScorer
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.seq2slate import Seq2SlateTransformerNet
from reagent.model_utils.seq2slate_utils import Seq2SlateOutputArch
from reagent.net_builder.continuous_actor.dirichlet_fully_connected import DirichletFullyConnected
from reagent.net_builder.continuous_actor.fully_connected import FullyConnected as ActorFC
from reagent.net_builder.discrete_dqn.dueling import Dueling
from reagent.net_builder.discrete_dqn.fully_connected import FullyConnected as DqnFC
from reagent.net_builder.discrete_dqn.fully_connected_with_embedding import FullyConnectedWithEmbedding
from reagent.parameters import NormalizationData, NormalizationKey
from reagent.prediction import predictor_wrapper as W
from reagent.prediction.ranking.predictor_wrapper import DeterminantalPointProcessPredictorWrapper
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.workflow.types import RewardOptions
from p25 import TYPES, entry, feature, params, spec
from vf import attempt, fx, fxl

TRACE = "P26Trace"
MC = [("MC_Serving", "MC_Serving.cfg")]
MC_THOROUGH = [("MC_Serving", "MC_Serving_deep.cfg")]
GEN = [{"name": "mix", "module": "MC_Preprocess", "cfg": "Gen_Preprocess.cfg"}]
NEED = ["serve", "choose", "pick", "back", "same", "slate", "plan", "dpp", "sum", "refuse"]
ASSUMPTIONS = ["exact values are judged for networks of one linear layer (with tanh, softmax or means behind it); deeper networks are compared with the trained network itself",
               "raw inputs stay within the limits of P25"]
UNIT = 8192
FAMS = ["dqn", "qrdqn", "c51", "pdqn", "td3", "sac", "crr", "crr_dqn", "crr_actor_dqn", "rank", "docs", "compress", "sparse"]


def feats(rng, n, base=0, kinds=None):
    return [feature(rng, base + i, rng.choice(kinds or TYPES)) for i in rng.sample(range(30), n)]


def action_feats(rng, n, base=100):
    if rng.random() < 0.25:
        fs = [{"id": base + i, "ty": "DO_NOT_PREPROCESS"} for i in rng.sample(range(20), n)]
        return fs
    return [feature(rng, base + i, "CONTINUOUS_ACTION") for i in rng.sample(range(20), n)]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    mixes = gens["mix"]
    for fam in FAMS:
        for i in range(10 if q else 60):
            fs = [feature(rng, f["id"], f["ty"]) for f in rng.choice(mixes)["fs"]] if rng.random() < 0.5 else feats(rng, rng.randint(1, 5))
            s = {"kind": "serve", "fam": fam, "fs": fs, "seed": rng.randint(0, 10 ** 6), "n": rng.randint(2, 3), "items": rng.randint(1, 4)}
            s["afs"] = action_feats(rng, rng.randint(1, 3)) if fam in ("td3", "sac") else feats(rng, rng.randint(1, 3), 50) if fam in ("pdqn", "rank", "docs") else []
            s["acts"] = action_feats(rng, rng.randint(1, 3)) if fam == "rank" else []
            if fam == "sparse":
                s["tables"] = [{"ids": rng.sample(range(100), rng.randint(2, 4))} for _ in range(rng.randint(1, 2))]
                s["lists"] = [{"fid": 200 + k, "name": rng.choice("abcxyz") + str(k), "table": rng.randrange(len(s["tables"])), "score": rng.random() < 0.5} for k in range(rng.randint(1, 3))]
                s["lists"].sort(key=lambda d: d["score"])
                s["dim"] = rng.randint(1, 2)
            yield s
    for i in range(10 if q else 80):
        yield {"kind": "pickp", "fs": feats(rng, rng.randint(1, 4)), "seed": rng.randint(0, 10 ** 6), "acts": rng.randint(2, 4)}
    for i in range(10 if q else 80):
        n = rng.randint(2, 5)
        yield {"kind": "slateq", "fs": feats(rng, rng.randint(1, 3), kinds=["CONTINUOUS", "PROBABILITY", "QUANTILE"]), "afs": feats(rng, rng.randint(1, 3), 50, kinds=["CONTINUOUS", "ENUM", "QUANTILE"]), "seed": rng.randint(0, 10 ** 6),
               "n": n, "k": rng.randint(1, min(n, 3))}
    for kind in learners.KINDS + ["dropout", "dueling", "s2s", "s2r", "s2rp", "slatereward", "memory"]:
        for i in range(3 if q else 25):
            yield {"kind": "deep", "what": kind, "seed": rng.randint(0, 10 ** 6), "o": learners.options(rng, kind) if kind in learners.KINDS else {}}
    for i in range(6 if q else 40):
        yield {"kind": "draws", "seed": rng.randint(0, 10 ** 6)}
    for i in range(25 if q else 300):
        n = rng.randint(2, 4)
        fv = [rng.choice([[1.0, 0.0], [0.0, 1.0], [0.5, 0.5], [1.0, 2.0], [-1.0, 0.5], [3.0, 1.0]]) for _ in range(n)]
        yield {"kind": "dpp", "q": [rng.randint(2, 14) / 8 for _ in range(n)], "fv": fv, "alpha": rng.choice([0.25, 0.5, 1.0, 0.75])}


def run(scn):
    torch.manual_seed(scn.get("seed", 0))
    return {"serve": run_serve, "pickp": run_pickp, "slateq": run_slateq, "deep": run_deep, "draws": run_draws, "dpp": run_dpp}[scn["kind"]](scn)


# ---------------------------------------------------------------- exact serving
def nd(fs):
    return NormalizationData(dense_normalization_parameters={f["id"]: params(f) for f in fs})


def lay(fs):
    return sorted(fs, key=lambda f: (TYPES.index(f["ty"]), f["id"]))


def raw(rng, fs, miss=0.3):
    x, p = [], []
    for f in lay(fs):
        here = rng.random() >= miss
        v = entry(rng, f) if here or rng.random() < 0.5 else -1337.0
        if f["ty"] in ("DO_NOT_PREPROCESS", "DISCRETE_ACTION"):
            v = v if abs(v) < 6 or not here else 2.0
        x.append(v)
        p.append(int(here))
    return x, p


def width(fs):
    return sum(len(f["values"]) if f["ty"] == "ENUM" else 1 for f in fs)


def dy(rng, n, m, top=12):
    return [[rng.randint(-top, top) / 8 for _ in range(m)] for _ in range(n)]


def setw(net, w, b):
    lin = [m for m in net.modules() if isinstance(m, torch.nn.Linear)]
    assert len(lin) == 1, len(lin)
    with torch.no_grad():
        lin[0].weight.copy_(torch.tensor(w))
        lin[0].bias.copy_(torch.tensor(b))


def reload(m):
    buf = io.BytesIO()
    torch.jit.save(m, buf)
    buf.seek(0)
    return torch.jit.load(buf)


def t32(x):
    return torch.tensor(x, dtype=torch.float32)


def vp(rows):
    return t32([r["x"] for r in rows]), t32([r["p"] for r in rows])


OPTS = {"tau": 4, "lr": 1, "gamma": 8, "maxq": True, "twin": False, "heads": False, "delay": 1, "value": False, "alpha": False, "dueling": False, "double": False, "single": True, "metrics": 0, "flat": True}


def run_serve(scn):
    rng = random.Random(scn["seed"])
    fam, fs, afs = scn["fam"], scn["fs"], scn["afs"]
    names = rng.sample(["up", "down", "left", "right", "stay"], rng.randint(2, 4))
    o = dict(OPTS, actions=names)
    din = width(fs)
    cfg = {"kind": "serve", "fs": [spec(f) for f in fs], "afs": [], "act": [], "atoms": 1, "support": [], "lists": [], "tables": [], "dim": 1}
    ndm = {NormalizationKey.STATE: nd(fs)}
    wants, ev, policy, train_nets, ref = [], [], None, [], None
    if fam in ("dqn", "qrdqn", "c51", "pdqn", "td3", "sac", "crr", "crr_dqn", "crr_actor_dqn"):
        kind = fam.split("_")[0]
        if kind in ("pdqn",):
            ndm[NormalizationKey.ACTION] = nd(afs)
            cfg["afs"] = [spec(f) for f in afs]
            din += width(afs)
        if kind in ("td3", "sac"):
            ndm[NormalizationKey.ACTION] = nd(afs)
            cfg["act"] = [spec(f) for f in lay(afs)]
        if kind == "crr":
            o["heads"] = False
        m = learners.manager(kind, o)
        if kind == "sac":
            m.serve_mean_policy = True
        t = m.initialize_trainer(use_gpu=False, reward_options=RewardOptions(), normalization_data_map=ndm)
        net = {"td3": lambda: t.actor_network, "sac": lambda: t.actor_network, "crr": lambda: t.q1_network if fam == "crr_dqn" else t.actor_network}.get(kind, lambda: t.q_network)()
        cfg["fam"] = {"dqn": "q", "qrdqn": "dist", "c51": "cat", "pdqn": "pdqn", "td3": "actor", "sac": "mean", "crr": "squash", "crr_dqn": "q", "crr_actor_dqn": "squash"}[fam]
        nout = {"pdqn": 1, "td3": len(afs), "sac": 2 * len(afs), "qrdqn": len(names) * 3, "c51": len(names) * 3}.get(kind, len(names))
        if kind in ("qrdqn", "c51"):
            cfg["atoms"], cfg["support"] = 3, fxl([-2.0, 0.0, 2.0], UNIT)
        train_nets = [net]
        w, b = dy(rng, nout, din, 4 if kind in ("c51",) else 12), dy(rng, 1, nout, 8)[0]
        setw(net, w, b)
        modules = m.build_serving_modules()
        served = modules[{"crr_dqn": "dqn", "crr_actor_dqn": "actor_dqn"}.get(fam, "default_model")]
        wants = {"pdqn": ["Q"], "dqn": names, "qrdqn": names, "c51": names, "crr_dqn": names, "crr_actor_dqn": names}.get(fam, [])
        if fam in ("dqn", "qrdqn", "c51"):
            policy = m.create_policy(serving=True)
        elif fam in ("td3", "sac", "crr"):
            policy = m.create_policy(serving=True)
    elif fam == "rank":
        cfg.update(fam="rank", afs=[spec(f) for f in afs], act=[spec(f) for f in lay(scn["acts"])])
        k = scn["items"]
        net = FullyConnectedActor(state_dim=din + k * width(afs), action_dim=len(scn["acts"]), sizes=[], activations=[])
        w, b = dy(rng, len(scn["acts"]), din + k * width(afs)), dy(rng, 1, len(scn["acts"]), 8)[0]
        setw(net, w, b)
        train_nets = [net]
        served = ActorFC(sizes=[], activations=[]).build_ranking_serving_module(net, nd(fs), nd(afs), k, nd(scn["acts"]))
    elif fam == "docs":
        cfg.update(fam="pdqn", afs=[spec(f) for f in afs])
        mlp = MLPScorer(input_dim=din + width(afs), layer_sizes=[], output_dim=1, concat=True)
        w, b = dy(rng, 1, din + width(afs)), dy(rng, 1, 1, 8)[0]
        setw(mlp, w, b)
        whole = W.LearnVMSlateWithPreprocessor(mlp, Preprocessor({f["id"]: params(f) for f in fs}, False), Preprocessor({f["id"]: params(f) for f in afs}, False))
        served = torch.jit.trace(whole.eval(), whole.input_prototype())
    elif fam == "compress":
        cfg["fam"], wants = "q", names
        net = FullyConnectedNetwork([din, len(names)], ["linear"])
        w, b = dy(rng, len(names), din), dy(rng, 1, len(names), 8)[0]
        setw(net, w, b)
        pre = W.CompressModelWithPreprocessor(net, Preprocessor({f["id"]: params(f) for f in fs}, False), rlt.ModelFeatureConfig())
        pre.input_prototype = lambda: (rlt.ServingFeatureData(pre.state_preprocessor.input_prototype(), W.FAKE_STATE_ID_LIST_FEATURES, W.FAKE_STATE_ID_SCORE_LIST_FEATURES),)
        served = W.DiscreteDqnPredictorWrapper(pre, names, rlt.ModelFeatureConfig())
    else:
        ls, tb, dim = scn["lists"], scn["tables"], scn["dim"]
        fc = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name=str(f["id"]), feature_id=f["id"]) for f in fs],
                                    id_mapping_config={f"t{k}": rlt.IdMapping(ids=t["ids"]) for k, t in enumerate(tb)},
                                    id_list_feature_configs=[rlt.IdListFeatureConfig(name=d["name"], feature_id=d["fid"], id_mapping_name=f"t{d['table']}") for d in ls if not d["score"]],
                                    id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name=d["name"], feature_id=d["fid"], id_mapping_name=f"t{d['table']}") for d in ls if d["score"]])
        builder = FullyConnectedWithEmbedding(sizes=[], activations=[], embedding_dim=dim)
        net = builder.build_q_network(fc, nd(fs), len(names))
        rows = [dy(rng, len(t["ids"]), dim, 8) for t in tb]
        bags = [mm for mm in net.modules() if isinstance(mm, torch.nn.ModuleDict)][0]
        with torch.no_grad():
            for k, r in enumerate(rows):
                bags[f"t{k}"].weight.copy_(torch.tensor(r))
        din += len(ls) * dim
        w, b = dy(rng, len(names), din), dy(rng, 1, len(names), 8)[0]
        setw(net, w, b)
        train_nets = [net]
        served = builder.build_serving_module(net, nd(fs), names, fc)
        wants = names
        cfg.update(fam="sparse", dim=dim, lists=[{"table": d["table"] + 1} for d in ls], tables=[{"ids": t["ids"], "rows": fxl(r, UNIT)} for t, r in zip(tb, rows)])
    cfg.update(W=fxl(w, UNIT), b=fxl(b, UNIT))
    back = reload(served)

    def batch(n):
        rows = []
        for _ in range(n):
            x, p = raw(rng, fs, rng.choice([0, 0.3, 0.3, 1]))
            r = {"x": x, "p": p, "items": [], "lists": []}
            for _ in range({"pdqn": 1, "docs": scn["items"], "rank": scn["items"]}.get(fam, 0)):
                y, yp = raw(rng, afs)
                r["items"].append({"x": y, "p": yp})
            if fam == "sparse":
                for d in scn["lists"]:
                    ids = scn["tables"][d["table"]]["ids"]
                    r["lists"].append([{"id": rng.choice(ids), "w": rng.randint(-8, 8) / 4 if d["score"] else 1.0} for _ in range(rng.choice([0, 1, 1, 2, 3]))])
            rows.append(r)
        return rows

    def ask(mod, rows):
        sv = vp(rows)
        if fam == "pdqn":
            return mod(sv, (t32([r["items"][0]["x"] for r in rows]), t32([r["items"][0]["p"] for r in rows])))
        if fam == "rank":
            return mod(sv, [(t32([r["items"][k]["x"] for r in rows]), t32([r["items"][k]["p"] for r in rows])) for k in range(scn["items"])])
        if fam == "docs":
            return mod(sv, (t32([[i["x"] for i in r["items"]] for r in rows]), t32([[i["p"] for i in r["items"]] for r in rows])))
        if fam in ("td3", "sac", "crr"):
            return mod(sv)
        return mod(sparse(rows, sv))

    def sparse(rows, sv):
        if fam != "sparse":
            return rlt.ServingFeatureData(sv, {}, {})
        il, isl = {}, {}
        order = list(range(len(scn["lists"])))
        rng.shuffle(order)
        for k in order:
            d = scn["lists"][k]
            off = [0]
            for r in rows[:-1]:
                off.append(off[-1] + len(r["lists"][k]))
            ids = torch.tensor([i["id"] for r in rows for i in r["lists"][k]], dtype=torch.long)
            if d["score"]:
                isl[d["fid"]] = (torch.tensor(off), ids, t32([i["w"] for r in rows for i in r["lists"][k]]))
            else:
                il[d["fid"]] = (torch.tensor(off), ids)
        if rng.random() < 0.5:
            il[999] = (torch.tensor([0] * len(rows)), torch.tensor([5], dtype=torch.long))
        return rlt.ServingFeatureData(sv, il, isl)

    def eager(rows):
        d = sparse(rows, vp(rows))
        name = {k["fid"]: k["name"] for k in scn["lists"]}
        ids = {k["fid"]: scn["tables"][k["table"]]["ids"] for k in scn["lists"]}
        at = lambda f, v: torch.tensor([ids[f].index(int(i)) for i in v], dtype=torch.long)
        with torch.no_grad():
            return copy.deepcopy(net).eval()(rlt.FeatureData(Preprocessor({f["id"]: params(f) for f in fs}, False).eval()(*d.float_features_with_presence),
                                             id_list_features={name[f]: (v[0], at(f, v[1])) for f, v in d.id_list_features.items() if f in name},
                                             id_score_list_features={name[f]: (v[0], at(f, v[1]), v[2]) for f, v in d.id_score_list_features.items()}))

    def enc(r):
        return {"x": fxl(r["x"], UNIT), "p": r["p"], "items": [{"x": fxl(i["x"], UNIT), "p": i["p"]} for i in r["items"]],
                "lists": [[{"id": i["id"], "w": fx(i["w"], UNIT)} for i in li] for li in r["lists"]]}

    def split(out):
        return (list(out[0]), out[1]) if isinstance(out, tuple) else ([], out)

    held = None
    for k, n in enumerate([scn["n"], 1, scn["n"] + 2]):
        rows = batch(n)
        mod = back if k == 1 else served
        out, exc = attempt(ask, mod, rows)
        nm, y = split(out) if not exc else ([], None)
        if fam == "docs":     # one value for each candidate
            flat = [dict(r, items=[i]) for r in rows for i in r["items"]]
            ev.append({"ev": "serve", "exc": exc, "rows": [enc(r) for r in flat], "names": [], "wants": [], "y": [] if exc else fxl(y.reshape(-1, 1), UNIT)})
        else:
            ev.append({"ev": "serve", "exc": exc, "rows": [enc(r) for r in rows], "names": nm, "wants": wants, "y": [] if exc else fxl(y, UNIT)})
        if not exc:
            held = (rows, y)
        if fam == "sparse":      # the network itself, whatever order the lists come in
            q, x3 = attempt(eager, rows)
            ev.append({"ev": "serve", "exc": x3, "rows": [enc(r) for r in rows], "names": [], "wants": [], "y": [] if x3 else fxl(q, UNIT)})
        if fam in ("td3", "sac") and not exc and afs[0]["ty"] == "CONTINUOUS_ACTION":
            nb, x2 = attempt(lambda: Preprocessor({f["id"]: params(f) for f in afs}, False).eval()(y, torch.ones_like(y)))
            ev.append({"ev": "back", "exc": x2, "rows": [enc(r) for r in rows], "y": [] if x2 else fxl(nb, UNIT)})
    if fam == "rank":
        bad = batch(2)
        _, exc = attempt(lambda: served((t32([r["x"] for r in bad]), t32([r["p"] for r in bad])), [(t32([[0.0] * len(afs)] * 2), t32([[1.0] * len(afs)] * 2))] * (scn["items"] + 1)))
        ev.append({"ev": "refuse", "exc": exc})
    if policy is not None:
        for _ in range(3):
            row = batch(1)[0]
            ok = [int(rng.random() < 0.6) for _ in names]
            if not any(ok):
                ok = [1] * len(names)
            if fam in ("dqn", "qrdqn", "c51"):
                use = rng.random() < 0.7
                act, exc = attempt(policy.act, (t32([row["x"]]), t32([row["p"]])), np.array(ok) if use else None)
                a = 0 if exc else int(act.action.argmax()) + 1 if float(act.action.sum()) == 1 else 0
                ev.append({"ev": "choose", "exc": exc, "row": enc(row), "ok": ok if use else [1] * len(names), "a": a})
            else:
                act, exc = attempt(policy.act, (t32([row["x"]]), t32([row["p"]])))
                ev.append({"ev": "serve", "exc": exc, "rows": [enc(row)], "names": [], "wants": [], "y": [] if exc else fxl(act.action, UNIT)})
    # serving leaves the trained network alone, and training leaves the served one alone
    if train_nets and held:
        net = train_nets[0]
        ev.append({"ev": "same", "why": "building a served model changed the trained network", "exc": "", "tol": 0, "a": [[int(net.training)], fxl(next(mm for mm in net.modules() if isinstance(mm, torch.nn.Linear)).weight.reshape(-1), UNIT)],
                   "b": [[1], fxl(torch.tensor(w).reshape(-1), UNIT)]})
        with torch.no_grad():
            for q in net.parameters():
                q.add_(1.0)
        out, exc = attempt(ask, served, held[0])
        ev.append({"ev": "same", "why": "training on changed a model already served", "exc": exc, "tol": 0, "a": [] if exc else fxl(split(out)[1], UNIT), "b": fxl(held[1], UNIT)})
    return {"cfg": cfg, "ev": ev}


def run_pickp(scn):
    """the served policy of a parametric model with one-hot actions"""
    rng = random.Random(scn["seed"])
    fs, n = scn["fs"], scn["acts"]
    afs = [{"id": 60 + i, "ty": "DO_NOT_PREPROCESS"} for i in range(n)]
    m = learners.manager("pdqn", OPTS)
    t = m.initialize_trainer(use_gpu=False, reward_options=RewardOptions(), normalization_data_map={NormalizationKey.STATE: nd(fs), NormalizationKey.ACTION: nd(afs)})
    din = width(fs) + n
    w, b = dy(rng, 1, din), dy(rng, 1, 1, 8)[0]
    w[0][width(fs):] = [v + rng.randint(-8, 8) / 8 for v in w[0][width(fs):]]
    setw(t.q_network, w, b)
    cfg = {"kind": "serve", "fam": "pdqn", "fs": [spec(f) for f in fs], "afs": [spec(f) for f in afs], "act": [], "atoms": 1, "support": [], "lists": [], "tables": [], "dim": 1, "W": fxl(w, UNIT), "b": fxl(b, UNIT)}
    policy = m.create_policy(serving=True)
    ev = []
    for _ in range(3):
        x, p = raw(rng, fs, rng.choice([0, 0.5]))
        act, exc = attempt(policy.act, (t32([x]), t32([p])))
        rows = [{"x": fxl(x, UNIT), "p": p, "items": [{"x": [UNIT if i == k else 0 for i in range(n)], "p": [1] * n}], "lists": []} for k in range(n)]
        ev.append({"ev": "pick", "exc": exc, "rows": rows, "value": [], "a": [] if exc else [int(act.action.argmax()) + 1]})
        sc, exc = attempt(policy.scorer, (t32([x]), t32([p])))
        ev.append({"ev": "serve", "exc": exc, "rows": rows, "names": [], "wants": [], "y": [] if exc else fxl(sc.reshape(-1, 1), UNIT)})
    return {"cfg": cfg, "ev": ev}


def run_slateq(scn):
    rng = random.Random(scn["seed"])
    fs, afs, n, k = scn["fs"], scn["afs"], scn["n"], scn["k"]
    m = learners.manager("slateq", OPTS)
    m.num_candidates, m.slate_size = n, k
    t = m.initialize_trainer(use_gpu=False, reward_options=RewardOptions(), normalization_data_map={NormalizationKey.STATE: nd(fs), NormalizationKey.ITEM: nd(afs)})
    w, b = dy(rng, 1, width(fs) + width(afs)), dy(rng, 1, 1, 8)[0]
    setw(t.q_network, w, b)
    cfg = {"kind": "serve", "fam": "pdqn", "fs": [spec(f) for f in fs], "afs": [spec(f) for f in afs], "act": [], "atoms": 1, "support": [], "lists": [], "tables": [], "dim": 1, "W": fxl(w, UNIT), "b": fxl(b, UNIT)}
    policy = m.create_policy(serving=True)
    ev = []
    for _ in range(3):
        x, _ = raw(rng, fs, 0)
        items = [raw(rng, afs, 0)[0] for _ in range(n)]
        value = [rng.randint(-8, 8) / 8 for _ in range(n)]
        obs = rlt.FeatureData(t32([x]), candidate_docs=rlt.DocList(t32([items]), value=t32([value])))
        act, exc = attempt(policy.act, obs)
        rows = [{"x": fxl(x, UNIT), "p": [1] * len(x), "items": [{"x": fxl(i, UNIT), "p": [1] * len(i)}], "lists": []} for i in items]
        ev.append({"ev": "pick", "exc": exc, "rows": rows, "value": fxl(value, UNIT), "a": [] if exc else [int(a) + 1 for a in act.action[0]]})
    return {"cfg": cfg, "ev": ev}


# ---------------------------------------------------------------- deep networks, sequences, random policies
def plain(n, base=0):
    return [{"id": base + i, "ty": "CONTINUOUS", "mean": 0.5, "std": 2.0} for i in range(n)]


def run_deep(scn):
    rng = random.Random(scn["seed"])
    what, ev = scn["what"], []
    if what in learners.KINDS:
        L = learners.Learner(what, scn["o"], scn["seed"])
        t, m = L.trainer, L.manager
        learners_fit(L)
        if what == "sac":
            m.serve_mean_policy = True
        served = m.build_serving_modules()["default_model"]
        net = {"td3": "actor_network", "sac": "actor_network", "crr": "actor_network"}.get(what, "q_network")
        net = copy.deepcopy(getattr(t, net)).eval()
        post = None
        for n in (1, 3, 7):
            x = t32([[rng.randint(-24, 24) / 8 for _ in range(learners.S)] for _ in range(n)])
            p = torch.ones_like(x)
            adim = learners.A if what == "pdqn" else learners.ADIM
            a = t32([[rng.randint(-8, 8) / 8 for _ in range(adim)] for _ in range(n)])
            with torch.no_grad():
                if what in ("pdqn", "slateq"):
                    want = net(rlt.FeatureData(x), rlt.FeatureData(a))
                    got, exc = attempt(served, (x, p), (a, torch.ones_like(a)))
                elif what in ("td3", "crr"):
                    want = net(rlt.FeatureData(x)).action
                    got, exc = attempt(served, (x, p))
                elif what == "sac":
                    want = net(rlt.FeatureData(x)).squashed_mean
                    got, exc = attempt(served, (x, p))
                else:
                    want = net(rlt.FeatureData(x))
                    want = want.mean(2) if what == "qrdqn" else want
                    got, exc = attempt(served, rlt.ServingFeatureData((x, p), {}, {}))
            got = got[1] if isinstance(got, tuple) else got
            ev.append(same(exc, got, want, "a served model does not answer as the trained one"))
    elif what in ("dropout", "dueling"):
        fs = plain(3)
        builder = DqnFC(sizes=[4, 4], activations=["relu", "tanh"], dropout_ratio=0.5) if what == "dropout" else Dueling(sizes=[4], activations=["relu"])
        cfgs = rlt.ModelFeatureConfig()
        net = builder.build_q_network(cfgs, nd(fs), 3)
        net(rlt.FeatureData(torch.randn(8, 3)))
        served = builder.build_serving_module(net, nd(fs), ["a", "b", "c"], cfgs)
        pp = Preprocessor({f["id"]: params(f) for f in fs}, False)
        ref = copy.deepcopy(net).eval()
        for n in (1, 4):
            x = torch.randn(n, 3) * 4
            want = ref(rlt.FeatureData(pp(x, torch.ones(n, 3))))
            for _ in range(2):
                out, exc = attempt(served, rlt.ServingFeatureData((x, torch.ones(n, 3)), {}, {}))
                ev.append(same(exc, None if exc else out[1], want, "a served model does not answer as the trained one"))
    elif what == "s2s":
        fs, cs = plain(2), plain(2, 50)
        arch = rng.choice(list(Seq2SlateOutputArch)[:3])
        arch = rng.choice([Seq2SlateOutputArch.FRECHET_SORT, Seq2SlateOutputArch.AUTOREGRESSIVE])
        net = Seq2SlateTransformerNet(state_dim=2, candidate_dim=2, num_stacked_layers=1, num_heads=2, dim_model=4, dim_feedforward=4, max_src_seq_len=4, max_tgt_seq_len=3, output_arch=arch, temperature=1.0)
        sp, cp = Preprocessor({f["id"]: params(f) for f in fs}, False), Preprocessor({f["id"]: params(f) for f in cs}, False)
        wrap = {g: W.Seq2SlatePredictorWrapper(W.Seq2SlateWithPreprocessor(net, sp, cp, greedy=g)) for g in (True, False)}
        for n, k in ((1, 3), (2, 4), (3, 6)):
            x, c = torch.randn(n, 2) * 2, torch.randn(n, k, 2) * 3
            px, pc = (torch.rand(n, 2) < 0.8).float(), (torch.rand(n, k, 2) < 0.8).float()
            with torch.no_grad():
                ref = net(rlt.PreprocessedRankingInput.from_input(state=sp(x, px), candidates=cp(c.reshape(-1, 2), pc.reshape(-1, 2)).reshape(n, k, -1), device=torch.device("cpu")), mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=k, greedy=True)
            out, exc = attempt(wrap[True], (x, px), (c, pc))
            ev.append({"ev": "slate", "exc": exc, "n": k, "y": [] if exc else [[int(i) + 1 for i in r] for r in out[1]]})
            ev.append(same(exc, None if exc else torch.cat([out[0], out[1].float()], 1), torch.cat([ref.ranked_per_seq_probs, ref.ranked_tgt_out_idx.float() - 2], 1), "a served ranking is not that of the trained model"))
            out, exc = attempt(wrap[False], (x, px), (c, pc))
            ev.append({"ev": "slate", "exc": exc, "n": k, "y": [] if exc else [[int(i) + 1 for i in r] for r in out[1]]})
    elif what == "slatereward":
        fs, cs = plain(2), plain(2, 50)
        src, tgt = rng.choice([(3, 2), (4, 4), (2, 1)])
        net = Seq2SlateGRURewardNet(2, 2, num_stacked_layers=1, dim_model=4, max_src_seq_len=src, max_tgt_seq_len=tgt) if rng.random() < 0.5 else \
            Seq2SlateTransformerRewardNet(2, 2, num_stacked_layers=1, num_heads=2, dim_model=4, dim_feedforward=4, max_src_seq_len=src, max_tgt_seq_len=tgt)
        net.eval()
        sp, cp = Preprocessor({f["id"]: params(f) for f in fs}, False), Preprocessor({f["id"]: params(f) for f in cs}, False)
        served = W.Seq2SlateRewardWithPreprocessor(net, sp, cp)
        for n in (1, 2, 3):
            x, c = torch.randn(n, 2) * 2, torch.randn(n, src, 2) * 3
            px, pc = (torch.rand(n, 2) < 0.8).float(), (torch.rand(n, src, 2) < 0.8).float()
            with torch.no_grad():
                want = net(rlt.PreprocessedRankingInput.from_input(state=sp(x, px), candidates=cp(c.reshape(-1, 2), pc.reshape(-1, 2)).reshape(n, src, -1), device=torch.device("cpu"), action=torch.arange(tgt).repeat(n, 1))).predicted_reward
                got, exc = attempt(served, (x, px), (c, pc))
            ev.append(same(exc, None if exc else got.reshape(n, -1), want.reshape(n, -1), "a served reward is not that of the trained model"))
    elif what == "memory":
        A, T = rng.choice([1, 3]), rng.choice([1, 2, 3])
        fs = plain(2 * T)
        net = MDNRNN(state_dim=2, action_dim=A, num_hiddens=4, num_hidden_layers=rng.choice([1, 2]), num_gaussians=rng.choice([1, 2]))
        pp = Preprocessor({f["id"]: params(f) for f in fs}, False)
        served = W.MDNRNNWithPreprocessor(net, pp, T, A)
        for n in (1, 2, 3):
            x, a, p = torch.randn(n, 2 * T) * 2, torch.randn(T, n, A), (torch.rand(n, 2 * T) < 0.8).float()
            y = pp(x, p)
            with torch.no_grad():
                want = net(a, torch.stack([y[:, 2 * k:2 * k + 2] for k in range(T)]))
                got, exc = attempt(served, (x, p), a)
            ev.append(same(exc, None if exc else torch.cat([g.reshape(1, -1) for g in got[:6]], 1), torch.cat([g.reshape(1, -1) for g in want[:6]], 1), "a served world model does not answer as the trained one"))
    else:
        fs = plain(2)
        A, T = rng.choice([2, 3]), rng.choice([1, 2, 3])
        net = Seq2RewardNetwork(state_dim=2, action_dim=A, num_hiddens=4, num_hidden_layers=rng.choice([1, 2]))
        with torch.no_grad():
            for q in net.parameters():
                q.mul_(2.0)
        step = FullyConnectedNetwork([2, T], ["linear"])
        pp = Preprocessor({f["id"]: params(f) for f in fs}, False)
        names = [f"a{i}" for i in range(A)]
        pre = W.Seq2RewardWithPreprocessor(net, pp, T, A) if what == "s2r" else W.Seq2RewardPlanShortSeqWithPreprocessor(net, step, pp, T, A)
        # traced from its own prototype, as the project's own publisher does
        served = W.DiscreteDqnPredictorWrapper(_proto(pre), names, rlt.ModelFeatureConfig())
        for n in (1, 3):
            x = t32([[rng.randint(-24, 24) / 8 for _ in range(2)] for _ in range(n)])
            out, exc = attempt(served, rlt.ServingFeatureData((x, torch.ones_like(x)), {}, {}))
            for i in range(n):
                s0 = pp(x[i:i + 1], torch.ones(1, 2))
                lens = [T] if what == "s2r" else list(range(1, T + 1))
                plans = [[{"first": acts[0] + 1, "v": fx(value(net, s0, acts, A), UNIT)} for acts in seqs(A, ln)] for ln in lens]
                ev.append({"ev": "plan", "exc": exc, "plans": plans, "steps": [] if what == "s2r" else fxl(step(s0)[0], UNIT), "y": [] if exc else fxl(out[1][i], UNIT)})
    return {"cfg": {"kind": "deep"}, "ev": ev}


def _proto(pre):
    pre.input_prototype = lambda: (rlt.ServingFeatureData(pre.state_preprocessor.input_prototype(), W.FAKE_STATE_ID_LIST_FEATURES, W.FAKE_STATE_ID_SCORE_LIST_FEATURES),)
    return pre


def seqs(a, ln):
    out = [[]]
    for _ in range(ln):
        out = [s + [k] for s in out for k in range(a)]
    return out


def value(net, s0, acts, a):
    act = torch.nn.functional.one_hot(torch.tensor(acts), a).float().unsqueeze(1)
    with torch.no_grad():
        return net(rlt.FeatureData(s0.unsqueeze(0).repeat(len(acts), 1, 1)), rlt.FeatureData(act)).acc_reward.reshape(-1)[0]


def same(exc, got, want, why):
    return {"ev": "same", "why": why, "exc": exc, "tol": 4, "a": [] if exc else fxl(got, UNIT), "b": fxl(want, UNIT)}


def learners_fit(L):
    """a few steps, so that the served network is a trained one"""
    from learn import fit, Batches
    attempt(fit, L.trainer, Batches([L.batch(i) for i in range(2)]))


def run_draws(scn):
    ev = []
    fs = plain(2)
    acts = [{"id": 70 + i, "ty": "CONTINUOUS_ACTION", "min": 0.0, "max": 2.0} for i in range(2)]
    b = ActorFC(sizes=[2], activations=["tanh"], exploration_variance=0.25)
    net = b.build_actor(nd(fs), nd(acts))
    served = b.build_serving_module(net, nd(fs), nd(acts))
    x = torch.ones(6, 2)
    y, exc = attempt(served, (x, torch.ones(6, 2)))
    ev.append({"ev": "apart", "exc": exc, "y": [] if exc else fxl(y, UNIT)})
    d = DirichletFullyConnected(sizes=[2], activations=["tanh"])
    sh = [{"id": 70 + i, "ty": "DO_NOT_PREPROCESS"} for i in range(3)]
    net = d.build_actor(nd(fs), nd(sh))
    served = d.build_serving_module(net, nd(fs), nd(sh))
    y, exc = attempt(served, (x, torch.ones(6, 2)))
    ev.append({"ev": "apart", "exc": exc, "y": [] if exc else fxl(y, UNIT)})
    ev.append({"ev": "sum", "exc": exc, "y": [] if exc else fxl(y, UNIT)})
    return {"cfg": {"kind": "draws"}, "ev": ev}


def run_dpp(scn):
    m = DeterminantalPointProcessPredictorWrapper(alpha=scn["alpha"])
    out, exc = attempt(m, t32(scn["q"]).unsqueeze(1), t32(scn["fv"]))
    e = {"ev": "dpp", "exc": exc, "q": fxl(scn["q"], UNIT), "fv": fxl(scn["fv"], UNIT), "alpha": fx(scn["alpha"], UNIT), "chosen": [], "L": [], "dets": []}
    if not exc:
        e.update(chosen=[int(i) + 1 for i in out[0]], dets=fxl(out[1].clamp(min=-1000), UNIT), L=fxl(out[2], UNIT))
    return {"cfg": {"kind": "dpp"}, "ev": [e]}
