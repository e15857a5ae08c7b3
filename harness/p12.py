"""P12: actor-critic learners on small exact networks through the real training loop."""
import random

import torch

import reagent.types as rlt
from learn import TabQ, fit
from p10 import UNIT, onehot, quarter, sgd
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.sac_trainer import CRRWeightFn, SACTrainer
from reagent.training.td3_trainer import TD3Trainer
from vf import attempt, fx, fxl

TRACE = "P12Trace"
GEN = [{"name": "gen", "module": "MC_ActorCritic", "cfg": "Gen_ActorCritic.cfg"}]
MC_THOROUGH = [("MC_ActorCritic", "MC_ActorCritic_deep.cfg")]
NEED = ["td3", "sac", "crr"]
ASSUMPTIONS = ["critics are linear in the action, actors are tables over states; other networks only change how values and gradients are computed",
               "target-policy smoothing noise is either zero or far beyond its clip range"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 250 if q else 4000]:
        rows = [[{"s": r["s"], "s2": r["s2"], "a": (r["a"] * 4) // UNIT, "r": (r["r"] * 4) // UNIT, "nt": r["nt"]}] for r in g["sched"]]
        s = td3(rng, S=2)
        s["c"].update(twin=g["twin"], delay=g["delay"], noise=g["noise"])
        s["batches"] = rows
        yield s
        if not g["noise"]:
            s = crr(rng, S=2)
            s["c"].update(twin=g["twin"], delay=g["delay"])
            for b in rows:
                for r in b:
                    r2 = dict(r, a=int(r["a"] > 0) % s["c"]["A"], mask2=[1] * s["c"]["A"])
                    b[b.index(r)] = r2
            s["batches"] = rows
            yield s
    for _ in range(200 if q else 3000):
        yield td3(rng)
        yield sac(rng)
        yield sac(rng)
        yield crr(rng)


def critic(rng, S, n=8):
    return {"w": [rng.randint(-n, n) for _ in range(S)], "v": [rng.randint(-4, 4) for _ in range(S)]}


def rows(rng, S, n, A=0):
    out = []
    for _ in range(n):
        r = {"s": rng.randrange(S), "s2": rng.randrange(S), "r": rng.randint(-8, 8), "nt": int(rng.random() < 0.7),
             "a": rng.randrange(A) if A else rng.randint(-4, 4)}
        if A:
            r["mask2"] = [int(rng.random() < 0.7) for _ in range(A)]
            if not any(r["mask2"]):
                r["mask2"][rng.randrange(A)] = 1
        out.append(r)
    return out


def common(rng):
    return {"gamma": rng.choice([0, 8, 12, 16]), "tau": rng.choice([0, 2, 8, 16]), "lrq": rng.choice([1, 2, 4]), "lra": rng.choice([1, 2, 4]),
            "twin": rng.random() < 0.6}


def td3(rng, S=None):
    S = S or rng.randint(1, 3)
    c = dict(common(rng), S=S, delay=rng.randint(1, 3), noise=rng.random() < 0.4, clip=rng.choice([0, 1, 2, 4]))
    p = {"k1": critic(rng, S), "k2": critic(rng, S), "mu": [rng.randint(-4, 4) for _ in range(S)]}
    return {"kind": "td3", "c": c, "p": p, "pt": {"k1": critic(rng, S), "k2": critic(rng, S), "mu": [rng.randint(-4, 4) for _ in range(S)]},
            "batches": [rows(rng, S, rng.randint(1, 3)) for _ in range(rng.randint(1, 4))], "seed": rng.randint(0, 10 ** 6)}


def sac(rng):
    S = rng.randint(1, 3)
    crr_ = rng.choice(["none"] * 4 + ["indicator", "exp", "exp"])
    value = crr_ != "none" or rng.random() < 0.5
    c = dict(common(rng), S=S, lrv=rng.choice([1, 2, 4]), lral=rng.choice([1, 2]), value=value, learnalpha=rng.random() < 0.6, crr=crr_,
             threshold=rng.choice([-4, 2, 4]), beta=rng.choice([2, 4, 8]), clamp=rng.choice([0, 4, 8]) if crr_ == "exp" else 0,
             backprop=True if crr_ != "none" else rng.random() < 0.8, uniform=rng.random() < 0.5, entropy=rng.choice([-4, -2, 0, 4]),
             alpha0=rng.choice([1, 2, 4]), kld=crr_ == "none" and rng.random() < 0.3, kweight=rng.choice([2, 4]), kmean=rng.choice([-2, 0, 2]), kvar=rng.choice([2, 4]))
    tabl = lambda n: [rng.randint(-n, n) for _ in range(S)]
    p = {"k1": critic(rng, S), "k2": critic(rng, S), "mu": tabl(4), "ell": tabl(6), "val": tabl(8)}
    if rng.random() < 0.1:
        p["ell"] = [rng.choice([-22, -25, 21]) * 4 for _ in range(S)]
        c["alpha0"], c["learnalpha"] = 1, False
    lo = 2 if c["kld"] else 1
    bs = [rows(rng, S, rng.randint(lo, 4)) for _ in range(rng.randint(1, 3))]
    if c["kld"]:
        # the batch needs some spread of actions for its variance
        if S < 2:
            c["kld"] = False
        else:
            p["mu"][0], p["mu"][1] = -3, 3
            for b in bs:
                b[0]["s"], b[1]["s"] = 0, 1
    return {"kind": "sac", "c": c, "p": p, "pt": {"k1": critic(rng, S), "k2": critic(rng, S), "val": tabl(8)}, "batches": bs, "seed": rng.randint(0, 10 ** 6)}


def crr(rng, S=None):
    S, A = S or rng.randint(1, 3), rng.randint(2, 3)
    c = dict(common(rng), S=S, A=A, delay=rng.randint(1, 3), usetarget=rng.random() < 0.5, heads=rng.random() < 0.4,
             boost=[rng.randint(-4, 4) for _ in range(A)] if rng.random() < 0.3 else [0] * A)
    tab = lambda n: [[rng.randint(-n, n) for _ in range(A)] for _ in range(S)]
    p = {"q1": tab(6), "q2": tab(6), "pi": tab(6), "rw": tab(6), "cq": tab(6)}
    return {"kind": "crr", "c": c, "p": p, "pt": {"q1": tab(6), "q2": tab(6), "pi": tab(6), "cq": tab(6)},
            "batches": [rows(rng, S, rng.randint(1, 3), A) for _ in range(rng.randint(1, 4))], "seed": rng.randint(0, 10 ** 6)}


class Critic(torch.nn.Module):
    def __init__(self, k):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(k["w"]).float().reshape(-1, 1) / 4)
        self.v = torch.nn.Parameter(torch.tensor(k["v"]).float().reshape(-1, 1) / 4)

    def forward(self, s, a):
        return s.float_features @ self.w + (s.float_features @ self.v) * a.float_features


class Actor(torch.nn.Module):
    def __init__(self, mu, ell=None):
        super().__init__()
        self.mu = torch.nn.Parameter(torch.tensor(mu).float().reshape(-1, 1) / 4)
        if ell is not None:
            self.ell = torch.nn.Parameter(torch.tensor(ell).float().reshape(-1, 1) / 4)

    def forward(self, s):
        a = s.float_features @ self.mu
        if hasattr(self, "ell"):
            return rlt.ActorOutput(action=a, log_prob=s.float_features @ self.ell, squashed_mean=a)
        return rlt.ActorOutput(action=a)

    def get_log_prob(self, s, a):
        return s.float_features @ self.ell


class PiNet(TabQ):
    def forward(self, s):
        return rlt.ActorOutput(action=super().forward(s))


def setp(net, vals):
    """targets start as copies; move them elsewhere so that their role shows"""
    with torch.no_grad():
        for p, v in zip(net.parameters(), vals):
            p.copy_(torch.tensor(v).float().reshape(p.shape) / 4)


def mkbatch(scn, b, A=0):
    S = scn["c"]["S"]
    fd = rlt.FeatureData
    col = lambda k, sc=1.0: torch.tensor([[r[k] / sc] for r in b])
    base = dict(state=fd(onehot([r["s"] for r in b], S)), next_state=fd(onehot([r["s2"] for r in b], S)), reward=col("r", 4), time_diff=torch.ones(len(b), 1),
                step=None, not_terminal=col("nt"), extras=rlt.ExtraData(action_probability=torch.ones(len(b), 1)))
    if A:
        m = torch.tensor([[float(x) for x in r["mask2"]] for r in b])
        return rlt.DiscreteDqnInput(action=onehot([r["a"] for r in b], A), next_action=onehot([r["a"] for r in b], A), possible_actions_mask=torch.ones(len(b), A),
                                    possible_next_actions_mask=m, **base)
    return rlt.PolicyNetworkInput(action=fd(col("a", 4)), next_action=fd(col("a", 4)), **base)


def flat(p):
    return fxl(p.detach().reshape(-1), UNIT)


def run(scn):
    c, p, pt, kind = scn["c"], scn["p"], scn["pt"], scn["kind"]
    torch.manual_seed(scn["seed"])
    rl = RLParameters(gamma=c["gamma"] / 16, target_update_rate=c["tau"] / 16, maxq_learning=True, temperature=1.0,
                      reward_boost={str(i): b / 4 for i, b in enumerate(c.get("boost", [])) if b} or None)
    cfg = dict(c)
    kp = lambda k: {"w": flat(k.w), "v": flat(k.v)} if k is not None else {"w": [], "v": []}
    tp = lambda n: fxl(n.table, UNIT) if n is not None else []
    if kind == "td3":
        k1, k2 = Critic(p["k1"]), Critic(p["k2"]) if c["twin"] else None
        mu = Actor(p["mu"])
        tr = TD3Trainer(mu, k1, k2, rl=rl, q_network_optimizer=sgd(c["lrq"] / 16), actor_network_optimizer=sgd(c["lra"] / 16),
                        noise_variance=1e6 if c["noise"] else 0.0, noise_clip=c["clip"] / 4, delayed_policy_update=c["delay"])
        k1t, k2t, mut = tr.q1_network_target, getattr(tr, "q2_network_target", None), tr.actor_network_target
        setp(k1t, [pt["k1"]["w"], pt["k1"]["v"]])
        if k2 is not None:
            setp(k2t, [pt["k2"]["w"], pt["k2"]["v"]])
        setp(mut, [pt["mu"]])
        cfg["clip"] = c["clip"] * UNIT // 4
        read = lambda: {"k1": kp(k1), "k2": kp(k2), "mu": flat(mu.mu), "k1t": kp(k1t), "k2t": kp(k2t if k2 is not None else None), "mut": flat(mut.mu)}
    elif kind == "sac":
        k1, k2 = Critic(p["k1"]), Critic(p["k2"]) if c["twin"] else None
        actor = Actor(p["mu"], p["ell"])
        val = TabQ([[v / 4] for v in p["val"]]) if c["value"] else None
        kw = {}
        if c["crr"] == "indicator":
            kw["crr_config"] = CRRWeightFn(indicator_fn_threshold=c["threshold"] / 4)
        elif c["crr"] == "exp":
            kw["crr_config"] = CRRWeightFn(exponent_beta=c["beta"] / 4, exponent_clamp=c["clamp"] / 4 or None)
        if c["kld"]:
            kw.update(action_embedding_kld_weight=c["kweight"] / 16, action_embedding_mean=[c["kmean"] / 4], action_embedding_variance=[c["kvar"] / 4], apply_kld_on_mean=scn["seed"] % 2 == 0)
        tr = SACTrainer(actor, k1, k2, val, rl=rl, q_network_optimizer=sgd(c["lrq"] / 16), value_network_optimizer=sgd(c["lrv"] / 16),
                        actor_network_optimizer=sgd(c["lra"] / 16), alpha_optimizer=sgd(c["lral"] / 16) if c["learnalpha"] else None,
                        entropy_temperature=c["alpha0"] / 4, target_entropy=c["entropy"] / 4, logged_action_uniform_prior=c["uniform"],
                        backprop_through_log_prob=c["backprop"], **kw)
        k1t = k2t = valt = None
        if val is not None:
            valt = tr.value_network_target
            setp(valt, [[v for v in pt["val"]]])
        else:
            k1t, k2t = tr.q1_network_target, tr.q2_network_target
            setp(k1t, [pt["k1"]["w"], pt["k1"]["v"]])
            if k2 is not None:
                setp(k2t, [pt["k2"]["w"], pt["k2"]["v"]])
        for k in ("entropy", "threshold", "beta", "clamp", "kmean", "kvar"):
            cfg[k] = c[k] * UNIT // 4
        cfg["kweight"] = c["kweight"] * UNIT // 16
        read = lambda: {"k1": kp(k1), "k2": kp(k2), "k1t": kp(k1t), "k2t": kp(k2t), "mu": flat(actor.mu), "ell": flat(actor.ell),
                        "val": flat(val.table) if val is not None else [], "valt": flat(valt.table) if valt is not None else [],
                        "alpha": fx(torch.as_tensor(tr.entropy_temperature).detach().reshape(()), UNIT),
                        "logalpha": fx(tr.log_alpha.detach().reshape(()), UNIT) if c["learnalpha"] else 0}
    else:
        A = c["A"]
        q1, q2 = TabQ(quarter(p["q1"])), TabQ(quarter(p["q2"])) if c["twin"] else None
        pi = PiNet(quarter(p["pi"]))
        rw, cq, tcq = (TabQ(quarter(p["rw"])), TabQ(quarter(p["cq"])), TabQ(quarter(pt["cq"]))) if c["heads"] else (None, None, None)
        tr = DiscreteCRRTrainer(pi, q1, rw, q2, q_network_cpe=cq, q_network_cpe_target=tcq, rl=rl, evaluation=EvaluationParameters(calc_cpe_in_training=c["heads"]),
                                q_network_optimizer=sgd(c["lrq"] / 16), actor_network_optimizer=sgd(c["lra"] / 16), use_target_actor=c["usetarget"],
                                actions=[str(i) for i in range(A)], delayed_policy_update=c["delay"])
        q1t, q2t, pit = tr.q1_network_target, getattr(tr, "q2_network_target", None), tr.actor_network_target
        setp(q1t, [pt["q1"]])
        if q2 is not None:
            setp(q2t, [pt["q2"]])
        setp(pit, [pt["pi"]])
        cfg["boost"] = [b * UNIT // 4 for b in c["boost"]]
        read = lambda: {"q1": tp(q1), "q2": tp(q2), "pi": tp(pi), "q1t": tp(q1t), "q2t": tp(q2t if q2 is not None else None), "pit": tp(pit),
                        "rw": tp(rw), "cq": tp(cq), "tcq": tp(tcq)}
    cfg["start"] = read()
    A = c.get("A", 0)
    evs = []
    fixrows = lambda b: [dict(r, r=r["r"] * UNIT // 4, a=r["a"] if A else r["a"] * UNIT // 4) for r in b]
    _, exc = attempt(fit, tr, [mkbatch(scn, b, A) for b in scn["batches"]],
                     on_batch_end=lambda b, i: evs.append({"ev": kind, "exc": "", "i": i, "rows": fixrows(scn["batches"][i]), "st": read()}))
    if exc or len(evs) != len(scn["batches"]):
        evs.append({"ev": kind, "exc": exc or "steps missing", "i": 0, "rows": [], "st": read()})
    return {"cfg": cfg, "ev": evs}
