"""P13: soft updates, used directly and by every learner that owns target networks."""
import copy
import random

import torch

from learn import fit
from learners import KINDS, Learner, options
from reagent.models.no_soft_update_embedding import NoSoftUpdateEmbedding
from reagent.optimizer.soft_update import SoftUpdate
from reagent.training.rl_trainer_pytorch import RLTrainer
from vf import attempt, fxl

TRACE = "P13Trace"
GEN = [{"name": "gen", "module": "MC_SoftUpdate", "cfg": "Gen_SoftUpdate.cfg"}]
MC_THOROUGH = [("MC_SoftUpdate", "MC_SoftUpdate_deep.cfg")]
NEED = ["build", "step", "skip", "init", "opt", "end"]
ASSUMPTIONS = ["learners are built by the model managers with tiny networks of the default architectures; rates are multiples of 1/16"]
UNIT = 8192


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 800 if q else 6000]:
        yield {"kind": "direct", "tau": g["tau"], "shared": g["shared"], "hist": g["hist"], "tsh": [[1], [1]], "ssh": [[1], [1]], "via": "opt", "seed": 0}
        if all(h["op"] != "skip" for h in g["hist"]):
            yield {"kind": "direct", "tau": g["tau"], "shared": g["shared"], "hist": g["hist"], "tsh": [[1], [1]], "ssh": [[1], [1]], "via": "legacy", "seed": 0}
    for _ in range(600 if q else 3000):
        n = rng.randint(1, 4)
        sh = [[rng.randint(1, 3) for _ in range(rng.randint(1, 2))] for _ in range(n)]
        ssh = copy.deepcopy(sh)
        x = rng.random()
        if x < 0.1:
            ssh = ssh[:-1] or ssh + [[1]]
        elif x < 0.2:
            ssh.append([rng.randint(1, 3)])
        elif x < 0.35:
            i = rng.randrange(n)
            ssh[i] = rng.choice([[1], [1] + ssh[i], ssh[i][::-1], [ssh[i][0] + 1] + ssh[i][1:]])
        tau = rng.choice([-1, 17, 32, -16]) if rng.random() < 0.15 else rng.randint(0, 16)
        hist = [{"op": rng.choice(["learn", "step", "step", "skip"]), "i": rng.randint(1, n), "v": rng.randint(-3, 3)} for _ in range(rng.randint(1, 6))]
        yield {"kind": "direct", "tau": tau, "shared": [rng.random() < 0.25 for _ in range(n)] if ssh == sh else [False] * n, "hist": hist, "tsh": sh, "ssh": ssh, "via": "opt",
               "seed": rng.randint(0, 10 ** 6)}
    for _ in range(40 if q else 500):
        yield {"kind": "embed", "tau": rng.randint(0, 16), "n": rng.randint(1, 4), "seed": rng.randint(0, 10 ** 6), "via": rng.choice(["opt", "legacy"])}
    for k in KINDS:
        for _ in range(40 if q else 150):
            yield {"kind": "train", "learner": k, "o": options(rng, k), "steps": rng.randint(1, 4), "seed": rng.randint(0, 10 ** 6)}


class Pair(torch.nn.Module):
    def __init__(self, ps):
        super().__init__()
        self.ps = torch.nn.ParameterList(ps)


def flat(ps):
    return [x for p in ps for x in fxl(p.detach().reshape(-1), UNIT)]


def legacy_trainer(tau):
    t = RLTrainer.__new__(RLTrainer)
    t.minibatch = 0
    return t


def direct(scn):
    torch.manual_seed(scn["seed"])
    mk = lambda sh: torch.nn.Parameter(torch.randint(-24, 25, sh).float() / 8)
    src = [mk(s) for s in scn["ssh"]]
    tgt = [src[i] if i < len(scn["shared"]) and scn["shared"][i] else mk(s) for i, s in enumerate(scn["tsh"])]
    if scn["tsh"] == [[1], [1]] and scn["seed"] == 0:
        with torch.no_grad():
            for p, v in zip(src, (1.0, -1.0)):
                p.fill_(v)
            for p, s in zip(tgt, scn["shared"]):
                if not s:
                    p.fill_(0.0)
    shared = [bool(scn["shared"][i]) for i, p in enumerate(tgt) for _ in range(p.numel())]
    cfg = {"tau": scn["tau"], "tshapes": scn["tsh"], "sshapes": scn["ssh"], "shared": shared, "delay": 1}
    evs = []
    read = lambda: {"src": flat(src), "tgt": flat(tgt)}
    if scn["via"] == "opt":
        # networks hand their parameters over as generators
        su, exc = attempt(SoftUpdate, (p for p in tgt), (p for p in src), tau=scn["tau"] / 16)
    else:
        su, exc = legacy_trainer(scn["tau"]), ""
    evs.append(dict(read(), ev="build", exc=exc))
    if exc:
        return {"cfg": cfg, "ev": evs}
    ns, nt = Pair(src), Pair(tgt)
    for h in scn["hist"]:
        exc = ""
        if h["op"] == "learn":
            with torch.no_grad():
                src[h["i"] - 1].fill_(float(h["v"]))
        elif h["op"] == "step":
            if scn["via"] == "legacy":
                _, exc = attempt(su._maybe_soft_update, ns, nt, scn["tau"] / 16, 1)
            else:
                closure = [None, lambda: torch.ones(1, requires_grad=True) * 2][h["v"] % 2]
                _, exc = attempt(su.step, closure)
        else:
            if scn["via"] == "opt":
                _, exc = attempt(su.step, lambda: None)
        evs.append(dict(read(), ev=h["op"], exc=exc))
    return {"cfg": cfg, "ev": evs}


class EmbNet(torch.nn.Module):
    def __init__(self, n):
        super().__init__()
        self.lin = torch.nn.Linear(n, 2)
        self.emb = NoSoftUpdateEmbedding(n, 2)
        self.out = torch.nn.Linear(2, 1)


def embed(scn):
    torch.manual_seed(scn["seed"])
    net = EmbNet(scn["n"])
    target = copy.deepcopy(net)
    src, tgt = list(net.parameters()), list(target.parameters())
    names = [k for k, _ in net.named_parameters()]
    shared = [k.startswith("emb") for k, p in zip(names, tgt) for _ in range(p.numel())]
    read = lambda: {"src": flat(src), "tgt": flat(tgt)}
    cfg = {"tau": scn["tau"], "tshapes": [], "sshapes": [], "shared": shared, "delay": 1}
    evs = [dict(read(), ev="init", exc="")]
    with torch.no_grad():
        for p, t in zip(src, tgt):
            p.add_(torch.randn_like(p))
    evs.append(dict(read(), ev="learn", exc=""))
    if scn["via"] == "opt":
        su = SoftUpdate(tgt, src, tau=scn["tau"] / 16)
        _, exc = attempt(su.step)
    else:
        _, exc = attempt(legacy_trainer(0)._soft_update, net, target, scn["tau"] / 16)
    evs.append(dict(read(), ev="step", exc=exc))
    return {"cfg": cfg, "ev": evs}


def train(scn):
    L = Learner(scn["learner"], scn["o"], scn["seed"])
    src = [p for k in sorted(L.pairs) for p in L.pairs[k][0].parameters()]
    tgt = [p for k in sorted(L.pairs) for p in L.pairs[k][1].parameters()]
    shared = [s is t for s, t in zip(src, tgt) for _ in range(s.numel())]
    cfg = {"tau": scn["o"]["tau"], "tshapes": [], "sshapes": [], "shared": shared, "delay": scn["o"]["delay"]}
    read = lambda: {"src": flat(src), "tgt": flat(tgt)}
    evs = [dict(read(), ev="init", exc="")]
    torch.manual_seed(scn["seed"] + 1)
    with torch.no_grad():
        for t in tgt:
            t.add_(torch.randint(-4, 5, t.shape).float() / 4)
    evs.append(dict(read(), ev="set", exc=""))
    cur = [0]
    _, exc = attempt(fit, L.trainer, [L.batch(scn["seed"] + i) for i in range(scn["steps"])], nets=L.nets,
                     on_step=lambda i, own, opt: evs.append(dict(read(), ev="opt", exc="", i=cur[0], soft=isinstance(opt, SoftUpdate))),
                     on_batch_start=lambda b, i: cur.__setitem__(0, i),
                     on_batch_end=lambda b, i: evs.append(dict(read(), ev="end", exc="", i=i)))
    if exc or sum(e["ev"] == "end" for e in evs) != scn["steps"]:
        evs.append(dict(read(), ev="end", i=0, exc=exc or "steps missing"))
    return {"cfg": cfg, "ev": evs}


def run(scn):
    return {"direct": direct, "embed": embed, "train": train}[scn["kind"]](scn)
