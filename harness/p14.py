"""P14: which networks each optimizer step moves, on synthetic and on all real learners."""
import copy
import random

import torch

from learn import fit
from learners import KINDS, Learner, options
from reagent.optimizer.soft_update import SoftUpdate
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from vf import attempt, fx, fxl

TRACE = "P14Trace"
GEN = [{"name": "gen", "module": "MC_TrainStep", "cfg": "Gen_TrainStep.cfg"}]
MC_THOROUGH = [("MC_TrainStep", "MC_TrainStep_deep.cfg")]
NEED = ["fit", "micro", "batch", "opt", "end", "twin"]
ASSUMPTIONS = ["optimizers are plain SGD; a real learner's network counts as having learned when any of its parameters changed",
               "a mismatch between losses and optimizers shows on the first batch"]
UNIT = 8192


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 350 if q else 3000]:
        yield {"kind": "syn", "C": g["C"], "lr": g["lr"], "L": g["L"], "w": [(i % 3 - 1) * 16 + 8 for i in range(1, len(g["C"]) + 1)]}
    for _ in range(200 if q else 3000):
        n, nb = rng.randint(1, 5), rng.randint(1, 4)
        m = n if rng.random() < 0.75 else rng.choice([x for x in (n - 2, n - 1, n + 1, n + 2) if x >= 0])
        L = [[int(rng.random() < 0.7) for _ in range(m)] for _ in range(nb)]
        yield {"kind": "syn", "C": [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)], "lr": [rng.choice([1, 2, 4]) for _ in range(n)], "L": L,
               "w": [rng.randint(-16, 16) for _ in range(n)]}
    for k in KINDS:
        for _ in range(40 if q else 300):
            yield {"kind": "real", "learner": k, "o": options(rng, k), "steps": rng.randint(1, 4), "seed": rng.randint(0, 10 ** 6)}


class Synthetic(ReAgentLightningModule):
    def __init__(self, scn):
        super().__init__()
        self.scn = scn
        self.w = torch.nn.ParameterList([torch.nn.Parameter(torch.tensor([v / 16])) for v in scn["w"]])

    def configure_optimizers(self):
        return [torch.optim.SGD([p], lr=x / 16) for p, x in zip(self.w, self.scn["lr"])]

    def train_step_gen(self, training_batch, batch_idx: int):
        C, n = self.scn["C"], len(self.w)
        for k, on in enumerate(self.scn["L"][batch_idx]):
            # surplus losses reuse the last network
            j = min(k, n - 1)
            yield (self.w[j] * sum(C[j][i] * self.w[i] for i in range(n))).sum() if on else None


def syn(scn):
    m = Synthetic(scn)
    read = lambda: fxl(torch.cat([p.detach() for p in m.w]), UNIT)
    cfg = {"kind": "syn", "C": scn["C"], "lr": scn["lr"], "L": scn["L"], "w": read()}
    evs, cur, done = [], [0], [0]
    pos = {id(p): i + 1 for i, p in enumerate(m.w)}

    def micro(i, own, opt):
        evs.append({"ev": "micro", "w": read(), "b": cur[0] + 1, "k": pos[id(opt.param_groups[0]["params"][0])]})

    def end(b, i):
        done[0] += 1
        evs.append({"ev": "batch", "w": read(), "b": i + 1})
    _, exc = attempt(fit, m, [torch.zeros(1)] * len(scn["L"]), on_step=micro, nets={"w": m.w}, on_batch_start=lambda b, i: cur.__setitem__(0, i), on_batch_end=end)
    evs.append({"ev": "fit", "exc": exc, "batches": done[0]})
    return {"cfg": cfg, "ev": evs}


def groups(t):
    """every network and loose parameter of a learner"""
    out = {n: m for n, m in t.named_children() if any(True for _ in m.parameters())}
    out.update({n: p for n, p in t.named_parameters(recurse=False)})
    return out


def values(g):
    return {n: torch.cat([p.detach().reshape(-1).double() for p in ([m] if isinstance(m, torch.nn.Parameter) else m.parameters())]).clone() for n, m in g.items()}


def real(scn):
    o = scn["o"]
    L = Learner(scn["learner"], o, scn["seed"])
    g = groups(L.trainer)
    cfg = {"kind": "real", "learner": scn["learner"], **{k: o[k] for k in ("heads", "twin", "value", "alpha", "delay")}}
    torch.manual_seed(scn["seed"] + 1)
    with torch.no_grad():
        for n, m in g.items():
            if n.endswith("_target"):
                for p in m.parameters():
                    p.add_(torch.randn_like(p) / 4)
    nets = {n: m for n, m in g.items()}
    start = {n: v for n, v in copy.deepcopy({n: m for n, m in g.items() if not isinstance(m, torch.nn.Parameter)}).items()}
    evs, cur, last = [], [0], [values(g)]

    def changed():
        v = values(g)
        out = sorted(n for n in v if not torch.equal(v[n], last[0][n]))
        last[0] = v
        return out
    batches = [L.batch(scn["seed"] + i) for i in range(scn["steps"])]
    torch.manual_seed(scn["seed"] + 2)
    _, exc = attempt(fit, L.trainer, batches, nets=nets,
                     on_step=lambda i, own, opt: evs.append({"ev": "opt", "own": own, "changed": changed(), "soft": isinstance(opt, SoftUpdate), "i": cur[0]}),
                     on_batch_start=lambda b, i: cur.__setitem__(0, i),
                     on_batch_end=lambda b, i: evs.append({"ev": "end", "exc": "", "changed": changed()}))
    if exc or sum(e["ev"] == "end" for e in evs) != scn["steps"]:
        evs.append({"ev": "end", "exc": exc or "steps missing", "changed": []})
    elif o["heads"]:
        # the same learner without evaluation heads learns the same policy networks
        M = Learner(scn["learner"], dict(o, heads=False), scn["seed"])
        h = groups(M.trainer)
        with torch.no_grad():
            for n, m in h.items():
                if n in start:
                    m.load_state_dict(start[n].state_dict())
        torch.manual_seed(scn["seed"] + 2)
        _, exc = attempt(fit, M.trainer, [M.batch(scn["seed"] + i) for i in range(scn["steps"])])
        a, b = values(g), values(h)
        common = sorted(set(b) & set(start))
        evs.append({"ev": "twin", "a": [fxl(a[n], UNIT) for n in common] + [exc], "b": [fxl(b[n], UNIT) for n in common] + [""]})
    return {"cfg": cfg, "ev": evs}


def run(scn):
    return syn(scn) if scn["kind"] == "syn" else real(scn)
