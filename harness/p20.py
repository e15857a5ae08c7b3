"""P20: evolution-strategy workers as real processes in a real process group, every trial recorded."""
import json
import os
import shutil
import sys
import tempfile
import traceback
import types

import torch
import torch.distributed as dist

for m in ("torch.fb", "torch.fb.rendezvous", "torch.fb.rendezvous.zeus"):      # a module of Facebook's own build, imported for its side effects
    if m not in sys.modules:
        sys.modules[m] = types.ModuleType(m)
        setattr(sys.modules[m.rsplit(".", 1)[0]], m.rsplit(".", 1)[1], sys.modules[m])
from reagent.parameters import EvolutionParameters
from reagent.training.gradient_free.es_worker import EsWorker
from reagent.training.gradient_free.evolution_pool import EvolutionPool, OneMaxEvolutionPool
from vf import fx, fxl

TRACE = "P20Trace"
GEN = [{"name": "gen", "module": "MC_Evolution", "cfg": "Gen_Evolution.cfg"}]
MC = [("MC_Evolution", "MC_Evolution.cfg")]
NEED = ["start", "epoch", "again", "other"]
ASSUMPTIONS = ["workers are processes on one machine joined by gloo over the loopback network", "noise of one generation never repeats by chance"]
UNIT = 8192


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    # reward schedules from the specification: per epoch, what each worker's trial of each member earns
    for g in gg[: 25 if q else 300]:
        yield {"W": len(g["r"][0]), "sizes": [["a", [2]]], "P": len(g["r"][0][0]), "p8": 4, "lr8": 1, "its": len(g["r"]), "seed": rng.randint(0, 99999), "kind": "table", "r": g["r"]}
    for i in range(25 if q else 300):
        W = rng.choice([1, 2, 2, 3])
        sizes = rng.choice([[["a", [2]]], [["a", [1]], ["b", [2, 2]]], [["x", [3]], ["y", [1]]], [["data", [5]]]])
        yield {"W": W, "sizes": sizes, "P": rng.choice([1, 2, 5, 8]), "p8": rng.choice([2, 4, 8]), "lr8": rng.choice([1, 2, 4]), "its": rng.randint(1, 4), "seed": rng.randint(0, 99999),
               "kind": rng.choice(["linear", "linear", "flat", "table"]), "noisy": rng.random() < 0.5}
    for i in range(2 if q else 12):
        yield {"W": 2, "sizes": [["data", [6]]], "P": 24, "p8": rng.choice([2, 4, 8]), "lr8": 1, "its": 2, "seed": rng.randint(0, 99999), "kind": "onemax"}


def flat(ind):
    return torch.cat([v.detach().reshape(-1) for v in ind.values()])


class Linear(EvolutionPool):
    scn, rank = None, 0

    def compute_local_reward(self, individual):
        c, x = self.scn, flat(individual)
        if c.get("noisy"):      # an evaluation draws random numbers too, a different amount everywhere
            torch.rand(1 + self.rank * 3 + len(self.tried) % 2)
        k = len(self.tried)
        if c["kind"] == "flat":
            r = 1.5
        elif c["kind"] == "table" and k < c["P"]:
            tab = c.get("r")
            r = tab[self.epoch][self.rank][k] if tab else ((k * 7 + self.rank * 3 + self.epoch * 5 + c["seed"]) % 11) / 2 - 2
        else:
            r = float(((torch.arange(len(x)) % 3 - 1.5) * x).sum()) * (1 + self.rank) * 8 / c["p8"]
        self.tried.append((fxl(x, UNIT), r))
        return r


class OneMax(OneMaxEvolutionPool):
    def compute_local_reward(self, individual):
        r = super().compute_local_reward(individual) * 64
        self.tried.append((fxl(flat(individual), UNIT), float(r)))
        return r


def pool(scn, rank, seed):
    cls = OneMax if scn["kind"] == "onemax" else Linear
    p = cls(seed=seed, es_params=EvolutionParameters(population_size=scn["P"], mutation_power=scn["p8"] / 8, learning_rate=scn["lr8"] / 8), tensor_sizes=dict((k, v) for k, v in scn["sizes"]))
    p.scn, p.rank, p.tried, p.epoch = scn, rank, [], 0
    return p


def work(scn, rank, where, again):
    os.environ["GLOO_SOCKET_IFNAME"] = "lo"
    dist.init_process_group("gloo", init_method=f"file://{where}/rdzv{again}", rank=rank, world_size=scn["W"])
    group = dist.new_group(list(range(scn["W"])))
    p = pool(scn, rank, scn["seed"])
    w = EsWorker(p, EvolutionParameters(population_size=scn["P"], mutation_power=scn["p8"] / 8, learning_rate=scn["lr8"] / 8), group, scn["W"])
    out = {"first": fxl(flat(p.parent_tensors), UNIT), "ep": [], "exc": ""}
    for k in range(scn["its"]):
        p.tried, p.epoch = [], k
        try:
            ret = w.run_epoch()
        except Exception as ex:      # noqa
            out["exc"] = type(ex).__name__
            break
        x = flat(p.parent_tensors)
        out["ep"].append({"pop": [t[0] for t in p.tried[:-1]], "r": [fx(t[1], UNIT) for t in p.tried[:-1]], "last": p.tried[-1][0], "own": fx(p.tried[-1][1], UNIT), "ret": fx(ret, UNIT), "parent": fxl(x, UNIT),
                          "bits": x.tolist()})
    with open(f"{where}/out{rank}", "w") as f:
        json.dump(out, f)


def together(scn, where, again):
    kids = []
    for r in range(scn["W"]):
        pid = os.fork()
        if pid == 0:
            try:
                torch.set_num_threads(1)
                work(scn, r, where, again)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        kids.append(pid)
    for k in kids:
        os.waitpid(k, 0)
    out = []
    for r in range(scn["W"]):
        with open(f"{where}/out{r}") as f:
            out.append(json.load(f))
        os.remove(f"{where}/out{r}")
    return out


def run(scn):
    where = tempfile.mkdtemp(prefix="vf20")
    try:
        runs = together(scn, where, 0)
        evs = [{"ev": "start", "parents": [o["first"] for o in runs]}]
        for k in range(scn["its"]):
            if any(len(o["ep"]) <= k for o in runs):
                evs.append({"ev": "epoch", "exc": next((o["exc"] for o in runs if o["exc"]), "stopped"), "pops": [], "r": [], "parents": [], "same": False, "last": [], "ret": [], "own": []})
                break
            e = [o["ep"][k] for o in runs]
            evs.append({"ev": "epoch", "exc": "", "pops": [x["pop"] for x in e], "r": [x["r"] for x in e], "parents": [x["parent"] for x in e], "same": all(x["bits"] == e[0]["bits"] for x in e),
                        "last": [x["last"] for x in e], "ret": [x["ret"] for x in e], "own": [x["own"] for x in e]})
        else:
            if scn["seed"] % 3 == 0:
                evs.append({"ev": "again", "parents": [o["ep"][-1]["parent"] for o in together(scn, where, 1)]})
        evs.append({"ev": "other", "first": runs[0]["first"], "parents": [fxl(flat(pool(scn, 0, (scn["seed"] + 1) % 100000).parent_tensors), UNIT)]})
    finally:
        shutil.rmtree(where)
    n = len(runs[0]["first"])
    return {"cfg": {"W": scn["W"], "P": scn["P"], "n": n, "pn": scn["p8"], "pd": 8, "lr": scn["lr8"] * UNIT // 8, "exact": scn["kind"] in ("table", "flat")}, "ev": evs}
