"""P04: sum tree and prioritized replay buffer."""
import random

import numpy as np
import torch

from vf import attempt, fx
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
from reagent.replay_memory.sum_tree import SumTree

TRACE = "P04Trace"
GEN = [{"name": "tree", "module": "MC_SumTree", "cfg": "Gen_SumTree.cfg"},
       {"name": "ring", "module": "MC_ReplayBuffer", "cfg": "Gen_ReplayContent.cfg"}]
MC_THOROUGH = [("MC_SumTree", "MC_SumTree_thorough.cfg")]
NEED = ["set", "get", "max", "draw", "rand", "strat", "batch", "add", "new"]
ASSUMPTIONS = ["the boundary draw of exactly 1.0 (probability zero) is not judged",
               "sampling may give up when more than three quarters of the priority lies on cells that may not be sampled"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    yield {"kind": "new", "n": 0}
    yield {"kind": "new", "n": -3}
    trees = list(gens["tree"])
    rng.shuffle(trees)
    for g in trees[: 700 if q else len(trees)]:
        yield {"kind": "tree", "n": g["n"], "ops": [list(o) for o in g["ops"]], "den": 8, "scale": 1, "seed": rng.randint(0, 10 ** 6)}
    for k in range(150 if q else 1500):
        n = rng.randint(1, 21)
        ops = [[rng.randint(0, n - 1), rng.choice([-1, 0, 0, 1, 2, 5, 17])] for _ in range(rng.randint(0, 3 * n))]
        yield {"kind": "tree", "n": n, "ops": ops, "den": 64, "scale": rng.choice([1, 8]), "seed": rng.randint(0, 10 ** 6)}
    rings = list(gens["ring"])
    rng.shuffle(rings)
    for g in rings[: 200 if q else len(rings)]:
        yield {"kind": "buffer", "c": g["c"], "terms": g["terms"], "seed": rng.randint(0, 10 ** 6), "every": 1, "attempts": 20000}
    for k in range(120 if q else 1200):
        stack, n = rng.randint(1, 3), rng.randint(1, 3)
        cap = stack + n + rng.randint(0, 9)
        pt = rng.choice([0.1, 0.3, 0.5])
        yield {"kind": "buffer", "c": {"cap": cap, "stack": stack, "n": n},
               "terms": [rng.random() < pt for _ in range(rng.randint(1, 3 * cap))], "seed": rng.randint(0, 10 ** 6),
               "every": 3, "attempts": rng.choice([1000, 20000, 10])}


def run_tree(scn):
    n, S = scn["n"], scn["scale"]
    rng = random.Random(scn["seed"])
    tree = SumTree(n)
    ev = [{"ev": "new", "exc": "", "feasible": True}]

    def look(full):
        ev.append({"ev": "get", "idx": list(range(n)), "vals": [fx(tree.get(i), S) for i in range(n)]})
        ev.append({"ev": "max", "v": fx(tree.max_recorded_priority, S)})
        den = scn["den"]
        for num in (range(den) if full else rng.sample(range(den), min(6, den))):
            got, exc = attempt(tree.sample, num / den)
            ev.append({"ev": "draw", "num": num, "den": den, "got": -1 if exc else int(got), "exc": exc})
        if full:
            for num in (-1, den + 1, 3 * den):
                got, exc = attempt(tree.sample, num / den)
                ev.append({"ev": "draw", "num": num, "den": den, "got": -1 if exc else int(got), "exc": exc})
            tot = sum(tree.get(i) for i in range(n))
            small = min([tree.get(i) for i in range(n) if tree.get(i) > 0] or [1])
            k = int(40 * tot / small) if tot else 1
            r, exc = attempt(lambda: [tree.sample() for _ in range(k)])
            ev.append({"ev": "rand", "got": sorted({int(v) for v in r}) if not exc else [], "exc": exc})
        b = rng.randint(1, 9)
        r, exc = attempt(tree.stratified_sample, b)
        ev.append({"ev": "strat", "b": b, "got": [int(v) for v in r] if not exc else [], "exc": exc})

    for j, (i, v) in enumerate(scn["ops"]):
        _, exc = attempt(tree.set, i, v / S)
        ev.append({"ev": "set", "i": i, "v": v, "exc": exc})
        if len(scn["ops"]) < 6 or rng.random() < 0.2:
            look(False)
    look(True)
    return {"cfg": {"kind": "tree", "cap": n, "one": S}, "ev": ev}


def run_buffer(scn):
    c = scn["c"]
    rng = random.Random(scn["seed"])
    S = 4
    rb = PrioritizedReplayBuffer(c["stack"], c["cap"], 3, update_horizon=c["n"], gamma=0.5, max_sample_attempts=scn["attempts"])
    ev = [{"ev": "new", "exc": "", "feasible": True}]

    def get():
        idx = np.arange(c["cap"], dtype=np.int32)
        v, exc = attempt(rb.get_priority, idx)
        ev.append({"ev": "get", "idx": list(range(c["cap"])), "vals": [fx(x, S) for x in v] if not exc else []})
        ev.append({"ev": "max", "v": fx(rb.sum_tree.max_recorded_priority, S)})

    def batch(how, b, cover=False):
        e = {"ev": "batch", "b": b, "tries": scn["attempts"], "got": [], "ids": [], "probs": [], "cover": cover, "strat": how != "all"}
        if how == "index":
            r, e["exc"] = attempt(rb.sample_index_batch, b)
            if not e["exc"]:
                bt, e["exc"] = attempt(rb.sample_transition_batch, b, r)
                if not e["exc"] and bt.indices.flatten().tolist() != r.tolist():
                    e["exc"] = "indices do not match the request"
                if e["exc"]:
                    e["tries"] = 10 ** 6
        elif how == "default":
            bt, e["exc"] = attempt(rb.sample_transition_batch)
        else:
            bt, e["exc"] = attempt(rb.sample_transition_batch, b)
        if not e["exc"]:
            e["got"] = [int(v) for v in bt.indices.flatten().tolist()]
            e["ids"] = [int(v) for v in bt.id.reshape(len(e["got"]), -1)[:, -1].tolist()]
            e["probs"] = [fx(v, S) for v in bt.sampling_probabilities.flatten().tolist()]
        ev.append(e)

    pos = 0
    for i, term in enumerate(scn["terms"]):
        v = rng.choice([0, 1, 1, 2, 3, 6])
        _, exc = attempt(rb.add, observation=np.array([i + 1, 7], dtype=np.float32), action=i % 3, reward=1.0, terminal=term,
                         priority=v / S, id=i + 1)
        ev.append({"ev": "add", "term": term, "v": v, "exc": exc})
        if exc:
            break
        last = i == len(scn["terms"]) - 1
        if rng.random() < 0.3:
            # update priorities of cells
            k = rng.randint(1, 3)
            cells = rng.sample(range(c["cap"]), min(k, c["cap"]))
            vals = [rng.choice([0, 1, 4, 9]) for _ in cells]
            _, exc = attempt(rb.set_priority, np.array(cells, dtype=np.int32), np.array([q / S for q in vals], dtype=np.float32))
            for a, q in zip(cells, vals):
                ev.append({"ev": "set", "i": a, "v": q, "exc": exc})
        if last or i % scn["every"] == 0:
            get()
            batch("index", rng.randint(1, 6))
            batch("default", 3)
            batch("batch", rng.randint(1, 5))
        if last:
            tot = sum(rb.sum_tree.get(k) for k in range(c["cap"])) * S
            batch("index", int(40 * max(tot, 1)), cover=True) if scn["attempts"] == 20000 and tot <= 25 else None
    return {"cfg": {"kind": "buffer", "one": S, **c}, "ev": ev}


def run(scn):
    if scn["kind"] == "new":
        _, exc = attempt(SumTree, scn["n"])
        return {"cfg": {"kind": "tree", "cap": 1, "one": 1}, "ev": [{"ev": "new", "exc": exc, "feasible": False}]}
    return run_tree(scn) if scn["kind"] == "tree" else run_buffer(scn)
