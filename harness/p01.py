"""P01: which transitions a replay buffer offers, after every insertion history."""
import numpy as np

from vf import attempt
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

TRACE = "P01Trace"
GEN = [{"name": "gen", "module": "MC_ReplayBuffer", "cfg": "Gen_ReplayBuffer.cfg"}]
GEN_THOROUGH = [{"name": "gen", "module": "MC_ReplayBuffer", "cfg": "Gen_ReplayBuffer_thorough.cfg"}]
MC_THOROUGH = [("MC_ReplayBuffer", "MC_ReplayBuffer_thorough.cfg")]
NEED = ["add", "obs", "new"]
ASSUMPTIONS = ["episodes are delimited by terminal=True, as the buffer documents"]


def scenarios(tier, rng, gens):
    for cap in range(1, 6):
        for stack in (1, 2, 3):
            for n in (1, 2, 3):
                if cap < stack + n:
                    yield {"c": {"cap": cap, "stack": stack, "n": n}, "terms": [], "kind": "infeasible", "every": 1}
    for g in gens["gen"]:
        yield {"c": g["c"], "terms": g["terms"], "kind": "exhaustive", "every": 1}
    for k in range(150 if tier == "quick" else 1500):
        stack = rng.randint(1, 4)
        n = rng.randint(1, 5)
        cap = stack + n + rng.randint(0, 10)
        pt = rng.choice([0.05, 0.15, 0.3, 0.6])
        terms = [rng.random() < pt for _ in range(rng.randint(cap, 4 * cap))]
        yield {"c": {"cap": cap, "stack": stack, "n": n}, "terms": terms, "kind": "random", "every": rng.choice([1, 3]),
               "timeline": rng.random() < 0.3 , "evstack": rng.random() < 0.3}


def observe(rb, want, cover):
    e = {"ev": "obs", "size": int(rb.size), "cells": [], "ids": [], "rand": [], "randids": [], "want": want,
         "nrand": 0, "cover": cover}
    b, e["allexc"] = attempt(rb.sample_all_valid_transitions)
    if b is not None and len(b.indices):
        e["cells"] = [int(x) for x in b.indices.flatten().tolist()]
        st = rb._stack_size if hasattr(rb, "_stack_size") else 1
        e["ids"] = [int(x) for x in last_col(b.id)]
    r, e["randexc"] = attempt(rb.sample_index_batch, want)
    if r is not None:
        e["nrand"] = len(r)
        e["rand"] = [int(x) for x in r.tolist()]
        b, exc = attempt(rb.sample_transition_batch, batch_size=want, indices=r)
        if exc:
            e["randexc"] = exc
        else:
            e["randids"] = [int(x) for x in last_col(b.id)]
    b2, exc2 = attempt(rb.sample_transition_batch, 3)
    if (exc2 == "") != (e["randexc"] == ""):
        e["randexc"] = "inconsistent"
    elif not exc2:
        e["rand"] += [int(x) for x in b2.indices.flatten().tolist()]
        e["randids"] += [int(x) for x in last_col(b2.id)]
    return e


def last_col(x):
    x = x.reshape(x.shape[0], -1)
    return x[:, -1].tolist()


def run(scn):
    c = scn["c"]
    ev = []
    rb, exc = attempt(ReplayBuffer, stack_size=c["stack"], replay_capacity=c["cap"], batch_size=2,
                      update_horizon=c["n"], gamma=0.5, return_as_timeline_format=bool(scn.get("timeline")),
                      return_everything_as_stack=bool(scn.get("evstack")))
    ev.append({"ev": "new", "exc": exc})
    if exc:
        return {"cfg": c, "ev": ev}
    for i, term in enumerate(scn["terms"]):
        k = i + 1
        _, exc = attempt(rb.add, observation=np.array([k, 2 * k], dtype=np.float32), action=k % 3, reward=float(k),
                         terminal=term, id=k)
        ev.append({"ev": "add", "term": term, "exc": exc})
        if exc:
            break
        last = i == len(scn["terms"]) - 1
        if last or i % scn["every"] == 0:
            cover = last
            ev.append(observe(rb, 60 * max(1, c["cap"]) if cover else 2, cover))
    return {"cfg": c, "ev": ev}
