"""P03: saving and restoring replay buffers."""
import os
import shutil
import tempfile

import numpy as np
import torch

from vf import attempt, fx
import p02
from reagent.replay_memory import circular_replay_buffer as crb
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer

TRACE = "P03Trace"
GEN = [{"name": "gen", "module": "MC_Checkpoint", "cfg": "Gen_Checkpoint.cfg"}]
GEN_THOROUGH = [{"name": "gen", "module": "MC_Checkpoint", "cfg": "Gen_Checkpoint_thorough.cfg"}]
NEED = ["add", "rows", "save", "load", "ls"]
ASSUMPTIONS = ["checkpoint directories exist before saving, as documented"]


def base(rng):
    stack, n = rng.randint(1, 3), rng.randint(1, 3)
    c = {"cap": stack + n + rng.randint(0, 5), "stack": stack, "n": n}
    s = p02.mk(rng, c, [], "ckpt")
    s["c"]["prioritized"] = False
    if rng.random() < 0.25:
        s["c"].update(prioritized=True, timeline=False, evstack=False, idl=False)
    s["pterm"] = rng.choice([0.1, 0.3, 0.6])
    return s


def scenarios(tier, rng, gens):
    gen = list(gens["gen"])
    rng.shuffle(gen)
    for ops in gen[: 300 if tier == "quick" else 3000]:
        s = base(rng)
        s["ops"] = ops
        s["style"] = "tlc"
        yield s
    for k in range(150 if tier == "quick" else 1500):
        s = base(rng)
        s["style"] = "loss"
        s["fill"] = rng.randint(1, 14)
        s["more"] = rng.randint(0, 6)
        s["saves"] = rng.choice([1, 1, 2, 3])
        s["target"] = rng.choice(["fresh", "initialized", "used", "same"])
        s["lost"] = rng.randint(1, 4)
        s["trunc"] = rng.random() < 0.3
        yield s


class World:
    def __init__(self, scn):
        self.scn, self.c = scn, scn["c"]
        self.rng = np.random.RandomState(scn["seed"])
        self.bufs, self.ev, self.k, self.over = [], [], 0, {}
        self.dir = tempfile.mkdtemp(prefix="ckpt")
        self.guard = {"notes.txt": b"x", "observation_ckpt.gz": b"y", "add_count_ckpt.999.gz": b"z", "$store$_mine_ckpt.77.gz": b"w"}
        for f, v in self.guard.items():
            open(os.path.join(self.dir, f), "wb").write(v)
        self.nfiles = {}
        self.make()

    def make(self):
        c = self.c
        if c["prioritized"]:
            b = PrioritizedReplayBuffer(stack_size=c["stack"], replay_capacity=c["cap"], batch_size=3,
                                        update_horizon=c["n"], gamma=c["gn"] / 2 ** c["gs"])
        else:
            b = p02.make_buffer(c)
        self.bufs.append(b)
        self.over[len(self.bufs)] = False
        if len(self.bufs) > 1:
            self.ev.append({"ev": "new", "exc": ""})
        return len(self.bufs)

    def add(self, b, term):
        self.k += 1
        d = p02.make_step(self.scn, self.rng, self.k)
        prio = 0
        kw = dict(d)
        if self.c["prioritized"]:
            prio = int(self.rng.randint(1, 9))
            kw["priority"] = float(prio)
        _, exc = attempt(self.bufs[b - 1].add, terminal=term, **kw)
        e = p02.add_event(self.scn, d, term, exc)
        e.update(b=b, prio=prio)
        self.ev.append(e)
        self.over[b] = term

    def grow(self, b, n):
        for _ in range(n):
            self.add(b, bool(self.rng.rand() < self.scn["pterm"]))

    def rows(self, b):
        buf = self.bufs[b - 1]
        e = {"ev": "rows", "b": b, "size": int(buf.size), "rows": [], "exc": ""}
        if buf.size or True:
            if self.c["prioritized"]:
                # PrioritizedReplayBuffer needs an explicit batch size and indices
                if buf.size:
                    idx = torch.tensor([i for i in range(self.c["cap"]) if buf.is_valid_transition(i)])
                    batch, e["exc"] = attempt(buf.sample_transition_batch, len(idx), idx)
                    if not e["exc"]:
                        e["rows"] = p02.project(self.scn, batch)
                        for r, p in zip(e["rows"], batch.sampling_probabilities.flatten().tolist()):
                            r["prob"] = fx(p)
            elif buf.size:
                batch, e["exc"] = attempt(buf.sample_all_valid_transitions)
                if not e["exc"]:
                    e["rows"] = p02.project(self.scn, batch)
        self.ev.append(e)

    def files(self, i):
        return sorted(f for f in os.listdir(self.dir) if f.endswith("_ckpt.%d.gz" % i) and f not in self.guard)

    def save(self, b, i):
        _, exc = attempt(self.bufs[b - 1].save, self.dir, i)
        self.nfiles[i] = len(self.files(i))
        self.ev.append({"ev": "save", "b": b, "i": i, "exc": exc})

    def ls(self):
        comp = [i for i in self.nfiles if len(self.files(i)) == self.nfiles[i] > 0]
        part = [i for i in self.nfiles if 0 < len(self.files(i)) < self.nfiles[i]]
        ok = all(os.path.exists(os.path.join(self.dir, f)) and open(os.path.join(self.dir, f), "rb").read() == v for f, v in self.guard.items())
        self.ev.append({"ev": "ls", "complete": comp, "partial": part, "others": ok})

    def load(self, b, i, whole=True):
        _, exc = attempt(self.bufs[b - 1].load, self.dir, i)
        self.ev.append({"ev": "load", "b": b, "i": i, "whole": whole, "exc": exc})


def run(scn):
    w = World(scn)
    try:
        if scn["style"] == "tlc":
            w.grow(1, 1)
            for o in scn["ops"]:
                if o["op"] == "add":
                    w.grow(1, 1 + w.rng.randint(3))
                elif o["op"] == "save":
                    w.save(1, o["i"])
                    w.ls()
                else:
                    w.load(1, o["i"])
                    w.rows(1)
            w.rows(1)
            w.ls()
        else:
            w.grow(1, scn["fill"])
            for _ in range(scn["saves"] - 1):
                w.save(1, 3)
                w.grow(1, w.rng.randint(1, 5))
            w.save(1, 3)
            w.rows(1)
            w.ls()
            if scn["target"] == "same":
                b = 1
                w.grow(1, w.rng.randint(0, 5))
            else:
                b = w.make()
                if scn["target"] == "initialized":
                    ex = p02.make_step(scn, w.rng, 0)
                    if scn["c"]["prioritized"]:
                        ex["priority"] = 1.0
                    w.bufs[b - 1].initialize_buffer(terminal=False, **ex)
                elif scn["target"] == "used":
                    w.grow(b, w.rng.randint(1, 8))
            # lose some parts, one at a time, restore must fail and change nothing
            names = w.files(3)
            for f in [names[j] for j in w.rng.permutation(len(names))[: scn["lost"] if scn["lost"] < 4 else len(names)]]:
                p = os.path.join(w.dir, f)
                q = p + ".away"
                os.rename(p, q)
                w.load(b, 3, whole=False)
                os.rename(q, p)
                if scn["target"] != "fresh" or True:
                    w.rows(b)
            w.load(b, 9, whole=False)
            w.rows(b)
            w.load(b, 3)
            w.rows(b)
            w.grow(b, scn["more"])
            if scn["more"]:
                w.rows(b)
            if b != 1:
                w.rows(1)
                w.grow(1, 2)
                w.rows(1)
                w.rows(b)
        return {"cfg": scn["c"], "ev": w.ev}
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)
