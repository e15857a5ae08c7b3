"""P05: exporting a replay buffer to the offline (pre-timeline) format."""
import math

import numpy as np

from vf import attempt, fx
from reagent.gym.preprocessors.replay_buffer_inserters import BasicReplayBufferInserter
from reagent.gym.types import Transition
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.utils import replay_buffer_to_pre_timeline_df

TRACE = "P05Trace"
GEN = [{"name": "gen", "module": "MC_ReplayBuffer", "cfg": "Gen_ReplayContent.cfg"}]
NEED = ["add", "export"]
ASSUMPTIONS = ["one-step buffers without frame stacking, the shape the export documents",
               "mdp_id is compared by value whether exported as a scalar or a one-element list"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    seen = set()
    for g in gens["gen"]:
        c = g["c"]
        if c["stack"] == 1 and c["n"] == 1:
            key = (c["cap"], tuple(g["terms"]))
            if key in seen:
                continue
            seen.add(key)
            yield {"c": {"cap": c["cap"], "stack": 1, "n": 1, "discrete": rng.random() < 0.6}, "terms": g["terms"], "seed": rng.randint(0, 10 ** 6)}
    for k in range(150 if q else 2000):
        cap = rng.randint(2, 40)
        pt = rng.choice([0.05, 0.2, 0.5])
        yield {"c": {"cap": cap, "stack": 1, "n": 1, "discrete": rng.random() < 0.6},
               "terms": [rng.random() < pt for _ in range(rng.randint(2, 2 * cap))], "seed": rng.randint(0, 10 ** 6)}


def run(scn):
    c = scn["c"]
    rng = np.random.RandomState(scn["seed"])
    rb = ReplayBuffer(stack_size=1, replay_capacity=c["cap"], batch_size=1)
    ins = BasicReplayBufferInserter()
    ev = []
    mdp, seq = int(rng.randint(0, 5)), 0
    nact = rng.randint(1, 5)
    dim = rng.randint(1, 4)
    adim = rng.randint(1, 3)
    mask = rng.rand() < 0.5
    for i, term in enumerate(scn["terms"]):
        obs = rng.randint(-50, 50, size=dim)
        act = [int(rng.randint(nact))] if c["discrete"] else [int(v) for v in rng.randint(-9, 9, size=adim)]
        rew = int(rng.randint(-8, 9))
        pk = int(rng.randint(0, 4))
        tr = Transition(mdp_id=mdp, sequence_number=seq, observation=np.array(obs, dtype=np.float32),
                        action=act[0] if c["discrete"] else np.array(act, dtype=np.float32), reward=rew / 2,
                        terminal=bool(term), log_prob=math.log(0.5 ** pk),
                        possible_actions_mask=np.ones(nact, dtype=bool) if (mask and c["discrete"]) else None)
        _, exc = attempt(ins, rb, tr)
        ev.append({"ev": "add", "term": bool(term), "mdp": mdp, "seq": seq, "obs": [int(v) * 4 for v in obs], "act": act, "rew": rew,
                   "prob": 10 ** 5 // 2 ** pk, "exc": exc})
        if exc:
            break
        seq += 1
        if term:
            mdp, seq = mdp + 1, 0
        last = i == len(scn["terms"]) - 1
        if rb.size and (last or rng.rand() < 0.15):
            df, exc = attempt(replay_buffer_to_pre_timeline_df, c["discrete"], rb)
            e = {"ev": "export", "exc": exc, "rows": []}
            if not exc:
                for _, r in df.iterrows():
                    a = r["action"]
                    e["rows"].append({
                        "mdp": int(np.ravel(r["mdp_id"])[0]), "seq": int(r["sequence_number"]),
                        "state": [fx(r["state_features"][k], 4) for k in sorted(r["state_features"])] if sorted(int(k) for k in r["state_features"]) == list(range(dim)) else [],
                        "act": [int(float(a)) if isinstance(a, str) else -99] if c["discrete"] else [fx(a[k]) for k in sorted(a)],
                        "reward": fx(r["reward"], 2), "metric": fx(r["metrics"]["reward"], 2), "prob": fx(r["action_probability"], 10 ** 5),
                        "possible": [int(float(v)) for v in r["possible_actions"]] if c["discrete"] else [],
                        "mask": [int(v) for v in r["possible_actions_mask"]] if c["discrete"] else [],
                    })
            ev.append(e)
    if not any(e["ev"] == "export" for e in ev):
        ev.append({"ev": "add", "term": True, "mdp": mdp, "seq": seq, "obs": [], "act": [0], "rew": 0, "prob": 0, "exc": ""})
    return {"cfg": c, "ev": ev}
