"""P07: cadence of online training (ReplayBufferDataset, training callback, fill_replay_buffer)."""
import itertools

import gym
import numpy as np
import torch

from reagent.gym.agents.agent import Agent
from reagent.gym.agents.post_step import add_replay_buffer_post_step, train_with_replay_buffer_post_step
from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset
from reagent.gym.envs.gym import Gym
from reagent.gym.preprocessors.replay_buffer_inserters import BasicReplayBufferInserter
from reagent.gym.runners.gymrunner import run_episode
from reagent.gym.utils import fill_replay_buffer
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
import p06
from vf import attempt, fx

TRACE = "P07Trace"
GEN = [{"name": "gen", "module": "MC_OnlineTraining", "cfg": "Gen_OnlineTraining.cfg"}]
MC_THOROUGH = [("MC_OnlineTraining", "MC_OnlineTraining_deep.cfg")]
NEED = ["reset", "act", "step", "insert", "batch", "refuse", "skipped", "end", "fill"]
ASSUMPTIONS = ["environment and policy are scripted; a training batch is recognised by the observations of its rows"]

CUR = {}


class Env(p06.Env):
    unwrapped = None
    max_steps = None


class FillEnv(gym.Env):
    """gym environment driven by the current scenario"""
    def __init__(self):
        s = CUR["script"]
        self.s = s
        self.inner = p06.Env(s["scripts"], None, s["nact"], False)
        self.action_space = gym.spaces.Discrete(s["nact"])
        self.observation_space = gym.spaces.Box(-1e6, 1e6, shape=(1,))
        if s["envmax"]:
            self._max_episode_steps = s["envmax"]

    def reset(self):
        o = self.inner.reset()
        CUR["ev"].append({"ev": "reset", "obs": int(o[0]), "mask": []})
        return o

    def step(self, a):
        a = int(np.asarray(a).ravel()[0])
        CUR["ev"].append({"ev": "act", "obs": self.inner._obs(), "act": a, "lp": 0, "mask": []})
        o, r, d, i = self.inner.step(a)
        CUR["ev"].append({"ev": "step", "act": a, "obs": int(o[0]), "rew": fx(r, 4), "done": bool(d), "mask": []})
        return o, r, d, i


if "VpFill-v0" not in gym.envs.registry.env_specs:
    gym.envs.registration.register(id="VpFill-v0", entry_point=FillEnv)


class LogBuffer(ReplayBuffer):
    """The real buffer; insertions are written to the event log."""
    ev = None
    lp = True

    def add(self, **kw):
        super().add(**kw)
        m = kw.get("possible_actions_mask")
        self.ev.append({"ev": "insert", "size": int(self.size), "rec": {
            "mdp": int(kw["mdp_id"]), "seq": int(kw["sequence_number"]), "obs": int(np.asarray(kw["observation"]).ravel()[0]),
            "act": int(np.asarray(kw["action"]).ravel()[0]), "rew": fx(kw["reward"], 4), "term": bool(kw["terminal"]),
            "lp": 0 if not self.lp else -1 if kw.get("log_prob") is None else fx(-kw["log_prob"], 8),
            "mask": [] if m is None else [int(x) for x in np.asarray(m).ravel()]}})


def batch_event(b):
    obs = b.state
    if obs.dim() > 2:
        obs = obs[..., -1]
    obs = obs.reshape(obs.shape[0], -1)
    return {"ev": "batch", "n": int(obs.shape[0]), "obs": sorted({int(v) for v in obs[:, -1].tolist()})}


def scenarios(tier, rng, gens):
    q = tier == "quick"
    seen = set()
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 700 if q else 20000]:
        c, k = g["c"], 0
        scripts, cur = [], []
        for d in g["script"]:
            cur.append({"r": rng.randint(-9, 9), "d": d})
            if d or (c["limit"] and len(cur) >= c["limit"]):
                scripts.append(cur)
                cur = []
        if cur:
            scripts.append(cur)
        key = str((c, g["script"]))
        if key in seen:
            continue
        seen.add(key)
        yield {"kind": rng.choice(["ds", "cb"]), "c": dict(c, want=0, envmax=0, mdp=0), "scripts": scripts, "seed": rng.randint(0, 10 ** 6)}
    for _ in range(150 if q else 3000):
        n = rng.choice([1, 1, 2, 3])
        stack = rng.choice([1, 1, 1, 2, 3])
        cap = rng.randint(n + stack, 20)
        scripts = [[{"r": rng.randint(-9, 9), "d": i == ln - 1} for i in range(ln)] for ln in [rng.choice([1, 2, 3, 5, 9]) for _ in range(rng.randint(1, 5))]]
        kind = rng.choice(["ds", "ds", "cb", "fill"])
        c = {"cap": cap, "stack": stack, "n": n, "freq": rng.randint(1, 6), "bs": rng.randint(1, 6), "limit": rng.choice([0, 0, 1, 2, 4, 7]),
             "episodes": rng.choice([1, 2, 3, 5, 0]), "mdp": 0, "want": 0, "envmax": 0}
        if kind == "fill":
            c.update(bs=1000, want=rng.randint(1, cap), envmax=rng.choice([0, 0, 1, 3, 6]), limit=0, episodes=0)
        elif kind == "cb" and c["episodes"] == 0:
            c["episodes"] = 4
        yield {"kind": kind, "c": c, "scripts": scripts, "seed": rng.randint(0, 10 ** 6)}


def run(scn):
    c, ev = scn["c"], []
    rng = np.random.RandomState(scn["seed"])
    torch.manual_seed(scn["seed"])
    nact = int(rng.randint(1, 5))
    rb = LogBuffer(stack_size=c["stack"], replay_capacity=c["cap"], batch_size=2, update_horizon=c["n"])
    rb.ev = ev
    if scn["kind"] == "fill":
        rb.lp = False
        CUR["script"] = {"scripts": scn["scripts"], "nact": nact, "envmax": c["envmax"]}
        CUR["ev"] = ev
        env = Gym(env_name="VpFill-v0")
        _, exc = attempt(fill_replay_buffer, env, rb, c["want"])
        ev.append({"ev": "fill", "exc": exc, "size": int(rb.size)})
        return {"cfg": c, "ev": ev}
    masked, lp = bool(rng.randint(2)), bool(rng.randint(2))
    env = Env(scn["scripts"], ev, nact, masked)
    env.unwrapped = env
    pol = p06.Pol(ev, nact, lp)
    if scn["kind"] == "ds":
        ag = Agent(pol, obs_preprocessor=p06.pre, action_extractor=p06.ext)
        ds = ReplayBufferDataset.create_for_trainer(
            None, env, ag, rb, batch_size=c["bs"], training_frequency=c["freq"], num_episodes=c["episodes"] or None,
            max_steps=c["limit"] or None, trainer_preprocessor=(lambda b: b), replay_buffer_inserter=BasicReplayBufferInserter() if rng.randint(2) else None)

        def go():
            k = 0
            for b in ds:
                ev.append(batch_event(b))
                k += 1
                if c["episodes"] == 0 and k >= 12:
                    return
                if len(ev) > 3000:
                    return

        if c["episodes"] == 0 and c["bs"] > c["cap"] // 2:
            # the iterator could run forever without a batch: bound the environment
            class Stop(Exception):
                pass
            def boom():
                raise Stop()
            env.reset = _bounded(env.reset, 30, boom)
            try:
                go()
            except Stop:
                pass
            return {"cfg": c, "ev": ev}
        _, exc = attempt(go)
        if c["episodes"]:
            ev.append({"ev": "end", "exc": exc})
        elif exc:
            ev.append({"ev": "crash"})
        return {"cfg": c, "ev": ev}

    class Tr:
        def train(self, b):
            ev.append(batch_event(b))

    ps = train_with_replay_buffer_post_step(rb, env, Tr(), training_freq=c["freq"], batch_size=c["bs"], trainer_preprocessor=(lambda b: b),
                                            replay_buffer_inserter=BasicReplayBufferInserter() if rng.randint(2) else None)
    refused = []

    def post(t):
        n = len(ev)
        try:
            ps(t)
        except AssertionError:
            ev.append({"ev": "refuse"})
            refused.append(1)
            raise
        if not any(e["ev"] == "batch" for e in ev[n:]):
            ev.append({"ev": "skipped"})

    ag = Agent(pol, post_transition_callback=post, obs_preprocessor=p06.pre, action_extractor=p06.ext)
    # warm up: the callback requires a buffer that already offers enough
    for k in range(c["episodes"]):
        _, exc = attempt(run_episode, env, ag, mdp_id=k, max_steps=c["limit"] or None)
        if exc:
            if not refused:
                ev.append({"ev": "crash"})
            return {"cfg": c, "ev": ev}
    ev.append({"ev": "end", "exc": ""})
    return {"cfg": c, "ev": ev}


def _bounded(f, n, boom):
    box = [0]
    def g():
        box[0] += 1
        if box[0] > n:
            boom()
        return f()
    return g
