"""P06: the agent-environment loop (run_episode, Agent, evaluate_for_n_episodes)."""
import os
import pickle
import shutil
import tempfile

import numpy as np
import torch
import joblib.externals.cloudpickle

import reagent.core.multiprocess_utils as mpu
import reagent.types as rlt
from reagent.gym.agents.agent import Agent
from reagent.gym.runners.gymrunner import evaluate_for_n_episodes, run_episode
from vf import attempt, fx

# the cloudpickle installed here predates Python 3.12 and cannot pickle local functions on it;
# joblib carries a current copy of the same library
mpu.cloudpickle = joblib.externals.cloudpickle

TRACE = "P06Trace"
SERIAL = True
GEN = [{"name": "gen", "module": "MC_Episode", "cfg": "Gen_Episode.cfg"}]
MC = [("MC_Episode", "MC_Episode.cfg")]
NEED = ["reset", "act", "step", "post", "end", "return", "eval", "begin"]
ASSUMPTIONS = ["environment and policy are scripted stand-ins with the EnvWrapper/Policy interface; discounts are dyadic"]


class Env:
    """Scripted environment; rewards are quarters."""

    def __init__(self, scripts, ev, nact, masked):
        self.scripts, self.ev, self.nact, self.masked = scripts, ev, nact, masked
        self.k = -1
        self.i = 0
        self.offer = (None, None)

    # what the environment offers to those who bring nothing of their own
    def get_obs_preprocessor(self, *a, **k):
        return self.offer[0]

    def get_action_extractor(self):
        return self.offer[1]

    def get_serving_obs_preprocessor(self):
        return self.offer[0]

    def get_serving_action_extractor(self):
        return self.offer[1]

    @property
    def possible_actions_mask(self):
        if not self.masked:
            return None
        m = [(self.i * 7 + self.k + a * 3) % 3 != 0 for a in range(self.nact)]
        m[(self.i + self.k) % self.nact] = True
        return np.array(m)

    def _mask(self):
        m = self.possible_actions_mask
        return [] if m is None else [int(x) for x in m]

    def _obs(self):
        return 100 * self.k + self.i

    def reset(self):
        self.k += 1
        self.i = 0
        self.script = self.scripts[self.k % len(self.scripts)]
        if self.ev is not None:
            self.ev.append({"ev": "reset", "obs": self._obs(), "mask": self._mask()})
        return np.array([self._obs()], dtype=np.float32)

    def step(self, action):
        s = self.script[self.i] if self.i < len(self.script) else {"r": 0, "d": False}
        self.i += 1
        self.last_done = bool(s["d"])
        if self.ev is not None:
            self.ev.append({"ev": "step", "act": int(np.asarray(action).ravel()[0]), "obs": self._obs(), "rew": s["r"], "done": bool(s["d"]), "mask": self._mask()})
        return np.array([self._obs()], dtype=np.float32), s["r"] / 4, s["d"], {}


class Pol:
    def __init__(self, ev, nact, lp):
        self.ev, self.nact, self.lp, self.k = ev, nact, lp, 0

    def act(self, obs, possible_actions_mask=None):
        a = (int(obs[0, 0]) * 5 + 1 + self.k) % self.nact
        self.k += 1
        l = (self.k * 3) % 7
        if self.ev is not None:
            self.ev.append({"ev": "act", "obs": int(obs[0, 0]), "act": a, "lp": l if self.lp else -1,
                            "mask": [] if possible_actions_mask is None else [int(x) for x in np.asarray(possible_actions_mask).ravel()]})
        return rlt.ActorOutput(action=torch.tensor([[a]]), log_prob=torch.tensor([-l / 8.0]) if self.lp else None)


def pre(o):
    return torch.tensor(np.asarray(o)).float().unsqueeze(0)


def ext(out):
    return out.action[0, 0].item()


def agent(cls, how, env, pol, **kw):
    """the same agent, built in one of the ways there are: with its own way of seeing and acting, or the environment's"""
    build = {"own": cls, "env": lambda p, **k: cls.create_for_env(env, p, **k), "serve": lambda p, **k: cls.create_for_env_with_serving_policy(env, p, **k)}[how[0]]
    mine = {"obs_preprocessor": pre, "action_extractor": ext}
    if how[0] == "own":
        return cls(pol, **mine, **kw)
    wrong = (lambda o: pre(o) + 1, lambda out: ext(out) + 1)
    env.offer = (wrong[0] if "o" in how[1] else pre, wrong[1] if "a" in how[1] else ext)
    return build(pol, **({"obs_preprocessor": pre} if "o" in how[1] else {}), **({"action_extractor": ext} if "a" in how[1] else {}), **kw)


def rec(t):
    m = t.possible_actions_mask
    return {"mdp": int(t.mdp_id), "seq": int(t.sequence_number), "obs": fx(np.asarray(t.observation).ravel()[0]),
            "act": int(np.asarray(t.action).ravel()[0]), "rew": fx(t.reward, 4), "term": bool(t.terminal),
            "lp": -1 if t.log_prob is None else fx(-t.log_prob, 8), "mask": [] if m is None else [int(x) for x in np.asarray(m).ravel()]}


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    if q:
        rng.shuffle(gg)
        gg = gg[:500]
    for g in gg:
        yield {"kind": "run", "limit": g["limit"], "scripts": [g["script"]], "n": 1, "cb": rng.random() < 0.85, "seed": rng.randint(0, 10 ** 6)}
    for _ in range(80 if q else 800):
        n = rng.choice([1, 1, 2, 3])
        scripts = [[{"r": rng.randint(-9, 9), "d": i == ln - 1} for i in range(ln)] for ln in [rng.randint(1, 9) for _ in range(n)]]
        yield {"kind": "run", "limit": rng.choice([0, 0, 1, 2, 5, 12]), "scripts": scripts, "n": n, "cb": rng.random() < 0.85, "seed": rng.randint(0, 10 ** 6)}
    for k in range(40 if q else 240):
        n = [1, 2, 3, 5, 7][k % 5]
        scripts = [[{"r": rng.randint(-9, 9), "d": i == ln - 1} for i in range(ln)] for ln in [rng.randint(1, 6) for _ in range(rng.randint(1, 4))]]
        yield {"kind": "eval", "limit": rng.choice([0, 0, 2, 4]), "scripts": scripts, "n": n, "procs": [1, 2, 3, 1, 4, 8][k // 4 % 6] if k % 4 == 0 else 1, "seed": rng.randint(0, 10 ** 6)}


GAMMAS = [2, 1, 0, 3]  # halves


def run(scn):
    rng = np.random.RandomState(scn["seed"])
    ev = []
    nact = int(rng.randint(1, 5))
    masked = bool(rng.randint(2))
    lp = bool(rng.randint(2))
    limit = scn["limit"]
    how = [["own", "env", "serve"][int(rng.randint(3))], ["", "o", "a", "oa"][int(rng.randint(4))]]
    if scn["kind"] == "run":
        cb = scn["cb"]
        env = Env(scn["scripts"], ev, nact, masked)
        ag = agent(Agent, how, env, Pol(ev, nact, lp), post_transition_callback=(lambda t: ev.append({"ev": "post", "rec": rec(t)})) if cb else None, post_episode_callback=(lambda t: ev.append({"ev": "end", "n": len(t.transitions)})) if cb else None)
        mdp0 = int(rng.randint(0, 50))
        for k in range(scn["n"]):
            ev.append({"ev": "begin", "mdp": mdp0 + k})
            tr, exc = attempt(run_episode, env, ag, mdp_id=mdp0 + k, max_steps=limit or None)
            e = {"ev": "return", "exc": exc, "recs": [], "gammas": [], "rets": [], "pow": 8}
            if not exc:
                e["recs"] = [rec(t) for t in tr.transitions]
                e["gammas"] = GAMMAS
                e["rets"] = [fx(tr.calculate_cumulative_reward(g / 2), 4 * 2 ** 8) for g in GAMMAS] if len(e["recs"]) <= 9 else []
                if not e["rets"]:
                    e["gammas"] = []
            ev.append(e)
            if exc:
                break
        return {"cfg": {"limit": limit, "mdp": mdp0, "callbacks": cb, "n": scn["n"]}, "ev": ev}

    d = tempfile.mkdtemp(prefix="vp06_")
    try:
        env = Env(scn["scripts"], None, nact, masked)

        ag = agent(LogAgent, how, env, Pol(None, nact, lp))
        ag.dir = d
        table, exc = attempt(evaluate_for_n_episodes, n=scn["n"], env=LogEnv(env, ag), agent=ag, max_steps=limit or None,
                             gammas=[g / 2 for g in GAMMAS], num_processes=scn["procs"])
        eps = []
        for i in range(scn["n"]):
            rows = []
            p = os.path.join(d, str(i))
            if os.path.exists(p):
                with open(p, "rb") as f:
                    while True:
                        try:
                            rows.append(pickle.load(f))
                        except EOFError:
                            break
            eps.append(rows)
        e = {"ev": "eval", "exc": exc, "table": [], "episodes": eps, "gammas": GAMMAS, "pow": 8}
        if not exc:
            e["table"] = [[fx(v, 4 * 2 ** 8) for v in row] for row in table]
        return {"cfg": {"limit": limit, "mdp": 0, "callbacks": True, "n": scn["n"]}, "ev": [e]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


class LogEnv:
    """Leaves a mark of whether the environment itself said done."""

    def __init__(self, env, agent):
        self.env, self.agent = env, agent

    @property
    def possible_actions_mask(self):
        return self.env.possible_actions_mask

    def reset(self):
        self.agent.last_done = False
        return self.env.reset()

    def step(self, a):
        out = self.env.step(a)
        self.agent.done = bool(out[2])
        with open(os.path.join(self.agent.dir, "done.%d" % os.getpid()), "w") as f:
            f.write("1" if out[2] else "0")
        return out


class LogAgent(Agent):
    dir = None

    def post_step(self, t):
        with open(os.path.join(self.dir, "done.%d" % os.getpid())) as f:
            done = f.read() == "1"
        with open(os.path.join(self.dir, str(int(t.mdp_id))), "ab") as f:
            pickle.dump({"seq": int(t.sequence_number), "rew": fx(t.reward, 4), "term": bool(t.terminal), "envdone": done}, f)
