"""P08: recorded experience -> training batches."""
import types

import gym
import numpy as np
import torch

import reagent.types as rlt
from reagent.gym.envs.gym import Gym
from reagent.gym.preprocessors import make_replay_buffer_trainer_preprocessor, make_trainer_preprocessor_online
from reagent.gym.preprocessors.replay_buffer_inserters import RecSimReplayBufferInserter
from reagent.gym.types import Trajectory, Transition
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.training.utils import rescale_actions
from vf import attempt, fx, fxl

TRACE = "P08Trace"
GEN = [{"name": "gen", "module": "MC_Conversion", "cfg": "Gen_Conversion.cfg"}]
MC_THOROUGH = [("MC_Conversion", "MC_Conversion_deep.cfg")]
NEED = ["dqn", "pdqn", "cont", "extract", "refuse", "mem", "slate", "stored", "traj"]
ASSUMPTIONS = ["feature values are integers, action bounds and actions lie on a dyadic grid",
               "recommendation observations follow RecSim's user/doc/response layout (with an augmentation value per item)"]
UNIT = 256


class TD:
    def train(self, training_batch: rlt.DiscreteDqnInput):
        pass


class TP:
    def train(self, training_batch: rlt.ParametricDqnInput):
        pass


class TC:
    def train(self, training_batch: rlt.PolicyNetworkInput):
        pass


class TM:
    def train(self, training_batch: rlt.MemoryNetworkInput):
        pass


class TS:
    def train(self, training_batch: rlt.SlateQInput):
        pass


class TG:
    def train(self, training_batch: rlt.PolicyGradientInput):
        pass


class Box1:
    def __init__(self, space, obs=None):
        self.action_space = space
        self.observation_space = obs


CPU = torch.device("cpu")


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 200 if q else 10000]:
        for kind in ("dqn", "pdqn"):
            yield {"kind": kind, "rows": g["rows"], "nact": 2, "seed": rng.randint(0, 10 ** 6)}
    for _ in range(60 if q else 800):
        n = rng.randint(1, 5)
        yield {"kind": rng.choice(["dqn", "pdqn"]), "nact": n, "seed": rng.randint(0, 10 ** 6),
               "rows": [{"action": rng.randrange(n), "next_action": rng.randrange(n), "terminal": rng.random() < 0.4} for _ in range(rng.randint(1, 8))]}
    for kind, k in (("cont", 120), ("extract", 80), ("mem", 80), ("slate", 80), ("traj", 80), ("buffer", 60)):
        for _ in range(k if q else k * 12):
            yield {"kind": kind, "seed": rng.randint(0, 10 ** 6)}


def ints(rng, *shape):
    return rng.randint(-20, 21, size=shape).astype(np.float32)


def run(scn):
    rng = np.random.RandomState(scn["seed"])
    torch.manual_seed(scn["seed"])
    return globals()["run_" + scn["kind"]](scn, rng)


def col(x):
    return [int(v) for v in np.asarray(x).ravel()]


def out_discrete(o, p):
    f = (lambda x: x.float_features) if p else (lambda x: x)
    rows = []
    for i in range(o.state.float_features.shape[0]):
        rows.append({"state": fxl(o.state.float_features[i]), "next_state": fxl(o.next_state.float_features[i]),
                     "reward": fx(o.reward[i].reshape(()), 4), "not_terminal": fx(o.not_terminal[i].reshape(())),
                     "action": fxl(f(o.action)[i]), "next_action": fxl(f(o.next_action)[i]),
                     "mask": fxl(o.possible_actions_mask[i]), "next_mask": fxl(o.possible_next_actions_mask[i]),
                     "prob": fx(o.extras.action_probability[i].reshape(()), 10 ** 5)})
    return rows


def raw_discrete(b, i, masked):
    return {"state": fxl(b.state[i]), "next_state": fxl(b.next_state[i]), "reward": fx(b.reward[i].reshape(()), 4),
            "terminal": bool(b.terminal[i]), "action": int(b.action[i]), "next_action": int(b.next_action[i]),
            "prob": fx(float(b.log_prob[i].reshape(()).double().exp()), 10 ** 5),
            "mask": fxl(b.possible_actions_mask[i]) if masked else [], "next_mask": fxl(b.next_possible_actions_mask[i]) if masked else []}


def run_dqn(scn, rng, p=False):
    n, rows = scn["nact"], scn["rows"]
    k, d = len(rows), int(rng.randint(1, 5))
    masked = bool(rng.randint(2)) and not p
    b = types.SimpleNamespace(
        state=torch.tensor(ints(rng, k, d)), next_state=torch.tensor(ints(rng, k, d)),
        action=torch.tensor([[r["action"]] for r in rows]),
        # the next action of a terminal row is garbage by contract: it need not even be an action
        next_action=torch.tensor([[r["next_action"] if not r["terminal"] or rng.randint(2) else 77] for r in rows]),
        reward=torch.tensor(ints(rng, k, 1)) / 4, terminal=torch.tensor([[bool(r["terminal"])] for r in rows]),
        log_prob=torch.tensor([[-0.5 * float(rng.randint(0, 5))] for _ in rows]))
    if masked:
        b.possible_actions_mask = torch.tensor(rng.randint(0, 2, size=(k, n))).bool()
        b.next_possible_actions_mask = torch.tensor(rng.randint(0, 2, size=(k, n))).bool()
    pre = make_replay_buffer_trainer_preprocessor(TP() if p else TD(), CPU, Box1(gym.spaces.Discrete(n)))
    raw = [raw_discrete(b, i, masked) for i in range(k)]
    o, exc = attempt(pre, b)
    e = {"ev": "pdqn" if p else "dqn", "exc": exc, "raw": raw, "out": [], "possible": []}
    if not exc:
        e["out"] = out_discrete(o, p)
        if p:
            e["possible"] = fxl(o.possible_actions.float_features.reshape(k, n, n))
            if fxl(o.possible_next_actions.float_features.reshape(k, n, n)) != e["possible"]:
                e["possible"] = []
    return {"cfg": {"nact": n}, "ev": [e]}


def run_pdqn(scn, rng):
    return run_dqn(scn, rng, p=True)


def run_buffer(scn, rng):
    """the same through a real buffer filled with episodes"""
    n = int(rng.randint(1, 4))
    masked = bool(rng.randint(2))
    nstep = int(rng.randint(1, 4))
    rb = ReplayBuffer(stack_size=1, replay_capacity=30, batch_size=4, update_horizon=nstep, gamma=1.0)
    m, s = 0, 0
    for _ in range(int(rng.randint(4, 25))):
        kw = {"possible_actions_mask": rng.randint(0, 2, size=n).astype(bool)} if masked else {}
        term = bool(rng.rand() < 0.3)
        rb.add(observation=ints(rng, 3), action=int(rng.randint(n)), reward=float(rng.randint(-9, 9)) / 4, terminal=term,
               mdp_id=m, sequence_number=s, log_prob=-0.5 * float(rng.randint(4)), **kw)
        m, s = (m + 1, 0) if term else (m, s + 1)
    if not rb.size:
        return {"cfg": {"nact": n}, "ev": [{"ev": "dqn", "exc": "", "raw": [], "out": []}]}
    b = rb.sample_all_valid_transitions()
    raw = [raw_discrete(b, i, masked) for i in range(b.state.shape[0])]
    o, exc = attempt(make_replay_buffer_trainer_preprocessor(TD(), CPU, Box1(gym.spaces.Discrete(n))), b)
    return {"cfg": {"nact": n}, "ev": [{"ev": "dqn", "exc": exc, "raw": raw, "out": out_discrete(o, False) if not exc else []}]}


def box(rng):
    d = int(rng.randint(1, 4))
    lo = rng.randint(-3, 3, size=d)
    w = 2 ** rng.randint(0, 4, size=d)
    return d, lo.astype(np.float32), (lo + w).astype(np.float32)


def grid(rng, lo, hi, k):
    out = np.zeros((k, len(lo)), dtype=np.float32)
    for i in range(k):
        for j in range(len(lo)):
            out[i, j] = lo[j] + (hi[j] - lo[j]) * rng.randint(0, 9) / 8
    return out


def run_cont(scn, rng):
    d, lo, hi = box(rng)
    k = int(rng.randint(1, 6))
    term = rng.rand(k, 1) < 0.4
    act, nxt = grid(rng, lo, hi, k), grid(rng, lo, hi, k)
    for i in range(k):
        if term[i, 0] and rng.randint(2):
            nxt[i] = 1000  # garbage by contract
    b = types.SimpleNamespace(state=torch.tensor(ints(rng, k, 3)), next_state=torch.tensor(ints(rng, k, 3)), action=torch.tensor(act), next_action=torch.tensor(nxt),
                              reward=torch.tensor(ints(rng, k, 1)) / 4, terminal=torch.tensor(term), log_prob=torch.tensor(-0.5 * rng.randint(0, 5, size=(k, 1)).astype(np.float32)))
    env = Box1(gym.spaces.Box(lo, hi, dtype=np.float32))
    pre = make_replay_buffer_trainer_preprocessor(TC(), CPU, env)
    raw = [{"state": fxl(b.state[i]), "next_state": fxl(b.next_state[i]), "reward": fx(b.reward[i, 0], 4), "terminal": bool(term[i, 0]),
            "action": fxl(b.action[i], UNIT), "next_action": fxl(b.next_action[i], UNIT), "prob": fx(float(b.log_prob[i, 0].double().exp()), 10 ** 5)} for i in range(k)]
    o, exc = attempt(pre, b)
    ev = {"ev": "cont", "exc": exc, "raw": raw, "out": []}
    if not exc:
        for i in range(k):
            ev["out"].append({"state": fxl(o.state.float_features[i]), "next_state": fxl(o.next_state.float_features[i]), "reward": fx(o.reward[i, 0], 4),
                              "not_terminal": fx(o.not_terminal[i].reshape(())), "action": fxl(o.action.float_features[i], UNIT),
                              "next_action": fxl(o.next_action.float_features[i], UNIT), "prob": fx(o.extras.action_probability[i].reshape(()), 10 ** 5)})
    evs = [ev]
    if rng.randint(2):
        j = int(rng.randint(d))
        v = act[:1].copy()
        v[0, j] = hi[j] + 0.25 if rng.randint(2) else lo[j] - 0.25
        _, exc = attempt(rescale_actions, torch.tensor(v), torch.tensor(-1.0), torch.tensor(1.0), torch.tensor(lo), torch.tensor(hi))
        evs.append({"ev": "refuse", "exc": exc})
    return {"cfg": {"unit": UNIT, "lo": fxl(lo, UNIT), "hi": fxl(hi, UNIT)}, "ev": evs}


SPACE = []


class FakeEnv(gym.Env):
    def __init__(self):
        self.action_space = SPACE[-1]
        self.observation_space = gym.spaces.Box(-1, 1, shape=(1,))


if "VpSpace-v0" not in gym.envs.registry.env_specs:
    gym.envs.registration.register(id="VpSpace-v0", entry_point=FakeEnv)


def Wrap(space):
    SPACE.append(space)
    return Gym(env_name="VpSpace-v0")


def run_extract(scn, rng):
    if rng.rand() < 0.3:
        n = int(rng.randint(1, 6))
        a = int(rng.randint(n))
        w = Wrap(gym.spaces.Discrete(n))
        evs = []
        for f in (w.get_action_extractor(), w.get_serving_action_extractor()):
            v, exc = attempt(f, rlt.ActorOutput(action=torch.nn.functional.one_hot(torch.tensor([a]), n)))
            evs.append({"ev": "extract", "exc": exc, "model": a, "out": [] if exc else [int(v)]})
        return {"cfg": {"kind": "discrete"}, "ev": evs}
    d, lo, hi = box(rng)
    w = Wrap(gym.spaces.Box(lo, hi, dtype=np.float32))
    m = grid(rng, -np.ones(d), np.ones(d), 1)
    v, exc = attempt(w.get_action_extractor(), rlt.ActorOutput(action=torch.tensor(m)))
    return {"cfg": {"kind": "box", "unit": UNIT, "lo": fxl(lo, UNIT), "hi": fxl(hi, UNIT)},
            "ev": [{"ev": "extract", "exc": exc, "model": fxl(m[0], UNIT), "out": [] if exc else fxl(v, UNIT)}]}


def run_mem(scn, rng):
    f, k, d, n = int(rng.randint(1, 5)), int(rng.randint(1, 5)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    term = rng.rand(k) < 0.4
    st, ns = ints(rng, k, d, f), ints(rng, k, d, f)
    act, rew = rng.randint(0, n, size=(k, f)), ints(rng, k, f) / 4
    raw = [{"state": fxl(st[b].T), "next_state": fxl(ns[b].T), "action": col(act[b]), "reward": fxl(rew[b], 4), "terminal": bool(term[b])} for b in range(k)]
    two = f == 1 and bool(rng.randint(2))  # one frame: the buffer leaves the frame axis out of vectors
    b = types.SimpleNamespace(state=torch.tensor(st[:, :, 0] if two else st), next_state=torch.tensor(ns[:, :, 0] if two else ns), action=torch.tensor(act),
                              reward=torch.tensor(rew), terminal=torch.tensor(term.reshape(-1, 1) if f > 1 or rng.randint(2) else term))
    o, exc = attempt(make_replay_buffer_trainer_preprocessor(TM(), CPU, Box1(gym.spaces.Discrete(n))), b)
    e = {"ev": "mem", "exc": exc, "raw": raw, "state": [], "action": [], "next_state": [], "reward": [], "not_terminal": []}
    if not exc:
        e.update(state=fxl(o.state.float_features), next_state=fxl(o.next_state.float_features), action=fxl(o.action), reward=fxl(o.reward, 4),
                 not_terminal=fxl(o.not_terminal))
    return {"cfg": {"frames": f, "nact": n}, "ev": [e]}


def run_slate(scn, rng):
    ndoc, slots, du = int(rng.randint(2, 5)), 0, int(rng.randint(1, 3))
    slots = int(rng.randint(1, ndoc + 1))
    aug = True
    dd = int(rng.randint(1, 3))
    S = gym.spaces
    resp = S.Dict({"click": S.Discrete(2), "watch_time": S.Box(0, 100, shape=())})
    docsp = S.Box(-100, 100, shape=(dd,))
    obs_space = S.Dict({"user": S.Box(-100, 100, shape=(du,)), "doc": S.Dict({str(i): docsp for i in range(ndoc)}),
                        "augmentation": S.Dict({str(i): S.Dict({"value": S.Box(-100, 100, shape=())}) for i in range(ndoc)}),
                        "response": S.Tuple([resp] * slots)})
    env = Box1(S.MultiDiscrete([ndoc] * slots), obs_space)
    ins = RecSimReplayBufferInserter.create_for_env(env)
    rb = ReplayBuffer(stack_size=1, replay_capacity=40, batch_size=4)
    steps, evs = [], []
    n = int(rng.randint(2, 9))
    nores = False
    for i in range(n):
        first = i == 0 or steps[-1]["terminal"]
        responses = None if first else [{"click": int(rng.rand() < 0.4), "watch_time": np.float32(rng.randint(0, 40) / 4)} for _ in range(slots)]
        obs = {"user": ints(rng, du), "doc": {str(j): ints(rng, dd) for j in range(ndoc)},
               "augmentation": {str(j): {"value": np.float32(rng.randint(-9, 9))} for j in range(ndoc)}, "response": responses}
        term = bool(rng.rand() < 0.25) or i == n - 1
        act = rng.permutation(ndoc)[:slots]
        got = {}

        class Tap:
            def add(self, **kw):
                got.update(kw)
                rb.add(**kw)
        _, exc = attempt(ins, Tap(), Transition(mdp_id=0, sequence_number=i, observation=obs, action=act, reward=1.0, terminal=term, log_prob=-0.5))
        e = {"ev": "stored", "exc": exc,
             "obs": {"user": fxl(obs["user"]), "docs": [fxl(v) for v in obs["doc"].values()], "value": [fx(v["value"]) for v in obs["augmentation"].values()],
                     "responses": [] if responses is None else [{"click": r["click"], "watch": fx(r["watch_time"], 4)} for r in responses]},
             "got": {"user": [], "docs": [], "value": [], "responses": []}}
        if not exc:
            e["got"] = {"user": fxl(got["observation"]), "docs": fxl(got["doc"]), "value": fxl(got["augmentation_value"]),
                        "responses": [{"click": int(c), "watch": fx(w, 4)} for c, w in zip(got["response_click"], got["response_watch_time"])]}
        evs.append(e)
        steps.append({"terminal": term})
    b = rb.sample_all_valid_transitions()
    raw = [{"state": fxl(b.state[i]), "next_state": fxl(b.next_state[i]), "docs": fxl(b.doc[i]), "next_docs": fxl(b.next_doc[i]),
            "value": fxl(b.augmentation_value[i]), "next_value": fxl(b.next_augmentation_value[i]), "action": fxl(b.action[i]), "next_action": fxl(b.next_action[i]),
            "watch": fxl(b.response_watch_time[i], 4), "click": fxl(b.response_click[i]), "terminal": bool(b.terminal[i])} for i in range(b.state.shape[0])]
    o, exc = attempt(make_replay_buffer_trainer_preprocessor(TS(), CPU, env), b)
    e = {"ev": "slate", "exc": exc, "raw": raw, "out": []}
    if not exc:
        for i in range(len(raw)):
            cd, nd = o.state.candidate_docs, o.next_state.candidate_docs
            e["out"].append({"state": fxl(o.state.float_features[i]), "next_state": fxl(o.next_state.float_features[i]), "docs": fxl(cd.float_features[i]),
                             "next_docs": fxl(nd.float_features[i]), "value": fxl(cd.value[i]), "next_value": fxl(nd.value[i]), "action": fxl(o.action[i]),
                             "next_action": fxl(o.next_action[i]), "reward": fxl(o.reward[i], 4), "reward_mask": fxl(o.reward_mask[i].float()),
                             "not_terminal": fx(o.not_terminal[i].float().reshape(()))})
    evs.append(e)
    return {"cfg": {"slots": slots}, "ev": evs}


def run_traj(scn, rng):
    kind = ["discrete", "box"][int(rng.randint(2))]
    n = int(rng.randint(1, 5)) if kind == "discrete" else int(rng.randint(1, 4))
    k, d = int(rng.randint(1, 7)), int(rng.randint(1, 4))
    tr, raw = Trajectory(), []
    for i in range(k):
        obs = ints(rng, d)
        act = np.asarray(rng.randint(n)) if kind == "discrete" else ints(rng, n)
        r, lp = float(rng.randint(-9, 9)) / 4, -0.25 * float(rng.randint(0, 8))
        tr.add_transition(Transition(mdp_id=0, sequence_number=i, observation=obs, action=act, reward=r, terminal=i == k - 1, log_prob=lp))
        raw.append({"state": fxl(obs), "action": col(act), "reward": fx(r, 4), "logp": fx(lp, 4)})
    space = gym.spaces.Discrete(n) if kind == "discrete" else gym.spaces.Box(-100, 100, shape=(n,))
    o, exc = attempt(make_trainer_preprocessor_online(TG(), CPU, Box1(space)), tr)
    e = {"ev": "traj", "exc": exc, "raw": raw, "state": [], "action": [], "reward": [], "logp": []}
    if not exc:
        e.update(state=fxl(o.state.float_features), action=fxl(o.action.reshape(k, -1)), reward=fxl(o.reward, 4), logp=fxl(o.log_prob, 4))
    return {"cfg": {"kind": kind, "nact": n}, "ev": [e]}
