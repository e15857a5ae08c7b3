"""P02: what a sampled transition contains, for every history, configuration and index."""
import numpy as np
import torch

from vf import attempt, fx, fxl
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

TRACE = "P02Trace"
GEN = [{"name": "gen", "module": "MC_ReplayBuffer", "cfg": "Gen_ReplayContent.cfg"}]
GEN_THOROUGH = [{"name": "gen", "module": "MC_ReplayBuffer", "cfg": "Gen_ReplayBuffer.cfg"}]
NEED = ["add", "rows"]
ASSUMPTIONS = ["contents of next_* fields after a terminal step are documented as undefined and not judged",
               "rewards and discounts are dyadic so that float32 sums are exact"]

SHAPES = [(2,), (), (1,), (2, 2), (1, 3)]
ASHAPES = [(), (2,)]


def mk(rng, c, terms, kind):
    timeline = rng.random() < 0.35
    c = dict(c)
    c["timeline"] = timeline
    c["evstack"] = rng.random() < 0.25
    g = rng.choice([(1, 1), (1, 0), (0, 0), (3, 2), (1, 2)]) if c["n"] <= 3 else rng.choice([(1, 1), (1, 0)])
    c["gn"], c["gs"] = g
    c["idl"] = c["stack"] == 1 and not timeline and rng.random() < 0.4
    return {"c": c, "terms": terms, "kind": kind, "shape": list(rng.choice(SHAPES)), "ashape": list(rng.choice(ASHAPES)),
            "dt": rng.choice(["float32", "float32", "uint8", "int64"]), "seed": rng.randint(0, 10 ** 6),
            "every": 1 if kind == "exhaustive" else 4}


def scenarios(tier, rng, gens):
    for g in gens["gen"]:
        yield mk(rng, g["c"], g["terms"], "exhaustive")
    for k in range(150 if tier == "quick" else 1500):
        stack = rng.randint(1, 4)
        n = rng.randint(1, 5)
        cap = stack + n + rng.randint(0, 8)
        pt = rng.choice([0.05, 0.15, 0.3, 0.6])
        yield mk(rng, {"cap": cap, "stack": stack, "n": n}, [rng.random() < pt for _ in range(rng.randint(cap, 3 * cap))], "random")


def stack_rows(x, shape, stack):
    """tensor (B, *shape[, stack]) -> per row: list over the stack (oldest first) of flat int lists"""
    b = x.shape[0]
    x = x.reshape(b, -1, stack) if stack > 1 else x.reshape(b, -1, 1)
    return [[[fx(v) for v in col] for col in row.transpose(0, 1).tolist()] for row in x]


def idlist_rows(v, b):
    offs, ids = v[0].tolist(), v[1].tolist()
    ends = offs[1:] + [len(ids)]
    return [[int(q) for q in ids[o:e]] for o, e in zip(offs, ends)]


def idscore_rows(v, b):
    offs, ids, sc = v[0].tolist(), v[1].tolist(), v[2].tolist()
    ends = offs[1:] + [len(ids)]
    return [[[int(q), fx(s, 4)] for q, s in zip(ids[o:e], sc[o:e])] for o, e in zip(offs, ends)]


def project(scn, b):
    c = scn["c"]
    st = c["stack"]
    shape, ashape = tuple(scn["shape"]), tuple(scn["ashape"])
    scale = 2 ** (c["gs"] * (c["n"] - 1))
    cells = [int(v) for v in b.indices.flatten().tolist()]
    B = len(cells)
    state = stack_rows(b.state, shape, st)
    act = stack_rows(b.action, ashape, st)
    x = stack_rows(b.x, (), st)
    ident = stack_rows(b.id, (), st)
    rows = []

    def nxt(v, shp):
        if c["timeline"]:
            return [stack_rows(q, shp, st) for q in v]
        return [[q] for q in stack_rows(v, shp, st)]

    ns, na, nr, nx = nxt(b.next_state, shape), nxt(b.next_action, ashape), nxt(b.next_reward, ()), nxt(b.next_x, ())
    if c["timeline"]:
        rewl = [stack_rows(q, (), st) for q in b.reward]
        rew = [0] * B
    elif c["evstack"]:
        rewl = [[q] for q in stack_rows(b.reward, (), st)]
        rew = [0] * B
    else:
        rewl = [[[[0]]]] * B
        rew = [fx(v, scale) for v in b.reward.flatten().tolist()]
        assert len(rew) == B
    term = [bool(v) for v in b.terminal.flatten().tolist()]
    step = [int(v) for v in b.step.flatten().tolist()]
    if c["idl"]:
        idl, idsc = idlist_rows(b.idl["k"], B), idscore_rows(b.idsc["s"], B)
        nidl, nidsc = idlist_rows(b.next_idl["k"], B), idscore_rows(b.next_idsc["s"], B)
    else:
        idl = idsc = nidl = nidsc = [[]] * B
    for i in range(B):
        rows.append({"cell": cells[i], "id": ident[i][-1][0], "state": state[i], "act": act[i], "x": x[i], "rew": rew[i],
                     "rewl": rewl[i], "nstate": ns[i], "nact": na[i], "nrew": nr[i], "nx": nx[i], "term": term[i],
                     "step": step[i], "idl": idl[i], "idsc": idsc[i], "nidl": nidl[i], "nidsc": nidsc[i]})
    return rows


def make_step(scn, rng, k):
    shape, ashape = tuple(scn["shape"]), tuple(scn["ashape"])
    obs = rng.randint(1, 100, size=shape)
    act = rng.randint(1, 50, size=ashape)
    d = {"observation": np.array(obs, dtype=scn["dt"]), "action": np.array(act, dtype="int64" if ashape == () else "float32"),
         "reward": float(rng.randint(-8, 9)), "x": int(rng.randint(1, 1000)), "id": k}
    if scn["c"]["idl"]:
        m = rng.randint(0, 4)
        d["idl"] = {"k": [int(v) for v in rng.randint(0, 99, size=m)]}
        m = rng.randint(0, 3)
        d["idsc"] = {"s": ([int(v) for v in rng.randint(0, 99, size=m)], [float(v) / 4 for v in rng.randint(0, 9, size=m)])}
    return d


def add_event(scn, d, term, exc):
    e = {"ev": "add", "term": term, "id": d["id"], "obs": [fx(v) for v in np.array(d["observation"]).flatten()],
         "act": [fx(v) for v in np.array(d["action"]).flatten()], "rew": fx(d["reward"]), "x": d["x"], "exc": exc,
         "idl": [], "idsc": []}
    if "idl" in d:
        e["idl"] = d["idl"]["k"]
        e["idsc"] = [[i, fx(s, 4)] for i, s in zip(*d["idsc"]["s"])]
    return e


def rows_event(scn, how, f, **k):
    b, exc = attempt(f)
    e = {"ev": "rows", "how": how, "exc": exc, "rows": []}
    e.update(k)
    if not exc and len(b.indices):
        e["rows"] = project(scn, b)
    elif exc == "" and how == "all":
        e["rows"] = []
    return e


def make_buffer(c, cls=ReplayBuffer, **k):
    return cls(stack_size=c["stack"], replay_capacity=c["cap"], batch_size=c.get("bs", 3), update_horizon=c["n"],
               gamma=c["gn"] / 2 ** c["gs"], return_as_timeline_format=c["timeline"],
               return_everything_as_stack=c["evstack"], **k)


def run(scn):
    c = scn["c"]
    rng = np.random.RandomState(scn["seed"])
    rb = make_buffer(c)
    ev = []
    for i, term in enumerate(scn["terms"]):
        d = make_step(scn, rng, i + 1)
        _, exc = attempt(rb.add, terminal=term, **d)
        ev.append(add_event(scn, d, term, exc))
        if exc:
            break
        last = i == len(scn["terms"]) - 1
        if (last or i % scn["every"] == 0) and rb.size:
            ev.append(rows_event(scn, "all", rb.sample_all_valid_transitions))
            if last or rng.rand() < 0.3:
                cells = [r["cell"] for r in ev[-1]["rows"]]
                if cells:
                    asked = [int(v) for v in rng.choice(cells, size=rng.randint(1, 6))]
                    ev.append(rows_event(scn, "idx", lambda: rb.sample_transition_batch(batch_size=len(asked), indices=torch.tensor(asked)), asked=asked))
                ev.append(rows_event(scn, "batch", rb.sample_transition_batch, want=3))
                ev.append(rows_event(scn, "batch", lambda: rb.sample_transition_batch(5), want=5))
    return {"cfg": c, "ev": ev}
