"""P35: training rows queried from a logged table are exactly its sampled steps."""
import functools
import pickle
import random
import zlib

import warehouse as W
import learners
import torch
from reagent.parameters import NormalizationData, NormalizationKey, NormalizationParameters
from reagent.workflow import data_fetcher, identify_types_flow
from reagent.workflow.types import PreprocessingOptions, ReaderOptions, RewardOptions, TableSpec
from reagent.workflow.utils import PetastormLightningDataModule
from vf import attempt
from vf import fx as _fx
from vf import fxl as _fxl

UNIT = 8192
fx = functools.partial(_fx, scale=UNIT)
fxl = functools.partial(_fxl, scale=UNIT)
TRACE = "P35Trace"
GEN = [{"name": "gen", "module": "MC_Tables", "cfg": "Gen_Tables.cfg"}]
MC = [("MC_Tables", "MC_Tables.cfg")]
NEED = ["query", "identify", "feed"]
ASSUMPTIONS = ["tables are held in memory behind stand-ins for Spark and petastorm; SQL and column operations the stand-ins lack leave a scenario unjudged", "values are multiples of 1/8, discounts of 1/4",
               "on the exact edge of a sample an episode may fall to either side"]
ACTIONS = ["L", "R", "Up"]
GAMMA = [4, 2, 1, 3]


@functools.lru_cache(None)
def _solver():
    """episode names with a chosen fingerprint: the fingerprint is affine in a choice between two letters at each of 48 places"""
    n = 48
    zero = zlib.crc32(b"a" * n)
    cols = [zlib.crc32(b"a" * i + b"c" + b"a" * (n - 1 - i)) ^ zero for i in range(n)]
    basis = {}
    for i, v in enumerate(cols):
        mask = 1 << i
        for b in range(31, -1, -1):
            if not v >> b & 1:
                continue
            if b in basis:
                v ^= basis[b][0]
                mask ^= basis[b][1]
            else:
                basis[b] = (v, mask)
                break
    return n, zero, basis


def name_with(h):
    n, zero, basis = _solver()
    v, mask = h ^ zero, 0
    for b in range(31, -1, -1):
        if v >> b & 1:
            v ^= basis[b][0]
            mask ^= basis[b][1]
    s = "".join("c" if mask >> i & 1 else "a" for i in range(n))
    assert zlib.crc32(s.encode()) == h
    return s


def limbs(h):
    return [h >> 16, h & 65535]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for i, g in enumerate(gg[: 400 if q else len(gg)]):
        yield {"kind": "query", "lens": g["lens"], "multi": g["multi"], "disc": g["disc"], "share": g["share"], "other": g["other"], "edge": int(i % 2), "seed": rng.randint(0, 10 ** 6)}
    for i in range(12 if q else 100):
        yield {"kind": "many", "lens": [rng.randint(1, 3) for _ in range(60)], "multi": rng.choice([0, 2]), "disc": 1, "share": rng.choice([900, 500, 250, 100]), "other": 100 if i % 2 else -1, "edge": 0,
               "seed": rng.randint(0, 10 ** 6)}
    for i in range(30 if q else 400):
        yield {"kind": "identify", "lens": [rng.randint(3, 5) for _ in range(rng.choice([4, 5, 6, 7, 8]))], "multi": rng.choice([0, 2]), "disc": i % 2, "seed": rng.randint(0, 10 ** 6)}
    for i in range(40 if q else 600):
        yield {"kind": "feed", "lens": [rng.randint(1, 4) for _ in range(rng.randint(1, 3))], "multi": rng.choice([0, 0, 1, 2, 3]), "disc": i % 2, "norm": ["plain", "plain", "aligned", "mixed", "extra"][i // 2 % 5],
               "seed": rng.randint(0, 10 ** 6)}


def table(c, rng):
    """(logged rows as the platform holds them, the same rows for the specification)"""
    multi, disc = c["multi"], c["disc"]
    keep = c["kind"] in ("identify", "feed")
    ids = rng.sample(range(0, 12), rng.randint(1, 4))
    aids = rng.sample(range(20, 30), rng.randint(1, 2))
    mids = rng.sample([1, 2, 3], rng.randint(1, 2))
    val = lambda: rng.randint(-16, 16) / 8
    # features logged only at the start of an episode, or only past it
    early, late = (set(rng.sample(ids + aids, 1)) if len(ids) > 1 and not keep and rng.random() < 0.4 else set() for _ in "12")

    def fmap(keys, full=False, empty=False):
        if empty:
            return {}
        out = {k: (val() if full or keep or rng.random() < 0.93 else None) for k in keys if full or rng.random() < (0.8 if not keep else 1.0)}
        return dict(rng.sample(list(out.items()), len(out)))
    derived = c["kind"] in ("query", "many") and rng.random() < 0.35
    # a derived reward leaves the log free to hold more steps per row than are asked for
    logged = multi + rng.randint(0, 2) if multi and derived else multi
    rows, spec = [], []
    edges = [858993459, 1717986918, 2576980377, 3435973836, 0, 4294967295]
    rng.shuffle(edges)
    # the platform's own tables name steps of an episode by ordinals
    for e, n in enumerate(c["lens"]):
        mdp = name_with(edges[e]) if c.get("edge") and e < len(edges) and e % 2 == 0 else f"episode {rng.randint(0, 10 ** 9)}"
        h = limbs(zlib.crc32(mdp.encode()))
        last = rng.random() < 0.8  # else the log breaks off: every next step listed is a real one
        steps = [{"s": fmap(ids), "a": rng.choice(ACTIONS) if disc else fmap(aids, True), "r": val(), "m": {f"m{k}": v for k, v in fmap(mids).items()}, "td": rng.randint(1, 4),
                  "pa": rng.sample(ACTIONS, rng.randint(1, 3)) if disc else []} for _ in range(n + 1)]
        for i, x in enumerate(steps):
            for k in (late if i == 0 else early):
                x["s"].pop(k, None)
                if not disc and len(x["a"]) > 1:
                    x["a"].pop(k, None)
        if not last and not disc and not keep and rng.random() < 0.5:
            steps[n]["a"][30] = val()
        if last:
            steps[n].update(s=fmap(ids, empty=rng.random() < 0.5), a="" if disc else {}, pa=[])
        for i in range(n):
            span = min(logged or 1, n - i)
            nxt = steps[i + 1: i + 1 + span]
            now = steps[i: i + span]
            prob = rng.randint(1, 8) / 8
            lst = (lambda v: v) if multi else (lambda v: v[0])
            r = {"mdp_id": mdp, "sequence_number": 10 * i, "sequence_number_ordinal": i + 1, "ds": "2019-01-01", "action_probability": prob, "state_features": steps[i]["s"], "action": steps[i]["a"],
                 "reward": lst([x["r"] for x in now]), "metrics": lst([x["m"] for x in now]), "next_state_features": lst([x["s"] for x in nxt]), "next_action": lst([x["a"] for x in nxt]),
                 "time_diff": lst([x["td"] for x in nxt])}
            if disc:
                r["possible_actions"] = steps[i]["pa"]
                r["possible_next_actions"] = lst([x["pa"] for x in nxt])
            rows.append(r)
            m = lambda f: [{"k": int(str(k).lstrip("m")), "v": fx(v) if v is not None else 0, "p": int(v is not None)} for k, v in f.items()]
            act = (lambda a: a) if disc else m
            spec.append({"h": h, "seq": i + 1, "prob": fx(prob), "r": [fx(x["r"]) for x in now], "s": m(steps[i]["s"]), "ns": [m(x["s"]) for x in nxt], "m": [m(x["m"]) for x in now],
                         "a": act(steps[i]["a"]), "na": [act(x["a"]) for x in nxt], "td": [x["td"] for x in nxt], "pa": steps[i]["pa"], "pna": [x["pa"] for x in nxt]})
    both = list(zip(rows, spec))
    rng.shuffle(both)
    rows, spec = [b[0] for b in both], [b[1] for b in both]
    custom, sql = {"kind": "none", "a": 0, "b": 0}, None
    if derived:
        k = rng.choice(["size", "metric"] if multi else ["affine", "square", "positive", "metric"])
        a, b = rng.choice([0.5, 2.0, -1.0]), rng.choice([1.0, -0.25])
        mk = mids[0]
        custom = {"kind": k, "a": mk if k == "metric" else fx(a), "b": fx(b)}
        sql = {"affine": f"reward * {a} + {b}", "square": "POWER(reward, 2)", "positive": "CASE WHEN reward > 0 THEN reward END", "size": "SIZE(reward)",
               "metric": f"metrics[0]['m{mk}']" if multi else f"metrics['m{mk}']"}[k]
    cfg = {"disc": disc, "multi": multi, "gamma": 0, "actions": ACTIONS if disc else [], "custom": custom, "rows": spec, "norm": [], "anorm": []}
    return rows, cfg, sql


def pairs(vals, pres):
    return [[int(bool(p)), fx(v)] for v, p in zip(vals, pres)]


def read(c, ds):
    out = []
    for r in W.table_at(ds.parquet_url).rows:
        o = {"h": limbs(int(r["mdp_id"])), "seq": int(r["sequence_number"]), "reward": fx(r["reward"]), "s": pairs(r["state_features"], r["state_features_presence"]),
             "ns": pairs(r["next_state_features"], r["next_state_features_presence"]), "m": pairs(r["metrics"], r["metrics_presence"]), "step": int(r["step"]), "td": int(r["time_diff"]),
             "prob": fx(r["action_probability"]), "nt": int(r["not_terminal"])}
        if c["disc"]:
            o.update(a=int(r["action"]), na=int(r["next_action"]), pa=[int(x) for x in r["possible_actions_mask"]], pna=[int(x) for x in r["possible_next_actions_mask"]])
        else:
            o.update(a=pairs(r["action"], r["action_presence"]), na=pairs(r["next_action"], r["next_action_presence"]), pa=[], pna=[])
        out.append(o)
    return out


def ask(c, g, sql, rng=None):
    return data_fetcher.query_data(TableSpec(table_name="logged"), discrete_action=bool(c["disc"]), actions=list(ACTIONS) if c["disc"] else None, include_possible_actions=bool(c["disc"]),
                                   custom_reward_expression=sql, sample_range=rng, multi_steps=c["multi"] or None, gamma=g if c["multi"] else None)


def guarded(f):
    v, exc = attempt(f)
    if exc == "Unsupported":
        raise W.Unsupported()
    return v, exc


def run(c):
    W.clear()
    try:
        return {"query": run_query, "many": run_query, "identify": run_identify, "feed": run_feed}[c["kind"]](c, random.Random(c["seed"]))
    except W.Unsupported:
        return {"cfg": {"rows": []}, "ev": [{"ev": "none"}]}


def run_query(c, rng):
    rows, cfg, sql = table(c, rng)
    g = rng.choice(GAMMA) / 4
    cfg["gamma"] = fx(g)
    asks = [(0, c["share"], 0)]
    if c["other"] >= 0:
        asks.append((1000 - c["other"], 1000, 1))
    if rng.random() < 0.3:
        lo = rng.randint(0, 900)
        asks.append((lo, rng.randint(lo, 1000), 2))
    if c["other"] < 0 and rng.random() < 0.2:
        asks.append((-1, -1, 2))  # no sampling
    if rng.random() < 0.1:
        asks.append((rng.choice([(700, 600), (0, 1100), (-100, 500)]) + (3,)))
    ev = []
    for lo, hi, role in asks:
        W.put("logged", rows)
        before = {k: v for k, v in W.TABLES.items() if k != "logged" and not k.startswith("_tmp")}
        olds = {k: repr(v.rows) for k, v in before.items()}
        ds, exc = guarded(lambda: ask(c, g, sql, None if lo == -1 else (lo / 10, hi / 10)))
        e = {"ev": "query", "lo": 0 if lo == -1 else max(lo, 0), "hi": 1000 if lo == -1 else hi, "role": role, "bad": int(role == 3), "exc": exc, "rows": [], "fresh": 1}
        if role == 3:
            e["lo"], e["hi"] = 0, 0
        if ds is not None and role != 3:
            e["rows"] = read(c, ds)
            e["fresh"] = int(all(repr(W.TABLES[k].rows) == v for k, v in olds.items()))
        ev.append(e)
    return {"cfg": cfg, "ev": ev}


def run_identify(c, rng):
    rows, cfg, _ = table(c, rng)
    W.put("logged", rows)
    ev = []
    for col, key in (("s", "state_features"), ("a", "action")):
        if col == "a" and c["disc"]:
            continue
        feats = sorted({k for r in rows for k in r[key]})
        white = []
        if rng.random() < 0.6:
            white = rng.sample(feats, rng.randint(1, len(feats))) + ([77] if rng.random() < 0.25 else [])
        cover = rng.random() < 0.7
        n = len(rows) + int(rng.random() < 0.15)
        opts = PreprocessingOptions(num_samples=n, skip_box_cox=True, skip_quantiles=True, feature_overrides={f: "CONTINUOUS" for f in feats}, whitelist_features=white or None, assert_whitelist_feature_coverage=cover)
        got, exc = guarded(lambda: identify_types_flow.identify_normalization_parameters(TableSpec(table_name="logged"), key, opts, seed=rng.randint(0, 99)))
        e = {"ev": "identify", "col": col, "white": white, "cover": int(cover), "n": n, "all": 1, "exc": exc, "out": []}
        if got is not None:
            e["out"] = [{"f": f, "type": p.feature_type, "mean": fx(p.mean), "lo": fx(p.min_value), "hi": fx(p.max_value)} for f, p in got.items()]
        ev.append(e)
    return {"cfg": cfg, "ev": ev}


def norms(rng, feats, how):
    out = []
    for i, f in enumerate(feats):
        kind = "CONTINUOUS"
        if how == "aligned" and i < len(feats) // 2:
            kind = "BINARY"
        if how == "mixed" and i >= (len(feats) + 1) // 2:
            kind = "BINARY"
        inv = rng.choice([0.5, 1.0, 2.0])
        out.append({"f": f, "type": kind, "mean": rng.randint(-4, 4) / 8, "inv": inv})
    return out


def params(ns):
    return NormalizationData(dense_normalization_parameters={n["f"]: NormalizationParameters(feature_type=n["type"], mean=n["mean"], stddev=1 / n["inv"], min_value=-2.0, max_value=2.0) for n in ns})


def run_feed(c, rng):
    rows, cfg, _ = table(c, rng)
    feats = sorted({k for r in rows for f in [r["state_features"]] + (r["next_state_features"] if c["multi"] else [r["next_state_features"]]) for k in f})
    if c["norm"] in ("mixed", "extra") and len(feats) < 2:
        c = {**c, "norm": "plain"}
    ns = norms(rng, feats, c["norm"])
    if c["norm"] == "extra":
        ns.pop(rng.randrange(len(ns)))
    afeats = [] if c["disc"] else sorted({k for r in rows for f in [r["action"]] + (r["next_action"] if c["multi"] else [r["next_action"]]) for k in f})
    an = norms(rng, afeats, "plain")
    g = rng.choice(GAMMA) / 4
    cfg.update(gamma=fx(g), norm=[{**n, "mean": fx(n["mean"]), "inv": fx(n["inv"])} for n in ns], anorm=[{**n, "mean": fx(n["mean"]), "inv": fx(n["inv"])} for n in an])
    W.put("logged", rows)
    b = rng.randint(1, 4)
    ds, exc = guarded(lambda: ask(c, g, None))
    if ds is None:
        return {"cfg": cfg, "ev": [{"ev": "none"}]}
    src = [{"h": o["h"], "seq": o["seq"]} for o in read(c, ds)]
    nd = {NormalizationKey.STATE: params(ns), NormalizationKey.ACTION: params(an) if an else learners.norm(1, base=20)}

    def feed():
        o = learners.options(random.Random(1), "dqn" if c["disc"] else rng.choice(["td3", "sac"]))
        o.update(heads=False, metrics=0, actions=list(ACTIONS))
        kind = "dqn" if c["disc"] else "td3"
        m = learners.manager(kind, o)
        m.initialize_trainer(use_gpu=False, reward_options=RewardOptions(), normalization_data_map=nd)
        ro = ReaderOptions(minibatch_size=b)
        if c["disc"]:
            dm = m.get_data_module(setup_data={"normalization_data_map": pickle.dumps(nd), "train_dataset": pickle.dumps(ds), "eval_dataset": pickle.dumps(ds)}, reader_options=ro)
            dm.setup()
        else:
            dm = PetastormLightningDataModule(ds, ds, m.build_batch_preprocessor(), ro)
        return list(dm.train_dataloader() if rng.random() < 0.5 else dm.test_dataloader())
    bs, exc = guarded(feed)
    e = {"ev": "feed", "b": b, "src": src, "exc": exc, "sizes": [], "out": []}
    for x in bs or []:
        e["sizes"].append(len(x.reward))
        act = (lambda v: v) if c["disc"] else (lambda v: v.float_features)
        for i in range(len(x.reward)):
            e["out"].append({"s": fxl(x.state.float_features[i]), "ns": fxl(x.next_state.float_features[i]), "r": fx(x.reward[i].item()), "a": fxl(act(x.action)[i].float()), "na": fxl(act(x.next_action)[i].float())})
    return {"cfg": cfg, "ev": [e]}
