"""P24: sparse feature maps to dense columns, identifier mapping, batch transforms and batch preprocessors."""
import copy
import random

import numpy as np
import torch

import reagent.types as rlt
from reagent.parameters import NormalizationData, NormalizationParameters
from reagent.preprocessing import normalization, transforms
from reagent.preprocessing.batch_preprocessor import DiscreteDqnBatchPreprocessor, ParametricDqnBatchPreprocessor, PolicyNetworkBatchPreprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.preprocessing.sparse_to_dense import PythonSparseToDenseProcessor, StringKeySparseToDenseProcessor
from vf import attempt, fx, fxl

TRACE = "P24Trace"
MC = [("MC_Features", "MC_Features.cfg")]
MC_THOROUGH = [("MC_Features", "MC_Features_deep.cfg")]
GEN = [{"name": "rows", "module": "MC_Features", "cfg": "Gen_Features_rows.cfg"}, {"name": "seqs", "module": "MC_Features", "cfg": "Gen_Features_seqs.cfg"}]
NEED = ["dense", "config", "batch", "inputs"]
ASSUMPTIONS = ["numeric features are left unscaled (DO_NOT_PREPROCESS): scaling is P25", "a fixed-length sequence has at least one element", "possible_actions of parametric batches are not judged"]
UNIT = 8192
MISSING = normalization.MISSING_VALUE


# ---------------------------------------------------------------- scenarios
def scenarios(tier, rng, gens):
    q = tier == "quick"
    rows = gens["rows"]
    for r in (rng.sample(rows, min(150, len(rows))) if q else rows):
        yield {"kind": "dense", "order": r["order"], "zero": r["zero"], "strings": rng.random() < 0.5, "batches": [[[[k, v] for k, v in row] for row in r["rows"]]]}
    for i in range(120 if q else 2000):
        fs = rng.sample(range(0, 30), rng.randint(1, 6))
        known = rng.sample(fs, rng.randint(1, len(fs)))
        def row():
            return [[f, rng.choice([0.0, 1.0, -2.5, 3.0, MISSING, "nan", rng.randint(-800, 800) / 8])] for f in rng.sample(fs, rng.randint(0, len(fs)))]
        yield {"kind": "dense", "order": known, "zero": rng.random() < 0.4, "strings": rng.random() < 0.4, "batches": [[row() for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 3))]}
    for s in gens["seqs"]:
        yield {"kind": "pipe", "feats": [], "tables": {}, "ops": [{"op": rng.choice(["fixed", "fixednormal"]), "keys": ["a"], "to": ["a:1"], "sid": 1, "len": s["len"]}],
               "batches": [{"a": {"t": "s", "s": {"1": mat(rng, sum(b["lens"]), 2, o=b["o"])}}} for b in s["batches"]], "seed": rng.randint(0, 10 ** 6)}
    for i in range(60 if q else 400):
        feats, tables = config(rng, bad=0.5)
        yield {"kind": "config", "feats": feats, "tables": tables}
    for i in range(300 if q else 6000):
        yield pipe(random.Random(rng.random()))
    for i in range(60 if q else 800):
        yield inputs(rng)


def config(rng, bad=0.0):
    tables = {n: rng.sample(range(100), rng.randint(1, 5)) for n in ["T1", "T2", "T3"][: rng.randint(1, 3)]}
    n = rng.randint(1, 4)
    ids, names = rng.sample(range(50), n), rng.sample(["w", "x", "y", "z", "u"], n)
    if n > 1 and rng.random() < bad:
        dup = ids if rng.random() < 0.5 else names
        dup[-1] = dup[0]
    return [{"id": ids[i], "name": names[i], "table": rng.choice(sorted(tables)), "scored": rng.random() < 0.4} for i in range(n)], tables


def num(rng):
    return rng.randint(-24, 24) / 8


def mat(rng, n, d, o=None, sparse=True):
    m = {"v": [[num(rng) for _ in range(d)] for _ in range(n)], "p": [[int(rng.random() < 0.7) if sparse else 1 for _ in range(d)] for _ in range(n)]}
    if o is not None:
        m["o"] = o
    return m


def pipe(rng):
    """a pipeline of transforms that fits the kinds of its keys, and a few batches for it; now and then malformed"""
    feats, tables = config(rng) if rng.random() < 0.9 else ([], {"T1": [1]})
    B0 = rng.randint(1, 4)
    keys, ops, make = {}, [], {}
    names = rng.sample(["a", "b", "c", "d", "e", "f"], rng.randint(1, 5))
    for k in names:
        kind = rng.choice(["raw", "raw", "p", "act", "vec", "seq", "seq", "flat", "list", "ids", "ids", "list_v"])
        d = rng.randint(1, 3)
        n = rng.randint(1, 4)
        keys[k] = kind
        trans = []
        if kind == "raw":
            trans = [{"op": "pair", "keys": [k]}] + rng.choice([[], [{"op": "mask", "keys": [k]}], [{"op": "normal", "keys": [k], "d": d}], [{"op": "column", "keys": [k]}]])
            if trans[-1]["op"] == "column":
                d = 1 if rng.random() < 0.85 else 2
        elif kind == "p":
            trans = rng.choice([[{"op": "mask", "keys": [k]}], [{"op": "normal", "keys": [k], "d": d}], []])
        elif kind == "act":
            trans = [{"op": "onehot", "keys": [k], "n": n}]
        elif kind == "vec":
            trans = [{"op": "column", "keys": [k]}]
        elif kind == "list_v":
            trans = [{"op": "column", "keys": [k]}]
        elif kind == "seq":
            sid = rng.randint(1, 3)
            ln = rng.choice([0, 0, n])
            if rng.random() < 0.5:
                trans = [{"op": "fixed", "keys": [k], "to": [rng.choice([k, k + "_out"])], "sid": sid, "len": ln}]
                if rng.random() < 0.7:
                    trans.append({"op": rng.choice(["mask", "normal"]), "keys": [trans[0]["to"][0]], "d": d})
                    if rng.random() < 0.7:
                        trans.append({"op": "slate", "keys": [trans[0]["to"][0]], "n": n})
            else:
                trans = [{"op": "fixednormal", "keys": [k], "to": [f"{k}:{sid}"], "sid": sid, "len": ln, "d": d}]
        elif kind == "flat":
            trans = [{"op": "slate", "keys": [k], "n": n}]
            if rng.random() < 0.5:
                trans.insert(0, {"op": "double", "keys": [k]})
        elif kind == "list":
            trans = [{"op": "stack", "keys": [k], "n": n}]
        elif kind == "ids":
            trans = [{"op": "ids", "keys": [k], "scored": rng.random() < 0.4}]
        make[k] = (kind, d, n, trans[0] if trans else {})
        ops.append(trans)
    # interleave, each key's own order kept; some neighbours of one kind share one transform
    order, ops = [], [o for o in ops if o]
    while ops:
        i = rng.randrange(len(ops))
        order.append(ops[i].pop(0))
        ops = [o for o in ops if o]
    merged = []
    for o in order:
        if merged and o["op"] in ("pair", "mask", "column", "double") and merged[-1]["op"] == o["op"]:
            merged[-1]["keys"].append(o["keys"][0])
        else:
            merged.append(o)
    if any(o["op"] == "pair" for o in merged):
        first = [o for o in merged if o["op"] == "pair"]
        ks = [k for o in first for k in o["keys"]]
        for o in first:
            o["keys"] = ks            # it looks for every key with a presence
        merged = [first[0]] + [o for o in merged if o["op"] != "pair"]
    batches = []
    for _ in range(rng.randint(1, 3)):
        B = rng.choice([B0, rng.randint(1, 4)])
        batches.append(batch(rng, make, B, feats, tables))
    for o in merged:
        o.setdefault("len", 0)
    return {"kind": "pipe", "feats": feats, "tables": tables, "ops": merged, "batches": batches, "seed": rng.randint(0, 10 ** 6)}


def batch(rng, make, B, feats, tables):
    out = {"extra": {"t": "m", "v": [[num(rng)] for _ in range(B)]}}
    for k, (kind, d, n, op) in make.items():
        m = mat(rng, B, d)
        if kind == "raw":
            out[k] = {"t": "m", "v": m["v"]}
            out[k + "_presence"] = {"t": "m", "v": m["p"]}
        elif kind == "p":
            if rng.random() < 0.06:
                m["p"] = m["p"] + [m["p"][0]]
            out[k] = dict(m, t="p")
            if len(m["p"]) != len(m["v"]) and op.get("op") != "mask":
                m["p"].pop()
        elif kind == "act":
            out[k] = {"t": "v", "v": [rng.randint(0, n + (1 if rng.random() < 0.05 else 0)) for _ in range(B)]}
        elif kind == "vec":
            w = 1 if rng.random() < 0.9 else 2
            out[k] = {"t": "v", "v": [num(rng) for _ in range(B)]} if rng.random() < 0.6 else {"t": "m", "v": mat(rng, B, w)["v"]}
        elif kind == "list_v":
            out[k] = {"t": "v", "v": [rng.randint(0, 50) for _ in range(B)], "list": True}
        elif kind == "seq":
            lens = [n] * B
            if rng.random() < 0.08:
                lens[rng.randrange(B)] = rng.randint(1, 4)
            if rng.random() < 0.1:
                lens = [rng.randint(1, 4)] * B
            o = [sum(lens[:i]) for i in range(B)]
            s = {str(op["sid"]): mat(rng, sum(lens), d, o=o)}
            other = 1 + op["sid"] % 3
            if rng.random() < 0.5:
                s[str(other)] = mat(rng, B, d, o=list(range(B)))
            out[k] = {"t": "s", "s": s}
        elif kind == "flat":
            rows = B * n + (1 if rng.random() < 0.06 else 0)
            out[k] = {"t": "m", "v": mat(rng, rows, d)["v"]}
        elif kind == "list":
            if rng.random() < 0.3:
                out[k] = {"t": "m", "v": mat(rng, B, n if rng.random() < 0.9 else n + 1)["v"]}
            else:
                mm = mat(rng, B, n)
                out[k] = {"t": "l", "v": mm["v"], "p": mm["p"]}
        elif kind == "ids":
            if rng.random() < 0.1:
                continue
            raw = []
            pool = [f for f in feats]
            ids = [f["id"] for f in rng.sample(pool, rng.randint(0, len(pool)))] + ([77] if rng.random() < 0.4 else [])
            rng.shuffle(ids)
            for fid in ids:
                lens = [rng.randint(0, 3) for _ in range(B)]
                f = next((f for f in feats if f["id"] == fid), None)
                table = tables[f["table"]] if f else [3, 1000]
                vals = [rng.choice(table) if rng.random() < 0.99 else 101 for _ in range(sum(lens))]
                raw.append({"id": fid, "o": [sum(lens[:i]) for i in range(B)], "k": vals, "w": [num(rng) for _ in vals] if op["scored"] else []})
            out[k] = {"t": "i", "v": raw}
    return out


def inputs(rng):
    B, S, n = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 4)
    algo = rng.choice(["discrete", "parametric", "policy"])
    col = lambda f: [f() for _ in range(B)]
    st, nx = mat(rng, B, S), mat(rng, B, S)
    d = {"state": st["v"], "sp": st["p"], "next": nx["v"], "np": nx["p"],
         "col": {"reward": col(lambda: num(rng)), "time_diff": col(lambda: rng.randint(1, 5)), "step": col(lambda: rng.randint(1, 3)), "mdp_id": col(lambda: rng.randint(0, 99)),
                 "sequence_number": col(lambda: rng.randint(0, 99)), "action_probability": col(lambda: rng.randint(1, 8) / 8)},
         "pa": [[rng.randint(0, 1) for _ in range(n)] for _ in range(B)], "pn": [[int(rng.random() < 0.4) for _ in range(n)] for _ in range(B)]}
    if algo == "discrete":
        d.update(a=col(lambda: rng.randrange(n)), na=col(lambda: rng.randint(0, n)))
    else:
        a, na = mat(rng, B, 2), mat(rng, B, 2)
        d.update(a=a["v"], ap=a["p"], na=na["v"], nap=na["p"], nt=col(lambda: rng.randint(0, 1)))
    return {"kind": "inputs", "algo": algo, "n": n, "S": S, "d": d, "twice": rng.random() < 0.3}


# ---------------------------------------------------------------- runs
def run(scn):
    return {"dense": run_dense, "config": run_config, "pipe": run_pipe, "inputs": run_inputs}[scn["kind"]](scn)


def run_dense(scn):
    proc = (StringKeySparseToDenseProcessor if scn["strings"] else PythonSparseToDenseProcessor)(list(scn["order"]), set_missing_value_to_zero=scn["zero"])
    ev = []
    for rows in scn["batches"]:
        give = [{(str(f) if scn["strings"] else f): (float("nan") if v == "nan" else v) for f, v in row} for row in rows]
        out, exc = attempt(lambda: proc(give))
        e = {"ev": "dense", "exc": exc, "rows": [[{"f": f, "v": fx(v, UNIT)} for f, v in row if v != "nan"] for row in rows], "v": [], "p": []}
        if not exc:
            e["v"], e["p"] = fxl(out[0], UNIT), [[int(x) for x in r] for r in out[1].tolist()]
        ev.append(e)
    return {"cfg": {"kind": "dense", "order": scn["order"], "zero": scn["zero"], "missing": fx(MISSING, UNIT), "fill": 0 if scn["zero"] else fx(MISSING, UNIT)}, "ev": ev}


def feature_config(feats, tables):
    return rlt.ModelFeatureConfig(
        id_mapping_config={n: rlt.IdMapping(ids=t) for n, t in tables.items()},
        id_list_feature_configs=[rlt.IdListFeatureConfig(name=f["name"], feature_id=f["id"], id_mapping_name=f["table"]) for f in feats if not f["scored"]],
        id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name=f["name"], feature_id=f["id"], id_mapping_name=f["table"]) for f in feats if f["scored"]])


def run_config(scn):
    cfg, exc = attempt(feature_config, scn["feats"], scn["tables"])
    e = {"ev": "config", "exc": exc, "names": [], "ids": [], "maps": []}
    if not exc:
        for f in scn["feats"]:
            e["names"].append(cfg.id2name[f["id"]])
            e["ids"].append(cfg.name2id[f["name"]])
            e["maps"].append(cfg.name2config[f["name"]].id_mapping_name if cfg.id2config[f["id"]].name == f["name"] else "?")
    return {"cfg": {"kind": "config", "feats": scn["feats"]}, "ev": [e]}


def norm(d):
    return NormalizationData(dense_normalization_parameters={i: NormalizationParameters(feature_type="DO_NOT_PREPROCESS") for i in range(d)})


def build(scn, op, width):
    o, keys = op["op"], list(op["keys"])
    if o == "pair":
        return transforms.ValuePresence()
    if o == "double":
        return transforms.Lambda(keys, lambda x: x * 2)
    if o == "mask":
        return transforms.MaskByPresence(keys)
    if o == "column":
        return transforms.ColumnVector(keys)
    if o == "onehot":
        return transforms.OneHotActions(keys, op["n"])
    if o == "normal":
        return transforms.DenseNormalization(keys, norm(op["d"]))
    if o == "slate":
        return transforms.SlateView(keys, op["n"])
    if o == "stack":
        return transforms.StackDenseFixedSizeArray(keys, op["n"])
    if o == "fixed":
        to = None if op["to"] == keys else list(op["to"])
        return transforms.FixedLengthSequences(keys, op["sid"], expected_length=op["len"] or None, to_keys=to)
    if o == "fixednormal":
        return transforms.FixedLengthSequenceDenseNormalization(keys, op["sid"], norm(op.get("d", 2)), expected_length=op["len"] or None)
    return transforms.MapIDListFeatures([] if op["scored"] else keys, keys if op["scored"] else [], feature_config(scn["feats"], scn["tables"]), torch.device("cpu"))


def tens(m, ints=False):
    return torch.tensor(m, dtype=torch.long if ints else torch.float)


def give(x, op):
    t = x["t"]
    if t == "m":
        return tens(x["v"]) if x["v"] and any(isinstance(c, float) for r in x["v"] for c in r) else torch.tensor(x["v"], dtype=torch.uint8)
    if t == "v":
        return list(x["v"]) if x.get("list") else torch.tensor(x["v"])
    if t == "p":
        return tens(x["v"]), torch.tensor(x["p"], dtype=torch.uint8)
    if t == "s":
        return {int(s): (tens(q["o"], True), (tens(q["v"]), torch.tensor(q["p"], dtype=torch.uint8))) for s, q in x["s"].items()}
    if t == "l":
        return [(tens(v), torch.tensor(p, dtype=torch.uint8)) for v, p in zip(x["v"], x["p"])]
    out = {}
    for f in x["v"]:
        o, k, w = tens(f["o"], True), tens(f["k"], True), tens(f["w"])
        out[f["id"]] = (o, k, w) if op["scored"] else (o, k)
    return out


def num_of(x):
    if isinstance(x, np.ndarray):
        x = torch.from_numpy(x)
    return fxl(x, UNIT) if x.is_floating_point() else [[int(c) for c in r] for r in x.tolist()] if x.ndim == 2 else [int(c) for c in x.tolist()]


def look(x):
    if x is None:
        return {"t": "n"}
    if isinstance(x, (torch.Tensor, np.ndarray)):
        return {"t": "vmc"[x.ndim - 1], "v": num_of(x)}
    if isinstance(x, tuple):
        return {"t": "p", "v": num_of(x[0]), "p": num_of(x[1])}
    if isinstance(x, list):
        if x and not isinstance(x[0], tuple):
            return {"t": "v", "v": [int(v) for v in x]}
        return {"t": "l", "v": [num_of(v) for v, _ in x], "p": [num_of(p) for _, p in x]}
    if any(isinstance(k, int) for k in x):
        if isinstance(next(iter(x.values()))[1], tuple):
            return {"t": "s", "s": {str(s): {"o": num_of(o), "v": num_of(v), "p": num_of(p)} for s, (o, (v, p)) in x.items()}}
        return {"t": "i", "v": [{"id": k, "o": num_of(f[0]), "k": num_of(f[1]), "w": num_of(f[2]) if len(f) > 2 else []} for k, f in x.items()]}
    return {"t": "j", "v": [{"name": k, "o": num_of(f[0]), "k": num_of(f[1]), "w": num_of(f[2]) if len(f) > 2 else []} for k, f in x.items()]}


def run_pipe(scn):
    chain = transforms.Compose(*[build(scn, op, 0) for op in scn["ops"]])
    by_key = {k: op for op in scn["ops"] for k in op["keys"]}
    ev = []
    for b in scn["batches"]:
        data = {k: give(x, by_key.get(k, {})) for k, x in b.items()}
        before = {k: look(x) if not (b[k]["t"] == "i") else {"t": "i", "v": [dict(f, w=fxl(f["w"], UNIT)) for f in b[k]["v"]]} for k, x in data.items()}
        out, exc = attempt(chain, data)
        ev.append({"ev": "batch", "exc": exc, "d": before, "out": {} if exc else {k: look(x) for k, x in out.items()}})
        if exc:
            break
    return {"cfg": {"kind": "pipe", "feats": scn["feats"], "tables": scn["tables"], "ops": [dict(o, sid=str(o["sid"])) if "sid" in o else o for o in scn["ops"]]}, "ev": ev}


def run_inputs(scn):
    d, n = scn["d"], scn["n"]
    pre = lambda k: Preprocessor(norm(k).dense_normalization_parameters, device=torch.device("cpu"))
    if scn["algo"] == "discrete":
        bp = DiscreteDqnBatchPreprocessor(n, pre(scn["S"]), False)
    else:
        bp = (ParametricDqnBatchPreprocessor if scn["algo"] == "parametric" else PolicyNetworkBatchPreprocessor)(pre(scn["S"]), pre(2), False)
    u8 = lambda m: torch.tensor(m, dtype=torch.uint8)
    b = {"state_features": tens(d["state"]), "state_features_presence": u8(d["sp"]), "next_state_features": tens(d["next"]), "next_state_features_presence": u8(d["np"])}
    b.update({k: tens(v) if k in ("reward", "action_probability") else tens(v, True) for k, v in d["col"].items()})
    if scn["algo"] != "policy":
        b.update(possible_actions_mask=u8(d["pa"]), possible_next_actions_mask=u8(d["pn"]))
    if scn["algo"] == "discrete":
        b.update(action=tens(d["a"], True), next_action=tens(d["na"], True))
    else:
        b.update(action=tens(d["a"]), action_presence=u8(d["ap"]), next_action=tens(d["na"]), next_action_presence=u8(d["nap"]), not_terminal=tens(d["nt"], True))
    if scn["algo"] == "parametric":
        b.update(possible_actions=torch.zeros(len(d["a"]) * n, 2), possible_next_actions=torch.zeros(len(d["a"]) * n, 2))
    e = {"ev": "inputs", "inp": {k: (num_of(torch.tensor(v)) if k not in ("col",) else {c: num_of(torch.tensor(x)) for c, x in v.items()}) for k, v in d.items()}}
    ev = []
    for _ in range(2 if scn["twice"] else 1):
        out, exc = attempt(lambda: bp(b))
        r = dict(e, exc=exc, out={})
        if not exc:
            flt = lambda t: fxl(t, UNIT)
            whole = lambda t: [[int(c) for c in row] for row in t.tolist()]
            act = (lambda a: whole(a)) if scn["algo"] == "discrete" else (lambda a: flt(a.float_features))
            r["out"] = {"state": flt(out.state.float_features), "next": flt(out.next_state.float_features), "a": act(out.action), "na": act(out.next_action), "nt": whole(out.not_terminal),
                        "col": {"reward": num_of(out.reward), "time_diff": num_of(out.time_diff), "step": num_of(out.step), "mdp_id": num_of(out.extras.mdp_id),
                                "sequence_number": num_of(out.extras.sequence_number), "action_probability": num_of(out.extras.action_probability)}}
            if scn["algo"] != "policy":
                r["out"].update(pa=whole(out.possible_actions_mask), pn=whole(out.possible_next_actions_mask))
        ev.append(r)
    return {"cfg": {"kind": "inputs", "algo": scn["algo"], "n": n}, "ev": ev}
