"""P30: a workflow publishes the model it trained and validated, and lookups find just that one."""
import collections
import dataclasses
import functools
import os
import random
import shutil
import tempfile
import time
import zlib

import warehouse as W
import learners
import p35
import pytorch_lightning as pl
import reagent.types as rlt
import torch
from reagent.core.result_types import NoPublishingResults, NoValidationResults
from reagent.models.model_feature_config_provider import RawModelFeatureConfigProvider
from reagent.parameters import NormalizationData, NormalizationKey
from reagent.publishers.file_system_publisher import FileSystemPublisher
from reagent.publishers.no_publishing import NoPublishing
from reagent.tensorboardX import SummaryWriterContext
from reagent.validators.no_validation import NoValidation
from reagent.workflow import training
from reagent.workflow.types import (ModelFeatureConfigProvider__Union, PreprocessingOptions, ReaderOptions, RewardOptions, RLTrainingOutput, TableSpec, ValidationResult__Union)
from vf import attempt
from vf import fx as _fx
from vf import fxl as _fxl

UNIT = 8192
fx = functools.partial(_fx, scale=UNIT)
fxl = functools.partial(_fxl, scale=UNIT)
TRACE = "P30Trace"
GEN = [{"name": "ops", "module": "MC_Publish", "cfg": "Gen_Publish.cfg"}, {"name": "work", "module": "MC_Publish", "cfg": "Gen_Workflow.cfg"}]
MC = [("MC_Publish", "MC_Publish.cfg")]
MC_THOROUGH = [("MC_Publish", "MC_Publish_deep.cfg")]
NEED = ["pub", "get", "read", "fit", "validate", "publish", "done"]
ASSUMPTIONS = ["tables are held in memory behind stand-ins for Spark and petastorm", "validators and publishers beyond the project's own are stand-ins with the same interface",
               "a publication of several modules that is refused midway may have replaced some of them"]
LIMIT = 300
U = collections.namedtuple("U", "value")
MODULES = ["default_model", "dqn", "actor_dqn", "x", "y"]
FAMILY = {"dqn": "module", "c51": "module", "qrdqn": "module", "crr": "module", "td3": "query", "sac": "query"}


def scenarios(tier, rng, gens):
    q = tier == "quick"
    ops = gens["ops"]
    rng.shuffle(ops)
    for i, g in enumerate(ops[: 250 if q else 4000]):
        yield {"kind": "store", "ops": g["ops"], "twin": i % 2, "seed": rng.randint(0, 10 ** 6)}
    for i in range(100 if q else 1500):
        o = []
        for _ in range(rng.randint(4, 14)):
            x = rng.random()
            if x < 0.4:
                ms = rng.sample([1, 2, 3], rng.choice([1, 1, 2, 3]))
                o.append({"op": "pub", "m": rng.randint(1, 3), "outs": [[a, rng.randint(1, 4)] for a in ms], "by": rng.randint(1, 2)})
            elif x < 0.55:
                o.append({"op": "turn", "f": rng.randint(1, 4)})
            elif x < 0.62:
                o.append({"op": "reopen", "by": rng.randint(1, 2)})
            else:
                o.append({"op": "get", "m": rng.randint(1, 3), "f": rng.randint(1, 3), "by": rng.randint(1, 2)})
        yield {"kind": "store", "ops": o, "twin": i % 2, "seed": rng.randint(0, 10 ** 6)}
    bad = lambda w: w["cpe"] and (min(w["share"], w["other"]) < 0 or w["share"] + w["other"] > 1000)
    pools = [[w for w in gens["work"] if cond(w)] for cond in (lambda w: not w["cpe"], lambda w: w["cpe"] and not bad(w), lambda w: bad(w) and w["give"] not in (3, 5))]
    whole = [w for w in pools[0] if w["share"] < 0 and w["give"] in (0, 1)]  # no share given: all of the table
    works = [rng.choice(whole if i // len(FAMILY) % 7 == 3 else pools[i // len(FAMILY) % 3]) for i in range(126 if q else 1800)]
    kinds = sorted(FAMILY)
    for i, w in enumerate(works):
        kind = kinds[i % len(kinds)]
        runs = [{"kind": kind, "w": w, "opt": 1}]
        if rng.random() < 0.5:
            runs.append({"kind": rng.choice([kind, rng.choice(kinds)]), "w": {**w, "pub": 2, "valid": rng.choice([0, 1, 2])}, "opt": rng.randint(1, 2)})
        yield {"kind": "work", "runs": runs, "seed": rng.randint(0, 10 ** 6)}


def run(c):
    W.clear()
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="p30")
    clock = time.time
    try:
        os.chdir(d)
        # a coarse clock: any two trainings may finish within its resolution
        time.time = lambda: clock() // 3600 * 3600
        return (run_store if c["kind"] == "store" else run_work)(c, random.Random(c["seed"]))
    except W.Unsupported:
        return {"cfg": {"files": [], "rows": [], "s0": [0]}, "ev": [{"ev": "none"}]}
    finally:
        time.time = clock
        os.chdir(here)
        shutil.rmtree(d)


def model(kind, opt, actions=None):
    o = learners.options(random.Random(opt), kind)
    o.update(heads=False, metrics=0, lr=opt)
    if actions:
        o["actions"] = actions
    return o


def run_store(c, rng):
    kinds = [rng.choice(learners.KINDS) for _ in "123"]
    opts = [model(k, 1) for k in kinds]
    kinds[2], opts[2] = kinds[0], dict(opts[0], lr=opts[0]["lr"] * 2) if c["twin"] else dict(opts[0])
    if not c["twin"]:  # the third is built separately from equal settings: it is the first
        same = {1: 1, 2: 2, 3: 1}
    else:
        same = {1: 1, 2: 2, 3: 3}
    if kinds[1] == kinds[0]:
        opts[1] = dict(opts[0], lr=opts[0]["lr"] * 4)
    ms = [learners.manager(k, o) for k, o in zip(kinds, opts)]
    for f in range(1, 5):
        open(f"f{f}", "w").close()
    have = set(range(1, 5))
    pubs = {}

    def pub(by, fresh=False):
        if by not in pubs or fresh:
            pubs[by] = FileSystemPublisher(publishing_file="store")
        return pubs[by]
    ev = []
    for o in c["ops"]:
        if o["op"] == "turn":
            if o["f"] in have:
                os.remove(f"f{o['f']}")
            else:
                open(f"f{o['f']}", "w").close()
            have ^= {o["f"]}
            ev.append({"ev": "turn", "f": o["f"]})
        elif o["op"] == "reopen":
            pub(o["by"], True)
            ev.append({"ev": "reopen"})
        elif o["op"] == "pub":
            out = RLTrainingOutput(output_paths={MODULES[a - 1]: f"f{f}" for a, f in o["outs"]})
            r, exc = attempt(lambda: pub(o["by"]).publish(ms[o["m"] - 1], out, {}, 1, None))
            ev.append({"ev": "pub", "m": same[o["m"]], "outs": o["outs"], "exc": exc, "ok": int(exc == "" and bool(r.value.success))})
        else:
            p, exc = attempt(lambda: pub(o["by"]).get_latest_published_model(ms[o["m"] - 1], MODULES[o["f"] - 1]))
            ev.append({"ev": "get", "m": same[o["m"]], "mod": o["f"], "got": int(os.path.basename(p)[1:]) if p is not None else 0, "exc": exc})
    return {"cfg": {"files": sorted(range(1, 5)), "rows": [], "s0": [0]}, "ev": ev}


def digest(t):
    x = 0
    for k, v in sorted(t.state_dict().items()):
        if torch.is_tensor(v):
            x = zlib.crc32(v.detach().numpy().tobytes(), zlib.crc32(k.encode(), x))
    return x >> 1


def flat(x):
    if torch.is_tensor(x):
        return fxl(x.detach().reshape(-1))
    if isinstance(x, str):
        return [zlib.crc32(x.encode()) >> 1]
    if isinstance(x, dict):
        x = [v for k in sorted(x) for v in (k, x[k])]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [fx(x)]


def answers(served):
    x, p = torch.tensor([[0.25, -0.5], [1.0, 0.5], [-0.75, 0.125]]), torch.ones(3, 2)
    torch.manual_seed(5)
    with torch.no_grad():
        got, exc = attempt(lambda: served(rlt.ServingFeatureData((x, p), {}, {})))
        if exc:
            got, exc = attempt(lambda: served((x, p)))
    return flat(got) if not exc else [0]


class Flow:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.ev, self.files, self.confs, self.old, self.done = [], [], [], [], 0

    def table(self):
        rng = self.rng
        rows, hs, s0 = {}, [], []
        lens = [rng.randint(1, 3) for _ in range(14)]
        names = []
        while len(names) < len(lens):  # every tenth of the table holds an episode, so that no sample is empty
            x = f"episode {rng.randint(0, 10 ** 9)}"
            if len(names) >= 10 or zlib.crc32(x.encode()) * 10 // 2 ** 32 == len(names):
                names.append(x)
        rng.shuffle(names)
        for disc in (1, 0):
            out = []
            for e, n in enumerate(lens):
                for i in range(n + (8 if e == 0 else 0)):
                    end = i == n - 1
                    r2 = random.Random(f"{names[e]} {i}")
                    st = lambda: {0: r2.randint(-16, 16) / 8, 1: r2.randint(-16, 16) / 8}
                    s = st()
                    r = {"mdp_id": names[e], "sequence_number": i, "sequence_number_ordinal": i + 1, "ds": "2019-01-01", "action_probability": 0.5, "state_features": s, "reward": r2.randint(-8, 8) / 8,
                         "action": r2.choice(p35.ACTIONS) if disc else {20: r2.randint(-16, 16) / 8}, "metrics": {}, "next_state_features": {} if end else st(),
                         "next_action": ("" if disc else {}) if end else r2.choice(p35.ACTIONS) if disc else {20: r2.randint(-16, 16) / 8}, "time_diff": 1}
                    if disc:
                        r.update(possible_actions=list(p35.ACTIONS), possible_next_actions=[] if end else list(p35.ACTIONS))
                        hs.append(p35.limbs(zlib.crc32(names[e].encode())))
                        s0.append(fx(s[0]))
                    out.append(r)
            rows[disc] = out
        self.rows = rows
        self.cfg = {"files": [], "rows": sorted([list(x) for x in {tuple(h) for h in hs}]), "s0": s0}

    def manager(self, kind, o):
        m = learners.manager(kind, o)
        po = PreprocessingOptions(num_samples=len(self.rows[1]), skip_box_cox=True, skip_quantiles=True, feature_overrides={0: "CONTINUOUS", 1: "CONTINUOUS"})
        if FAMILY[kind] == "module":
            m.preprocessing_options = po
            m.state_feature_config_provider = ModelFeatureConfigProvider__Union(raw=RawModelFeatureConfigProvider(
                float_feature_infos=[rlt.FloatFeatureInfo(name=str(i), feature_id=i) for i in (0, 1)]))
        else:
            m.state_preprocessing_options = m._state_preprocessing_options = po
            m._action_preprocessing_options = PreprocessingOptions(num_samples=len(self.rows[1]), skip_box_cox=True, skip_quantiles=True)
            m.state_float_features, m.action_float_features = [(0, "a"), (1, "b")], [(20, "c")]
        return m

    def file(self, path):
        p = os.path.abspath(path)
        if p not in self.files:
            self.files.append(p)
        return self.files.index(p) + 100

    def reads(self):
        for url, b, n in W.READS[self.done:]:
            rows = W.table_at(url).rows
            self.ev.append({"ev": "read", "b": b, "n": n, "total": len(rows), "hs": [list(x) for x in sorted({tuple(p35.limbs(int(r["mdp_id"]))) for r in rows})]})
        self.done = len(W.READS)

    def go(self, x):
        rng, kind, w = self.rng, x["kind"], dict(x["w"])
        SummaryWriterContext._reset_globals()
        disc = int(FAMILY[kind] == "module")
        W.put("logged", self.rows[disc])
        before = set(W.TABLES)
        o = model(kind, x["opt"], list(p35.ACTIONS) if disc else None)
        o["heads"], o["lr"] = bool(w["cpe"]), o["lr"] / 32  # small steps: training must not diverge
        conf = repr((kind, sorted((k, str(v)) for k, v in o.items())))
        if conf not in self.confs:
            self.confs.append(conf)
        bare = w["give"] == 5
        if disc:
            w["give"] = 0 if bare else w["give"]
        else:
            w["give"] = {2: 1, 4: 0}.get(w["give"], w["give"])
        m = self.manager(kind, o)
        given = rng.randint(2, 9) / 8
        nd = lambda: {NormalizationKey.STATE: learners.norm(2), NormalizationKey.ACTION: learners.norm(1, "CONTINUOUS_ACTION", 20)}
        named = m.serving_module_names()
        w.update(epochs=rng.randint(1, 2), batch=rng.choice([3, 8, 64]), tests=int(kind in ("dqn", "qrdqn", "crr")), names=[MODULES.index(n) + 1 for n in named], conf=self.confs.index(conf) + 1,
                 takes=int(w["give"] == 4 if disc else w["give"] == 1), mean=fx(given))
        self.ev.append({"ev": "begin", "w": w})
        trained = []
        fit = pl.Trainer.fit

        def fitted(me, mod, *a, **kw):
            r = fit(me, mod, *a, **kw)
            if me.testing:
                return r
            trained.append(digest(mod))
            self.reads()
            self.ev.append({"ev": "fit", "nets": trained[-1]})
            return r
        verdict = lambda out: 0 if out.validation_result is None else 1 if out.validation_result.value.should_publish else 2
        facts = lambda out: {"exist": int(all(os.path.exists(p) for p in out.output_paths.values())), "names": [MODULES.index(n) + 1 for n in out.output_paths]}
        me = self

        class V:
            def validate(self, out):
                me.reads()
                me.ev.append({"ev": "validate", "nets": digest(m.trainer), "report": int(out.training_report is not None), **facts(out)})
                if w["valid"] == 1:
                    return NoValidation().validate(out)
                return ValidationResult__Union.make_union_instance(NoValidationResults(should_publish=False), NoValidationResults)

        class P:
            def publish(self, mgr, out, ids, *a):
                me.reads()
                me.ev.append({"ev": "publish", "same": int(mgr is m), "ids": [MODULES.index(n) + 1 for n in ids], "valid": verdict(out), **facts(out)})
                return (FileSystemPublisher(publishing_file="store") if w["pub"] == 2 else NoPublishing()).publish(mgr, out, ids, *a)
        spec = TableSpec(table_name="logged", table_sample=None if w["share"] < 0 else w["share"] / 10, eval_table_sample=None if w["other"] < 0 else w["other"] / 10)
        ro = ReaderOptions(minibatch_size=w["batch"])
        kw = dict(use_gpu=False, reader_options=ro, validator=U(V()) if w["valid"] else None, publisher=U(P()) if w["pub"] else None)

        def whole():
            if w["give"] == 0 and not bare:
                return training.identify_and_train_network(spec, U(m), w["epochs"], **kw)
            norms = nd()
            params = norms[NormalizationKey.STATE].dense_normalization_parameters
            for k in params:
                params[k] = dataclasses.replace(params[k], mean=given)
            if w["give"] in (1, 3):
                kw["normalization_data_map"] = norms
            if w["give"] == 4:
                import pickle
                kw["saved_setup_data"] = {"normalization_data_map": pickle.dumps(norms)}
            if w["give"] in (2, 3):
                kw["setup_data"] = m.get_data_module(input_table_spec=spec, reward_options=RewardOptions(), reader_options=ro).prepare_data() if disc else {}
            return training.query_and_train(spec, U(m), w["epochs"], **kw)
        pl.Trainer.fit = fitted
        try:
            torch.manual_seed(rng.randint(0, 10 ** 6))
            out, exc = (whole(), "") if os.environ.get("DBG") else attempt(whole)
            if os.environ.get("DBG"):
                print("DBG", exc)
        finally:
            pl.Trainer.fit = fit
        if exc == "Unsupported":
            raise W.Unsupported()
        self.reads()
        new = [t for k, t in W.TABLES.items() if k not in before]
        e = {"ev": "done", "tables": [[list(x) for x in sorted({tuple(p35.limbs(int(r["mdp_id"]))) for r in t.rows})] for t in new if t.rows and isinstance(t.rows[0]["mdp_id"], int)], "exc": exc, "trained": len(trained), "nets": 0, "names": [], "files": [], "have": [], "want": [], "old": [], "report": 0, "valid": 0, "pub": 0, "mean": 0}
        if out is not None:
            mods = m.build_serving_modules()
            names = sorted(out.output_paths)
            e.update(nets=digest(m.trainer), names=[MODULES.index(n) + 1 for n in names], files=[self.file(out.output_paths[n]) for n in names], report=int(out.training_report is not None), valid=verdict(out),
                     pub=int(out.publishing_result is not None and bool(out.publishing_result.value.success)), mean=fx(m.state_normalization_data.dense_normalization_parameters[0].mean))
            e["old"] = [answers(torch.jit.load(f)) for f in self.old]
            e["have"] = [answers(torch.jit.load(out.output_paths[n])) for n in names]
            e["want"] = [answers(mods[n]) if n in mods else [0] for n in names]
            self.old += [self.files[f - 100] for f in e["files"]]
        self.ev.append(e)
        return kind, o, named, w


def run_work(c, rng):
    f = Flow(c["seed"])
    f.table()
    asks = [f.go(x) for x in c["runs"]]
    p = None
    for kind, o, named, w in asks:
        for n in named:
            p = p if p is not None and rng.random() < 0.5 else FileSystemPublisher(publishing_file="store")
            m = f.manager(kind, o)
            got, exc = attempt(lambda: p.get_latest_published_model(m, n))
            f.ev.append({"ev": "get", "m": w["conf"], "mod": MODULES.index(n) + 1, "got": f.file(got) if got is not None else 0, "exc": exc})
    return {"cfg": f.cfg, "ev": f.ev}
