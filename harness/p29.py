"""P29: configurations resolve to exactly the declared components."""
import abc
import copy
import dataclasses
import functools
import inspect
import os
import random
from typing import Dict, List, Optional

import pytorch_lightning  # noqa: F401  (before the alias below)
import torch

# torch has since renamed the base class of schedulers, which the project's optimizer asks for by its old name
_OLD, torch.optim.lr_scheduler._LRScheduler = torch.optim.lr_scheduler._LRScheduler, torch.optim.lr_scheduler.LRScheduler
import reagent.optimizer.optimizer  # noqa: F401,E402

torch.optim.lr_scheduler._LRScheduler = _OLD
import learners  # noqa: F401,E402  (stubs)
from reagent import parameters as core_params
from reagent.core.configuration import make_config_class, resolve_defaults
from reagent.core.dataclasses import dataclass, field
from reagent.core.registry_meta import RegistryMeta
from reagent.core.tagged_union import TaggedUnion
from reagent.gym.envs import Env__Union
from reagent.gym.envs.env_wrapper import EnvWrapper
from reagent.net_builder import slate_ranking, slate_reward, unions
from reagent.net_builder.slate_ranking_net_builder import SlateRankingNetBuilder
from reagent.net_builder.slate_reward_net_builder import SlateRewardNetBuilder
from reagent.optimizer import scheduler_union
from reagent.optimizer.optimizer import OptimizerConfig
from reagent.optimizer.scheduler import LearningRateSchedulerConfig
from reagent.optimizer.union import Optimizer__Union
from reagent.publishers.union import ModelPublisher, ModelPublisher__Union
from reagent.training import parameters as tp
from reagent.validators.union import ModelValidator, ModelValidator__Union
from reagent.workflow import types as wt
from reagent.workflow.model_managers.model_manager import ModelManager
from reagent.workflow.model_managers.union import ModelManager__Union
from reagent.workflow.result_registries import PublishingResult, TrainingReport, ValidationResult
from vf import attempt, fx

TRACE = "P29Trace"
GEN = [{"name": "gen", "module": "MC_Config", "cfg": "Gen_Config.cfg"}]
MC = [("MC_Config", "MC_Config.cfg")]
NEED = ["declare", "fill", "select", "wrap", "make", "new", "call", "real", "own", "sample", "opt", "lr"]
ASSUMPTIONS = ["settings are compared by their printed form", "learning rates and their decays are powers of two"]
UNIT = 1 << 14
FAMILIES = {
    "optimizer": (Optimizer__Union, OptimizerConfig), "schedule": (scheduler_union.LearningRateScheduler__Union, LearningRateSchedulerConfig), "env": (Env__Union, EnvWrapper),
    "discrete actor": (unions.DiscreteActorNetBuilder__Union, unions.DiscreteActorNetBuilder), "continuous actor": (unions.ContinuousActorNetBuilder__Union, unions.ContinuousActorNetBuilder),
    "dqn": (unions.DiscreteDQNNetBuilder__Union, unions.DiscreteDQNNetBuilder), "c51": (unions.CategoricalDQNNetBuilder__Union, unions.CategoricalDQNNetBuilder),
    "qrdqn": (unions.QRDQNNetBuilder__Union, unions.QRDQNNetBuilder), "parametric": (unions.ParametricDQNNetBuilder__Union, unions.ParametricDQNNetBuilder),
    "value": (unions.ValueNetBuilder__Union, unions.ValueNetBuilder), "ranking": (slate_ranking.SlateRankingNetBuilder__Union, SlateRankingNetBuilder),
    "slate reward": (slate_reward.SlateRewardNetBuilder__Union, SlateRewardNetBuilder), "manager": (ModelManager__Union, ModelManager), "publisher": (ModelPublisher__Union, ModelPublisher),
    "validator": (ModelValidator__Union, ModelValidator), "published": (wt.PublishingResult__Union, PublishingResult), "validated": (wt.ValidationResult__Union, ValidationResult),
    "report": (wt.RLTrainingReport, TrainingReport), "features": (wt.ModelFeatureConfigProvider__Union, wt.ModelFeatureConfigProvider),
}
OWN = {n: (getattr(tp, n), getattr(tp, t).__init__) for n, t in
       {"SACTrainerParameters": "SACTrainer", "TD3TrainerParameters": "TD3Trainer", "CRRTrainerParameters": "DiscreteCRRTrainer", "SlateQTrainerParameters": "SlateQTrainer",
        "ParametricDQNTrainerParameters": "ParametricDQNTrainer", "DQNTrainerParameters": "DQNTrainer", "QRDQNTrainerParameters": "QRDQNTrainer", "C51TrainerParameters": "C51Trainer",
        "RewardNetworkTrainerParameters": "RewardNetTrainer", "Seq2SlateTrainerParameters": "Seq2SlateTrainer", "PPOTrainerParameters": "PPOTrainer"}.items()}
VALUES = {"int": [0, 3, -7], "float": [0.5, -2.25], "str": ["", "word"], "bool": [True, False], "list": [[], [1, 2]], "dict": [{}, {"b": 1, "a": 2}], "opt": [None, 4], "optlist": [None, ["a", "b"]]}
ILL = {"int": ["abc", None, [1]], "float": ["abc", None], "str": [None, [1]], "bool": ["maybe", None], "list": [3, None], "dict": [5, None], "opt": ["abc", [1]], "optlist": [5]}
TYPES = {"int": int, "float": float, "str": str, "bool": bool, "list": List[int], "dict": Dict[str, int], "opt": Optional[int], "optlist": Optional[List[str]], "module": torch.nn.Module,
         "optmodule": Optional[torch.nn.Module]}


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 400 if q else len(gg)]:
        yield {"kind": "family", "h": g["h"], "seed": rng.randint(0, 10 ** 6)}
    for _ in range(200 if q else 4000):
        yield {"kind": "settings", "seed": rng.randint(0, 10 ** 6)}
    for _ in range(100 if q else 2000):
        yield {"kind": "call", "seed": rng.randint(0, 10 ** 6)}
    for f in FAMILIES:
        yield {"kind": "real", "family": f}
    for i in range(2 if q else 20):
        for n in list(OWN) + ["core " + k for k in CORE] + ["builder " + b for b in BUILDERS]:
            yield {"kind": "own", "name": n, "seed": rng.randint(0, 10 ** 6), "none": int(i == 0)}
    for p in samples():
        yield {"kind": "sample", "path": p}
    for i in range(30 if q else 300):
        yield {"kind": "opt", "i": i, "seed": rng.randint(0, 10 ** 6)}
    for _ in range(60 if q else 600):
        yield {"kind": "lr", "how": "yaml" if rng.random() < 0.1 else "inst", "seed": rng.randint(0, 10 ** 6)}


def run(c):
    return globals()["run_" + c["kind"]](c, random.Random(c.get("seed", 0)))


# ---- families built for the occasion
def run_family(c, rng):
    class Base(metaclass=RegistryMeta):
        @abc.abstractmethod
        def op(self):
            pass

    classes, ev, union, table = [], [], None, {}
    defaults = {}
    for d in c["h"]:
        if d["op"] == "fill":
            union, exc = attempt(lambda: Base.fill_union()(type("U", (TaggedUnion,), {})))
            ev.append({"ev": "fill", "exc": exc, "names": [f.name for f in dataclasses.fields(union)] if union else []})
            if not union:
                break
            continue
        i = len(classes) + 1
        attrs = {"__annotations__": {"x": int, "y": float}, "x": i, "y": i + 0.5, "__module__": __name__}
        if d["alias"]:
            attrs["__registry_name__"] = d["alias"]
        if d["body"] == "def":
            attrs["op"] = lambda self: None
        elif d["body"] == "abs":
            attrs["op"] = abc.abstractmethod(lambda self: None)
        if rng.random() < 0.2:
            attrs["__bool__"] = lambda self: False
        cls, exc = attempt(lambda: dataclass(RegistryMeta(d["name"], (classes[d["parent"] - 1] if d["parent"] else Base,), attrs)))
        ev.append(dict(d, ev="declare", exc=exc))
        if cls is not None:
            classes.append(cls)
            defaults[i] = (i, i + 0.5)
    if union:
        names = [f.name for f in dataclasses.fields(union)]
        live = [k for k in classes if not inspect.isabstract(k) and k in Base.REGISTRY.values()]
        for k in live[:3]:
            inst = k()
            u, exc = attempt(lambda: union.make_union_instance(inst) if rng.random() < 0.5 else union.make_union_instance(inst, k))
            key = [n for n in names if getattr(u, n, None) is not None] if u is not None else []
            ev.append({"ev": "wrap", "exc": exc, "class": classes.index(k) + 1, "key": key[0] if len(key) == 1 else "", "same": int(len(key) == 1 and getattr(u, key[0]) is inst)})
        for _ in range(6):
            ev.append(select(rng, union, names, classes, Base))
    return {"cfg": {"x": 0}, "ev": ev}


def select(rng, union, names, classes, base):
    k = rng.choice([0, 1, 1, 1, 1, 2]) if len(names) > 1 else rng.choice([0, 1, 1]) if names else 0
    pick, how = rng.sample(names, k), rng.choice(["inst", "dict"])
    ill, kw, wx, wy = 0, {}, 0, 0
    for n in pick:
        k = base.REGISTRY[n]
        i = classes.index(k) + 1
        x, given = rng.randint(10, 20), rng.random() < 0.5
        wx, wy = (x if given else i), fx(i + 0.5, 2)
        kw[n] = k(**({"x": x} if given else {})) if how == "inst" else ({"x": x} if given else {})
    names = list(pick)
    r = rng.random()
    if r < 0.1:
        kw["Nobody"], names = {}, names + ["Nobody"]
    elif r < 0.2 and pick:
        kw[pick[0]] = rng.choice([{"x": "many"}, {"zz": 1}, 7, "text", {"x": [1]}])
        ill = 1
    u, exc = attempt(lambda: union(**kw))
    v, vexc = attempt(lambda: u.value) if not exc else (None, "")
    e = {"ev": "select", "names": names, "how": how, "ill": ill, "exc": exc, "vexc": vexc, "class": 0, "same": 0, "x": 0, "y": 0, "wantx": wx, "wanty": wy}
    if not exc and not vexc:
        e["class"] = classes.index(type(v)) + 1 if type(v) in classes else 0
        e["same"] = int(len(pick) == 1 and v is kw[pick[0]])
        e["x"], e["y"] = fx(getattr(v, "x", -1)), fx(getattr(v, "y", -1), 2)
    return e


# ---- settings derived from a function
def params(rng, modules=True, n=None):
    """parameters, required ones first: (descriptor, annotation, default maker)"""
    out = []
    n = rng.randint(1, 5) if n is None else n
    req = rng.randint(0, n // 2)
    for i in range(n):
        name = "abcdefgh"[i]
        ann = rng.choice(["int", "float", "str", "bool", "list", "dict", "opt", "optlist"] + (["module", "optmodule", "", ""] if modules else [""]))
        if i < req:
            out.append(({"name": name, "ann": ann, "def": ""}, ann, None))
        elif ann == "":
            d = rng.choice([3, "w", 0.5, True, None, (1, 2)] if modules else [3, "w", 0.5])
            out.append(({"name": name, "ann": ann, "def": "null" if d is None else "shape" if isinstance(d, tuple) else repr(d)}, ann, d))
        elif ann in ("module", "optmodule"):
            out.append(({"name": name, "ann": ann, "def": "None"}, ann, None))
        else:
            v = rng.choice([x for x in VALUES[ann]])
            d = v
            if isinstance(v, (list, dict)):
                d = field(default_factory=functools.partial(copy.deepcopy, v))
            elif rng.random() < 0.3:
                d = field(default=v)
            out.append(({"name": name, "ann": ann, "def": repr(v)}, ann, d))
    return out


def function(ps, body="pass", deco=None):
    sig, env = [], {"T": TYPES}
    for d, ann, default in ps:
        s = d["name"] + (f": T['{ann}']" if ann else "")
        if d["def"]:
            env["D_" + d["name"]] = default
            s += f" = D_{d['name']}"
        sig.append(s)
    exec(f"def f({', '.join(sig)}):\n    {body}", env)
    return env["f"]


def kind_of(d, ann):
    return ann or {"int": "int", "float": "float", "str": "str", "bool": "bool"}.get(type(eval(d["def"])).__name__ if d["def"] not in ("", "null", "shape") else "", "int")


def run_settings(c, rng):
    ps = params(rng)
    names = [d["name"] for d, _, _ in ps]
    white = black = []
    r = rng.random()
    if r < 0.25:
        white = sorted(rng.sample(names, rng.randint(1, len(names)))) + (["nobody"] if rng.random() < 0.1 else [])
    elif r < 0.6:
        black = rng.sample(names + ["nobody"], rng.randint(1, len(names)))
    elif r < 0.65:
        white = black = rng.sample(names, 1)
    f = function(ps)
    cfg = {"params": [d for d, _, _ in ps], "white": white, "black": black}
    cls, exc = attempt(lambda: make_config_class(f, whitelist=white or None, blacklist=black or None)(type("P", (), {})))
    ev = [{"ev": "make", "exc": exc, "fields": [x.name for x in dataclasses.fields(cls)] if cls else []}]
    if cls is None or any(d["ann"] in ("module", "optmodule") and d["name"] in white for d, _, _ in ps):
        return {"cfg": cfg, "ev": ev}
    fields = [x.name for x in dataclasses.fields(cls)]
    for _ in range(6):
        given, ill = {}, 0
        for d, ann, _ in ps:
            if d["name"] in fields and (rng.random() < (0.95 if not d["def"] else 0.4)):
                k = kind_of(d, ann)
                if rng.random() < 0.08:
                    given[d["name"]], ill = rng.choice(ILL[k]), 1
                else:
                    given[d["name"]] = rng.choice(VALUES[k])
        if rng.random() < 0.1:
            given[rng.choice(["nobody"] + [n for n in names if n not in fields])] = 1
        a, exc = attempt(lambda: cls(**copy.deepcopy(given)))
        e = {"ev": "new", "given": [[k, repr(v)] for k, v in given.items()], "ill": ill, "exc": exc, "got": [], "shared": 0, "frozen": 1, "dict": 1, "eq": 1, "hash": 1}
        if a is not None:
            again(e, cls, a, given, fields)
            e["got"] = [[n, repr(getattr(a, n))] for n in fields]
            if fields:
                _, x = attempt(setattr, a, fields[0], getattr(a, fields[0]))
                e["frozen"] = int(x != "")
            e["dict"] = int(set(a.asdict()) == set(fields) and all(a.asdict()[n] is getattr(a, n) for n in fields))
        ev.append(e)
    return {"cfg": cfg, "ev": ev}


def again(e, cls, a, given, fields):
    # the same settings once more, mappings written down in the opposite order
    b = cls(**{k: dict(reversed(list(v.items()))) if isinstance(v, dict) else v for k, v in copy.deepcopy(given).items()})
    e["shared"] = sum(int(isinstance(getattr(a, n), (list, dict)) and getattr(a, n) is getattr(b, n)) for n in fields if n not in given)
    e["eq"] = int(a == b)
    h, x = attempt(lambda: hash(a) == hash(b))
    e["hash"] = int(x == "" and h)


def run_call(c, rng):
    ps = params(rng, modules=False)
    names = [d["name"] for d, _, _ in ps]
    f = resolve_defaults(function(ps, "return dict(" + ", ".join(f"{n}={n}" for n in names) + ")"))
    ev = []
    for _ in range(6):
        k = rng.randint(0, len(ps) + (1 if rng.random() < 0.1 else 0))
        pos = [rng.choice(VALUES[kind_of(*ps[i][:2])]) if i < len(ps) else 1 for i in range(k)]
        given = {d["name"]: rng.choice(VALUES[kind_of(d, ann)]) for i, (d, ann, _) in enumerate(ps) if (i >= k or rng.random() < 0.05) and rng.random() < (0.95 if not d["def"] else 0.4)}
        got, exc = attempt(lambda: f(*copy.deepcopy(pos), **copy.deepcopy(given)))
        e = {"ev": "call", "pos": [repr(v) for v in pos], "given": [[n, repr(v)] for n, v in given.items()], "exc": exc, "got": [], "shared": 0}
        if got is not None:
            two = f(*copy.deepcopy(pos), **copy.deepcopy(given))
            e["got"] = [[n, repr(v)] for n, v in got.items()]
            e["shared"] = sum(int(isinstance(got[n], (list, dict)) and got[n] is two[n]) for i, n in enumerate(names) if i >= k and n not in given)
        ev.append(e)
    return {"cfg": {"params": [d for d, _, _ in ps], "white": [], "black": []}, "ev": ev}


# ---- the project's own families and settings
def below(k):
    for s in k.__subclasses__():
        yield s
        yield from below(s)


def run_real(c, rng):
    union, base = FAMILIES[c["family"]]
    mine = [k for k in set(below(base)) if not inspect.isabstract(k) and k.__module__.startswith(("reagent.", "abc")) and k in base.REGISTRY.values() or (not inspect.isabstract(k) and k.__module__.startswith("reagent."))]
    return {"cfg": {"x": 0}, "ev": [{"ev": "real", "union": [f.name for f in dataclasses.fields(union)], "registered": list(base.REGISTRY),
                                     "concrete": [getattr(k, "__registry_name__", k.__name__) for k in mine]}]}


CORE = {n: k for n, k in vars(core_params).items() if inspect.isclass(k) and dataclasses.is_dataclass(k) and k.__module__ == core_params.__name__ and "__hash__" in vars(k) and k.__hash__ is not None}
BUILDERS = {f"{f}/{n}": k for f, (_, b) in FAMILIES.items() for n, k in b.REGISTRY.items() if f not in ("env", "manager", "optimizer", "schedule", "published", "validated", "report") and dataclasses.is_dataclass(k)}


def plain(ann):
    """which of the plain kinds of value a declared type admits"""
    for k, t in TYPES.items():
        if k in VALUES and t == ann:
            return k
    return "bool" if ann == Optional[bool] else "float" if ann == Optional[float] else ""


def show(v):
    return leaf(v)


def run_own(c, rng):
    n = c["name"]
    if n in OWN:
        cls, f = OWN[n]
        sig = inspect.signature(f).parameters
        defaults = {p.name: p.default for p in sig.values() if p.default is not inspect.Parameter.empty}
    else:
        cls = CORE[n[5:]] if n.startswith("core ") else BUILDERS[n[8:]]
        defaults = {}
        for fd in dataclasses.fields(cls):
            if fd.default is not dataclasses.MISSING:
                defaults[fd.name] = fd.default
            elif fd.default_factory is not dataclasses.MISSING:
                defaults[fd.name] = fd
    fields = {fd.name: fd.type for fd in dataclasses.fields(cls)}
    first = {k: (v.default_factory() if v.default_factory is not dataclasses.MISSING else v.default) if isinstance(v, dataclasses.Field) else v for k, v in defaults.items()}
    given = {}
    for k, t in fields.items():
        if k not in defaults or (rng.random() < 0.4 and not c["none"]):
            p = plain(t)
            if p == "opt" or p == "optlist" or not p:
                if k in defaults:
                    continue
                return {"cfg": {"x": 0}, "ev": [{"ev": "none"}]}
            d = first.get(k)
            # stay near the default: builders check lengths and ranges
            if isinstance(d, bool) or p == "bool":
                given[k] = not d
            elif p in ("int", "float") and isinstance(d, (int, float)):
                given[k] = d + 1 if p == "int" else float(d) * 0.5
            elif k not in defaults:
                given[k] = rng.choice(VALUES[p])
    a, exc = attempt(lambda: cls(**copy.deepcopy(given)))
    if a is None and given and any(k in defaults for k in given):
        # a component may refuse an unusual value: only its defaults are judged then
        given = {k: v for k, v in given.items() if k not in defaults}
        a, exc = attempt(lambda: cls(**copy.deepcopy(given)))
    e = {"ev": "own", "given": [[k, show(v)] for k, v in given.items()], "defaults": [[k, show(v)] for k, v in first.items()], "exc": exc, "got": [], "shared": 0, "eq": 1, "hash": 1}
    if a is not None:
        again(e, cls, a, given, list(fields))
        if cls.__hash__ is None:
            e["hash"] = 1
        e["got"] = [[k, show(getattr(a, k))] for k in fields if k in given or k in first]
    return {"cfg": {"x": 0}, "ev": [e]}


def samples():
    root = os.environ.get("VERIF_REPO", "/repo")
    out = []
    for d, _, fs in os.walk(os.path.join(root, "reagent")):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith(".yaml")]
    return sorted(out)


def leaf(v):
    if isinstance(v, str):
        try:
            v = float(v)
        except ValueError:
            pass
    return repr(float(v)) if isinstance(v, (int, float)) else repr([leaf(x) for x in v]) if isinstance(v, (list, tuple)) else repr(v)


def flat(v, path=""):
    if isinstance(v, dict) and v:
        for k, x in v.items():
            yield from flat(x, f"{path}/{k}")
    elif isinstance(v, list) and any(isinstance(x, dict) for x in v):
        for i, x in enumerate(v):
            yield from flat(x, f"{path}/{i}")
    elif not isinstance(v, dict):
        yield path, leaf(v)


def walk(obj, path):
    for k in path.split("/")[1:]:
        if isinstance(obj, list):
            obj = obj[int(k)]
        elif isinstance(obj, dict):
            obj = obj[k] if k in obj else obj[int(k)]
        else:
            obj = getattr(obj, k)
    return leaf(obj)


def run_sample(c, rng):
    from ruamel.yaml import YAML

    with open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), c["path"])) as f:
        conf = YAML(typ="safe").load(f.read())
    ev = []
    for key, union in (("model", ModelManager__Union), ("env", Env__Union), ("validator", ModelValidator__Union), ("publisher", ModelPublisher__Union)):
        if not isinstance(conf.get(key), dict) or len(conf[key]) != 1:
            continue
        named = list(conf[key])[0]
        if named not in {f.name for f in dataclasses.fields(union)}:
            continue
        u, exc = attempt(lambda: union(**copy.deepcopy(conf[key])))
        e = {"ev": "sample", "named": named, "exc": exc, "chosen": "", "given": [], "got": []}
        if u is not None:
            v = u.value
            e["chosen"] = getattr(type(v), "__registry_name__", type(v).__name__)
            e["given"] = [[p, x] for p, x in flat(conf[key][named])]
            for p, _ in e["given"]:
                got, x = attempt(walk, v, p)
                if not x:
                    e["got"].append([p, got])
        ev.append(e)
    return {"cfg": {"x": 0}, "ev": ev or [{"ev": "none"}]}


def run_opt(c, rng):
    names = list(OptimizerConfig.REGISTRY)
    name = names[c["i"] % len(names)]
    k = OptimizerConfig.REGISTRY[name]
    sig = {p.name: p.default for p in inspect.signature(getattr(torch.optim, name)).parameters.values() if p.name != "params"}
    fields = {f.name: f.type for f in dataclasses.fields(k)}
    if any(n not in fields for n in sig):
        return {"cfg": {"x": 0}, "ev": [{"ev": "none"}]}
    given = {}
    for n, t in fields.items():
        d = sig.get(n)
        if n in sig and isinstance(d, (int, float)) and not isinstance(d, bool) and rng.random() < 0.4:
            given[n] = d / 2 if t == float else d + 1 if d else 0
    par = torch.nn.Parameter(torch.ones(2))
    how = rng.choice(["union", "dict", "plain"])
    o, exc = attempt(lambda: (k(**given) if how == "plain" else Optimizer__Union(**{name: k(**given) if how == "union" else given})).make_optimizer([par]))
    e = {"ev": "opt", "named": name, "exc": exc, "given": [[n, leaf(v)] for n, v in given.items()], "defaults": [[n, leaf(v)] for n, v in sig.items()], "got": [], "class": "", "params": 0}
    if o is not None:
        g = o.param_groups[0]
        e["class"] = type(o.optimizer).__name__
        e["params"] = int(len(g["params"]) == 1 and g["params"][0] is par and len(o.param_groups) == 1)
        e["got"] = [[n, leaf(g[n])] for n in sig if n in g and n != "max_eval"]
    return {"cfg": {"x": 0}, "ev": [e]}


def run_lr(c, rng):
    S = LearningRateSchedulerConfig.REGISTRY
    sched, given, yml = [], [], []
    lone = rng.random() < 0.25
    for _ in range(1 if lone else rng.randint(0 if c["how"] == "inst" else 1, 3)):
        kind = "LambdaLR" if lone else rng.choice(["StepLR", "MultiStepLR", "ExponentialLR", "MultiplicativeLR"])
        g = 1 if kind in ("ExponentialLR", "MultiplicativeLR", "LambdaLR") else rng.choice([1, 2])
        d = {"kind": kind, "g": g, "step": rng.randint(1, 3), "at": sorted(rng.sample(range(1, 6), rng.randint(1, 2)))}
        kw = {"StepLR": {"step_size": d["step"], "gamma": 0.5 ** g}, "MultiStepLR": {"milestones": d["at"], "gamma": 0.5 ** g}, "ExponentialLR": {"gamma": 0.5},
              "MultiplicativeLR": {"lr_lambda": rng.choice(["lambda n: 0.5", lambda n: 0.5])}, "LambdaLR": {"lr_lambda": rng.choice(["lambda n: 0.5 ** n", lambda n: 0.5 ** n])}}[kind]
        sched.append(d)
        given.append(S[kind](**kw))
        yml.append({kind: kw})
    steps, lr = rng.randint(1, 5), rng.choice([1.0, 0.5])
    par = torch.nn.Parameter(torch.zeros(1))
    old, torch.optim.lr_scheduler._LRScheduler = torch.optim.lr_scheduler._LRScheduler, torch.optim.lr_scheduler.LRScheduler
    o, exc = attempt(lambda: Optimizer__Union(**{"SGD": {"lr": lr, "lr_schedulers": given if c["how"] == "inst" else yml}}).make_optimizer([par]))
    torch.optim.lr_scheduler._LRScheduler = old
    e = {"ev": "lr", "exc": exc, "rate": [], "par": []}
    if o is not None:
        for _ in range(steps):
            e["rate"].append(fx(o.param_groups[0]["lr"], UNIT))
            e["par"].append(fx(par.item(), UNIT))
            par.grad = torch.ones(1)
            o.step()
        e["par"].append(fx(par.item(), UNIT))
        e["rate"].append(fx(o.param_groups[0]["lr"], UNIT))
    return {"cfg": {"lr": fx(lr, UNIT), "sched": sched}, "ev": [e]}
