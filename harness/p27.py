"""P27: metrics reported by components reach observers, windows, aggregates, reporters and summaries."""
import random

import learners  # noqa: F401  (stubs)
import pytorch_lightning as pl
import reagent.types as rlt
import torch
from learn import Batches, _Cb
from learners import A, KINDS, Learner, options
from legacy import sgd, slate_net
from p21 import SlateWorth
from reagent.core import aggregators as agg
from reagent.core.observers import CompositeObserver, EpochEndObserver, IntervalAggregatingObserver, ValueListObserver
from reagent.core.tracker import Aggregator, ObservableMixin, Observer, observable
from reagent.evaluation.ranking_policy_gradient_evaluator import RankingPolicyGradientEvaluator
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.models.seq2slate import BaselineNet
from reagent.tensorboardX import SummaryWriter, SummaryWriterContext, summary_writer_context
from reagent.training.loss_reporter import LossReporter
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from reagent.workflow.reporters.actor_critic_reporter import ActorCriticReporter
from reagent.workflow.reporters.discrete_crr_reporter import DiscreteCRRReporter
from reagent.workflow.reporters.discrete_dqn_reporter import DiscreteDQNReporter
from reagent.workflow.reporters.parametric_dqn_reporter import ParametricDQNReporter
from reagent.workflow.reporters.sac_reporter import SACReporter
from reagent.workflow.reporters.slate_q_reporter import SlateQReporter
from reagent.workflow.reporters.td3_reporter import TD3Reporter
from vf import attempt, fx, fxl

TRACE = "P27Trace"
GEN = [{"name": "gen", "module": "MC_Reporting", "cfg": "Gen_Reporting.cfg"}]
MC = [("MC_Reporting", "MC_Reporting.cfg")]
NEED = ["log", "flush", "see", "batch", "add", "notify", "values", "reset", "value", "end", "close", "ranking", "recent", "wrongkey"]
ASSUMPTIONS = ["reported numbers are below 30 in magnitude; the statistics of a window of one row have no spread",
               "a reporter is watched through its log and flush methods while a learner trains with it"]
UNIT = 8192
OLD = ["reward_loss", "imitator_loss", "logged_actions", "logged_propensities", "logged_rewards", "logged_values", "model_propensities", "model_rewards", "model_values", "model_values_on_logged_actions",
       "model_action_idxs"]
REPS = ["dqn", "crr", "pdqn", "slateq", "ac", "td3", "sac"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for i, g in enumerate(gg):
        if i % 2 or not q:
            yield {"kind": "window", "k": g["k"], "ops": ["v" if x else rng.choice(["end", "close"]) for x in g["h"]], "ends": rng.random() < 0.8, "seed": rng.randint(0, 10 ** 6)}
        if i % 2 == 0 or not q:
            yield {"kind": "report", "rep": REPS[i % len(REPS)], "k": g["k"], "ops": ["all" if x else rng.choice(["flush", "epoch_end"]) for x in g["h"]], "acts": rng.randint(1, 3), "seed": rng.randint(0, 10 ** 6)}
    for _ in range(60 if q else 1500):
        yield {"kind": "report", "rep": rng.choice(REPS), "k": rng.choice([0, 1, 2, 3, 5]), "ops": [rng.choice(["all", "some", "some", "none", "bad", "flush", "epoch_end"]) for _ in range(rng.randint(3, 12))],
               "acts": rng.randint(1, 3), "seed": rng.randint(0, 10 ** 6)}
    for i in range(40 if q else 600):
        yield {"kind": "report", "rep": "loss" if i % 4 else "loss0", "k": rng.choice([1, 2, 3, 4]), "ops": [rng.choice(["all", "all", "all", "flush"]) for _ in range(rng.randint(2, 10))], "acts": rng.randint(1, 3), "seed": rng.randint(0, 10 ** 6)}
    for _ in range(120 if q else 2000):
        yield {"kind": "route", "seed": rng.randint(0, 10 ** 6), "n": rng.randint(3, 10), "mixin": rng.random() < 0.3}
    for i in range(48 if q else 800):
        k = KINDS[i % len(KINDS)]
        yield {"kind": "train", "learner": k, "o": dict(options(rng, k), lr=1), "k": rng.choice([0, 1, 2, 3, 100]), "every": rng.choice([1, 1, 2, 3, 50]), "b": rng.randint(1, 5), "epochs": rng.randint(1, 3),
               "own": rng.random() < 0.3, "seed": rng.randint(0, 10 ** 6)}
    for _ in range(16 if q else 200):
        yield {"kind": "ranking", "cpe": rng.random() < 0.5, "base": rng.random() < 0.6, "batches": rng.randint(1, 3), "n": rng.randint(2, 3), "t": rng.randint(1, 2), "seed": rng.randint(0, 10 ** 6)}
    for _ in range(20 if q else 200):
        yield {"kind": "recent", "size": rng.randint(1, 6), "seed": rng.randint(0, 10 ** 6)}


def run(c):
    torch.manual_seed(c["seed"])
    SummaryWriterContext._reset_globals()
    return globals()["run_" + c["kind"]](c, random.Random(c["seed"]))


class Pen(SummaryWriter):
    """a summary writer that only takes notes"""

    def __init__(self):
        self.notes = []

    def add_scalar(self, tag, v, *a, **k):
        self.notes.append({"f": "add_scalar", "tag": tag, "v": [x for r in rows(v) for x in r]})

    def add_histogram(self, tag, v, *a, **k):
        self.notes.append({"f": "add_histogram", "tag": tag, "v": [x for r in rows(v) for x in r]})

    def take(self):
        n, self.notes = self.notes, []
        return n


def rows(v):
    if not torch.is_tensor(v):
        if not isinstance(v, (int, float, list)):
            return [[int(getattr(v, "ident", 0))]]
        v = torch.tensor(v)
    v = v.detach().float()
    if v.dim() == 0:
        v = v.reshape(1, 1)
    elif v.dim() == 1:
        v = v.reshape(-1, 1)
    return fxl(v.reshape(v.shape[0], -1), UNIT)


def kws(kw):
    return [{"key": k, "none": int(v is None), "rows": [] if v is None else rows(v)} for k, v in kw.items()]


def build(rep, k, acts):
    k = k or None
    return {"dqn": lambda: DiscreteDQNReporter(acts, report_interval=k), "crr": lambda: DiscreteCRRReporter(acts, report_interval=k), "pdqn": lambda: ParametricDQNReporter(report_interval=k),
            "slateq": lambda: SlateQReporter(report_interval=k), "ac": lambda: ActorCriticReporter(report_interval=k), "td3": lambda: TD3Reporter(report_interval=k),
            "sac": lambda: SACReporter(report_interval=k)}[rep]()


class Old:
    """the older reporter under the names of the newer ones"""

    def __init__(self, rep, k, acts):
        self.r = LossReporter(acts if rep == "loss" else None)
        self.r.loss_report_interval = k

    def log(self, **kw):
        self.r.report(**kw)

    def flush(self, epoch):
        self.r.flush()

    def look(self, rep, acts):
        r = self.r
        got = [{"nm": n, "kind": "mean", "v": fxl(getattr(r, n), UNIT)} for n in ("td_loss", "reward_loss", "imitator_loss", "logged_action_q_value")]
        got.append({"nm": "running_reward", "kind": "recent", "v": fxl(list(r.get_recent_rewards()), UNIT)})
        if rep == "loss":
            mv, sd, ct, di = dict(r.model_values.items()), dict(r.model_value_stds.items()), dict(r.model_action_counts.items()), dict(r.model_action_distr.items())
            got.append({"nm": "model_values", "kind": "fns", "mean": [fxl(mv[a], UNIT) for a in acts], "std": [fxl(sd[a], UNIT) for a in acts]})
            some = len(ct[acts[0]]) > 0
            cum, lg = (r.get_model_action_distribution(), r.get_logged_action_distribution()) if some else ({}, {})
            got.append({"nm": "model_action", "kind": "count", "v": [list(ct[a]) for a in acts], "dist": [fxl(di[a], UNIT) for a in acts], "cum": [fx(cum[a], UNIT) for a in acts] if some else []})
            got.append({"nm": "logged_action", "kind": "total", "cum": [fx(lg[a], UNIT) for a in acts] if some else []})
        return got


def look(r, rep, acts):
    if rep in ("loss", "loss0"):
        return r.look(rep, acts)
    got = []
    names = {"dqn": ["td_loss", "reward_loss"], "crr": ["td_loss", "reward_loss"], "pdqn": ["td_loss", "reward_loss", "model_values_on_logged_actions"]}.get(rep, ["td_loss", "logged_action_q_value"])
    for n in names:
        got.append({"nm": n, "kind": "mean", "v": fxl(getattr(r, n).values, UNIT)})
    got.append({"nm": "recent_rewards", "kind": "recent", "v": fxl(list(r.recent_rewards.values), UNIT)})
    got.append({"nm": "cpe_results", "kind": "list", "v": [x for v in r.cpe_results.values for x in rows(v)]})
    if rep in ("dqn", "crr"):
        mv = r.model_values.values
        got.append({"nm": "model_values", "kind": "fns", "mean": [fxl(mv["mean"][a], UNIT) for a in acts], "std": [fxl(mv["std"][a], UNIT) for a in acts]})
        for n in ("logged_action", "model_action"):
            a = getattr(r, n)
            some = len(a.values[acts[0]]) > 0
            d, cum = a.get_distributions(), a.get_cumulative_distributions() if some else {}
            got.append({"nm": n, "kind": "count", "v": [list(a.values[x]) for x in acts], "dist": [fxl(d[x], UNIT) for x in acts], "cum": [fx(cum[x], UNIT) for x in acts] if some else []})
    return got


def see(r, rep, acts):
    got, exc = attempt(look, r, rep, acts)
    per = -1
    if rep in ("dqn", "crr"):
        per, e2 = attempt(lambda: r.num_data_points_per_epoch)
        per = -1 if e2 else per
    return {"ev": "see", "got": got or [], "exc": exc, "per": per}


class Page:
    """some evaluation result"""

    def __init__(self, i):
        self.ident = i


def run_report(c, rng):
    acts = ["x", "long name", "3"][: c["acts"]]
    rep, n = c["rep"], [0]
    pen, ev = Pen(), []
    forms = {}
    num = lambda *sh: (torch.randint(-32, 33, tuple(sh)) / 8).requires_grad_(rng.random() < 0.3)

    def value(key, b):
        if key == "cpe_details":
            n[0] += 1
            return Page(n[0])
        if key in ("logged_actions", "model_action_idxs"):
            return torch.randint(0, len(acts), (b, 1))
        if key in ("model_values", "model_rewards", "model_propensities") and rep != "loss0":
            return num(b, len(acts))
        form = forms.setdefault(key, "number" if key in ("kld", "entropy_temperature") else rng.choice(["number", "list", "column"] if key.endswith("loss") else ["list", "column"]))
        if form == "number":
            return num() if rng.random() < 0.5 else float(num())
        return num(b, 1) if form == "column" else num(b)

    with summary_writer_context(pen):
        old = rep in ("loss", "loss0")
        r = Old(rep, c["k"], acts) if old else build(rep, c["k"], acts)
        keys = ["td_loss"] + [k for k in OLD if rng.random() < 0.7] if old else [k for k in r.get_observing_keys() if k != "epoch_end"]
        for op in c["ops"]:
            b = rng.randint(1, 4)
            if old and "logged_actions" in keys and "model_action_idxs" not in keys or "model_action_idxs" in keys and "logged_actions" not in keys:
                keys = [k for k in keys if k not in ("logged_actions", "model_action_idxs")]
            if rep == "loss0":
                keys = [k for k in keys if k not in ("logged_actions", "model_action_idxs")]
            if op == "flush":
                _, exc = attempt(r.flush, rng.randint(0, 3))
                ev.append({"ev": "flush", "exc": exc, "w": pen.take()})
                continue
            if op == "epoch_end":
                kw = {"epoch_end": rng.randint(0, 3)}
                if rng.random() < 0.3:
                    kw = {"td_loss": value("td_loss", b), **kw} if rng.random() < 0.5 else {**kw, "td_loss": value("td_loss", b)}
            else:
                kk = keys if op == "all" else rng.sample(keys, rng.randint(1, len(keys)))
                kw = {k: value(k, b) for k in kk}
                if op == "none":
                    kw = {k: (None if rng.random() < 0.5 else v) for k, v in kw.items()}
                    kw["nobody knows"] = None
                if op == "bad":
                    items = list(kw.items())
                    items.insert(rng.randint(0, len(items)), ("nobody knows", torch.ones(1)))
                    kw = dict(items)
            rec = kws(kw)
            _, exc = attempt(r.log, **kw)
            ev.append({"ev": "log", "kw": rec, "exc": exc, "w": pen.take()})
            if rng.random() < 0.2:
                ev.append(see(r, rep, acts))
        ev.append(see(r, rep, acts))
    return {"cfg": {"mode": "report", "rep": rep, "k": c["k"], "acts": acts, "train": 0, "mark": "td_loss", "rare": 0, "every": 1}, "ev": ev}


def run_train(c, rng):
    kind, o = c["learner"], c["o"]
    acts = [str(i) for i in range(A)]
    L = Learner(kind, o, c["seed"])
    t, pen, ev, bi = L.trainer, Pen(), [], [0]
    rep = {"c51": "dqn", "qrdqn": "dqn"}.get(kind, kind)
    own = c["own"] and kind != "pdqn"
    k = 100 if own else c["k"]
    r = L.manager.get_reporter() if own else build(rep, k, acts)
    log, flush = r.log, r.flush

    def seen_log(**kw):
        rec = kws(kw)
        pen.take()
        _, exc = attempt(log, **kw)
        ev.append({"ev": "log", "kw": rec, "exc": exc, "w": pen.take()})

    def seen_flush(epoch):
        pen.take()
        _, exc = attempt(flush, epoch)
        ev.append({"ev": "flush", "exc": exc, "w": pen.take()})

    r.log, r.flush = seen_log, seen_flush
    t.set_reporter(r)
    disc = kind in ("dqn", "c51", "qrdqn", "crr")

    def start(b, i):
        q, qa = [], []
        with torch.no_grad():
            if kind in ("dqn", "c51"):
                q = rows(t.q_network(b.state))
            elif kind == "qrdqn":
                q = rows(t.q_network(b.state).mean(2))
            elif kind == "pdqn":
                qa = rows(t.q_network(b.state, b.action))
            elif kind == "sac":
                qa = rows(t.q1_network(b.state, b.action))
        mask = (b.possible_actions_mask if o["maxq"] else b.action) if disc else torch.zeros(1, 1)
        ev.append({"ev": "batch", "n": 1, "i": bi[0], "rew": rows(b.reward), "prop": rows(b.extras.action_probability), "act": rows(torch.argmax(b.action, 1, keepdim=True)) if disc else [], "q": q, "qa": qa,
                   "mask": rows(mask)})
        bi[0] = (bi[0] + 1) % c["b"]

    bs = []
    for i in range(c["b"]):
        b = L.batch(c["seed"] + i, rng.randint(2, 4))
        if disc:
            m = (torch.rand(b.action.shape) < 0.6).float()
            b.possible_actions_mask = torch.maximum(m, b.action)
            b.extras.action_probability = torch.randint(1, 9, (len(m), 1)) / 8
        bs.append(b)
    with summary_writer_context(pen):
        tr = pl.Trainer(max_epochs=c["epochs"], logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None, callbacks=[_Cb(start, None)], num_sanity_val_steps=0,
                        log_every_n_steps=c["every"])
        tr.fit(t, torch.utils.data.DataLoader(Batches(bs), batch_size=None, shuffle=False))
    end = dict(ev[0], n=0, i=0)
    return {"cfg": {"mode": "report", "rep": rep, "k": k, "acts": acts, "train": 1, "mark": "q1_loss" if kind == "td3" else "td_loss", "rare": int(kind in ("c51", "td3")), "every": c["every"]}, "ev": ev + [end, see(r, rep, acts)]}


# ---- observers ----
class Probe(Observer):
    def __init__(self, keys, box):
        super().__init__(observing_keys=keys)
        self.box = box

    def update(self, key, value):
        self.box.append((key, value))


class Noted(ValueListObserver):
    def __init__(self, key, box):
        super().__init__(key)
        self.box = box

    def update(self, key, value):
        super().update(key, value)
        self.box.append((key, value))


def shown(v):
    if torch.is_tensor(v):
        return {"t": "ten", "sh": list(v.shape), "v": fxl(v.detach().flatten(), UNIT), "g": int(v.requires_grad)}
    if isinstance(v, str):
        return {"t": "str", "sh": [], "v": v, "g": 0}
    return {"t": "num", "sh": [], "v": [fx(v, UNIT)], "g": 0}


def run_route(c, rng):
    keys = ["a", "b", "c", "epoch_end"][: rng.randint(1, 4)]
    kinds = {k: rng.choice(["tensor", "float", "str"]) for k in keys}
    types = {k: {"tensor": torch.Tensor, "float": float, "str": str}[v] for k, v in kinds.items()}
    some = lambda: rng.sample(["a", "b", "c", "epoch_end", "unknown"], rng.randint(1, 3))
    boxes, tree, obs, lists = [], [], [], []

    def leaf():
        boxes.append([])
        i, box = len(boxes), boxes[-1]
        x = rng.random()
        if x < 0.4:
            kk = some()
            return Probe(kk, box), [{"leaf": i, "keys": kk}]
        if x < 0.75:
            k = rng.choice(["a", "b", "c"])
            n = Noted(k, box)
            lists.append((i, n))
            return n, [{"leaf": i, "keys": [k]}]
        k = rng.choice(["epoch_end", "a"])
        return EpochEndObserver(lambda v: box.append((k, v)), *([] if k == "epoch_end" else [k])), [{"leaf": i, "keys": [k]}]

    def make(depth):
        if depth and rng.random() < 0.4:
            parts = [make(depth - 1) for _ in range(rng.randint(1, 3))]
            return CompositeObserver([p[0] for p in parts]), [x for p in parts for x in p[1]]
        return leaf()

    for _ in range(rng.randint(1, 4)):
        ob, tr = make(2)
        obs.append(ob)
        tree.append(tr)
    if c["mixin"]:
        class Src(ObservableMixin):
            @property
            def _observable_value_types(self):
                return types
        src = Src()
    else:
        @observable(**types)
        class Src2:
            def __init__(self, x, *, y=1):
                self.x, self.y = x, y
        src = Src2(3, y=4)
        Src2(5).add_observers(obs)            # another source, whose values must not arrive here
    ev = []
    for _ in range(c["n"]):
        x = rng.random()
        if x < 0.35:
            i = rng.randrange(len(obs))
            _, exc = attempt((lambda o: src.add_observers([o, o])) if rng.random() < 0.3 else src.add_observer, obs[i])
            ev.append({"ev": "add", "i": i + 1, "exc": exc})
        elif x < 0.45 and lists:
            i, n = rng.choice(lists)
            n.reset()
            ev.append({"ev": "reset", "leaf": i})
        else:
            kw = {}
            for k in rng.sample(keys, rng.randint(1, len(keys))):
                kw[k] = rng.choice([lambda: None, lambda: 0.5, lambda: rng.randint(-4, 4), lambda: (torch.randint(-8, 9, (rng.randint(1, 3),)) / 8).requires_grad_(), lambda: torch.tensor(0.25),
                                    lambda: torch.randint(-8, 9, (2, 2)) / 8, lambda: "text"])()
            if rng.random() < 0.15:
                items = list(kw.items())
                items.insert(rng.randint(0, len(items)), ("undeclared", 1.0))
                kw = dict(items)
            for b in boxes:
                b.clear()
            rec = [{"key": k, "none": 1, "t": "none", "sh": [], "v": [], "g": 0} if v is None else dict(shown(v), key=k, none=0) for k, v in kw.items()]
            _, exc = attempt(src.notify_observers, **kw)
            ev.append({"ev": "notify", "kw": rec, "exc": exc, "got": [[{"key": k, "val": shown(v)} for k, v in b] for b in boxes]})
    for i, n in lists:
        ev.append({"ev": "values", "leaf": i, "got": [{"key": n.observing_key, "val": shown(v)} for v in n.values]})
    return {"cfg": {"mode": "route", "keys": keys, "types": [kinds[k] for k in keys], "tree": tree, "leaves": len(boxes)}, "ev": ev}


class Shelf(Aggregator):
    def __init__(self, key):
        super().__init__(key)
        self.got = []

    def aggregate(self, values):
        self.got.append(list(values))


def run_window(c, rng):
    s = Shelf("m")
    o = IntervalAggregatingObserver(c["k"] or None, s, observe_epoch_end=c["ends"])
    ev, n = [], 0
    src = observable(m=float, epoch_end=int)(type("Src", (), {"__init__": lambda self: None}))()
    src.add_observer(o)
    for op in c["ops"]:
        s.got = []
        if op == "v":
            n += 1
            _, exc = attempt(src.notify_observers, m=n)
            ev.append({"ev": "value", "v": n, "closed": s.got, "exc": exc})
        else:
            _, exc = attempt(o.flush) if op == "close" else attempt(src.notify_observers, epoch_end=1)
            ev.append({"ev": op, "closed": s.got, "exc": exc})
    _, exc = attempt(s, "other", [1])
    ev.append({"ev": "wrongkey", "exc": exc})
    return {"cfg": {"mode": "window", "k": c["k"], "ends": int(c["ends"])}, "ev": ev}


def run_recent(c, rng):
    a, ws, ev = agg.RecentValuesAggregator("m", size=c["size"]), [], []
    for _ in range(rng.randint(1, 5)):
        w = [torch.randint(-16, 17, (rng.randint(1, 3), 1) if rng.random() < 0.6 else (rng.randint(1, 3),)) / 8 for _ in range(rng.randint(1, 3))]
        w = [x.reshape(-1, 1) if len({y.dim() for y in w}) > 1 else x for x in w]
        _, exc = attempt(a, "m", w)
        ws.append([rows(x) for x in w])
        ev.append({"ev": "recent", "win": list(ws), "size": c["size"], "got": fxl(list(a.values), UNIT), "exc": exc})
    return {"cfg": {"mode": "window", "k": 0, "ends": 0}, "ev": ev}


def run_ranking(c, rng):
    n, t = c["n"], min(c["t"], c["n"])
    net = slate_net(c["seed"], "frechet_sort", n, t)
    base = BaselineNet(2, 2, 1) if c["base"] else None
    trainer = Seq2SlateTrainer(net, baseline_net=base, policy_optimizer=sgd(0.1), baseline_optimizer=sgd(0.1))
    e = RankingPolicyGradientEvaluator(trainer, c["cpe"], reward_network=SlateWorth(torch.tensor([1.0, 0.5, 0.25])) if c["cpe"] else None)
    names = ["eval_baseline_loss", "eval_advantages", "logged_slate_rank_probs", "ranked_slate_rank_probs", "eval_data_pages_g", "eval_data_pages_ng"]
    vals = {k: ValueListObserver(k) for k in names}
    e.add_observers(list(vals.values()))
    ev, total = [], 0
    for i in range(c["batches"]):
        B = rng.randint(1, 3)
        x, state = torch.randint(-8, 9, (B, n, 2)) / 4, torch.rand(B, 2)
        a = torch.stack([torch.randperm(n)[:t] for _ in range(B)])
        rew = torch.randint(-8, 9, (B, 1)) / 4
        b = rlt.PreprocessedRankingInput.from_input(state=state, candidates=x, device=torch.device("cpu"), action=a, logged_propensities=torch.ones(B, 1), slate_reward=rew)
        net.train(rng.random() < 0.5)
        if base is not None:
            base.train(rng.random() < 0.5)
        modes = lambda: [int(net.training), int(base.training) if base is not None else 0]
        with torch.no_grad():
            bv = base(b).flatten() if base is not None else torch.zeros(B)
            lp = net(b, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs.exp().flatten()
            rp = net(b, Seq2SlateMode.RANK_MODE, greedy=True).ranked_per_seq_probs.flatten()
        for v in vals.values():
            v.reset()
        m0 = modes()
        _, exc = attempt(e.evaluate, b)
        total += B
        last = i == c["batches"] - 1
        pages = rows_ = 0
        m1 = modes()
        take = {k: [fxl(v.flatten(), UNIT) for v in vals[k].values] for k in names[:4]}
        if last and not exc:
            _, exc = attempt(e.evaluate_post_training)
            g, ng = vals[names[4]].values, vals[names[5]].values
            pages = len(g) if len(g) == len(ng) else 99
            rows_ = len(g[0].logged_rewards) if g else 0
        ev.append({"ev": "ranking", "exc": exc, "reward": fxl(rew.flatten(), UNIT), "base": fxl(bv, UNIT), "hasbase": int(base is not None), "probs": fxl(lp, UNIT), "rprobs": fxl(rp, UNIT),
                   "loss": take[names[0]], "adv": take[names[1]], "logged": take[names[2]], "ranked": take[names[3]], "train0": m0, "train1": m1,
                   "pages": pages if last else int(c["cpe"]), "rows": rows_ if last else total, "total": total})
    return {"cfg": {"mode": "window", "k": 0, "ends": 0, "cpe": int(c["cpe"])}, "ev": ev}
