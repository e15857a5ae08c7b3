"""P28: process-wide summary writing."""
import logging
import random
import re

import learners  # noqa: F401  (stubs)
import numpy as np
import pytorch_lightning as pl
import torch
from learn import Batches, _Cb
from learners import KINDS, Learner, options
from reagent.core import aggregators as agg
from reagent.core.observers import TensorBoardScalarObserver
from reagent.evaluation.cpe import CpeEstimate, CpeEstimateSet
from reagent.gym.runners.gymrunner import run_episode
from reagent.tensorboardX import SummaryWriter, SummaryWriterContext, summary_writer_context
from reagent.training.loss_reporter import LossReporter
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from vf import attempt, fx, fxl

TRACE = "P28Trace"
GEN = [{"name": "gen", "module": "MC_Summaries", "cfg": "Gen_Summaries.cfg"}]
MC = [("MC_Summaries", "MC_Summaries.cfg")]
NEED = ["enter", "refuse", "leave", "write", "bulk", "step", "train", "episode", "chart", "charts", "access", "lines"]
ASSUMPTIONS = ["writers are stand-ins with the signatures of torch's SummaryWriter that take notes and fail on demand", "contexts are left in the reverse order of entering (with statements)"]
UNIT = 8192
EXC = {"ValueError": ValueError, "KeyError": KeyError, "IndexError": IndexError, "NotImplementedError": NotImplementedError, "RuntimeError": RuntimeError, "TypeError": TypeError, "LookupError": LookupError,
       "Exception": Exception}
THROWN = ["ValueError", "KeyError", "IndexError", "NotImplementedError", "RuntimeError", "TypeError"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    for g in gg[: 250 if q else 4291]:
        yield {"ops": g["h"], "seed": rng.randint(0, 10 ** 6), "writers": 2}
    plain = ["in0", "in1", "in2", "in3", "out", "err", "write", "write", "write", "step", "bulk", "bulk", "chart", "chart", "charts", "refuse", "episode"]
    for _ in range(200 if q else 4000):
        yield {"ops": [rng.choice(plain) for _ in range(rng.randint(4, 14))], "seed": rng.randint(0, 10 ** 6), "writers": 3}
    for i in range(24 if q else 300):
        k = KINDS[i % len(KINDS)]
        ops = [rng.choice(["in0", "in1", "in2", "out", "write", "step"]) for _ in range(rng.randint(0, 4))]
        yield {"ops": ops + ["train"] + [rng.choice(["write", "train", "out", "in1", "bulk"]) for _ in range(rng.randint(0, 3))], "seed": rng.randint(0, 10 ** 6), "writers": 2, "learner": k, "o": dict(options(rng, k), lr=1)}
    for _ in range(30 if q else 300):
        yield {"ops": ["access"] * rng.randint(1, 6), "seed": rng.randint(0, 10 ** 6), "writers": 1}


class Pen(SummaryWriter):
    def __init__(self, ident, box):
        self.ident, self.box, self.fail = ident, box, ""

    def _note(self, f, tag, v, step):
        self.box.append({"w": self.ident, "f": f, "tag": tag, "v": v if isinstance(v, str) else fxl(torch.as_tensor(v).float().flatten(), UNIT), "step": -1 if step is None else int(step)})
        if self.fail:
            raise EXC[self.fail]("on demand")

    def add_scalar(self, tag, scalar_value, global_step=None, walltime=None, new_style=False, double_precision=False):
        self._note("add_scalar", tag, scalar_value, global_step)

    def add_histogram(self, tag, values, global_step=None, bins="tensorflow", walltime=None, max_bins=None):
        self._note("add_histogram", tag, values, global_step)

    def add_text(self, tag, text_string, global_step=None, walltime=None):
        self._note("add_text", tag, text_string, global_step)

    def add_custom_scalars(self, layout):
        self.box.append((self.ident, layout))


class Mod(ReAgentLightningModule):
    def train_step_gen(self, training_batch, batch_idx):
        yield None

    def configure_optimizers(self):
        return []


class Logger(pl.loggers.TensorBoardLogger):
    def __init__(self, ident):
        self._ident = Pen(ident, [])

    @property
    def experiment(self):
        return self._ident


class OtherLogger(pl.loggers.base.DummyLogger):
    pass


class Group(pl.loggers.LoggerCollection):
    pass


class Env:
    """an episode of n steps"""
    possible_actions_mask = None

    def __init__(self, n):
        self.n, self.i = n, 0

    def reset(self):
        return np.zeros(1, np.float32)

    def step(self, a):
        self.i += 1
        return np.zeros(1, np.float32), 1.0, self.i >= self.n, {}


class Walker:
    def act(self, obs, mask=None):
        return np.array([0]), 0.0

    def post_step(self, tr):
        pass

    def post_episode(self, tr):
        pass


def run(c):
    torch.manual_seed(c["seed"])
    rng = random.Random(c["seed"])
    SummaryWriterContext._reset_globals()
    box, noted, ev = [], [], []
    pens, desc = [], []
    for i in range(c["writers"]):
        p = Pen(i + 1, box)
        ign = rng.choice([None, None, [], ["ValueError"], ["KeyError", "NotImplementedError"], ["LookupError"], ["Exception"]])
        note = rng.random() < 0.5
        if ign is not None:
            p.exceptions_to_ignore = tuple(EXC[x] for x in ign)
            if note:
                p.exception_logging_func = lambda e: noted.append(type(e).__name__)
        pens.append(p)
        desc.append({"ignores": ign or [], "note": int(note and ign is not None)})
    frames = []
    take = lambda: [box.pop(0) for _ in range(len(box))]
    mod, loggers = Mod(), None
    for op in c["ops"]:
        if op.startswith("in"):
            w = int(op[2:])
            if w > c["writers"]:
                continue
            cm = summary_writer_context(pens[w - 1] if w else None)
            _, exc = attempt(cm.__enter__)
            frames.append(cm)
            ev.append({"ev": "enter", "w": w, "exc": exc})
        elif op in ("out", "err"):
            if frames:
                ev.append(leave(frames.pop(), op == "err", rng))
        elif op == "refuse":
            _, exc = attempt(summary_writer_context(rng.choice(["a writer", 3, [], object()])).__enter__)
            ev.append({"ev": "refuse", "exc": exc})
        elif op == "step":
            SummaryWriterContext.increase_global_step()
            ev.append({"ev": "step"})
        elif op == "write":
            f = rng.choice(["add_scalar", "add_histogram", "add_text"])
            v = "words" if f == "add_text" else torch.randint(-16, 17, (1 if f == "add_scalar" else 3,)) / 8
            fail = rng.choice(THROWN) if rng.random() < 0.4 else ""
            for p in pens:
                p.fail = fail
            step = rng.choice([-1, -1, -1, 0, 7])
            _, exc = attempt(getattr(SummaryWriterContext, f), "t", v, **({} if step < 0 else {"global_step": step}))
            for p in pens:
                p.fail = ""
            ev.append({"ev": "write", "f": f, "tag": "t", "v": v if f == "add_text" else fxl(v, UNIT), "step": step, "fail": fail, "exc": exc, "calls": take(), "noted": list(noted)})
            noted.clear()
        elif op == "bulk":
            ev += bulk(rng, take)
        elif op == "chart":
            cat, title, tags = rng.choice(["a", "b", "b", ""]), rng.choice(["x", "y", "z", ""]), rng.sample(["p", "q", "r"], rng.randint(1, 3))
            kw = {k: v for k, v in (("category", cat), ("title", title)) if v or rng.random() < 0.5}
            _, exc = attempt(SummaryWriterContext.add_custom_scalars_multilinechart, tags, **kw)
            ev.append({"ev": "chart", "cat": cat, "title": title, "tags": tags, "exc": exc})
        elif op == "charts":
            to = rng.randint(1, c["writers"])
            _, exc = attempt(SummaryWriterContext.add_custom_scalars, pens[to - 1])
            got = take()
            m = got[0][1] if len(got) == 1 else {}
            ev.append({"ev": "charts", "to": to, "w": got[0][0] if len(got) == 1 else 0, "exc": exc, "got": [{"cat": k, "title": t, "type": x[0], "tags": list(x[1])} for k, d in m.items() for t, x in d.items()]})
        elif op == "episode":
            n = rng.randint(1, 4)
            cut = rng.random() < 0.3
            _, exc = attempt(run_episode, Env(n), Walker(), 0, max(1, n - 1) if cut else None)
            ev.append({"ev": "episode", "n": max(1, n - 1) if cut else n, "after": reached(), "exc": exc})
        elif op == "train":
            ev.append(train(c, rng, take))
        elif op == "access":
            if loggers is None or rng.random() < 0.6:
                kind, loggers = rng.choice(["none", "one", "one", "other", "group", "group"]), []
                new = lambda: Logger(rng.randint(1, 9)) if rng.random() < 0.5 else OtherLogger()
                if kind == "none":
                    lg = None
                elif kind in ("one", "other"):
                    lg = Logger(rng.randint(1, 9)) if kind == "one" else OtherLogger()
                    loggers = [lg]
                else:
                    loggers = [new() for _ in range(rng.randint(1, 3))]
                    lg = Group(loggers)
                mod.logger = lg
            got, exc = attempt(lambda: mod.summary_writer)
            ev.append({"ev": "access", "exc": exc, "got": got.ident if isinstance(got, Pen) else 0, "loggers": [{"tb": int(isinstance(x, Logger)), "id": x.experiment.ident if isinstance(x, Logger) else 0} for x in loggers]})
    while frames:
        ev.append(leave(frames.pop(), False, rng))
    fail = SummaryWriterContext.add_scalar("t", 1.0)
    assert fail is None
    ev.append({"ev": "write", "f": "add_scalar", "tag": "t", "v": [UNIT], "step": -1, "fail": "", "exc": "", "calls": take(), "noted": []})
    return {"cfg": {"writers": desc}, "ev": ev}


def leave(cm, err, rng):
    if not err:
        _, exc = attempt(cm.__exit__, None, None, None)
        return {"ev": "leave", "err": "", "exc": exc}
    x = EXC[rng.choice(THROWN)]("inside")
    try:
        swallowed = cm.__exit__(type(x), x, None)
        exc = "" if swallowed else type(x).__name__
    except Exception as e:
        exc = type(e).__name__
    return {"ev": "leave", "err": type(x).__name__, "exc": exc}


def bulk(rng, take):
    """components that write several summaries"""
    q = lambda: rng.randint(-16, 16) / 8
    sc = lambda tag, v: {"f": "add_scalar", "tag": tag, "v": [fx(v, UNIT)]}
    hist = lambda tag, vs: [{"f": "add_histogram", "tag": tag, "v": fxl(vs, UNIT)}, sc(tag + "/mean", sum(vs) / len(vs))]
    kind = rng.choice(["cpe", "lines", "loss", "scalar", "hist", "acts", "counts"])
    step, b, out = -1, rng.choice([1, 2, 4]), []
    if kind == "cpe":
        est = [q() if rng.random() < 0.8 else float("nan") for _ in range(6)]
        e = lambda v: CpeEstimate(q(), v, q(), q())
        s = CpeEstimateSet(direct_method=e(est[0]), inverse_propensity=e(est[1]), doubly_robust=e(est[2]), sequential_doubly_robust=e(est[3]), weighted_doubly_robust=e(est[4]), magic=e(est[5]))
        _, exc = attempt(s.log_to_tensorboard, "m")
        names = ["Direct_Method_Reward", "IPS_Reward", "Doubly_Robust_Reward", "Sequential_Doubly_Robust", "Weighted_Sequential_Doubly_Robust", "MAGIC"]
        want = [sc("CPE/m/" + n, 0.0 if v != v else v) for n, v in zip(names, est)]
    elif kind == "lines":
        return [lines(q)]
    elif kind == "loss":
        r, step = LossReporter(), rng.randint(0, 5)
        r.td_loss, r.reward_loss = [q() for _ in range(b)], [q() for _ in range(rng.choice([0, 2]))]
        _, exc = attempt(r.log_to_tensorboard, step)
        m = lambda x: sum(x) / len(x) if x else 0.0
        want = [sc("Training/td_loss", m(r.td_loss)), sc("Training/reward_loss", m(r.reward_loss)), sc("Training/imitator_loss", 0.0)]
    elif kind == "scalar":
        v, key = q(), rng.choice([None, "shown"])
        _, exc = attempt(TensorBoardScalarObserver("k", key).update, "k", torch.tensor([v]))
        want = [sc(key or "k", v)]
    elif kind == "hist":
        vs = [q() for _ in range(b)]
        _, exc = attempt(agg.TensorBoardHistogramAndMeanAggregator("k", "h"), "k", [torch.tensor([v]) for v in vs])
        want = hist("h", vs)
    else:
        title = rng.choice(["t1", "t2", "t3"])
        acts = ["a", "b", "c"][: rng.randint(1, 3)]
        if kind == "acts":
            m = [[q() for _ in acts] for _ in range(b)]
            a, exc = attempt(agg.TensorBoardActionHistogramAndMeanAggregator, "k", "cat", title, acts)
            out.append({"ev": "chart", "cat": "cat", "title": title, "tags": [f"cat/{title}/{x}/mean" for x in acts], "exc": exc})
            if a is None:
                return out
            _, exc = attempt(a, "k", [torch.tensor([r]) for r in m])
            want = [x for i, a in enumerate(acts) for x in hist(f"cat/{title}/{a}", [r[i] for r in m])]
        else:
            ids = [rng.randrange(len(acts)) for _ in range(b)]
            a, exc = attempt(agg.TensorBoardActionCountAggregator, "k", title, acts)
            out.append({"ev": "chart", "cat": "actions", "title": title, "tags": [f"actions/{title}/{x}" for x in acts], "exc": exc})
            if a is None:
                return out
            _, exc = attempt(a, "k", [torch.tensor([i]) for i in ids])
            want = [sc(f"actions/{title}/{a}", ids.count(i)) for i, a in enumerate(acts)]
    return out + [{"ev": "bulk", "exc": exc, "calls": take(), "want": want, "step": step}]


def reached():
    """the step a write would now be made at"""
    box = []
    with summary_writer_context(Pen(0, box)):
        SummaryWriterContext.add_scalar("at", 0.0)
    return box[0]["step"]


def lines(q):
    """the estimates as told in the log"""
    names = {"inverse propensity": "inverse_propensity", "direct method": "direct_method", "reward doubly robust": "doubly_robust", "weighted doubly robust": "weighted_doubly_robust",
             "sequential doubly robust": "sequential_doubly_robust", "magic": "magic"}
    s = CpeEstimateSet(**{n: CpeEstimate(q(), q(), abs(q()), abs(q())) for n in names.values()})
    said = []

    class Ear(logging.Handler):
        def emit(self, record):
            said.append(record.getMessage())

    ear, lg = Ear(), logging.getLogger("reagent.evaluation.cpe")
    old, off = lg.level, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    lg.addHandler(ear)
    lg.setLevel(logging.INFO)
    _, exc = attempt(s.log)
    lg.removeHandler(ear)
    lg.setLevel(old)
    logging.disable(off)
    got = []
    for line in said:
        n = [v for k, v in names.items() if k in line.lower()]
        if n:
            got.append({"est": n[0], "num": fxl([float(x) for x in re.findall(r"-?\d+\.\d+|nan", line)], UNIT)})
    return {"ev": "lines", "exc": exc, "got": got, "want": [{"est": n, "num": fxl([e.normalized, e.normalized_std_error, e.raw, e.raw_std_error], UNIT)} for n, e in s._asdict().items() if e is not None]}


def train(c, rng, take):
    L = Learner(c["learner"], c["o"], rng.randint(0, 10 ** 6))
    n, ep = rng.randint(1, 3), rng.randint(1, 2)
    bs = [L.batch(rng.randint(0, 10 ** 6), 2) for _ in range(n)]
    tr = pl.Trainer(max_epochs=ep, logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None, num_sanity_val_steps=0,
                    callbacks=[_Cb(lambda b, i: SummaryWriterContext.add_scalar("probe", 1.0), None)])
    take()
    _, exc = attempt(tr.fit, L.trainer, torch.utils.data.DataLoader(Batches(bs), batch_size=None, shuffle=False))
    return {"ev": "train", "n": n * ep, "after": reached(), "exc": exc, "calls": take()}
