"""P15: accounting, stopping, saving and resuming of training runs, and what legacy learners hand over."""
import glob
import hashlib
import os
import random
import shutil
import tempfile

import pytorch_lightning as pl
import torch
from torch.optim.optimizer import register_optimizer_step_post_hook

from learn import Batches
from learners import KINDS, Learner, options
import legacy
from reagent.tensorboardX import SummaryWriter, SummaryWriterContext, summary_writer_context
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from reagent.workflow.utils import train_eval_lightning
from vf import attempt

TRACE = "P15Trace"
GEN = [{"name": "gen", "module": "MC_TrainingRun", "cfg": "Gen_TrainingRun.cfg"}]
MC_THOROUGH = [("MC_TrainingRun", "MC_TrainingRun.cfg")]
NEED = ["begin", "batch", "end", "crash_at", "flush", "evalstart", "eval", "twin", "parts", "loaded", "crossed"]
ASSUMPTIONS = ["each run starts in a fresh process: the process-wide summary counters are reset before each run",
               "a run is interrupted by an exception inside a training step or by not being saved; a torn checkpoint file is not considered"]
MANAGED = ["dqn", "c51", "qrdqn", "crr", "td3", "sac"]


def scenarios(tier, rng, gens):
    q = tier == "quick"
    gg = gens["gen"]
    rng.shuffle(gg)
    kinds = ["syn"] * 3 + MANAGED + ["pdqn", "slateq"]
    for i, g in enumerate(gg[: 110 if q else 680]):
        k = kinds[i % len(kinds)]
        yield {"kind": "job", "learner": k, "o": options(rng, k), "b": g["b"], "runs": [{"n": r["n"], "crash": r["crash"]} for r in g["runs"]], "seed": rng.randint(0, 10 ** 6),
               "evals": rng.choice([0, 1, 3])}
    for _ in range(30 if q else 600):
        k = rng.choice(kinds)
        runs = [{"n": rng.randint(1, 4), "crash": rng.choice([[], [], [rng.randint(0, 5), rng.randint(0, 3)]])} for _ in range(rng.randint(1, 4))]
        yield {"kind": "job", "learner": k, "o": options(rng, k), "b": rng.randint(1, 5), "runs": runs, "seed": rng.randint(0, 10 ** 6), "evals": rng.choice([0, 2])}
    for k in MANAGED + ["pdqn", "slateq"]:
        for _ in range(4 if q else 40):
            yield {"kind": "twin", "learner": k, "o": dict(options(rng, k), adam=True), "b": rng.randint(1, 3), "runs": [{"n": rng.randint(1, 2), "crash": []} for _ in range(rng.randint(2, 3))],
                   "seed": rng.randint(0, 10 ** 6), "evals": 0}
    for k in legacy.KINDS:
        for base in (False, True):
            for _ in range(2 if q else 8):
                yield {"kind": "legacy", "learner": k, "base": base, "seed": rng.randint(0, 10 ** 6)}
    for _ in range(3 if q else 20):
        a, b = rng.choice(MANAGED), rng.choice(MANAGED)
        yield {"kind": "cross", "learner": a, "other": b, "o": options(rng, a), "p": options(rng, b), "seed": rng.randint(0, 10 ** 6)}


class Data(pl.LightningDataModule):
    def __init__(self, bs, ev):
        super().__init__()
        self.bs, self.ev = bs, ev

    def train_dataloader(self):
        return torch.utils.data.DataLoader(Batches(self.bs), batch_size=None)

    def test_dataloader(self):
        return torch.utils.data.DataLoader(Batches(self.ev), batch_size=None) if self.ev else None


class Boom(Exception):
    pass


class Writer(SummaryWriter):
    """remembers the step of the last scalar written"""

    def __init__(self):
        self.step = -1

    def add_scalar(self, tag, value, global_step=None, **k):
        self.step = global_step


for _n in dir(SummaryWriter):
    if _n.startswith("add_") and _n != "add_scalar":
        setattr(Writer, _n, lambda self, *a, **k: None)


class Synthetic(ReAgentLightningModule):
    def __init__(self, seed):
        super().__init__()
        r = random.Random(seed)
        self.a, self.b = (torch.nn.Linear(1, 1) for _ in range(2))
        with torch.no_grad():
            for p in self.parameters():
                p.fill_(r.randint(-8, 8) / 8)
        self.n = r.randint(1, 3)
        self.evlog = None

    def configure_optimizers(self):
        return [torch.optim.Adam(m.parameters(), lr=0.01) for m in [self.a, self.b, self.a][: self.n]]

    def train_step_gen(self, training_batch, batch_idx: int):
        for k in range(self.n):
            m = [self.a, self.b, self.a][k]
            yield (m(training_batch["x"]) - 1).pow(2).mean() * (k + 1)

    def test_step(self, batch, batch_idx):
        if self.evlog:
            self.evlog(batch)

    def test_epoch_end(self, outs):
        pass


def digest(m):
    h = hashlib.sha1()
    for k, v in sorted(m.state_dict().items()):
        if v is not None and not k.startswith("_"):
            h.update(k.encode())
            h.update(v.detach().double().numpy().tobytes())
    return h.hexdigest()[:12]


def copy_newest(d, out):
    files = sorted(glob.glob(d + "/**/*.ckpt", recursive=True), key=os.path.getmtime)
    if not files:
        return None
    to = tempfile.mkdtemp(dir=out) + "/left"
    shutil.copyfile(files[-1], to)
    return to


class FlushLog:
    def __init__(self, f):
        self.f = f

    def log(self, *a, **k):
        pass

    def flush(self, epoch):
        self.f(epoch)


def build(scn, seed, path=None):
    if scn["learner"] == "syn":
        return Synthetic(seed), None, [{"x": torch.full((1, 1), float(i + 1))} for i in range(scn["b"])]
    L = Learner(scn["learner"], scn["o"], seed, path)
    return L.trainer, L, [L.batch(scn["seed"] + i) for i in range(scn["b"])]


def one_run(scn, k, path, evs, out, rolling):
    """one process: build the learner, resume from path if any, train, save; returns the checkpoint to resume from"""
    r = scn["runs"][k]
    SummaryWriterContext._reset_globals()
    torch.manual_seed(scn["seed"] + 7 * k)
    # a later process builds its own (differently initialised) learner
    m, L, bs = build(scn, scn["seed"] + (k), path)
    ids = {id(b): i for i, b in enumerate(bs)}
    ev = [{"x": torch.full((1, 1), float(100 + i))} for i in range(scn["evals"])] if L is None else []
    gen, w = m.train_step_gen, Writer()
    last = [digest(m)]
    seen, dead = [], []
    d = tempfile.mkdtemp(dir=out)

    def find(b):
        if L is None:
            return int(b["x"].item()) - 1
        for i, x in enumerate(bs):
            if torch.equal(x.state.float_features, b.state.float_features) and torch.equal(x.reward, b.reward):
                return i
        return -1

    def step(training_batch, batch_idx):
        epoch = m.trainer.current_epoch
        SummaryWriterContext.add_scalar("probe", 0)
        e = {"ev": "batch", "id": find(training_batch), "idx": batch_idx, "epoch": epoch, "step": w.step, "w": digest(m)}
        seen.append(1)
        if len(seen) > 40:
            raise Boom("training does not stop")
        if list(r["crash"]) == [epoch, batch_idx]:
            # the process is killed here: only the files written so far survive
            dead.append(copy_newest(d, out))
            evs.append({"ev": "crash_at", "w": e["w"], "epoch": epoch, "idx": batch_idx})
            raise Boom()
        evs.append(e)
        torch.manual_seed(scn["seed"] + 100 * epoch + batch_idx)
        yield from gen(training_batch, batch_idx)
    m.train_step_gen = step
    evs.append({"ev": "begin", "n": r["n"], "resumed": path is not None, "w": last[0]})
    hook = register_optimizer_step_post_hook(lambda *a: last.__setitem__(0, digest(m)))
    os.chdir(d)
    tr = None
    try:
        with summary_writer_context(w):
            if scn["learner"] in MANAGED:
                _, exc = attempt(L.manager.train, None, None, Data(bs, ev), r["n"], None, None)
            else:
                if L is None:
                    m.set_reporter(FlushLog(lambda e: evs.append({"ev": "flush", "epoch": e})))
                    n = [0]

                    def evlog(b):
                        if n[0] == 0:
                            evs.append({"ev": "evalstart"})
                        n[0] += 1
                        evs.append({"ev": "eval", "id": int(b["x"].item()) - 99, "w": digest(m)})
                    m.evlog = evlog
                tr, exc = attempt(train_eval_lightning, None, None, m, Data(bs, ev), r["n"], False, checkpoint_path=path)
    finally:
        hook.remove()
    if exc == "Boom" and evs[-1]["ev"] == "crash_at":
        return dead[0] or path
    evs.append({"ev": "end", "exc": exc, "w": digest(m), "last": last[0], "late": bool(r["crash"])})
    rolling.append(digest(m))
    if exc:
        return path
    if r["crash"]:
        # the process died after its last epoch, before the state was saved
        return copy_newest(d, out) or path
    new = d + "/saved"
    if scn["learner"] in MANAGED:
        _, exc = attempt(L.manager.save_trainer, new)
    else:
        # what StoppingEpochCallback documents
        m._cleanly_stopped[0] = True
        _, exc = attempt(tr.save_checkpoint, new)
    evs.append({"ev": "save", "exc": exc})
    return new


def job(scn, out):
    evs, rolling, path = [], [], None
    for k in range(len(scn["runs"])):
        n = len(evs)
        path = one_run(scn, k, path, evs, out, rolling)
        if any(e.get("exc") for e in evs[n:]):
            break
    return evs, rolling


def run(scn):
    out = tempfile.mkdtemp(prefix="p15")
    cwd = os.getcwd()
    try:
        cfg = {"kind": scn["kind"], "B": scn.get("b", 0), "E": scn.get("evals", 0), "learner": scn["learner"], "base": scn.get("base", False)}
        if scn["kind"] == "job":
            return {"cfg": cfg, "ev": job(scn, out)[0]}
        if scn["kind"] == "twin":
            evs, a = job(scn, out)
            straight = dict(scn, runs=[{"n": sum(r["n"] for r in scn["runs"]), "crash": []}])
            _, b = job(straight, out)
            evs.append({"ev": "twin", "a": a[-1], "b": b[-1]})
            return {"cfg": cfg, "ev": evs}
        if scn["kind"] == "cross":
            return {"cfg": cfg, "ev": cross(scn, out)}
        return {"cfg": cfg, "ev": handover(scn)}
    finally:
        os.chdir(cwd)
        shutil.rmtree(out, ignore_errors=True)


def cross(scn, out):
    """two jobs on one machine save at the same time"""
    jobs = []
    for i, (k, o) in enumerate([(scn["learner"], scn["o"]), (scn["other"], scn["p"])]):
        SummaryWriterContext._reset_globals()
        L = Learner(k, o, scn["seed"] + i)
        os.chdir(tempfile.mkdtemp(dir=out))
        L.manager.train(None, None, Data([L.batch(scn["seed"])], []), 1, None, None)
        jobs.append(L)
    real, inner = pl.Trainer.save_checkpoint, []

    def save(self, *a, **k):
        r = real(self, *a, **k)
        if not inner:
            inner.append(1)
            jobs[1].manager.save_trainer(out + "/b")
        return r
    pl.Trainer.save_checkpoint = save
    try:
        jobs[0].manager.save_trainer(out + "/a")
    finally:
        pl.Trainer.save_checkpoint = real
    evs = []
    for L, f in zip(jobs, "ab"):
        sd = torch.load(out + "/" + f)
        sd = sd.get("state_dict", sd)
        mine = L.trainer.state_dict()
        same = set(sd) == set(mine) and all(mine[k] is None or torch.equal(sd[k], mine[k]) for k in mine if not k.startswith("_"))
        evs.append({"ev": "crossed", "same": same})
    return evs


def handover(scn):
    a = legacy.make(scn["learner"], scn["base"], scn["seed"])
    b = legacy.make(scn["learner"], scn["base"], scn["seed"] + 1)
    nets = lambda t: {k: v for k, v in legacy.nets(t).items()}
    parts, exc = attempt(lambda: sorted(a.warm_start_components()))
    sd, exc2 = attempt(a.state_dict)
    evs = [{"ev": "parts", "declared": parts or [], "saved": sorted(sd or {}), "exc": exc or exc2}]
    if sd is None:
        return evs
    f = tempfile.TemporaryFile()
    torch.save(sd, f)
    f.seek(0)
    na, nb0 = {k: digest(v) for k, v in nets(a).items()}, {k: digest(v) for k, v in nets(b).items()}
    _, exc = attempt(b.load_state_dict, torch.load(f))
    nb = {k: digest(v) for k, v in nets(b).items()}
    evs.append({"ev": "loaded", "exc": exc, "nets": [{"name": k, "src": na[k], "before": nb0[k], "after": nb[k]} for k in sorted(nb)]})
    return evs
