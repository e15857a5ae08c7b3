"""Drive real trainers through the real training loop and record what every optimizer step did.

A training run is recorded through torch's global optimizer step hook, so it does not depend on
how a trainer or the loop is written: each time any optimizer has stepped, the values of all named
networks are read.
"""
import contextlib

import pytorch_lightning as pl
import torch
from torch.optim.optimizer import register_optimizer_step_post_hook


class Recorder:
    """nets: {name: module}; after every optimizer step calls f(index, names_of_optimized, optimizer)."""

    def __init__(self, nets, on_step):
        self.nets = {k: v for k, v in nets.items() if v is not None}
        self.on_step = on_step
        self.index = 0
        self.depth = 0

    def owned(self, opt):
        ids = {id(p) for g in opt.param_groups for p in g["params"]}
        return sorted(k for k, m in self.nets.items() if params_of(m) and all(id(p) in ids for p in params_of(m)))

    def __enter__(self):
        def hook(opt, args, kwargs):
            self.on_step(self.index, self.owned(opt), opt)
            self.index += 1
        self.h = register_optimizer_step_post_hook(hook)
        return self

    def __exit__(self, *a):
        self.h.remove()


def params_of(m):
    return [m] if isinstance(m, torch.nn.Parameter) else list(m.parameters())


class Batches(torch.utils.data.Dataset):
    def __init__(self, bs):
        self.bs = bs

    def __len__(self):
        return len(self.bs)

    def __getitem__(self, i):
        return self.bs[i]


class _Cb(pl.Callback):
    def __init__(self, start, end):
        self.start, self.end = start, end

    def on_train_batch_start(self, trainer, model, batch, batch_idx, *a):
        if self.start:
            self.start(batch, batch_idx)

    def on_train_batch_end(self, trainer, model, outputs, batch, batch_idx, *a):
        if self.end:
            self.end(batch, batch_idx)


def fit(model, batches, on_step=None, nets=None, on_batch_start=None, on_batch_end=None, epochs=1, callbacks=()):
    """one run of the real training loop over the given batches"""
    tr = pl.Trainer(max_epochs=epochs, logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None,
                    callbacks=[_Cb(on_batch_start, on_batch_end), *callbacks], num_sanity_val_steps=0)
    dl = torch.utils.data.DataLoader(Batches(batches), batch_size=None, shuffle=False)
    with (Recorder(nets, on_step) if on_step else contextlib.nullcontext()):
        tr.fit(model, dl)
    return tr


class TabQ(torch.nn.Module):
    """Q(state) for one-hot states: one row of values (of any shape) per state"""

    def __init__(self, table):
        super().__init__()
        self.table = torch.nn.Parameter(torch.tensor(table, dtype=torch.float32))

    def forward(self, x):
        x = getattr(x, "float_features", x)
        return torch.tensordot(x, self.table, dims=([1], [0]))


class TabQA(torch.nn.Module):
    """Q(state, action) for one-hot states and one-hot actions; table [S][A] or [S][A][K]"""

    def __init__(self, table):
        super().__init__()
        self.table = torch.nn.Parameter(torch.tensor(table, dtype=torch.float32))

    def forward(self, s, a):
        v = torch.tensordot(s.float_features, self.table, dims=([1], [0]))
        a = a.float_features
        if v.dim() == 2:
            return (v * a).sum(1, keepdim=True)
        return (v * a.unsqueeze(-1)).sum(1)
