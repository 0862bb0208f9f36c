"""functions of the user's config. they must be importable in the loader worker"""

from __future__ import annotations
from sim.core import cur_task


class SimValue:
    """like a value of multiprocessing.Manager: one value, the same in all processes"""

    def __init__(self, _tc=None, v=0, key=None):
        t = cur_task()
        reg = _values(t.sim)
        if key is None:
            key = len(reg)
            reg[key] = v
        self.key = key

    def __reduce__(self):
        return SimValue, (None, 0, self.key)

    def _get(self):
        sim = cur_task().sim
        sim.event("value-get")
        return _values(sim)[self.key]

    def _set(self, v):
        sim = cur_task().sim
        sim.event("value-set")
        _values(sim)[self.key] = v

    value = property(_get, _set)


def _values(sim):
    if not hasattr(sim, "shared_values"):
        sim.shared_values = {}
    return sim.shared_values


class StubManager:
    """stand-in for multiprocessing.Manager (server process)"""

    def __init__(self, *a, **k):
        pass

    Value = SimValue


class DynInt:
    """dynamic batch_size / max_seqs"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, *, epoch, seq_idx, epoch_continuous, **_kw):
        return self.a if epoch % 2 else self.b


def get_model(**_kw):
    """model"""
    import torch

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.l = torch.nn.Linear(2, 1)

    return Net()


def train_step(*, model, extern_data, **_kw):
    """records the batch"""
    import returnn.frontend as rf

    sim = cur_task().sim
    data, classes = extern_data["data"], extern_data["classes"]
    ctx = rf.get_run_ctx()
    train = ctx.train_flag is True or (not isinstance(ctx.train_flag, bool) and bool(ctx.train_flag.raw_tensor))
    tags = extern_data["seq_tag"].raw_tensor
    sim.event("step")
    cl = classes.get_sequence_lengths() if False else classes.dims[1].dyn_size_ext.raw_tensor
    sim.rec(
        train,
        {
            "seq_tag": tags,
            "data": data.raw_tensor,
            "data:seq_len": data.dims[1].dyn_size_ext.raw_tensor,
            "classes": classes.raw_tensor,
            "classes:seq_len": cl,
        },
    )
    ctx.mark_as_loss(name="l", loss=model.l(data.raw_tensor * 1e-4).sum())


class UserError(Exception):
    """error of user code"""


def forward_step(*, model, extern_data, **_kw):
    """user's forward step. every seq on its own; padding is filled with arbitrary values"""
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim

    sim = cur_task().sim
    p, st = sim.fwd_params, sim.fwd
    data, classes = extern_data["data"], extern_data["classes"]
    batch, time, feat = data.dims
    ctime = classes.dims[1]
    x, c = data.raw_tensor, classes.raw_tensor
    lens, clens = [d.dyn_size_ext.raw_tensor.long() for d in (time, ctime)]
    n, t = x.shape[0], x.shape[1]
    sim.event("fwd-step")
    if p["other_err"] and sim.choose("fwd-err", 2, 0, p["other_err"]):
        sim.count_fault("step-error")
        st["fatal"] = True
        raise UserError("step")
    if t != int(lens.max()) or c.shape[1] != int(clens.max()) or int(batch.get_dim_value()) != n or c.shape[0] != n:
        st["bad"] = "batch %r %r, but batch dim %i and lens %r %r" % (tuple(x.shape), tuple(c.shape), int(batch.get_dim_value()), lens.tolist(), clens.tolist())
    oom = p["oom"] in ("budget", "both") and n > 1 and n * t > p["budget"]
    oom = oom or (p["oom"] in ("random", "both") and bool(sim.choose("oom", 2, 0, p["p_oom"] * (1 if n > 1 else 0.1))))
    if oom:
        sim.count_fault("oom")
        st["ooms"] += 1
        if n == 1 or not p["split"]:
            st["fatal"] = True
        raise torch.cuda.OutOfMemoryError("CUDA out of memory (simulated)")

    def fill(v, ls, dim=1):
        idx = torch.arange(v.shape[dim])
        m = idx[None, :] >= ls[:, None]
        while m.ndim < v.ndim:
            m = m.unsqueeze(-1)
        return torch.where(m, torch.full_like(v, p["pad"]), v)

    out = {}
    for k in p["outs"]:
        if k == "out":
            y = Tensor(k, [batch, time, feat], "float32", raw_tensor=fill(x * 2 + 1, lens))
        elif k == "cls":
            y = Tensor(k, [batch, ctime], str(c.dtype).split(".")[-1], raw_tensor=c)
        elif k == "sum":
            m = torch.arange(t)[None, :] < lens[:, None]
            y = Tensor(k, [batch], "float32", raw_tensor=(x * m[:, :, None]).sum(dim=(1, 2)))
        elif k == "half":
            sz = (lens + 1) // 2
            d = Dim(Tensor("half", [batch], "int32", raw_tensor=sz.to(torch.int32)), name="half")
            y = Tensor(k, [batch, d, Dim(1, name="one")], "float32", raw_tensor=fill(x[:, ::2, :1], sz))
        elif k == "tb":
            y = Tensor(k, [time, batch, feat], "float32", raw_tensor=fill(x + 3, lens).transpose(0, 1))
        elif k == "rev":
            idx = (lens[:, None] - 1 - torch.arange(t)[None, :]).clamp(min=0)
            y = Tensor(k, [batch, feat, time], "float32", raw_tensor=x.gather(1, idx[:, :, None].expand(n, t, 2)).transpose(1, 2))
            y = y.copy_transpose([batch, time, feat])
        elif k == "mat":
            v = x[:, :, 0][:, :, None] * c.to(torch.float32)[:, None, :]
            m = (torch.arange(c.shape[1])[None, :] >= clens[:, None])[:, None, :]
            v = torch.where(m, torch.full_like(v, p["pad"]), fill(v, lens))
            y = Tensor(k, [batch, time, ctime], "float32", raw_tensor=v)
        elif k == "beam":
            beam = Dim(2, name="beam")
            sz = torch.stack([(lens - b).clamp(min=1) for b in (1, 2)], dim=1)
            d = Dim(Tensor("hyp", [batch, beam], "int32", raw_tensor=sz.to(torch.int32)), name="hyp")
            mx = int(sz.max())
            v = torch.stack([fill(x[:, :mx, 0] * (b + 1), sz[:, b - 1]) for b in (1, 2)], dim=1)
            y = Tensor(k, [batch, beam, d], "float32", raw_tensor=v)
        elif k == "tag":
            y = extern_data["seq_tag"]
        out[k] = y
    ctx = rf.get_run_ctx()
    for k, y in out.items():
        ctx.mark_as_output(y, k, dims=None if k in ("out", "cls", "sum", "tag") and p["auto_dims"] else y.dims)
