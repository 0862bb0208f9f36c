"""simulated torch.distributed: collectives between simulated processes"""

from __future__ import annotations
from sim.core import cur_task, WaitObj

_mods = {}


class World:
    """one job: all ranks of one attempt"""

    def __init__(self, sim, size, violate, backend, async_src):
        self.sim, self.size, self.violate, self.backend, self.async_src = sim, size, violate, backend, async_src
        self.groups = {}
        self.procs = {}  # rank -> proc
        self.broken = False
        self.count = {}
        self.waiters = WaitObj()

    def group(self, key):
        if key not in self.groups:
            self.groups[key] = dict(key=key, idx=[0] * self.size, ops={})
        return self.groups[key]


class Op:
    """one collective operation"""

    def __init__(self, sig):
        self.sig, self.inputs, self.done, self.result = sig, {}, False, None


def me():
    t = cur_task()
    return t.proc.data.get("dist") if t is not None else None  # (world, rank)


def collective(key, sig, value, finish, root=None):
    """
    :param sig: must be the same on all ranks
    :param finish: func(dict rank -> value) -> result. called once when enough ranks are there
    :param root: if given, only its value is needed
    """
    w, rank = me()
    sim = w.sim
    g = w.group(key)
    n = g["idx"][rank]
    g["idx"][rank] += 1
    sim.event("collective", (key, n, rank) + sig)
    w.count[sig[0]] = w.count.get(sig[0], 0) + 1
    op = g["ops"].setdefault(n, Op(sig))
    if op.sig != sig:
        w.violate("collective-mismatch", "group %s, operation %i: rank %i calls %r, others called %r" % (key, n, rank, sig, op.sig))
        w.broken = True
        sim.wake_all(w.waiters)
    op.inputs[rank] = value
    if not op.done and (len(op.inputs) == w.size or (root is not None and root in op.inputs and w.async_src)):
        op.result = finish(op.inputs)
        op.done = True
        sim.wake_all(w.waiters)
    while not op.done:
        if w.broken:
            raise RuntimeError("[sim] Connection closed by peer")
        sim.block(w.waiters, info="collective %s" % (sig[0],))
    if len(op.inputs) == w.size:
        g["ops"].pop(n, None)
    return op.result


def install():
    import torch
    import torch.distributed as dist

    if _mods:
        return
    orig = {
        k: getattr(dist, k)
        for k in "init_process_group destroy_process_group is_initialized get_rank get_world_size get_backend all_reduce broadcast broadcast_object_list new_group barrier all_gather reduce".split()
    }

    class Group(dist.ProcessGroup):
        pass

    def wrap(name):
        def deco(f):
            def g(*a, **k):
                if cur_task() is None:
                    return orig[name](*a, **k)
                return f(*a, **k)

            setattr(dist, name, g)
            return f

        return deco

    def gkey(group):
        return 0 if group is None else group.sim_key

    @wrap("init_process_group")
    def init_process_group(backend=None, **_k):
        t = cur_task()
        w, rank = t.proc.data["dist_env"]
        t.proc.data["dist"] = (w, rank)
        w.procs[rank] = t.proc
        if backend:
            w.backend = backend
        collective(0, ("init",), None, lambda d: None)

    @wrap("destroy_process_group")
    def destroy_process_group(*_a, **_k):
        cur_task().proc.data.pop("dist", None)

    @wrap("is_initialized")
    def is_initialized():
        return me() is not None

    @wrap("get_rank")
    def get_rank(group=None):
        return me()[1]

    @wrap("get_world_size")
    def get_world_size(group=None):
        return me()[0].size

    @wrap("get_backend")
    def get_backend(group=None):
        return me()[0].backend or "undefined"

    def reduce_(op, vs):
        r = torch.stack([v.clone() for v in vs])
        if op == dist.ReduceOp.SUM:
            return r.sum(0).to(vs[0].dtype)
        if op == dist.ReduceOp.AVG:
            return (r.sum(0) / len(vs)).to(vs[0].dtype)
        if op == dist.ReduceOp.MIN:
            return r.min(0).values
        if op == dist.ReduceOp.MAX:
            return r.max(0).values
        if op == dist.ReduceOp.PRODUCT:
            return r.prod(0).to(vs[0].dtype)
        raise NotImplementedError(op)

    opnames = [(dist.ReduceOp.SUM, "sum"), (dist.ReduceOp.AVG, "avg"), (dist.ReduceOp.MIN, "min"), (dist.ReduceOp.MAX, "max"), (dist.ReduceOp.PRODUCT, "product")]

    @wrap("all_reduce")
    def all_reduce(tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
        assert not async_op
        w, rank = me()
        name = [n for o, n in opnames if o == op][0]
        if name == "avg" and w.backend == "gloo":
            raise RuntimeError("Cannot use ReduceOp.AVG with Gloo")
        sig = ("all_reduce", name, str(tensor.dtype), tuple(tensor.shape))
        r = collective(gkey(group), sig, tensor.detach().clone(), lambda d: reduce_(op, [d[k] for k in sorted(d)]))
        with torch.no_grad():
            tensor.copy_(r)

    @wrap("broadcast")
    def broadcast(tensor, src, group=None, async_op=False):
        assert not async_op
        sig = ("broadcast", src, str(tensor.dtype), tuple(tensor.shape))
        r = collective(gkey(group), sig, tensor.detach().clone(), lambda d: d[src], root=src)
        with torch.no_grad():
            tensor.copy_(r)

    @wrap("broadcast_object_list")
    def broadcast_object_list(object_list, src=0, group=None, device=None):
        import pickle

        sig = ("broadcast_object_list", src, len(object_list))
        data = pickle.dumps(object_list) if me()[1] == src else None
        r = collective(gkey(group), sig, data, lambda d: d[src], root=src)
        if me()[1] != src:
            object_list[:] = pickle.loads(r)

    @wrap("barrier")
    def barrier(group=None, **_k):
        collective(gkey(group), ("barrier",), None, lambda d: None)

    @wrap("new_group")
    def new_group(ranks=None, backend=None, **_k):
        assert ranks is None
        w, rank = me()
        n = collective(0, ("new_group",), None, lambda d: len(w.groups))
        g = Group(rank, w.size)
        g.sim_key = n + 1
        w.group(g.sim_key)
        return g

    class SimDDP(torch.nn.Module):
        """gradient averaging, like DistributedDataParallel (no buffers, all parameters used)"""

        def __init__(self, module, device_ids=None, **_k):
            super().__init__()
            self.module = module
            self.sync = True
            for p in module.parameters():
                dist.broadcast(p.data, src=0)
            for p in module.parameters():
                p.register_post_accumulate_grad_hook(self._hook)

        def _hook(self, p):
            if self.sync_fwd:
                dist.all_reduce(p.grad, op=dist.ReduceOp.SUM)
                p.grad /= dist.get_world_size()

        def no_sync(self):
            """context manager"""
            import contextlib

            @contextlib.contextmanager
            def f():
                old, self.sync = self.sync, False
                try:
                    yield
                finally:
                    self.sync = old

            return f()

        def forward(self, *a, **k):
            """forward"""
            self.sync_fwd = self.sync  # the setting at the forward call decides
            return self.module(*a, **k)

    _mods.update(SimDDP=SimDDP)
