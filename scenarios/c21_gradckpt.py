"""C21: gradient checkpointing: same values and gradients, in any thread, for any nesting."""

from __future__ import annotations
import contextlib
import gc
import importlib.util
from .common import *

FILE = "returnn/torch/util/gradient_checkpoint.py"
N = 3
RANDOM = ["dropout", "noise"]
VIEWS = ["t", "slice", "detach"]
OPS1 = ["tanh", "sigmoid", "exp", "relu", "softmax", "split", "cumsum", "pow", "inplace", "bf16", "const"] + VIEWS
OPS2 = ["add", "mul", "mul", "matmul", "matmul", "sub", "ln", "where", "stack"]

_torch = None
_orig = {}


def prepare_torch():
    global _torch
    prepare_base()
    import torch
    import torch.utils.checkpoint
    import torch.utils.weak  # noqa

    torch.set_num_threads(1)
    _torch = torch
    cls = torch.autograd.graph.saved_tensors_hooks
    _orig.update(enter=cls.__enter__, exit=cls.__exit__)
    ag = torch._C._autograd
    _orig.update(push=ag._push_saved_tensors_default_hooks, pop=ag._pop_saved_tensors_default_hooks)
    ag._push_saved_tensors_default_hooks, ag._pop_saved_tensors_default_hooks = _push, _pop
    # some lazy inits of torch, outside of the runs
    x = torch.ones(2, 2, requires_grad=True)
    with torch.autocast("cpu", dtype=torch.bfloat16):
        y = torch.utils.checkpoint.checkpoint(lambda: (x @ x).tanh().sum(), use_reentrant=False)
    y.float().backward()
    fresh_module()
    gc.collect()
    gc.freeze()


def fresh_module():
    """a new instance of the module, with its own state"""
    cls = _torch.autograd.graph.saved_tensors_hooks
    cls.__enter__, cls.__exit__ = _orig["enter"], _orig["exit"]
    name = "returnn.torch.util.gradient_checkpoint"
    spec = importlib.util.spec_from_file_location(name, REPO + "/" + FILE)
    mod = importlib.util.module_from_spec(spec)
    import atexit

    reg, atexit.register = atexit.register, lambda f, *a, **k: f
    sys.modules[name] = mod
    try:
        spec.loader.exec_module(mod)
    finally:
        atexit.register = reg
    return mod


class Shadow:
    """
    Shadow of the stacks of hooks in PyTorch, for what PyTorch itself does not check, but which corrupts its memory:
    hooks are popped when there are none, or popped within backprop when entered before (PyTorch restores
    the stack after backprop, with the popped entry), or popped while the hook itself runs (pytorch issue 130734).
    """

    cur = None

    def __init__(self, world):
        self.w = world
        self.stacks = {}
        self.keep = []  # no use-after-free

    def stack(self):
        return self.stacks.setdefault(cur_task().id, [])

    def push(self, pack, unpack):
        e = dict(gid=_torch._C._current_graph_task_id(), running=0)

        def pack_(x):
            e["running"] += 1
            try:
                return pack(x)
            finally:
                e["running"] -= 1

        self.stack().append(e)
        e["keep"] = (pack_, unpack)
        return _orig["push"](pack_, unpack)

    def pop(self):
        st = self.stack()
        if not st:
            return self.w.problem("bad-pop", "saved_tensors_hooks exited, but there are none in this thread")
        e = st.pop()
        gid = _torch._C._current_graph_task_id()
        if e["gid"] != gid or e["running"]:
            self.keep.append(e)
        if e["gid"] != gid:
            self.w.problem("pop-in-backward", "saved_tensors_hooks exited in backprop, but entered before. PyTorch does not support this.")
        if e["running"]:
            self.w.problem("pop-in-hook", "saved_tensors_hooks exited while its hook is running. PyTorch does not support this.")
        return _orig["pop"]()


def _push(pack, unpack):
    if Shadow.cur is not None and cur_task() is not None:
        return Shadow.cur.push(pack, unpack)
    return _orig["push"](pack, unpack)


def _pop():
    if Shadow.cur is not None and cur_task() is not None:
        return Shadow.cur.pop()
    return _orig["pop"]()


class UserError(Exception):
    pass


class Interp:
    """runs the program of one thread"""

    def __init__(self, world, idx, scope):
        self.w = world
        self.idx = idx
        self.scope = scope  # context manager for gradient checkpointing
        self.env = {}
        self.hooks_open = {}  # id of foreign hooks -> whether we are inside of them
        self.weak = {}  # var -> weak ref of tensors which must be freed

    def get(self, name):
        if isinstance(name, int):
            return self.w.leafs[name]
        return self.env[name]

    def run(self, stmts):
        for s in stmts:
            self.w.step(self, s)
            self.stmt(s)

    def block(self, ctx, s):
        try:
            with ctx:
                self.run(s["body"])
                if s.get("raise"):
                    raise UserError()
        except UserError:
            if not s.get("raise"):
                raise

    def stmt(self, s):
        torch = _torch
        k = s["do"]
        if k == "op":
            self.env[s["dst"]] = self.op(s["f"], [self.get(x) for x in s["src"]])
        elif k == "scope":
            self.block(self.scope(), s)
        elif k == "hooks":
            self.block(self.foreign(s), s)
        elif k == "amp":
            # (with the cache, PyTorch holds a global lock during the cast, i.e. also in our preempted code)
            cache = len(self.w.params["threads"]) == 1
            self.block(torch.autocast("cpu", dtype=torch.bfloat16, enabled=s["on"], cache_enabled=cache), s)
        elif k == "nograd":
            self.block(torch.no_grad(), s)
        elif k == "tckpt":
            args = [self.get(x) for x in s["src"]]

            def func(*xs):
                for f in s["fs"]:
                    xs = (self.op(f, list(xs)[: 2 if f in OPS2 else 1]),) + tuple(xs[1:])
                return xs[0]

            self.env[s["dst"]] = torch.utils.checkpoint.checkpoint(func, *args, use_reentrant=False)
        elif k == "del":
            self.env.pop(s["var"], None)
        elif k == "send":
            self.w.send(self, s)
        elif k == "recv":
            self.env[s["dst"]] = self.w.recv(self, s)
        elif k == "back":
            self.backward(s)
        elif k == "track":
            self.weak[s["var"]] = torch._C._WeakTensorRef(self.env[s["var"]])
        elif k == "freed":
            if self.w.sim is not None and not self.weak[s["var"]].expired():
                self.w.problem("not-freed", "tensor %s of the scope is kept until backprop" % s["var"])
        elif k == "clear":
            self.env.clear()
        else:
            raise HarnessError(k)

    def backward(self, s):
        torch = _torch
        y = self.get(s["var"])
        lossy = y.sum()
        leafs = [self.w.leafs[i] for i in s["wrt"]]
        if lossy.requires_grad:
            with self.w.backward_lock(self):
                gs = torch.autograd.grad(lossy, leafs, allow_unused=True, retain_graph=s["retain"] or self.w.params["lock"])
        else:
            gs = [None]
        self.w.result(self, "y", y)
        for g in gs:
            self.w.result(self, "g", g)
        if not s["retain"]:
            self.env.clear()

    def op(self, f, xs):
        torch = _torch
        a = xs[0]
        b = xs[1] if len(xs) > 1 else None
        if f == "add":
            return a + b
        if f == "sub":
            return a - b * 0.5
        if f == "mul":
            return a * b
        if f == "matmul":
            if a.dtype != b.dtype:
                a, b = a.float(), b.float()
            return a @ b
        if f == "where":
            return torch.where(b > 0, a, b)
        if f == "stack":
            return torch.stack([a, b]).mean(0) if a.dtype == b.dtype else a + b
        if f == "ln":
            return torch.nn.functional.layer_norm(a.float(), (N,), b.float()[0])
        if f == "tanh":
            return a.tanh()
        if f == "sigmoid":
            return a.sigmoid()
        if f == "exp":
            return (a * 0.1).exp()
        if f == "relu":
            return a.relu()
        if f == "softmax":
            return a.softmax(dim=-1)
        if f == "split":
            x, y = a.split([1, N - 1])
            return torch.cat([y, x])
        if f == "cumsum":
            return a.cumsum(0)
        if f == "pow":
            return a**2
        if f == "inplace":
            y = a + 1
            y.mul_(0.5)
            y.add_(a)
            return y
        if f == "bf16":
            return a.to(torch.bfloat16).to(torch.float32)
        if f == "const":
            return a * torch.ones(N, N) + torch.arange(N)
        if f == "t":
            return a.t()
        if f == "slice":
            return a[:, list(range(N))[-1] :] * a
        if f == "detach":
            return a.detach()
        if f == "dropout":
            return torch.nn.functional.dropout(a, 0.5)
        if f == "noise":
            return a * torch.rand(N, N)
        raise HarnessError(f)

    def foreign(self, s):
        """some other user of this PyTorch mechanism"""
        torch = _torch
        me = self
        key = id(s)

        def pack(x):
            if not me.hooks_open.get(key):
                me.w.problem("hook-leak", "hooks of a saved_tensors_hooks scope called outside of the scope")
            me.w.n_pack += 1
            x = x.detach()
            return ("packed", x.clone() if s["copy"] else x)

        def unpack(x):
            if not isinstance(x, tuple) or x[0] != "packed":
                me.w.problem("hook-mix", "unpack hook called with %r" % type(x))
            return x[1]

        @contextlib.contextmanager
        def ctx():
            me.hooks_open[key] = True
            try:
                with torch.autograd.graph.saved_tensors_hooks(pack, unpack):
                    yield
            finally:
                me.hooks_open[key] = False

        return ctx()


class World:
    """shared by the threads of the program"""

    def __init__(self, params, scope, sim=None, res=None):
        torch = _torch
        self.params = params
        self.sim = sim
        self.res = res
        g = torch.Generator()
        g.manual_seed(params["seed"])
        self.leafs = [torch.randn(N, N, generator=g).requires_grad_() for _ in range(params["leafs"])]
        torch.manual_seed(params["seed"] + 1)
        self.slots = {}
        self.out = [[] for _ in params["threads"]]
        self.n_pack = 0
        self.scope = scope
        self.lock = None
        if sim is not None and params["lock"]:
            import threading

            self.lock = threading.RLock()

    def step(self, it, s):
        if self.sim is not None:
            self.sim.event(s["do"])

    def backward_lock(self, it):
        return self.lock if self.lock is not None else contextlib.nullcontext()

    def problem(self, kind, msg):
        if self.res is None:
            raise HarnessError("%s: %s" % (kind, msg))
        self.res.violate(kind, msg)

    def send(self, it, s):
        self.slots[s["slot"]] = it.get(s["var"])
        if s["move"]:
            it.env.pop(s["var"], None)

    def recv(self, it, s):
        while s["slot"] not in self.slots:
            if self.sim is None:
                raise HarnessError("recv")
            if self.res.violation:
                raise UserError()
            self.sim.sleep(0.01)
        return self.slots.pop(s["slot"])

    def result(self, it, kind, x):
        self.out[it.idx].append((kind, None if x is None else (str(x.dtype), tuple(x.shape), x.detach().float().contiguous().numpy().tobytes())))

    def run_thread(self, i):
        it = Interp(self, i, self.scope)
        it.run(self.params["threads"][i])
        for name in sorted(it.env):
            self.result(it, "v", it.env[name])
        it.env.clear()


class Gen:
    """random program"""

    def __init__(self, rng, params):
        self.rng = rng
        self.p = params
        self.n = 0

    def name(self):
        self.n += 1
        return "v%i" % self.n

    def src(self, vars_):
        rng = self.rng
        if vars_ and rng.random() < 0.7:
            return rng.choice(vars_[-4:])
        return rng.choice(self.own)

    def op(self, vars_):
        f = self.rng.choice(self.ops)
        s = dict(do="op", f=f, src=[self.src(vars_) for _ in range(2 if f in OPS2 else 1)], dst=self.name())
        vars_.append(s["dst"])
        return s

    def body(self, vars_, depth, n):
        """:param vars_: live variables, changed in place"""
        rng = self.rng
        out = []
        for _ in range(n):
            r = rng.random()
            if r < 0.5 or depth >= 4:
                out.append(self.op(vars_))
            elif r < 0.8:
                kinds = ["scope"] * 6
                for k, w in [("hooks", 3), ("amp", 2), ("nograd", 1)]:
                    if self.p["use"][k]:
                        kinds += [k] * w
                k = rng.choice(kinds)
                s = dict(do=k)
                s["body"] = self.body(vars_, depth + 1, rng.choice([1, 2, 3]))
                if k == "hooks":
                    s["copy"] = rng.random() < 0.5
                if k == "amp":
                    s["on"] = rng.random() < 0.8
                if self.p["use"]["raise"] and rng.random() < 0.15:
                    s["raise"] = True
                out.append(s)
            elif r < 0.87:
                if vars_:
                    v = vars_.pop(rng.randrange(len(vars_)))
                    out.append(dict(do="del", var=v))
            elif r < 0.91 and self.p["use"]["tckpt"]:
                s = dict(do="tckpt", src=[self.src(vars_), self.src(vars_)], fs=[rng.choice(self.ops) for _ in range(rng.choice([1, 2, 3]))], dst=self.name())
                vars_.append(s["dst"])
                out.append(s)
            elif r < 0.97:
                # (recorded backprop of a retained graph can be a ref cycle through PyTorch objects)
                if vars_ and not (depth and self.p["left"]):
                    s = dict(do="back", var=rng.choice(vars_), wrt=self.own, retain=rng.random() < 0.4)
                    if not s["retain"]:
                        vars_.clear()
                    out.append(s)
            elif vars_:
                v = rng.choice(vars_)
                slot = "s" + self.name()
                s = dict(do="send", var=v, slot=slot, move=rng.random() < 0.6)
                if s["move"]:
                    vars_.remove(v)
                self.sent.append(slot)
                out.append(s)
        return out


def has(stmts, kinds):
    return any(s["do"] in kinds or s.get("f") in kinds or has(s.get("body", ()), kinds) for s in stmts)


class S(Scenario):
    id = "C21"
    quick_runs = 15000
    thorough_runs = 300000
    quick_time = 90
    real_components = ["returnn.torch.util.gradient_checkpoint", "torch (autograd, dispatch modes, CPU kernels)"]
    stub_components = ["thread scheduling (preemption possible at every line of the module)", "the model (random programs)"]
    assumptions = [
        "operations within the scopes are functional (no in-place change of tensors from outside)",
        "random operations only in programs with one thread (the random generator is shared)",
        "the state of the random generator is not set explicitly within a scope",
        "only CPU",
    ]

    n_exec = 0

    def prepare(self):
        prepare_torch()

    def generate(self, rng, tier):
        nt = rng.choice([1, 1, 2, 2, 3])
        p = dict(seed=rng.randrange(10**6), leafs=nt * 2 + 1)
        p["use"] = {k: rng.random() < q for k, q in [("hooks", 0.5), ("amp", 0.3), ("nograd", 0.2), ("raise", 0.25), ("tckpt", 0.2)]}
        kind = "random" if nt == 1 or rng.random() < 0.8 else "shared"
        if rng.random() < 0.1:
            kind = "mem"
        sim = dict(max_events=100000, **swarm_sched(rng))
        sim["p_line"] = rng.choice([0.02, 0.1, 0.3]) if nt > 1 else 0.0
        p["sim"] = sim
        p["kind"] = kind
        p["left"] = rng.random() < 0.3
        ops = [o for o in OPS1 + OPS2 + OPS2 if rng.random() < 0.6] or ["mul"]
        if p["left"]:
            # (A pack hook which returns its argument leads to a ref cycle in PyTorch when that is the output of the op.
            #  This is only resolved by backprop.)
            ops = [o for o in ops if o in ["cumsum", "pow", "bf16", "const", "stack"] + VIEWS + OPS2 and o != "ln"] or ["mul"]
        # (torch.utils.checkpoint sets the random state itself)
        if nt == 1 and not p["use"]["tckpt"] and rng.random() < 0.5:
            ops += RANDOM + RANDOM
        g = Gen(rng, p)
        g.ops = ops
        threads = []
        if kind == "random":
            g.sent = []
            for i in range(nt):
                g.own = [0, 2 * i + 1, 2 * i + 2]
                before = list(g.sent)
                vars_ = []
                body = g.body(vars_, 0, rng.choice([2, 4, 6, 9]))
                for slot in before:
                    if rng.random() < 0.7:
                        dst = g.name()
                        if slot in g.sent:
                            g.sent.remove(slot)
                        ext = [dict(do="recv", slot=slot, dst=dst)]
                        r = rng.random()
                        if r < 0.6:
                            ext.append(dict(do="back", var=dst, wrt=[0, 1, 2], retain=rng.random() < 0.5))
                            if not ext[-1]["retain"]:
                                ext.append(dict(do="clear"))
                        elif r < 0.8:
                            ext.append(dict(do="del", var=dst))
                        else:
                            ext += [dict(do="op", f="mul", src=[dst, g.own[1]], dst=g.name())]
                            ext += [dict(do="del", var=dst), dict(do="back", var=ext[-1]["dst"], wrt=[0, 1, 2] + g.own[1:], retain=False)]
                        at = rng.choice([0, len(body)])
                        if any(e["do"] == "back" and not e["retain"] for e in ext):
                            at = rng.choice([0, len(body)])
                        body[at:at] = ext
                threads.append(body)
            p["lock"] = any(has(b, ("send",)) for b in threads)
        elif kind == "mem":
            # what is created within a scope is not kept for backprop
            g.ops = [o for o in ops if o not in VIEWS + ["bf16", "split", "ln"]] + ["mul"]
            for i in range(nt):
                g.own = [0, 2 * i + 1, 2 * i + 2]
                body = []
                for _ in range(rng.choice([1, 2, 3])):
                    # (later scopes would keep their inputs)
                    inner, vars_, drop = [], [], []
                    for _ in range(rng.choice([1, 2, 3])):
                        inner += [g.op(vars_), dict(do="track", var=vars_[-1])]
                    drop = list(vars_)
                    body.append(dict(do="scope", body=inner))
                    if rng.random() < 0.2:
                        body[-1]["raise"] = True
                    body += [g.op(vars_) for _ in range(rng.choice([1, 2, 3]))]
                    body += [dict(do="del", var=v) for v in drop] + [dict(do="freed", var=v) for v in drop]
                    if rng.random() < 0.5:
                        body.append(dict(do="back", var=vars_[-1], wrt=g.own, retain=rng.random() < 0.3))
                threads.append(body)
            p["lock"] = False
        else:
            # one scope, gradients in several threads
            g.own = [0, 1, 2]
            vars_ = []
            g.ops = [o for o in ops if o not in VIEWS + RANDOM] + ["mul"]
            body = [dict(do="scope", body=[g.op(vars_) for _ in range(rng.choice([1, 2, 3]))])]
            x = vars_[-1]
            for i in range(nt):
                body.append(dict(do="op", f="mul", src=[x, i + 1], dst="y%i" % i))
            if rng.random() < 0.5:
                body += [dict(do="del", var=v) for v in vars_]
            for i in range(1, nt):
                body.append(dict(do="send", var="y%i" % i, slot="y%i" % i, move=True))
            threads.append(body + [dict(do="back", var="y0", wrt=[1], retain=False)])
            for i in range(1, nt):
                threads.append([dict(do="recv", slot="y%i" % i, dst="y"), dict(do="back", var="y", wrt=[i + 1], retain=False)])
            # (leaf i + 1 must not be used within the scope)
            for s in body[0]["body"]:
                s["src"] = [0 if isinstance(a, int) else a for a in s["src"]]
            p["lock"] = False
        p["threads"] = threads
        return p

    def shrink(self, params):
        def sub(stmts):
            for t in shrink_list(stmts):
                yield t
            for i, s in enumerate(stmts):
                if "body" in s:
                    yield stmts[:i] + s["body"] + stmts[i + 1 :]
                    for t in sub(s["body"]):
                        yield stmts[:i] + [with_(s, body=t)] + stmts[i + 1 :]
                    if s.get("raise"):
                        yield stmts[:i] + [with_(s, **{"raise": False})] + stmts[i + 1 :]

        ts = params["threads"]
        for i, t in enumerate(ts):
            if len(ts) > 1 and t:
                yield with_(params, threads=ts[:i] + [[]] + ts[i + 1 :])
            for t2 in sub(t):
                yield with_(params, threads=ts[:i] + [t2] + ts[i + 1 :])

    def reference(self, params):
        torch = _torch
        w = World(params, contextlib.nullcontext)
        for i in range(len(params["threads"])):
            w.run_thread(i)
        return w.out, bytes(torch.get_rng_state().numpy().tobytes())

    def execute(self, params, chooser, log=False):
        torch = _torch
        res = RunResult()
        mod = fresh_module()
        try:
            exp, exp_rng = self.reference(params)
        except (KeyError, HarnessError, RuntimeError) as exc:
            # (only when shrinking: the program does not make sense)
            return self.invalid(params, chooser, res, exc)
        sim = new_sim(params, chooser, log, with_vfs=False, lines=[FILE])
        w = World(params, mod.gradient_checkpoint_scope, sim, res)
        st = dict(done=0)

        def guard(i):
            try:
                w.run_thread(i)
                st["done"] += 1
                while st["done"] < len(params["threads"]) and not res.violation:
                    sim.sleep(0.01)
                w.slots.clear()
                for n in range(20 if params["left"] else 1):
                    # some more use, which also cleans up
                    with torch.autograd.graph.saved_tensors_hooks(lambda x: x, lambda x: x):
                        pass
                    left = len(Shadow.cur.stack())
                    if not left or res.violation or not params["left"]:
                        break
                    t = sim.current
                    t.no_preempt += 1  # (the order in which the GC calls finalisers is no function of the seed)
                    try:
                        gc.collect()  # (one scope after the other: the graph of a scope keeps its inputs)
                    finally:
                        t.no_preempt -= 1
                else:
                    res.violate("hooks-left", "all tensors are gone, but still %i active saved_tensors_hooks in thread %i" % (left, i))
            except core.SimKilled:
                raise
            except UserError:
                st["done"] += 1
                if not res.violation:
                    raise
            except Exception as exc:
                res.violate("error:%s" % type(exc).__name__, "thread %i: %s" % (i, describe_exc(exc)))
                exc.__traceback__ = None

        def main():
            import threading

            ths = [threading.Thread(target=guard, args=(i,)) for i in range(1, len(params["threads"]))]
            for t in ths:
                t.start()
            guard(0)
            for t in ths:
                t.join()
            if res.violation:
                return
            # afterwards, other users of this mechanism are not disturbed
            packed = []
            a = torch.ones(2, 2, requires_grad=True)
            with torch.autograd.graph.saved_tensors_hooks(lambda x: (packed.append(1), x)[1], lambda x: x):
                y = a.exp()
            y2 = a.exp()
            if len(packed) != 1:
                res.violate("hooks-broken", "pack hook called %i times, expected once" % len(packed))
            torch.autograd.grad((y + y2).sum(), [a])

        p = sim.spawn_proc(main, name="m")
        if params["left"]:
            gc.collect()  # what is left of other runs must not get finalised in the middle of this one
        Shadow.cur = Shadow(w)
        try:
            run_sim(sim)
        finally:
            Shadow.cur = None
            cls = torch.autograd.graph.saved_tensors_hooks
            cls.__enter__, cls.__exit__ = _orig["enter"], _orig["exit"]
        if not res.violation:
            if p.exc is not None:
                res.violate("error:%s" % type(p.exc).__name__, "afterwards: " + describe_exc(p.exc))
            elif sim.outcome != "ok":
                res.violate("hang", "%s: %s" % (sim.outcome, sim.outcome_info))
            else:
                for i, (a, b) in enumerate(zip(w.out, exp)):
                    if a != b:
                        j = [x == y for x, y in zip(a, b)].index(False) if len(a) == len(b) else -1
                        res.violate("wrong-%s" % {"g": "gradient"}.get(b[j][0], "value"), "thread %i, result %i of %i: %s, without checkpointing %s" % (i, j, len(b), show(a[j]), show(b[j])))
                        break
                else:
                    if len(params["threads"]) == 1 and bytes(torch.get_rng_state().numpy().tobytes()) != exp_rng:
                        res.violate("rng-state", "other state of the random number generator at the end")
        p.exc = None
        self.n_exec += 1
        if self.n_exec % 100 == 0:  # (what is left in PyTorch ref cycles makes the GC slow)
            gc.collect()
            gc.freeze()
        self.collect(sim, res, dict(count={"results": sum(map(len, exp)), "packs": w.n_pack}, case="%s/%i" % (params["kind"], len(params["threads"]))))
        return res

    def invalid(self, params, chooser, res, exc):
        sim = new_sim(params, chooser, False, with_vfs=False)
        sim.spawn_proc(lambda: None, name="m")
        run_sim(sim)
        self.collect(sim, res, dict(count={"invalid": 1}, case="invalid:%s" % type(exc).__name__))
        return res


def show(x):
    import numpy

    if x[1] is None:
        return "None"
    return "%s %s" % (x[1][0], numpy.frombuffer(x[1][2], dtype="float32").reshape(x[1][1]).tolist())


SCENARIO = S()
