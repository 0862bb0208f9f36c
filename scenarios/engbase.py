"""PyTorch engine: training which is killed / fails anywhere and is restarted (C06, C07)."""

from __future__ import annotations
import hashlib
import io
import json
import math
import random as _random
import re
from .common import *
from .c08_lrfile import same

MODEL = "/simfs/exp/m/net-model/network"
LRF = "/simfs/exp/m/learning_rates"
VOLATILE_META = ("time", "hostname", "epoch_train_time_secs", "cpu", "returnn", "torch", "device", "distributed")
_cls = {}


class StubManager:
    """stand-in for multiprocessing.Manager (server process)"""

    class Value:
        def __init__(self, _tc, v):
            self.value = v

    def __init__(self, *a, **k):
        pass


def _prepare_torch():
    import torch

    if _cls:
        return
    torch.set_num_threads(1)
    import torch.multiprocessing, torch.utils.data  # noqa

    prepare_base()
    vfs.install_torch()
    import returnn.frontend as rf
    import returnn.torch.engine
    from returnn.util import basic as util

    returnn.torch.engine.torch.multiprocessing.Manager = StubManager
    util.describe_returnn_version()
    util.describe_torch_version()
    util.get_cpu_model_name()
    silence()

    class Net(torch.nn.Module):
        def __init__(self, opts):
            super().__init__()
            self.opts = opts
            self.l1 = torch.nn.Linear(4, 6)
            self.l2 = torch.nn.Linear(6, 3)
            self.bn = torch.nn.BatchNorm1d(6) if opts["bn"] else None
            if opts["frozen"]:
                self.register_buffer("count", torch.zeros((), dtype=torch.int64))

        def forward(self, x):
            y = self.l1(x)
            if self.bn is not None:
                y = self.bn(y.reshape(-1, 6)).reshape(y.shape)
            y = torch.tanh(y)
            if self.opts["dropout"]:
                y = torch.nn.functional.dropout(y, self.opts["dropout"], training=self.training)
            if self.opts["frozen"] and self.training:
                self.count += 1
            return self.l2(y)

    class RfNet(rf.Module):
        def __init__(self, opts):
            super().__init__()
            from returnn.tensor import Dim

            self.opts = opts
            self.in_dim = Dim(4, name="in")
            self.h = Dim(6, name="h")
            self.out_dim = Dim(3, name="out")
            self.l1 = rf.Linear(self.in_dim, self.h)
            self.l2 = rf.Linear(self.h, self.out_dim)

        def __call__(self, x):
            y = rf.tanh(self.l1(x))
            if self.opts["dropout"]:
                y = rf.dropout(y, self.opts["dropout"], axis=self.h)
            return self.l2(y)

    _cls.update(Net=Net, RfNet=RfNet)


def gen_config(seed):
    """config options as plain JSON values"""
    rng = _random.Random(seed)
    n = rng.choice([2, 3, 4, 5, 6])
    c = dict(num_epochs=n, learning_rate=rng.choice([0.1, 0.01, 0.003]), random_seed=rng.randint(1, 99))
    c["learning_rate_control"] = rng.choice(["constant", "newbob", "newbob_abs", "newbob_multi_epoch"])
    if rng.random() < 0.6:
        c["learning_rate_control_error_measure"] = rng.choice(["dev_loss_ce", "dev_loss_aux", "train_loss_ce"])
    c["newbob_learning_rate_decay"] = rng.choice([0.5, 0.9])
    c["newbob_relative_error_threshold"] = rng.choice([-0.01, -0.2, 0.0])
    if c["learning_rate_control"] == "newbob_multi_epoch":
        c["newbob_multi_num_epochs"] = rng.choice([1, 2, 3])
        c["newbob_multi_update_interval"] = rng.choice([1, 2])
    if rng.random() < 0.3:
        c["learning_rates"] = [rng.choice([0.1, 0.01]) for _ in range(rng.randint(1, n + 1))]
    c["optimizer"] = rng.choice(
        [
            {"class": "adam"},
            {"class": "adamw", "weight_decay": 0.1},
            {"class": "sgd", "momentum": 0.9},
            {"class": "rmsprop", "momentum": 0.5},
            {"class": "nadam", "epsilon": 1e-6},
            {"class": "sgd"},
        ]
    )
    if rng.random() < 0.3:
        c["gradient_clip_global_norm"] = 1.0
    if rng.random() < 0.2:
        c["gradient_noise"] = 0.01
    if rng.random() < 0.3:
        c["accum_grad_multiple_step"] = rng.choice([2, 3])
    c["save_interval"] = rng.choice([1, 1, 1, 2, 3])
    r = rng.random()
    if r < 0.3:
        c["cleanup_old_models"] = True
    elif r < 0.85:
        d = dict(keep_last_n=rng.choice([1, 1, 2, 3]), keep_best_n=rng.choice([0, 1, 2]), keep=sorted(rng.sample(range(1, n + 1), rng.choice([0, 0, 1, 2]))))
        c["cleanup_old_models"] = d
    if rng.random() < 0.25:
        c["apply_cleanup_old_models_to_optim_states"] = True
    if rng.random() < 0.3:
        c["online_shuffle_batches"] = rng.choice([2, {"buffer_size": 3}])
    if rng.random() < 0.2:
        c["calculate_exp_loss"] = True
    c["batch_size"] = rng.choice([8, 12, 30])
    c["max_seqs"] = rng.choice([2, 3, 10])
    x = dict(
        dyn_lr=rng.random() < 0.4,
        model=rng.choice(["torch", "torch", "torch", "rf"]),
        bn=rng.random() < 0.4,
        frozen=rng.random() < 0.3,
        dropout=rng.choice([0, 0.3]),
        train=dict(num=rng.choice([4, 6, 9]), ordering=rng.choice(["random", "random", "laplace:.2", "sorted", "default", "reverse"]), partition=rng.choice([1, 1, 2, 3])),
        evals=rng.choice([["dev"], ["dev"], ["dev", "devtrain"], ["dev", "eval"], []]),
        aux=rng.choice(["smooth", "ties", "nan", "none", "up"]),
        data_seed=rng.randrange(1000),
    )
    if "dev_loss" in c.get("learning_rate_control_error_measure", "") and "dev" not in x["evals"]:
        c.pop("learning_rate_control_error_measure")
    if x["aux"] in ("none",) and "aux" in c.get("learning_rate_control_error_measure", ""):
        c.pop("learning_rate_control_error_measure")
    r = rng.random()
    if r < 0.35:
        x["pre"] = rng.choice(["init", "init-l1", "init-prefix", "always", "always", "import", "import"])
    if rng.random() < 0.15:
        c["torch_amp"] = {"dtype": "bfloat16", "grad_scaler": None}
    if rng.random() < 0.15:
        c["gradient_clip"] = 0.05
    if rng.random() < 0.15:
        c["log_grad_norm"] = rng.choice([True, 1])
    r = rng.random()
    if r < 0.1:
        c["max_seq_length"] = 4
    elif r < 0.2:
        c["min_seq_length"] = 3
    elif r < 0.35:
        c["chunking"] = rng.choice([{"data": 2, "classes": 2}, "3:2"])
        x["bn"] = False  # needs more than one frame
    if r < 0.2:
        x["train"]["partition"] = 1  # no epoch without any seq
    r = rng.random()
    if r < 0.15:
        x["dyn"] = ["accum"]
    elif r < 0.3:
        x["dyn"] = ["batch"]
    elif r < 0.45:
        x["dyn"] = ["bucket", rng.choice([0.0, 0.5, 0.9])]
    return dict(c=c, x=x)


EXT = "/simfs/ext/pre.7.pt"


def pre_file(x):
    """pre-trained model, made by some other training"""
    import torch

    g = torch.Generator().manual_seed(x["data_seed"] + 5)
    rf_ = x["model"] == "rf"
    sd = {}
    for k, s in [("l1.weight", (6, 4)), ("l1.bias", (6,)), ("l2.weight", (3, 6)), ("l2.bias", (3,))]:
        sd[k] = torch.randn(tuple(reversed(s)) if rf_ else s, generator=g)
    if x["bn"] and not rf_:
        sd.update({"bn.weight": torch.randn(6, generator=g), "bn.bias": torch.randn(6, generator=g), "bn.running_mean": torch.randn(6, generator=g), "bn.running_var": torch.rand(6, generator=g) + 0.5, "bn.num_batches_tracked": torch.tensor(11)})
    if x["frozen"] and not rf_:
        sd["count"] = torch.tensor(3)
    k = x["pre"]
    if k == "init-l1":
        sd = {n: v for n, v in sd.items() if n.startswith("l1.")}
    elif k in ("init-prefix", "always"):
        sd = {n[3:]: v for n, v in sd.items() if n.startswith("l1.")}
    f = io.BytesIO()
    torch.save({"model": sd, "epoch": 7, "step": 123}, f)
    return f.getvalue()


def pre_config(x):
    k = x.get("pre")
    if not k:
        return {}
    if k == "import":
        return {"import_model_train_epoch1": EXT[: -len(".pt")]}
    opts = {"filename": EXT, "init_for_train": True}
    if k in ("init-prefix", "always"):
        opts["prefix"] = "l1."
    if k == "always":
        opts["init_for_train"] = "always"
    if k != "init":
        opts["ignore_missing"] = True
    return {"preload_from_files": {"pre": opts}}


def add_ext(v, x):
    if x.get("pre"):
        v.add_mount("ext")
        v.god_makedirs("/simfs/ext")
        v.put(EXT, pre_file(x))


def gen_config_ckpt(seed):
    """like gen_config, but cheap epochs, more of them, and mostly with cleanup (C07)"""
    rng = _random.Random(seed * 7 + 1)
    g = gen_config(seed)
    c, x = g["c"], g["x"]
    n = c["num_epochs"] = rng.choice([3, 5, 7, 9, 12])
    for k in ("online_shuffle_batches", "accum_grad_multiple_step", "learning_rates", "chunking", "min_seq_length", "max_seq_length"):
        c.pop(k, None)
    c["save_interval"] = rng.choice([1, 1, 1, 2])
    c["batch_size"], c["max_seqs"] = 100, 10
    x["train"].update(num=2, partition=1)
    x.pop("dyn", None)
    x["evals"] = rng.choice([["dev"], ["dev"], []])
    if "dev" not in x["evals"] and "dev" in c.get("learning_rate_control_error_measure", ""):
        c.pop("learning_rate_control_error_measure")
    x["aux"] = rng.choice(["smooth", "ties", "nan", "nan", "random", "up", "partial"])
    x["model"] = "torch"
    if rng.random() < 0.9:
        d = dict(keep_last_n=rng.choice([1, 1, 2, 3]), keep_best_n=rng.choice([0, 1, 1, 2]))
        d["keep"] = sorted(rng.sample(range(1, n + 1), rng.choice([0, 0, 1, 2])))
        if rng.random() < 0.2:
            d["keep"] = None  # default pattern
        c["cleanup_old_models"] = d
    return g


def aux_value(x, ep, train):
    if x["aux"] == "smooth":
        return 2.0 / ep
    if x["aux"] == "up":
        return float(ep)
    r = _random.Random(x["data_seed"] * 17 + ep)
    if x["aux"] == "ties":
        return r.choice([0.5, 0.5, 1.0, 2.0])
    if x["aux"] == "nan" and not train:
        return r.choice([0.5, 1.0, float("nan"), float("inf"), r.random()])
    return r.random()


def ep_hash(x, ep):
    return _random.Random(x["data_seed"] * 31 + ep).randrange(1000)


class Trace:
    """what one (logical) training did"""

    def __init__(self):
        self.steps = {}  # epoch -> list of (global_step, tags) of the last time it was trained
        self.trained = []  # (attempt, epoch)
        self.states = {}  # file name -> digest of state
        self.lr = None


def digest_state(x):
    """digest of nested state with tensors"""
    import torch
    import numpy

    h = hashlib.sha1()

    def rec(o):
        if isinstance(o, torch.Tensor):
            h.update(b"T%s%s" % (str(o.dtype).encode(), str(tuple(o.shape)).encode()))
            h.update(o.detach().contiguous().numpy().tobytes())
        elif isinstance(o, numpy.ndarray):
            h.update(b"N" + o.tobytes())
        elif isinstance(o, dict):
            h.update(b"D%i" % len(o))
            for k in sorted(o, key=str):
                h.update(repr(k).encode())
                rec(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"L%i" % len(o))
            for y in o:
                rec(y)
        else:
            h.update(repr(o).encode())

    rec(x)
    return h.hexdigest()


def load_ckpt(data, fn):
    """-> (epoch, step, digest) or exception"""
    import torch

    try:
        d = torch.load(io.BytesIO(data))
        if fn.endswith(".opt.pt"):
            return (d["epoch"], d["step"], digest_state({k: d[k] for k in ("optimizer", "param_names")}))
        return (d["epoch"], d["step"], digest_state(d["model"]))
    except Exception as exc:
        return exc


class EngineScenario(Scenario):
    variant = None
    gen = staticmethod(gen_config)
    quick_runs = 3000
    thorough_runs = 100000
    quick_time = 120
    real_components = [
        "returnn.torch.engine.Engine, returnn.torch.updater.Updater, returnn.engine.base",
        "returnn.learning_rate_control",
        "returnn.datasets (StaticDataset, sequence ordering), returnn.torch.data (batching, shuffling)",
        "torch (model, optimizer, serialisation)",
    ]
    stub_components = [
        "file system (in-memory VFS)",
        "clock, process kill",
        "multiprocessing.Manager (plain value)",
        "file I/O of torch.save/torch.load (serialised in memory, then written in several writes)",
    ]
    assumptions = [
        "a killed process loses user-space buffers, completed system calls survive (process crash, not power loss)",
        "learning_rate_file and model are set; CPU training in one process; the user's train_step depends only on its inputs and the RNG of RETURNN/torch",
    ]

    def prepare(self):
        _prepare_torch()
        self._ref_cache = {}

    def generate(self, rng, tier):
        cfg = self.gen(rng.randrange(150 if tier == "quick" else 5000))
        mode = rng.choice(["kill", "kill", "kill", "fault", "kill+fault"])
        sim = dict(max_time=1e7)
        if "kill" in mode:
            sim.update(p_kill=rng.choice([0.003, 0.01, 0.03, 0.1]), max_kills=rng.choice([1, 1, 2, 4]))
        if "fault" in mode:
            sim.update(
                faults={k: rng.choice([0.003, 0.01, 0.04]) for k in rng.sample(["enospc", "eio", "short_write"], rng.choice([1, 2, 3]))},
                max_faults=rng.choice([1, 2, 4]),
            )
        return dict(cfg=cfg, mode=mode, sim=sim, target=rng.choice(["any", "any", "save", "cleanup"]), amb=rng.randrange(1000))

    def shrink(self, params):
        c, x = params["cfg"]["c"], params["cfg"]["x"]
        if c["num_epochs"] > 1:
            yield with_(params, cfg=dict(c=dict(c, num_epochs=c["num_epochs"] - 1), x=x))
        for k in sorted(c):
            if k not in ("num_epochs", "learning_rate", "optimizer", "batch_size", "max_seqs", "random_seed", "save_interval", "newbob_learning_rate_decay"):
                yield with_(params, cfg=dict(c={k2: v for k2, v in c.items() if k2 != k}, x=x))
        if c["save_interval"] > 1:
            yield with_(params, cfg=dict(c=dict(c, save_interval=1), x=x))
        for k in ("pre", "dyn"):
            if x.get(k):
                yield with_(params, cfg=dict(c=c, x={k2: v for k2, v in x.items() if k2 != k}))
        for k, v in [("dyn_lr", False), ("bn", False), ("frozen", False), ("dropout", 0), ("aux", "none"), ("model", "torch"), ("evals", ["dev"])]:
            if x[k] != v:
                yield with_(params, cfg=dict(c=c, x=dict(x, **{k: v})))

    # ---------------------------------------------------------------- one attempt, runs in a simulated process
    def _run_training(self, sim, cfg, trace, attempt, amb, eng_out=None):
        import numpy
        import torch
        import returnn.frontend as rf
        from returnn.config import Config, global_config_ctx
        from returnn.datasets import init_dataset
        from returnn.torch.engine import Engine

        c, x = cfg["c"], cfg["x"]
        # a new process: no state of the old one, and arbitrary ambient RNG state
        torch.manual_seed(1000 * amb + attempt)
        numpy.random.seed((1000 * amb + attempt) % 2**31)
        _random.seed(1000 * amb + attempt)
        rf.run_ctx.reset_run_ctx()
        rf.run_ctx._init_run_ctx = None
        rng = numpy.random.RandomState(x["data_seed"])
        seqs = []
        for _ in range(x["train"]["num"]):
            t = rng.randint(2, 6)
            if len(seqs) < 3 and ("min_seq_length" in c or "max_seq_length" in c):
                t = 3  # no eval dataset without any seq
            seqs.append({"data": rng.normal(size=(t, 4)).astype("float32"), "classes": rng.randint(0, 3, size=(t,)).astype("int32")})

        def ds(name, sub, **kw):
            return {"class": "StaticDataset", "data": sub, "input_dim": 4, "output_dim": {"data": (4, 2), "classes": (3, 1)}, "name": name, **kw}

        def get_model(**_kw):
            return _cls["Net" if x["model"] == "torch" else "RfNet"](x)

        def train_step(*, model, extern_data, **_kw):
            data, classes = extern_data["data"], extern_data["classes"]
            ctx = rf.get_run_ctx()
            train = ctx.train_flag is True or (not isinstance(ctx.train_flag, bool) and bool(ctx.train_flag.raw_tensor))
            tags = [str(t) for t in extern_data["seq_tag"].raw_tensor] if "seq_tag" in extern_data.data else None
            sim.event("step", (engine.epoch, engine.global_train_step, train))
            if train:
                if not trace.trained or trace.trained[-1] != (attempt, engine.epoch):
                    trace.trained.append((attempt, engine.epoch))
                    trace.steps[engine.epoch] = []
                h = hashlib.sha1(data.raw_tensor.numpy().tobytes()).hexdigest()[:8]
                trace.steps[engine.epoch].append((engine.global_train_step, tags, h))
            time_dim = data.dims[1]
            lens = time_dim.dyn_size_ext.raw_tensor
            if x["model"] == "torch":
                logits = model(data.raw_tensor)
            else:
                y = data.copy()
                y.feature_dim.declare_same_as(model.in_dim) if False else None
                y, _ = rf.replace_dim(y, in_dim=data.feature_dim, out_dim=model.in_dim)
                logits = model(y).copy_transpose([data.dims[0], time_dim, model.out_dim]).raw_tensor
            mask = torch.arange(logits.shape[1])[None, :] < lens[:, None]
            loss = torch.nn.functional.cross_entropy(logits[mask], classes.raw_tensor[mask].long(), reduction="none")
            ctx.mark_as_loss(name="ce", loss=loss)
            if x["aux"] != "none" and not (x["aux"] == "partial" and (ep_hash(x, engine.epoch) % 3 == 0)):
                ctx.mark_as_loss(name="aux", loss=torch.full((logits.shape[0],), aux_value(x, engine.epoch, train)), as_error=True)

        d = dict(c)
        d.update(pre_config(x))
        if "accum" in x.get("dyn", ()):
            d["accum_grad_multiple_step"] = lambda *, epoch, global_train_step, **_k: 1 + (epoch + global_train_step // 3) % 3
        if "batch" in x.get("dyn", ()):
            d["batch_size"] = lambda *, epoch, **_k: 6 + 5 * (epoch % 3)
        if "bucket" in x.get("dyn", ()):
            from returnn.torch.data.pipeline import BucketOrderingIterDataPipe

            # (the dev batches are not random: RETURNN does not restore the RNG state for an evaluation which is caught up on)
            d["torch_batching"] = lambda dataset, *, train, **_k: BucketOrderingIterDataPipe(
                dataset, buckets=[(3, 2), (4, 3), (9, 2)], length_key="data", random_bucket_prob=x["dyn"][1] if train else 0.0
            )
        d.update(
            task="train",
            device="cpu",
            backend="torch",
            extern_data={"data": {"dim": 4}, "classes": {"dim": 3, "sparse": True}},
            get_model=get_model,
            train_step=train_step,
            model=MODEL,
            learning_rate_file=LRF,
            torch_dataloader_opts={"num_workers": 0},
        )
        if x["dyn_lr"]:
            d["dynamic_learning_rate"] = lambda *, global_train_step, learning_rate, epoch_continuous=None, **_k: (
                learning_rate * (1.0 + 0.1 * (global_train_step % 7)) * (1.0 if epoch_continuous is None else 1.0 / (1.0 + epoch_continuous))
            )
        if isinstance(d.get("cleanup_old_models"), dict) and d["cleanup_old_models"].get("keep") is None:
            d["cleanup_old_models"] = {k: v for k, v in d["cleanup_old_models"].items() if k != "keep"}
        if "devtrain" in x["evals"]:
            # (one name is the beginning of the other)
            d["eval_datasets"] = {"devtrain_x": ds("devtrain_x", seqs[2:3]), "devtrain": ds("devtrain", seqs[:2])}
        config = Config(d)
        with global_config_ctx(config):
            train = init_dataset(ds("train", seqs, seq_ordering=x["train"]["ordering"], partition_epoch=x["train"]["partition"]))
            dev = init_dataset(ds("dev", seqs[1:3])) if "dev" in x["evals"] else None
            ev = init_dataset(ds("eval", seqs[:1])) if "eval" in x["evals"] else None
            engine = Engine(config=config)
            if eng_out is not None:
                eng_out["engine"] = engine
            engine.init_train_from_config(train_data=train, dev_data=dev, eval_data=ev)
            engine.train()
            return {
                ep: (e.learning_rate, dict(e.error), {k: v for k, v in e.meta.items() if k not in VOLATILE_META})
                for ep, e in engine.learning_rate_control.epoch_data.items()
            }

    def _reference(self, cfg):
        key = json.dumps(cfg, sort_keys=True)
        x = cfg["x"]
        if key not in self._ref_cache:
            if len(self._ref_cache) > 300:
                self._ref_cache.clear()
            sim = new_sim(dict(sim=dict(max_events=10**7)), Chooser(deviations={}))
            v = sim.vfs
            v.add_mount("exp")
            v.god_makedirs("/simfs/exp")
            add_ext(v, x)
            tr = Trace()

            def obs(op, path, p, **info):
                if op in ("rename", "write", "open") and path.startswith(MODEL + ".") and re.search(r"\.\d+(\.opt)?\.pt$", path):
                    node = v.inode(path)
                    if node is not None:
                        tr.states[path] = load_ckpt(bytes(node.data), path)

            v.observers.append(obs)

            def main():
                tr.lr = self._run_training(sim, cfg, tr, 0, 0)

            p = sim.spawn_proc(main, name="ref")
            run_sim(sim)
            err = None
            if p.exc is not None or sim.outcome != "ok":
                err = "uninterrupted training failed: %s %s" % (sim.outcome, describe_exc(p.exc) if p.exc else "")
            tr.files = sorted(f for f, _ in v.walk_files("/simfs/exp"))
            for f, s in tr.states.items():
                if isinstance(s, Exception):
                    err = "uninterrupted training: %s not loadable: %r" % (f, s)
            self._ref_cache[key] = (tr, err)
        return self._ref_cache[key]

    def execute(self, params, chooser, log=False):
        cfg = params["cfg"]
        c, x = cfg["c"], cfg["x"]
        res = RunResult()
        var = self.variant
        ref, err = self._reference(cfg)
        sim = new_sim(params, chooser, log)
        if err:
            if var == "C06":
                res.violate("uninterrupted-failed", err)
            self.collect(sim, res, dict(case="ref-failed"))
            return res
        v = sim.vfs
        v.add_mount("exp")
        v.god_makedirs("/simfs/exp")
        add_ext(v, x)
        mdir = MODEL.rsplit("/", 1)[0]
        tr = Trace()
        st = dict(attempts=0, finished=False, eng={}, saved_complete=set())

        def violate(prop, cls, msg):
            if prop == var:
                res.violate(cls, "t=%.2f attempt %i: %s" % (sim.elapsed, st["attempts"], msg))

        parsed = {}

        def parse(path):
            node = v.inode(path)
            if node is None:
                return None
            data = bytes(node.data)
            k = (hash(data), len(data), path.endswith(".opt.pt"))
            if k not in parsed:
                parsed[k] = load_ckpt(data, path)
            return parsed[k]

        final_re = re.compile(r"\.(\d+)(\.opt)?\.pt$")

        def check_file(path, when):
            m = final_re.search(path)
            s = parse(path)
            if s is None:
                return
            if isinstance(s, Exception):
                violate("C07", "torn-checkpoint", "%s: %s under its final name is not loadable: %r" % (when, path, s))
                return
            ep = int(m.group(1))
            if s[0] != ep:
                violate("C07", "wrong-epoch", "%s: %s holds epoch %s" % (when, path, s[0]))
            elif path in ref.states and s != ref.states[path]:
                violate("C07", "wrong-state", "%s: %s (epoch, step, digest) %r, expected %r" % (when, path, s, ref.states[path]))

        def ep_file(ep, opt=False):
            return "%s.%03d%s.pt" % (MODEL, ep, ".opt" if opt else "")

        def complete(ep):
            return v.inode(ep_file(ep)) is not None and v.inode(ep_file(ep, True)) is not None

        def promised(ep, existing, data):
            """does the config promise to keep the model of this epoch?"""
            cl = c.get("cleanup_old_models")
            if not cl:
                return "no cleanup configured"
            opts = cl if isinstance(cl, dict) else {}
            n_last, n_best = opts.get("keep_last_n", 2), opts.get("keep_best_n", 4)
            if ep in sorted(existing)[-n_last:]:
                return "last %i" % n_last
            if ep in (opts.get("keep") or []):
                return "explicit keep"
            keys = {k for e in existing for k in data.get(e, {})}

            def val(e, k):
                y = data.get(e, {}).get(k, worst)
                return float("inf") if math.isnan(y) else y

            for k in sorted(keys):
                # an epoch without this score counts as (at most) as bad as the worst one;
                # a score which does not discriminate gives no promise
                vals = [data[e][k] for e in existing if k in data.get(e, {})]
                vals = [float("inf") if math.isnan(y) else y for y in vals]
                worst = max(vals)
                if min(vals) == worst:
                    continue
                mine = data.get(ep, {}).get(k)
                if mine is None or math.isnan(mine) or math.isinf(mine):
                    continue
                if sum(1 for e in existing if e != ep and val(e, k) <= mine) < n_best:
                    return "best %i by %s" % (n_best, k)
            return None

        unlinked = {}

        def obs(op, path, p, **info):
            if not path.startswith(MODEL):
                return
            m = final_re.search(path)
            if op in ("rename", "write", "open", "ftruncate", "truncate", "link") and m:
                check_file(path, "after " + op)
            if op == "rename" and not m:
                # was something renamed away?
                pass
            if op in ("unlink", "rename"):
                eps = [e for e in range(1, c["num_epochs"] + 1) if complete(e)]
                st["saved_complete"].update(eps)
                if st["saved_complete"]:
                    newest = max(st["saved_complete"])
                    cand = sorted(st["saved_complete"])[-2:]
                    if not any(e in eps for e in cand):
                        violate("C07", "nothing-resumable", "after %s %s: neither of the newest saved epochs %s is complete anymore (newest %i)" % (op, path, cand, newest))
            if op == "unlink" and m:
                ep = int(m.group(1))
                eng = st["eng"].get("engine")
                data = {}
                if eng is not None and eng.learning_rate_control is not None:
                    data = {e: d.error for e, d in eng.learning_rate_control.epoch_data.items()}
                existing = {e for e in range(1, c["num_epochs"] + 1) if v.inode(ep_file(e)) is not None}
                if not m.group(2):
                    # decide with all models which existed when the cleanup started
                    group = unlinked.setdefault((st["attempts"], eng.epoch if eng else None), set())
                    why = promised(ep, existing | {ep} | group, data)
                    group.add(ep)
                    if why:
                        violate("C07", "deleted-promised", "checkpoint of epoch %i deleted, but the settings promise to keep it (%s); existing %s, scores %s" % (ep, why, sorted(existing | group), data))
                    if ep == max(existing | {ep}):
                        violate("C07", "deleted-newest", "newest checkpoint, epoch %i, deleted" % ep)
                elif c.get("apply_cleanup_old_models_to_optim_states") and ep in existing:
                    violate("C07", "deleted-optim", "optimizer state of kept epoch %i deleted" % ep)

        v.observers.append(obs)
        tgt = params["target"]

        def kf(t, kind, detail):
            if t.proc.name == "sup":
                return False
            if tgt == "any":
                return True
            return kind in ("sys:rename", "sys:write", "sys:unlink", "sys:close", "sys:open") and (tgt == "save" or kind in ("sys:unlink", "sys:rename"))

        sim.kill_filter = kf
        v.fault_filter = lambda op, path, p: op not in ("unlink", "stat", "access")

        def attempt():
            n = st["attempts"]
            newest = max([e for e in range(1, c["num_epochs"] + 1) if complete(e)], default=0)
            n0 = len(tr.trained)
            lr = self._run_training(sim, cfg, tr, n, params["amb"], st["eng"])
            st["finished"] = True
            tr.lr = lr
            return newest, n0

        def after(p, newest, n0):
            """checks over what the attempt did"""
            eps = [e for (_a, e) in tr.trained[n0:]]
            if eps:
                if eps[0] <= newest:
                    violate("C06", "retrained", "epoch %i trained again although the checkpoint of epoch %i was complete" % (eps[0], newest))
                if eps[0] > newest + 1:
                    violate("C06", "skipped-epoch", "attempt started with epoch %i, newest complete checkpoint %i" % (eps[0], newest))
                if eps != list(range(eps[0], eps[0] + len(eps))):
                    violate("C06", "epoch-order", "epochs trained: %s" % eps)
            for e in eps:
                got, want = tr.steps[e], ref.steps.get(e, [])
                if got != want[: len(got)]:
                    violate("C06", "different-steps", "epoch %i: steps (global step, seqs, data) %s, uninterrupted %s" % (e, got, want))
                elif len(got) != len(want) and (e != eps[-1] or st["finished"]):
                    violate("C06", "different-steps", "epoch %i: %i steps, uninterrupted %i" % (e, len(got), len(want)))

        def sup():
            while not st["finished"] and not res.violation and st["attempts"] < 40:
                st["attempts"] += 1
                if st["attempts"] > 15:
                    sim.cfg.faults = {}
                newest = max([e for e in range(1, c["num_epochs"] + 1) if complete(e)], default=0)
                n0 = len(tr.trained)
                nf0 = sim.n_faults
                st["eng"].clear()
                p = sim.spawn_proc(attempt, name="a%i" % st["attempts"])
                while p.alive:
                    sim.block(p.exit_waiters, info="wait attempt")
                after(p, newest, n0)
                nf1 = sim.n_faults
                if p.exc is not None and not isinstance(p.exc, core.SimKilled) and not p.killed_by and nf1 == nf0:
                    violate("C06", "resume-failed:%s" % type(p.exc).__name__, "attempt without any fault failed: %s" % describe_exc(p.exc))
                sim.sleep(1)

        sp = sim.spawn_proc(sup, name="sup")
        sp.killable = False
        run_sim(sim)
        if sp.exc is not None:
            raise HarnessError("sup: " + describe_exc(sp.exc))
        if sim.outcome != "ok":
            violate("C06", "no-progress", "%s: %s" % (sim.outcome, sim.outcome_info))
        elif not st["finished"] and not res.violation:
            violate("C06", "no-progress", "training does not finish (%i attempts)" % st["attempts"])
        elif st["finished"]:
            if not same(tr.lr, ref.lr):
                diff = [ep for ep in sorted(set(tr.lr) | set(ref.lr)) if not same(tr.lr.get(ep), ref.lr.get(ep))]
                violate("C06", "different-scores", "epochs %s: %r, uninterrupted %r" % (diff, tr.lr.get(diff[0]), ref.lr.get(diff[0])))
            ep = c["num_epochs"]
            for opt in (False, True):
                f = ep_file(ep, opt)
                if f in ref.files:
                    s = parse(f)
                    if s is None or isinstance(s, Exception) or s != ref.states[f]:
                        violate("C06", "different-result", "%s: (epoch, step, digest) %r, uninterrupted %r" % (f, s, ref.states[f]))
            for f, _ in v.walk_files(mdir):
                if final_re.search(f):
                    check_file(f, "end")
        self.collect(sim, res, dict(count={"attempts": st["attempts"], "epochs_trained": len(tr.trained)}, case=params["mode"]))
        return res
