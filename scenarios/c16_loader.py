"""C16: loader pipeline of the PyTorch engine, with a simulated loader worker process."""

from __future__ import annotations
from .dsbase import *

MODEL = "/simfs/exp/m/net"
_torch_handlers = []


def prepare_loader():
    prepare_ds()
    import torch
    import torch.utils.data
    import torch.multiprocessing  # noqa
    from sim import mpsync, procs

    torch.set_num_threads(1)
    torch.set_num_threads = lambda *a: None
    mpsync.install_torch()
    vfs.install_torch()
    import returnn.torch.data.pipeline  # noqa
    import returnn.torch.data.returnn_dataset_wrapper as w
    import returnn.torch.engine
    from returnn.util import basic as util
    from . import loaderfuncs

    w.better_exchook = lambda *a, **k: None
    returnn.torch.engine.torch.multiprocessing.Manager = loaderfuncs.StubManager
    import returnn.frontend as rf

    rf.select_backend_torch()
    util.describe_returnn_version()
    util.describe_torch_version()
    util.get_cpu_model_name()
    silence()
    if not _torch_handlers:
        tu = torch.utils.data._utils
        _torch_handlers.append(mpsync.rng_handler())
        _torch_handlers.append(attr_handler(tu, "python_exit_status", False))
        _torch_handlers.append(attr_handler(tu.worker, "_worker_info", None))
        procs.child_hooks.append(torch_atexit)


def attr_handler(mod, name, init):
    return (lambda: getattr(mod, name)), (lambda v: setattr(mod, name, v)), (lambda: init)


def torch_atexit():
    import torch.utils.data

    cur_task().proc.atexit.append((torch.utils.data._utils._set_python_exit_flag, (), {}))


def new_loader_sim(params, chooser, log):
    sim = new_mp_sim(params, chooser, log)
    sim.globals_handlers.extend(_torch_handlers)
    return sim


def spawn_loader_reader(sim, func, name):
    p = spawn_reader(sim, func, name)
    import torch.utils.data

    p.atexit.append((torch.utils.data._utils._set_python_exit_flag, (), {}))
    return p


# ------------------------------------------------------------------ model of the pipeline


def lim(opt, key, default):
    """limit of this data key"""
    if opt is None:
        return default
    if isinstance(opt, dict):
        return opt.get(key, default)
    return opt


def model_items(params, ds, epoch):
    """
    :return: list of (tag, seq_idx, data, classes), after filter and chunking
    """
    base = dict(ds_dict(params, ds, sim=False), unknown_num=False)
    seqs = []
    for i, s in enumerate(expected_epoch(lambda: dict(base), epoch)):
        d = {k: _arr(dt, sh, b) for k, dt, sh, b in s[1:]}
        seqs.append((s[0], i, d))
    n_seqs = len(seqs)
    out = []
    for tag, i, d in seqs:
        if any(len(x) < lim(params["min_len"], k, 0) or len(x) > lim(params["max_len"], k, 10**9) for k, x in d.items()):
            continue
        ch = params["chunking"]
        if not ch:
            out.append((tag, i, d))
            continue
        size, step = ch
        keys = ["data", "classes"] if not isinstance(size, dict) else sorted(size)
        parts = {}
        for k in keys:
            sz, stp = lim(size, k, None), lim(step, k, None)
            parts[k] = [c for a in range(0, len(d[k]), stp) for c in [d[k][a : a + sz]] if len(c) >= lim(params["min_chunk"], k, 0)]
        for j in range(len(parts[keys[0]])):
            out.append((tag, i, {k: (parts[k][j] if k in parts else d[k]) for k in d}))
    return out, n_seqs


def _arr(dt, sh, b):
    import numpy

    return numpy.frombuffer(b, dtype=dt).reshape(sh)


def out_dtype(dt):
    return {"uint16": "int32", "uint32": "int64"}.get(dt, dt)


def ds_dict(params, ds, sim=True):
    from .simdata import SimDataset

    d = {
        "class": SimDataset,
        "name": ds["name"],
        "seqs": [tuple(x) for x in ds["seqs"]],
        "unknown_num": ds["unknown"],
        "slow": params["slow"] if sim else 0.0,
        "seq_ordering": ds["ordering"],
        "partition_epoch": ds["partition"],
        "same_len": params["same_len"],
        "dtype": params["dtype"],
    }
    if sim and params.get("fail_tag"):
        d["fail_tag"], d["fail_how"] = params["fail_tag"], params["fail_how"]
    return d


def key_of(tag, d):
    return (tag,) + tuple((k, d[k].shape, d[k].tobytes()) for k in ("data", "classes"))


def unpack(b):
    """:return: list of (tag, dict, seq_idx), or an error string"""
    import numpy

    tags = [str(t) for t in b["seq_tag"]]
    n = len(tags)
    items = [(t, {}) for t in tags]
    for k in ("data", "classes"):
        x = b[k].detach().numpy()
        ls = [int(v) for v in b[k + ":seq_len"]]
        if x.shape[0] != n or len(ls) != n:
            return "batch dim of %s is %r, lens %r, %i tags" % (k, x.shape, ls, n)
        if x.shape[1] != max(ls):
            return "time dim of %s is %r, lens %r" % (k, x.shape, ls)
        for j in range(n):
            if numpy.any(x[j, ls[j] :] != 0):
                return "padding of %s is not zero" % k
            items[j][1][k] = numpy.ascontiguousarray(x[j, : ls[j]])
    return items


class S(Scenario):
    id = "C16"
    quick_runs = 4000
    thorough_runs = 150000
    quick_time = 150
    real_components = [
        "returnn.torch.data.pipeline, returnn.torch.data.returnn_dataset_wrapper",
        "returnn.torch.engine.Engine (in part of the runs)",
        "returnn.util.multi_proc_non_daemonic_spawn, returnn.config (pickling of the config into the worker)",
        "torch.utils.data.DataLoader and its worker loop, multiprocessing.Queue/Event/Process",
    ]
    stub_components = [
        "process scheduling, pipes, semaphores, signals, waitpid (simulated kernel)",
        "transfer of tensors by shared memory (by value instead)",
        "SIGCHLD handler of torch (simulated: RuntimeError in the main thread)",
        "multiprocessing.Manager (shared value without server process)",
        "the wrapped dataset (user-defined dataset with known content, random delays)",
    ]
    assumptions = [
        "num_workers 0 or 1 (more loader workers would repeat the data, as for every iterable dataset)",
        "a worker is not killed while it holds the lock of torch's done-event (would block torch itself)",
        "the reader is not killed before torch's worker has started to watch for that",
    ]

    def prepare(self):
        prepare_loader()

    def gen_ds(self, rng, name):
        n = rng.choice([1, 2, 3, 5, 7, 10])
        d = dict(name=name, seqs=[("%s%i" % (name, i), rng.choice([1, 2, 3, 4, 6, 9])) for i in range(n)])
        d["partition"] = rng.choice([1, 1, 1, 2])
        d["unknown"] = n >= 3 and rng.random() < 0.3
        d["ordering"] = rng.choice(ORDERINGS)
        return d

    def generate(self, rng, tier):
        p = dict(mode=rng.choice(["loader", "loader", "loader", "engine"]))
        p["same_len"] = rng.random() < 0.5
        p["dtype"] = rng.choice(["int32", "int32", "uint16", "uint32", "int64", "uint8"])
        p["slow"] = rng.choice([0.0, 0.0, 0.1, 0.3])
        p["dss"] = [self.gen_ds(rng, "a"), self.gen_ds(rng, "b")]
        p["min_len"] = rng.choice([None, None, None, 2, {"data": 2}, {"data": 3}])
        p["max_len"] = rng.choice([None, None, None, 6, {"data": 6}, {"classes": 4}])
        p["chunking"] = None
        p["min_chunk"] = 0
        if rng.random() < 0.35:
            size = rng.choice([1, 2, 3, 4])
            step = rng.choice([size, size, max(1, size - 1), size + 1])
            if p["same_len"] and rng.random() < 0.5:
                p["chunking"] = [size, step]
                p["min_chunk"] = rng.choice([0, 1, 2])
            else:
                p["chunking"] = [{"data": size}, {"data": step}]
                p["min_chunk"] = rng.choice([0, 0, {"data": 2}])
        r = rng.random()
        if r < 0.2:
            p["batching"] = dict(buckets=[[2, rng.choice([1, 2, 3])], [4, rng.choice([1, 2])], [rng.choice([6, 20]), rng.choice([1, 2])]], prob=rng.choice([0.0, 0.5]))
        else:
            p["batching"] = dict(size=rng.choice([6, 12, 30, {"data": 10}, {"data": 20, "classes": 4}, None, ["dyn", 6, 12]]), max_seqs=rng.choice([None, -1, 1, 2, 3, ["dyn", 2, 4]]))
        if not p["chunking"] and p["mode"] == "loader" and rng.random() < 0.15:
            for d in p["dss"]:
                d["seqs"] = [(t, 0 if rng.random() < 0.3 else n) for t, n in d["seqs"]]
        p["shuffle"] = rng.choice([None, None, None, 1, 2, 3, 5])
        p["workers"] = rng.choice([0, 1, 1, 1])
        p["persistent"] = rng.random() < 0.7
        p["prefetch"] = rng.choice([None, 1, 2, 4])
        if p["mode"] == "engine":
            p["epochs"] = rng.choice([1, 2, 3])
            p["dev"] = rng.random() < 0.6
            p["verbose"] = rng.random() < 0.5
            for d in p["dss"]:
                # there must be data in each epoch
                while len(d["seqs"]) < 2 * d["partition"]:
                    d["seqs"].append(["%s%i" % (d["name"], len(d["seqs"])), 4])
        else:
            ep = []
            cur = rng.choice([1, 1, 1, 3])
            for _ in range(rng.choice([1, 2, 3, 4, 5])):
                ep.append(dict(ds=rng.choice([0, 0, 0, 1]), epoch=cur, stop=rng.choice([None, None, None, 0, 1, 2, 3]), drop=rng.random() < 0.3))
                cur = rng.choice([cur + 1, cur + 1, cur + 1, cur, cur + 3, max(1, cur - 1)])
            p["epochs"] = ep
            p["end"] = rng.choice(["del", "exit", "exc", "kill"])
        p["cons_slow"] = rng.choice([0.0, 0.0, 0.2])
        p["sim"] = dict(max_events=100000, max_time=1e6, **swarm_sched(rng))
        if rng.random() < 0.3:
            p["sim"]["p_stall"] = rng.choice([0.01, 0.05])
            p["sim"]["stall_max"] = rng.choice([0.1, 20])
        f = rng.random()
        if f < 0.2:
            p["fail_tag"] = rng.choice(p["dss"][0]["seqs"])[0]
            p["fail_how"] = rng.choice(["raise", "stop", "eof", "exit", "kill"]) if p["workers"] else rng.choice(["raise", "stop", "eof"])
        elif f < 0.45 and p["workers"]:
            p["sim"]["p_kill"] = rng.choice([0.003, 0.02, 0.1])
            p["sim"]["max_kills"] = rng.choice([1, 1, 2])
        return p

    def shrink(self, params):
        if params["mode"] == "loader":
            for t in shrink_list(params["epochs"]):
                if t:
                    yield with_(params, epochs=t)
        elif params["epochs"] > 1:
            yield with_(params, epochs=params["epochs"] - 1)
        for k, v in [("slow", 0.0), ("cons_slow", 0.0), ("shuffle", None), ("chunking", None), ("min_len", None), ("max_len", None), ("dtype", "int32"), ("batching", dict(size=30, max_seqs=None)), ("prefetch", None), ("dev", False), ("verbose", False), ("fail_tag", None), ("end", "del"), ("workers", 0)]:
            if k in params and params[k] != v:
                if k == "workers" and (params.get("fail_tag") or params["sim"].get("p_kill")):
                    continue
                yield with_(params, **{k: v})
        for i in range(2):
            d = params["dss"][i]
            for t in shrink_list(d["seqs"]):
                if len(t) >= 2 * d["partition"] or (t and params["mode"] == "loader"):
                    yield with_(params, dss=[with_(d, seqs=t) if j == i else x for j, x in enumerate(params["dss"])])
            for k, v in [("ordering", "default"), ("partition", 1), ("unknown", False)]:
                if d[k] != v:
                    yield with_(params, dss=[with_(d, **{k: v}) if j == i else x for j, x in enumerate(params["dss"])])

    # ------------------------------------------------------------------ config

    def dyn(self, x):
        from .loaderfuncs import DynInt

        return DynInt(*x[1:]) if isinstance(x, list) else x

    def config_dict(self, params):
        c = dict(backend="torch", device="cpu")
        b = params["batching"]
        if "buckets" in b:
            c["torch_batching"] = {
                "class": "BucketOrderingIterDataPipe",
                "buckets": [tuple(x) for x in b["buckets"]],
                "length_key": "data",
                "random_bucket_prob": b["prob"],
            }
        else:
            c["batch_size"] = self.dyn(b["size"])
            if b["max_seqs"] is not None:
                c["max_seqs"] = self.dyn(b["max_seqs"])
        for k, k2 in [("min_len", "min_seq_length"), ("max_len", "max_seq_length")]:
            if params[k] is not None:
                c[k2] = params[k]
        if params["chunking"]:
            c["chunking"] = tuple(params["chunking"])
            c["min_chunk_size"] = params["min_chunk"]
        if params["shuffle"]:
            c["online_shuffle_batches"] = params["shuffle"]
        o = dict(num_workers=params["workers"])
        if params["workers"]:
            o["persistent_workers"] = params["persistent"]
            if params["prefetch"]:
                o["prefetch_factor"] = params["prefetch"]
        c["torch_dataloader_opts"] = o
        return c

    def make_loader(self, params, config, value, ds, train):
        """like the engine"""
        from returnn.torch.data import pipeline, returnn_dataset_wrapper as w
        from returnn.datasets.basic import init_dataset
        from returnn.util.basic import NumbersDict

        dataset = init_dataset(ds_dict(params, ds))
        cb = w.ReturnnDatasetResetMpSharedEpochCallback(dataset=dataset, epoch_mp_shared=value)
        x = w.ReturnnDatasetIterDataPipe(dataset, reset_callback=cb)
        if params["min_len"] is not None or params["max_len"] is not None:
            x = pipeline.LenFilterDataPipe(x, min_seq_length=params["min_len"], max_seq_length=params["max_len"])
        if params["chunking"]:
            x = pipeline.ChunkingIterDataPipe(x, tuple(params["chunking"]), min_chunk_size=params["min_chunk"])
        x = pipeline.get_batching_iterable_dataset_from_config(dataset=x, config=config, train=train)
        if train and params["shuffle"]:
            x = pipeline.ShufflingDataPipe(x, monotonic_data_keys=("complete_frac", "seq_idx"), buffer_size=params["shuffle"])
        return pipeline.create_data_loader_from_batches(x, config.typed_value("torch_dataloader_opts"))

    # ------------------------------------------------------------------ check

    def items(self, params, ds, epoch):
        items, n_seqs = model_items(params, ds, epoch)
        b = params["batching"]
        if "buckets" in b:
            top = max(x[0] for x in b["buckets"])
            items = [x for x in items if len(x[2]["data"]) <= top]
        return items, n_seqs

    def check(self, res, params, what, ds, train, epoch, batches, ended):
        """:param batches: list of collated batches"""
        items, n_seqs = self.items(params, ds, epoch)
        b = params["batching"]
        bucket = "buckets" in b
        dts = {"data": "float32", "classes": out_dtype(params["dtype"])}
        exp = [key_of(t, {k: d[k].astype(dts[k]) for k in d}) for t, _, d in items]
        got = []
        last_idx, last_frac = -1, -1.0
        for bi, x in enumerate(batches):
            w = "%s, batch %i" % (what, bi)
            u = unpack(x)
            if isinstance(u, str):
                return res.violate("collate", "%s: %s" % (w, u))
            n = len(u)
            for k in ("data", "classes"):
                if str(x[k].dtype) != "torch." + dts[k]:
                    return res.violate("dtype", "%s: %s has dtype %s" % (w, k, x[k].dtype))
            mx = {k: max(len(d[k]) for _, d in u) for k in ("data", "classes")}
            if bucket:
                if not any(bl >= mx["data"] and bn >= n for bl, bn in b["buckets"]):
                    return res.violate("limit", "%s: %i seqs of lens %r do not fit in any bucket %r" % (w, n, [len(d["data"]) for _, d in u], b["buckets"]))
            else:

                def dy(v):
                    return (v[1] if epoch % 2 else v[2]) if isinstance(v, list) else v

                ms = dy(b["max_seqs"])
                if ms not in (None, -1) and n > ms:
                    return res.violate("limit", "%s: %i seqs, max_seqs %i" % (w, n, ms))
                for k in mx:
                    l = lim(dy(b["size"]), k, 10**9)
                    if n > 1 and n * mx[k] > l:
                        return res.violate("limit", "%s: %i seqs with max len %i of %s, batch_size %i" % (w, n, mx[k], k, l))
            if "epoch" in x:
                if int(x["epoch"]) != epoch:
                    return res.violate("epoch", "%s: is of epoch %i" % (w, int(x["epoch"])))
                ns = int(x["num_seqs"])
                if ns != (-1 if ds["unknown"] else n_seqs) and not (ds["unknown"] and ns == n_seqs):
                    return res.violate("num-seqs", "%s: num_seqs %i, expected %i" % (w, ns, n_seqs))
                fr = float(x["complete_frac"])
                if (fr != -1 and not 0 <= fr <= 1) or fr < last_frac - 1e-6:
                    if not bucket:
                        return res.violate("frac", "%s: complete_frac %r after %r" % (w, fr, last_frac))
                last_frac = fr
                for v in x["seq_idx"]:
                    if int(v) < last_idx and not bucket:
                        return res.violate("seq-idx", "%s: seq_idx %i after %i" % (w, int(v), last_idx))
                    last_idx = int(v)
            got.extend(key_of(t, d) for t, d in u)
        ordered = not bucket and not (train and params["shuffle"])
        if ordered:
            for i, g in enumerate(got):
                if i >= len(exp) or g != exp[i]:
                    cls = "wrong-seq"
                    if i >= len(exp):
                        cls = "extra"
                    elif g[0] == exp[i][0]:
                        cls = "wrong-data"
                    return res.violate(cls, "%s: item %i is %r, expected %r. all %r" % (what, i, g, exp[i] if i < len(exp) else None, [x[0] for x in exp]))
        else:
            rest = list(exp)
            for g in got:
                if g not in rest:
                    return res.violate("extra", "%s: got %r, which is not in the epoch or was delivered before. got %r, expected %r" % (what, g, [x[0] for x in got], [x[0] for x in exp]))
                rest.remove(g)
        if ended and len(got) != len(exp):
            return res.violate("lost", "%s: epoch ended after %i of %i items. got %r, expected %r" % (what, len(got), len(exp), [x[0] for x in got], [x[0] for x in exp]))

    # ------------------------------------------------------------------ runs

    def execute(self, params, chooser, log=False):
        res = RunResult()
        sim = new_loader_sim(params, chooser, log)
        sim.vfs.add_mount("exp")
        sim.vfs.god_makedirs("/simfs/exp")
        from sim import mpsync

        out = []
        st = dict(phase="run", err=None)
        cs = params["cons_slow"]

        def pause():
            if cs:
                d = sim.choose("cons", 3, 0, cs)
                if d:
                    sim.sleep([0, 0.5, 40][d])

        def loader_main(config):
            from .loaderfuncs import SimValue

            value = SimValue("i", 0)
            loaders = {}
            held = []
            for e in params["epochs"]:
                o = dict(ds=e["ds"], epoch=e["epoch"], batches=[], ended=False, train=e["ds"] == 0)
                out.append(o)
                if e["ds"] not in loaders:
                    loaders[e["ds"]] = self.make_loader(params, config, value, params["dss"][e["ds"]], e["ds"] == 0)
                value.value = e["epoch"]
                it = iter(loaders[e["ds"]])
                del held[:]
                while e["stop"] is None or len(o["batches"]) < e["stop"]:
                    try:
                        x = next(it)
                    except StopIteration:
                        o["ended"] = True
                        break
                    o["batches"].append(x)
                    pause()
                if not e["drop"]:
                    held.append(it)
                it = None
            st["phase"] = "end"
            del held[:]
            end = params["end"]
            if end == "exit":
                sim.keep.append(loaders)
            elif end == "exc":
                raise RuntimeError("reader ends with exception")
            elif end == "kill":
                # torch's worker only watches for the death of its parent from some point on
                while any(q.parent is sim.current.proc and q.alive and not q.data.get("watchdog") for q in sim.procs):
                    sim.sleep(1)
                sim.kill_proc(sim.current.proc, why="reader killed")
            loaders = None

        def engine_main(config):
            import returnn.frontend as rf
            from returnn.torch.engine import Engine
            from returnn.datasets.basic import init_dataset

            rf.run_ctx.reset_run_ctx()
            rf.run_ctx._init_run_ctx = None
            engine = Engine(config=config)

            def rec(train, b):
                ep = engine.epoch
                if not out or (out[-1]["train"], out[-1]["epoch"]) != (train, ep):
                    for o in out:
                        o["ended"] = True  # the engine went on
                    out.append(dict(ds=0 if train else 1, epoch=ep, batches=[], ended=False, train=train))
                out[-1]["batches"].append({k: (v.detach().clone() if hasattr(v, "detach") else v.copy()) for k, v in b.items()})
                pause()

            sim.rec = rec
            engine.init_train_from_config(
                train_data=init_dataset(ds_dict(params, params["dss"][0])),
                dev_data=init_dataset(ds_dict(params, params["dss"][1])) if params["dev"] else None,
            )
            engine.train()
            for o in out:
                o["ended"] = True
            st["phase"] = "end"

        def main():
            from returnn.config import Config, set_global_config
            from . import loaderfuncs as f

            try:
                c = self.config_dict(params)
                if params["mode"] == "engine":
                    c.update(task="train", num_epochs=params["epochs"], learning_rate=1e-3, model=MODEL, get_model=f.get_model, train_step=f.train_step, optimizer={"class": "sgd"})
                    c["extern_data"] = {"data": {"dim": 2}, "classes": {"dim": 10, "sparse": True, "dtype": out_dtype(params["dtype"])}}
                    if params["dtype"] == "uint8":
                        c["extern_data"]["classes"]["dtype"] = "uint8"
                config = Config(c)
                set_global_config(config)
                (engine_main if params["mode"] == "engine" else loader_main)(config)
            except core.SimKilled:
                raise
            except Exception as exc:
                if st["phase"] == "run":
                    st["err"] = exc
                    st["err_text"] = describe_exc(exc)
                exc = None
                raise

        sim.keep = []
        p = spawn_loader_reader(sim, main, "r")
        p.killable = False
        sim.kill_filter = lambda t, kind, detail: t.proc is not p and st["phase"] == "run" and not mpsync.held_event_lock(t.proc)
        with log_verbosity(params.get("verbose")):
            run_sim(sim)
        p.exc = None
        vfs.set_active(sim.vfs)
        err = st["err"]
        empty = False
        if params["mode"] == "engine" and err is not None:
            # not supported: training or evaluation without any data
            empty = any(not self.items(params, d, e)[0] for d in params["dss"] for e in range(1, params["epochs"] + 1))
        injected = empty or bool(sim.n_kills or any(k.startswith("worker-") for k in sim.fault_counts))
        if sim.outcome != "ok":
            res.violate("hang" if st["phase"] == "run" else "not-terminated", "%s in phase %s (reader error: %r): %s" % (sim.outcome, st["phase"], err, sim.outcome_info))
        elif err is not None and not injected:
            res.violate("error:%s" % type(err).__name__, "reader got an exception: %s" % st["err_text"])
        else:
            for o in out:
                self.check(res, params, "%s epoch %i of dataset %r" % ("train" if o["train"] else "eval", o["epoch"], "ab"[o["ds"]]), params["dss"][o["ds"]], o["train"], o["epoch"], o["batches"], o["ended"])
                if res.violation:
                    break
            if not res.violation and err is None and params["mode"] == "engine":
                want = [(True, e) for e in range(1, params["epochs"] + 1)]
                seen = [(o["train"], o["epoch"]) for o in out if o["train"]]
                # (an epoch could have no data after filtering)
                miss = [w for w in want if w not in seen and self.items(params, params["dss"][0], w[1])[0]]
                if (miss or seen != sorted(set(seen))):
                    res.violate("epochs", "trained epochs %r, expected %r" % (seen, want))
        st["err"] = None
        sim.keep = None
        n_items = sum(len(b["seq_tag"]) for o in out for b in o["batches"])
        cnt = dict(epochs=len(out), batches=sum(len(o["batches"]) for o in out), seqs=n_items)
        if err is not None:
            cnt["errors"] = 1
        self.collect(sim, res, dict(count=cnt, case="%s/w%i%s" % (params["mode"], params["workers"], "p" if params["persistent"] and params["workers"] else "")))
        err = None
        return res


SCENARIO = S()
