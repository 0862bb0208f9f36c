"""C17: data-parallel training: several workers in step"""

from __future__ import annotations
import hashlib
import json
import random as _random
import re
from .dsbase import *
from . import dsbase as _d
from . import distbase as db
from . import engbase as eb

MODEL, LRF = eb.MODEL, eb.LRF
_h = []


def gen_config(seed):
    rng = _random.Random(seed * 13 + 5)
    n = rng.choice([1, 2, 3, 4])
    c = dict(num_epochs=n, learning_rate=0.1, random_seed=rng.randint(1, 99), batch_size=rng.choice([6, 8, 12, 30]), max_seqs=rng.choice([1, 2, 3, 10]))
    c["learning_rate_control"] = rng.choice(["constant", "newbob", "newbob_multi_epoch"])
    if rng.random() < 0.6:
        c["learning_rate_control_error_measure"] = rng.choice(["dev_loss_ce", "train_loss_ce"])
    c["newbob_learning_rate_decay"] = 0.5
    c["newbob_relative_error_threshold"] = rng.choice([-0.01, -0.2, 0.0])
    c["optimizer"] = rng.choice([{"class": "adam"}, {"class": "sgd", "momentum": 0.9}, {"class": "sgd"}])
    if rng.random() < 0.3:
        c["gradient_clip_global_norm"] = 1.0
    if rng.random() < 0.4:
        c["accum_grad_multiple_step"] = rng.choice([2, 3])
    c["save_interval"] = rng.choice([1, 1, 1, 2])
    if rng.random() < 0.3:
        c["cleanup_old_models"] = rng.choice([True, dict(keep_last_n=1, keep_best_n=0, keep=[])])
    if rng.random() < 0.3:
        c["online_shuffle_batches"] = 2
    x = dict(
        size=rng.choice([2, 2, 3, 4]),
        num=[rng.choice([2, 4, 6, 9]) for _ in range(4)] if rng.random() < 0.3 else [rng.choice([2, 4, 6, 9])] * 4,
        ordering=rng.choice(["random", "random", "laplace:.2", "sorted", "default"]),
        partition=rng.choice([1, 1, 2]),
        evals=rng.choice([["dev"], ["dev", "devtrain"], ["dev", "eval"], []]),
        dropout=rng.choice([0, 0.3]),
        data_seed=rng.randrange(1000),
        dist=rng.choice(["grad", "param", "param"]),
        sync=rng.choice([1, 1, 2, 3, 5]),
        sync_on_cpu=rng.random() < 0.25,
        backend=rng.choice(["gloo", "nccl"]),
    )
    x.update(bn=False, frozen=x["dist"] == "param" and rng.random() < 0.3)
    if "dev" not in x["evals"]:
        c.pop("learning_rate_control_error_measure", None)
    return dict(c=c, x=x)


def prepare():
    prepare_ds()
    eb._prepare_torch()
    db.install()
    if _h:
        return
    import torch
    import returnn.frontend as rf
    import returnn.torch.engine as te
    import returnn.torch.distributed as td
    import returnn.datasets.basic as b
    from returnn.torch.util import diagnose_gpu
    from returnn.util.basic import BackendEngine

    BackendEngine.select_engine(engine=BackendEngine.Torch)
    from sim import mpsync

    orig_dev = te.get_device_from_config_opt

    def get_dev(*a, **k):
        r = orig_dev("cpu")
        if cur_task() is not None and "dist_env" in cur_task().proc.data:
            r.result = "cuda"
        return r

    te.get_device_from_config_opt = get_dev
    diagnose_gpu.print_using_cuda_device_report = lambda *a, **k: None
    torch.cuda.set_device = lambda *a, **k: None
    _h.append(module_state_handler(rf.run_ctx))
    _h.append(mpsync.rng_handler())
    assert any(h for h in _d._mod_handlers)


class S(Scenario):
    id = "C17"
    quick_runs = 1200
    thorough_runs = 60000
    quick_time = 150
    real_components = [
        "returnn.torch.engine.Engine (train, evaluation, saving), returnn.torch.distributed, returnn.torch.updater, returnn.learning_rate_control",
        "returnn.datasets (StaticDataset, sequence ordering, seeds per rank), returnn.torch.data, torch DataLoader (num_workers=0)",
        "torch (model, optimizer, autograd, serialisation)",
    ]
    stub_components = [
        "torch.distributed collectives and process groups (simulated; the n-th call of all ranks in a group belong together; the source of a broadcast may or may not wait)",
        "DistributedDataParallel (gradient averaging stub with the same collectives; no buffers)",
        "GPU (CPU tensors), launcher (supervisor which restarts all ranks when one died)",
        "file system, clock, process scheduling and kill",
    ]
    assumptions = [
        "model, learning rate file and data are the same for all workers; the user's train_step depends only on its inputs and RETURNN's random state",
        "as designed, an epoch ends for all workers when the first one has no more data",
    ]

    def prepare(self):
        prepare()
        self._cache = {}

    def generate(self, rng, tier):
        cfg = gen_config(rng.randrange(120 if tier == "quick" else 4000))
        sim = dict(max_time=1e7, max_events=200000, p_switch=rng.choice([0.0, 0.05, 0.3, 0.6]), p_block=rng.choice([0.2, 1.0]))
        mode = rng.choice(["plain", "plain", "stall", "kill", "kill", "kill+stall"])
        if "stall" in mode:
            sim.update(p_stall=rng.choice([0.01, 0.05]), stall_max=rng.choice([1, 100]))
        if "kill" in mode:
            sim.update(p_kill=rng.choice([0.002, 0.01, 0.05]), max_kills=rng.choice([1, 1, 2]))
        return dict(cfg=cfg, mode=mode, sim=sim, async_src=rng.random() < 0.7, peer=rng.choice(["error", "hang"]), amb=rng.randrange(100))

    def shrink(self, params):
        c, x = params["cfg"]["c"], params["cfg"]["x"]
        if c["num_epochs"] > 1:
            yield with_(params, cfg=dict(c=dict(c, num_epochs=c["num_epochs"] - 1), x=x))
        if x["size"] > 2:
            yield with_(params, cfg=dict(c=c, x=dict(x, size=2)))
        for k in sorted(c):
            if k not in ("num_epochs", "learning_rate", "optimizer", "batch_size", "max_seqs", "random_seed", "save_interval", "newbob_learning_rate_decay"):
                yield with_(params, cfg=dict(c={k2: v for k2, v in c.items() if k2 != k}, x=x))
        for k, v in [("dropout", 0), ("evals", ["dev"]), ("sync_on_cpu", False), ("frozen", False), ("sync", 1)]:
            if x[k] != v:
                yield with_(params, cfg=dict(c=c, x=dict(x, **{k: v})))

    # ------------------------------------------------------------------ one worker

    def _run_rank(self, sim, cfg, rank, rec, amb):
        import numpy
        import torch
        import returnn.frontend as rf
        from returnn.config import Config, global_config_ctx
        from returnn.datasets import init_dataset
        from returnn.torch.engine import Engine

        c, x = cfg["c"], cfg["x"]
        torch.manual_seed(1000 * amb + rank)
        numpy.random.seed(1000 * amb + rank)
        _random.seed(1000 * amb + rank)
        os.environ["LOCAL_RANK"], os.environ["LOCAL_WORLD_SIZE"] = str(rank), str(x["size"])

        def snap():
            return [p.detach().numpy().copy() for p in engine.get_pt_model().parameters()]

        def train_step(*, model, extern_data, **_kw):
            data, classes = extern_data["data"], extern_data["classes"]
            ctx = rf.get_run_ctx()
            train = ctx.train_flag is True or (not isinstance(ctx.train_flag, bool) and bool(ctx.train_flag.raw_tensor))
            if train:
                rec.step(rank, engine, snap())
            lens = data.dims[1].dyn_size_ext.raw_tensor
            logits = model(data.raw_tensor)
            mask = torch.arange(logits.shape[1])[None, :] < lens[:, None]
            loss = torch.nn.functional.cross_entropy(logits[mask], classes.raw_tensor[mask].long(), reduction="none")
            ctx.mark_as_loss(name="ce", loss=loss)

        d = dict(c)
        if x["dist"] == "grad":
            dist = {"reduce_type": "grad", "class": db._mods["SimDDP"]}
        else:
            dist = {"reduce_type": "param", "param_sync_step": x["sync"]}
            if x["sync_on_cpu"]:
                dist["sync_on_cpu"] = True
        dist["backend"] = x["backend"]
        d.update(
            task="train",
            device="gpu",
            backend="torch",
            torch_distributed=dist,
            extern_data={"data": {"dim": 4}, "classes": {"dim": 3, "sparse": True}},
            get_model=lambda **_kw: eb._cls["Net"](x),
            train_step=train_step,
            model=MODEL,
            learning_rate_file=LRF,
            torch_dataloader_opts={"num_workers": 0},
        )
        if "devtrain" in x["evals"]:
            d["eval_datasets"] = {"devtrain": ds_opts(x, "devtrain", 2)}
        config = Config(d)
        with global_config_ctx(config):
            engine = Engine(config=config)
            engine._device = "cpu"
            train = init_dataset(ds_opts(x, "train", x["num"][rank], seq_ordering=x["ordering"], partition_epoch=x["partition"]))
            dev = init_dataset(ds_opts(x, "dev", 3)) if "dev" in x["evals"] else None
            ev = init_dataset(ds_opts(x, "eval", 1)) if "eval" in x["evals"] else None
            engine.init_train_from_config(train_data=train, dev_data=dev, eval_data=ev)
            opt = engine._updater.get_optimizer()
            opt.register_step_post_hook(lambda *a, **k: rec.updated(rank, snap()))
            engine.train()
            rec.finished(rank, engine, snap())

    def _batches(self, cfg, rank):
        """number of batches per epoch, this rank alone"""
        key = json.dumps([cfg["x"], rank, cfg["c"]["batch_size"], cfg["c"]["max_seqs"], cfg["c"]["num_epochs"]], sort_keys=True)
        if key not in self._cache:
            c, x = cfg["c"], cfg["x"]
            from returnn.datasets import init_dataset

            r = []
            ds = init_dataset(ds_opts(x, "train", x["num"][rank], seq_ordering=x["ordering"], partition_epoch=x["partition"], random_seed_offset=rank * 16127))
            for ep in range(1, c["num_epochs"] + 1):
                ds.init_seq_order(epoch=ep)
                n, frames, seqs, i = 0, 0, 0, 0
                while ds.is_less_than_num_seqs(i):
                    ds.load_seqs(i, i + 1)
                    t = ds.get_seq_length(i)["data"]
                    if seqs and (seqs + 1 > c["max_seqs"] or (seqs + 1) * max(frames, t) > c["batch_size"]):
                        n, frames, seqs = n + 1, 0, 0
                    frames, seqs, i = max(frames, t), seqs + 1, i + 1
                r.append(n + bool(seqs))
            self._cache[key] = r
        return self._cache[key]

    # ------------------------------------------------------------------

    def _run_job(self, params, chooser, log, res, ref):
        import numpy

        cfg = params["cfg"]
        c, x = cfg["c"], cfg["x"]
        W = x["size"]
        sim = new_mp_sim(params, chooser, log)
        sim.globals_handlers.extend(_h)
        v = sim.vfs
        v.add_mount("exp")
        v.god_makedirs("/simfs/exp")
        st = dict(attempts=0, done=False, states={}, states_ep={})
        batches = [self._batches(cfg, r) for r in range(W)]
        n_steps = [min(b[e] for b in batches) for e in range(c["num_epochs"])]

        def violate(cls, msg):
            res.violate(cls, "attempt %i: %s" % (st["attempts"], msg))

        class Rec:
            """what the workers did in one attempt"""

            def __init__(self):
                self.steps = [[] for _ in range(W)]  # (epoch, epoch_step, global_step, lr)
                self.start = [[] for _ in range(W)]  # params at the start of the step
                self.upd = [{} for _ in range(W)]  # step -> params after the last update before the next step
                self.fin = [None] * W

            def step(self, rank, engine, ps):
                sim.event("step", (rank, engine.epoch, engine.global_train_step))
                ss = self.steps[rank]
                ep = engine.epoch
                i = ss[-1][1] + 1 if ss and ss[-1][0] == ep else 0
                ss.append((ep, i, engine.global_train_step, engine.learning_rate))
                self.start[rank].append(ps)
                n = len(ss) - 1
                for o in range(W):
                    if len(self.steps[o]) > n and self.steps[o][n] != ss[n]:
                        violate("not-in-step", "step %i: rank %i at (epoch, step, global step, learning rate) %r, rank %i at %r" % (n, rank, ss[n], o, self.steps[o][n]))
                if i >= n_steps[ep - 1]:
                    violate("too-many-steps", "rank %i does step %i in epoch %i, but batches per rank are %r" % (rank, i, ep, [b[ep - 1] for b in batches]))
                if n == 0:
                    for o in range(W):
                        if self.start[o] and not same(self.start[o][0], ps):
                            violate("start-differs", "ranks %i and %i start with different parameters" % (rank, o))
                else:
                    self.check(n - 1, rank)
                    if ss[n - 1][0] != ep and (ss[n - 1][1] + 1 != n_steps[ss[n - 1][0] - 1] or ep != ss[n - 1][0] + 1):
                        violate("epoch-length", "rank %i: epoch %i ended after %i steps, batches per rank are %r; next epoch %i" % (rank, ss[n - 1][0], ss[n - 1][1] + 1, [b[ss[n - 1][0] - 1] for b in batches], ep))

            def updated(self, rank, ps):
                self.upd[rank][len(self.steps[rank]) - 1] = ps

            def check(self, n, rank):
                """step n is complete on this rank. compare with the others which completed it, too"""
                post = self.after(rank, n)
                pre = self.before(rank, n)
                sync = x["dist"] == "param" and self.steps[rank][n][1] % x["sync"] == x["sync"] - 1
                if not (sync or x["dist"] == "grad"):
                    if not same(pre, post):
                        violate("changed", "rank %i: parameters changed after the update of step %r without synchronisation" % (rank, self.steps[rank][n]))
                    return
                for o in range(W):
                    p2 = self.after(o, n)
                    if p2 is not None and not same(post, p2):
                        violate("params-differ", "ranks %i and %i hold different parameters after the synchronisation in step %r" % (rank, o, self.steps[rank][n]))
                if sync:
                    pres = [self.before(o, n) for o in range(W)]
                    if any(p is None for p in pres):
                        violate("sync-early", "rank %i got over the synchronisation in step %r before the others reached it" % (rank, self.steps[rank][n]))
                        return
                    for i, p in enumerate(post):
                        m = sum(q[i].astype("float64") for q in pres) / W
                        if not numpy.allclose(p, m, rtol=1e-4, atol=1e-6):
                            violate("not-average", "parameter %i after the synchronisation in step %r is not the average" % (i, self.steps[rank][n]))
                            return

            def after(self, rank, n):
                if len(self.start[rank]) > n + 1:
                    return self.start[rank][n + 1]
                if len(self.start[rank]) == n + 1:
                    return self.fin[rank]
                return None

            def before(self, rank, n):
                """parameters when the synchronisation of step n starts"""
                if len(self.start[rank]) <= n:
                    return None
                return self.upd[rank].get(n, self.start[rank][n])

            def finished(self, rank, engine, ps):
                self.fin[rank] = ps
                ss = self.steps[rank]
                st["finished"] += 1
                if ss:
                    self.check(len(ss) - 1, rank)
                    if ss[-1][0] != c["num_epochs"] or ss[-1][1] + 1 != n_steps[-1]:
                        violate("epoch-length", "rank %i finished after epoch %i step %i" % (rank, ss[-1][0], ss[-1][1]))
                d = {ep: (e.learning_rate, dict(e.error)) for ep, e in engine.learning_rate_control.epoch_data.items()}
                st.setdefault("scores", {})[rank] = d

        final_re = re.compile(r"\.(\d+)(\.opt)?\.pt$")

        def obs(op, path, p, **info):
            if not path.startswith("/simfs/exp"):
                return
            rank = p.data.get("rank")
            if rank not in (0, None) and op in ("rename", "write", "unlink", "ftruncate", "truncate", "link", "mkdir", "open"):
                if op == "open" and not (info.get("created") or info.get("trunc")):
                    return
                violate("foreign-write", "rank %i: %s %s" % (rank, op, path))
            if op == "rename" and final_re.search(path):
                node = v.inode(path)
                if node is not None:
                    ep = (st["attempts"], path)
                    if ep in st["states_ep"]:
                        violate("written-twice", "%s written twice" % path)
                    st["states_ep"][ep] = 1
                    s = eb.load_ckpt(bytes(node.data), path)
                    st["states"].setdefault(path, []).append(s)

        v.observers.append(obs)
        sim.kill_filter = lambda t, kind, detail: "rank" in t.proc.data
        counts = {}

        def sup():
            while not st["done"] and not res.violation and st["attempts"] < 20:
                st["attempts"] += 1
                st["finished"] = 0
                w = db.World(sim, W, violate, x["backend"], params["async_src"])
                rec = Rec()
                ps = []
                any_exit = core.WaitObj()
                for r in range(W):
                    p = sim.spawn_proc(lambda r=r: self._run_rank(sim, cfg, r, rec, params["amb"] + st["attempts"]), name="r%i.%i" % (st["attempts"], r))
                    p.data["rank"] = r
                    p.exit_waiters = any_exit
                    p.data["dist_env"] = (w, r)
                    ps.append(p)
                killed = False
                while any(p.alive for p in ps):
                    dead = [p for p in ps if not p.alive]
                    bad = [p for p in dead if p.killed_by or p.exc is not None]
                    if bad and not killed:
                        killed = True
                        for p in bad:
                            if not p.killed_by and not w.broken:
                                violate("error:%s" % type(p.exc).__name__, "rank %i failed: %s" % (p.data["rank"], describe_exc(p.exc)))
                        if params["peer"] == "error":
                            w.broken = True
                            sim.wake_all(w.waiters)
                        sim.sleep([0.0, 0.1, 5.0][sim.choose("launcher", 3, 0, 0.7)])
                        for p in ps:
                            if p.alive:
                                sim.kill_proc(p)
                        continue
                    sim.block(any_exit, info="wait for a worker")
                for k, n in w.count.items():
                    counts[k] = counts.get(k, 0) + n
                bad = [p for p in ps if p.killed_by or p.exc is not None]
                for p in bad:
                    if not p.killed_by and not killed and not w.broken:
                        violate("error:%s" % type(p.exc).__name__, "rank %i failed: %s" % (p.data["rank"], describe_exc(p.exc)))
                for p in ps:
                    p.exc = None
                if not bad:
                    st["done"] = True
                    st["rec"] = rec
                    left = {k: list(g["ops"]) for k, g in w.groups.items() if g["ops"]}
                    if left:
                        violate("unmatched", "collective operations without all ranks: %r" % left)
                sim.sleep(1)

        sp = sim.spawn_proc(sup, name="sup")
        sp.killable = False
        run_sim(sim)
        if sp.exc is not None:
            raise HarnessError("sup: " + describe_exc(sp.exc))
        if not res.violation:
            if sim.outcome != "ok":
                violate("hang", "%s: %s" % (sim.outcome, sim.outcome_info))
            elif not st["done"]:
                violate("no-progress", "training does not finish")
            else:
                sc = st.get("scores", {})
                for r in range(1, W):
                    if not same_scores(sc[0], sc[r]):
                        violate("scores-differ", "rank %i ends with scores/learning rates %r, rank 0 has %r" % (r, sc[r], sc[0]))
                for path, ss in sorted(st["states"].items()):
                    for s in ss:
                        if isinstance(s, Exception):
                            violate("bad-checkpoint", "%s: %r" % (path, s))
                        elif s[0] != int(final_re.search(path).group(1)) or s[1] != sum(n_steps[: s[0]]):
                            violate("wrong-checkpoint", "%s holds epoch %s, step %s, expected step %s" % (path, s[0], s[1], sum(n_steps[: s[0]])))
                for ep in range(1, c["num_epochs"] + 1):
                    if (ep % c["save_interval"] == 0 or ep == c["num_epochs"]) and "%s.%03d.pt" % (MODEL, ep) not in st["states"]:
                        violate("not-saved", "checkpoint of epoch %i was never written" % ep)
                if ref is not None and x["dist"] == "grad":
                    for path, ss in sorted(st["states"].items()):
                        if any(s != ref["states"][path][0] for s in ss):
                            violate("restart-differs", "%s: (epoch, step, digest) %r, undisturbed training %r" % (path, ss, ref["states"][path]))
        cnt = dict(counts)
        cnt.update(attempts=st["attempts"])
        sim.count_extra = cnt
        return sim, st

    def execute(self, params, chooser, log=False):
        res = RunResult()
        cfg = params["cfg"]
        ref = None
        if "kill" in params["mode"] or "stall" in params["mode"]:
            key = "ref" + json.dumps(cfg, sort_keys=True)
            if key not in self._cache:
                r2 = RunResult()
                sim, st = self._run_job(dict(params, sim=dict(max_events=10**6, max_time=1e7), async_src=True), Chooser(deviations={}), False, r2, None)
                self._cache[key] = (r2.violation, dict(states=st["states"]))
            viol, ref = self._cache[key]
            if viol:
                res.violate(*viol)
                self.collect(sim, res, dict(case="ref"))
                return res
        sim, st = self._run_job(params, chooser, log, res, ref)
        self.collect(sim, res, dict(count=sim.count_extra, case=cfg["x"]["dist"]))
        return res


def ds_opts(x, name, num, **kw):
    import numpy

    rng = numpy.random.RandomState(x["data_seed"])
    seqs = []
    for _ in range(num):
        t = rng.randint(2, 6)
        seqs.append({"data": rng.normal(size=(t, 4)).astype("float32"), "classes": rng.randint(0, 3, size=(t,)).astype("int32")})
    return {"class": "StaticDataset", "data": seqs, "input_dim": 4, "output_dim": {"data": (4, 2), "classes": (3, 1)}, "name": name, **kw}


def same(a, b):
    import numpy

    return len(a) == len(b) and all(numpy.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def same_scores(a, b):
    if a.keys() != b.keys():
        return False
    for ep in a:
        if a[ep][0] != b[ep][0] or a[ep][1] != b[ep][1]:
            return False
    return True


SCENARIO = S()
