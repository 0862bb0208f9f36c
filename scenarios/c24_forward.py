"""C24: forwarding (inference) of a dataset through the PyTorch engine, with out-of-memory errors and loader workers."""

from __future__ import annotations
from . import c16_loader
from .c16_loader import *

OUTS = ["out", "cls", "sum", "half", "tb", "mat", "beam", "tag", "rev"]


def expected_outputs(outs, tag, d):
    """what the callback should get for this single seq. key -> (array, None|list of sizes)"""
    import numpy

    x, c = d["data"].astype("float32"), d["classes"]
    r = {}
    for k in outs:
        sizes = None
        if k == "out":
            v = x * 2 + 1
        elif k == "cls":
            v = c
        elif k == "sum":
            v = numpy.array(x.sum(), dtype="float32")
        elif k == "half":
            v = x[::2, :1]
        elif k == "tb":
            v = x + 3
        elif k == "mat":
            v = x[:, 0][:, None] * c.astype("float32")[None, :]
        elif k == "rev":
            v = x[::-1]
        elif k == "tag":
            v = tag
        elif k == "beam":
            sizes = [max(1, len(x) - b) for b in (1, 2)]
            v = numpy.stack([x[: max(sizes), 0] * (b + 1) for b in (1, 2)])
        r[k] = (v, sizes)
    return r


class S(c16_loader.S):
    id = "C24"
    quick_runs = 4000
    thorough_runs = 150000
    quick_time = 90
    real_components = [
        "returnn.torch.engine.Engine.forward_with_callback, returnn.frontend.run_ctx, returnn.tensor",
        "returnn.torch.data (extern_data, queued_data_iter, pipeline, returnn_dataset_wrapper)",
        "torch.utils.data.DataLoader and its worker loop, multiprocessing.Queue/Event/Process",
    ]
    stub_components = [
        "process scheduling, pipes, semaphores, signals, waitpid (simulated kernel)",
        "transfer of tensors by shared memory (by value instead)",
        "GPU memory: torch.cuda.OutOfMemoryError raised inside the user's forward_step, by a memory budget or at random",
        "multiprocessing.Manager (shared value without server process)",
        "the dataset (user-defined, known content, random delays), model and forward_step (user code)",
    ]
    assumptions = [
        "the user's forward_step treats every sequence of a batch on its own; what it computes on padding is arbitrary",
        "num_workers 0 or 1",
    ]

    def generate(self, rng, tier):
        p = super().generate(rng, tier)
        for k in ("dev", "end", "cons_slow"):
            p.pop(k, None)
        p["mode"] = "forward"
        p["dtype"] = rng.choice(["int32", "int32", "uint8", "int64"])
        p["chunking"], p["min_chunk"] = None, 0
        for d in p["dss"]:
            d["seqs"] = [(t, n or 1) for t, n in d["seqs"]]
        if "buckets" in p["batching"]:
            p["batching"]["buckets"][-1][0] = 20
        p["outs"] = sorted(rng.sample(OUTS, rng.choice([1, 2, 3, 5, len(OUTS)])))
        p["auto_dims"] = rng.random() < 0.5
        p["pad"] = rng.choice([0, 777])
        p["split"] = rng.random() < 0.8
        p["oom"] = rng.choice([None, "budget", "random", "both"])
        p["budget"] = rng.choice([4, 9, 12, 20])
        p["p_oom"] = rng.choice([0.05, 0.2, 0.5])
        p["other_err"] = rng.choice([0, 0, 0, 0, 0.02])
        p["cb_fail"] = rng.choice([None] * 9 + [rng.randrange(6)])
        p["skip"] = (p["min_len"] is not None or p["max_len"] is not None)
        p["verbose"] = rng.random() < 0.4
        p["sort"] = rng.choice([None, None, False, True])
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            steps.append(dict(ds=rng.choice([0, 0, 1]), epoch=rng.choice([1, 1, 2, 3, 5]), init=rng.random() < 0.75, same=rng.random() < 0.5))
        p["steps"] = steps
        p.pop("epochs", None)
        return p

    def shrink(self, params):
        for t in shrink_list(params["steps"]):
            if t:
                yield with_(params, steps=t)
        for t in shrink_list(params["outs"]):
            if t:
                yield with_(params, outs=t)
        for k, v in [("slow", 0.0), ("shuffle", None), ("min_len", None), ("max_len", None), ("dtype", "int32"), ("batching", dict(size=30, max_seqs=None)), ("prefetch", None), ("fail_tag", None), ("workers", 0), ("oom", None), ("other_err", 0), ("cb_fail", None), ("verbose", False), ("sort", None), ("auto_dims", False), ("pad", 0)]:
            if params.get(k, v) != v:
                if k == "workers" and (params.get("fail_tag") or params["sim"].get("p_kill")):
                    continue
                yield with_(params, **{k: v})
        for i in range(2):
            d = params["dss"][i]
            for t in shrink_list(d["seqs"]):
                if len(t) >= d["partition"]:
                    yield with_(params, dss=[with_(d, seqs=t) if j == i else x for j, x in enumerate(params["dss"])])
            for k, v in [("ordering", "default"), ("partition", 1), ("unknown", False)]:
                if d[k] != v:
                    yield with_(params, dss=[with_(d, **{k: v}) if j == i else x for j, x in enumerate(params["dss"])])

    def execute(self, params, chooser, log=False):
        res = RunResult()
        sim = new_loader_sim(params, chooser, log)
        sim.vfs.add_mount("exp")
        sim.vfs.god_makedirs("/simfs/exp")
        from sim import mpsync

        runs = []
        st = dict(phase="run", err=None, fatal=False, n=0, ooms=0)
        sim.fwd = st
        sim.fwd_params = params

        def forward_main(config):
            import returnn.frontend as rf
            from returnn.torch.engine import Engine
            from returnn.datasets.basic import init_dataset
            from returnn.forward_iface import ForwardCallbackIface

            class Callback(ForwardCallbackIface):
                def __init__(self, r):
                    self.r = r

                def init(self, *, model):
                    self.r["calls"].append(("init", None))
                    sim.event("cb-init")

                def process_seq(self, *, seq_tag, outputs):
                    self.r["calls"].append(("seq", (seq_tag, outputs)))
                    sim.event("cb-seq")
                    st["n"] += 1
                    if params["cb_fail"] is not None and st["n"] == params["cb_fail"] + 1:
                        sim.count_fault("callback-error")
                        st["fatal"] = True
                        raise loaderfuncs.UserError("callback")

                def finish(self):
                    self.r["calls"].append(("finish", None))
                    sim.event("cb-finish")

            from . import loaderfuncs

            rf.run_ctx.reset_run_ctx()
            rf.run_ctx._init_run_ctx = None
            engine = Engine(config=config)
            engine.init_network_from_config()
            last = {}
            for s in params["steps"]:
                ds = last.get(s["ds"]) if s["same"] else None
                if ds is None:
                    ds = init_dataset(ds_dict(params, params["dss"][s["ds"]]))
                last[s["ds"]] = ds
                engine.set_epoch(s["epoch"])
                if not s["init"]:
                    ds.init_seq_order(epoch=s["epoch"])
                r = dict(step=s, calls=[], returned=False, ordering=None)
                runs.append(r)
                try:
                    engine.forward_with_callback(dataset=ds, callback=Callback(r), dataset_init_epoch=s["init"], allow_skipping_seqs=params["skip"])
                finally:
                    r["ordering"] = ds.seq_ordering
                r["returned"] = True
            st["phase"] = "end"

        def main():
            from returnn.config import Config, set_global_config
            from . import loaderfuncs as f

            try:
                c = self.config_dict(params)
                c.update(task="forward", get_model=f.get_model, forward_step=f.forward_step)
                c["forward_auto_split_batch_on_oom"] = params["split"]
                c["log_batch_size"] = True
                if params["sort"] is not None:
                    c["sort_dataset"] = params["sort"]
                c["extern_data"] = {"data": {"dim": 2}, "classes": {"dim": 10, "sparse": True, "dtype": params["dtype"]}}
                config = Config(c)
                set_global_config(config)
                forward_main(config)
            except core.SimKilled:
                raise
            except Exception as exc:
                if st["phase"] == "run":
                    st["err"] = exc
                    st["err_text"] = describe_exc(exc)
                exc = None
                raise

        p = spawn_loader_reader(sim, main, "r")
        p.killable = False
        sim.kill_filter = lambda t, kind, detail: t.proc is not p and st["phase"] == "run" and not mpsync.held_event_lock(t.proc)
        with log_verbosity(params["verbose"]):
            run_sim(sim)
        p.exc = None
        vfs.set_active(sim.vfs)
        err = st["err"]
        injected = st["fatal"] or bool(sim.n_kills or any(k.startswith("worker-") for k in sim.fault_counts))
        if sim.outcome != "ok":
            res.violate("hang" if st["phase"] == "run" else "not-terminated", "%s in phase %s (error: %r): %s" % (sim.outcome, st["phase"], err, sim.outcome_info))
        elif err is not None and not injected:
            res.violate("error:%s" % type(err).__name__, "forwarding failed: %s" % st["err_text"])
        elif st.get("bad"):
            res.violate("batch-shape", "forward step got %s" % st["bad"])
        else:
            for i, r in enumerate(runs):
                self.check_run(res, params, "forward %i (epoch %i, dataset %r)" % (i, r["step"]["epoch"], "ab"[r["step"]["ds"]]), r)
                if res.violation:
                    break
        n = sum(len(r["calls"]) for r in runs)
        cnt = dict(forwards=len(runs), calls=n, ooms=st["ooms"], finished=sum(r["returned"] for r in runs))
        if err is not None:
            cnt["errors"] = 1
        del runs[:]
        st["err"] = None
        sim.fwd = sim.fwd_params = None
        self.collect(sim, res, dict(count=cnt, case="w%i%s%s" % (params["workers"], "/split" if params["split"] else "", "/oom" if st["ooms"] else "")))
        err = None
        return res

    def check_run(self, res, params, what, r):
        import numpy

        s = r["step"]
        ds = with_(params["dss"][s["ds"]], ordering=r["ordering"])
        items, _ = self.items(params, ds, s["epoch"])
        kinds = [k for k, _ in r["calls"]]
        if not kinds:
            if r["returned"]:
                res.violate("no-calls", "%s: the callback was never called" % what)
            return
        if kinds[0] != "init" or kinds.count("init") != 1:
            return res.violate("init", "%s: calls %r" % (what, kinds))
        if "finish" in kinds and (kinds.count("finish") != 1 or kinds[-1] != "finish"):
            return res.violate("finish", "%s: calls %r" % (what, kinds))
        if r["returned"] and "finish" not in kinds:
            return res.violate("no-finish", "%s: returned without finish. calls %r" % (what, kinds))
        got = [v for k, v in r["calls"] if k == "seq"]
        tags = [t for t, _ in got]
        exp_tags = [t for t, _, _ in items]
        bucket = "buckets" in params["batching"]
        if not bucket and tags != exp_tags[: len(tags)]:
            return res.violate("order", "%s: callback got seqs %r, the dataset has %r" % (what, tags, exp_tags))
        if len(set(tags)) != len(tags) or not set(tags) <= set(exp_tags):
            return res.violate("extra", "%s: callback got seqs %r, the dataset has %r" % (what, tags, exp_tags))
        if "finish" in kinds and len(tags) != len(exp_tags):
            return res.violate("lost", "%s: finished, but the callback got only seqs %r of %r" % (what, tags, exp_tags))
        by_tag = {t: d for t, _, d in items}
        for tag, outs in got:
            w = "%s, seq %r" % (what, tag)
            if type(tag) is not str:
                return res.violate("tag-type", "%s: type %s" % (w, type(tag)))
            if sorted(outs.data) != sorted(params["outs"]):
                return res.violate("keys", "%s: outputs %r, expected %r" % (w, sorted(outs.data), params["outs"]))
            exp = expected_outputs(params["outs"], tag, by_tag[tag])
            for k in params["outs"]:
                y = outs[k]
                v = y.raw_tensor
                e, sizes = exp[k]
                if not isinstance(v, numpy.ndarray):
                    return res.violate("type", "%s, output %s: is %s, not a Numpy array" % (w, k, type(v)))
                if k == "tag":
                    if v.shape != () or str(v) != e:
                        return res.violate("wrong-output", "%s, output %s: %r, expected %r" % (w, k, v, e))
                    continue
                if v.shape != e.shape:
                    return res.violate("shape", "%s, output %s: shape %r, expected %r" % (w, k, v.shape, e.shape))
                if sizes is None:
                    ok = numpy.allclose(v, e, rtol=1e-5, atol=1e-3)
                else:
                    ok = all(numpy.array_equal(v[b, :n], e[b, :n]) for b, n in enumerate(sizes))
                if not ok:
                    return res.violate("wrong-output", "%s, output %s: %r, expected %r" % (w, k, v.tolist(), e.tolist()))
                dims = [int(d.get_dim_value()) for d in y.dims]
                if dims != list(v.shape):
                    return res.violate("dims", "%s, output %s: dims %r, shape %r" % (w, k, dims, v.shape))
                if sizes is not None:
                    z = y.dims[1].dyn_size_ext.raw_tensor
                    if [int(a) for a in z] != sizes:
                        return res.violate("dims", "%s, output %s: sizes %r, expected %r" % (w, k, z, sizes))


SCENARIO = S()
