"""C15: background thread which prepares the batches (TensorFlow engine)"""

from __future__ import annotations
import json
from .dsbase import *

_mods = {}


def prepare():
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    prepare_ds()
    if _mods:
        return
    import tensorflow as tf
    from . import simdata
    from returnn.util.basic import BackendEngine

    BackendEngine.select_engine(engine=BackendEngine.TensorFlowNetDict)
    import returnn.tf.data_pipeline as dp
    from returnn.tf.network import ExternData
    import returnn.tf.compat as tf_compat

    silence()
    dp.print = lambda *a, **k: None
    graph = tf.Graph()
    with graph.as_default():
        ext = ExternData()
        ext.init_from_dataset(simdata.SimDataset(seqs=[("s", 2)], name="x"))
    _mods.update(dp=dp, ext=ext, simdata=simdata, init=simdata.SimDataset)


def make(p):
    ds = _mods["init"](
        seqs=[tuple(s) for s in p["seqs"]],
        same_len=p["same_len"],
        slow=p["slow"],
        fail_tag=p.get("fail"),
        fail_how="raise",
        seq_ordering=p["ordering"],
        partition_epoch=p["partition"],
        **({"chunking": p["chunking"]} if p["chunking"] else {}),
        name="train",
    )
    ds.initialize()
    if p.get("fail") and p.get("fail_in") == "data":
        # not when the batches are determined, but when the data is copied
        ds.fail_tag = None
        orig = ds.get_data

        def get_data(seq_idx, key):
            t = cur_task()
            if t is not None and ds.get_tag(seq_idx) == p["fail"]:
                t.sim.count_fault("worker-raise-data")
                raise _mods["simdata"].WorkerError("cannot read")
            return orig(seq_idx, key)

        ds.get_data = get_data
    return ds


def provider(p, ds, e, capacity):
    ds.init_seq_order(epoch=e["epoch"])
    batches = ds.generate_batches(recurrent_net=True, batch_size=p["batch_size"], max_seqs=p["max_seqs"], used_data_keys=("data", "classes"))
    sl = slice(*e["slice"]) if e["slice"] else None
    return _mods["dp"].FeedDictDataProvider(dataset=ds, batches=batches, extern_data=_mods["ext"], capacity=capacity, batch_slice=sl)


def norm(fd, info):
    out = []
    for k in sorted(fd, key=lambda x: x.name):
        v = fd[k]
        import numpy

        a = numpy.asarray(v)
        out.append((k.name, str(a.dtype), a.shape, a.tobytes()))
    return (tuple(info["seq_tag"]), tuple(info["seq_idx"]), tuple(out))


class S(Scenario):
    id = "C15"
    quick_runs = 8000
    thorough_runs = 300000
    quick_time = 120
    real_components = [
        "returnn.tf.data_pipeline.FeedDictDataProvider",
        "returnn.datasets.basic (BatchSetGenerator, Batch, chunking, sequence ordering), returnn.datasets.cached2",
        "tf.train.Coordinator, queue.Queue, threading",
    ]
    stub_components = ["thread scheduling", "the session loop (reads like returnn.tf.engine.Runner.run, without the graph)", "the dataset (user-defined, known content, random delays, errors)"]
    assumptions = ["one consumer thread, as documented"]

    def prepare(self):
        prepare()
        self._cache = {}

    def generate(self, rng, tier):
        p = dict(seqs=gen_seqs(rng))
        p["ordering"] = rng.choice(["default", "random", "sorted", "laplace:.3"])
        p["partition"] = rng.choice([1, 1, 2])
        if len(p["seqs"]) < 2:
            p["partition"] = 1
        p["chunking"] = rng.choice([None, None, "3:2", "2:2", "4:1"])
        p["same_len"] = bool(p["chunking"]) or rng.random() < 0.5
        p["slow"] = rng.choice([0.0, 0.1, 0.4])
        p["batch_size"] = rng.choice([4, 9, 12, 30])
        p["max_seqs"] = rng.choice([1, 2, 3, 10])
        p["epochs"] = []
        for i in range(rng.choice([1, 2, 3])):
            p["epochs"].append(
                dict(
                    epoch=rng.choice([1, 2, 3]) if rng.random() < 0.3 else i + 1,
                    capacity=rng.choice([1, 1, 2, 3, 10]),
                    stop=rng.choice([None, None, None, 0, 1, 2, 4]),
                    slice=rng.choice([None, None, None, [1, None, 2], [0, 2, 1], [None, None, 3]]),
                    work=rng.choice([0, 0, 0.3]),
                )
            )
        if rng.random() < 0.25:
            p["fail"] = rng.choice(p["seqs"])[0]
            p["fail_in"] = rng.choice(["load", "data"])
        p["sim"] = dict(max_events=60000, max_time=1e6, **swarm_sched(rng, lines=True))
        if rng.random() < 0.3:
            p["sim"]["p_stall"] = rng.choice([0.01, 0.05])
            p["sim"]["stall_max"] = rng.choice([0.1, 20])
        return p

    def shrink(self, params):
        for t in shrink_list(params["epochs"]):
            if t:
                yield with_(params, epochs=t)
        for t in shrink_list(params["seqs"]):
            if len(t) >= params["partition"] and (not params.get("fail") or params["fail"] in [x[0] for x in t]):
                yield with_(params, seqs=t)
        for k, v in [("slow", 0.0), ("partition", 1), ("ordering", "default"), ("chunking", None), ("max_seqs", 1)]:
            if params[k] != v:
                yield with_(params, **{k: v})
        for i, e in enumerate(params["epochs"]):
            for k, v in [("stop", None), ("slice", None), ("capacity", 1), ("work", 0)]:
                if e.get(k) != v:
                    yield with_(params, epochs=params["epochs"][:i] + [with_(e, **{k: v})] + params["epochs"][i + 1 :])

    def expected(self, params, e):
        """the same, in one thread, with a fresh dataset"""
        p = {k: params[k] for k in ("seqs", "ordering", "partition", "chunking", "same_len", "batch_size", "max_seqs")}
        key = json.dumps([p, e["epoch"]], sort_keys=True)
        if key not in self._cache:
            if len(self._cache) > 5000:
                self._cache.clear()
            ds = make(dict(p, slow=0.0))
            prov = provider(p, ds, dict(e, slice=None), 1)
            out = []
            while prov.batches.has_more():
                out.append(norm(*prov.get_feed_dict(single_threaded=True)))
            self._cache[key] = out
        out = self._cache[key]
        err = None
        if not params["chunking"]:
            # independent check: each seq of the epoch once, with its content
            ds = make(dict(p, slow=0.0))
            ds.init_seq_order(epoch=e["epoch"])
            order = [params["seqs"][i] for i in ds.get_current_seq_order()]
            tags = [t for b in out for t in b[0]]
            if tags != [t for t, _ in order]:
                err = "batches of epoch %i hold the seqs %r, expected %r" % (e["epoch"], tags, order)
            import numpy

            lens = dict(map(tuple, params["seqs"]))
            for b in out:
                arr = {n: numpy.frombuffer(d, dtype=dt).reshape(s) for n, dt, s, d in b[2]}
                for key_ in ("data", "classes"):
                    a = [v for n, v in arr.items() if n.startswith("extern_data/placeholders/%s/%s:" % (key_, key_))]
                    if len(a) != 1:
                        raise HarnessError("placeholders %r" % list(arr))
                    for q, t in enumerate(b[0]):
                        c = _mods["simdata"].content(t, lens[t], params["same_len"])[key_]
                        if not numpy.array_equal(a[0][q, : len(c)], c) or numpy.any(a[0][q, len(c) :]):
                            err = "epoch %i, seq %s: wrong %s in batch" % (e["epoch"], t, key_)
        sl = e["slice"]
        return (out[slice(*sl)] if sl else out), err

    def execute(self, params, chooser, log=False):
        res = RunResult()
        sim = new_mp_sim(params, chooser, log, lines=("returnn/tf/data_pipeline.py",), with_vfs=False)
        out = []
        st = dict(err=None, phase="")

        def main():
            import threading

            ds = make(params)
            for e in params["epochs"]:
                o = dict(e=e, seen=[], ended=False, reached=None, left=0)
                out.append(o)
                st["phase"] = "read"
                prov = provider(params, ds, e, e["capacity"])
                prov.start_threads(session=None)
                try:
                    while e["stop"] is None or len(o["seen"]) < e["stop"]:
                        sim.event("step")
                        if not prov.have_more_data(session=None):
                            o["ended"] = True
                            break
                        o["seen"].append(norm(*prov.get_feed_dict()))
                        if e["work"] and sim.choose("work", 2, 0, e["work"]):
                            sim.sleep(1)
                    o["reached"] = prov.have_reached_end()
                finally:
                    st["phase"] = "stop"
                    prov.stop_threads()
                o["left"] = len([t for t in sim.current.proc.tasks if t.state != "done"]) - 1
                if o["ended"] and not o["reached"]:
                    st["phase"] = "failed"
                    return  # like the engine, which raises an exception
            st["phase"] = "end"

        p = spawn_reader(sim, main, "r")
        p.killable = False
        run_sim(sim)
        if p.exc is not None and sim.outcome == "ok":
            res.violate("error:%s" % type(p.exc).__name__, describe_exc(p.exc))
        p.exc = None
        if sim.outcome != "ok":
            res.violate("hang", "%s in phase %s: %s" % (sim.outcome, st["phase"], sim.outcome_info))
        for o in out if not res.violation else []:
            e = o["e"]
            exp, err = self.expected(params, e)
            what = "epoch %i" % e["epoch"]
            if err:
                res.violate("batches", err)
                break
            fail = params.get("fail")
            for i, s in enumerate(o["seen"]):
                if i >= len(exp) or s != exp[i]:
                    res.violate("wrong-batch", "%s: batch %i holds %r, expected %r" % (what, i, s[0], exp[i][0] if i < len(exp) else "end"))
                    break
            if res.violation:
                break
            if o["ended"] and o["reached"] and len(o["seen"]) != len(exp):
                res.violate("lost", "%s: ended after %i batches, and the end is reported as reached, expected %i" % (what, len(o["seen"]), len(exp)))
            elif o["ended"] and not o["reached"] and not self.fail_in_epoch(params, e):
                res.violate("not-reached", "%s: end of data after %i of %i batches, but the end was not reached" % (what, len(o["seen"]), len(exp)))
            elif o["left"] > 0:
                res.violate("leak", "%s: %i threads left after stop_threads" % (what, o["left"]))
        cnt = dict(epochs=len(out), batches=sum(len(o["seen"]) for o in out), failed=int(st["phase"] == "failed"))
        self.collect(sim, res, dict(count=cnt, case="fail" if params.get("fail") else "plain"))
        return res

    def fail_in_epoch(self, params, e):
        if not params.get("fail"):
            return False
        ds = make(dict(params, slow=0.0, fail=None))
        ds.init_seq_order(epoch=e["epoch"])
        return params["fail"] in [params["seqs"][i][0] for i in ds.get_current_seq_order()]


SCENARIO = S()
