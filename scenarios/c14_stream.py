"""C14: streaming datasets: producer and consumer threads, and the external toolkit process."""

from __future__ import annotations
import itertools
import tempfile
import zlib
from .dsbase import *
from . import dsbase as _d

_h = []
_mods = {}


def prepare_stream():
    prepare_ds()
    import returnn.datasets.sprint as sp
    import returnn.sprint.extern_interface as ext
    import returnn.sprint.interface as itf
    from returnn.datasets.cached2 import SingleStreamPipeDataset

    if _h:
        return
    for m in (sp, ext, itf):
        m.print = lambda *a, **k: None
    _h.append(module_state_handler(ext))
    _h.append(_attr(ext.PythonControl, "instance", None))
    _h.append(module_state_handler(itf))
    _h.append(_attr(sys, "excepthook", sys.excepthook))
    _h.append(_attr(sys, "exited", False))
    itf._init_base = lambda *a, **k: None
    itf.get_final_epoch = lambda *a, **k: cur_task().sim.final_epoch

    class Engine:
        @staticmethod
        def get_train_start_epoch(_config):
            return cur_task().sim.start_epoch

    _mods.update(sp=sp, ext=ext, itf=itf, Engine=Engine, SingleStreamPipeDataset=SingleStreamPipeDataset)

    class ExtSprint(sp.ExternSprintDataset):
        """the executable is replaced by a simulated process"""

        def _build_sprint_args(self):
            args = super()._build_sprint_args()
            t = cur_task()
            t.proc.data["on_fork"] = lambda: start_toolkit(t.sim, t.proc, args)
            return args

    _mods["ExtSprint"] = ExtSprint


def _attr(mod, name, init):
    return (lambda: getattr(mod, name, init)), (lambda v: setattr(mod, name, v)), (lambda: init)


def feats(tag, n):
    import numpy

    r = numpy.random.RandomState(zlib.crc32(tag.encode()) % 2**31)
    return r.randint(0, 100, (n, 2)).astype("float32"), r.randint(0, 5, (n,)).astype("int32")


def exp_seq(tag, n, keys=("classes", "data")):
    f, c = feats(tag, n)
    d = {"data": f, "classes": c}
    return (tag,) + tuple((k, str(d[k].dtype), d[k].shape, d[k].tobytes()) for k in sorted(keys))


def start_toolkit(sim, parent, args):
    """like fork + exec"""
    from sim import procs

    opts = {}
    for a in args:
        if a.startswith("--"):
            k, v = a[2:].split("=", 1)
            opts[k[2:] if k.startswith("*.") else k] = v
    conf = dict(x.split(":", 1) for x in opts["pymod-config"].split(","))
    name = "%s.%i" % (parent.name, 1 + sum(1 for q in sim.procs if q.parent is parent))
    p = sim.new_proc(name, parent=parent)
    p.data["toolkit"] = True
    procs.inherit(p, [int(conf["c2p_fd"]), int(conf["p2c_fd"])], parent)
    sim.spawn(lambda: toolkit_main(sim, opts), name=name + "/main", proc=p)
    return p


def toolkit_order(params, epoch, seq_list):
    """which segments the toolkit gives in this epoch, in order"""
    seqs = params["seqs"]
    if seq_list:
        d = dict(map(tuple, seqs))
        return [(t, d[t]) for t in seq_list]
    k = params["partition"]
    return [tuple(s) for i, s in enumerate(seqs) if i % k == (epoch - 1) % k]


def toolkit_main(sim, opts):
    """the external toolkit. uses the real interface module"""
    params = sim.toolkit_params
    ext = _mods["ext"]
    segs = [tuple(s) for s in params["seqs"]]
    if "corpus.segments.file" in opts:
        with open(opts["corpus.segments.file"]) as f:
            names = f.read().splitlines()
        d = dict(segs)
        segs = [(t, d[t]) for t in names]
    elif "corpus.partition" in opts:
        k, j = int(opts["corpus.partition"]), int(opts["corpus.select-partition"])
        segs = [s for i, s in enumerate(segs) if i % k == j]
    if params["seglist"]:
        ext.getSegmentList("corpus", [t for t, _ in segs])
    pause(sim)
    try:
        if params["control"]:
            c = ext.init(name="Sprint.PythonControl", config=opts["pymod-config"])
            c.init_processing(input_dim=2, output_dim=5)
        else:
            ext.init(inputDim=2, outputDim=5, config=opts["pymod-config"], targetMode="target-alignment")
        for t, n in segs:
            pause(sim)
            f, a = feats(t, n)
            if params["control"]:
                c.process_segment(name=t, orthography=None, features=f.T.copy(), alignment=a, soft_alignment=None)
            else:
                ext.feedInputAndTarget(features=f.T.copy(), alignment=a, segmentName=t)
        pause(sim)
        if params["control"]:
            c.exit()
        else:
            ext.exit()
    except BrokenPipeError:
        sys.exit(1)


def pause(sim):
    s = sim.toolkit_params["slow"]
    if s:
        d = sim.choose("slow", 4, 0, s)
        if d:
            sim.count_fault("slow")
            sim.sleep([0, 0.01, 1, 30][d])


def probe_num(ds, o):
    """num_seqs, if it is known"""
    try:
        n = ds.num_seqs
    except Exception:  # unknown
        return
    if n is not None and n != float("inf"):
        o.setdefault("nums", []).append(int(n))


class S(Scenario):
    id = "C14"
    quick_runs = 8000
    thorough_runs = 300000
    quick_time = 120
    real_components = [
        "returnn.datasets.cached2.SingleStreamPipeDataset",
        "returnn.datasets.sprint.SprintDatasetBase, ExternSprintDataset",
        "returnn.sprint.interface.getSegmentList and feedInput*, returnn.sprint.extern_interface (child side of the pipe)",
    ]
    stub_components = [
        "thread/process scheduling, pipes, fork+exec, waitpid, signals (simulated kernel)",
        "the external toolkit (a simulated process which calls the interface module in the documented way)",
        "initialisation of the engine inside of the toolkit (returnn.sprint.interface._init_base)",
    ]
    assumptions = ["the toolkit calls the interface as documented", "inside of the toolkit, the trainer reads each epoch completely"]

    def prepare(self):
        prepare_stream()

    def generate(self, rng, tier):
        p = dict(mode=rng.choice(["pipe", "ext", "ext", "inner"]))
        n = rng.choice([1, 2, 3, 5, 8, 13])
        p["seqs"] = [("s%i" % i, rng.choice([1, 2, 3, 5])) for i in range(n)]
        p["partition"] = rng.choice([1, 1, 1, 2])
        if n < 2 or p["mode"] == "inner":
            p["partition"] = 1
        p["slow"] = rng.choice([0.0, 0.1, 0.4])
        p["cache_min"] = rng.choice([1, 1, 2, 4])
        p["cache_max"] = p["cache_min"] + rng.choice([1, 1, 2, 5])
        p["control"] = rng.random() < 0.4
        p["seglist"] = rng.random() < 0.6
        p["lag"] = rng.random() < 0.5
        p["auto_tag"] = p["mode"] == "pipe" and rng.random() < 0.3
        cur = rng.choice([1, 1, 1, 3])
        ep = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            e = gen_read(rng)
            e["mode"] = rng.choice(["one", "one", "batch", "len"])
            e["epoch"] = cur
            e["ask"] = False
            e["finish"] = rng.choice([None, None, True]) if p["mode"] == "ext" else None
            if p["mode"] == "ext":
                if p["partition"] == 1 and rng.random() < 0.25:
                    tags = [t for t, _ in p["seqs"]]
                    rng.shuffle(tags)
                    e["seq_list"] = tags[: rng.randint(1, len(tags))]
                cur = rng.choice([cur + 1, cur + 1, cur + 1, cur, cur + 2, max(1, cur - 1)])
            else:
                e["stop"] = None
                cur += 1
            ep.append(e)
        p["epochs"] = ep
        if p["mode"] == "ext" and rng.random() < 0.15:
            p["die"] = True
        p["sim"] = dict(max_events=60000, max_time=1e6, **swarm_sched(rng, lines=True))
        if rng.random() < 0.3:
            p["sim"]["p_stall"] = rng.choice([0.01, 0.05])
            p["sim"]["stall_max"] = rng.choice([0.1, 20])
        if p.get("die"):
            p["sim"]["p_kill"] = rng.choice([0.01, 0.05, 0.2])
            p["sim"]["max_kills"] = 1
        return p

    def shrink(self, params):
        for t in shrink_list(params["epochs"]):
            if t:
                if params["mode"] == "inner":
                    t = [with_(e, epoch=t[0]["epoch"] + i) for i, e in enumerate(t)]
                yield with_(params, epochs=t)
        if not any(e.get("seq_list") for e in params["epochs"]):
            for t in shrink_list(params["seqs"]):
                if len(t) >= params["partition"]:
                    yield with_(params, seqs=t)
        for i, e in enumerate(params["epochs"]):
            for k, v in [("finish", None), ("mode", "one"), ("stop", None), ("seq_list", None)]:
                if e.get(k) != v:
                    yield with_(params, epochs=params["epochs"][:i] + [with_(e, **{k: v})] + params["epochs"][i + 1 :])
        for k, v in [("slow", 0.0), ("partition", 1), ("control", False), ("seglist", True), ("lag", False)]:
            if params[k] != v:
                yield with_(params, **{k: v})

    # ------------------------------------------------------------------ one process each

    def run_pipe(self, params, sim, st, out):
        import threading

        ds = _mods["SingleStreamPipeDataset"](dim=2, ndim=2)
        ds.get_data_keys = lambda: ["data"]
        reader = Reader(sim)
        ep_lock = threading.Condition()
        cur = dict(epoch=None)
        errs = []

        def producer():
            try:
                for e in params["epochs"]:
                    with ep_lock:
                        while cur["epoch"] != e["epoch"]:
                            ep_lock.wait()
                    for t, n in toolkit_order(params, e["epoch"], None):
                        pause(sim)
                        ds.producer_add_data(feats(t, n)[0], seq_tag=None if params.get("auto_tag") else t)
                    pause(sim)
                    ds.producer_set_finished()
            except Exception as exc:
                errs.append(exc)

        th = threading.Thread(target=producer, name="producer")
        th.start()
        for e in params["epochs"]:
            o = dict(seen=[], ended=None, e=e)
            out.append(o)
            ds.init_seq_order(epoch=e["epoch"])
            probe_num(ds, o)
            with ep_lock:
                cur["epoch"] = e["epoch"]
                ep_lock.notify_all()
            reader.read(ds, e, o["seen"], lambda i, o=o: o.__setitem__("ended", i))
        th.join()
        if errs:
            raise errs[0]

    def run_ext(self, params, sim, st, out):
        ds = _mods["ExtSprint"](sprintTrainerExecPath="/sim/toolkit", sprintConfigStr="--x=y", partition_epoch=params["partition"])
        ds.SprintCachedSeqsMax, ds.SprintCachedSeqsMin = params["cache_max"], params["cache_min"]
        reader = Reader(sim)
        st["started"] = True
        for e in params["epochs"]:
            o = dict(seen=[], ended=None, e=e)
            out.append(o)
            ds.init_seq_order(epoch=e["epoch"], seq_list=e.get("seq_list"))
            probe_num(ds, o)
            reader.read(ds, e, o["seen"], lambda i, o=o: o.__setitem__("ended", i))
            probe_num(ds, o)
            if e["finish"]:
                ds.finish_epoch(free_resources=True)
        st["phase"] = "read"
        if sim.n_kills:
            sim.sleep(100)  # the interrupt must have arrived then

    def run_inner(self, params, sim, st, out):
        """the trainer runs in a thread of the toolkit"""
        import threading

        itf = _mods["itf"]
        itf.Engine = _mods["Engine"]
        itf.engine = object()
        itf.Task = "train"
        sim.start_epoch = params["epochs"][0]["epoch"]
        sim.final_epoch = params["epochs"][-1]["epoch"]
        ds = _mods["sp"].SprintDatasetBase()
        ds.SprintCachedSeqsMax, ds.SprintCachedSeqsMin = params["cache_max"], params["cache_min"]
        itf.sprintDataset = ds
        errs = []
        reader = Reader(sim)

        def train():
            try:
                for e in params["epochs"]:
                    o = dict(seen=[], ended=None, e=e)
                    out.append(o)
                    ds.init_seq_order(epoch=e["epoch"])
                    probe_num(ds, o)
                    if params["lag"]:
                        pause(sim)
                    reader.read(ds, e, o["seen"], lambda i, o=o: o.__setitem__("ended", i))
            except Exception as exc:
                errs.append(exc)
                st["proc"].data["may_block"] = True  # nobody takes the data anymore
                raise

        th = threading.Thread(target=train, name="train")
        lens = dict(map(tuple, params["seqs"]))
        for seg in itf.getSegmentList("corpus", [t for t, _ in params["seqs"]]):
            if not itf.isTrainThreadStarted:
                # the toolkit inits the trainer when it has the first data
                itf.InputDim, itf.OutputDim = 2, 5
                ds.set_dimensions(2, 5)
                ds.initialize()
                itf.isTrainThreadStarted = True
                th.start()
            pause(sim)
            f, a = feats(seg, lens[seg])
            itf.feedInputAndTargetAlignment(features=f.T.copy(), targetAlignment=a, segmentName=seg)
            if errs:
                break
        th.join()
        if errs:
            raise errs[0]

    def execute(self, params, chooser, log=False):
        res = RunResult()
        sim = new_sim(params, chooser, log, lines=("returnn/datasets/cached2.py", "returnn/datasets/sprint.py", "returnn/sprint/interface.py"))
        from sim import procs

        procs.setup_sim(sim)
        sim.globals_handlers.append(env_handler())
        sim.globals_handlers.extend(_d._mod_handlers)
        sim.globals_handlers.extend(_h)
        sim.toolkit_params = params
        v = sim.vfs
        v.add_mount("tmp")
        v.god_makedirs("/simfs/tmp/t")
        saved = tempfile.tempdir, tempfile._name_sequence
        tempfile.tempdir, tempfile._name_sequence = "/simfs/tmp/t", ("n%i" % i for i in itertools.count())
        out = []
        st = dict(phase="run", err=None, interrupted=False)

        def main():
            try:
                getattr(self, "run_" + params["mode"])(params, sim, st, out)
                st["phase"] = "end"
            except core.SimKilled:
                raise
            except KeyboardInterrupt:
                st["interrupted"] = True
                if st["phase"] != "end":
                    st["phase"] = "interrupted"
                raise
            except Exception as exc:
                st["err"] = exc
                st["err_text"] = describe_exc(exc)
                exc = None
                raise

        p = spawn_reader(sim, main, "r")
        p.killable = False
        st["proc"] = p

        sim.kill_filter = lambda t, kind, detail: bool(t.proc.data.get("toolkit") and st.get("started") and st["phase"] == "run")
        try:
            run_sim(sim)
        finally:
            tempfile.tempdir, tempfile._name_sequence = saved
        p.exc = None
        err = st["err"]
        killed = bool(sim.n_kills)
        if sim.outcome != "ok" and not (err is not None and params["mode"] == "inner"):
            res.violate("hang", "%s in phase %s (error: %r, interrupted: %r): %s" % (sim.outcome, st["phase"], err, st["interrupted"], sim.outcome_info))
        elif err is not None and not killed:
            res.violate("error:%s" % type(err).__name__, "got an exception: %s" % st["err_text"])
        elif st["interrupted"] and not killed:
            res.violate("interrupted", "the reader was interrupted, thread exceptions: %r" % (p.data.get("thread_exceptions"),))
        else:
            for o in out:
                e = o["e"]
                segs = toolkit_order(params, e["epoch"], e.get("seq_list"))
                keys = ("data",) if params["mode"] == "pipe" else ("classes", "data")
                exp = [exp_seq(t, n, keys) for t, n in segs]
                if params.get("auto_tag"):
                    exp = [("seq-%i" % i,) + tuple(x[1:]) for i, x in enumerate(exp)]
                bad = [k for k in o.get("nums", []) if k != len(exp)]
                if bad and not killed:
                    res.violate("num-seqs", "%s, epoch %i: num_seqs %i, but there are %i" % (params["mode"], e["epoch"], bad[0], len(exp)))
                    break
                if killed and (st["interrupted"] or err is not None):
                    # the reader is told by an interrupt of the main thread, maybe after the seeming end of the epoch
                    o["ended"] = None
                if not check_seen(res, "%s, epoch %i" % (params["mode"], e["epoch"]), o["seen"], o["ended"], exp, e["stop"]):
                    break
        st["err"] = None
        cnt = dict(epochs=len(out), seqs=sum(len(o["seen"]) for o in out))
        if st["interrupted"]:
            cnt["interrupted"] = 1
        self.collect(sim, res, dict(count=cnt, case=params["mode"]))
        err = None
        return res


SCENARIO = S()
