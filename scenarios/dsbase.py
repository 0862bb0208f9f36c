"""C10, C11, C12: multi-process datasets, with simulated processes and pipes."""

from __future__ import annotations
import functools
from .common import *

ENV_VARS = ["RETURNN_RANDOM_SEED_OFFSET", "_RETURNN_TORCH_DISTRIBUTED_INIT_INFO", "LOCAL_RANK", "LOCAL_WORLD_SIZE"]


def prepare_ds():
    prepare_base()
    from sim import procs

    procs.install()
    import returnn.__main__  # noqa
    from returnn import __old_mod_loader__
    from returnn.util import better_exchook

    better_exchook.setup_all = lambda *a, **k: None
    __old_mod_loader__.disable_lazy_mod_loads()
    import returnn.datasets.basic as b
    import returnn.datasets.multi_proc  # noqa
    import returnn.datasets.distrib_files  # noqa
    import returnn.util.multi_proc_non_daemonic_spawn as nd
    import returnn.torch.distributed as td
    import logging
    import scenarios.simdata  # noqa

    logging.getLogger("returnn").setLevel(logging.CRITICAL)
    from returnn.log import log as returnn_log

    returnn_log.init_by_config = lambda *a, **k: None
    if not _mod_handlers:
        import returnn.config

        returnn.config._global_config = None
        _mod_handlers.extend([module_state_handler(returnn.config), module_state_handler(td)])
    nd.print = lambda *a, **k: None
    b.get_dataset_class("StaticDataset")  # loads all
    import builtins, returnn.util.basic as ub

    ub.print = lambda *a, **k: None


def env_handler():
    """per-process environment (only these variables are of interest here). inherited by subprocesses"""

    def get():
        return [os.environ.get(k) for k in ENV_VARS]

    def set_(vs):
        for k, v in zip(ENV_VARS, vs):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    return get, set_, get


def module_state_handler(mod):
    """
    Module-level variables which hold state (those which are initially None or bool), per process.
    A new process has the initial values.
    """
    init = {k: v for k, v in vars(mod).items() if not k.startswith("__") and (v is None or isinstance(v, bool))}

    def get():
        return {k: getattr(mod, k) for k in init}

    def set_(v):
        for k, x in v.items():
            setattr(mod, k, x)

    return get, set_, lambda: dict(init)


_mod_handlers = []


def new_mp_sim(params, chooser, log, lines=(), with_vfs=True):
    from sim import procs

    sim = new_sim(params, chooser, log, with_vfs=with_vfs, lines=lines)
    procs.setup_sim(sim)
    sim.globals_handlers.append(env_handler())
    sim.globals_handlers.extend(_mod_handlers)
    return sim


def spawn_reader(sim, func, name):
    """process which uses multiprocessing"""
    from sim import procs

    p = sim.spawn_proc(func, name=name)
    p.atexit.append((procs.mp_at_exit, (), {}))
    return p


def seq_tuple(ds, i):
    keys = ds.get_data_keys()
    return (str(ds.get_tag(i)),) + tuple(
        (k, str(v.dtype), v.shape, v.tobytes() if v.dtype != object else repr(v.tolist())) for k in sorted(keys) for v in [ds.get_data(i, k)]
    )


def short(seq):
    return seq[0] if seq else seq


def gen_seqs(rng, n=None):
    n = n if n is not None else rng.choice([1, 2, 3, 5, 7, 8, 11])
    return [("s%i" % i, rng.choice([1, 2, 3, 4, 6, 9])) for i in range(n)]


ORDERINGS = ["default", "random", "reverse", "sorted", "sorted_reverse", "laplace:.3", "random:2"]


def gen_read(rng, n_max=12):
    """how one epoch is read"""
    mode = rng.choice(["one", "one", "one", "batch", "batch", "skip", "len"])
    r = dict(mode=mode, k=rng.choice([2, 3, 4]))
    r["stop"] = rng.choice([None, None, None, 0, 1, 2, 4])
    r["finish"] = rng.choice([None, None, False, True])
    r["ask"] = rng.random() < 0.3
    return r


class Reader:
    """reads epochs from a dataset like the engines do, gives the list of seen seqs"""

    def __init__(self, sim, known_num=True):
        self.sim = sim

    def read(self, ds, e, seen, on_end):
        """
        :param ds:
        :param dict e:
        :param list seen: filled with (idx, seq)
        :param on_end: called when the dataset says that the epoch is over
        """
        sim = self.sim
        i = 0
        self.frac = 0.0
        self.fracs = []
        mode = e["mode"]
        k = e["k"]
        stop = e["stop"]
        if e.get("ask"):
            ds.get_data_keys()
            ds.get_data_dtype("data")
        while stop is None or i < stop:
            if sim is not None:
                sim.event("reader")
            if not ds.is_less_than_num_seqs(i):
                on_end(i)
                return True
            if mode == "one":
                ds.load_seqs(i, i + 1)
                if e.get("ask"):
                    f = ds.get_complete_frac(i)
                    if f is not None and not (0 < f <= 1 and f >= self.frac):
                        raise AssertionError("get_complete_frac(%i) = %r after %r" % (i, f, self.frac))
                    self.frac = f or 0.0
                    if f is not None:
                        self.fracs.append((i, f))
                seen.append((i, seq_tuple(ds, i)))
                i += 1
            elif mode == "len":
                ds.get_seq_length(i)
                ds.load_seqs(i, i + 1)
                seen.append((i, seq_tuple(ds, i)))
                i += 1
            elif mode == "batch":
                j = i + 1
                while j < i + k and ds.is_less_than_num_seqs(j):
                    j += 1
                ds.load_seqs(i, j)
                for x in range(i, j):
                    seen.append((x, seq_tuple(ds, x)))
                i = j
            elif mode == "skip":  # every k-th
                ds.load_seqs(i, i + 1)
                seen.append((i, seq_tuple(ds, i)))
                i += k
        return False


def expected_epoch(make, epoch, seq_list=None, seq_order=None):
    """:return: list of all seqs. called outside of the simulation, with a fresh dataset"""
    from returnn.datasets.basic import init_dataset

    ds = init_dataset(make())
    ds.init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
    out = []
    i = 0
    while ds.is_less_than_num_seqs(i):
        ds.load_seqs(i, i + 1)
        out.append(seq_tuple(ds, i))
        i += 1
    return out


def check_seen(res, what, seen, ended, exp, stop):
    """compare what the reader saw with the expected epoch"""
    for i, s in seen:
        if i >= len(exp):
            res.violate("extra", "%s: seq %i %r beyond the end of the epoch (%i seqs)" % (what, i, short(s), len(exp)))
            return False
        if s != exp[i]:
            if s[0] == exp[i][0]:
                res.violate("wrong-data", "%s: seq %i tag %r has wrong data %r, expected %r" % (what, i, s[0], s[1:], exp[i][1:]))
            else:
                res.violate("wrong-seq", "%s: seq %i is %r, expected %r (all %r)" % (what, i, short(s), short(exp[i]), [short(x) for x in exp]))
            return False
    if ended is not None and ended < len(exp):
        res.violate("lost", "%s: epoch ended at seq %i, expected %i seqs" % (what, ended, len(exp)))
        return False
    return True


def dedicated_order(shards):
    """round robin over the shards, each in its own order. exhausted shards are left out"""
    out = []
    i = 0
    while any(i < len(s) for s in shards):
        for s in shards:
            if i < len(s):
                out.append(s[i])
        i += 1
    return out


def linger(sim, st):
    """the reader lives on, without the dataset: its workers must go away"""
    me = sim.current.proc
    st["phase"] = "linger"
    for _ in range(60):
        left = [p.name for p in sim.procs if p.alive and p is not me and descends(p, me)]
        if not left:
            break
        sim.sleep(30)
    else:
        st["left"] = left
    st["phase"] = "end"


def forget_frames(exc):
    """like a handler which does not keep the exception"""
    exc.__traceback__ = exc.__context__ = exc.__cause__ = None
    return exc


def descends(p, anc):
    while p is not None:
        if p is anc:
            return True
        p = p.parent
    return False


class MPBase(Scenario):
    """MultiProcDataset"""

    faults = False
    real_components = [
        "returnn.datasets.multi_proc.MultiProcDataset (reader and workers)",
        "returnn.datasets.cached2",
        "returnn.datasets.basic",
        "returnn.util.multi_proc_non_daemonic_spawn",
        "multiprocessing (Process, Connection, Popen polling, exit functions, pickling)",
    ]
    stub_components = [
        "process scheduling, pipes, signals, waitpid (simulated kernel)",
        "interpreter start-up of spawned processes",
        "the wrapped dataset (user-defined dataset with known content, random delays)",
    ]

    def prepare(self):
        prepare_ds()

    def gen_mp(self, rng, tier):
        seqs = gen_seqs(rng)
        p = dict(kind="mp", seqs=seqs)
        p["workers"] = rng.choice([1, 2, 2, 3, 4])
        p["buffer"] = rng.choice([1, 1, 2, 3, 10])
        p["sharding"] = rng.choice(["seq_order", "seq_order", "dedicated"])
        p["ordering"] = rng.choice(ORDERINGS)
        p["partition"] = rng.choice([1, 1, 1, 2, 3])
        # (an epoch without any seq is not supported if the number of seqs is not known)
        p["unknown"] = p["sharding"] == "dedicated" and len(seqs) >= p["partition"] * p["workers"] and rng.random() < 0.5
        # each shard must not be empty if the number is unknown
        p["uneven"] = p["sharding"] == "dedicated" and rng.random() < 0.4
        if p["uneven"] and len(seqs) < p["partition"] * p["workers"] * p["workers"]:
            p["unknown"] = False
        p["slow"] = rng.choice([0.0, 0.1, 0.3])
        p["big"] = rng.choice([0, 0, 0, 4000])
        ep = []
        cur = rng.choice([1, 1, 1, 3])
        for _ in range(rng.choice([1, 2, 3, 4])):
            e = gen_read(rng)
            e["epoch"] = cur
            if rng.random() < 0.2 and p["sharding"] == "seq_order":
                tags = [t for t, _ in seqs]
                rng.shuffle(tags)
                e["seq_list"] = tags[: rng.randint(1, len(tags))]
            elif rng.random() < 0.15 and p["sharding"] == "seq_order":
                o = list(range(len(seqs)))
                rng.shuffle(o)
                e["seq_order"] = o[: rng.randint(1, len(o))]
            for key in ("seq_list", "seq_order"):
                if e.get(key) and rng.random() < 0.2:
                    e[key].insert(rng.randint(0, len(e[key])), rng.choice(e[key]))  # some seq twice
            ep.append(e)
            cur = rng.choice([cur + 1, cur + 1, cur + 1, cur, cur + 3, max(1, cur - 1)])
        p["epochs"] = ep
        p["end"] = rng.choice(["del", "exit", "exit", "exc", "kill", "linger"])
        p["aug"] = rng.random() < 0.3
        return p

    def gen_sim(self, rng):
        sim = dict(max_events=60000, max_time=1e6, **swarm_sched(rng))
        if rng.random() < 0.3:
            sim["p_stall"] = rng.choice([0.01, 0.05])
            sim["stall_max"] = rng.choice([0.1, 20])
        return sim

    def shrink(self, params):
        for t in shrink_list(params["epochs"]):
            if t:
                yield with_(params, epochs=t)
        for i, e in enumerate(params["epochs"]):
            for k, v in [("ask", False), ("finish", None), ("mode", "one"), ("stop", None)]:
                if e.get(k) != v:
                    yield with_(params, epochs=params["epochs"][:i] + [with_(e, **{k: v})] + params["epochs"][i + 1 :])
        for k, v in [("slow", 0.0), ("big", 0), ("uneven", False), ("aug", False), ("partition", 1), ("unknown", False), ("workers", 1), ("workers", 2), ("ordering", "default"), ("end", "del")]:
            if k in params and params[k] != v and not (k == "workers" and v > params[k]):
                yield with_(params, **{k: v})
        if "seqs" in params and not any(e.get("seq_list") or e.get("seq_order") for e in params["epochs"]):
            for t in shrink_list(params["seqs"]):
                if t and len(t) >= params["partition"] * (params["workers"] if params["unknown"] else 1):
                    yield with_(params, seqs=t)

    # -- dataset dicts

    def mp_inner(self, params, slow):
        from .simdata import SimDataset

        d = {
            "class": SimDataset,
            "seqs": [tuple(x) for x in params["seqs"]],
            "unknown_num": params["unknown"],
            "slow": slow,
            "seq_ordering": params["ordering"],
            "partition_epoch": params["partition"],
            "big": params["big"],
            "uneven": params["uneven"],
            "aug": params.get("aug", False),
        }
        if slow is not None and params.get("fail_how"):
            d["fail_tag"] = params.get("fail_tag")
            d["fail_how"] = params["fail_how"]
            d["fail_p"] = params.get("fail_p", 0.0)
        d["slow"] = slow or 0.0
        return d

    def mp_dict(self, params):
        return {
            "class": "MultiProcDataset",
            "dataset": self.mp_inner(params, params["slow"]),
            "num_workers": params["workers"],
            "buffer_size": params["buffer"],
            "sharding_method": params["sharding"],
        }

    def mp_expected(self, params, e):
        base = {**self.mp_inner(params, None), "unknown_num": False}
        kw = dict(epoch=e["epoch"], seq_list=e.get("seq_list"), seq_order=e.get("seq_order"))
        if params["sharding"] == "seq_order":
            return expected_epoch(lambda: dict(base), **kw)
        w = params["workers"]
        return dedicated_order(
            [expected_epoch(lambda: {**base, "_num_shards": w, "_shard_index": i}, **kw) for i in range(w)]
        )

    def make_dict(self, params):
        return self.mp_dict(params)

    def expected(self, params, e):
        return self.mp_expected(params, e)

    def setup_world(self, params, sim):
        pass

    def n_seqs(self, params):
        return len(params["seqs"])

    def execute(self, params, chooser, log=False):
        from returnn.datasets.basic import init_dataset

        res = RunResult()
        sim = new_mp_sim(params, chooser, log)
        self.setup_world(params, sim)
        vfs.set_active(sim.vfs)
        exp = [self.expected(params, e) for e in params["epochs"]]
        out = []  # per epoch: dict(seen, ended)
        st = dict(phase="run", err=None, n=0)
        faults = self.faults
        reader = Reader(sim)

        def main():
            body()
            if params["end"] == "linger":
                linger(sim, st)

        def body():
            ds = None
            try:
                ds = init_dataset(self.make_dict(params))
                for e in params["epochs"]:
                    o = dict(seen=[], ended=None, e=e)
                    out.append(o)
                    ds.init_seq_order(epoch=e["epoch"], seq_list=e.get("seq_list"), seq_order=e.get("seq_order"))
                    try:
                        o["num"] = ds.num_seqs
                    except NotImplementedError:
                        o["num"] = None
                    if e.get("ask"):
                        try:
                            o["tags"] = ds.get_all_tags()
                            o["total"] = ds.get_total_num_seqs()
                        except NotImplementedError:
                            pass

                    def on_end(i, o=o):
                        o["ended"] = i

                    reader.read(ds, e, o["seen"], on_end)
                    o["fracs"] = reader.fracs
                    st["n"] += 1
                    if e["finish"] is not None:
                        ds.finish_epoch(free_resources=e["finish"])
                st["phase"] = "end"
                end = params["end"]
                if end == "del":
                    ds = None
                elif end == "exc":
                    raise RuntimeError("reader ends with exception")
                elif end == "kill":
                    sim.kill_proc(sim.current.proc, why="reader killed")
            except core.SimKilled:
                raise
            except Exception as exc:
                if st["phase"] == "run":
                    st["err_text"] = describe_exc(exc)
                    if params["end"] == "linger":
                        st["err"] = forget_frames(exc)
                        exc = None
                        return
                    st["err"] = exc
                exc = None
                raise
            finally:
                ds = None

        p = spawn_reader(sim, main, "r")
        p.killable = False
        st["proc"] = p
        self.before_run(params, sim, st)
        t0 = sim.now
        run_sim(sim)
        p.exc = None
        err = st["err"]
        cnt = dict(epochs=len(out), seqs=sum(len(o["seen"]) for o in out))
        injected = bool(sim.n_kills or any(k.startswith("worker-") for k in sim.fault_counts) or st.get("victim"))
        if sim.outcome != "ok":
            res.violate(
                "hang" if st["phase"] == "run" else "not-terminated",
                "%s in phase %s (reader error: %r): %s" % (sim.outcome, st["phase"], err, sim.outcome_info),
            )
        elif st.get("left"):
            res.violate("worker-left", "the dataset is gone (reader error: %r), but processes %r remain" % (err, st["left"]))
        elif err is not None and not (faults and injected):
            res.violate("error:%s" % type(err).__name__, "reader got an exception: %s" % st["err_text"])
        else:
            for o, x in zip(out, exp):
                e = o["e"]
                what = "epoch %i" % e["epoch"]
                if not check_seen(res, what, o["seen"], o["ended"], x, e["stop"]):
                    break
                if o.get("num") is not None and o["num"] != len(x):
                    res.violate("num-seqs", "%s: num_seqs %r, expected %i" % (what, o["num"], len(x)))
                    break
                if not self.check_epoch(res, params, o, x):
                    break
        st["err"] = None
        if err is not None:
            cnt["errors"] = 1
        self.collect(sim, res, dict(count=cnt, case="%s/%s" % (params["kind"], params["end"])))
        err = None
        return res

    def before_run(self, params, sim, st):
        pass

    def check_epoch(self, res, params, o, x):
        if "tags" in o and params["kind"] == "mp":
            if o["tags"] != [t for t, _ in params["seqs"]] or o.get("total", len(params["seqs"])) != len(params["seqs"]):
                res.violate("tags", "all tags %r, total %r" % (o["tags"], o["total"]))
                return False
        if params["kind"] == "mp" and not params["uneven"] and not params["unknown"] and x:
            for i, f in o.get("fracs", ()):
                # Each worker knows only its share, so it is only exact up to one seq per worker.
                if abs(f - (i + 1) / len(x)) > (params["workers"] + 1) / len(x) + 1e-6:
                    res.violate("complete-frac", "epoch %i: get_complete_frac(%i) = %r with %i seqs" % (o["e"]["epoch"], i, f, len(x)))
                    return False
        return True
