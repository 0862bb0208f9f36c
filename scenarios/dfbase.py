"""C11 (C12): DistributeFilesDataset with simulated processes"""

from __future__ import annotations
import functools
import zlib
from .dsbase import *

DIR = "/simfs/d/"


def gen_files(rng, n_min, n_max=14):
    n = rng.randint(n_min, max(n_min, n_max))
    how = rng.choice(["equal", "random", "skewed", "zero", "pairs"])
    files = []
    for i in range(n):
        k = rng.choice([1, 1, 1, 2, 3])
        if how == "equal":
            size = 10
        elif how == "skewed":
            size = rng.choice([1, 1, 1, 5, 78, 120, 1000])
        elif how == "zero":
            size = rng.choice([0, 0, 0, 10])
        else:
            size = rng.randint(1, 100)
        files.append([i, k, size])
    return files, how == "pairs"


def file_name(f):
    return DIR + "f%i-%i" % (f[0], f[1])


class DFBase(MPBase):
    """DistributeFilesDataset"""

    real_components = [
        "returnn.datasets.distrib_files.DistributeFilesDataset (reader and workers)",
        "returnn.datasets.multi_proc.MultiProcDataset (in some runs, around it)",
        "returnn.datasets.cached2",
        "returnn.datasets.basic",
        "returnn.torch.distributed.DistributedContext (rank and size from the environment)",
        "returnn.config (copy of the global config into subprocesses)",
        "returnn.util.multi_proc_non_daemonic_spawn",
        "multiprocessing (Process, Connection, Popen polling, exit functions, pickling)",
    ]

    def gen_df(self, rng, tier):
        p = dict(kind="df")
        p["partition"] = rng.choice([1, 2, 2, 3, 4])
        p["dist"] = rng.choice(["none", "none", "shards", "ranks_shard", "ranks"])
        if rng.random() < 0.15:
            p["dist"] = "mp"  # MultiProcDataset around it, each worker is a shard
        p["shards"] = 1 if p["dist"] == "none" else rng.choice([2, 2, 3])
        n_bins = p["partition"] * (p["shards"] if p["dist"] in ("shards", "ranks_shard", "mp") else 1)
        p["files"], p["pairs"] = gen_files(rng, n_bins, rng.choice([n_bins, n_bins + 2, 2 * n_bins + 1]))
        p["ordering"] = rng.choice(["default", "random", "random"])
        p["inner_ordering"] = rng.choice(["default", "random", "random", "sorted"])
        p["preload"] = rng.choice([0, 1, 1, 2, 3])
        p["buffer"] = rng.choice([1, 1, 2, 5])
        p["slow"] = rng.choice([0.0, 0.1, 0.3])
        p["unknown"] = rng.random() < 0.3
        p["offset"] = rng.choice([None, None, 3])
        start_full = rng.choice([0, 0, 1, 4])
        p["start_full"] = start_full
        first = start_full * p["partition"] + 1
        readers = 1 if p["dist"] == "mp" else p["shards"]
        sessions = []
        for i in range(readers):
            sessions.append(dict(shard=i, epochs=[dict(mode="one", k=2, stop=None, finish=rng.choice([None, False, True]), ask=False, epoch=first + j) for j in range(p["partition"])], end="exit"))
        for _ in range(rng.choice([1, 1, 2])):
            ep = []
            cur = first + rng.randrange(p["partition"])
            for _ in range(rng.choice([1, 2, 3, 4])):
                e = gen_read(rng)
                e["epoch"] = cur
                ep.append(e)
                cur = rng.choice([cur + 1, cur + 1, cur + 1, cur, first + rng.randrange(p["partition"])])
                cur = first + (cur - first) % (p["partition"] + 2)  # also some of the next full epoch
            sessions.append(dict(shard=rng.randrange(readers), epochs=ep, end=rng.choice(["del", "exit", "exc", "kill", "linger"]), copy=rng.random() < 0.2))
        p["sessions"] = sessions
        p["parallel"] = rng.random() < 0.3
        p["preloads"] = [rng.choice([p["preload"], 0, 1, 2]) for _ in sessions]
        return p

    def shrink(self, params):
        n = params["partition"]
        ss = params["sessions"]
        base = [s for s in ss if s.get("base")]
        for i, s in enumerate(ss):
            if len(ss) > 1:
                yield with_(params, sessions=ss[:i] + ss[i + 1 :], preloads=params["preloads"][:i] + params["preloads"][i + 1 :])
            for t in shrink_list(s["epochs"]):
                if t:
                    yield with_(params, sessions=ss[:i] + [with_(s, epochs=t)] + ss[i + 1 :])
            for j, e in enumerate(s["epochs"]):
                for k, v in [("ask", False), ("finish", None), ("mode", "one"), ("stop", None)]:
                    if e.get(k) != v:
                        es = s["epochs"][:j] + [with_(e, **{k: v})] + s["epochs"][j + 1 :]
                        yield with_(params, sessions=ss[:i] + [with_(s, epochs=es)] + ss[i + 1 :])
            if s["end"] != "exit":
                yield with_(params, sessions=ss[:i] + [with_(s, end="exit")] + ss[i + 1 :])
        for k, v in [("slow", 0.0), ("parallel", False), ("pairs", False), ("unknown", False), ("inner_ordering", "default"), ("ordering", "default"), ("offset", None), ("buffer", 1)]:
            if params[k] != v:
                yield with_(params, **{k: v})
        n_bins = n * (params["shards"] if params["dist"] in ("shards", "ranks_shard", "mp") else 1)
        for t in shrink_list(params["files"]):
            if len(t) >= n_bins:
                yield with_(params, files=t)

    # --

    def setup_world(self, params, sim):
        v = sim.vfs
        v.add_mount("d")
        for f in params["files"]:
            v.put(file_name(f), b"x" * f[2])
            if params["pairs"]:
                v.put(file_name(f) + "b", b"x" * (f[2] // 2))

    def files_arg(self, params):
        out = [file_name(f) for f in params["files"]]
        if params["pairs"]:
            out = [(fn, fn + "b") if i % 2 else {"a": fn, "b": fn + "b"} for i, fn in enumerate(out)]
        return out

    def df_dict(self, params, shard, preload, slow=None, fault=False):
        from .simdata import sub_epoch_dataset

        kw = dict(seq_ordering=params["inner_ordering"], slow=params["slow"] if slow is None else slow, unknown_num=params["unknown"])
        if fault and params.get("fail_how"):
            kw.update(fail_tag=params.get("fail_tag"), fail_how=params["fail_how"], fail_p=params.get("fail_p", 0.0))
        d = {
            "class": "DistributeFilesDataset",
            "files": self.files_arg(params),
            "get_sub_epoch_dataset": functools.partial(sub_epoch_dataset, **kw),
            "preload_next_n_sub_epochs": preload,
            "buffer_size": params["buffer"],
            "partition_epoch": params["partition"],
            "seq_ordering": params["ordering"],
        }
        if params["offset"] is not None:
            d["random_seed_offset"] = params["offset"]
        if params["dist"] == "shards":
            d.update(_num_shards=params["shards"], _shard_index=shard)
        elif params["dist"] == "ranks_shard":
            d["distrib_shard_files"] = True
        elif params["dist"] == "mp":
            d = {
                "class": "MultiProcDataset",
                "dataset": d,
                "num_workers": params["shards"],
                "buffer_size": params["buffer"],
                "sharding_method": "dedicated",
            }
        return d

    def setup_rank(self, params, shard):
        """environment of one process of the training"""
        from returnn.config import Config, set_global_config

        if params["dist"].startswith("ranks"):
            os.environ["_RETURNN_TORCH_DISTRIBUTED_INIT_INFO"] = repr({"rank": shard, "size": params["shards"]})
            os.environ["LOCAL_RANK"] = str(shard)
            os.environ["LOCAL_WORLD_SIZE"] = str(params["shards"])
            set_global_config(Config({"torch_distributed": {}, "backend": "torch"}))

    def all_seqs(self, params):
        from .simdata import sub_epoch_dataset, content

        out = {}
        for tag, n in sub_epoch_dataset([file_name(f) for f in params["files"]])["seqs"]:
            c = content(tag, n)
            out[tag] = (tag,) + tuple((k, str(v.dtype), v.shape, v.tobytes()) for k, v in sorted(c.items()))
        return out

    def run_session(self, params, sim, i, s, out, st):
        """in the process of the session"""
        self.run_session_body(params, sim, i, s, out, st)
        if s["end"] == "linger":
            linger(sim, st)

    def run_session_body(self, params, sim, i, s, out, st):
        from returnn.datasets.basic import init_dataset
        import pickle

        reader = Reader(sim)
        ds = None
        try:
            self.setup_rank(params, s["shard"])
            ds = init_dataset(self.df_dict(params, s["shard"], params["preloads"][i], slow=s.get("slow"), fault=s.get("fault")))
            for e in s["epochs"]:
                o = dict(seen=[], ended=None, e=e, num=None, s=i, shard=s["shard"])
                out.append(o)
                ds.init_seq_order(epoch=e["epoch"])
                try:
                    o["num"] = ds.num_seqs
                except NotImplementedError:
                    pass

                def on_end(n, o=o):
                    o["ended"] = n

                reader.read(ds, e, o["seen"], on_end)
                if e["finish"] is not None:
                    ds.finish_epoch(free_resources=e["finish"])
                if s.get("copy"):
                    ds = pickle.loads(pickle.dumps(ds))
            st["phase"] = "end"
            if s["end"] == "del":
                ds = None
            elif s["end"] == "exc":
                raise RuntimeError("reader ends with exception")
            elif s["end"] == "kill":
                sim.kill_proc(sim.current.proc, why="reader killed")
        except core.SimKilled:
            raise
        except Exception as exc:
            if st["phase"] == "run":
                st["err_text"] = describe_exc(exc)
                if s["end"] == "linger":
                    st["err"] = forget_frames(exc)
                    exc = None
                    return
                st["err"] = exc
            exc = None
            raise
        finally:
            ds = None

    def execute(self, params, chooser, log=False):
        res = RunResult()
        sim = new_mp_sim(params, chooser, log)
        vfs.set_active(sim.vfs)
        self.setup_world(params, sim)
        out = []
        sts = [dict(phase="run", err=None) for _ in params["sessions"]]
        procs_ = []

        def driver():
            for i, s in enumerate(params["sessions"]):
                st = sts[i]
                st["started"] = True
                p = spawn_reader(sim, lambda i=i, s=s, st=st: self.run_session(params, sim, i, s, out, st), "r%i" % i)
                st["proc"] = p
                p.killable = False
                procs_.append(p)
                self.before_session(params, sim, i, st)
                if not params["parallel"]:
                    while p.alive:
                        sim.block(p.exit_waiters, info="session")

        d = sim.spawn_proc(driver, name="driver")
        d.killable = False
        d.data["may_block"] = True
        self.before_run(params, sim, sts)
        run_sim(sim)
        errs = [(i, st) for i, st in enumerate(sts) if st["err"] is not None]
        for p in procs_:
            p.exc = None
        cnt = dict(epochs=len(out), seqs=sum(len(o["seen"]) for o in out), errors=len(errs))
        if sim.outcome != "ok":
            open_ = [i for i, st in enumerate(sts) if st.get("started") and st["phase"] == "run" and st["err"] is None and st["proc"].alive]
            res.violate("hang" if open_ else "not-terminated", "%s, sessions still reading: %r, errors %r: %s" % (sim.outcome, open_, [(i, repr(st["err"])) for i, st in errs], sim.outcome_info))
        elif any(st.get("left") for st in sts):
            res.violate("worker-left", "the datasets are gone (errors %r), but processes %r remain" % ([(i, repr(st["err"])) for i, st in errs], [st.get("left") for st in sts]))
        else:
            for i, st in errs:
                if not self.error_ok(params, sim, i, st):
                    res.violate("error:%s" % type(st["err"]).__name__, "session %i: reader got an exception: %s" % (i, st["err_text"]))
                    break
            else:
                self.check_df(params, out, res)
        for st in sts:
            st["err"] = None
        errs = None
        self.collect(sim, res, dict(count=cnt, case="%s/%s/%s" % (params["dist"], params["ordering"], params["parallel"])))
        return res

    def before_session(self, params, sim, i, st):
        pass

    def before_run(self, params, sim, st):
        pass

    def error_ok(self, params, sim, i, st):
        return False

    def check_df(self, params, out, res):
        known = self.all_seqs(params)
        canon = {}  # (shard, epoch) -> (list of seqs, session)
        for o in out:
            if o["ended"] is not None and o["e"]["mode"] != "skip":
                key = (o["shard"], o["e"]["epoch"])
                seqs = [s for _, s in o["seen"]]
                if o["ended"] != len(seqs):
                    res.violate("end", "session %i %r: ended at %i after %i seqs" % (o["s"], key, o["ended"], len(seqs)))
                    return
                canon.setdefault(key, (seqs, o["s"]))
        for o in out:
            key = (o["shard"], o["e"]["epoch"])
            for j, s in o["seen"]:
                if known.get(s[0]) != s:
                    res.violate("wrong-data", "session %i %r: seq %i %r has wrong data" % (o["s"], key, j, s[0]))
                    return
            if o["ended"] == 0:
                res.violate("empty", "session %i: sub-epoch %r has no data" % (o["s"], key))
                return
            tags = [s[0] for _, s in o["seen"]]
            if len(set(tags)) != len(tags):
                res.violate("duplicate", "session %i: %r delivers a seq twice: %r" % (o["s"], key, tags))
                return
            if key in canon:
                exp, s_ = canon[key]
                if not check_seen(res, "session %i (compared to session %i), shard %i epoch %i" % (o["s"], s_, key[0], key[1]), o["seen"], o["ended"], exp, o["e"]["stop"]):
                    return
                if o["num"] is not None and o["num"] != len(exp):
                    res.violate("num-seqs", "session %i %r: num_seqs %r, but %i seqs" % (o["s"], key, o["num"], len(exp)))
                    return
        # partial reads of the same epoch must agree as well
        part = {}
        for o in out:
            for j, s in o["seen"]:
                k = (o["shard"], o["e"]["epoch"], j)
                if part.setdefault(k, s[0]) != s[0]:
                    res.violate("not-reproducible", "shard %i epoch %i seq %i: once %r, once %r" % (k + (part[k], s[0])))
                    return
        # every file exactly once per full epoch
        readers = 1 if params["dist"] == "mp" else params["shards"]
        groups = [[i] for i in range(readers)] if params["dist"] == "ranks" else [list(range(readers))]
        n = params["partition"]
        for full in sorted({(e - 1) // n for _, e in canon}):
            for g in groups:
                keys = [(sh, full * n + 1 + j) for sh in g for j in range(n)]
                where = {}
                for key in keys:
                    if key not in canon:
                        continue
                    for s in canon[key][0]:
                        if s[0] in where:
                            res.violate("duplicate", "full epoch %i: seq %r both in (shard, epoch) %r and %r" % (full, s[0], where[s[0]], key))
                            return
                        where[s[0]] = key
                files = {}
                for t, key in where.items():
                    files.setdefault(t.split("/")[0], set()).add(key)
                if all(k in canon for k in keys):
                    lost = sorted(set(known) - set(where))
                    if lost:
                        res.violate("lost", "full epoch %i: seqs %r not delivered by any of %r" % (full, lost, keys))
                        return
