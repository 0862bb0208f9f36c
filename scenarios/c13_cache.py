"""C13: HDF dataset with in-memory cache and background preloading"""

from __future__ import annotations
import tempfile
import zlib
from .dsbase import *

SCR = None
_mods = {}
CORPORA = []  # list of dict(files, n, tags)


def content(tag, keys):
    import numpy

    r = numpy.random.RandomState(zlib.crc32(tag.encode()) % (2**31))
    n = 1 + r.randint(0, 6)
    out = {}
    for k in keys:
        if k == "data":
            out[k] = r.randint(1, 1000, (n, 2)).astype("float32")
        elif k == "classes":
            out[k] = r.randint(0, 10, (n,)).astype("int32")
        else:
            out[k] = r.randint(0, 10, (1 + r.randint(0, 4),)).astype("int32")
    return out


def write_hdf(fn, tags, keys):
    import h5py
    import numpy

    targets = [k for k in keys if k != "data"]
    with h5py.File(fn, "w") as f:
        cs = [content(t, keys) for t in tags]
        f.attrs["numTimesteps"] = sum(len(c["data"]) for c in cs)
        f.attrs["inputPattSize"] = 2
        f.attrs["numDims"] = 1
        f.attrs["numLabels"] = 10
        f.attrs["numSeqs"] = len(tags)
        f.create_dataset("seqTags", data=numpy.array([t.encode() for t in tags], dtype="S10"))
        f.create_dataset("seqLengths", data=numpy.array([[len(c[k]) for k in ["data"] + sorted(targets)] for c in cs], dtype="int32"))
        f.create_dataset("inputs", data=numpy.concatenate([c["data"] for c in cs]))
        g = f.create_group("targets")
        for n in ("data", "labels", "size"):
            g.create_group(n)
        for k in targets:
            g["data"].create_dataset(k, data=numpy.concatenate([c[k] for c in cs]))
            g["labels"].create_dataset(k, data=numpy.array([str(i).encode() for i in range(10)], dtype="S5"))
            g["size"].attrs[k] = numpy.array([10, 1])


def prepare_cache():
    global SCR
    prepare_ds()
    if SCR is not None:
        return
    import atexit
    import shutil
    import h5py  # noqa
    import returnn.datasets.hdf as hdf
    import returnn.datasets.cached as cached

    for m in (hdf, cached):
        m.print = lambda *a, **k: None
    _mods.update(hdf=hdf)
    SCR = tempfile.mkdtemp(prefix="verif_c13_", dir=os.environ.get("VERIF_SCRATCH") or None)
    atexit.register(shutil.rmtree, SCR, True)
    for i, ns in enumerate([[1], [2], [4], [6], [9], [3, 2], [2, 5], [4, 1, 3]]):
        for keys in [["data", "classes"], ["data", "a", "classes"]]:
            files, tags = [], []
            for j, n in enumerate(ns):
                ts = ["c%i-%i" % (i, len(tags) + x) for x in range(n)]
                tags += ts
                files.append("%s/%i_%i_%i.hdf" % (SCR, i, len(keys), j))
                write_hdf(files[-1], ts, keys)
            CORPORA.append(dict(files=files, n=len(tags), tags=tags))


class ReadError(OSError):
    pass


class FileProxy:
    """the file on a slow or broken disk"""

    def __init__(self, f, io):
        self._f = f
        self._io = io

    def __getitem__(self, item):
        import h5py

        x = self._f[item]
        return DataProxy(x, self._io) if isinstance(x, h5py.Dataset) else x

    def __contains__(self, item):
        return item in self._f

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, item):
        return getattr(self._f, item)


class DataProxy:
    def __init__(self, d, io):
        self._d = d
        self._io = io

    def __getitem__(self, item):
        self._io()
        return self._d[item]

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __getattr__(self, item):
        return getattr(self._d, item)


class S(Scenario):
    id = "C13"
    quick_runs = 20000
    thorough_runs = 300000
    quick_time = 95
    real_components = ["returnn.datasets.cached.CachedDataset (cache, preload threads)", "returnn.datasets.hdf.HDFDataset", "returnn.datasets.basic (sequence order)", "h5py"]
    stub_components = ["thread scheduling, time", "read latency and read errors (injected at every read of a data set of the HDF file)"]
    assumptions = ["one reader", "the files do not change"]

    def prepare(self):
        prepare_cache()

    def generate(self, rng, tier):
        p = dict(corpus=rng.randrange(16))
        n = [1, 2, 4, 6, 9, 5, 7, 8][p["corpus"] // 2]
        p["cache"] = rng.choice([1, 20, 50, 100, 150, 200, 300, 400, 600, 1000, 100000, -1])
        p["window"] = rng.choice([1, 1, 1, 3])
        p["ordering"] = rng.choice(ORDERINGS)
        p["latency"] = rng.choice([0, 0, 0.01, 0.3, 3])
        cur = rng.choice([1, 1, 1, 3])
        eps = []
        prev = None
        p_sub = rng.choice([0.1, 0.3, 0.8])
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            e = dict(epoch=cur)
            if rng.random() < p_sub:
                if prev and rng.random() < 0.4:
                    sub = list(prev)
                    rng.shuffle(sub)
                else:
                    sub = self.subset(rng, n)
                e[rng.choice(["seq_list", "seq_order"])] = prev = sub
            m = len(e.get("seq_list") or e.get("seq_order") or range(n))
            e["mode"] = rng.choice(["one", "batch", "batch", "skip", "random", "init"])
            e["reads"] = self.reads(rng, e["mode"], m)
            e["pause"] = rng.choice([0, 0, 0.1, 5])
            cur = rng.choice([cur + 1, cur + 1, cur, cur + 2, max(1, cur - 1)])
            eps.append(e)
        p["epochs"] = eps
        p["fault"] = rng.choice([None] * 4 + [rng.randrange(1, 30)])
        p["sim"] = dict(max_events=200000, max_time=1e5, **swarm_sched(rng, lines=True))
        if rng.random() < 0.3:
            p["sim"]["p_stall"] = rng.choice([0.01, 0.05])
            p["sim"]["stall_max"] = rng.choice([0.1, 20])
        return p

    @staticmethod
    def subset(rng, n):
        o = list(range(n))
        rng.shuffle(o)
        return o[: rng.choice([1, 2, max(1, n // 2), n, n])]

    @staticmethod
    def reads(rng, mode, n):
        """:return: list of (start, end): load_seqs, and then data is read"""
        if mode == "init":
            return []
        out = []
        if mode == "random":
            for _ in range(rng.choice([1, 3, 6])):
                a = rng.randrange(n)
                out.append([a, min(n, a + rng.choice([1, 1, 2, 3, 5]))])
            return out
        i = 0
        k = rng.choice([2, 3, 4])
        stop = rng.choice([n, n, n, rng.randrange(1, n + 1)])
        while i < stop:
            j = min(n, i + (k if mode == "batch" else 1))
            out.append([i, j])
            i = i + k if mode == "skip" else j
        return out

    def shrink(self, params):
        for t in shrink_list(params["epochs"]):
            if t:
                yield with_(params, epochs=t)
        for i, e in enumerate(params["epochs"]):
            for t in shrink_list(e["reads"]):
                yield with_(params, epochs=params["epochs"][:i] + [with_(e, reads=t)] + params["epochs"][i + 1 :])
        for k, v in [("latency", 0), ("window", 1), ("ordering", "default"), ("fault", None)]:
            if params[k] != v:
                yield with_(params, **{k: v})

    # ------------------------------------------------------------------

    def make(self, params, cache):
        c = CORPORA[params["corpus"]]
        ds = _mods["hdf"].HDFDataset(files=list(c["files"]), cache_byte_size=cache, window=params["window"], seq_ordering=params["ordering"])
        ds.initialize()
        return ds

    @staticmethod
    def init(ds, params, e):
        c = CORPORA[params["corpus"]]
        sl = [c["tags"][i] for i in e["seq_list"]] if e.get("seq_list") else None
        ds.init_seq_order(epoch=e["epoch"], seq_list=sl, seq_order=list(e["seq_order"]) if e.get("seq_order") else None)

    def execute(self, params, chooser, log=False):
        res = RunResult()
        ds0 = self.make(params, 0)
        exp = []
        for e in params["epochs"]:
            self.init(ds0, params, e)
            exp.append([seq_tuple(ds0, i) + (str(ds0.get_seq_length(i)),) for i in range(ds0.num_seqs)])
        sim = new_mp_sim(params, chooser, log, lines=("returnn/datasets/cached.py", "returnn/datasets/hdf.py"), with_vfs=False)
        st = dict(reads=0, failed=False, need=0)
        n_read = [0]

        def io():
            st["reads"] += 1
            sim.event("read")
            if params["latency"]:
                sim.sleep(params["latency"])
            if st["reads"] == params["fault"]:
                sim.count_fault("read-error")
                st["failed"] = True
                raise ReadError(5, "Can't read data (simulated)")

        def check_mem(ds):
            ai = getattr(ds, "alloc_intervals", None)
            if not ai or params["cache"] < 0:
                return
            frames = sum(x[2].shape[0] for x in list(ai) if x[0] != x[1])
            need = st["need"]
            nbytes = 4 * (2 * params["window"] + 2)
            start = max(params["cache"] * 2 // 3, 1)
            limit = start + max(max(params["cache"] - start, 1), need * nbytes)
            if frames * nbytes > limit:
                res.violate("cache-size", "%i bytes (%i frames) cached, limit %i bytes, requested %i frames" % (frames * nbytes, frames, params["cache"], need))

        def main():
            ds = self.make(params, params["cache"])
            ds.h5_files[:] = [FileProxy(f, io) for f in ds.h5_files]
            for ei, e in enumerate(params["epochs"]):
                try:
                    self.init(ds, params, e)
                   
                    if ds.num_seqs != len(exp[ei]):
                        return res.violate("num-seqs", "epoch %i: %i, without cache %i" % (e["epoch"], ds.num_seqs, len(exp[ei])))
                    for a, b in e["reads"]:
                        sim.event("reader")
                        # (what is requested is loaded in any case, and kept as long as nothing else needs to be loaded)
                        st["need"] = max(st["need"], sum(int(ds.get_seq_length(i)["data"]) for i in range(a, b)))
                        ds.load_seqs(a, b)
                        if e["pause"]:
                            sim.sleep(e["pause"])
                        for i in range(a, b):
                            got = seq_tuple(ds, i) + (str(ds.get_seq_length(i)),)
                            n_read[0] += 1
                            if got != exp[ei][i]:
                                return res.violate("wrong-data", "epoch %i, seq %i: %s, without cache %s" % (e["epoch"], i, self.show(got), self.show(exp[ei][i])))
                        check_mem(ds)
                        if res.violation:
                            return
                except core.SimKilled:
                    raise
                except Exception as exc:
                    if not st["failed"]:
                        return res.violate("error:%s" % type(exc).__name__, "epoch %i: %s" % (e["epoch"], describe_exc(exc)))
                    exc = None
                    continue

        p = spawn_reader(sim, main, "r")
        run_sim(sim)
        if not res.violation:
            if sim.outcome != "ok":
                res.violate("hang", "%s%s: %s" % (sim.outcome, " after read error" if st["failed"] else "", sim.outcome_info))
            elif p.exc is not None:
                res.violate("error:%s" % type(p.exc).__name__, describe_exc(p.exc))
        p.exc = None
        self.collect(sim, res, dict(count={"seqs": n_read[0], "reads": st["reads"]}, case="cache%i" % params["cache"]))
        return res

    @staticmethod
    def show(t):
        import numpy

        return (t[0],) + tuple((k, dt, numpy.frombuffer(b, dt).reshape(s).tolist()) for k, dt, s, b in t[1:-1]) + t[-1:]


SCENARIO = S()
