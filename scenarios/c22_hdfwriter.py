"""C22: HDF dump writer: final name shows a complete dump or nothing, reads back exactly, extension appends."""

from __future__ import annotations
import hashlib
import io
import random
from .common import *

FN = "/simfs/out/d/dump.hdf"
LABELS = ["a", "b", "c", "äö"]


class Collision(Exception):
    pass


class HdfWriterScenario(Scenario):
    id = "C22"
    quick_runs = 3000
    thorough_runs = 100000
    quick_time = 85
    real_components = ["returnn.datasets.hdf.SimpleHDFWriter", "returnn.datasets.hdf.HDFDataset (reader)", "h5py / HDF5 library (on a memory buffer)"]
    stub_components = ["file system (in-memory VFS)", "clock, process kill"]
    assumptions = [
        "a killed process loses what the HDF5 library has not written yet, completed system calls survive (process crash, not power loss)",
        "one writer at a time per output file; a writer whose insert or close failed is abandoned, not closed again",
    ]

    def prepare(self):
        prepare_base()
        vfs.install_h5py()
        import returnn.datasets.hdf  # noqa

    # ------------------------------------------------------------------ input
    def generate(self, rng, tier):
        main = rng.choice(["dense", "dense", "sparse", "sparse-dim", "dyn2"])
        extras = []
        for key in rng.sample(["classes", "aux", "zeta", "m", "raw"], rng.choice([0, 1, 1, 2, 2, 3])):
            kind = rng.choice(["i1", "i1", "f2", "s0", "str"])
            labels = kind == "i1" and rng.random() < 0.4
            extras.append(dict(key=key, kind=kind, labels=labels))
        # types are either all given in advance or all inferred from the data; label names need them in advance
        explicit = rng.random() < 0.5 or any(e["labels"] for e in extras)
        phases = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            phases.append([[rng.choice([0, 1, 2, 3, 5, 9]) if rng.random() < 0.3 else rng.randint(1, 6) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 2, 3]))])
        sim = dict(max_time=1e6, **swarm_sched(rng))
        mode = rng.choice(["kill", "kill", "fault", "kill+fault", "plain"])
        if "kill" in mode:
            sim.update(p_kill=rng.choice([0.01, 0.03, 0.1]), max_kills=rng.choice([1, 2, 4]))
        if "fault" in mode:
            sim.update(
                faults={k: rng.choice([0.005, 0.02, 0.06]) for k in rng.sample(["enospc", "eio", "short_write", "short_read"], rng.choice([1, 2, 3]))},
                max_faults=rng.choice([1, 2, 5]),
            )
        return dict(
            main=main,
            labels=main in ("dense", "sparse-dim") and rng.random() < 0.4,
            extras=extras,
            explicit=explicit,
            explicit_ext=[rng.choice(["none", "types", "types+labels"]) for _ in phases],
            order_ext=[rng.random() < 0.5 for _ in phases],
            phases=phases,
            seed=rng.randrange(1 << 30),
            tags=rng.choice(["str", "str", "bytes", "unicode"]),
            collide=rng.choice([None, None, "before", "during"]),
            reader=rng.random() < 0.5,
            abandon=[rng.choice([None, None, "drop", "bad"]) for _ in phases] if rng.random() < 0.5 else [],
            neighbours=rng.choice([[], [], ["/simfs/out/d/other.hdf"], ["/simfs/out/e/dump.hdf"], ["/simfs/out/d/other.hdf", "/simfs/out/e/dump.hdf"]]),
            cache=rng.choice([0, 0, -1, 10000000]),
            capacity=rng.choice([None, None, 40960, 65536, 131072, 262144]) if "fault" in mode else None,
            tmpdev=rng.random() < 0.7,
            mode=mode,
            chunk=rng.choice([None, 4096, 16384]),
            sim=sim,
        )

    def shrink(self, params):
        ph = params["phases"]
        if len(ph) > 1:
            yield with_(params, phases=ph[:-1])
        for i, p in enumerate(ph):
            if len(p) > 1:
                yield with_(params, phases=ph[:i] + [p[:1]] + ph[i + 1 :])
            for j, b in enumerate(p):
                if len(b) > 1:
                    yield with_(params, phases=ph[:i] + [p[:j] + [b[:1]] + p[j + 1 :]] + ph[i + 1 :])
                if b != [1] * len(b):
                    yield with_(params, phases=ph[:i] + [p[:j] + [[1] * len(b)] + p[j + 1 :]] + ph[i + 1 :])
        for e in shrink_list(params["extras"]):
            yield with_(params, extras=e)
        for k, v in [("collide", None), ("reader", False), ("abandon", []), ("neighbours", []), ("cache", 0), ("capacity", None), ("tags", "str"), ("main", "dense"), ("labels", False)]:
            if params[k] != v:
                yield with_(params, **{k: v})

    # ------------------------------------------------------------------ data and model
    def _data(self, params):
        """per phase: list of insert_batch arguments; and per phase the logical content after it"""
        import numpy

        rnd = random.Random(params["seed"])
        main = params["main"]
        phases = []
        content = []
        versions = []
        n = 0
        for batches in params["phases"]:
            args = []
            for lens in batches:
                nb = len(lens)
                mx = max(lens)
                if main == "dense":
                    x = numpy.array([[[rnd.uniform(-9, 9) for _ in range(3)] for _ in range(mx)] for _ in range(nb)], "float32").reshape(nb, mx, 3)
                    sl = list(lens)
                elif main in ("sparse", "sparse-dim"):
                    x = numpy.array([[rnd.randrange(4) for _ in range(mx)] for _ in range(nb)], "int32").reshape(nb, mx)
                    sl = list(lens)
                else:
                    w = [rnd.randint(1, 3) for _ in lens]
                    x = numpy.array([rnd.uniform(-9, 9) for _ in range(nb * mx * max(w) * 2)], "float32").reshape(nb, mx, max(w), 2)
                    sl = {0: list(lens), 1: w}
                ex = {}
                for e in params["extras"]:
                    t = rnd.randint(1, 4)
                    k = e["kind"]
                    if k == "i1":
                        ex[e["key"]] = numpy.array([[rnd.randrange(4) for _ in range(t)] for _ in lens], "int32")
                    elif k == "f2":
                        ex[e["key"]] = numpy.array([[[rnd.random() for _ in range(2)] for _ in range(t)] for _ in lens], "float32")
                    elif k == "s0":
                        ex[e["key"]] = numpy.array([rnd.randrange(1000) for _ in lens], "int32")
                    else:
                        v = numpy.empty((nb, t), dtype=object)
                        for i in range(nb):
                            for j in range(t):
                                v[i, j] = rnd.choice(["x", "foo bar", "ü%i" % rnd.randrange(99), "long" * 9])
                        ex[e["key"]] = v
                tags = []
                for i in range(nb):
                    tag = "seq-%i" % n
                    if params["tags"] == "unicode":
                        tag += "-äß"
                    n += 1
                    tags.append(tag.encode("utf8") if params["tags"] == "bytes" else tag)
                    if main == "dyn2":
                        d = x[i, : sl[0][i], : sl[1][i]].reshape(-1, 2)
                    else:
                        d = x[i, : sl[i]]
                    c = {"data": d.tolist()}
                    if main == "dyn2":
                        c["sizes"] = [sl[0][i], sl[1][i]]
                    for key, v in ex.items():
                        vv = v[i]
                        c[key] = [int(vv)] if vv.ndim == 0 else vv.tolist()
                    content.append((tag, c))
                args.append(dict(inputs=x, seq_len=sl, seq_tag=tags, extra=ex or None))
            phases.append(args)
            versions.append(list(content))
        return phases, versions

    def _labels(self, params):
        res = {}
        if params["labels"]:
            res["data"] = LABELS[:3] if params["main"] == "dense" else LABELS
        for e in params["extras"]:
            if e["labels"]:
                res[e["key"]] = LABELS
        return res

    def _writer(self, params, k, fn=FN):
        from returnn.datasets.hdf import SimpleHDFWriter

        main = params["main"]
        kw = dict(dim={"dense": 3, "sparse": None, "sparse-dim": 4, "dyn2": 2}[main])
        if main == "sparse-dim":
            kw["ndim"] = 1
        elif main == "dyn2":
            kw["ndim"] = 3
        types = {e["key"]: {"i1": (4, 1, "int32"), "f2": (2, 2, "float32"), "s0": (1, 0, "int32"), "str": (1, 1, "string")}[e["kind"]] for e in params["extras"]}
        labels = {key: v for key, v in self._labels(params).items() if key != "data"}
        if params["labels"]:
            kw["labels"] = self._labels(params)["data"]
        if k == 0:
            if params["explicit"]:
                kw.update(extra_type=types, extra_labels=labels)
        else:
            kw["extend_existing_file"] = True
            how = params["explicit_ext"][k % len(params["explicit_ext"])]
            if how != "none":
                kw.update(extra_type=types)
            if how == "types+labels":
                kw.update(extra_labels=labels)
        return SimpleHDFWriter(fn, **kw)

    @staticmethod
    def _norm(x):
        if isinstance(x, bytes):
            return x.decode("utf8")
        if isinstance(x, (list, tuple)):
            return [HdfWriterScenario._norm(y) for y in x]
        return x

    def _parse(self, params, data):
        """independent reader of the format -> logical content, or exception"""
        import h5py

        try:
            with h5py.File(io.BytesIO(data), "r") as f:
                lens = f["seqLengths"][...]
                tags = [self._norm(t) for t in f["seqTags"][...].tolist()]
                keys = sorted(f["targets/data"].keys()) if "targets" in f else []
                assert len(tags) == len(lens) == int(f.attrs["numSeqs"]), "%i tags, %i lengths, numSeqs %i" % (len(tags), len(lens), f.attrs["numSeqs"])
                cols = [("data", 0, f["inputs"])] + [(k, 1 + i, f["targets/data"][k]) for i, k in enumerate(keys)]
                content = [(t, {}) for t in tags]
                for key, col, ds in cols:
                    v = ds[...]
                    pos = 0
                    for i in range(len(tags)):
                        n = int(lens[i, col])
                        assert pos + n <= len(v), "%s of seq %i: %i:%i of %i" % (key, i, pos, pos + n, len(v))
                        content[i][1][key] = self._norm(v[pos : pos + n].tolist())
                        pos += n
                    assert pos == len(v), "%s: %i frames, sum of lengths %i" % (key, len(v), pos)
                return content
        except Exception as exc:
            return exc

    # ------------------------------------------------------------------ run
    def execute(self, params, chooser, log=False):
        import tempfile

        res = RunResult()
        phases, versions = self._data(params)
        want_labels = self._labels(params)
        sim = new_sim(params, chooser, log)
        v = sim.vfs
        v.add_mount("out", capacity=params["capacity"])
        v.add_mount("tmp")
        v.god_makedirs("/simfs/out/d")
        v.god_makedirs("/simfs/out/e")
        v.god_makedirs("/simfs/out/tmp")
        v.chunk_io = params["chunk"]
        old_tmp = tempfile.tempdir
        tempfile.tempdir = "/simfs/tmp" if params["tmpdev"] else "/simfs/out/tmp"
        st = dict(ver=-1, phase=-1, attempts=0, finished=False, foreign=None, success=False)
        memo = {}

        def version_of(data):
            h = hashlib.md5(data).digest()
            if h not in memo:
                c = self._parse(params, data)
                if isinstance(c, Exception):
                    memo[h] = c
                else:
                    for i, ver in enumerate(versions):
                        if ver == c:
                            memo[h] = i
                            break
                    else:
                        memo[h] = ValueError("content is no version: %s" % diff(c))
            return memo[h]

        def diff(c):
            ver = versions[max(st["phase"], 0)]
            if len(c) != len(ver):
                return "%i seqs, should be %i" % (len(c), len(ver))
            for a, b in zip(c, ver):
                if a != b:
                    return ("%r should be %r" % (a, b))[:600]
            return "?"

        last = [None]

        def check_disk(when):
            node = v.inode(FN)
            key = None if node is None else (node.ino, bytes(node.data))
            if key == last[0]:
                return
            last[0] = key
            if st["foreign"] is not None:
                if node is None or bytes(node.data) != st["foreign"]:
                    res.violate("overwrites", "%s: existing file was replaced by a dump which does not extend it" % when)
                return
            if node is None:
                if st["ver"] >= 0:
                    res.violate("lost", "%s: the dumped file does not exist anymore" % when)
                return
            ver = version_of(bytes(node.data))
            if isinstance(ver, Exception):
                res.violate("incomplete", "%s: file under the final name (%i bytes) is not a complete dump: %r" % (when, len(node.data), ver))
            elif ver not in (st["ver"], st["phase"]) or ver < st["ver"]:
                res.violate("wrong-version", "%s: file holds version %i, should be %i or %i" % (when, ver, st["ver"], st["phase"]))

        def obs(op, path, p, **info):
            if op in ("rename", "unlink", "write", "open", "ftruncate", "truncate", "link") and not res.violation:
                check_disk("after %s %s" % (op, path))

        v.observers.append(obs)
        v.fault_filter = lambda op, path, p: not p.name.startswith(("reader", "sup", "neigh"))

        def neighbour(i, fn):
            """another process dumps other data into another file at the same time"""
            core.cur_proc().killable = False
            params2 = with_(params, seed=params["seed"] + 1 + i)
            phases2, versions2 = self._data(params2)
            for rep in range(1 + i):
                try:
                    sim.sleep(sim.choose("neigh", 4) * 0.5)
                    w = self._writer(params2, 0, fn)
                    for args in phases2[0]:
                        w.insert_batch(**args)
                        sim.sleep(sim.choose("neigh", 3) * 0.3)
                    w.close()
                except OSError as exc:
                    if params["capacity"]:
                        return  # full disk
                    res.violate("neighbour", describe_exc(exc))
                    return
                node = v.inode(fn)
                c = self._parse(params2, bytes(node.data)) if node is not None else None
                if c != versions2[0]:
                    res.violate("neighbour", "after close() of the dump %s: %s" % (fn, ("%r" % (c,))[:300]))
                    return
                sim.probe("neighbour")
                v.god_unlink(fn)

        def abandon(k, how):
            """the dumping process stops in the middle, without close(), and lives on"""
            import gc

            w = self._writer(params, k)
            n = len(phases[k])
            for args in phases[k][: n if how == "bad" else sim.choose("abandon", n + 1)]:
                w.insert_batch(**args)
            if how == "bad":
                keys = [e["key"] for e in params["extras"] if e["kind"] == "f2"]
                if keys:
                    bad = dict(phases[k][-1])
                    import numpy

                    bad["extra"] = dict(bad["extra"], **{keys[0]: numpy.zeros(bad["extra"][keys[0]].shape[:-1] + (3,), "float32")})
                    try:
                        w.insert_batch(**bad)
                    except (OSError, core.SimKilled):
                        raise
                    except Exception:
                        sim.probe("bad_insert")
                    else:
                        res.violate("bad-insert", "inserting data of another dimension into %r is not an error" % keys[0])
            sim.probe("abandoned")
            del w
            gc.collect()

        def attempt(k, foreign_during):
            w = self._writer(params, k)
            sim.event("opened")
            for args in phases[k]:
                args = dict(args)
                if args["extra"] and k and params["order_ext"][k % len(params["order_ext"])]:
                    args["extra"] = dict(reversed(list(args["extra"].items())))
                w.insert_batch(**args)
                sim.event("inserted")
            if foreign_during:
                st["foreign"] = b"foreign file"
                v.put(FN, st["foreign"])
            w.close()
            sim.event("closed")
            st["success"] = True

        def read(vmin):
            from returnn.datasets.hdf import HDFDataset

            ds = HDFDataset([FN], cache_byte_size=params["cache"])
            ds.initialize()
            ds.init_seq_order(epoch=1)
            keys = [k for k in ds.get_data_keys()]
            content = []
            i = 0
            while ds.is_less_than_num_seqs(i):
                ds.load_seqs(i, i + 1)
                content.append((ds.get_tag(i), {k: self._norm(ds.get_data(i, k).tolist()) for k in keys}))
                i += 1
            if content not in versions[max(vmin, 0) :]:
                res.violate("read-differs", "HDFDataset does not deliver what was dumped: %s" % diff(content))
            if ds.get_total_num_seqs() != len(content):
                res.violate("read-differs", "total num seqs %i, delivered %i" % (ds.get_total_num_seqs(), len(content)))
            for key, names in want_labels.items():
                if list(ds.labels.get(key, [])) != names:
                    res.violate("labels", "label names of %r are %r, dumped with %r" % (key, ds.labels.get(key), names))
            sim.probe("read")

        def reader():
            core.cur_proc().killable = False
            while not st["finished"] and not res.violation:
                sim.sleep(0.4)
                if v.inode(FN) is not None and st["foreign"] is None:
                    sim.probe("concurrent_read")
                    try:
                        read(st["ver"])
                    except OSError as exc:
                        if st["foreign"] is None and v.inode(FN) is not None:
                            res.violate("unreadable", describe_exc(exc))
                        return

        def wait(p):
            while p.alive:
                sim.block(p.exit_waiters, info="wait")

        def supervisor():
            core.cur_proc().killable = False
            if params["collide"] == "before":
                st["foreign"] = b"foreign file"
                v.put(FN, st["foreign"])
                p = sim.spawn_proc(lambda: attempt(0, False), name="w-collide")
                wait(p)
                if st["success"]:
                    res.violate("overwrites", "dump onto an existing file reported success")
                st["success"] = False
                check_disk("after the dump onto an existing file")
                v.god_unlink(FN)
                st["foreign"] = None
            for k in range(len(phases)):
                st["phase"] = k
                foreign = params["collide"] == "during" and k == 0
                attempts = 0
                if params["abandon"][k : k + 1] not in ([], [None]):
                    p = sim.spawn_proc(lambda: abandon(k, params["abandon"][k]), name="w-abandon%i" % k)
                    wait(p)
                    check_disk("after an abandoned dump")
                    if v.inode(FN) is not None and k == 0:
                        res.violate("incomplete", "a dump which was never closed is visible under the final name")
                    if p.exc is not None and not isinstance(p.exc, (OSError, core.SimKilled, SystemExit)):
                        res.violate("exception:%s" % type(p.exc).__name__, describe_exc(p.exc))
                        return
                while st["ver"] < k and not res.violation:
                    attempts += 1
                    st["attempts"] += 1
                    if attempts > 25:
                        res.violate("no-progress", "dump does not succeed without faults: %s" % (describe_exc(p.exc) if p.exc else ""))
                        return
                    if attempts > 10:
                        sim.cfg.faults = {}
                        sim.cfg.p_kill = 0
                        v.mounts["out"].capacity = None
                    st["success"] = False
                    p = sim.spawn_proc(lambda: attempt(k, foreign), name="w%i" % st["attempts"])
                    wait(p)
                    check_disk("after an attempt")
                    if st["foreign"] is not None:
                        foreign = False
                        if st["success"]:
                            res.violate("overwrites", "close() reported success although another file appeared under that name")
                        v.god_unlink(FN)
                        st["foreign"] = None
                        last[0] = None
                        continue
                    if p.exc is not None and not isinstance(p.exc, (OSError, core.SimKilled, SystemExit)):
                        res.violate("exception:%s" % type(p.exc).__name__, describe_exc(p.exc))
                        return
                    node = v.inode(FN)
                    ver = version_of(bytes(node.data)) if node is not None else -1
                    if st["success"] and ver != k:
                        res.violate("not-durable", "close() returned, but the file is %s" % ("absent" if node is None else ver))
                        return
                    if ver == k:
                        st["ver"] = k
                        if params["collide"] and k == 0:
                            self_collide()
                    sim.sleep(1)
                if res.violation:
                    return
                p = sim.spawn_proc(lambda: read(k), name="reader-p%i" % k)
                p.killable = False
                wait(p)
                if p.exc is not None:
                    res.violate("unreadable", describe_exc(p.exc))
                    return
            st["finished"] = True

        def self_collide():
            # the same dump again, without extending: must be refused
            st["success"] = False
            p = sim.spawn_proc(lambda: attempt(0, False), name="w-again")
            wait(p)
            if st["success"]:
                res.violate("overwrites", "dump onto an existing dump reported success")

        sim.spawn_proc(supervisor, name="sup")
        for i, fn in enumerate(params["neighbours"]):
            sim.spawn_proc(lambda i=i, fn=fn: neighbour(i, fn), name="neigh%i" % i)
        if params["reader"]:
            sim.spawn_proc(reader, name="reader")
        try:
            run_sim(sim)
        finally:
            tempfile.tempdir = old_tmp
        for p in sim.procs:
            if (p.name in ("reader", "sup") or p.name.startswith("neigh")) and p.exc is not None and not isinstance(p.exc, core.SimKilled):
                res.violate("unreadable" if p.name == "reader" else "harness", describe_exc(p.exc))
        if sim.outcome != "ok":
            res.violate("no-progress", "%s: %s" % (sim.outcome, sim.outcome_info))
        self.collect(sim, res, dict(count={"attempts": st["attempts"]}, case="%s/%s/%i" % (params["mode"], params["main"], len(params["phases"]))))
        return res


SCENARIO = HdfWriterScenario()
