"""C19: what a dataset delivers in an epoch does not depend on the process's past."""

from __future__ import annotations
import json
import os
import random
import threading
from .dsbase import *
from . import dsgrammar as g
from .c19peer import digest


def import_all():
    """all the modules. without the native parser"""
    import returnn.datasets.meta, returnn.datasets.postprocessing, returnn.datasets.map, returnn.datasets.lm  # noqa
    import returnn.datasets.hdf, returnn.datasets.audio, returnn.datasets.text_dict, returnn.datasets.generating  # noqa
    import h5py, torch  # noqa
    import returnn.util.literal_py_to_pickle as lp

    lp.literal_eval = returnn.datasets.lm.literal_eval = _literal_eval  # the original compiles a native lib


class C19(Scenario):
    id = "C19"
    quick_runs = 6000
    thorough_runs = 200000
    quick_time = 150
    real_components = [
        "returnn.datasets.basic (Dataset: orders, partitions, shards, seeds, init_dataset, pickling)",
        "returnn.datasets.cached2, cached (without cache), hdf, lm (LmDataset), audio (OggZipDataset without audio), text_dict, map, generating (StaticDataset and tasks)",
        "returnn.datasets.meta (MetaDataset, ConcatDataset, CombinedDataset, ConcatSeqsDataset, VariableDataset, MultiEpochDataset)",
        "returnn.datasets.postprocessing",
        "returnn.datasets.util.vocabulary (SamplingBytePairEncoding)",
        "numpy.random and random global state of the process",
    ]
    stub_components = [
        "process life (kill, restart) and thread scheduling (simulated)",
        "user-defined datasets and mapping functions with known content",
        "returnn.util.literal_py_to_pickle (native parser): ast.literal_eval",
        "corpus files: small real files in a scratch directory",
    ]
    assumptions = [
        "config, files and environment do not change between the processes",
        "a predefined order (seq_list, seq_order) is only given to datasets which support it",
        "CombinedDataset with unknown number of seqs and ordering random_dataset: order must be reproducible, data must not get lost",
    ]

    def prepare(self):
        import subprocess
        import sys
        from sim.runner import VERIF

        g.make_files()
        env = dict(os.environ, PYTHONHASHSEED="4711")
        self._peer = subprocess.Popen(
            [sys.executable, "-B", "-m", "scenarios.c19peer", g.SCR], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=VERIF, env=env
        )
        prepare_ds()
        import_all()
        self._memo = {}

    def peer(self, d, e):
        """:return: digest of the epoch as read in another process, or error text"""
        self._peer.stdin.write((json.dumps(dict(d=d, e=e, shard=None)) + "\n").encode())
        self._peer.stdin.flush()
        line = self._peer.stdout.readline()
        if not line:
            raise HarnessError("C19: peer process died")
        return json.loads(line)

    # -- generate

    def gen_history(self, rng, s, n_actions):
        out = []
        cs = g.caps(s)
        cur = rng.choice([1, 1, 1, 2, 5])
        ts = g.tags_of(s)
        for _ in range(n_actions):
            x = rng.random()
            if x < 0.1 and out:
                out.append(dict(op=rng.choice(["rng", "rng", "new", "pickle"]), seed=rng.randint(0, 1000)))
                continue
            e = gen_read(rng)
            e["op"] = "read"
            if e["mode"] == "skip" and "skip" not in cs or e["mode"] == "len" and s["k"] in ("ogg", "td"):
                e["mode"] = "one"
            if e["mode"] in ("batch", "len") and g.only_single(s):
                e["mode"] = "one"
            e["epoch"] = cur
            e["query"] = rng.random() < 0.3
            if "data" not in g.keys(s):
                e["ask"] = False
            if ts is not None and "list" in cs and not s.get("filter") and rng.random() < 0.2:
                t = list(ts)
                rng.shuffle(t)
                e["seq_list"] = t[: rng.randint(1, len(t))]
            elif ts is not None and "order" in cs and rng.random() < 0.15:
                o = list(range(len(ts)))
                rng.shuffle(o)
                e["seq_order"] = o[: rng.randint(1, len(o))]
            elif s["k"] == "var" or s["k"] == "pp":
                pass
            out.append(e)
            cur = rng.choice([cur + 1, cur + 1, cur + 1, cur, cur, cur + 3, max(1, cur - 1), 1])
        return out

    def generate(self, rng, tier):
        p = dict(ds=[], hist=[])
        nds = rng.choice([1, 1, 1, 2])
        for i in range(nds):
            for _ in range(200):
                if i == 1 and rng.random() < 0.4:
                    s = p["ds"][0]["spec"]
                else:
                    s = g.gen_spec(rng, rng.choice([0, 1, 1, 1, 2, 2]))
                if g.min_seqs(s) >= 1:
                    break
            d = dict(spec=s)
            if "shard" in g.caps(s) and rng.random() < 0.25:
                ns = rng.choice([2, 2, 3])
                if g.min_seqs(s) >= ns and "filter" not in json.dumps(s):
                    d["shards"] = ns
                    d["shard"] = rng.randrange(ns)
            p["ds"].append(d)
            p["hist"].append(self.gen_history(rng, s, rng.choice([1, 2, 3, 3, 4, 5] + ([8] if tier != "quick" else []))))
        p["threads"] = nds == 2 and rng.random() < 0.6
        p["rng"] = rng.randint(0, 1000)
        p["peer"] = rng.random() < 0.3
        sim = dict(max_events=400000, max_time=1e6, **swarm_sched(rng))
        if rng.random() < 0.3:
            sim.update(p_kill=rng.choice([0.01, 0.05, 0.2]), max_kills=rng.choice([1, 1, 2, 4]))
        if p["threads"] and rng.random() < 0.3:
            sim["p_line"] = rng.choice([0.01, 0.05])
        p["sim"] = sim
        return p

    def shrink(self, params):
        if len(params["ds"]) > 1:
            for i in range(2):
                yield with_(params, ds=[params["ds"][i]], hist=[params["hist"][i]], threads=False)
        for i, h in enumerate(params["hist"]):
            for t in shrink_list(h):
                if t:
                    yield with_(params, hist=params["hist"][:i] + [t] + params["hist"][i + 1 :])
            for j, e in enumerate(h):
                for k, v in [("ask", False), ("query", False), ("finish", None), ("mode", "one"), ("stop", None), ("seq_list", None), ("seq_order", None)]:
                    if e.get(k) is not None and e.get(k) != v:
                        h2 = h[:j] + [with_(e, **{k: v})] + h[j + 1 :]
                        yield with_(params, hist=params["hist"][:i] + [h2] + params["hist"][i + 1 :])
        for i, d in enumerate(params["ds"]):
            s = d["spec"]
            cands = []
            if "sub" in s and s["k"] not in ("meta", "comb"):
                cands.append(s["sub"])
            cands += s.get("subs", []) if s["k"] != "concat" else []
            for k in ["part", "rep", "seed_off", "fixed_seed", "lensfile", "filter", "callord"]:
                if s.get(k) is not None:
                    cands.append({a: b for a, b in s.items() if a != k})
            if s.get("ord") not in (None, "default"):
                cands.append(with_(s, ord="default"))
            if isinstance(s.get("sub"), dict) and "k" not in s["sub"]:
                for key, x in s["sub"].items():
                    for k in ["part", "rep", "seed_off", "fixed_seed", "lensfile", "filter", "callord"]:
                        if x.get(k) is not None:
                            cands.append(with_(s, sub={**s["sub"], key: {a: b for a, b in x.items() if a != k}}))
            for c in cands:
                ts, ots = g.tags_of(c), g.tags_of(s)
                if any(e.get("seq_list") or e.get("seq_order") for e in params["hist"][i]) and ts != ots:
                    continue
                if any(e.get("mode") == "skip" for e in params["hist"][i]) and "skip" not in g.caps(c):
                    continue
                d2 = with_(d, spec=c)
                if "shards" in d2 and ("shard" not in g.caps(c) or g.min_seqs(c) < d2["shards"]):
                    continue
                yield with_(params, ds=params["ds"][:i] + [d2] + params["ds"][i + 1 :])
            if d.get("shards"):
                yield with_(params, ds=params["ds"][:i] + [dict(spec=s)] + params["ds"][i + 1 :])
        if params["threads"]:
            yield with_(params, threads=False)

    # -- reference

    def make(self, d, shard=None):
        top = {}
        if d.get("shards"):
            top = {"_num_shards": d["shards"], "_shard_index": d["shard"] if shard is None else shard}
        return g.build(d["spec"], top)

    def fresh(self, d, e, shard=None):
        """epoch as read from a new dataset in a new process"""
        key = json.dumps([d, shard, e["epoch"], e.get("seq_list"), e.get("seq_order")], sort_keys=True)
        if key in self._memo:
            return self._memo[key]
        import numpy

        st = random.getstate(), numpy.random.get_state()
        random.seed(1)
        numpy.random.seed(1)
        try:
            r = expected_epoch(lambda: self.make(d, shard), e["epoch"], e.get("seq_list"), e.get("seq_order"))
        except Exception as exc:
            r = describe_exc(exc)
        finally:
            random.setstate(st[0])
            numpy.random.set_state(st[1])
        if len(self._memo) > 2000:
            self._memo.clear()
        self._memo[key] = r
        return r

    def check_ref(self, res, d, e, exp):
        """independent model: right data, exactly once"""
        s = d["spec"]
        m = g.model(s)
        if m is not None:
            for q in exp:
                if q[0] not in m:
                    res.violate("model-tag", "%s: tag %r" % (json.dumps(s), q[0]))
                    return False
                for k, dt, shape, buf in q[1:]:
                    x = m[q[0]].get(k)
                    if x is not None and (dt, tuple(shape), buf) != (str(x.dtype), x.shape, x.tobytes()):
                        res.violate("model-data", "%s: tag %r key %r is wrong (%s %r)" % (json.dumps(s), q[0], k, dt, shape))
                        return False
        if e.get("seq_list") is not None and [q[0] for q in exp] != e["seq_list"]:
            res.violate("predef-order", "%s: seq_list %r, got %r" % (json.dumps(s), e["seq_list"], [q[0] for q in exp]))
            return False
        if e.get("seq_order") is not None and [q[0] for q in exp] != [g.tags_of(s)[i] for i in e["seq_order"]]:
            res.violate("predef-order", "%s: seq_order %r, got %r" % (json.dumps(s), e["seq_order"], [q[0] for q in exp]))
            return False
        return True

    def check_once(self, res, d, epoch):
        """over the sub-epochs and shards, every seq exactly once"""
        s = d["spec"]
        p = g.parts(s)
        if p is None:
            return True
        e0 = (epoch - 1) // p * p + 1
        got = []
        for ep in range(e0, e0 + p):
            for sh in range(d.get("shards", 1)):
                r = self.fresh(d, dict(epoch=ep), sh if d.get("shards") else None)
                if isinstance(r, str):
                    res.violate("fresh-error", "%s: epoch %i: %s" % (json.dumps(d), ep, r))
                    return False
                got += [q[0] for q in r]
        exp = g.all_seqs(s)
        if sorted(got) != exp:
            res.violate(
                "not-exactly-once",
                "%s: epochs %i..%i, shards %i: missing %r, too often %r"
                % (json.dumps(s), e0, e0 + p - 1, d.get("shards", 1), sorted(_minus(exp, got)), sorted(_minus(got, exp))),
            )
            return False
        return True

    # -- run

    def execute(self, params, chooser, log=False):
        from returnn.datasets.basic import init_dataset
        import numpy
        import pickle

        res = RunResult()
        st = random.getstate(), numpy.random.get_state()
        try:
            return self._execute(params, chooser, log, res, init_dataset, numpy, pickle)
        finally:
            random.setstate(st[0])
            numpy.random.set_state(st[1])

    def _execute(self, params, chooser, log, res, init_dataset, numpy, pickle):
        sim = new_mp_sim(params, chooser, log, lines=["returnn/datasets/basic.py", "returnn/datasets/meta.py", "returnn/datasets/cached2.py"])
        vfs.set_active(None)
        ok = True
        exps = {}
        for i, (d, h) in enumerate(zip(params["ds"], params["hist"])):
            for j, e in enumerate(h):
                if e["op"] != "read":
                    continue
                x = self.fresh(d, e)
                exps[i, j] = x
                if isinstance(x, str):
                    res.violate("fresh-error", "%s: %s: %s" % (json.dumps(d), json.dumps(e), x))
                    ok = False
                else:
                    ok = self.check_ref(res, d, e, x) and self.check_once(res, d, e["epoch"])
                    if ok and params.get("peer"):
                        y = self.peer(d, e)
                        if y != digest(x):
                            res.violate("other-process", "%s: %s: read in another process (other hash seed): %s, expected %s" % (json.dumps(d), json.dumps(e), y, digest(x)))
                            ok = False
                if not ok:
                    break
            if not ok:
                break
        if not ok:
            self.collect(sim, res, dict(count=dict(ref_fail=1), case="ref"))
            vfs.set_active(None)
            return res
        vfs.set_active(sim.vfs)
        out = []
        pos = [0] * len(params["ds"])
        stt = dict(err=None, n=0)

        def run_hist(i, limit=None):
            """actions of dataset i from pos[i] on"""
            d, h = params["ds"][i], params["hist"][i]
            rd = Reader(sim)
            ds = dss[i]
            while pos[i] < len(h):
                j = pos[i]
                e = h[j]
                sim.event("action")
                if ds is None:
                    ds = init_dataset(self.make(d))
                if e["op"] == "rng":
                    numpy.random.seed(e["seed"])
                    random.seed(e["seed"])
                    numpy.random.rand(3)
                elif e["op"] == "new":
                    ds = init_dataset(self.make(d))
                elif e["op"] == "pickle":
                    if _picklable(d["spec"]):
                        ds = pickle.loads(pickle.dumps(ds))
                else:
                    o = dict(i=i, j=j, seen=[], ended=None, e=e)
                    out.append(o)
                    ds.init_seq_order(epoch=e["epoch"], seq_list=e.get("seq_list"), seq_order=e.get("seq_order"))
                    if e.get("query"):
                        o["num"] = _query(ds)

                    def on_end(k, o=o):
                        o["ended"] = k

                    rd.read(ds, e, o["seen"], on_end)
                    if e["finish"] is not None:
                        ds.finish_epoch(free_resources=e["finish"])
                    stt["n"] += 1
                dss[i] = ds
                pos[i] += 1
                if limit and len(params["ds"]) > 1 and not params["threads"]:
                    return

        dss = [None] * len(params["ds"])

        def guarded(i):
            try:
                run_hist(i)
            except core.SimKilled:
                raise
            except Exception as exc:
                stt["err"] = (i, pos[i], describe_exc(exc), type(exc).__name__)

        def main():
            numpy.random.seed(params["rng"])
            random.seed(params["rng"])
            if params["threads"]:
                ths = [threading.Thread(target=guarded, args=(i,), name="reader%i" % i) for i in range(len(params["ds"]))]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
                return
            i = 0
            while stt["err"] is None and any(pos[k] < len(params["hist"][k]) for k in range(len(params["ds"]))):
                if pos[i] < len(params["hist"][i]):
                    try:
                        run_hist(i, limit=1)
                    except core.SimKilled:
                        raise
                    except Exception as exc:
                        stt["err"] = (i, pos[i], describe_exc(exc), type(exc).__name__)
                i = (i + 1) % len(params["ds"])

        def start():
            p = spawn_reader(sim, main, "r%i" % len(sim.procs))
            p.exit_hooks.append(gone)

        def gone(p):
            if stt["err"] is None and any(pos[k] < len(params["hist"][k]) for k in range(len(params["ds"]))) and sim.n_kills:
                for k in range(len(dss)):
                    dss[k] = None
                if stt.setdefault("starts", 0) < 6:
                    stt["starts"] += 1
                    start()

        start()
        run_sim(sim)
        cnt = dict(reads=len(out), seqs=sum(len(o["seen"]) for o in out), restarts=stt.get("starts", 0))
        kinds = "+".join(sorted(_kinds(d["spec"]) for d in params["ds"]))
        if sim.outcome != "ok":
            res.violate("hang", "%s: %s" % (sim.outcome, sim.outcome_info))
        for o in out:
            d = params["ds"][o["i"]]
            what = "%s: action %i, epoch %i" % (json.dumps(d), o["j"], o["e"]["epoch"])
            x = exps[o["i"], o["j"]]
            if not check_seen(res, what, o["seen"], o["ended"], x, o["e"]["stop"]):
                break
            if o.get("num") is not None and o["num"] != len(x):
                res.violate("num-seqs", "%s: num_seqs %r, expected %i" % (what, o["num"], len(x)))
                break
        else:
            if stt["err"]:
                i, j, txt, nm = stt["err"]
                res.violate("error:%s" % nm, "%s: action %i %s: %s" % (json.dumps(params["ds"][i]), j, json.dumps(params["hist"][i][j]), txt))
        dss = None
        self.collect(sim, res, dict(count=cnt, case=kinds))
        return res


def _literal_eval(s):
    import ast

    return ast.literal_eval(s.decode("utf8") if isinstance(s, bytes) else s)


def _minus(a, b):
    b = list(b)
    out = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            out.append(x)
    return out


def _kinds(s):
    k = s["k"]
    if k in ("pp", "multi"):
        return "%s(%s)" % (k, _kinds(s["sub"]))
    return k


def _picklable(s):
    k = s["k"]
    if k in ("sim", "hdf", "gen", "ogg"):
        return True
    if k == "meta":
        return all(_picklable(x) for x in s["sub"].values())
    return False


def _query(ds):
    """things which a user may ask in between. should have no influence"""
    num = None
    for f in [
        lambda: ds.get_all_tags(),
        lambda: ds.get_total_num_seqs(),
        lambda: ds.get_current_seq_order(),
        lambda: ds.get_data_keys(),
        lambda: ds.get_target_list(),
        lambda: ds.estimated_num_seqs,
        lambda: ds.num_seqs,
        lambda: repr(ds),
    ]:
        try:
            num = f()
        except NotImplementedError:
            num = None
        except Exception as exc:
            if type(exc) is Exception and "not allowed" in str(exc):
                continue
            raise
    try:
        num = ds.num_seqs
    except NotImplementedError:
        num = None
    return num


SCENARIO = C19()
