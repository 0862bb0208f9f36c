"""C20: parallel text corpus which is read by a background thread"""

from __future__ import annotations
import gzip
import io
import pickle
from .dsbase import *
from . import dsbase as _d

_mods = {}
_h = []
UNK = "<unk>"
FACTORS = {"source": ["case"], "target": ["tcase", "tpos"]}


def prepare_text():
    prepare_ds()
    if _mods:
        return
    import returnn.datasets.lm as lm
    from returnn.datasets.basic import Dataset

    lm.print = lambda *a, **k: None
    for n in ("exited", "exited_frame"):
        _h.append(_attr(sys, n))

    class Small:
        """
        The code reads in chunks of (at least) many KB. The corpora here are small, so scale this down
        """

        def _get_data_file(self, prefix):
            return Scaled(super()._get_data_file(prefix), cur_task().sim, prefix)

    class Trans(Small, lm.TranslationDataset):
        pass

    class Fact(Small, lm.TranslationFactorsDataset):
        pass

    _mods.update(lm=lm, Trans=Trans, Fact=Fact, Dataset=Dataset)


def _attr(mod, name):
    miss = object()
    init = miss if not hasattr(mod, name) else getattr(mod, name)

    def set_(v):
        if v is miss:
            if hasattr(mod, name):
                delattr(mod, name)
        else:
            setattr(mod, name, v)

    return (lambda: getattr(mod, name, miss)), set_, (lambda: init)


class Scaled:
    def __init__(self, f, sim, prefix):
        self._f = f
        self._sim = sim
        self._prefix = prefix
        self._got = 0  # lines given so far
        self._ended = False
        sim.text_given[prefix] = None

    def readlines(self, hint=-1):
        if hint is not None and hint > 0:
            hint = max(1, int(hint * self._sim.hint_scale))
        first_pass = self._prefix == "source" and self._sim.text_given[self._prefix] is None
        if not first_pass:
            # the caller has taken over what it got so far
            self._sim.text_given[self._prefix] = self._got
            self._sim.text_calls += 1
            if self._sim.text_calls == self._sim.text_stuck_at:
                self._sim.count_fault("stuck-read")
                self._sim.text_is_stuck = True
                self._sim.sleep(1500)
        ls = self._f.readlines(hint)
        self._got += len(ls)
        return ls

    def seek(self, *args):
        self._sim.text_given[self._prefix] = self._got = 0
        return self._f.seek(*args)

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, item):
        return getattr(self._f, item)


def vocab(params, key):
    v = {w: i for i, w in enumerate(["<S>"] + ["%s%i" % (key[0], i) for i in range(6)])}
    v["</S>"] = 0
    v[UNK] = len(v) - 1
    return v


def prefix_keys(params, prefix):
    main = {"source": "data", "target": "classes"}[prefix]
    return [main] + (FACTORS[prefix] if params["factors"] else [])


def line_text(params, prefix, words):
    """:param list[list[int]] words: for each word, the word index of each factor"""
    keys = prefix_keys(params, prefix)
    return params["sep"].join("|".join(word(k, i) for k, i in zip(keys, w)) for w in words)


def word(key, i):
    return "%s%i" % (key[0], i) if i >= 0 else "oov%i" % -i


def exp_line(params, prefix, words):
    """:return: key -> ids"""
    import numpy

    out = {}
    for j, k in enumerate(prefix_keys(params, prefix)):
        v = vocab(params, k)
        ids = [v.get(word(k, w[j]), v[UNK]) for w in words]
        if params["postfix"][prefix]:
            ids.append(v[params["postfix"][prefix].strip()])
        out[k] = numpy.array(ids, dtype="int32")
    return out


class S(Scenario):
    id = "C20"
    quick_runs = 20000
    thorough_runs = 300000
    quick_time = 120
    real_components = [
        "returnn.datasets.lm.TranslationDataset, TranslationFactorsDataset (reader thread and requests)",
        "returnn.datasets.cached2, returnn.datasets.basic (sequence order)",
        "gzip, io",
    ]
    stub_components = ["thread scheduling, time, interrupts", "the file system (simulated, with delays, short reads, errors)", "the size of a read chunk (scaled down, as the corpora are small)"]
    assumptions = ["the files do not change while they are read"]

    def prepare(self):
        prepare_text()

    def generate(self, rng, tier):
        n = rng.choice([1, 2, 3, 5, 8, 13, 20])
        p = dict(factors=rng.random() < 0.3)
        p["sep"] = rng.choice([" ", " ", "  ", "\t"])
        p["eol"] = rng.choice(["\n", "\n", "\n", "\r\n"])
        p["last_eol"] = rng.random() < 0.8
        p["gz"] = [pre for pre in ("source", "target") if rng.random() < 0.3]
        p["postfix"] = {pre: rng.choice(["", "", " </S>"]) for pre in ("source", "target")}
        p["unk"] = rng.random() < 0.4
        p["what"] = rng.choice(["both", "both", "both", "source_only", "no_ref"])
        p["lines"] = [
            {pre: [[self.word(rng, p["unk"]) for _ in range(len(prefix_keys(p, pre)))] for _ in range(rng.choice([0, 1, 2, 3, 5]))] for pre in ("source", "target")}
            for _ in range(n)
        ]
        if not p["last_eol"]:
            for pre in ("source", "target"):
                if not p["lines"][-1][pre]:
                    p["last_eol"] = True
        p["hint"] = rng.choice([1e-6, 1e-5, 5e-5, 1e-3])
        p["partition"] = rng.choice([1, 1, 1, 2, 3])
        if p["partition"] > n:
            p["partition"] = 1
        p["ordering"] = rng.choice(ORDERINGS)
        p["latency"] = rng.choice([0, 0, 0.3, 5])
        p["chunk_io"] = rng.choice([0, 7, 64])
        if rng.random() < 0.15:
            p["seq_list_file"] = [rng.randrange(n) for _ in range(rng.choice([1, 2, 4]))]
        cur = rng.choice([1, 1, 1, 3])
        ep = []
        for _ in range(rng.choice([1, 2, 3])):
            e = gen_read(rng)
            e["epoch"] = cur
            e["ask"] = False
            r = rng.random()
            if r < 0.2:
                e["seq_list"] = [rng.randrange(n) for _ in range(rng.choice([1, 2, 4]))]
            elif r < 0.4:
                e["seq_order"] = [rng.randrange(n) for _ in range(rng.choice([1, 2, 4]))]
            e["tags"] = rng.random() < 0.25
            e["est"] = rng.random() < 0.25
            cur = rng.choice([cur + 1, cur + 1, cur, cur + 2, max(1, cur - 1)])
            ep.append(e)
        p["epochs"] = ep
        p["fault"] = rng.choice([None, None, None, "oov", "utf8", "less", "more", "gz", "gz_crc", "eio", "range"])
        if p["fault"] in ("gz", "gz_crc") and not p["gz"]:
            p["gz"] = ["source"]
        if p["fault"]:
            p["fault_at"] = rng.randrange(n)
            p["fault_pre"] = rng.choice(["source", "target"])
            if p["fault"] in ("less", "more"):
                p["fault_pre"] = "target"
            if p["fault"] in ("gz", "gz_crc"):
                p["fault_pre"] = rng.choice(p["gz"])
            if p["what"] != "both" and p["fault_pre"] == "target":
                p["what"] = "both"
            if p["fault"] == "oov":
                p["unk"] = False
                for l in p["lines"]:
                    for w in l.values():
                        w[:] = [[abs(x) for x in y] for y in w]
            if p["fault"] == "range":
                e = rng.choice(ep)
                e.pop("seq_list", None)
                e["seq_order"] = [rng.choice([n, n, n + 1])]
                e["stop"], e["mode"], e["est"] = None, "one", False
        p["sim"] = dict(max_events=200000, max_time=1e5, **swarm_sched(rng, lines=True))
        if rng.random() < 0.3:
            p["sim"]["p_stall"] = rng.choice([0.01, 0.05])
            p["sim"]["stall_max"] = rng.choice([0.1, 20])
        f = {}
        if p["fault"] == "eio":
            f["eio"] = rng.choice([0.02, 0.1, 0.5])
            p["sim"]["max_faults"] = 1
        elif rng.random() < 0.3:
            f["short_read"] = rng.choice([0.1, 0.5])
            p["sim"]["max_faults"] = 20
        p["sim"]["faults"] = f
        p["stuck"] = rng.choice([1, 2, 3, 5, 8]) if not p["fault"] and not f and p["latency"] < 1 and rng.random() < 0.3 else None
        return p

    @staticmethod
    def word(rng, oov):
        return -rng.choice([1, 2]) if oov and rng.random() < 0.2 else rng.randrange(6)

    def shrink(self, params):
        for t in shrink_list(params["epochs"]):
            if t and not (params["fault"] == "range" and not any(max(e.get("seq_order") or [0]) >= len(params["lines"]) for e in t)):
                yield with_(params, epochs=t)
        if not params["fault"] and not params.get("seq_list_file") and not any(e.get("seq_list") or e.get("seq_order") for e in params["epochs"]):
            for t in shrink_list(params["lines"]):
                if len(t) >= params["partition"]:
                    yield with_(params, lines=t)
        if params["last_eol"]:
            for i, l in enumerate(params["lines"]):
                for pre in l:
                    if len(l[pre]) > 1:
                        yield with_(params, lines=params["lines"][:i] + [with_(l, **{pre: l[pre][:1]})] + params["lines"][i + 1 :])
        for k, v in [("sep", " "), ("eol", "\n"), ("last_eol", True), ("partition", 1), ("ordering", "default"), ("latency", 0), ("chunk_io", 0), ("hint", 1e-3), ("seq_list_file", None)]:
            if params.get(k) != v:
                yield with_(params, **{k: v})
        for i, e in enumerate(params["epochs"]):
            for k, v in [("finish", None), ("mode", "one"), ("stop", None), ("tags", False), ("est", False)]:
                if e.get(k) != v:
                    yield with_(params, epochs=params["epochs"][:i] + [with_(e, **{k: v})] + params["epochs"][i + 1 :])

    # ------------------------------------------------------------------

    def put_files(self, params, v):
        d = "/simfs/data/c"
        v.god_makedirs(d)
        n = len(params["lines"])
        for pre in ("source", "target"):
            bad = params["fault"] if params["fault"] and params["fault_pre"] == pre else None
            at = params.get("fault_at", 0)
            ls = [line_text(params, pre, l[pre]).encode("utf8") for l in params["lines"]]
            if bad == "oov":
                ls[at] = (ls[at] + b" " + "|".join(["nope"] * len(prefix_keys(params, pre))).encode()).strip()
            elif bad == "utf8":
                ls[at] = ls[at] + b" \xff\xfe"
            elif bad == "less":
                del ls[at]
            elif bad == "more":
                ls.insert(at, ls[at])
            eol = params["eol"].encode()
            data = eol.join(ls)
            if ls and (params["last_eol"] or not ls[-1]):
                data += eol
            name = "%s/%s.train" % (d, pre)
            if pre in params["gz"]:
                b = io.BytesIO()
                with gzip.GzipFile(fileobj=b, mode="wb", mtime=0) as f:
                    f.write(data)
                data = b.getvalue()
                if bad == "gz":
                    data = data[: max(1, len(data) * (at + 1) // (n + 1))]
                elif bad == "gz_crc":
                    data = data[:-8] + bytes([data[-8] ^ 1]) + data[-7:]
                name += ".gz"
            v.put(name, data)
            for i, k in enumerate(prefix_keys(params, pre)):
                v.put("%s/%s.vocab.pkl" % (d, pre if i == 0 else k), pickle.dumps(vocab(params, k)))
        if params.get("seq_list_file"):
            v.put(d + "/seqs", "".join("%i\n" % i for i in params["seq_list_file"]).encode())
        return d

    def make(self, params, d):
        kw = dict(
            path=d,
            name="corpus",
            file_postfix="train",
            source_postfix=params["postfix"]["source"],
            target_postfix=params["postfix"]["target"],
            source_only=params["what"] == "source_only",
            search_without_reference=params["what"] == "no_ref",
            unknown_label=UNK if params["unk"] else None,
            seq_list_file=d + "/seqs" if params.get("seq_list_file") else None,
            seq_ordering=params["ordering"],
            partition_epoch=params["partition"],
        )
        if params["factors"]:
            kw.update(source_factors=FACTORS["source"], target_factors=FACTORS["target"])
        ds = _mods["Fact" if params["factors"] else "Trans"](**kw)
        ds.initialize()
        return ds

    def keys(self, params):
        return [k for pre in (("source", "target") if params["what"] == "both" else ("source",)) for k in prefix_keys(params, pre)]

    def expected(self, params, e):
        n = len(params["lines"])
        if e.get("seq_order"):
            order = e["seq_order"]
        elif e.get("seq_list"):
            order = e["seq_list"]
        elif params.get("seq_list_file"):
            order = params["seq_list_file"]
        else:
            ds = _mods["Dataset"](seq_ordering=params["ordering"], partition_epoch=params["partition"])
            lens = [len(exp_line(params, "source", l["source"])["data"]) for l in params["lines"]]
            order = ds.get_seq_order_for_epoch(epoch=e["epoch"], num_seqs=n, get_seq_len=lens.__getitem__)
        keys = self.keys(params)
        out = []
        for i in order:
            if i >= n:
                continue
            r = {}
            for pre in ("source", "target"):
                r.update(exp_line(params, pre, params["lines"][i][pre]))
            out.append(("line-%i" % i,) + tuple((k, "int32", r[k].shape, r[k].tobytes()) for k in sorted(keys)))
        return out

    def lines_given(self, params, sim):
        """:return: the lines which have been read completely"""
        return range(min(sim.text_given.get(pre) or 0 for pre in (("source", "target") if params["what"] == "both" else ("source",))))

    def execute(self, params, chooser, log=False):
        res = RunResult()
        sim = new_mp_sim(params, chooser, log, lines=("returnn/datasets/lm.py", "returnn/datasets/cached2.py"))
        sim.globals_handlers.extend(_h)
        sim.hint_scale = params["hint"]
        sim.text_given = {}
        sim.text_calls = 0
        sim.text_stuck_at = params.get("stuck")
        sim.text_is_stuck = False
        v = sim.vfs
        v.add_mount("data")
        d = self.put_files(params, v)
        v.chunk_io = params["chunk_io"]
        if params["latency"]:
            v.latency = lambda op, path, nbytes: params["latency"] if op == "read" and ".train" in path else 0
        v.fault_filter = lambda op, path, proc: ".train" in path
        out = []
        st = dict(phase="run", err=None, interrupted=False)
        n = len(params["lines"])
        eio = []

        def main():
            try:
                ds = self.make(params, d)
                ds.get_data_keys = lambda: self.keys(params)
                reader = Reader(sim)
                if params.get("stuck"):
                    for _ in range(50):
                        sim.sleep(5)
                        if sim.text_is_stuck:
                            break
                    else:
                        sim.text_stuck_at = None
                    k = min(len(self.lines_given(params, sim)), n)
                    if sim.text_is_stuck and k:
                        # these lines have been read, so a request does not wait for the rest
                        e = dict(seq_order=list(range(k)), epoch=1, mode="one", k=1, stop=None, tags=False, est=False)
                        o = dict(seen=[], ended=None, e=e, tags=None, num=None, est=[], t0=sim.now)
                        out.append(o)
                        ds.init_seq_order(epoch=1, seq_order=e["seq_order"])
                        reader.read(ds, e, o["seen"], lambda i, o=o: o.__setitem__("ended", i))
                        o["t1"] = sim.now
                for e in params["epochs"]:
                    o = dict(seen=[], ended=None, e=e, tags=None, num=None, est=[])
                    out.append(o)
                    sl = ["line-%i" % i for i in e["seq_list"]] if e.get("seq_list") else None
                    if e["tags"]:
                        o["tags"] = list(ds.get_all_tags())
                    ds.init_seq_order(epoch=e["epoch"], seq_list=sl, seq_order=e.get("seq_order"))
                    o["num"] = ds.num_seqs
                    if e["est"]:
                        o["est"] = [ds.get_estimated_seq_length(i) for i in range(ds.num_seqs)]
                    reader.read(ds, e, o["seen"], lambda i, o=o: o.__setitem__("ended", i))
                    if e["finish"]:
                        ds.finish_epoch(free_resources=True)
                st["phase"] = "read"
                sim.sleep(3000)  # an error of the reader must have arrived then
                st["phase"] = "end"
            except core.SimKilled:
                raise
            except KeyboardInterrupt:
                st["interrupted"] = True
                raise
            except Exception as exc:
                st["err"] = exc
                st["err_text"] = describe_exc(exc)
                exc = None
                raise

        p = spawn_reader(sim, main, "r")
        run_sim(sim)
        texc = p.data.get("excepthook")
        p.exc = None
        err = st["err"]
        fault = params["fault"]
        if fault == "eio" and not sim.fault_counts.get("eio"):
            fault = None
        ended_bad = st["interrupted"] or err is not None
        if sim.outcome != "ok":
            res.violate("hang", "%s in phase %s, fault %s (error in reader: %r): %s" % (sim.outcome, st["phase"], fault, texc, sim.outcome_info))
        elif fault and not ended_bad:
            res.violate("no-error", "nothing reported for fault %s at %r" % (fault, (params["fault_pre"], params["fault_at"])))
        elif not fault and err is not None:
            res.violate("error:%s" % type(err).__name__, "got an exception: %s" % st["err_text"])
        elif not fault and st["interrupted"]:
            res.violate("interrupted", "the main thread was interrupted, error in reader: %r" % (texc,))
        else:
            for o in out:
                e = o["e"]
                what = "epoch %i" % e["epoch"]
                exp = self.expected(params, e)
                if "t0" in o and o.get("t1", sim.now) - o["t0"] > 500 + 21 * len(exp):
                    res.violate("waits", "request for %i lines which have been read took %.0f s" % (len(exp), o.get("t1", sim.now) - o["t0"]))
                    break
                if o["tags"] is not None and o["tags"] != ["line-%i" % i for i in range(n)] and params["fault"] not in ("less", "more"):
                    res.violate("tags", "%s: get_all_tags gave %r, the corpus has %i lines" % (what, o["tags"], n))
                    break
                if o["num"] is not None and o["num"] != len(exp) and fault != "range":
                    res.violate("num", "%s: num_seqs is %r, expected %i" % (what, o["num"], len(exp)))
                    break
                if o["est"] and fault != "range":
                    lens = [dict((x[0], x[2]) for x in s[1:])["data"][0] for s in exp]
                    if list(o["est"]) != lens:
                        res.violate("est", "%s: estimated lens %r, expected %r" % (what, o["est"], lens))
                        break
                if fault in ("less", "more"):
                    # the lines after the additional/missing one do not correspond
                    at = params["fault_at"]
                    o["seen"] = [(i, s) for i, s in o["seen"] if int(s[0].split("-")[1]) < at]
                if not check_seen(res, what, o["seen"], o["ended"], exp, e["stop"]):
                    break
        st["err"] = err = None
        cnt = dict(epochs=len(out), seqs=sum(len(o["seen"]) for o in out))
        if st["interrupted"]:
            cnt["interrupted"] = 1
        if params["fault"] and params["fault"] != "eio":
            sim.count_fault("malformed:" + params["fault"])
        self.collect(sim, res, dict(count=cnt, case="%s/%s" % ("factors" if params["factors"] else "plain", params["what"])))
        return res


SCENARIO = S()
