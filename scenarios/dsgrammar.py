"""
A grammar of dataset configurations (C19): JSON specs, which can be turned into dataset dicts,
and for which a small model knows (independent of RETURNN) which seqs with which data there are.
"""

from __future__ import annotations
import json
import os
import tempfile
import zlib
import numpy

SCR = None  # scratch directory with corpus files

LM_LINES = ["a b c", "b", "d a", "c c c a", "e d c b a", "b a", "a a a a a a", "d", "c e"]
SYMS = ["[END]", "[UNKNOWN]", "[START]", "a", "b", "c", "d", "e"]
TEXTS = ["hello", "he llo", "hel", "lo he", "hello hello", "h e l", "ell ohe", "oo", "lehol"]
BPE = ["[END]", "[UNK]", "h", "e", "l", "o", "h@@", "e@@", "l@@", "o@@", "he@@", "ll@@", "hel@@", "lo", "hello", "he", "hel", "ell@@"]
SIAM_FILES = [("sa", 0, 4), ("sb", 4, 5)]
HDF_FILES = [("ha", 0, 5), ("hb", 5, 7)]
CONCAT = ["s0;s1", "s2", "s3;s4;s5", "s6", "s7;s8", "s9;s10"]


def content2(tag, n, salt=0):
    """:return: data of this seq"""
    r = numpy.random.RandomState(zlib.crc32(("%s/%s" % (tag, salt)).encode()) % (2**31))
    return {
        "data": r.randint(0, 1000, (n, 2)).astype("float32"),
        "classes": r.randint(0, 10, (max(1, n // 2),)).astype("int32"),
    }


def seq_len(tag, salt=0):
    return 1 + zlib.crc32(("%s+%s" % (tag, salt)).encode()) % 7


def make_files():
    """corpus files. the same in every process. removed by c19peer"""
    global SCR
    if SCR is not None:
        return
    import h5py
    import zipfile

    SCR = tempfile.mkdtemp(prefix="verif_c19_", dir=os.environ.get("VERIF_SCRATCH") or None)
    for name, start, n in HDF_FILES:
        with h5py.File("%s/%s.hdf" % (SCR, name), "w") as f:
            tags = ["h%i" % i for i in range(start, start + n)]
            cs = [content2(t, seq_len(t)) for t in tags]
            f.attrs["numTimesteps"] = sum(len(c["data"]) for c in cs)
            f.attrs["inputPattSize"] = 2
            f.attrs["numDims"] = 1
            f.attrs["numLabels"] = 10
            f.attrs["numSeqs"] = n
            f.create_dataset("seqTags", data=numpy.array([t.encode() for t in tags], dtype="S10"))
            f.create_dataset("seqLengths", data=numpy.array([[len(c["data"]), len(c["classes"])] for c in cs], dtype="int32"))
            f.create_dataset("inputs", data=numpy.concatenate([c["data"] for c in cs]))
            g = f.create_group("targets")
            g.create_group("data").create_dataset("classes", data=numpy.concatenate([c["classes"] for c in cs]))
            g.create_group("labels").create_dataset("classes", data=numpy.array([str(i).encode() for i in range(10)], dtype="S5"))
            g.create_group("size").attrs["classes"] = numpy.array([10, 1])

    for name, start, n in SIAM_FILES:
        with h5py.File("%s/%s.hdf" % (SCR, name), "w") as f:
            tags = ["w%i" % i for i in range(start, start + n)]
            f.create_dataset("seq_names", data=numpy.array([t.encode() for t in tags], dtype="S10"))
            st = f.create_group("streams")
            g = st.create_group("features")
            g.attrs["parser"] = "feature_sequence"
            for t in tags:
                g.create_dataset("data/" + t, data=content2(t, seq_len(t))["data"])
            g = st.create_group("classes")
            g.attrs["parser"] = "sparse"
            g.create_dataset("feature_names", data=numpy.array([b"x", b"y", b"z"], dtype="S3"))
            for t in tags:
                g.create_dataset("data/" + t, data=numpy.array([int(t[1:]) % 3], dtype="int32"))

    for sub in ("train-clean-100", "dev-clean"):
        with zipfile.ZipFile("%s/%s.zip" % (SCR, sub), "w") as z:
            for ch in (1, 2):
                rows = [(i, x) for i, x in enumerate(TEXTS) if i % 2 == ch - 1]
                z.writestr("LibriSpeech/%s/7/%i/7-%i.trans.txt" % (sub, ch, ch), "".join("7-%i-%04i %s\n" % (ch, i, x) for i, x in rows))

    def put(name, txt):
        os.makedirs(os.path.dirname("%s/%s" % (SCR, name)), exist_ok=True)
        with open("%s/%s" % (SCR, name), "w") as f_:
            f_.write(txt)

    put("lm.txt", "".join(x + "\n" for x in LM_LINES))
    put("lm_unk.txt", "".join(x.replace("e", "zz" if i % 2 else "xx") + "\n" for i, x in enumerate(LM_LINES)))
    put("syms.txt", "".join(x + "\n" for x in SYMS))
    put("bpe.vocab", repr({x: i for i, x in enumerate(BPE)}) + "\n")
    put("lmbpe.txt", "".join(x + "\n" for x in TEXTS))
    put("dict1.txt", repr({"t%i" % i: x for i, x in enumerate(TEXTS)}))
    put("dictn.txt", repr({"t%i" % i: [(-0.5, x), (-0.25 - (i % 2), TEXTS[i - 1])] for i, x in enumerate(TEXTS)}))
    lex = "<?xml version='1.0'?>\n<lexicon><phoneme-inventory>"
    for ph in ["si", "A", "B", "C", "D", "E"]:
        lex += "<phoneme><symbol>%s</symbol><variation>%s</variation></phoneme>" % (ph, "none" if ph == "si" else "context")
    lex += "</phoneme-inventory>\n<lemma><orth>[SILENCE]</orth><phon score='0.0'>si</phon></lemma>"
    for w in "abcde":
        lex += "<lemma><orth>%s</orth><phon score='0.0'>%s</phon><phon score='0.5'>%s A</phon></lemma>\n" % (w, w.upper(), w.upper())
    put("lex.xml", lex + "</lexicon>\n")
    with zipfile.ZipFile(SCR + "/ogg.zip", "w") as z:
        z.writestr(
            "ogg.txt",
            repr([{"text": x, "duration": 0.1 * seq_len("o%i" % i), "file": "o%i.ogg" % i, "seq_name": "o%i" % i} for i, x in enumerate(TEXTS)]),
        )
    for fam in ["s", "seq-", "h", "line-", "o", "t", "w", "l"]:
        tags = [fam + str(i) for i in range(40)] if fam != "l" else tags_of(dict(k="libri"))
        put("lens_%s.txt" % fam, repr({t: seq_len(t, "lens") for t in tags}))
        put("filter_%s.txt" % fam, "".join(t + "\n" for t in tags if _in_filter(t)))
    put("concat_list.txt", "".join(x + "\n" for x in CONCAT))
    put("concat_lens.txt", repr({"s%i" % i: seq_len("s%i" % i) for i in range(11)}))


def _in_filter(tag):
    return zlib.crc32(tag.encode()) % 3 != 0


# -- leaves

LEN_ORD = ["sorted", "sorted_reverse", "laplace", "laplace:.3", "laplace:3", "sort_bin_shuffle:.2", "sort_bin_shuffle_x2:3", "laplace:.3:2", "sort_bin_shuffle_x2:.2:3"]
PLAIN_ORD = ["default", "default", "random", "random", "random:2", "reverse"]

GEN = ["Task12AXDataset", "TaskEpisodicCopyDataset", "DummyDataset", "CopyTaskDataset", "DummyGenericDataset", "DummyGenericDataset"]
GEN += ["DummyDatasetMultipleSequenceLength", "DummyDatasetMultipleDataKeys", "TaskXmlModelingDataset", "TaskNumberBaseConvertDataset", "TaskVariableAssignmentDataset"]

FAMILY = dict(sim="s", static="seq-", map="seq-", gen="seq-", hdf="h", lm="line-", ogg="o", td="t", siam="w", libri="l")
#  capabilities
CAPS = dict(
    sim="list order cur corpus shard skip est lens tags",
    static="list order corpus skip lens tags",
    map="list order cur corpus skip lens tags",
    gen="list order cur corpus shard skip tags",
    hdf="list order cur corpus shard skip est lens tags",
    lm="list order cur shard lens tags",
    ogg="list order cur corpus shard lens tags",
    td="order cur corpus shard lens tags",
    siam="list order lens tags",
    libri="list order cur corpus shard lens tags",
)


def gen_leaf(rng, kinds=None, family=None, n=None, keep_epoch_order=False, part=True, plain=False):
    """:return: spec"""
    kinds = kinds or ["sim", "sim", "static", "map", "gen", "hdf", "lm", "ogg", "td", "siam", "libri"]
    if family:
        kinds = [k for k in kinds if FAMILY[k] == family or k == "sim"]
    k = rng.choice(kinds)
    s = dict(k=k, fam=family or FAMILY[k])
    if k in ("sim", "static", "map", "gen"):
        s["n"] = n or rng.choice([4, 5, 7, 9, 11])
    elif k == "hdf":
        s["files"] = rng.choice([["ha"], ["hb"], ["ha", "hb"], ["hb", "ha"]]) if n is None else {5: ["ha"], 12: ["ha", "hb"]}[n]
        s["n"] = sum(x[2] for x in HDF_FILES if x[0] in s["files"])
    else:
        s["n"] = 9
    if k in ("lm",):
        s["lm"] = rng.choice(["word", "unk", "phone", "bpe", "bpe"])
    if k in ("ogg", "td", "libri"):
        s["breadth"] = rng.choice([0.0, 0.5, 1.0])
        s["fmt"] = rng.choice(["single", "list_with_scores"])
    if k == "gen":
        s["gen"] = rng.choice(GEN)
    if k == "sim" or plain:
        s["salt"] = rng.choice([0, 1])
    s["ord"] = rng.choice(PLAIN_ORD + (LEN_ORD if "lens" in CAPS[k].split() else []))
    if k == "gen" and s["ord"] in LEN_ORD:
        s["ord"] = "default"
    if keep_epoch_order and "random" in s["ord"] or keep_epoch_order and ("laplace" in s["ord"] or "shuffle" in s["ord"]):
        s["ord"] = rng.choice(["default", "reverse"])
    if part and not keep_epoch_order:
        x = rng.random()
        if x < 0.4:
            s["part"] = rng.choice([2, 2, 3, 4])
        elif x < 0.5:
            s["rep"] = 2
    if rng.random() < 0.1:
        s["seed_off"] = 17
    if rng.random() < 0.05:
        s["fixed_seed"] = 3
    if rng.random() < 0.1 and "lens" in CAPS[k].split() and k not in ("td", "siam"):
        s["lensfile"] = True
    if rng.random() < 0.1 and not s.get("part") and not keep_epoch_order and k != "siam":
        s["filter"] = True
    if k == "sim" and not s.get("part") and rng.random() < 0.1:
        s["callord"] = True
    if k in ("sim", "hdf", "ogg", "libri") and rng.random() < 0.05:
        s["unique"] = True
    if s["n"] % 3 == 0 and s["ord"] == "default" and rng.random() < 0.2:
        s["ord"] = "default_every_n:3"
    if k in ("ogg", "libri") and not family and not s.get("filter") and not s.get("lensfile") and rng.random() < 0.15:
        s["subset"] = rng.choice([0.5, 5])
    return s


def caps(s):
    """:return: set of capabilities"""
    k = s["k"]
    if k in CAPS:
        c = set(CAPS[k].split())
        if k == "lm" or s.get("breadth"):
            c.discard("skip")
        if k == "td" and not s.get("breadth"):
            c.add("skip")
        if s.get("unknown"):
            c -= {"cur", "corpus"}
        if s.get("subset"):
            c -= {"list", "order"}
        return c
    if k == "meta":
        c = {"list", "order", "cur", "shard", "tags"}
        if all("skip" in caps(x) for x in s["sub"].values()):
            c.add("skip")
        if any("shard" not in caps(x) for x in s["sub"].values()):
            c.discard("shard")
        return c
    if k == "pp":
        c = set()
        if s["fn"] in ("const", "noise"):
            c |= caps(s["sub"]) & {"list", "order", "cur"}
        c |= caps(s["sub"]) & {"shard"}
        return c
    if k == "var":
        return set.intersection(*[caps(x) for x in s["subs"]]) & {"list", "order", "cur", "skip"}
    if k == "multi":
        return caps(s["sub"]) & {"tags"}
    if k == "cseq":
        return {"corpus"}
    if k in ("concat", "comb"):
        return set()
    raise ValueError(k)


def known_num(s):
    """number of seqs known in advance"""
    k = s["k"]
    if k in CAPS:
        return not s.get("unknown")
    return k in ("meta", "cseq")


def gen_meta(rng):
    fam = rng.choice(["s", "s", "seq-", "seq-", "h", "line-", "o"])
    n = {"s": None, "seq-": None, "h": rng.choice([5, 12]), "line-": 9, "o": 9}[fam] or rng.choice([4, 5, 7, 9, 11])
    s = dict(k="meta", fam=fam, n=n)
    ctl = rng.choice([None, "a", "b"])
    s["ctl"] = ctl
    s["sub"] = {}
    for key in "ab":
        for _ in range(100):
            leaf = gen_leaf(rng, family=fam, n=n, part=(ctl == key))
            if leaf["k"] == "sim":
                leaf["n"] = n
            if leaf.get("filter") and (ctl != key):
                leaf.pop("filter")
            c = caps(leaf)
            if key == ctl and "cur" not in c:
                continue
            if "list" not in c:
                continue
            break
        else:
            raise AssertionError
        s["sub"][key] = leaf
    if ctl is None:
        s["ord"] = rng.choice(PLAIN_ORD)
        if s["sub"]["a"]["k"] in ("sim", "static", "hdf") and rng.random() < 0.3:
            s["ord"] = rng.choice(LEN_ORD)
        if rng.random() < 0.5:
            s["part"] = rng.choice([2, 3])
    if rng.random() < 0.2:
        s["seed_off"] = 5
    if rng.random() < 0.3:
        # the seqs have other names in the other dataset
        base = ctl or "a"
        other = "b" if base == "a" else "a"
        x = gen_leaf(rng, ["sim"], n=n + rng.choice([0, 0, 2]), part=False)
        x.pop("filter", None)
        s["sub"][other] = x
        ta, tb = list(tags_of(s["sub"][base])), list(tags_of(x))
        rng.shuffle(tb)
        if not ctl:
            rng.shuffle(ta)
        s["lists"] = {base: ta, other: tb[: len(ta)]}
        s["lists_form"] = rng.choice(["pkl", "pkl.gz", "txt"])
    return s


def gen_comb(rng):
    s = dict(k="comb")
    unknown = rng.random() < 0.35
    s["sub"] = {}
    s["sampling"] = None
    if not unknown and rng.random() < 0.2:
        s["sampling"] = rng.choice([3, 4, {"a": 2, "b": 5}])
    s["ord"] = rng.choice(["default", "reversed" if unknown else "reverse", "random_dataset", "random_dataset"] + ([] if unknown else ["random", "sorted", "laplace:.3"]))
    if s["sampling"] and s["ord"] == "random_dataset":
        s["ord"] = "random"
    needs_len = s["ord"] in LEN_ORD
    part = None if unknown or s["sampling"] or rng.random() < 0.5 else rng.choice([2, 3])
    if part:
        s["part"] = part
    kinds = ["sim", "hdf"] if needs_len else ["map", "hdf"] if s["sampling"] else ["sim", "static", "map", "hdf", "gen"]
    s["same"] = rng.random() < 0.6
    for key in "ab":
        if unknown:
            leaf = gen_leaf(rng, ["sim"], part=False)
            if rng.random() < 0.8:
                leaf["unknown"] = True
            leaf.pop("filter", None)
            if rng.random() < 0.5:
                leaf["est"] = rng.choice([1, 3, 20])
        else:
            leaf = gen_leaf(rng, kinds, part=not part)
            if leaf.get("gen") not in (None, "Task12AXDataset", "TaskEpisodicCopyDataset"):  # their data is not of the dtype which they tell
                leaf["gen"] = "Task12AXDataset"
            leaf.pop("filter", None)
            leaf.pop("rep", None)
            if s["sampling"]:
                leaf.pop("part", None)
        s["sub"][key] = leaf
    if unknown and not any(x.get("unknown") for x in s["sub"].values()):
        s["sub"]["a"]["unknown"] = True
    if s["sub"]["a"]["k"] == "gen" or s["sub"]["b"]["k"] == "gen":
        s["same"] = False
    return s


def gen_spec(rng, depth=2):
    """:return: spec"""
    if depth == 0:
        return gen_leaf(rng)
    if depth == 1:
        k = rng.choice(["leaf", "meta", "meta", "comb", "comb", "concat", "cseq"])
        if k == "leaf":
            s = gen_leaf(rng)
            if s["k"] == "sim" and rng.random() < 0.3 and not s.get("filter"):
                s["unknown"] = True
            return s
        if k == "meta":
            return gen_meta(rng)
        if k == "comb":
            return gen_comb(rng)
        if k == "concat":
            kind = rng.choice(["sim", "sim", "static", "map", "hdf"])
            subs = []
            part = rng.choice([None, None, 2, 3])
            for i in range(rng.choice([2, 2, 3])):
                x = gen_leaf(rng, [kind], part=False)
                x.pop("filter", None)
                if part:
                    x["part"] = part
                    x.pop("callord", None)
                if kind == "sim" and rng.random() < 0.2:
                    x["unknown"] = True
                subs.append(x)
            return dict(k="concat", subs=subs)
        if k == "cseq":
            x = gen_leaf(rng, ["sim"], n=11, part=False)
            x["salt"] = 0
            x.pop("filter", None)
            s = dict(k="cseq", sub=x, ord=rng.choice(PLAIN_ORD + LEN_ORD))
            if rng.random() < 0.4:
                s["part"] = rng.choice([2, 3])
            if rng.random() < 0.3:
                s["repeat_in_between"] = rng.choice([2, 3])
            if not s.get("part") and rng.random() < 0.3:
                s["epfilter"] = rng.choice([[1, 1, 6], [1, 3, 5], [2, 2, 6], [3, None, 7]])
            return s
    k = rng.choice(["pp", "pp", "pp", "var", "multi", "multi"])
    for _ in range(100):
        x = gen_spec(rng, rng.choice([0, 0, 1, 1]))
        if k == "pp":
            if not {"data", "classes"} <= set(keys(x)) or x["k"] == "gen" or x["k"] == "comb" and not x["same"]:
                continue
            s = dict(k="pp", sub=x, fn=rng.choice(["const", "noise", "noise", "drop", "dup", "laplace", "shift+laplace"]))
            if x["k"] in ("concat", "cseq", "comb"):
                continue  # does not know its data keys before the first epoch
            if x["k"] == "meta" and "gen" in [y["k"] for y in x["sub"].values()]:
                continue
            if "laplace" in s["fn"] and not known_num(x):  # needs complete_frac
                continue
            s["bin"] = rng.choice([1, 2, 3, 50])
            if rng.random() < 0.3:
                s["seed_off"] = 7
            return s
        if k == "var":
            y = gen_spec(rng, rng.choice([0, 1]))
            if set(keys(x)) != set(keys(y)):
                continue
            if "static" in json.dumps([x, y]):  # arrays in the dataset dict are not supported
                continue
            return dict(k="var", subs=[x, y][: rng.choice([1, 2, 2])], lru=rng.choice([1, 1, 2]), period=rng.choice([1, 2]))
        if k == "multi":
            if x.get("filter"):
                continue
            p = parts(x)
            return dict(k="multi", sub=x, multi=p if p and p > 1 and rng.random() < 0.7 else rng.choice([1, 2, 3]))
    raise AssertionError(k)


def keys(s):
    """:return: data keys"""
    k = s["k"]
    if k in ("sim", "static", "map", "gen", "hdf", "meta", "cseq"):
        return ["data", "classes"]
    if k == "lm":
        return ["data"]
    if k == "ogg":
        return ["classes", "orth", "raw"]
    if k == "siam":
        return ["classes_0", "classes_1", "classes_2", "features_0", "features_1", "features_2", "classes_all"]
    if k == "libri":
        return ["classes", "raw"]
    if k == "td":
        return ["data"] + (["data_flat", "data_seq_lens", "scores"] if s["fmt"] != "single" else [])
    if k == "comb":
        return ["data", "classes"] + ([] if s["same"] else ["data2"])
    if k in ("pp", "multi"):
        return keys(s["sub"])
    if k in ("concat", "var"):
        return keys(s["subs"][0])
    raise ValueError(k)


def tags_of(s):
    """all tags of a leaf / meta / concat-seqs, in corpus order"""
    k = s["k"]
    if k in ("concat", "comb", "pp", "var", "multi"):
        return None
    if k == "cseq":
        return list(CONCAT)
    if k == "hdf":
        return ["h%i" % i for f in s["files"] for (name, st, n) in HDF_FILES if name == f for i in range(st, st + n)]
    if s.get("lists"):
        return s["lists"][s["ctl"] or "a"]
    if k == "libri":
        return ["dev-clean-7-%i-%04i" % (ch, i) for ch in (1, 2) for i in range(len(TEXTS)) if i % 2 == ch - 1]
    return [s["fam"] + str(i) for i in range(s["n"])]


# -- build


class CallOrd:
    """seq_ordering as function"""

    def __init__(self, o):
        self.o = o

    def __call__(self, *, epoch, **_kw):
        return self.o if epoch % 2 else "reverse"


class GetDataset:
    """user function of VariableDataset"""

    def __init__(self, subs, period):
        self.subs = subs
        self.period = period

    def __call__(_self, *, epoch, **_kw):
        s = _self.subs[((epoch - 1) // _self.period) % len(_self.subs)]
        return build(s)


def map_const(td, **_kw):
    """map_seq"""
    td.data["data"].raw_tensor = td.data["data"].raw_tensor + 1
    return td


def map_noise(td, *, rng, epoch, seq_idx, **_kw):
    """map_seq with noise"""
    x = td.data["data"].raw_tensor
    td.data["data"].raw_tensor = (x + rng.randint(0, 50, x.shape)).astype(x.dtype)
    return td


def stream_drop(it, *, rng, **_kw):
    """drops some, but not all"""
    first = True
    for td in it:
        if first or rng.rand() < 0.7:
            first = False
            yield td


def stream_dup(it, *, rng, **_kw):
    """some twice"""
    for td in it:
        yield td
        if rng.rand() < 0.5:
            yield td


def stream_shift(it, *, rng, **_kw):
    """adds noise"""
    for td in it:
        x = td.data["data"].raw_tensor
        td.data["data"].raw_tensor = (x + rng.randint(0, 50)).astype(x.dtype)
        yield td


stream_shift.preserves_num_seqs = True


def build(s, top=None):
    """:return: dataset dict"""
    d = _build(s)
    if s.get("part"):
        d["partition_epoch"] = s["part"]
    if s.get("rep"):
        d["repeat_epoch"] = s["rep"]
    if s.get("seed_off") is not None:
        d["random_seed_offset"] = s["seed_off"]
    if s.get("fixed_seed") is not None:
        d["fixed_random_seed"] = s["fixed_seed"]
    if s.get("ord") is not None:
        d["seq_ordering"] = CallOrd(s["ord"]) if s.get("callord") else s["ord"]
    if s.get("unique"):
        d["unique_seq_tags"] = True
    if s.get("subset"):
        d["fixed_random_subset"] = s["subset"]
    if s.get("lensfile"):
        d["seq_order_seq_lens_file"] = "%s/lens_%s.txt" % (SCR, s["fam"])
    if s.get("filter"):
        d["seq_list_filter_file"] = "%s/filter_%s.txt" % (SCR, s["fam"])
    if top:
        d.update(top)
    return d


def _build(s):
    k = s["k"]
    if k == "sim":
        from .simdata import HistDataset

        d = {"class": HistDataset, "seqs": [(t, seq_len(t)) for t in tags_of(s)], "salt": s.get("salt", 0), "unknown_num": bool(s.get("unknown"))}
        if s.get("est"):
            d["estimated_num_seqs"] = s["est"]
        return d
    if k == "static":
        return {"class": "StaticDataset", "data": [content2(t, seq_len(t)) for t in tags_of(s)]}
    if k == "map":
        from returnn.datasets.map import FromListDataset

        m = FromListDataset(
            [content2(t, seq_len(t)) for t in tags_of(s)],
            sort_data_key="data",
            data_types={"data": {"dim": 2, "shape": (None, 2)}, "classes": {"dim": 10, "sparse": True, "shape": (None,)}},
        )
        return {"class": "MapDatasetWrapper", "map_dataset": m}
    if k == "gen":
        d = {"class": s["gen"], "num_seqs": s["n"]}
        if s["gen"] == "DummyDataset":
            d.update(input_dim=2, output_dim=3, seq_len=3)
        if s["gen"] == "DummyDatasetMultipleSequenceLength":
            d.update(input_dim=2, output_dim=3, seq_len={"data": 3, "classes": 2})
        if s["gen"] == "DummyDatasetMultipleDataKeys":
            d.update(output_dim={"data": [2, 2], "classes": [3, 1]}, seq_len={"data": 3, "classes": 2})
        if s["gen"] == "DummyGenericDataset":
            d.update(data_template={"data": {"dim": 2, "shape": (None, 2)}, "classes": {"dim": 5, "sparse": True, "shape": (None,), "dtype": "int32"}}, seq_lens={"data": (1, 4), "classes": (1, 3)})
        if s["gen"] == "CopyTaskDataset":
            d.update(nsymbols=4, minlen=1, maxlen=5)
        return d
    if k == "hdf":
        return {"class": "HDFDataset", "files": ["%s/%s.hdf" % (SCR, f) for f in s["files"]], "cache_byte_size": 0}
    if k == "lm":
        d = {"class": "LmDataset"}
        if s["lm"] == "phone":
            d.update(corpus_file=SCR + "/lm.txt", phone_info={"lexicon_file": SCR + "/lex.xml", "allo_num_states": 1})
        elif s["lm"] == "bpe":
            d.update(corpus_file=SCR + "/lmbpe.txt", orth_vocab=_bpe(0.7))
        else:
            d.update(corpus_file=SCR + ("/lm_unk.txt" if s["lm"] == "unk" else "/lm.txt"), orth_symbols_file=SCR + "/syms.txt", word_based=True)
            if s["lm"] == "unk":
                d["auto_replace_unknown_symbol"] = True
        return d
    if k == "ogg":
        return {"class": "OggZipDataset", "path": SCR + "/ogg.zip", "audio": None, "targets": _bpe(s["breadth"])}
    if k == "td":
        return {
            "class": "TextDictDataset",
            "filename": SCR + ("/dict1.txt" if s["fmt"] == "single" else "/dictn.txt"),
            "item_format": s["fmt"],
            "vocab": _bpe(s["breadth"]),
        }
    if k == "siam":
        return {"class": "SiameseHDFDataset", "input_stream_name": "features", "seq_label_stream": "classes", "files": ["%s/%s.hdf" % (SCR, f[0]) for f in SIAM_FILES]}
    if k == "libri":
        return {"class": "LibriSpeechCorpus", "path": SCR, "prefix": "dev", "use_zip": True, "audio": None, "targets": _bpe(s["breadth"])}
    if k == "meta":
        subs = {key: build(x) for key, x in s["sub"].items()}
        return {
            **({"seq_list_file": _seq_lists(s)} if s.get("lists") else {}),
            "class": "MetaDataset",
            "datasets": subs,
            "data_map": {"data": ("a", keys(s["sub"]["a"])[0]), "classes": ("b", keys(s["sub"]["b"])[-1 if s["sub"]["b"]["k"] != "ogg" else 0])},
            "seq_order_control_dataset": s["ctl"],
        }
    if k == "comb":
        dm = {("a", "data"): "data", ("a", "classes"): "classes"}
        if s["same"]:
            dm.update({("b", "data"): "data", ("b", "classes"): "classes"})
        else:
            dm.update({("b", "data"): "data2"})
        d = {"class": "CombinedDataset", "datasets": {key: build(x) for key, x in s["sub"].items()}, "data_map": dm}
        if s["sampling"]:
            d["sampling_sizes"] = dict(s["sampling"]) if isinstance(s["sampling"], dict) else s["sampling"]
        return d
    if k == "concat":
        return {"class": "ConcatDataset", "datasets": [build(x) for x in s["subs"]]}
    if k == "cseq":
        d = {"class": "ConcatSeqsDataset", "dataset": build(s["sub"]), "seq_list_file": SCR + "/concat_list.txt", "seq_len_file": SCR + "/concat_lens.txt"}
        if s.get("repeat_in_between"):
            d["repeat_in_between_last_frame_up_to_multiple_of"] = {"data": s["repeat_in_between"]}
        if s.get("epfilter"):
            a, b, m = s["epfilter"]
            d["epoch_wise_filter"] = {(a, b): {"max_mean_len": m}}
        return d
    if k == "pp":
        from returnn.datasets.postprocessing import LaplaceOrdering, Sequential

        d = {"class": "PostprocessingDataset", "dataset": build(s["sub"])}
        fn = s["fn"]
        if fn == "const":
            d["map_seq"] = map_const
        elif fn == "noise":
            d["map_seq"] = map_noise
        elif fn == "drop":
            d["map_seq_stream"] = stream_drop
        elif fn == "dup":
            d["map_seq_stream"] = stream_dup
        elif fn == "laplace":
            d["map_seq_stream"] = LaplaceOrdering(s["bin"])
        else:
            d["map_seq_stream"] = Sequential(stream_shift, LaplaceOrdering(s["bin"]))
        return d
    if k == "var":
        return {"class": "VariableDataset", "get_dataset": GetDataset(s["subs"], s["period"]), "dataset_lru_cache_size": s["lru"]}
    if k == "multi":
        return {"class": "MultiEpochDataset", "dataset": build(s["sub"]), "multi_epoch": s["multi"]}
    raise ValueError(k)


def _seq_lists(s):
    import gzip
    import pickle

    form = s["lists_form"]
    name = "%s/sl_%08x" % (SCR, zlib.crc32(json.dumps(s["lists"], sort_keys=True).encode()))
    if form == "txt":
        for key, ls in s["lists"].items():
            with open("%s_%s.txt" % (name, key), "w") as f:
                f.write("".join(t + "\n" for t in ls))
        return {key: "%s_%s.txt" % (name, key) for key in s["lists"]}
    with (gzip.open if form.endswith(".gz") else open)(name + "." + form, "wb") as f:
        pickle.dump(s["lists"], f)
    return name + "." + form


def _bpe(breadth):
    return {"class": "SamplingBytePairEncoding", "vocab_file": SCR + "/bpe.vocab", "breadth_prob": breadth, "unknown_label": "[UNK]"}


# -- model: which seqs, with which data


def model(s):
    """:return: dict tag -> key -> array (only those keys where the data is known), or None if nothing is known"""
    k = s["k"]
    if k in ("sim", "static", "map", "hdf"):
        return {t: content2(t, seq_len(t), s.get("salt", 0) if k == "sim" else 0) for t in tags_of(s)}
    if k == "lm" and s["lm"] in ("word", "unk"):
        out = {}
        for i, line in enumerate(LM_LINES):
            ws = line.split() + ["[END]"]
            out["line-%i" % i] = {"data": numpy.array([SYMS.index("[UNKNOWN]" if w == "e" and s["lm"] == "unk" else w) for w in ws], dtype="int8")}
        return out
    if k == "ogg":
        return {t: {"orth": numpy.array(list(x.encode()), dtype="uint8")} for t, x in zip(tags_of(s), TEXTS)}
    if k == "meta":
        ma, mb = model(s["sub"]["a"]), model(s["sub"]["b"])
        out = {t: {} for t in tags_of(s)}
        for i, t in enumerate(out):
            a, b = (s["lists"]["a"][i], s["lists"]["b"][i]) if s.get("lists") else (t, t)
            if ma and keys(s["sub"]["a"])[0] in ma[a]:
                out[t]["data"] = ma[a][keys(s["sub"]["a"])[0]]
            kb = keys(s["sub"]["b"])[-1 if s["sub"]["b"]["k"] != "ogg" else 0]
            if mb and kb in mb[b]:
                out[t]["classes"] = mb[b][kb]
        return out
    if k == "cseq":
        m = model(s["sub"])
        out = {}
        for t in CONCAT:
            ps = t.split(";")
            ds = []
            for j, x in enumerate(ps):
                a = m[x]["data"]
                r = s.get("repeat_in_between")
                if r and j + 1 < len(ps):
                    while len(a) % r:
                        a = numpy.concatenate([a, a[-1:]])
                ds.append(a)
            out[t] = {"data": numpy.concatenate(ds), "classes": numpy.concatenate([m[x]["classes"] for x in ps])}
        return out
    if k == "pp" and s["fn"] == "const":
        m = model(s["sub"])
        return m and {t: {**x, **({"data": x["data"] + 1} if "data" in x else {})} for t, x in m.items()}
    if k in ("pp", "multi"):
        m = model(s["sub"])
        if m and k == "pp" and s["fn"] in ("noise", "shift+laplace"):
            m = {t: {kk: v for kk, v in x.items() if kk != "data"} for t, x in m.items()}
        return m
    return None


def parts(s):
    """
    :return: number of sub-epochs after which every seq was delivered exactly once (per repeat), None if not promised
    """
    k = s["k"]
    if k in CAPS:
        return s.get("part") or 1 if not s.get("subset") else None
    if k == "meta":
        return parts(s["sub"][s["ctl"]]) if s["ctl"] else s.get("part") or 1
    if k == "cseq":
        return s.get("part") or 1 if not s.get("epfilter") else None
    if k == "comb":
        if s["sampling"]:
            return None
        if s.get("part"):
            return s["part"]
        ps = {x.get("part") or 1 for x in s["sub"].values()}
        return ps.pop() if len(ps) == 1 else None
    if k == "concat":
        ps = {x.get("part") or 1 for x in s["subs"]}
        return ps.pop() if len(ps) == 1 else None
    if k == "pp":
        return parts(s["sub"]) if s["fn"] not in ("drop", "dup") else None
    if k == "multi":
        p = parts(s["sub"])
        if p is None or p % s["multi"]:
            return None
        return p // s["multi"]
    return None


def all_seqs(s):
    """:return: sorted list of all tags as delivered over one full epoch (see parts), with multiplicity"""
    k = s["k"]
    if k in CAPS or k == "cseq":
        ts = tags_of(s)
        if s.get("filter"):
            ts = [t for t in ts if _in_filter(t)]
        return sorted(ts * (s.get("rep") or 1))
    if k == "meta":
        return all_seqs(s["sub"][s["ctl"]]) if s["ctl"] else sorted(tags_of(s))
    if k == "comb":
        return sorted(all_seqs(s["sub"]["a"]) + all_seqs(s["sub"]["b"]))
    if k == "concat":
        return sorted(sum([all_seqs(x) for x in s["subs"]], []))
    if k in ("pp",):
        return all_seqs(s["sub"])
    if k == "multi":
        return all_seqs(s["sub"])
    raise ValueError(k)


def min_seqs(s):
    """:return: how many seqs a sub-epoch has at least (roughly, lower bound)"""
    k = s["k"]
    if k in CAPS or k == "cseq" or (k == "meta" and not s["ctl"]):
        return len(tags_of(s)) // (s.get("part") or 1)
    if k == "meta":
        return min_seqs(s["sub"][s["ctl"]])
    if k == "comb":
        return sum(min_seqs(x) for x in s["sub"].values()) // (s.get("part") or 1)
    if k == "concat":
        return min(min_seqs(x) for x in s["subs"])
    if k == "var":
        return min(min_seqs(x) for x in s["subs"])
    return min_seqs(s["sub"])


def only_single(s):
    """seqs must be requested one by one (ConcatDataset asks its sub-datasets beyond their end otherwise)"""
    k = s["k"]
    if k == "concat":
        return any(x["k"] != "sim" for x in s["subs"])
    return any(only_single(x) for x in (s.get("subs") or []) + ([s["sub"]] if k not in ("meta", "comb") and "sub" in s else []))
