"""
A user-defined dataset (as a user config may define one), with deterministic content derived from the seq tag.
Only import this after prepare_base().
"""

from __future__ import annotations
import zlib
import numpy
from returnn.datasets.basic import DatasetSeq
from returnn.datasets.cached2 import CachedDataset2
from sim.core import cur_task


def content(tag, n, same_len=False, dtype="int32"):
    """:return: data of this seq"""
    seed = zlib.crc32(tag.encode())
    r = numpy.random.RandomState(seed % (2**31))
    return {
        "data": r.randint(0, 1000, (n, 2)).astype("float32"),
        "classes": r.randint(0, 10, (n if same_len else max(1, n // 2),)).astype(dtype),
    }


class WorkerError(Exception):
    pass


class SimDataset(CachedDataset2):
    """
    Dataset
    """

    def __init__(
        self, seqs, unknown_num=False, slow=0.0, fail_tag=None, fail_how="raise", big=0, uneven=False, same_len=False, dtype="int32", aug=False, fail_p=0.0, **kwargs
    ):
        super().__init__(**kwargs)
        self.seqs = seqs  # list of (tag, len)
        self.unknown_num = unknown_num
        self.slow = slow
        self.fail_tag = fail_tag
        self.fail_how = fail_how
        self.big = big
        self.uneven = uneven
        self.same_len = same_len
        self.dtype = dtype
        self.fail_p = fail_p  # failure on init or on init_seq_order
        self.aug = aug  # data augmentation: the data depends also on the epoch
        self.num_inputs = 2
        self.num_outputs = {"data": (2, 2), "classes": (10, 1)}
        self.labels = {"classes": [str(i) for i in range(10)]}
        self._seq_order = None

    def initialize(self):
        """init"""
        self._pause("init")
        super().initialize()

    def _pause(self, what):
        t = cur_task()
        if t is None:
            return
        sim = t.sim
        sim.event("ds-" + what)
        if self.fail_p and what != "load" and sim.choose("fail", 2, 0, self.fail_p):
            self._fail(what)
        if self.slow:
            d = sim.choose("slow", 4, 0, self.slow)
            if d:
                sim.count_fault("slow")
                sim.sleep([0, 0.01, 1, 30][d])

    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        """init"""
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        self._pause("order")
        if seq_order is not None:
            self._seq_order = list(seq_order)
        elif seq_list is not None:
            tags = [t for t, _ in self.seqs]
            self._seq_order = [tags.index(t) for t in seq_list]
        else:
            self._seq_order = list(
                self.get_seq_order_for_epoch(epoch, len(self.seqs), get_seq_len=lambda i: self.seqs[i][1])
            )
        if self.uneven and self._num_shards > 1 and seq_order is None and seq_list is None:
            # like when sharding by files: shards of unequal size
            ns, si = self._num_shards, self._shard_index
            self._num_shards, self._shard_index = 1, 0
            try:
                full = list(self.get_seq_order_for_epoch(epoch, len(self.seqs), get_seq_len=lambda i: self.seqs[i][1]))
            finally:
                self._num_shards, self._shard_index = ns, si
            cuts = [min(len(full), k + (k * k) // 2) for k in range(ns)] + [len(full)]
            self._seq_order = full[cuts[self._shard_index] : cuts[self._shard_index + 1]]
        if not self.unknown_num:
            self._num_seqs = len(self._seq_order)
        return True

    def supports_sharding(self):
        """sharding"""
        return True

    def supports_seq_order_sorting(self):
        """sorting"""
        return True

    def get_current_seq_order(self):
        """order"""
        assert self._seq_order is not None
        return self._seq_order

    def _collect_single_seq(self, seq_idx):
        if seq_idx >= len(self._seq_order):
            return None
        self._pause("load")
        i = self._seq_order[seq_idx]
        tag, n = self.seqs[i]
        if self.fail_tag is not None and tag == self.fail_tag and cur_task() is not None:
            self._fail(tag)
        f = content("%s@%s" % (tag, self.epoch) if self.aug else tag, n, self.same_len, self.dtype)
        if self.big:
            f["data"] = numpy.tile(f["data"], (self.big, 1))
        return DatasetSeq(seq_idx=seq_idx, seq_tag=tag, features=f)

    def _fail(self, tag):
        t = cur_task()
        t.sim.count_fault("worker-" + self.fail_how)
        if self.fail_how == "raise":
            raise WorkerError("cannot read %s" % tag)
        if self.fail_how == "exit":
            raise SystemExit(0)
        if self.fail_how == "stop":
            raise StopIteration("stop in " + tag)
        if self.fail_how == "eof":
            raise EOFError("end of file in " + tag)
        if self.fail_how == "kill":
            t.sim.kill_proc(t.proc, why="oom")

    def get_total_num_seqs(self, *, fast=False):
        """num"""
        return len(self.seqs)

    def get_all_tags(self):
        """tags"""
        return [t for t, _ in self.seqs]

    def get_data_keys(self):
        """keys"""
        return ["data", "classes"]

    def get_target_list(self):
        """targets"""
        return ["classes"]

    def get_data_dtype(self, key):
        """dtype"""
        return {"data": "float32", "classes": self.dtype}[key]

    def is_data_sparse(self, key):
        """sparse"""
        return key == "classes"

    def have_corpus_seq_idx(self):
        """corpus idx"""
        return True

    def get_corpus_seq_idx(self, seq_idx):
        """corpus idx"""
        return self._seq_order[seq_idx]

    def get_tag(self, sorted_seq_idx):
        """tag"""
        return self.seqs[self._seq_order[sorted_seq_idx]][0]


def sub_epoch_dataset(files, seq_ordering="default", slow=0.0, unknown_num=False, fail_tag=None, fail_how="raise", fail_p=0.0):
    """for DistributeFilesDataset. content of a file depends on its name only: "/simfs/d/f3-5": 5 seqs"""
    import tree

    seqs = []
    for fn in tree.flatten(files):
        base = fn.rsplit("/", 1)[-1]
        if base.endswith("b"):
            continue
        n = int(base.split("-")[1])
        for i in range(n):
            seqs.append(("%s/%i" % (base, i), 1 + (zlib.crc32(("%s.%i" % (base, i)).encode()) % 5)))
    return {
        "class": SimDataset,
        "seqs": seqs,
        "seq_ordering": seq_ordering,
        "slow": slow,
        "unknown_num": unknown_num,
        "fail_tag": fail_tag,
        "fail_how": fail_how,
        "fail_p": fail_p,
    }


class HistDataset(SimDataset):
    """user-defined dataset for the composed configurations"""

    def __init__(self, seqs, salt=0, **kwargs):
        super().__init__(seqs, **kwargs)
        self.salt = salt

    def _collect_single_seq(self, seq_idx):
        if seq_idx >= len(self._seq_order):
            return None
        self._pause("load")
        from .dsgrammar import content2

        tag, n = self.seqs[self._seq_order[seq_idx]]
        return DatasetSeq(seq_idx=seq_idx, seq_tag=tag, features=content2(tag, n, self.salt))

    def get_estimated_seq_length(self, seq_idx):
        """estimated"""
        return self.seqs[self._seq_order[seq_idx]][1]
