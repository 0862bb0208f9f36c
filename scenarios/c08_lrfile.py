"""C08: learning-rate / score file: atomic on disk, restart reproduces the schedule."""

from __future__ import annotations
import math
import random
from .common import *

FN = "/simfs/exp/lr/learning_rates"
DONE = "/simfs/exp/done"  # harness' own marker of finished epochs ("checkpoint"), written atomically


def same(a, b):
    """structural equality, NaN equal to NaN"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def snap(ctl):
    return {ep: (d.learning_rate, dict(d.error), dict(d.meta)) for ep, d in ctl.epoch_data.items()}


class LrScenario(Scenario):
    id = "C08"
    quick_runs = 12000
    thorough_runs = 400000
    quick_time = 85
    real_components = ["returnn.learning_rate_control (all control types, save, load)", "returnn.config.Config"]
    stub_components = ["file system (in-memory VFS)", "the training itself (scores are a function of epoch and learning rate)", "clock, process kill"]
    assumptions = [
        "a killed process loses user-space buffers, completed system calls survive (process crash, not power loss)",
        "the trainer queries the learning rate at the start of each epoch and saves after recording scores, as the engines do",
    ]

    def prepare(self):
        prepare_base()
        import returnn.learning_rate_control  # noqa

    def generate(self, rng, tier):
        n = rng.choice([2, 3, 5, 8, 12])
        kind = rng.choice(["constant", "newbob", "newbob_rel", "newbob_abs", "newbob_multi_epoch", "newbob_multi_epoch"])
        cfg = dict(learning_rate_control=kind, learning_rate=rng.choice([1.0, 0.001, 0.1, 3e-4]))
        if rng.random() < 0.4:
            cfg["min_learning_rate"] = rng.choice([0.0, 1e-5, cfg["learning_rate"] / 3])
        r = rng.random()
        if r < 0.2:
            cfg["learning_rates"] = [rng.choice([0.5, 0.1, 1e-3]) for _ in range(rng.randint(1, n + 2))]
        elif r < 0.4:
            cfg["learning_rates_dict"] = {str(rng.randint(1, n + 3)): rng.choice([0.5, 0.1, 1e-3]) for _ in range(rng.randint(1, 3))}
        cfg["learning_rate_control_error_measure"] = rng.choice([None, "dev_score", "dev_error", "train_score", ["dev_error", "dev_score"], "dev_loss_ce"])
        if rng.random() < 0.4:
            cfg["learning_rate_control_relative_error_relative_lr"] = True
        if rng.random() < 0.3:
            cfg["newbob_relative_error_div_by_old"] = True
        if rng.random() < 0.4:
            cfg["learning_rate_control_min_num_epochs_per_new_lr"] = rng.choice([1, 2, 3, 5])
        cfg["newbob_learning_rate_decay"] = rng.choice([0.5, 0.9, 0.7])
        if rng.random() < 0.4:
            cfg["newbob_learning_rate_growth"] = rng.choice([1.0, 1.1])
        if rng.random() < 0.5:
            cfg["newbob_relative_error_threshold"] = rng.choice([-0.01, 0.0, -0.1, 0.05])
        if rng.random() < 0.5:
            cfg["newbob_error_threshold"] = rng.choice([-0.01, 0.0, -0.1, 0.05])
        if kind == "newbob_multi_epoch":
            cfg["newbob_multi_num_epochs"] = rng.choice([1, 2, 3, 5])
            if rng.random() < 0.7:
                cfg["newbob_multi_update_interval"] = rng.choice([1, 2, 3])
            if rng.random() < 0.4:
                cfg["newbob_relative_error_grow_threshold"] = cfg.get("newbob_relative_error_threshold", -0.01) - rng.choice([0.0, 0.02, 0.2])
        sim = dict(max_time=1e6)
        mode = rng.choice(["kill", "kill", "fault", "kill+fault", "restart"])
        if "kill" in mode:
            sim.update(p_kill=rng.choice([0.01, 0.03, 0.1]), max_kills=rng.choice([1, 2, 4]))
        if "fault" in mode:
            sim.update(
                faults={k: rng.choice([0.005, 0.02, 0.06]) for k in rng.sample(["enospc", "eio", "short_write"], rng.choice([1, 2, 3]))},
                max_faults=rng.choice([1, 2, 5]),
            )
        return dict(
            cfg=cfg,
            n=n,
            score_seed=rng.randrange(1 << 30),
            style=rng.choice(["smooth", "noisy", "weird"]),
            eval_keys=rng.choice([1, 1, 2, 3, "vary"]),
            rerecord=rng.choice([0, 0, 0.3, 1]),
            foreign=rng.choice([0, 0, 0.5]),
            np_scalars=rng.random() < 0.2,
            save_interval=rng.choice([1, 1, 1, 2, 3]),
            eval_again=rng.random() < 0.8,
            restarts=sorted(rng.sample(range(1, n + 1), min(n, rng.choice([0, 1, 3])))) if mode == "restart" or rng.random() < 0.3 else [],
            handled=rng.random() < 0.5,
            capacity=rng.choice([None, None, 512, 1024, 2048]) if "fault" in mode else None,
            mode=mode,
            chunk=rng.choice([None, None, 64, 256]),
            sim=sim,
        )

    def shrink(self, params):
        if params["n"] > 1:
            yield with_(params, n=params["n"] - 1)
            yield with_(params, n=params["n"] // 2)
        for r in shrink_list(params["restarts"]):
            yield with_(params, restarts=r)
        for k in sorted(params["cfg"]):
            if k not in ("learning_rate", "learning_rate_control", "newbob_learning_rate_decay"):
                yield with_(params, cfg={k2: v for k2, v in params["cfg"].items() if k2 != k})
        if params["style"] != "smooth":
            yield with_(params, style="smooth")
        if params["chunk"]:
            yield with_(params, chunk=None)

    def _config(self, params, filename):
        from returnn.config import Config

        c = {k: v for k, v in params["cfg"].items() if v is not None}
        d = c.pop("learning_rates_dict", None)
        if d:
            c["learning_rates"] = {int(k): float(v) for k, v in d.items()}
        if filename:
            c["learning_rate_file"] = filename
        return Config(c)

    def _scores(self, params, ep, lr, part):
        """scores of an epoch: function of epoch and learning rate only"""
        r = random.Random("%i %i %r %s" % (params["score_seed"], ep, lr, part))
        st = params["style"]
        base = 3.0 / (ep + 1) + (0 if st == "smooth" else r.uniform(-0.3, 0.5))

        def one():
            v = base * r.uniform(0.9, 1.1)
            if st == "weird":
                v = r.choice([v, v, v, float("nan"), float("inf"), 1e-300, -v, 1e300, 0.1 + 0.2, float("-inf")])
            return v

        n = params["eval_keys"]
        if params["np_scalars"]:
            import numpy

            one_ = one
            one = lambda: numpy.float64(one_())
        if n == "vary":
            # the set of losses changes over time (pretraining, other model parts)
            losses = r.sample(["output", "ce", "a", "b_aux"], r.choice([1, 1, 2, 3]))
            if part == "train":
                return {"train_loss_%s" % k: one() for k in losses}
            return {"dev_%s_%s" % (r.choice(["loss", "loss", "error"]), k): one() for k in losses}
        if part == "train":
            return {"train_score": {"cost:%s" % k: one() for k in ["output", "ce", "x"][:n]}}
        res = {}
        for ds in ["dev"] if n < 3 else ["dev", "devtrain"]:
            res["%s_score" % ds] = {"cost:%s" % k: one() for k in ["output", "ce", "x"][:n]}
            res["%s_error" % ds] = {"error:%s" % k: one() for k in ["output", "ce"][:n]}
        return res

    def _tentative(self, scores):
        """other values for the same keys, whose text has the same length"""
        res = {}
        for k, x in scores.items():
            if isinstance(x, dict):
                res[k] = self._tentative(x)
                continue
            t = repr(float(x))
            res[k] = x
            for d in "1234567890":
                if t[-1].isdigit():
                    y = float(t[:-1] + d)
                    if y != x and len(repr(y)) == len(t):
                        res[k] = y
                        break
        return res

    def _meta(self, params, ep):
        r = random.Random(params["score_seed"] * 31 + ep)
        return {"epoch_num_train_steps": ep * 7, "device": r.choice(["cpu", "gpu 'A'", 'q"uote\n']), "effective_learning_rate": r.random(), "mem": {"a": 1, "b": [1.5, None]}}

    def _foreign(self, data):
        def rep(x):
            if isinstance(x, float):
                return "np.float64(%r)" % float(x)
            if isinstance(x, dict):
                return "{%s}" % ", ".join("%r: %s" % (k, rep(y)) for k, y in x.items())
            return repr(x)

        return "{%s}\n" % ",\n".join(
            "%i: EpochData(learningRate=%r, error=%s)"
            % (ep, lr, rep(err)[:-1] + "".join("%s%r: %s" % (", " if err or i else "", ":meta:" + k, repr(m)) for i, (k, m) in enumerate(meta.items())) + "}")
            for ep, (lr, err, meta) in data.items()
        )

    def _reference(self, params):
        """never restarted, no file"""
        from returnn.learning_rate_control import load_learning_rate_control_from_config

        ctl = load_learning_rate_control_from_config(self._config(params, None))
        lrs = {}
        for ep in range(1, params["n"] + 1):
            lrs[ep] = ctl.get_learning_rate_for_epoch(ep)
            ctl.epoch_data[ep].meta.update(self._meta(params, ep))
            ctl.set_epoch_error(ep, self._scores(params, ep, lrs[ep], "train"))
            ctl.set_epoch_error(ep, self._scores(params, ep, lrs[ep], "dev"))
        lrs[params["n"] + 1] = ctl.get_learning_rate_for_epoch(params["n"] + 1)
        return lrs, snap(ctl)

    def execute(self, params, chooser, log=False):
        from returnn.learning_rate_control import load_learning_rate_control_from_config, LearningRateControl
        from returnn.config import Config

        res = RunResult()
        try:
            ref_lrs, ref_data = self._reference(params)
        except ZeroDivisionError:
            # a score of exactly 0 is outside of what newbob supports
            sim = new_sim(params, chooser, log)
            self.collect(sim, res, dict(case="invalid"))
            return res
        sim = new_sim(params, chooser, log)
        v = sim.vfs
        v.add_mount("exp", capacity=params["capacity"])
        v.god_makedirs("/simfs/exp")
        v.chunk_io = params["chunk"]
        st = dict(durable=None, pending=None, done=0, attempts=0, saves=0, finished=False, lost=0)
        parsed = {}

        def parse(data):
            # independent of the code under test as far as possible: only the EpochData class and the format's names
            if data not in parsed:
                try:
                    d = eval(
                        data.decode("utf8"),
                        {"EpochData": LearningRateControl.EpochData, "nan": float("nan"), "inf": float("inf"), "np": __import__("numpy")},
                    )
                    parsed[data] = {ep: (x.learning_rate, x.error, x.meta) for ep, x in d.items()}
                except Exception as exc:
                    parsed[data] = exc
            return parsed[data]

        def check_disk(when):
            node = v.inode(FN)
            if node is None:
                if st["durable"] is not None:
                    res.violate("file-lost", "%s: the score file does not exist anymore" % when)
                return
            d = parse(bytes(node.data))
            if isinstance(d, Exception):
                res.violate("file-torn", "%s: score file on disk is not loadable (%d bytes): %r" % (when, len(node.data), d))
                return
            if (st["durable"] is None or not same(d, st["durable"])) and (st["pending"] is None or not same(d, st["pending"])):
                res.violate("file-wrong", "%s: score file is neither the previous nor the new version: epochs %s" % (when, sorted(d)))

        def obs(op, path, p, **info):
            if path == FN or info.get("dst") == FN or op in ("rename", "unlink", "write", "open", "ftruncate", "truncate"):
                check_disk("after %s %s" % (op, path))

        v.observers.append(obs)

        def save(ctl):
            st["pending"] = snap(ctl)
            st["saves"] += 1
            ctl.save()
            node = v.inode(FN)
            if node is None:
                res.violate("save-not-durable", "no file after save() returned")
            else:
                d = parse(bytes(node.data))
                if isinstance(d, Exception) or not same(d, st["pending"]):
                    res.violate("save-not-durable", "after save() returned, the file does not hold the saved data: %s" % (d if isinstance(d, Exception) else sorted(d)))
            st["durable"], st["pending"] = st["pending"], None

        def attempt():
            # file on disk is now what counts, whatever save was in progress
            node = v.inode(FN)
            if node is not None and st["pending"] is not None:
                d = parse(bytes(node.data))
                if not isinstance(d, Exception) and same(d, st["pending"]):
                    st["durable"] = st["pending"]
            st["pending"] = None
            before = st["durable"]
            if node is not None and before is not None and st["attempts"] > 1 and random.Random("%i f %i" % (params["score_seed"], st["attempts"])).random() < params["foreign"]:
                # the previous job ran on a host with NumPy 2, where the repr of a NumPy scalar has the type name
                sim.probe("foreign_file")
                node.data = bytearray(self._foreign(before).encode("utf8"))
            ctl = load_learning_rate_control_from_config(self._config(params, FN))
            if before is not None:
                for ep, (lr, err, meta) in before.items():
                    if ep not in ctl.epoch_data or not same((lr, err, meta), (ctl.epoch_data[ep].learning_rate, ctl.epoch_data[ep].error, ctl.epoch_data[ep].meta)):
                        res.violate("load-lost-data", "epoch %i as saved %r, after restart %r" % (ep, (lr, err, meta), ctl.epoch_data.get(ep)))
                        return
            start = st["done"] + 1
            if st["done"] and params["eval_again"]:
                # like Engine._check_missing_eval
                ep = st["done"]
                if not any(k.startswith("dev_") for k in ctl.get_epoch_error_dict(ep)):
                    sim.probe("eval_after_restart")
                    ctl.set_epoch_error(ep, self._scores(params, ep, ref_lrs[ep], "dev"))
                    save(ctl)
            elif st["done"]:
                # trainer which repeats the whole epoch instead
                if not any(k.startswith("dev_") for k in ctl.get_epoch_error_dict(st["done"])):
                    st["done"] -= 1
                    start = st["done"] + 1
            for ep in range(start, params["n"] + 1):
                lr = ctl.get_learning_rate_for_epoch(ep)
                if not same(lr, ref_lrs[ep]):
                    res.violate("schedule-differs", "epoch %i: learning rate %r, uninterrupted %r (attempt %i)" % (ep, lr, ref_lrs[ep], st["attempts"]))
                    return
                ctl.epoch_data[ep].meta.update(self._meta(params, ep))
                if random.Random("%i r %i" % (params["score_seed"], ep)).random() < params["rerecord"]:
                    # the scores are recorded again later, for the same keys
                    sim.probe("rerecord")
                    ctl.set_epoch_error(ep, self._tentative(self._scores(params, ep, lr, "train")))
                    save(ctl)
                ctl.set_epoch_error(ep, self._scores(params, ep, lr, "train"))
                save(ctl)
                if ep % params["save_interval"] == 0 or ep == params["n"]:
                    st["done"] = ep  # checkpoint written
                    sim.event("checkpoint", ep)
                ctl.set_epoch_error(ep, self._scores(params, ep, lr, "dev"))
                if params["handled"]:
                    try:
                        save(ctl)
                    except OSError:
                        # a caller which goes on after a failed save, and saves later again
                        sim.probe("save_failed_continue")
                else:
                    save(ctl)
                if ep in params["restarts"] and ep not in st.setdefault("restarted", set()):
                    st["restarted"].add(ep)
                    sim.probe("clean_restart")
                    raise SystemExit(0)
            lr = ctl.get_learning_rate_for_epoch(params["n"] + 1)
            if not same(lr, ref_lrs[params["n"] + 1]):
                res.violate("schedule-differs", "epoch %i: learning rate %r, uninterrupted %r" % (params["n"] + 1, lr, ref_lrs[params["n"] + 1]))
            if not same(snap(ctl), ref_data):
                a, b = snap(ctl), ref_data
                diff = [ep for ep in sorted(set(a) | set(b)) if not same(a.get(ep), b.get(ep))]
                res.violate("data-differs", "after restarts, recorded data differs in epochs %s: %r vs uninterrupted %r" % (diff, a.get(diff[0]), b.get(diff[0])))
            st["finished"] = True

        def supervisor():
            core.cur_proc().killable = False
            while not st["finished"] and not res.violation and st["attempts"] < 60:
                st["attempts"] += 1
                if st["attempts"] > 20:
                    # faults stop. somebody made space
                    sim.cfg.faults = {}
                    v.mounts["exp"].capacity = None
                p = sim.spawn_proc(attempt, name="a%i" % st["attempts"])
                while p.alive:
                    sim.block(p.exit_waiters, info="wait attempt")
                if p.exc is not None and not isinstance(p.exc, (SystemExit, OSError, core.SimKilled)):
                    res.violate("exception:%s" % type(p.exc).__name__, describe_exc(p.exc))
                sim.sleep(1)

        sim.spawn_proc(supervisor, name="sup")
        run_sim(sim)
        if sim.outcome != "ok":
            res.violate("no-progress", "%s: %s" % (sim.outcome, sim.outcome_info))
        elif not st["finished"] and not res.violation:
            res.violate("no-progress", "training does not finish after %i restarts without faults" % st["attempts"])
        self.collect(sim, res, dict(count={"saves": st["saves"], "attempts": st["attempts"]}, case=params["mode"]))
        return res


SCENARIO = LrScenario()
