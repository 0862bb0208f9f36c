"""C09: training supervisor: restarts exactly while attempts make progress."""

from __future__ import annotations
import json
import sys
from .common import *

MODEL = "/simfs/exp/m/net-model/network"
_state = {}


class SimPopen:
    """stand-in for subprocess.Popen: starts a simulated process"""

    def __init__(self, args, *a, env=None, **kw):
        t = cur_task()
        if t is None or "hook" not in _state:
            raise HarnessError("unexpected Popen %r" % (args,))
        self.args = args
        self.returncode = None
        self._proc = _state["hook"](list(args), env)
        self.pid = self._proc.pid
        self.stdout = self.stderr = self.stdin = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def poll(self):
        if self.returncode is None and not self._proc.alive:
            self.returncode = self._proc.data["rc"]
        return self.returncode

    def wait(self, timeout=None):
        import subprocess

        sim = self._proc.sim
        end = None if timeout is None else sim.now + timeout
        while self._proc.alive:
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                raise subprocess.TimeoutExpired(self.args, timeout)
            sim.block(self._proc.exit_waiters, timeout=left, info="waitpid")
        return self.poll()

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return None, None

    def send_signal(self, sig):
        if self._proc.alive:
            self._proc.sim.kill_proc(self._proc, -int(sig))

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)


class S(Scenario):
    id = "C09"
    quick_runs = 12000
    thorough_runs = 300000
    quick_time = 90
    real_components = ["returnn.util.train_proc_manager (whole supervisor)", "returnn.engine.base.EngineBase.get_existing_models / config_get_final_epoch", "returnn.config.Config"]
    stub_components = [
        "subprocess.Popen (starts a simulated process)",
        "the training attempt (writes, renames and cleans up checkpoint files in the engines' order, then exits / crashes / is killed)",
        "file system (in-memory VFS)",
        "clock",
    ]
    assumptions = ["an epoch counts as completed when its resumable checkpoint is in place", "attempts do not remove the newest resumable checkpoint (C07)"]

    def prepare(self):
        prepare_base()
        import subprocess
        import returnn.util.train_proc_manager as m
        from returnn.util import basic as util

        real = subprocess.Popen

        class P(SimPopen):
            def __new__(cls, *a, **k):
                if cur_task() is None:
                    return real(*a, **k)
                return object.__new__(cls)

        subprocess.Popen = P
        m.print = lambda *a, **k: None
        util.describe_returnn_version()

    def generate(self, rng, tier):
        long = rng.random() < 0.06
        final = rng.choice([1, 2, 3, 5, 8]) if not long else rng.choice([20, 40, 130])
        backend = rng.choice(["torch", "torch", "tensorflow"])

        def gen_attempt():
            return dict(
                epochs=rng.choice([0, 0, 1, 1, 2, 3, 9]),
                end=rng.choice(["exit", "exit", "exc", "signal", "full", "midsave"]),
                rc=rng.choice([0, 0, 1, 2, 139]),
                dur=rng.choice([0.1, 30, 4000, 3e5]),
                cleanup=rng.random() < 0.5,
                keep=rng.choice([[], [], [1], [1, 4], [2, 9]]),
            )

        sups = [[gen_attempt() for _ in range(rng.choice([1, 2, 3, 5, 9]))] for _ in range(rng.choice([1, 1, 2, 3]))]
        if long:
            sups = [[gen_attempt() for _ in range(final)]]
        for s in sups:
            if long or rng.random() < 0.5:  # a long history with progress: it must not give up
                for a in s[:-1]:
                    a["epochs"] = max(1, min(a["epochs"], 2))
        pre = rng.choice([0, 0, 0, 1, 2, final, final])
        sim = dict(max_time=1e8, max_events=20000 if not long else 400000)
        if rng.random() < 0.5:
            sim.update(p_kill=rng.choice([0.005, 0.02, 0.08]), max_kills=rng.choice([1, 2, 4]))
        return dict(
            final=final,
            backend=backend,
            save_interval=rng.choice([1, 1, 1, 2, 3]),
            pre=min(pre, final),
            beyond=rng.random() < 0.1,  # left-over checkpoints of a longer training
            torn=rng.choice([None, None, "no_opt", "tmp"]),
            sups=sups,
            entry=rng.choice(["main", "maybe", "maybe"]),
            task=rng.random() < 0.7,
            final_key=rng.choice(["num_epochs", "num_epochs", "-"]),
            sim=sim,
        )

    def shrink(self, params):
        for i, s in enumerate(params["sups"]):
            if len(params["sups"]) > 1:
                yield with_(params, sups=params["sups"][:i] + params["sups"][i + 1 :])
            for s2 in shrink_list(s):
                if s2:
                    yield with_(params, sups=params["sups"][:i] + [s2] + params["sups"][i + 1 :])
        for k, v in [("pre", 0), ("torn", None), ("beyond", False), ("save_interval", 1), ("entry", "main"), ("task", True), ("backend", "torch")]:
            if params.get(k, v) != v:
                yield with_(params, **{k: v})
        if params["final"] > 1:
            yield with_(params, final=params["final"] - 1, pre=min(params["pre"], params["final"] - 1))

    def execute(self, params, chooser, log=False):
        from returnn.config import Config
        import returnn.util.train_proc_manager as m
        from returnn.engine.base import EngineBase

        res = RunResult()
        sim = new_sim(params, chooser, log)
        v = sim.vfs
        v.add_mount("exp")
        v.god_makedirs(MODEL.rsplit("/", 1)[0])
        torch = params["backend"] == "torch"
        final = params["final"]
        cfg = {"model": MODEL, "backend": params["backend"], "task": "train"}
        if torch:
            cfg["backend"] = "torch"
        if not params.get("task", True):
            cfg.pop("task")  # the default
        if params["final_key"] != "-":
            cfg["num_epochs"] = final
        else:
            final = 5  # documented default
            cfg.pop("num_epochs", None)
        config = Config(cfg)
        suffixes = [".pt", ".opt.pt"] if torch else [".data-00000-of-00001", ".meta", ".index"]
        pos = dict(n_att=0)

        def fn(ep, suf):
            return "%s.%03d%s" % (MODEL, ep, suf)

        need = [".pt", ".opt.pt"] if torch else [".index"]

        def newest():
            return max([e for e in range(1, final + 1) if all(v.inode(fn(e, s)) is not None for s in need)], default=0)

        for ep in range(1, params["pre"] + 1):
            if ep >= params["pre"] - 1:
                for s in suffixes:
                    v.put(fn(ep, s), b"x")
        if params["beyond"]:
            for s in suffixes:
                v.put(fn(final + 1, s), b"x")
        if params["torn"] and params["pre"] < final:
            v.put(fn(params["pre"] + 1, ".pt" if params["torn"] == "no_opt" and torch else ".pt.tmp_write"), b"x")

        def attempt(a, me):
            p = sim_proc = core.cur_proc()
            ep = newest()
            done = 0
            crash_in = None
            while ep < final:
                if a["end"] != "full" and done >= a["epochs"]:
                    if a["end"] == "midsave":
                        crash_in = "save"
                    else:
                        break
                ep += 1
                sim.sleep(a["dur"])
                if ep % params["save_interval"] == 0 or ep == final:
                    for i, s in enumerate(suffixes):
                        tmp = fn(ep, s) + ".tmp_write"
                        with open(tmp, "wb") as f:
                            f.write(b"ckpt")
                        if crash_in and i == len(suffixes) - 1:
                            break
                        os.rename(tmp, fn(ep, s))
                    if crash_in:
                        break
                    if a["cleanup"]:
                        for e in range(1, ep - 1):
                            if e in a.get("keep", ()):
                                continue
                            for s in suffixes:
                                if os.path.exists(fn(e, s)):
                                    os.remove(fn(e, s))
                elif crash_in:
                    break
                done += 1
            if ep >= final and not crash_in:
                a_end = "full" if a["end"] == "midsave" else a["end"]
            else:
                a_end = a["end"]
            if a_end == "full":
                me["rc"] = 0
            elif a_end == "signal" or crash_in:
                me["rc"] = -11
            elif a_end == "exc":
                me["rc"] = 1
            else:
                me["rc"] = a["rc"]
            sim.event("attempt-end", me["rc"])

        cur = dict(starts=[], plan=None, env_ok=True)

        def hook(args, env):
            sim.event("popen", None)
            n = newest()
            st = cur["starts"]
            where = "supervisor %i, start %i" % (cur["i"], len(st) + 1)
            if args[-len(sys.argv) :] != sys.argv or len(args) != len(sys.argv) + 1:
                res.violate("wrong-command", "%s: started %r" % (where, args))
            if (env if env is not None else os.environ).get("__RETURNN_PROC_MANAGED") != "1":
                res.violate("recursive", "%s: attempt would start another supervisor" % where)
            if n >= final:
                res.violate("start-when-complete", "%s: started although final epoch %i has its checkpoint" % (where, final))
            if st and n <= st[-1]["newest"]:
                res.violate("restart-without-progress", "%s: newest epoch %i, before the previous attempt %i" % (where, n, st[-1]["newest"]))
            plan = cur["plan"]
            a = plan[len(st)] if len(st) < len(plan) else dict(epochs=0, end="exc", rc=1, dur=1, cleanup=False)
            me = dict(newest=n, rc=None)
            st.append(me)
            pos["n_att"] += 1
            if len(st) > 300:
                res.violate("endless", "%s: loops" % where)
                raise core.SimKilled()
            p = sim.spawn_proc(lambda: attempt(a, me), name="att%i" % pos["n_att"])

            def gone(pr):
                rc = me["rc"] if not pr.killed_by and me["rc"] is not None else -9
                if pr.exc is not None and not isinstance(pr.exc, core.SimKilled) and not pr.killed_by:
                    raise HarnessError("attempt: " + describe_exc(pr.exc))
                me["rc"] = rc
                pr.data["rc"] = rc

            p.exit_hooks.append(gone)
            return p

        _state["hook"] = hook
        sim.kill_filter = lambda t, kind, detail: t.proc.name.startswith("att")
        old_env = os.environ.pop("__RETURNN_PROC_MANAGED", None)

        def driver():
            for i, plan in enumerate(params["sups"]):
                cur.update(starts=[], plan=plan, i=i + 1)
                os.environ.pop("__RETURNN_PROC_MANAGED", None)
                sim.event("sup", i)
                n0 = newest()
                code = "none"
                try:
                    if params["entry"] == "main":
                        m.main_proc_manager(config=config)
                    else:
                        m.maybe_start_train_proc_manager(config=config)
                except SystemExit as exc:
                    code = exc.code
                except core.SimKilled:
                    raise
                except Exception as exc:
                    res.violate("supervisor-error:%s" % type(exc).__name__, describe_exc(exc))
                    return
                n1 = newest()
                st = cur["starts"]
                where = "supervisor %i (attempts: newest before, exit code: %s, newest after %i, final %i)" % (
                    i + 1,
                    [(s["newest"], s["rc"]) for s in st],
                    n1,
                    final,
                )
                if code == "none":
                    res.violate("no-exit", where + ": returned without exiting")
                    return
                if code is None:
                    code = 0
                if not st:
                    if n0 < final:
                        res.violate("not-started", where + ": nothing started")
                    elif code != 0:
                        res.violate("wrong-exit-code", where + ": already complete, but exit code %r" % (code,))
                else:
                    if n1 < final and n1 > st[-1]["newest"]:
                        res.violate("gave-up", where + ": gave up although there was progress")
                    if code != st[-1]["rc"]:
                        res.violate("wrong-exit-code", where + ": exit code %r" % (code,))
                # the child: must not supervise again
                n_before = len(st)
                os.environ["__RETURNN_PROC_MANAGED"] = "1"
                try:
                    m.maybe_start_train_proc_manager(config=config)
                except SystemExit:
                    res.violate("recursive", "managed process became a supervisor")
                if len(cur["starts"]) != n_before:
                    res.violate("recursive", "managed process started another one")

        try:
            sp = sim.spawn_proc(driver, name="sup")
            run_sim(sim)
        finally:
            _state.pop("hook", None)
            os.environ.pop("__RETURNN_PROC_MANAGED", None)
            if old_env is not None:
                os.environ["__RETURNN_PROC_MANAGED"] = old_env
        if sp.exc is not None:
            if isinstance(sp.exc, core.SimKilled):
                pass
            else:
                raise HarnessError("driver: " + describe_exc(sp.exc))
        if sim.outcome != "ok" and not res.violation:
            res.violate("hang", "%s: %s" % (sim.outcome, sim.outcome_info))
        self.collect(sim, res, dict(count={"attempts": pos["n_att"]}, case=params["backend"]))
        return res


SCENARIO = S()
