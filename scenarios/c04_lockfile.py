"""C04: lock file mutual exclusion, recovery, prompt hand-over."""

from __future__ import annotations
from .common import *

LDIR = "/simfs/shared/d/e"
LOCK = LDIR + "/lock"


class LockScenario(Scenario):
    id = "C04"
    quick_runs = 6000
    thorough_runs = 200000
    quick_time = 100
    real_components = ["returnn.util.basic.LockFile (unmodified)"]
    stub_components = ["file system (in-memory VFS incl. flock)", "clock", "process scheduling, kill"]
    assumptions = [
        "file system gives atomic exclusive create/rename/unlink and one server clock for modification times",
        "owners refresh by updating the lock file's modification time; an owner whose last refresh is older than the timeout counts as overstayed",
    ]

    def prepare(self):
        prepare_base()

    def generate(self, rng, tier):
        timeout = rng.choice([3, 5, 20, 60])
        nprocs = rng.choice([2, 2, 3, 3, 4])
        mode = rng.choice(["plain", "kill", "kill", "stall", "kill+stall"])
        procs = []
        for _ in range(nprocs):
            ops = []
            for _ in range(rng.randint(1, 3)):
                kind = rng.choice(["short", "short", "refresh", "probe"])
                ops.append(
                    dict(
                        kind=kind,
                        hold=round(rng.uniform(0, 0.7 * timeout) if kind == "short" else rng.uniform(0, 2.5 * timeout), 2),
                        ctx=rng.random() < 0.5,
                        pause=round(rng.choice([0, 0, rng.uniform(0, 3), rng.uniform(0, timeout)]), 2),
                    )
                )
            procs.append(dict(delay=round(rng.choice([0, 0, rng.uniform(0, 2)]), 2), ops=ops))
        sim = swarm_sched(rng)
        if rng.random() < 0.5:
            sim["p_switch"] = rng.choice([0.3, 0.5, 0.8])
        if "kill" in mode:
            sim.update(p_kill=rng.choice([0.01, 0.03, 0.1]), max_kills=rng.choice([1, 1, 2, nprocs - 1]))
        if "stall" in mode:
            sim.update(p_stall=rng.choice([0.005, 0.02, 0.05]), stall_max=timeout * 1.5)
        sim["max_time"] = 100000
        stale = rng.random() < 0.35  # abandoned lock left by a previous run
        # some cleanup removes empty directories (as the file cache does)
        t, rmdir = 0.0, []
        for _ in range(rng.choice([0, 0, 0, 1, 3, 10])):
            t += rng.choice([0, 0, rng.uniform(0, 1), rng.uniform(0, timeout)])
            rmdir.append(round(t, 3))
        return dict(rmdir=rmdir, timeout=timeout, procs=procs, sim=sim, stale=round(rng.uniform(0, 2 * timeout), 2) if stale else None, mode=mode)

    def shrink(self, params):
        for r in shrink_list(params["rmdir"]):
            yield with_(params, rmdir=r)
        for i in range(len(params["procs"])):
            if len(params["procs"]) > 1:
                yield with_(params, procs=params["procs"][:i] + params["procs"][i + 1 :])
        for i, p in enumerate(params["procs"]):
            for ops in shrink_list(p["ops"]):
                if ops:
                    yield with_(params, procs=params["procs"][:i] + [dict(p, ops=ops)] + params["procs"][i + 1 :])

    def execute(self, params, chooser, log=False):
        from returnn.util.basic import LockFile
        import time, os

        sim = new_sim(params, chooser, log)
        v = sim.vfs
        v.add_mount("shared")
        v.god_makedirs("/simfs/shared" if params["rmdir"] else LDIR)
        timeout = params["timeout"]
        res = RunResult()
        holders = {}  # proc name -> dict(last refresh)
        last_touch = {}  # pid -> time of last mutation of the lock path by that proc
        waiting = {}  # pid -> since
        free = {"t": sim.now, "kind": "free"}
        if params["stale"] is not None:
            v.put(LOCK, b"", mtime=sim.now + sim.epoch0 - params["stale"])
            free["kind"] = "dead"
        stalls = "stall" in params["mode"]
        n_acq = [0]

        def obs(op, path, p, **info):
            if p is not None and path == LOCK and (op in ("utime", "rename", "link") or (op == "open" and info.get("created"))):
                last_touch[p.pid] = sim.now
                h = holders.get(p.pid)
                if h is not None and op == "utime":
                    if sim.now - h["touch"] > timeout - 0.01:
                        h["expired"] = True  # too late, it could be lost already
                    h["touch"] = sim.now

        v.observers.append(obs)

        def fresh(h):
            return not h.get("expired") and sim.now - h["touch"] <= timeout - 0.01

        def acquired(pid, op):
            n_acq[0] += 1
            me = dict(touch=last_touch.get(pid, sim.now), acq=sim.now)
            me["touch"] = min(me["touch"], sim.now)
            for opid, h in holders.items():
                if fresh(h) and fresh(me):
                    res.violate(
                        "two-owners",
                        "t=%.3f: pid %i obtained the lock while pid %i owns it (last refresh %.3fs ago, timeout %s)"
                        % (sim.elapsed, pid, opid, sim.now - h["touch"], timeout),
                    )
                elif fresh(me):
                    sim.probe("takeover_from_overstayed")
            # prompt hand-over
            if not stalls and not holders:
                w0 = min(waiting.values())
                gap = sim.now - max(free["t"], w0)
                bound = timeout + 4.0 if free["kind"] == "dead" else 3.0
                bound += len(params["rmdir"])  # each can cost one more polling delay
                if gap > bound:
                    res.violate("slow-handover", "lock was %s since %.2fs with waiters, bound %.1fs" % (free["kind"], gap, bound))
                if free["kind"] == "dead":
                    sim.probe("takeover_from_dead")
            holders[pid] = me
            del waiting[pid]

        def gone(p):
            # killed, or finished
            if p.pid in holders or p.pid in waiting or p.data.get("in_unlock"):
                holders.pop(p.pid, None)
                waiting.pop(p.pid, None)
                if p.killed_by and not holders:
                    free.update(t=sim.now, kind="dead")

        def main(spec):
            p = core.cur_proc()
            pid = p.pid
            p.exit_hooks.append(gone)
            lock = None
            for op in spec["ops"]:
                if op["pause"]:
                    time.sleep(op["pause"])
                lock = LockFile(LDIR, name="lock", lock_timeout=timeout)
                if op["kind"] == "probe":
                    held0 = [(q, h["acq"]) for q, h in holders.items() if fresh(h)]
                    free0 = not holders and not waiting and v.inode(LOCK) is None
                    n0 = n_acq[0]
                    r = lock.is_locked()
                    held1 = [x for x in held0 if x[0] in holders and holders[x[0]]["acq"] == x[1] and fresh(holders[x[0]])]
                    if held1 and not r and len(holders) == 1:
                        res.violate("is_locked-wrong", "is_locked() False while %r owns it" % held1)
                    if free0 and r and n_acq[0] == n0 and not waiting and not holders:
                        res.violate("is_locked-wrong", "is_locked() True while nobody owns or requests it")
                    continue
                waiting[pid] = sim.now
                lock.lock()
                acquired(pid, op)
                until = sim.now + op["hold"]
                me = holders[pid]
                if op["kind"] == "refresh":
                    while sim.now < until:
                        try:
                            os.utime(LOCK, None)
                        except OSError:
                            if fresh(me) and not stalls:
                                res.violate("lock-file-vanished", "own lock file vanished while refreshing")
                            break
                        time.sleep(min(1.0, max(until - sim.now, 0.01)))
                elif op["hold"]:
                    time.sleep(op["hold"])
                was_fresh = fresh(me)
                p.data["in_unlock"] = True
                holders.pop(pid, None)
                if not holders:
                    free.update(t=sim.now, kind="free")
                try:
                    lock.unlock()
                except OSError as exc:
                    if was_fresh and not stalls:
                        res.violate("unlock-failed", "unlock by valid owner raised %r" % exc)
                p.data["in_unlock"] = False
                if not holders:
                    free.update(t=sim.now, kind="free" if not any(q.killed_by and q.data.get("in_lock") for q in sim.procs) else "dead")

        def janitor():
            for t in params["rmdir"]:
                if t > sim.elapsed:
                    time.sleep(t - sim.elapsed)
                for d in (LDIR, os.path.dirname(LDIR)):
                    try:
                        os.rmdir(d)
                        sim.probe("rmdir")
                    except OSError:
                        pass

        if params["rmdir"]:
            sim.spawn_proc(janitor, name="janitor").killable = False
        for i, spec in enumerate(params["procs"]):
            sim.spawn_proc(lambda spec=spec: main(spec), name="p%i" % i, start_delay=spec["delay"])
        run_sim(sim)
        if sim.outcome != "ok":
            res.violate("no-progress", "%s: %s" % (sim.outcome, sim.outcome_info))
        for p in sim.procs:
            if p.exc is not None and not isinstance(p.exc, core.SimKilled):
                res.violate("exception:%s" % type(p.exc).__name__, describe_exc(p.exc))
        self.collect(sim, res, dict(count={"acquisitions": n_acq[0]}, case=params["mode"]))
        return res


SCENARIO = LockScenario()
