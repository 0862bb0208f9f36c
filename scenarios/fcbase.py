"""Workload for the file cache (C01, C02, C03): several processes, sources being replaced, disk pressure, crashes."""

from __future__ import annotations
import random as _random
from .common import *

CACHE = "/simfs/local/u/cache"


def content(name, ver, size, seed):
    r = _random.Random("%s/%s/%s" % (name, ver, seed))
    return r.randbytes(size)


class FileCacheScenario(Scenario):
    quick_runs = 22000
    thorough_runs = 200000
    quick_time = 85
    variant = None
    real_components = ["returnn.util.file_cache.FileCache incl. keep-alive thread", "returnn.util.basic.LockFile", "shutil/os.walk/os.makedirs of the standard library"]
    stub_components = ["file systems (remote source, local disk with capacity)", "clock", "thread and process scheduling, kill"]
    assumptions = [
        "sources are replaced atomically, and with a newer modification time or by a file of a size not seen before",
        "modification times and the clock of all processes agree (same host)",
        "a process is not suspended, and one file operation does not take, longer than a few seconds (keep-alive limit 10 s)",
    ]

    def prepare(self):
        prepare_base()
        import returnn.util.file_cache  # noqa

    def generate(self, rng, tier):
        var = self.variant
        seed = rng.randrange(1 << 30)
        nfiles = rng.choice([1, 1, 2, 3])
        files = {}
        for i in range(nfiles):
            d = rng.choice(["a", "a", "b/c", "b/a", "d/b/a"])
            # (sometimes the same name in different directories)
            files["/simfs/nfs/%s/f%i" % (d, i if rng.random() < 0.6 else 0)] = rng.choice([0, 1, 300, 3000, 9000, 20000])
        names = sorted(files)
        nprocs = rng.choice([2, 2, 3, 4])
        modes = []
        replace = var == "C01" and rng.random() < 0.7 or rng.random() < 0.2
        pressure = rng.random() < (0.6 if var != "C01" else 0.3)
        kill = rng.random() < {"C01": 0.5, "C02": 0.2, "C03": 0.7}[var]
        faulty = rng.random() < {"C01": 0.4, "C02": 0.35, "C03": 0.5}[var]
        slow = rng.random() < 0.3
        procs = []
        for _ in range(nprocs):
            ops = []
            for _ in range(rng.randint(1, 4)):
                k = rng.choice(["get", "get", "get", "cleanup", "sleep"])
                if k == "get":
                    ops.append(dict(op="get", f=rng.choice(names), use=round(rng.choice([0, rng.uniform(0, 2), rng.uniform(5, 30), rng.uniform(15, 50)]), 2), keep=rng.random() < 0.3, twice=rng.random() < 0.25, via=rng.choice(["get", "get", "config"])))
                elif k == "cleanup":
                    ops.append(dict(op="cleanup", need=rng.choice([0, 0, 1000, 10000, 30000, 60000])))
                else:
                    ops.append(dict(op="sleep", t=round(rng.choice([rng.uniform(0, 3), rng.uniform(5, 30)]), 2)))
            if var == "C02" and rng.random() < 0.5:
                ops.insert(rng.randint(0, len(ops)), dict(op="cleanup", need="max"))
            procs.append(dict(delay=round(rng.choice([0, 0, rng.uniform(0, 1.5), rng.uniform(0, 30)]), 2), ops=ops))
        world = []
        if replace:
            for _ in range(rng.randint(1, 3)):
                world.append(dict(op="replace", t=round(rng.choice([rng.uniform(0, 2), rng.uniform(0, 30)]), 3), f=rng.choice(names), size=rng.choice([None, None, 500, 8000])))
        for i, w in enumerate(world):
            if rng.random() < 0.25:
                w["older"] = True  # restored from a backup: an older modification time, but then never a size seen before
                w["size"] = 700 + i
            if rng.random() < 0.3:
                w["drop"] = True  # another process noticed it, removed the cached file, and then failed
        cap = None
        total = sum(files.values())
        if pressure:
            cap = max(int(max(files.values()) * rng.uniform(1.2, 3)), 4000) + 4096
            for _ in range(rng.randint(0, 3)):
                world.append(dict(op="other_used", t=round(rng.uniform(0, 30), 2), n=rng.choice([0, int(cap * 0.3), int(cap * 0.7)])))
        pre = []  # files in the cache from the past: (file or junk name, age in seconds)
        for f in names:
            if rng.random() < 0.4:
                pre.append(dict(f=f, age=rng.choice([3, 12, 3600, 2 * 86400, 40 * 86400]), info=rng.random() < 0.85, stale=rng.random() < 0.5))
        for i in range(rng.choice([0, 0, 1, 3])):
            pre.append(dict(f="/simfs/nfs/old/j%i" % i, age=rng.choice([12, 3600, 2 * 86400, 40 * 86400]), junk=rng.choice([512, 4000, 10000]), info=True))
        left = []  # left-overs of killed processes
        for f in names:
            if rng.random() < (0.3 if var == "C03" else 0.1):
                age = round(rng.choice([rng.uniform(0, 30), 86400 * 2, 86400 * 50]), 2)
                left.append(dict(f=f, age=age, size=rng.choice([0, 100, 5000])))
        if rng.random() < 0.2:
            # of a file which nobody requests any more
            left.append(dict(f="/simfs/nfs/old/k0", age=round(rng.choice([rng.uniform(0, 30), 86400 * 2, 86400 * 50]), 2), size=rng.choice([0, 100, 5000])))
        sim = swarm_sched(rng, lines=rng.random() < 0.3)
        sim["max_time"] = 6000
        sim["max_events"] = 400000
        if kill:
            sim.update(p_kill=rng.choice([0.002, 0.01, 0.05]), max_kills=rng.choice([1, 1, 2]))
        if faulty:
            fk = rng.choice([["enospc"], ["eio"], ["utime_fail"], ["enospc", "eio", "utime_fail", "estale"], ["short_write", "short_read", "enospc"]])
            sim.update(faults={k: rng.choice([0.005, 0.02, 0.1]) for k in fk}, max_faults=rng.choice([1, 2, 4]))
        if rng.random() < 0.3:
            sim.update(p_stall=0.01, stall_max=2.0, max_stalls=3)
        return dict(
            seed=seed, files=files, procs=procs, world=world, cap=cap, pre=pre, left=left, sim=sim,
            # (with no safety margin for the space, a single try can miss by the info file)
            opts=dict(rng.choice([dict(ratio=0.0, mult=1.0, tries=3), dict(ratio=0.2, mult=1.0, tries=2), dict(ratio=0.2, mult=2.0, tries=3), dict(ratio=0.2, mult=2.0, tries=3), dict(ratio=0.0, mult=2.0, tries=2)])),
            chunk=rng.choice([None, 512, 2048, 4096]), slow=round(rng.uniform(0.5, 3), 2) if slow else 0,
            recover_delay=rng.choice([0, 0, 5, 30]), ts_age=rng.choice([None, 5, 700]), old_dirs=rng.random() < 0.4,
        )

    def shrink(self, params):
        for k in ("procs", "world", "pre", "left"):
            for c in shrink_list(params[k]):
                if k != "procs" or c:
                    yield with_(params, **{k: c})
        for i, p in enumerate(params["procs"]):
            for ops in shrink_list(p["ops"]):
                yield with_(params, procs=params["procs"][:i] + [dict(p, ops=ops)] + params["procs"][i + 1 :])
        if params["slow"]:
            yield with_(params, slow=0)
        if params["chunk"]:
            yield with_(params, chunk=None)

    def execute(self, params, chooser, log=False):
        import os, time, json as _json
        from returnn.util import file_cache as fc

        sim = new_sim(params, chooser, log, lines=["returnn/util/file_cache.py"])
        v = sim.vfs
        v.add_mount("nfs")
        local = v.add_mount("local", params["cap"])
        v.chunk_io = params["chunk"]
        res = RunResult()
        var = self.variant

        def violate(prop, cls, msg):
            if prop == var:
                res.violate(cls, "t=%.3f %s" % (sim.elapsed, msg))

        slow = params["slow"]
        if slow:
            rr = _random.Random(params["seed"])
            v.latency = lambda op, path, n: rr.uniform(0, slow) if op == "read" and path.startswith("/simfs/nfs/") else 0
        # unlink does not fail; stale handles only on the remote side
        v.fault_filter = lambda op, path, p: op != "unlink" and not (path.startswith("/simfs/local/") and op in ("stat", "access"))
        seed = params["seed"]
        versions = {}
        now0 = sim.now + sim.epoch0
        for f, size in params["files"].items():
            versions[f] = [content(f, 0, size, seed)]
            v.put(f, versions[f][0], mtime=now0 - 86400 * 100)
        v.god_makedirs(CACHE)

        def dst_of(f):
            return CACHE + f

        src_of = {dst_of(f): f for f in params["files"]}

        def put_info(f, mtime_src, age):
            # in the format of the code under test
            info = fc.FileInfo(mtime_ns=int(mtime_src * 1e9))
            import dataclasses

            v.put(dst_of(f) + ".returnn-info", _json.dumps(dataclasses.asdict(info)).encode(), mtime=now0 - age)

        for e in params["pre"]:
            f = e["f"]
            data = content(f, 0, e["junk"], seed) if "junk" in e else versions[f][0]
            if not e["info"] and e.get("stale"):
                data = content(f, "old", len(data), seed)  # of unknown age, i.e. possibly outdated
            v.put(dst_of(f), data, mtime=now0 - e["age"])
            if e["info"]:
                put_info(f, now0 - 86400 * 100, e["age"])
        for e in params["left"]:
            # killed in the middle of a copy
            f = e["f"]
            if v.inode(dst_of(f)) is not None:
                continue
            v.put(dst_of(f) + ".copy", content(f, "left", e["size"], seed), mtime=now0 - e["age"])
            v.put(dst_of(f) + ".lock", b"", mtime=now0 - e["age"] + 0.5)
            put_info(f, now0 - 86400 * 100, e["age"])
        if local.capacity is not None:
            local.capacity = max(local.capacity, v.used(local) + 2048)
        if params["ts_age"] is not None:
            v.put(CACHE + "/.recent_full_cleanup", b"", mtime=now0 - params["ts_age"])

        if params["old_dirs"]:
            # directories as left by earlier, finished processes
            for f in params["files"]:
                d = os.path.dirname(dst_of(f))
                v.god_makedirs(d)
                while d != CACHE:
                    v.inode(d).mtime_ns = int((now0 - 3600) * 1e9)
                    d = os.path.dirname(d)

        in_use = {}  # path -> {pid: (count, version)}
        last_touch = {}
        renamed = {}  # pid -> set of dst renamed in the current request
        pfaults = {}  # pid -> number of injected faults
        n_get = [0, 0]

        def cur_ver(f):
            return len(versions[f]) - 1

        def obs(op, path, p, **info):
            if op == "rename" and p is not None:
                renamed.setdefault(p.pid, set()).add(path)
            if op in ("unlink", "rename") and in_use.get(path):
                users = {q: c for q, c in in_use[path].items() if c["ver"] == c["v0"] == cur_ver(src_of[path])}
                if users and op == "rename" and bytes(info["inode"].data) == versions[src_of[path]][cur_ver(src_of[path])]:
                    sim.probe("replaced_by_same_content")
                elif users:
                    violate(
                        "C02", "deleted-in-use",
                        "%s of %s by pid %s while in use by %s (source not replaced)" % (op, path, p and p.pid, sorted(users)),
                    )
            if op in ("write", "ftruncate", "fallocate"):
                for path2, users in in_use.items():
                    if users and v.inode(path2) is info["inode"]:
                        violate("C01", "modified-in-place", "%s on cached file %s in use" % (op, path2))
            if op == "unlink" and path.endswith((".copy",)) and p is not None:
                sim.probe("tmp_removed")
            if op == "unlink" and path in src_of:
                sim.probe("cached_file_removed")

        v.observers.append(obs)
        orig_fault = sim.fault

        def fault(options, detail=None):
            k = orig_fault(options, detail)
            if k and k not in ("short_read", "short_write"):
                pid = sim.current.proc.pid
                pfaults[pid] = pfaults.get(pid, 0) + 1
            return k

        sim.fault = fault

        def gone(p):
            for users in in_use.values():
                users.pop(p.pid, None)

        def make_cache(**kw):
            o = params["opts"]
            return fc.FileCache(
                cache_directory=CACHE, cleanup_disk_usage_wanted_free_ratio=o["ratio"], cleanup_disk_usage_wanted_multiplier=o["mult"], num_tries=o["tries"], **kw
            )

        def check_content(f, path, v0, when):
            data = v.peek(path)
            vs = versions[f]
            if data is None:
                if cur_ver(f) == v0:
                    violate("C01", "missing", "%s: returned path %s does not exist" % (when, path))
                    if when != "return":
                        violate("C02", "missing", "%s: path %s in use does not exist" % (when, path))
                else:
                    sim.probe("missing_while_replaced")
                return None
            for i in range(len(vs) - 1, -1, -1):
                if data == vs[i]:
                    if i < v0:
                        violate("C01", "stale", "%s: %s has version %i, but version %i was current when requested" % (when, path, i, v0))
                    return i
            violate("C01", "torn", "%s: content of %s (%i bytes) is no version of the source (sizes %s)" % (when, path, len(data), [len(x) for x in vs]))
            return None

        def do_get(cache, f, recovery=False, via="get"):
            p = core.cur_proc()
            v0 = cur_ver(f)
            t0 = sim.now
            renamed[p.pid] = set()
            nf0 = pfaults.get(p.pid, 0)
            n_get[0] += 1
            try:
                if via == "config":
                    cfg, fs = cache.handle_cached_files_in_config({"class": "X", "files": [fc.CachedFile(f), "other"], "n": 3})
                    path = cfg["files"][0]
                    if list(fs) != [path] or cfg != {"class": "X", "files": [path, "other"], "n": 3}:
                        violate("C01", "config", "wrong config or list of cached files: %r, %r" % (cfg, fs))
                else:
                    path = cache.get_file(f)
            except Exception as exc:
                n_get[1] += 1
                faults = pfaults.get(p.pid, 0) - nf0
                no_space = "cannot free enough space" in str(exc) or (isinstance(exc, OSError) and exc.errno == 28)
                if isinstance(exc, OSError) and exc.errno == 28 and dst_of(f) in renamed[p.pid]:
                    violate("C03", "enospc-despite-success", "request for %s raised %r, although the retry had cached the file" % (f, exc))
                if recovery:
                    violate("C03", "recovery-failed", "request for %s after all faults stopped raised %s" % (f, describe_exc(exc)))
                elif not faults and not (no_space and params["cap"] is not None):
                    violate("C03", "request-failed:" + type(exc).__name__, "request for %s without any fault raised %s" % (f, describe_exc(exc)))
                sim.probe("get_failed")
                return None
            if recovery and sim.now - t0 > 30:
                violate("C03", "recovery-slow", "request for %s took %.1fs after all faults stopped" % (f, sim.now - t0))
            if path != dst_of(f):
                src_of[path] = f
            ver = check_content(f, path, v0, "return")
            if ver is not None:
                u = in_use.setdefault(path, {}).setdefault(p.pid, dict(n=0, ver=ver))
                u["n"] += 1
                u["v0"] = v0  # if the source is replaced meanwhile, another request may (pessimistically) fetch it again
                u["ver"] = ver
            return path

        def release(cache, path):
            p = core.cur_proc()
            users = in_use.get(path, {})
            u = users.get(p.pid)
            if u:
                u["n"] -= 1
                if u["n"] <= 0:
                    del users[p.pid]
            cache.release_files(path)

        def main(spec):
            p = core.cur_proc()
            p.exit_hooks.append(gone)
            cache = make_cache()
            kept = []
            for op in spec["ops"]:
                if op["op"] == "get":
                    path = do_get(cache, op["f"], via=op.get("via", "get"))
                    if path is None:
                        continue
                    if op.get("twice"):
                        # second user in this process, who is done earlier
                        path2 = do_get(cache, op["f"])
                        if path2 is not None:
                            release(cache, path2)
                    t_end = sim.now + op["use"]
                    while True:
                        u = in_use.get(path, {}).get(p.pid)
                        if u and u["ver"] == u["v0"] == cur_ver(op["f"]):
                            try:
                                with open(path, "rb") as fh:
                                    data = fh.read()
                            except OSError as exc:
                                data = None
                                if exc.errno == 2 and u["ver"] == cur_ver(op["f"]):
                                    violate("C02", "missing", "in-use file %s: %r" % (path, exc))
                            if data is not None and u["ver"] == cur_ver(op["f"]) and data != versions[op["f"]][u["ver"]]:
                                violate("C02", "changed", "in-use file %s changed" % path)
                        if sim.now >= t_end:
                            break
                        time.sleep(min(max(t_end - sim.now, 0.01), 4))
                    if op["keep"]:
                        kept.append(path)
                    else:
                        release(cache, path)
                elif op["op"] == "cleanup":
                    nf0 = pfaults.get(p.pid, 0)
                    try:
                        need = op["need"]
                        if need == "max":
                            need = local.capacity - local.other_used - 2048 if local.capacity is not None else 1000
                        cache.cleanup(need_at_least_free_space_size=need)
                    except Exception as exc:
                        if "cannot free enough space" not in str(exc) and pfaults.get(p.pid, 0) == nf0:
                            violate("C03", "cleanup-failed:" + type(exc).__name__, "cleanup raised %s" % describe_exc(exc))
                else:
                    time.sleep(op["t"])
            for path in kept:
                release(cache, path)
            cache = None

        def world():
            for e in sorted(params["world"], key=lambda e: e["t"]):
                dt = e["t"] - sim.elapsed
                if dt > 0:
                    time.sleep(dt)
                if e["op"] == "replace":
                    f = e["f"]
                    size = e["size"] if e["size"] is not None else len(versions[f][-1])
                    versions[f].append(content(f, len(versions[f]), size, seed))
                    v.put(f, versions[f][-1], mtime=(sim.now + sim.epoch0) if not e.get("older") else now0 - 86400 * 200)
                    dst = dst_of(f)
                    if e.get("drop") and v.inode(dst) is not None and v.inode(dst + ".lock") is None:
                        v.god_unlink(dst)
                elif local.capacity is not None:
                    local.other_used = max(0, min(e["n"], local.capacity - (v.used(local) - local.other_used)))
            # after everything: recovery
            for q in workers:
                while q.alive:
                    sim.block(q.exit_waiters, info="wait worker")
            sim.cfg.faults = {}
            sim.cfg.p_kill = 0
            sim.cfg.p_stall = 0
            v.latency = None
            local.other_used = 0
            delay = params["recover_delay"]
            if local.capacity is not None:
                delay = max(delay, 22)  # what the others used or left behind becomes freeable
            if delay:
                time.sleep(delay)
            if local.capacity is not None:
                local.capacity = max(local.capacity, 2 * max(len(x) for vs in versions.values() for x in vs) + 8192)

            def recover():
                core.cur_proc().exit_hooks.append(gone)
                cache = make_cache()
                for f in sorted(versions):
                    path = do_get(cache, f, recovery=True)
                    if path:
                        check_content(f, path, cur_ver(f), "recovery")
                        release(cache, path)
                    if local.capacity is not None:
                        time.sleep(21)  # released files become freeable
                cache = None

            q = sim.spawn_proc(recover, name="recover")
            while q.alive:
                sim.block(q.exit_waiters, info="wait recover")
            if q.exc is not None and not isinstance(q.exc, core.SimKilled):
                violate("C03", "recovery-exc", describe_exc(q.exc))
            jump = 86400 * 45
            sim.now += jump
            jumped.append(jump)

            def final_cleanup():
                cache = make_cache()
                cache.cleanup()
                cache.cleanup()

            q = sim.spawn_proc(final_cleanup, name="final")
            while q.alive:
                sim.block(q.exit_waiters, info="wait final")
            if q.exc is not None and not isinstance(q.exc, core.SimKilled):
                violate("C03", "cleanup-exc", describe_exc(q.exc))
            else:
                rest = [f for f, _ in v.walk_files(CACHE) if not f.endswith("/.recent_full_cleanup")]
                if rest:
                    violate("C03", "leftover", "not removed by cleanup after 45 days: %s" % rest)

        jumped = []
        workers = []
        for i, spec in enumerate(params["procs"]):
            workers.append(sim.spawn_proc(lambda spec=spec: main(spec), name="p%i" % i, start_delay=spec["delay"]))
        wp = sim.spawn_proc(world, name="world")
        wp.killable = False
        sim.kill_filter = lambda t, kind, detail: t.proc in workers
        run_sim(sim)
        if sim.outcome != "ok":
            violate("C03", "no-progress", "%s: %s" % (sim.outcome, sim.outcome_info))
            if sim.outcome != "ok" and var != "C03" and sim.outcome != "time-limit":
                sim.probe("outcome_" + sim.outcome)
        for q in workers:
            if q.exc is not None and not isinstance(q.exc, core.SimKilled):
                raise HarnessError("worker: " + describe_exc(q.exc))
        if wp.exc is not None:
            raise HarnessError("world: " + describe_exc(wp.exc))
        self.collect(sim, res, dict(sim_time=sim.elapsed - sum(jumped), count={"requests": n_get[0], "requests_failed": n_get[1]}))
        return res
