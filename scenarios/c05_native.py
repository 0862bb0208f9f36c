"""C05: shared cache directory of compiled native code."""

from __future__ import annotations
import json
import os
import re
from .common import *

CACHE = "/simfs/cache"
DEPS = ["/simfs/inc/dep.h", "/simfs/inc/dep2.h"]
DAY = 86400.0
_state = {}


class CompilerPopen:
    """stand-in for the compiler process: reads source (and included header), writes the output file in pieces"""

    def __init__(self, args, *a, cwd=None, **kw):
        if "hook" not in _state:
            raise HarnessError("unexpected Popen %r" % (args,))
        self.args = args
        self.returncode = None
        self.stdin = self.stderr = None
        self._proc = _state["hook"](list(args), cwd)
        self.pid = self._proc.pid
        self.stdout = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def poll(self):
        if self.returncode is None and not self._proc.alive:
            self.returncode = self._proc.data["rc"]
        return self.returncode

    def wait(self, timeout=None):
        while self._proc.alive:
            self._proc.sim.block(self._proc.exit_waiters, info="waitpid")
        return self.poll()

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return b"compiler output\n", None

    def kill(self):
        if self._proc.alive:
            self._proc.sim.kill_proc(self._proc, -9)

    terminate = kill


END = "//END"


def lib_content(d):
    s = json.dumps(d, sort_keys=True)
    return ("LIB" + s + "#" * 20 + END).encode()


def parse_lib(data):
    s = data.decode("latin1")
    if not (s.startswith("LIB") and s.endswith(END)):
        return None
    try:
        return json.loads(s[3 : s.rindex("}") + 1])
    except ValueError:
        return None


class S(Scenario):
    id = "C05"
    quick_runs = 25000
    thorough_runs = 500000
    quick_time = 85
    real_components = ["returnn.util.native_code_compiler.NativeCodeCompiler", "returnn.util.basic.LockFile"]
    stub_components = [
        "the compiler process (subprocess.Popen): reads source and header, unlinks and rewrites its output in several writes, may fail or be killed, survives its parent",
        "file system (in-memory VFS)",
        "clock, process kill",
    ]
    assumptions = [
        "a build takes less than the lock timeout, no process is suspended for that long",
        "an included header is not modified while a compiler is running",
        "processes which use a fixed version name (static_version_name) at the same time use the same code",
    ]

    def prepare(self):
        prepare_base()
        import platform
        import subprocess
        import returnn.util.native_code_compiler as m
        from returnn.util import basic as util

        platform.platform()
        real = subprocess.Popen

        class P(CompilerPopen):
            def __new__(cls, *a, **k):
                if cur_task() is None:
                    return real(*a, **k)
                return object.__new__(cls)

        subprocess.Popen = P
        m.print = lambda *a, **k: None
        util.print = lambda *a, **k: None

    def generate(self, rng, tier):
        n_var = rng.choice([1, 1, 2, 3])
        static = rng.random() < 0.2
        deps = rng.random() < 0.5
        variants = []
        for i in range(n_var):
            variants.append(
                dict(
                    code="int f() { return %i; }" % rng.choice([1, 2, 2]) if rng.random() < 0.7 else "code%i" % i,
                    defs={k: rng.choice([1, 2, None]) for k in rng.sample(["X", "Y"], rng.choice([0, 1, 2]))},
                    ld=rng.choice([[], [], ["-lm"], ["-lblas"]]),
                    ver=rng.choice([1, 1, 2, (1, 2)]) if False else rng.choice([1, 1, 2]),
                    cpp=rng.random() < 0.8,
                    deps=deps,
                )
            )
        phases = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            if rng.random() < 0.25 and deps:
                phases.append(dict(kind="dep"))
            v0 = rng.randrange(n_var)
            phases.append(
                dict(
                    kind="req",
                    gap=rng.choice([0, 1, 100, 4000, 4000, 20 * DAY, 29 * DAY, 30 * DAY, 45 * DAY, 59 * DAY, 61 * DAY, 61 * DAY]),
                    dep_at=rng.choice([None, None, 1, 5, 20]) if deps else None,
                    reqs=[
                        dict(
                            v=v0 if static else rng.randrange(n_var),
                            delay=rng.choice([0, 0, 0.001, 1, 3, 10]),
                            load=rng.choice([0, 0, 0.01, 2, 30]),
                            again=rng.choice([0, 0, 1, 2]),
                        )
                        for _ in range(rng.choice([1, 2, 2, 3, 4]))
                    ],
                )
            )
        sim = dict(max_time=400 * DAY, max_events=2000000, **swarm_sched(rng))
        sim["p_kill"] = rng.choice([0, 0, 0.003, 0.01, 0.03])
        sim["max_kills"] = rng.choice([1, 1, 2, 4])
        if rng.random() < 0.25:
            sim.update(
                faults={k: rng.choice([0.003, 0.02]) for k in rng.sample(["enospc", "eio", "short_write"], rng.choice([1, 2]))},
                max_faults=rng.choice([1, 2, 4]),
            )
        if rng.random() < 0.35:
            sim.update(p_stall=rng.choice([0.01, 0.03]), stall_max=rng.choice([3, 20]), max_stalls=rng.choice([2, 6, 20]))
        return dict(
            variants=variants,
            static=static,
            mydir=rng.random() < 0.15,
            phases=phases,
            dur=rng.choice([0.01, 2, 40]),
            p_fail=rng.choice([0, 0, 0, 0.1, 0.3]),
            target=rng.choice(["any", "any", "compiler", "parent"]),
            sim=sim,
        )

    def shrink(self, params):
        for ph in shrink_list(params["phases"]):
            if ph:
                yield with_(params, phases=ph)
        for i, p in enumerate(params["phases"]):
            if p["kind"] != "req":
                continue
            for r in shrink_list(p["reqs"]):
                if r:
                    yield with_(params, phases=params["phases"][:i] + [dict(p, reqs=r)] + params["phases"][i + 1 :])
            for k, v in (("gap", 0), ("dep_at", None)):
                if p[k] != v:
                    yield with_(params, phases=params["phases"][:i] + [dict(p, **{k: v})] + params["phases"][i + 1 :])
            for j, r in enumerate(p["reqs"]):
                for k in ("delay", "load", "again"):
                    if r[k]:
                        rs = p["reqs"][:j] + [dict(r, **{k: 0})] + p["reqs"][j + 1 :]
                        yield with_(params, phases=params["phases"][:i] + [dict(p, reqs=rs)] + params["phases"][i + 1 :])
        if params["p_fail"]:
            yield with_(params, p_fail=0)
        for k in ("static", "mydir"):
            if params[k]:
                yield with_(params, **{k: False})

    def execute(self, params, chooser, log=False):
        from returnn.util.native_code_compiler import NativeCodeCompiler

        res = RunResult()
        sim = new_sim(params, chooser, log)
        v = sim.vfs
        v.add_mount("cache")
        v.add_mount("inc")
        v.god_makedirs(CACHE)
        v.god_makedirs("/simfs/inc")
        st = dict(dep=0, compilers=0, builds=0, returned=0, errors=0, n=0)
        used = {}  # so path -> (time, )
        faulty = {}  # proc -> had a fault
        building = set()

        def write_dep():
            st["dep"] += 1
            v.put(DEPS[st["dep"] % 2], b"#define DEP %i\n" % st["dep"])

        write_dep()
        write_dep()
        os.environ["RETURNN_CACHE_DIR"] = CACHE

        def compiler(args, cwd, me):
            out = args[args.index("-o") + 1]
            src = [a for a in args if re.search(r"\.(c|cc)$", a)]
            assert len(src) == 1 and out.startswith("/"), args
            with open(src[0]) as f:
                code = f.read()
            dep = 0
            for fn in DEPS:
                with open(fn) as f:
                    dep = max(dep, int(f.read().split()[-1]))
            d = dict(code=code, defs=sorted(a for a in args if a.startswith("-D") and "GLIBCXX" not in a), ld=[a for a in args if a.startswith("-l")], dep=dep, bin=args[0])
            sim.sleep(params["dur"])
            if params["p_fail"] and not st.get("nofail") and sim.choose("cfail", 2, 0, params["p_fail"]):
                sim.count_fault("compiler_error")
                me["rc"] = 1
                me["parent"].data["faulty"] = True
                return
            data = lib_content(d)
            if os.path.exists(out):
                os.unlink(out)
            fd = os.open(out, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o755)
            k = max(1, len(data) // 3)
            pos = 0
            while pos < len(data):
                pos += os.write(fd, data[pos : pos + k])
                sim.sleep(params["dur"] * 0.1)
            os.close(fd)
            me["rc"] = 0

        def hook(args, cwd):
            sim.event("compile", None)
            parent = core.cur_proc()
            me = dict(rc=None, parent=parent)
            st["compilers"] += 1
            st["builds"] += 1
            for so in [so for so in used if os.path.dirname(so) == os.path.dirname(args[args.index("-o") + 1])]:
                used.pop(so)  # being rebuilt. if that is interrupted, nobody uses the old one anymore
            p = sim.spawn_proc(lambda: compiler(args, cwd, me), name="cc%i" % st["builds"])
            p.data["cc"] = True

            def gone(pr):
                st["compilers"] -= 1
                if pr.killed_by:
                    me["rc"] = -9
                    parent.data["faulty"] = True
                elif pr.exc is not None:
                    # e.g. source file or directory is gone, or disk full
                    if not isinstance(pr.exc, (OSError, core.SimKilled)):
                        raise HarnessError("compiler: " + describe_exc(pr.exc))
                    me["rc"] = 1
                    if pr.data.get("faulty"):
                        parent.data["faulty"] = True
                pr.data["rc"] = me["rc"] if me["rc"] is not None else 1

            p.exit_hooks.append(gone)
            return p

        _state["hook"] = hook

        def make(i):
            va = params["variants"][i]
            return NativeCodeCompiler(
                base_name="mod",
                code_version=va["ver"],
                code=va["code"],
                is_cpp=va["cpp"],
                c_macro_defines=va["defs"],
                ld_flags=list(va["ld"]),
                include_deps=list(DEPS) if va["deps"] else None,
                should_cleanup_old_mydir=params["mydir"],
                static_version_name="demo" if params["static"] else None,
            )

        def expect(i):
            va = params["variants"][i]
            return dict(
                code=va["code"],
                defs=sorted("-D%s=%s" % (k, x) for k, x in va["defs"].items() if x is not None),
                ld=va["ld"],
                bin="g++" if va["cpp"] else "gcc",
            )

        def check_lib(path, i, dep0, what):
            """without events"""
            node = v.inode(path)
            if node is None:
                return "library %s does not exist (%s)" % (path, what), "missing"
            d = parse_lib(bytes(node.data))
            if d is None:
                return "library is incomplete (%s): %r" % (what, bytes(node.data)[:200]), "torn"
            dep = d.pop("dep")
            if d != expect(i):
                return "library was built from %r, requested %r (%s)" % (d, expect(i), what), "wrong"
            if params["variants"][i]["deps"] and dep < dep0:
                return "library was built with header version %i, at request time it was %i (%s)" % (dep, dep0, what), "outdated"
            return None

        def request(r, who):
            p = core.cur_proc()
            for k in range(1 + r["again"]):
                t0, dep0 = sim.now, st["dep"]
                ver0 = st["dep"]
                try:
                    path = make(r["v"]).get_lib_filename()
                except core.SimKilled:
                    raise
                except Exception as exc:
                    st["errors"] += 1
                    if p.data.get("faulty") or (params["variants"][r["v"]]["deps"] and st["dep"] != ver0):
                        return
                    res.violate("error:%s" % type(exc).__name__, "t=%.2f %s: request failed without any fault of its own: %s" % (sim.elapsed, who, describe_exc(exc)))
                    return
                st["returned"] += 1
                e = check_lib(path, r["v"], dep0, "on return")
                if not e:
                    used[path] = (sim.now, r["v"], who)
                if not e and r["load"]:
                    sim.sleep(r["load"])
                    e = check_lib(path, r["v"], dep0, "%.2f s after return" % r["load"])
                    if e and e[1] == "missing" and (params["static"] or params["mydir"]):
                        e = None
                if e:
                    res.violate(e[1], "t=%.2f %s: %s" % (sim.elapsed, who, e[0]))
                    return
                if sim.now - t0 > 3600 + 60 + 100 * (params["dur"] * 2 + 3):
                    res.violate("slow", "%s: request took %.0f s" % (who, sim.now - t0))

        def obs(op, path, p, **info):
            if op in ("unlink", "rename", "rmdir") and not p.data.get("cc"):
                for so, (t, i, who) in list(used.items()):
                    if v.inode(so) is None:
                        # (should_cleanup_old_mydir: an outdated lib is removed before it is built again)
                        outdated_ok = params["mydir"] and (params["static"] or params["variants"][i]["deps"])
                        if not outdated_ok and sim.now - t < 59.5 * DAY and t < p.data.get("t0", 0):
                            res.violate("deleted-used", "t=%.2f %s (%s) removed %s, last used %.1f days before" % (sim.elapsed, p.name, op, so, (sim.now - t) / DAY))
                        used.pop(so)

        v.observers.append(obs)
        orig_cf = sim.count_fault

        def cf(kind):
            t = cur_task()
            if t is not None:
                t.proc.data["faulty"] = True
            orig_cf(kind)

        sim.count_fault = cf
        tgt = params["target"]

        def kf(t, kind, detail):
            if t.proc.name == "drv" or t.proc.name.startswith("final"):
                return False
            cc = bool(t.proc.data.get("cc"))
            return tgt == "any" or cc == (tgt == "compiler")

        sim.kill_filter = kf

        def start(r, name):
            st["n"] += 1

            def main():
                core.cur_proc().data["t0"] = sim.now
                sim.sleep(r["delay"])
                request(r, name)

            return sim.spawn_proc(main, name=name)

        def driver():
            for k, ph in enumerate(params["phases"]):
                if res.violation:
                    return
                if ph["kind"] == "dep":
                    while st["compilers"]:
                        sim.sleep(1)
                    write_dep()
                    sim.sleep(0.001)
                    continue
                sim.sleep(ph["gap"])
                procs = [start(r, "p%i.%i" % (k, j)) for j, r in enumerate(ph["reqs"])]
                if ph["dep_at"] is not None:
                    sim.sleep(ph["dep_at"])
                    if not st["compilers"]:
                        write_dep()
                for p in procs:
                    while p.alive:
                        sim.block(p.exit_waiters, info="wait")
                    if p.exc is not None and not p.killed_by:
                        raise HarnessError("client: " + describe_exc(p.exc))
            # no more faults: a new request works again for every variant
            sim.cfg.faults = {}
            sim.cfg.p_kill = 0
            st["nofail"] = True
            while st["compilers"]:
                sim.sleep(1)
            sim.sleep(4000)
            for i in range(len(params["variants"])) if not params["static"] else [0]:
                p = start(dict(v=i, delay=0, load=1, again=0), "final%i" % i)
                while p.alive:
                    sim.block(p.exit_waiters, info="wait")
                if p.exc is not None:
                    raise HarnessError("final client: " + describe_exc(p.exc))

        sp = sim.spawn_proc(driver, name="drv")
        sp.killable = False
        try:
            run_sim(sim)
        finally:
            _state.pop("hook", None)
            os.environ.pop("RETURNN_CACHE_DIR", None)
        if sp.exc is not None and not isinstance(sp.exc, core.SimKilled):
            raise HarnessError("driver: " + describe_exc(sp.exc))
        if sim.outcome != "ok" and not res.violation:
            res.violate("hang", "%s: %s" % (sim.outcome, sim.outcome_info))
        self.collect(sim, res, dict(count={k: st[k] for k in ("builds", "returned", "errors")}, case="static" if params["static"] else "hash"))
        return res


SCENARIO = S()
