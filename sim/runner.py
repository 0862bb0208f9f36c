"""
Batch runner: seeds -> runs over several OS processes, aggregation, minimisation, replay, evidence.
"""

from __future__ import annotations
import argparse
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import re
import random
import select
import subprocess
import sys
import time
import traceback

from . import core
from .core import Chooser, HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)
PY = sys.executable
RUN_WATCHDOG_S = 100


def derive_seed(*parts):
    h = hashlib.sha256(("|".join(map(str, parts))).encode()).digest()
    return int.from_bytes(h[:8], "big")


class RunResult:
    """outcome of one simulated run"""

    def __init__(self):
        self.violation = None  # (class, message)
        self.stats = {}

    def violate(self, cls, msg):
        if self.violation is None:
            self.violation = (cls, str(msg)[:2000])


class Scenario:
    """base class"""

    id = None
    quick_runs = 400
    thorough_runs = 20000
    quick_time = 150.0
    thorough_time = 3000.0
    rule = ""
    real_components = ()
    stub_components = ()
    assumptions = ()
    level = "exploration"

    def prepare(self):
        """imports etc, once per worker process"""

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, params, chooser, log=False) -> RunResult:
        raise NotImplementedError

    def shrink(self, params):
        return ()

    # helper
    @staticmethod
    def collect(sim, res: RunResult, extra=None):
        s = res.stats
        s["events"] = sim.ev
        s["switches"] = sim.n_switch
        s["sim_time"] = sim.elapsed
        s["faults"] = dict(sim.fault_counts)
        s["probes"] = dict(sim.probes)
        s["digest"] = "%016x" % sim.digest
        s["sched_digest"] = "%016x" % sim.sched_digest
        s["outcome"] = sim.outcome
        if sim.vfs is not None:
            s["syscalls"] = sum(sim.vfs.op_counts.values())
        if extra:
            s.update(extra)
        if sim.log is not None:
            s["log"] = sim.log


def load_scenario(prop_id) -> Scenario:
    for fn in sorted(os.listdir(VERIF + "/scenarios")):
        if fn.lower().startswith(prop_id.lower() + "_") and fn.endswith(".py"):
            mod = importlib.import_module("scenarios." + fn[:-3])
            return mod.SCENARIO
    raise SystemExit("no scenario for %s" % prop_id)


def child_env():
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=env.get("VERIF_HASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TF_NUM_INTRAOP_THREADS="1",
        TF_NUM_INTEROP_THREADS="1",
        TF_USE_LEGACY_KERAS="1",
        CUDA_VISIBLE_DEVICES="",
        TF_CPP_MIN_LOG_LEVEL="3",
        PYTHONPATH=VERIF + ":" + REPO,
        PATH=os.path.dirname(PY) + ":" + env.get("PATH", ""),
    )
    env.pop("PYTHONPYCACHEPREFIX", None)
    return env


# ------------------------------------------------------------------------------------------------ in worker


def _run_one(scn, params, chooser, log=False):
    gc.disable()
    try:
        return scn.execute(params, chooser, log=log)
    finally:
        gc.enable()
        gc.collect(0)


def gen_run(scn, tier, base_seed, i):
    rng = random.Random(derive_seed(base_seed, scn.id, i, "params"))
    params = json.loads(json.dumps(scn.generate(rng, tier)))  # exactly as in a replay file
    return params, Chooser(derive_seed(base_seed, scn.id, i, "sched"))


def classify_exception(exc):
    """violation if the innermost frame is in the code under test, else a harness error"""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and last.startswith(REPO + "/")


def _guarded_run(scn, params, chooser, log=False):
    try:
        return _run_one(scn, params, chooser, log=log)
    except HarnessError:
        raise
    except Exception as exc:
        if classify_exception(exc):
            res = RunResult()
            res.violate("unexpected-exception:%s" % type(exc).__name__, "".join(traceback.format_exception(exc))[-1800:])
            return res
        raise


def _out_stream():
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    if not os.environ.get("VERIF_STDERR"):
        sys.stderr = sys.stdout
    return out


def _emit(out, obj):
    out.write(json.dumps(obj) + "\n")
    out.flush()


def worker_main(a):
    out = _out_stream()
    err = os.fdopen(os.dup(2), "w")
    try:
        scn = load_scenario(a.prop)
        scn.prepare()
        gc.collect()
        gc.freeze()
        deadline = core.real_monotonic() + a.time
        _emit(out, {"t": "ready"})
        i = a.w
        n_since_gc = 0
        while i < a.runs:
            if core.real_monotonic() > deadline:
                _emit(out, {"t": "timeup", "i": i})
                break
            _emit(out, {"t": "start", "i": i})
            faulthandler.dump_traceback_later(RUN_WATCHDOG_S, exit=True, file=err)
            params, ch = gen_run(scn, a.tier, a.seed, i)
            t0 = core.real_monotonic()
            res = _guarded_run(scn, params, ch)
            faulthandler.cancel_dump_traceback_later()
            if os.environ.get("VERIF_REPLAY_CHECK") == "1":
                res2 = _guarded_run(scn, json.loads(json.dumps(params)), Chooser(deviations=json.loads(json.dumps(ch.dev))))
                if res2.stats.get("digest") != res.stats.get("digest") or (res2.violation or [None])[0] != (res.violation or [None])[0]:
                    raise HarnessError("run %i: replay of the recorded decisions differs" % i)
            rec = {"t": "run", "i": i, "stats": res.stats, "wall": core.real_monotonic() - t0}
            if res.violation:
                rec["violation"] = list(res.violation)
                rec["params"] = params
                rec["dev"] = ch.dev
            if i < 2 * a.nw:
                rec["sample_params"] = params
            _emit(out, rec)
            n_since_gc += 1
            if n_since_gc >= 50:
                gc.collect()
                n_since_gc = 0
            i += a.nw
        _emit(out, {"t": "done"})
    except BaseException:
        err.write(traceback.format_exc())
        err.flush()
        os._exit(3)
    out.flush()
    os._exit(0)


def _ddmin_keys(keys, test):
    """classic ddmin on a list of keys; test(subset) -> bool (still fails)"""
    n = 2
    while len(keys) >= 1:
        chunk = max(1, len(keys) // n)
        subsets = [keys[j : j + chunk] for j in range(0, len(keys), chunk)]
        reduced = False
        for s in subsets:
            sset = set(s)
            rest = [k for k in keys if k not in sset]
            if test(rest):
                keys = rest
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if chunk == 1:
                break
            n = min(n * 2, len(keys))
    return keys


def _dev_key(k):
    """:return: (event number, kind)"""
    m = re.match(r"(\d+)(.*)$", k)
    return int(m.group(1)), m.group(2)


def minimise_main(a):
    out = _out_stream()
    err = os.fdopen(os.dup(2), "w")
    try:
        with open(a.file) as f:
            rep = json.load(f)
        scn = load_scenario(rep["property"])
        scn.prepare()
        deadline = core.real_monotonic() + a.time
        cls = rep["violation"][0]
        n_runs = 0

        def fails(params, dev):
            nonlocal n_runs
            if core.real_monotonic() > deadline:
                return False
            n_runs += 1
            faulthandler.dump_traceback_later(RUN_WATCHDOG_S, exit=True, file=err)
            try:
                res = _guarded_run(scn, params, Chooser(deviations=dev))
            except Exception:
                return False
            finally:
                faulthandler.cancel_dump_traceback_later()
            return bool(res.violation) and res.violation[0] == cls

        params, dev = rep["params"], rep["dev"]
        if fails(params, dev):
            def save():
                rep["params"], rep["dev"], rep["minimised"] = params, dev, True
                rep["minimise_runs"] = n_runs
                with open(a.file, "w") as f:
                    json.dump(rep, f, indent=1)
            changed = True
            rounds = 0
            while changed and core.real_monotonic() < deadline and rounds < 6:
                rounds += 1
                changed = False
                # first all deviations off / by kind
                for kinds in ("s", "b", "z", "sb", "f", "k", "x", "sbzx"):
                    d2 = {k: v for k, v in dev.items() if _dev_key(k)[1][0] not in kinds}
                    if len(d2) < len(dev) and fails(params, d2):
                        dev = d2
                        changed = True
                progress = True
                while progress and core.real_monotonic() < deadline:
                    progress = False
                    for cand in scn.shrink(params):
                        if fails(cand, dev):
                            params = cand
                            progress = changed = True
                            break
                        if core.real_monotonic() > deadline:
                            break
                keys = sorted(dev, key=_dev_key)
                k2 = _ddmin_keys(keys, lambda ks: fails(params, {k: dev[k] for k in ks}))
                if len(k2) < len(keys):
                    changed = True
                    dev = {k: dev[k] for k in k2}
                save()
            save()
            # final: record log
            res = _guarded_run(scn, params, Chooser(deviations=dev), log=True)
            if res.violation:
                rep["violation"] = list(res.violation)
            rep["trace"] = (res.stats.get("log") or [])[-400:]
            rep["trace_digest"] = res.stats.get("digest")
            save()
            _emit(out, {"ok": True, "n": n_runs})
        else:
            _emit(out, {"ok": False, "n": n_runs})
    except BaseException:
        err.write(traceback.format_exc())
        err.flush()
        os._exit(3)
    os._exit(0)


def replay_main(a):
    out = _out_stream()
    err = os.fdopen(os.dup(2), "w")
    try:
        with open(a.file) as f:
            rep = json.load(f)
        scn = load_scenario(rep["property"])
        scn.prepare()
        if rep.get("hang"):
            faulthandler.dump_traceback_later(RUN_WATCHDOG_S, exit=True, file=err)
        res = _guarded_run(scn, rep["params"], Chooser(deviations=rep["dev"]), log=a.log)
        r = {"violation": res.violation, "digest": res.stats.get("digest"), "stats": {k: v for k, v in res.stats.items() if k != "log"}}
        if a.log:
            r["log"] = res.stats.get("log")
        _emit(out, r)
    except BaseException:
        err.write(traceback.format_exc())
        err.flush()
        os._exit(3)
    os._exit(0)


# ------------------------------------------------------------------------------------------------ main side


def _spawn(args):
    return subprocess.Popen([PY, "-B", VERIF + "/check.py"] + args, env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF)


class _WorkerReader:
    def __init__(self, args):
        self.proc = _spawn(args)
        self.buf = b""
        self.cur = None
        self.err = b""
        os.set_blocking(self.proc.stdout.fileno(), False)
        os.set_blocking(self.proc.stderr.fileno(), False)
        self.eof = False

    def pump(self):
        recs = []
        try:
            while True:
                d = self.proc.stdout.read(1 << 16)
                if d is None:
                    break
                if not d:
                    self.eof = True
                    break
                self.buf += d
        except BlockingIOError:
            pass
        try:
            d = self.proc.stderr.read(1 << 16)
            if d:
                self.err = (self.err + d)[-8000:]
        except BlockingIOError:
            pass
        *lines, self.buf = self.buf.split(b"\n")
        for l in lines:
            if l.strip():
                recs.append(json.loads(l))
        return recs


def known_findings(prop):
    """list of dict(property, class, what, status)"""
    fn = VERIF + "/known_findings.json"
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def run_batch(prop, tier, seed, *, runs, budget, workers, stop_on_violation=True, collect_digests=False):
    """
    :return: dict
    """
    known = {e["class"]: e for e in known_findings(prop) if e["status"] == "known"}
    ws = [
        _WorkerReader(["worker", prop, "--tier", tier, "--seed", str(seed), "--w", str(w), "--nw", str(workers), "--runs", str(runs), "--time", str(budget)])
        for w in range(workers)
    ]
    agg = dict(
        runs=0, events=0, switches=0, sim_time=0.0, faults={}, probes={}, outcomes={}, syscalls=0, digests=set(),
        nontrivial=0, sched=set(), samples=[], violations=[], known_hits={}, hangs=[], errors=[], max_wall=0.0, timeup=0, extra={},
    )
    by_seed = {}
    t0 = time.monotonic()
    hard = t0 + budget + 240
    live = list(ws)
    stop = False
    while live:
        fds = []
        for w in live:
            fds += [w.proc.stdout, w.proc.stderr]
        select.select(fds, [], [], 1.0)
        for w in list(live):
            for r in w.pump():
                if r["t"] == "start":
                    w.cur = r["i"]
                elif r["t"] == "timeup":
                    agg["timeup"] += 1
                elif r["t"] == "run":
                    w.cur = None
                    s = r["stats"]
                    agg["runs"] += 1
                    agg["max_wall"] = max(agg["max_wall"], r["wall"])
                    for k in ("events", "switches", "sim_time", "syscalls"):
                        agg[k] += s.get(k, 0)
                    for k in ("faults", "probes"):
                        for kk, v in (s.get(k) or {}).items():
                            agg[k][kk] = agg[k].get(kk, 0) + v
                    for kk, v in (s.get("count") or {}).items():
                        agg["extra"][kk] = agg["extra"].get(kk, 0) + v
                    o = s.get("outcome")
                    agg["outcomes"][o] = agg["outcomes"].get(o, 0) + 1
                    d = s.get("digest")
                    if s.get("switches", 0) > 1 or s.get("faults") or s.get("nontrivial"):
                        agg["digests"].add((d, s.get("sched_digest"), s.get("case")))
                    agg["sched"].add(s.get("sched_digest"))
                    if collect_digests:
                        by_seed[r["i"]] = (d, s.get("sched_digest"), s.get("events"), json.dumps(s.get("result"), sort_keys=True), r.get("violation") and r["violation"][0])
                    if "sample_params" in r and len(agg["samples"]) < 4:
                        agg["samples"].append({"run": r["i"], "params": r["sample_params"], "faults": s.get("faults"), "events": s.get("events"), "switches": s.get("switches")})
                    if r.get("violation"):
                        if r["violation"][0] in known:
                            k = r["violation"][0]
                            agg["known_hits"][k] = agg["known_hits"].get(k, 0) + 1
                        else:
                            agg["violations"].append(r)
                            if stop_on_violation:
                                stop = True
            if w.eof:
                rc = w.proc.wait()
                w.pump()
                live.remove(w)
                if rc != 0 and not stop:
                    if w.cur is not None and b"Timeout (" in w.err:
                        agg["hangs"].append((w.cur, w.err.decode(errors="replace")[-3000:]))
                        if stop_on_violation:
                            stop = True
                    else:
                        agg["errors"].append((w.cur, rc, w.err.decode(errors="replace")[-6000:]))
                        stop = True
        if stop or time.monotonic() > hard:
            if not stop:
                agg["errors"].append((None, None, "batch exceeded hard time limit"))
            for w in live:
                w.proc.kill()
                w.proc.wait()
            break
    agg["wall"] = time.monotonic() - t0
    if collect_digests:
        agg["by_seed"] = by_seed
    return agg


def evidence(prop, scn, tier, seed, agg, n_viol, wall):
    os.makedirs(OUT + "/evidence", exist_ok=True)
    runs = agg["runs"]
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(agg["digests"]),
        rule=scn.rule
        or "one evaluation = one simulated run from one seed; distinct = different event/schedule digest; non-trivial = at least one context switch between tasks or one injected fault",
        samples=agg["samples"],
        runs_per_hour=round(runs / max(agg["wall"], 1e-3) * 3600),
        simulated_seconds=round(agg["sim_time"], 1),
        events=agg["events"],
        context_switches=agg["switches"],
        intercepted_file_operations=agg["syscalls"],
        distinct_schedules=len(agg["sched"]),
        faults_injected=agg["faults"],
        probes=agg["probes"],
        run_outcomes={str(k): v for k, v in agg["outcomes"].items()},
        real_code=list(scn.real_components),
        stubs=list(scn.stub_components),
        known_finding_hits=agg["known_hits"],
        workload_counts=agg["extra"],
        stopped_by_time_budget=bool(agg["timeup"]),
    )
    ev = dict(
        property=prop, tier=tier, seed=seed, level=scn.level, coverage=cov, wall_s=round(wall, 2), violations=n_viol,
        assumptions=list(scn.assumptions),
    )
    tmp = OUT + "/evidence/%s.json.tmp" % prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, OUT + "/evidence/%s.json" % prop)


def _write_replay(prop, seed, rec):
    os.makedirs(OUT + "/replays", exist_ok=True)
    fn = "%s/replays/%s-seed%s-run%s.json" % (OUT, prop, seed, rec["i"])
    with open(fn, "w") as f:
        json.dump(dict(property=prop, base_seed=seed, run=rec["i"], violation=rec["violation"], params=rec["params"], dev=rec["dev"]), f, indent=1)
    return fn


def _run_sub(args, timeout):
    p = _spawn(args)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return None, e.decode(errors="replace")
    lines = [l for l in o.decode().splitlines() if l.strip()]
    return (json.loads(lines[-1]) if lines else None), e.decode(errors="replace")


def check_main(a):
    tier = os.environ.get("VERIF_TIER", "quick") if a.tier is None else a.tier
    seed = int(os.environ.get("VERIF_SEED", "1")) if a.seed is None else a.seed
    prop = a.prop
    from sim import patch  # noqa: only to have the import error early

    scn = load_scenario_meta(prop)
    runs = a.runs or (scn.quick_runs if tier == "quick" else scn.thorough_runs)
    budget = a.time or (scn.quick_time if tier == "quick" else scn.thorough_time)
    t0 = time.monotonic()
    print("check %s tier=%s seed=%i runs<=%i budget=%.0fs workers=%i" % (prop, tier, seed, runs, budget, a.workers), flush=True)
    agg = run_batch(prop, tier, seed, runs=runs, budget=budget, workers=a.workers)
    viol = agg["violations"]
    rc = 0
    if viol:
        viol.sort(key=lambda r: r["i"])
        rec = viol[0]
        fn = _write_replay(prop, seed, rec)
        orig = open(fn).read()
        print("run %i: %s: %s" % (rec["i"], rec["violation"][0], rec["violation"][1][:600]), flush=True)
        _run_sub(["minimise", fn, "--time", str(a.min_time)], a.min_time + 150)
        r, err = _run_sub(["replay", fn], 200)
        same = r and r.get("violation") and r["violation"][0] == rec["violation"][0]
        if not same:
            with open(fn, "w") as f:
                f.write(orig)
            r, err = _run_sub(["replay", fn], 200)
            same = r and r.get("violation") and r["violation"][0] == rec["violation"][0]
        if same:
            rep = json.load(open(fn))
            print("minimised: %i deviations; %s" % (len(rep["dev"]), rep["violation"][1][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, fn), flush=True)
            rc = 1
        else:
            print("ERROR: violation did not reproduce in a fresh process: %s %s" % (r, err[-2000:]))
            rc = 3
    elif agg["hangs"]:
        i, err = agg["hangs"][0]
        # confirm: the same run alone in a fresh process must hang as well
        params, _ = gen_run(scn, tier, seed, i)
        r, err2 = _run_sub(["worker", prop, "--tier", tier, "--seed", str(seed), "--w", str(i), "--nw", "100000000", "--runs", str(i + 1), "--time", "600"], RUN_WATCHDOG_S + 120)
        if "Timeout (" in (err2 or "") and (REPO + "/") in err2:
            os.makedirs(OUT + "/replays", exist_ok=True)
            fn = "%s/replays/%s-seed%s-run%s-hang.json" % (OUT, prop, seed, i)
            with open(fn, "w") as f:
                json.dump(dict(property=prop, base_seed=seed, run=i, hang=True, tier=tier, params=params, dev={}, violation=["hang", err2[-1500:]]), f, indent=1)
            print("run %i: code under test does not come back (no scheduling point for %is)" % (i, RUN_WATCHDOG_S))
            print("VIOLATION property=%s replay=%s" % (prop, fn), flush=True)
            rc = 1
        else:
            print("ERROR: worker hang: %s" % err)
            rc = 3
    if agg["errors"] and rc == 0:
        for e in agg["errors"]:
            print("ERROR in worker, run %s rc %s:\n%s" % e)
        rc = 3
    for e in known_findings(prop):
        if e["status"] == "known":
            print("KNOWN-FINDING: property=%s %s (hit %i times)" % (prop, e["what"], agg["known_hits"].get(e["class"], 0)))
    if agg["runs"] == 0 and rc == 0:
        print("ERROR: no runs")
        rc = 3
    evidence(prop, scn, tier, seed, agg, len(viol), time.monotonic() - t0)
    print(
        "%s: %i runs, %i distinct, %i events, sim time %.0fs, faults %s, wall %.1fs -> exit %i"
        % (prop, agg["runs"], len(agg["digests"]), agg["events"], agg["sim_time"], agg["faults"], time.monotonic() - t0, rc)
    )
    if a.verbose:
        print("probes:", agg["probes"], "outcomes:", agg["outcomes"], "extra:", agg["extra"], "max_wall:", agg["max_wall"])
    sys.stdout.flush()
    return rc


def load_scenario_meta(prop):
    """in the main process: no patches, no heavy imports (scenario modules import lazily in prepare)"""
    return load_scenario(prop)


def determinism_main(a):
    """run the same seeds twice, with different worker counts and hash seeds; diff all digests"""
    res = []
    for nw, hs in ((a.workers, "0"), (max(1, a.workers // 2), "0"), (a.workers, "1234")):
        os.environ["VERIF_HASHSEED"] = hs
        os.environ["VERIF_REPLAY_CHECK"] = "1" if not res else "0"
        agg = run_batch(a.prop, a.tier or "quick", a.seed or 1, runs=a.runs, budget=a.time or 600, workers=nw, stop_on_violation=False, collect_digests=True)
        if agg["errors"] or agg["hangs"]:
            print("errors", agg["errors"], agg["hangs"])
            return 3
        res.append(agg["by_seed"])
    bad = 0
    for i in sorted(res[0]):
        vals = [r.get(i) for r in res]
        if any(v is None for v in vals):
            continue
        if len(set(vals)) != 1:
            bad += 1
            if bad <= 5:
                print("run %i differs: %s" % (i, vals))
    print("%s: %i seeds x 3 executions, %i differ" % (a.prop, len(res[0]), bad))
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd")
    w = sub.add_parser("worker")
    w.add_argument("prop")
    w.add_argument("--tier", default="quick")
    w.add_argument("--seed", type=int, default=1)
    w.add_argument("--w", type=int, default=0)
    w.add_argument("--nw", type=int, default=1)
    w.add_argument("--runs", type=int, default=10)
    w.add_argument("--time", type=float, default=60)
    m = sub.add_parser("minimise")
    m.add_argument("file")
    m.add_argument("--time", type=float, default=60)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--log", action="store_true")
    for name in ("run", "determinism"):
        c = sub.add_parser(name)
        c.add_argument("prop")
        c.add_argument("--tier", default=None)
        c.add_argument("--seed", type=int, default=None)
        c.add_argument("--runs", type=int, default=None if name == "run" else 200)
        c.add_argument("--time", type=float, default=None)
        c.add_argument("--workers", type=int, default=max(1, min(8, os.cpu_count() or 1)))
        c.add_argument("--min-time", type=float, default=60)
        c.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    if a.cmd == "worker":
        worker_main(a)
    elif a.cmd == "minimise":
        minimise_main(a)
    elif a.cmd == "replay":
        if os.environ.get("VERIF_REPLAY_CHILD") != "1" and os.environ.get("PYTHONHASHSEED") != "0":
            env = child_env()
            os.execve(PY, [PY, "-B", VERIF + "/check.py"] + sys.argv[1:], env)
        replay_main(a)
    elif a.cmd == "run":
        sys.exit(check_main(a))
    elif a.cmd == "determinism":
        sys.exit(determinism_main(a))
    else:
        ap.print_help()
        sys.exit(2)
