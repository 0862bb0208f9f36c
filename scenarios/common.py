"""shared by all scenarios"""

from __future__ import annotations
import contextlib
import os
import sys

from sim import core, patch, vfs
from sim.core import Sim, SimConfig, Chooser, HarnessError, cur_task
from sim.runner import Scenario, RunResult, REPO

_prepared = False


def prepare_base():
    """install the seams and import the basics of RETURNN"""
    global _prepared
    if _prepared:
        return
    _prepared = True
    import tempfile, shutil, pathlib, json, queue, logging, subprocess, multiprocessing, glob, gzip, typing  # noqa
    import numpy  # noqa

    patch.install()
    vfs.install()
    os.environ.setdefault("USER", "sim")
    import returnn  # noqa

    assert os.path.realpath(returnn.__file__).startswith(os.path.realpath(REPO) + "/"), returnn.__file__
    import returnn.util.basic  # noqa
    import returnn.config  # noqa
    import returnn.log  # noqa

    silence()


def silence():
    """exception hooks print long tracebacks incl. variables. only logging, not behaviour"""
    from returnn.util import better_exchook

    better_exchook.install = lambda *a, **k: None
    sys.excepthook = _excepthook
    from returnn.log import log

    null = open(os.devnull, "w")
    try:
        log.initialize(verbosity=[0])
    except Exception:
        pass
    for i in range(6):
        for nm in ("v%i" % i,):
            if hasattr(log, nm):
                try:
                    setattr(log, nm, null)
                except Exception:
                    pass


@contextlib.contextmanager
def log_verbosity(verbose):
    """log everything (to nowhere) within this context"""
    from returnn.log import log

    old = list(log.verbose)
    if verbose:
        log.verbose[:] = [True] * len(old)
    try:
        yield
    finally:
        log.verbose[:] = old


def _excepthook(et, ev, tb):
    t = cur_task()
    if t is not None:
        t.proc.data.setdefault("excepthook", []).append(ev)


def new_sim(params, chooser, log=False, with_vfs=True, lines=()):
    sim = Sim(chooser, SimConfig(params.get("sim")), log=log)
    if with_vfs:
        v = vfs.VFS(sim)
        sim.vfs = v
        vfs.set_active(v)
    if lines and sim.cfg.p_line:
        sim.line_hook = patch.LineHook(sim, [REPO + "/" + f for f in lines])
    return sim


def run_sim(sim):
    try:
        if sim.line_hook:
            sim.line_hook.start()
        sim.run()
    finally:
        if sim.line_hook:
            sim.line_hook.stop()
        vfs.set_active(None)


def swarm_sched(rng, lines=False):
    """random scheduler knobs"""
    d = dict(p_switch=rng.choice([0.0, 0.02, 0.1, 0.3, 0.6]), p_block=rng.choice([0.2, 1.0, 1.0]))
    if lines:
        d["p_line"] = rng.choice([0.0, 0.02, 0.1, 0.3])
    return d


def describe_exc(exc):
    import traceback

    return ("%s: %s\n" % (type(exc).__name__, exc))[:300] + "".join(traceback.format_exception(exc))[-1200:]


def shrink_list(lst):
    """candidates with one element less (and halves)"""
    n = len(lst)
    if n >= 4:
        yield lst[: n // 2]
        yield lst[n // 2 :]
    for i in range(n):
        yield lst[:i] + lst[i + 1 :]


def with_(params, **kw):
    p = dict(params)
    p.update(kw)
    return p
