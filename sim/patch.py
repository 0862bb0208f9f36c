"""
Installs the seams. Must run before RETURNN (and anything that does `from threading import Lock`) is imported,
except for torch/TF/numpy which may be imported before (their own module-level locks stay real and are never held
across scheduling points).
"""

from __future__ import annotations
import _thread
import atexit
import os
import sys
import threading
import time
import random as _random_mod

from . import core
from .core import Sim, SimLock, SimRLock, cur_task, cur_proc, _tasks_by_ident, _real_get_ident

installed = False
_orig = {}


class _Sentinel(SimLock):
    __slots__ = ()


def _sim_start_new_thread(func, args, kwargs=None):
    t = cur_task()
    if t is None:
        return _orig["start_new_thread"](func, args, kwargs or {})
    sim = t.sim
    owner = getattr(func, "__self__", None)  # threading.Thread
    name = getattr(owner, "_name", None) or getattr(func, "__name__", "thread")

    def main():
        func(*args, **(kwargs or {}))

    nt = sim.spawn(main, name="%s/%s" % (t.proc.name, _short(name)), proc=t.proc)
    if isinstance(owner, threading.Thread):
        t.proc.data.setdefault("threads", []).append(owner)
    sim.event("thread-start", _short(name))
    return nt.id


def _short(name):
    name = str(name)
    # object ids in names would be nondeterministic
    import re

    return re.sub(r"0x[0-9a-f]+|\b\d{6,}\b", "#", name)[:40]


def _sim_set_sentinel():
    t = cur_task()
    if t is None:
        return _orig["set_sentinel"]()
    lock = _Sentinel()

    def done(_t):
        # like C: released when the thread state goes away
        if lock._locked:
            lock._locked = False
            lock._owner = None
            t.sim.wake_all(lock._w)

    t.done_cb.append(done)
    return lock


def _time():
    t = cur_task()
    if t is None:
        s = Sim.active
        if s is None:
            return core.real_time()
        return s.now + s.epoch0
    return t.sim.now + t.sim.epoch0 + t.proc.clock_skew


def _monotonic():
    t = cur_task()
    if t is None:
        return core.real_monotonic()
    return t.sim.now


def _perf_counter():
    t = cur_task()
    if t is None:
        return core.real_perf_counter()
    return t.sim.now


def _sleep(secs):
    t = cur_task()
    if t is None:
        return core.real_sleep(secs)
    t.sim.sleep(secs)


def _getpid():
    p = cur_proc()
    return p.pid if p is not None else _orig["getpid"]()


def _getppid():
    p = cur_proc()
    if p is None:
        return _orig["getppid"]()
    return p.parent.pid if p.parent is not None and p.parent.alive else 1


def _atexit_register(func, *args, **kwargs):
    p = cur_proc()
    if p is None:
        return _orig["atexit_register"](func, *args, **kwargs)
    p.atexit.append((func, args, kwargs))
    return func


def _atexit_unregister(func):
    p = cur_proc()
    if p is None:
        return _orig["atexit_unregister"](func)
    p.atexit[:] = [x for x in p.atexit if not (x[0] == func)]


def _interrupt_main(signum=2):
    t = cur_task()
    if t is None:
        return _orig["interrupt_main"](signum)
    t.sim.probe("interrupt_main")
    t.sim.interrupt(t.proc.main_task, KeyboardInterrupt())


def _urandom(n):
    t = cur_task()
    if t is None:
        return _orig["urandom"](n)
    sim = t.sim
    sim.uuid_counter += 1
    r = _random_mod.Random(sim.uuid_counter * 7919 + 13)
    return bytes(r.getrandbits(8) for _ in range(n))


def install():
    global installed
    if installed:
        return
    installed = True
    _orig["start_new_thread"] = _thread.start_new_thread
    _orig["set_sentinel"] = _thread._set_sentinel
    _orig["interrupt_main"] = _thread.interrupt_main
    _orig["getpid"] = os.getpid
    _orig["getppid"] = os.getppid
    _orig["urandom"] = os.urandom
    _orig["atexit_register"] = atexit.register
    _orig["atexit_unregister"] = atexit.unregister

    threading._start_new_thread = _sim_start_new_thread
    threading._set_sentinel = _sim_set_sentinel
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    threading.RLock = SimRLock
    _thread.start_new_thread = _sim_start_new_thread
    _thread.interrupt_main = _interrupt_main
    time.time = _time
    time.monotonic = _monotonic
    time.perf_counter = _perf_counter
    time.sleep = _sleep
    time.time_ns = lambda: int(_time() * 1e9)
    time.monotonic_ns = lambda: int(_monotonic() * 1e9)
    threading._time = _monotonic
    try:
        import queue

        queue.time = _monotonic
    except ImportError:
        pass
    os.getpid = _getpid
    os.getppid = _getppid
    os.urandom = _urandom
    atexit.register = _atexit_register
    atexit.unregister = _atexit_unregister
    threading._register_atexit = lambda f, *a, **k: None
    # an interactive debugger or noisy hooks must never run in here
    sys.unraisablehook = lambda *_a: None
    threading.excepthook = _thread_excepthook


def _thread_excepthook(args):
    t = cur_task()
    if t is not None and args.exc_type is not None and not issubclass(args.exc_type, core.SimKilled):
        t.proc.data.setdefault("thread_exceptions", []).append((t.name, args.exc_value))
        if t.exc is None:
            t.exc = args.exc_value


class LineHook:
    """
    Statement-level preemption, via sys.monitoring LINE events in selected files.
    """

    TOOL = 4

    def __init__(self, sim, files):
        self.sim = sim
        self.files = tuple(files)
        self.cache = {}

    def start(self):
        mon = sys.monitoring
        if mon.get_tool(self.TOOL) is None:
            mon.use_tool_id(self.TOOL, "sim")
        mon.register_callback(self.TOOL, mon.events.LINE, self._on_line)
        mon.restart_events()
        mon.set_events(self.TOOL, mon.events.LINE)

    def stop(self):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)

    def thread_start(self):
        pass

    def _on_line(self, code, _line):
        fn = code.co_filename
        ok = self.cache.get(fn)
        if ok is None:
            ok = self.cache[fn] = any(fn.endswith(f) for f in self.files)
        if not ok:
            return sys.monitoring.DISABLE
        t = _tasks_by_ident.get(_real_get_ident())
        if t is None or t.killed or code.co_name == "<module>":
            return None
        sim = t.sim
        sim.event("line", None, sim.cfg.p_line)
        return None
