"""multiprocessing semaphores (Lock, Queue, Event, ...) and the torch data loader, inside of the simulation."""

from __future__ import annotations
import types
from .core import cur_task, WaitObj, HarnessError

_orig = {}
installed = False


class _Sem:
    """kernel object"""

    def __init__(self, value, maxvalue):
        self.value = value
        self.maxvalue = maxvalue
        self.w = WaitObj()
        self.holder = None
        self.of_event = False


def held_event_lock(proc):
    """
    Whether some thread of this process is inside of an operation of a multiprocessing.Event.
    A process killed there leaves the event locked for good (for all other processes).
    """
    return any(s.of_event and s.holder is not None and s.holder.proc is proc for s in _registry(proc.sim).values())


def _registry(sim):
    r = getattr(sim, "semaphores", None)
    if r is None:
        r = sim.semaphores = {}
    return r


class SimSemLock:
    """like _multiprocessing.SemLock"""

    SEM_VALUE_MAX = 2**31 - 1

    def __init__(self, kind, value, maxvalue, name, unlink):
        sim = cur_task().sim
        reg = _registry(sim)
        self.handle = len(reg) + 1
        reg[self.handle] = _Sem(value, maxvalue)
        self.kind = kind
        self.maxvalue = maxvalue
        self.name = None if unlink else name
        self._cnt = 0
        self._owner = None

    @classmethod
    def _rebuild(cls, handle, kind, maxvalue, name):
        o = cls.__new__(cls)
        o.handle, o.kind, o.maxvalue, o.name = handle, kind, maxvalue, name
        o._cnt = 0
        o._owner = None
        return o

    def _sem(self):
        t = cur_task()
        if t is None:
            raise HarnessError("semaphore used outside of the simulation")
        return t.sim, _registry(t.sim)[self.handle]

    def acquire(self, block=True, timeout=None):
        t = cur_task()
        if t is None:
            return True
        sim, s = self._sem()
        if self.kind == 0 and self._owner is t and self._cnt > 0:
            self._cnt += 1
            return True
        sim.event("sem-acquire", self.handle)
        deadline = None if timeout is None else sim.now + max(0.0, timeout)
        while s.value <= 0:
            if not block or (deadline is not None and sim.now >= deadline):
                return False
            sim.block(s.w, timeout=None if deadline is None else deadline - sim.now, info="sem %i" % self.handle)
        s.value -= 1
        self._cnt += 1
        self._owner = t
        s.holder = t
        return True

    def release(self):
        t = cur_task()
        if t is None:
            return
        sim, s = self._sem()
        if self.kind == 0:
            if self._owner is not t or self._cnt <= 0:
                raise AssertionError("attempt to release recursive lock not owned by thread")
            if self._cnt > 1:
                self._cnt -= 1
                return
        elif s.value >= s.maxvalue:
            raise ValueError("semaphore or lock released too many times")
        self._cnt -= 1
        self._owner = None
        s.holder = None
        s.value += 1
        sim.wake_all(s.w)
        sim.event("sem-release", self.handle)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _count(self):
        return self._cnt

    def _is_mine(self):
        return self._cnt > 0 and self._owner is cur_task()

    def _get_value(self):
        return self._sem()[1].value

    def _is_zero(self):
        return self._sem()[1].value == 0

    def _after_fork(self):
        self._cnt = 0


class _Shim:
    """replaces the module _multiprocessing in multiprocessing.synchronize"""

    def __init__(self, real):
        self._real = real
        shim = self

        class SemLock:
            SEM_VALUE_MAX = real.SemLock.SEM_VALUE_MAX

            def __new__(cls, *a):
                return SimSemLock(*a) if cur_task() is not None else real.SemLock(*a)

            @staticmethod
            def _rebuild(*a):
                return SimSemLock._rebuild(*a) if cur_task() is not None else real.SemLock._rebuild(*a)

        self.SemLock = SemLock

    def __getattr__(self, k):
        return getattr(self._real, k)


class _Rand:
    """deterministic names"""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "n%i" % self.n


def rng_handler(with_torch=True):
    """per-process state of the global random generators"""
    import random
    import numpy

    if with_torch:
        import torch

    def get():
        return random.getstate(), numpy.random.get_state(), torch.get_rng_state() if with_torch else None

    def set_(v):
        random.setstate(v[0])
        numpy.random.set_state(v[1])
        if with_torch:
            torch.set_rng_state(v[2])

    random.seed(42)
    numpy.random.seed(42)
    if with_torch:
        torch.manual_seed(42)
    init = get()
    return get, set_, lambda: init


def install():
    """before this: procs.install()"""
    global installed
    if installed:
        return
    installed = True
    import multiprocessing.synchronize as s
    import multiprocessing.resource_tracker as rt

    s._multiprocessing = _Shim(s._multiprocessing)
    _orig["Event.__init__"] = s.Event.__init__

    def event_init(self, *, ctx):
        _orig["Event.__init__"](self, ctx=ctx)
        t = cur_task()
        if t is not None:
            _registry(t.sim)[self._cond._lock._semlock.handle].of_event = True

    s.Event.__init__ = event_init
    s.SemLock._rand = _Rand()
    _orig["sem_unlink"] = s.sem_unlink
    s.sem_unlink = lambda name: None if cur_task() is not None or name.startswith("/mp-n") else _orig["sem_unlink"](name)
    for n in ("register", "unregister"):
        _orig[n] = getattr(rt, n)
        setattr(rt, n, lambda name, rtype, _f=_orig[n]: None if cur_task() is not None or name.startswith("/mp-n") else _f(name, rtype))


def install_torch():
    """torch data loader"""
    install()
    import io
    import torch
    import torch.multiprocessing
    import torch.utils.data
    from multiprocessing.reduction import ForkingPickler
    from torch.utils.data._utils import signal_handling

    # by value, instead of shared memory
    def reduce_tensor(t):
        return _rebuild_tensor, (t.detach().contiguous().numpy(),)

    ForkingPickler.register(torch.Tensor, reduce_tensor)

    # like the C handlers: SIGCHLD -> RuntimeError in the main thread, if one of the registered workers failed
    def set_worker_pids(key, pids):
        t = cur_task()
        p = t.proc
        p.data.setdefault("tdl", {})[key] = pids
        for q in t.sim.procs:
            if q.pid in pids:
                q.exit_hooks.append(lambda q_, p=p, key=key: on_exit(q_, p, key))

    def on_exit(q, p, key):
        if p.alive and q.exit_code and key in p.data.get("tdl", {}):
            p.data["tdl_exc"] = RuntimeError("DataLoader worker (pid %i) failed: %s" % (q.pid, q.exit_code))
            q.sim.interrupt(p.main_task, p.data["tdl_exc"])

    def remove_worker_pids(key):
        t = cur_task()
        if t is None:
            return
        p = t.proc
        p.data.get("tdl", {}).pop(key, None)
        if p.main_task.pending_exc is not None and p.main_task.pending_exc is p.data.get("tdl_exc"):
            p.main_task.pending_exc = None

    from torch.utils.data._utils import worker

    wd = worker.ManagerWatchdog
    _orig["wd_init"] = wd.__init__

    def wd_init(self):
        _orig["wd_init"](self)
        if cur_task() is not None:
            cur_task().proc.data["watchdog"] = True

    wd.__init__ = wd_init
    signal_handling._set_worker_signal_handlers = lambda *a: None
    signal_handling._set_worker_pids = set_worker_pids
    signal_handling._remove_worker_pids = remove_worker_pids
    signal_handling._set_SIGCHLD_handler = lambda *a: None


def _rebuild_tensor(a):
    import torch

    return torch.from_numpy(a.copy()) if a.shape else torch.tensor(a)
