"""
Simulated OS processes and pipes: os.pipe/read/write/close/kill/waitpid/fork for simulated processes,
multiprocessing.Pipe and the "spawn" start method.
Everything is only active inside of simulated tasks, otherwise the originals are called.

Real code on top of it: multiprocessing.connection.Connection (framing of messages), pickling of the process object
(multiprocessing.reduction), BaseProcess, popen_fork.Popen (poll/wait/terminate via waitpid/kill/sentinel),
multiprocessing.util finalizers and exit function, RETURNN's NonDaemonicSpawnProcess.
"""

from __future__ import annotations
import errno
import io
import os
import pickle
import signal
import sys

from . import core
from .core import cur_task, WaitObj, SimKilled, HarnessError

FD0 = 1 << 20  # simulated pipe fds start here
PIPE_CAP = 1 << 16
SOCK_CAP = 208 * 1024

_orig = {}
installed = False


class Stream:
    """one direction"""

    __slots__ = ("buf", "cap", "readers", "writers", "rw", "ww", "watch")

    def __init__(self, cap):
        self.buf = bytearray()
        self.cap = cap
        self.readers = 0
        self.writers = 0
        self.rw = WaitObj()
        self.ww = WaitObj()
        self.watch = []

    def changed(self, sim, for_readers):
        sim.wake_all(self.rw if for_readers else self.ww)
        if for_readers:
            for w in self.watch:
                sim.wake_all(w)

    def readable(self):
        return bool(self.buf) or not self.writers


class End:
    """open file description: can be shared by several fds (dup, inheritance)"""

    __slots__ = ("rd", "wr", "refs")

    def __init__(self, rd, wr):
        self.rd = rd
        self.wr = wr
        self.refs = 0
        if rd is not None:
            rd.readers += 1
        if wr is not None:
            wr.writers += 1

    def unref(self, sim):
        self.refs -= 1
        if self.refs == 0:
            if self.rd is not None:
                self.rd.readers -= 1
                self.rd.changed(sim, False)
            if self.wr is not None:
                self.wr.writers -= 1
                self.wr.changed(sim, True)


def _table(p):
    d = p.data.get("pfd")
    if d is None:
        d = p.data["pfd"] = {}
        p.exit_hooks.append(_close_all)
    return d


def _close_all(p):
    d = p.data.get("pfd") or {}
    for fd in sorted(d):
        d[fd].unref(p.sim)
    d.clear()


def _new_fd(p, end):
    sim = p.sim
    n = getattr(sim, "next_pfd", FD0)
    sim.next_pfd = n + 1
    end.refs += 1
    _table(p)[n] = end
    return n


def inherit(child, fd_map, parent):
    """child gets the same fds"""
    pt = _table(parent)
    ct = _table(child)
    for fd in fd_map:
        if fd in pt:
            pt[fd].refs += 1
            ct[fd] = pt[fd]


def _get(fd):
    t = cur_task()
    if t is None:
        raise OSError(errno.EBADF, "simulated fd outside of the simulation")
    if t.killed:
        t.sim._check_killed(t)
    e = _table(t.proc).get(fd)
    if e is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    return t, e


def sim_pipe():
    t = cur_task()
    if t is None:
        return _orig["pipe"]()
    s = Stream(PIPE_CAP)
    return _new_fd(t.proc, End(s, None)), _new_fd(t.proc, End(None, s))


def sim_socketpair():
    t = cur_task()
    a, b = Stream(SOCK_CAP), Stream(SOCK_CAP)
    return _new_fd(t.proc, End(a, b)), _new_fd(t.proc, End(b, a))


def sim_close(fd):
    if not isinstance(fd, int) or fd < FD0:
        return _orig["close"](fd)
    t = cur_task()
    if t is None or t.killed:
        return
    e = _table(t.proc).pop(fd, None)
    if e is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    e.unref(t.sim)
    t.sim.event("p-close", fd - FD0)


def sim_read(fd, n):
    if fd < FD0:
        return _orig["read"](fd, n)
    t, e = _get(fd)
    sim = t.sim
    if e.rd is None:
        raise OSError(errno.EBADF, "not readable")
    sim.event("p-read", fd - FD0)
    s = e.rd
    while not s.buf:
        if not s.writers:
            return b""
        sim.block(s.rw, info="pipe read %i" % (fd - FD0))
    data = bytes(s.buf[:n])
    del s.buf[:n]
    s.changed(sim, False)
    return data


def sim_write(fd, data):
    if fd < FD0:
        return _orig["write"](fd, data)
    t, e = _get(fd)
    sim = t.sim
    if e.wr is None:
        raise OSError(errno.EBADF, "not writable")
    sim.event("p-write", fd - FD0)
    s = e.wr
    data = bytes(data)
    done = 0
    # blocking mode: returns when everything was written
    while True:
        if not s.readers:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        k = min(s.cap - len(s.buf), len(data) - done)
        if k > 0:
            s.buf += data[done : done + k]
            done += k
            s.changed(sim, True)
        if done >= len(data):
            return done
        sim.block(s.ww, info="pipe write %i" % (fd - FD0))


def fd_readable(fd):
    t, e = _get(fd)
    return e.rd is not None and e.rd.readable()


def wait_readable(fds, timeout):
    """:return: list of readable fds"""
    t = cur_task()
    sim = t.sim
    sim.event("p-poll", len(fds))
    deadline = None if timeout is None else sim.now + max(timeout, 0)
    w = WaitObj()
    streams = []
    for fd in fds:
        s = _get(fd)[1].rd
        s.watch.append(w)
        streams.append(s)
    try:
        while True:
            r = [fd for fd in fds if fd_readable(fd)]
            if r:
                return r
            if deadline is not None and sim.now >= deadline:
                return []
            sim.block(w, timeout=None if deadline is None else deadline - sim.now, info="poll")
    finally:
        for s in streams:
            s.watch.remove(w)


class PipeFile(io.RawIOBase):
    """os.fdopen(fd, "rb"/"wb")"""

    def __init__(self, fd, mode):
        self._fd = fd
        self._mode = mode

    def fileno(self):
        return self._fd

    def readable(self):
        return "r" in self._mode

    def writable(self):
        return "w" in self._mode

    def readinto(self, b):
        d = sim_read(self._fd, len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        return sim_write(self._fd, b)

    def close(self):
        if not self.closed:
            super().close()
            sim_close(self._fd)

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass


def sim_fdopen(fd, mode="r", buffering=-1, *args, **kw):
    if not isinstance(fd, int) or fd < FD0:
        return _orig["fdopen"](fd, mode, buffering, *args, **kw)
    assert "b" in mode
    f = PipeFile(fd, mode)
    if buffering == 0:
        return f
    return io.BufferedReader(f) if "r" in mode else io.BufferedWriter(f)


# ------------------------------------------------------------------ processes


def _find(sim, pid):
    for p in sim.procs:
        if p.pid == pid:
            return p
    return None


def sim_kill(pid, sig):
    t = cur_task()
    if t is None:
        return _orig["kill"](pid, sig)
    sim = t.sim
    if t.killed:
        sim._check_killed(t)
    p = _find(sim, pid)
    sim.event("os-kill", "%s %s" % (p.name if p else "?", int(sig)))
    if p is None or p.data.get("reaped"):
        raise ProcessLookupError(errno.ESRCH, "No such process")
    if not p.alive or sig == 0:
        return
    if sig == signal.SIGKILL:
        sim.kill_proc(p, -9, why="SIGKILL from " + t.proc.name)
    elif sig == signal.SIGINT and not p.data.get("no_sigint"):
        sim.interrupt(p.main_task, KeyboardInterrupt())
    else:
        sim.kill_proc(p, -int(sig), why="signal %i from %s" % (sig, t.proc.name))


def _status(p):
    c = p.exit_code or 0
    return -c if c < 0 else (c & 0xFF) << 8


def sim_waitpid(pid, flags):
    t = cur_task()
    if t is None:
        return _orig["waitpid"](pid, flags)
    sim = t.sim
    sim.event("waitpid")
    p = _find(sim, pid)
    if p is None or p.parent is not t.proc or p.data.get("reaped"):
        raise ChildProcessError(errno.ECHILD, "No child processes")
    while p.alive:
        if flags & os.WNOHANG:
            return 0, 0
        sim.block(p.exit_waiters, info="waitpid %s" % p.name)
    if p.data.get("reaped"):
        raise ChildProcessError(errno.ECHILD, "No child processes")
    p.data["reaped"] = True
    return pid, _status(p)


def sim_fork():
    t = cur_task()
    if t is None:
        return _orig["fork"]()
    f = t.proc.data.pop("on_fork", None)
    if f is None:
        raise HarnessError("os.fork not expected here")
    child = f()
    t.sim.event("fork")
    return child.pid


# ------------------------------------------------------------------ multiprocessing

_mp_globals = []  # (module, attr, init)


class OrderedSet(dict):
    """set with deterministic order"""

    def add(self, x):
        self[x] = None

    def discard(self, x):
        self.pop(x, None)

    remove = discard


def mp_handlers():
    """per-process module state of multiprocessing, for Sim.globals_handlers"""
    import multiprocessing.process as mpp
    import multiprocessing.util as mpu
    import itertools

    class _MainProcess(mpp.BaseProcess):
        def __init__(self):
            self._identity = ()
            self._name = "MainProcess"
            self._parent_pid = None
            self._popen = None
            self._closed = False
            self._config = {"authkey": mpp.AuthenticationString(b"x" * 32), "semprefix": "/mp"}

        def close(self):
            pass

    def get():
        return (
            mpp._current_process,
            mpp._process_counter,
            mpp._children,
            mpp._parent_process,
            mpu._finalizer_registry,
            mpu._exiting,
        )

    def set_(v):
        (
            mpp._current_process,
            mpp._process_counter,
            mpp._children,
            mpp._parent_process,
            mpu._finalizer_registry,
            mpu._exiting,
        ) = v

    def init():
        return _MainProcess(), itertools.count(1), OrderedSet(), None, {}, False

    return get, set_, init


def setup_sim(sim):
    """call for each new simulation which uses multiprocessing"""
    sim.globals_handlers.append(mp_handlers())


def mp_at_exit():
    """registered as the first atexit handler of each process (as multiprocessing.util does at import)"""
    import multiprocessing.util as mpu

    mpu._exit_function()


def sim_Pipe(duplex=True):
    import multiprocessing.connection as mpc

    if cur_task() is None:
        return _orig["Pipe"](duplex)
    if duplex:
        a, b = sim_socketpair()
        return mpc.Connection(a), mpc.Connection(b)
    r, w = sim_pipe()
    return mpc.Connection(r, writable=False), mpc.Connection(w, readable=False)


def sim_wait(object_list, timeout=None):
    if cur_task() is None:
        return _orig["wait"](object_list, timeout)
    objs = list(object_list)
    fds = {}
    for o in objs:
        fd = o if isinstance(o, int) else o.fileno()
        fds.setdefault(fd, []).append(o)
    r = wait_readable(sorted(fds), timeout)
    return [o for fd in r for o in fds[fd]]


child_hooks = []  # called in a new spawned process before unpickling


def _child_main(data, prep, name):
    import multiprocessing.process as mpp
    import multiprocessing.util as mpu

    t = cur_task()
    t.proc.atexit.insert(0, (mp_at_exit, (), {}))
    for h in child_hooks:
        h()
    t.sim.event("child-start", name)
    obj = pickle.loads(data)
    mpp._current_process = obj
    code = 1
    try:
        try:
            obj.run()
            code = 0
        finally:
            if not t.killed:
                mpu._exit_function()
    except SystemExit as e:
        code = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
    except Exception as e:
        if t.sim.log is not None:
            import traceback

            t.sim._log("child-exc", "".join(traceback.format_exception(e))[-1500:].replace("\n", " | "))
        t.proc.data["child_exc"] = e
        code = 1
    obj = None
    sys.exit(code)


def make_popen():
    import multiprocessing.popen_spawn_posix as psp
    from multiprocessing import reduction, spawn
    from multiprocessing.context import set_spawning_popen

    real = psp.Popen

    class Popen(real):
        def _launch(self, process_obj):
            t = cur_task()
            if t is None:
                return super()._launch(process_obj)
            sim = t.sim
            fp = io.BytesIO()
            set_spawning_popen(self)
            try:
                reduction.dump(process_obj, fp)
            finally:
                set_spawning_popen(None)
            data = fp.getvalue()
            parent_r, child_w = sim_pipe()
            sim.event("spawn", "%i" % len(data))
            name = "%s.%i" % (t.proc.name, 1 + sum(1 for q in sim.procs if q.parent is t.proc))
            p = sim.new_proc(name, parent=t.proc)
            p.data["mp_name"] = process_obj.name
            for h in spawn_hooks:
                h(p, process_obj)
            inherit(p, list(self._fds) + [child_w], t.proc)
            pname = process_obj._name
            sim.spawn(lambda: _child_main(data, None, pname), name=name + "/main", proc=p)
            self.pid = p.pid
            self.sentinel = parent_r
            sim_close(child_w)
            self.finalizer = None

        @staticmethod
        def _send(*a):
            raise NotImplementedError

        def duplicate_for_child(self, fd):
            self._fds.append(fd)
            return fd

        def close(self):
            if cur_task() is None:
                return super().close()
            if self.sentinel is not None:
                sim_close(self.sentinel)
                self.sentinel = None

    return Popen


spawn_hooks = []


def install():
    global installed
    if installed:
        return
    installed = True
    import gc
    import threading
    import multiprocessing.connection as mpc
    import multiprocessing.popen_spawn_posix as psp
    import multiprocessing.popen_fork as pf
    import multiprocessing.util as mpu
    import multiprocessing.resource_tracker  # noqa

    for n in ("pipe", "close", "read", "write", "fdopen", "kill", "waitpid", "fork"):
        _orig[n] = getattr(os, n)
    os.pipe = sim_pipe
    os.close = sim_close
    os.read = sim_read
    os.write = sim_write
    os.fdopen = sim_fdopen
    os.kill = sim_kill
    os.waitpid = sim_waitpid
    os.fork = sim_fork
    _orig["set_inheritable"] = os.set_inheritable
    os.set_inheritable = lambda fd, v: None if fd >= FD0 else _orig["set_inheritable"](fd, v)
    _orig["Pipe"] = mpc.Pipe
    _orig["wait"] = mpc.wait
    mpc.Pipe = sim_Pipe
    mpc.wait = sim_wait
    C = mpc.Connection
    C._read = staticmethod(sim_read)
    C._write = staticmethod(sim_write)

    def _close(self, _close=None):
        sim_close(self._handle)

    C._close = _close
    C._send.__defaults__ = (sim_write,)
    C._recv.__defaults__ = (sim_read,)
    psp.Popen = make_popen()
    _orig["thr_shutdown"] = threading._shutdown
    threading._shutdown = lambda: None if cur_task() is not None else _orig["thr_shutdown"]()
    _orig["gc_collect"] = gc.collect
    gc.collect = lambda *a: 0 if cur_task() is not None else _orig["gc_collect"](*a)
