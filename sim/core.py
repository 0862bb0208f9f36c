"""
Simulator core: tasks (parked real threads), virtual clock, seeded scheduler, recorded decisions.

Exactly one task runs at a time. Every intercepted operation calls :func:`Sim.event`, where the chooser may deviate from
the default (default = keep running the current task, no fault). Deviations are recorded under the event number, and a
replay is a pure function of (scenario parameters, deviations, code).
"""

from __future__ import annotations
import _thread
import heapq
import importlib._bootstrap as _ib
import random
import sys
import time as _time
import zlib

_real_allocate_lock = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_real_get_ident = _thread.get_ident
real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep
real_perf_counter = _time.perf_counter

_tasks_by_ident = {}  # real thread ident -> Task


class SimKilled(BaseException):
    """raised in tasks of a killed process, to unwind the stack. all intercepted operations are dead by then"""


class HarnessError(Exception):
    """error of the harness itself, never a property violation"""


def cur_task():
    return _tasks_by_ident.get(_real_get_ident())


def cur_proc():
    t = _tasks_by_ident.get(_real_get_ident())
    return t.proc if t is not None else None


class Proc:
    """simulated OS process"""

    def __init__(self, sim, pid, name, parent=None):
        self.sim = sim
        self.pid = pid
        self.name = name
        self.parent = parent
        self.alive = True
        self.exit_code = None
        self.exc = None  # exception which ended the main task
        self.tasks = []
        self.main_task = None
        self.killable = True
        self.clock_skew = 0.0
        self.fds = {}
        self.exit_hooks = []  # called (by simulator, no events) when the process is gone
        self.atexit = []
        self.exit_waiters = WaitObj()
        self.globals_state = None
        self.killed_by = None
        self.data = {}

    def __repr__(self):
        return "<Proc %s pid=%i>" % (self.name, self.pid)


class WaitObj:
    """something tasks can wait for"""

    __slots__ = ("waiters",)

    def __init__(self):
        self.waiters = []


class Task:
    __slots__ = (
        "sim",
        "id",
        "name",
        "proc",
        "gate",
        "state",
        "wait_obj",
        "wake_seq",
        "timed_out",
        "killed",
        "kill_raises",
        "pending_exc",
        "exc",
        "result",
        "func",
        "done_cb",
        "no_preempt",
        "ident",
        "block_info",
        "interruptible",
        "prio",
    )

    def __init__(self, sim, id_, name, proc, func):
        self.sim = sim
        self.id = id_
        self.name = name
        self.proc = proc
        self.func = func
        self.gate = _real_allocate_lock()
        self.gate.acquire()
        self.state = "ready"
        self.wait_obj = None
        self.wake_seq = 0
        self.timed_out = False
        self.killed = False
        self.kill_raises = 0
        self.pending_exc = None
        self.exc = None
        self.result = None
        self.done_cb = []
        self.no_preempt = 0
        self.ident = None
        self.block_info = None
        self.interruptible = True
        self.prio = 0.0

    def __repr__(self):
        return "<T%i %s>" % (self.id, self.name)


class Chooser:
    """
    Random mode: PRNG decides. Replay mode: recorded deviations only.
    """

    def __init__(self, seed=None, deviations=None):
        self.rng = random.Random(seed) if deviations is None else None
        self.replay = deviations
        self.dev = {} if deviations is None else dict(deviations)

    # every method: key is unique per decision; default must be deterministic
    def pick(self, key, n, default, p):
        """pick index in range(n), deviating from default with probability p"""
        if self.replay is not None:
            v = self.replay.get(key)
            if v is None or v >= n:
                return default
            return v
        if n <= 1 or p <= 0:
            return default
        r = self.rng
        if p < 1.0 and r.random() >= p:
            return default
        v = r.randrange(n)
        if v != default:
            self.dev[key] = v
        return v

    def value(self, key, default, p, gen):
        """arbitrary JSON-able value"""
        if self.replay is not None:
            return self.replay.get(key, default)
        if p <= 0 or self.rng.random() >= p:
            return default
        v = gen(self.rng)
        if v != default:
            self.dev[key] = v
        return v


class SimConfig:
    """per-run knobs (swarm); all in params["sim"] so that they are part of the replay file"""

    defaults = dict(
        p_switch=0.1,  # at sync/syscall events
        p_line=0.0,  # at traced lines
        p_block=1.0,  # deviation prob when the current task blocks
        p_wake_preempt=0.0,  # run a just-woken task immediately
        max_events=200_000,
        max_time=1e7,
        p_kill=0.0,
        max_kills=0,
        p_stall=0.0,
        stall_max=5.0,
        max_stalls=1000000,
        faults={},  # fault kind -> prob
        max_faults=3,
        fault_until=None,  # virtual time after which no fault/kill/stall is injected
        eps=2e-5,  # virtual time per event
    )

    def __init__(self, d=None):
        for k, v in self.defaults.items():
            setattr(self, k, v)
        for k, v in (d or {}).items():
            if k not in self.defaults:
                raise HarnessError("unknown sim param %r" % k)
            setattr(self, k, v)


_kind_codes = {}


def _kind_code(kind):
    c = _kind_codes.get(kind)
    if c is None:
        c = _kind_codes[kind] = zlib.crc32(kind.encode()) & 0xFFFF
    return c


class Sim:
    active = None  # the one running simulation

    def __init__(self, chooser, cfg=None, log=False):
        self.chooser = chooser
        self.cfg = cfg if isinstance(cfg, SimConfig) else SimConfig(cfg)
        self.now = 1000.0  # virtual seconds
        self.epoch0 = 1_700_000_000.0
        self.ev = 0
        self._key_ev = -1
        self._key_n = {}
        self.seq = 0
        self.tasks = []
        self.procs = []
        self.ready = []  # FIFO list of tasks, excluding the current one
        self.timers = []  # (time, seq, task, wake_seq)
        self.current = None
        self.next_tid = 1
        self.next_pid = 1001
        self.done_gate = _real_allocate_lock()
        self.done_gate.acquire()
        self.finished = False
        self.outcome = None  # "ok" | "deadlock" | "event-limit" | "time-limit"
        self.outcome_info = None
        self.stopping = False
        self.n_switch = 0
        self.n_kills = 0
        self.n_faults = 0
        self.n_stalls = 0
        self.fault_counts = {}
        self.probes = {}
        self.kind_counts = {}
        self.digest = 0
        self.sched_digest = 0
        self.log = [] if log else None
        self.vfs = None
        self.line_hook = None
        self.globals_handlers = []  # list of (get, set, initial)
        self.last_proc = None
        self.killing = []
        self.on_event = []  # invariant callbacks, run in simulator context (no events): f(sim, kind, detail)
        self.harness_exc = None
        self.kill_filter = None  # f(task, kind, detail) -> bool
        self.parked_forever = 0
        self.uuid_counter = 0
        self.stop_when = None

    # ---------------------------------------------------------------- setup
    def new_proc(self, name, parent=None):
        p = Proc(self, self.next_pid, name, parent=parent)
        self.next_pid += 1
        self.procs.append(p)
        p.globals_state = [init() for (_get, _set, init) in self.globals_handlers]
        return p

    def spawn(self, func, *, name, proc, start_delay=0.0):
        """new task in proc; ready to run"""
        t = Task(self, self.next_tid, name, proc, func)
        self.next_tid += 1
        self.tasks.append(t)
        proc.tasks.append(t)
        if proc.main_task is None:
            proc.main_task = t
        if start_delay > 0:
            t.state = "blocked"
            self._add_timer(t, self.now + start_delay)
        else:
            self.ready.append(t)
        _real_start_new_thread(self._thread_main, (t,))
        return t

    def spawn_proc(self, func, *, name, start_delay=0.0, parent=None):
        p = self.new_proc(name, parent=parent)
        self.spawn(func, name=name + "/main", proc=p, start_delay=start_delay)
        return p

    # ---------------------------------------------------------------- threads
    def _thread_main(self, t):
        t.gate.acquire()  # wait until scheduled the first time
        ident = _real_get_ident()
        t.ident = ident
        _tasks_by_ident[ident] = t
        thread_obj = None
        try:
            if not t.killed:
                if t is t.proc.main_task:
                    thread_obj = _make_main_thread()
                if self.line_hook:
                    self.line_hook.thread_start()
                t.result = t.func()
        except SimKilled:
            pass
        except BaseException as exc:
            t.exc = exc
        # ---- task end
        t.func = None
        try:
            if t is t.proc.main_task and not t.killed:
                self._main_task_exit(t)
        except SimKilled:
            pass
        except BaseException as exc:
            if t.exc is None:
                t.exc = exc
        if thread_obj is not None:
            _drop_main_thread(ident)
        for cb in t.done_cb:
            cb(t)
        t.state = "done"
        _tasks_by_ident.pop(ident, None)
        p = t.proc
        if t is p.main_task and p.alive:
            self._proc_gone(p, code=_exit_code_of(t.exc), exc=t.exc)
        self._log("end", t.name if t.exc is None else "%s exc=%s" % (t.name, type(t.exc).__name__))
        t.gate = None
        self._schedule_from_dead(t)

    def _main_task_exit(self, t):
        """normal end of main(): join non-daemon threads, atexit handlers; then daemons die"""
        import threading

        if t.exc is not None and not isinstance(t.exc, Exception) and not isinstance(t.exc, (SystemExit, KeyboardInterrupt)):
            return
        if isinstance(t.exc, BaseException):
            # do not keep frames (and all objects of the process) alive
            pass
        for th in t.proc.data.get("threads", []):
            while not th.daemon and th.is_alive():
                threading.Thread.join(th)
        while t.proc.atexit:
            f, a, kw = t.proc.atexit.pop()
            try:
                f(*a, **kw)
            except Exception as exc:
                t.proc.data.setdefault("atexit_exc", []).append(exc)

    def _proc_gone(self, p, code, exc=None, killed_by=None):
        """process is gone: close its resources, unwind all its tasks. simulator context, no events."""
        if not p.alive:
            return
        p.alive = False
        p.exit_code = code
        p.exc = exc
        p.killed_by = killed_by
        for hook in p.exit_hooks:
            hook(p)
        if self.vfs is not None:
            self.vfs.proc_gone(p)
        self.wake_all(p.exit_waiters)
        for t in p.tasks:
            if t.state != "done" and t is not cur_task():
                t.killed = True
                if t in self.ready:
                    self.ready.remove(t)
                if t.wait_obj is not None:
                    try:
                        t.wait_obj.waiters.remove(t)
                    except ValueError:
                        pass
                    t.wait_obj = None
                t.state = "killing"
                t.wake_seq += 1
                self.killing.append(t)
            elif t is cur_task():
                t.killed = True

    def kill_proc(self, p, code=-9, why="kill"):
        """SIGKILL. callable from any task (or harness). If it is the own process, raises SimKilled."""
        if not p.alive:
            return
        self._log("kill", "%s (%s)" % (p.name, why))
        self._proc_gone(p, code, killed_by=why)
        t = cur_task()
        if t is not None and t.proc is p:
            raise SimKilled()

    # ---------------------------------------------------------------- scheduling
    def _log(self, kind, detail=None):
        if self.log is not None:
            t = cur_task()
            self.log.append("%d %.4f %s %s %s" % (self.ev, self.now, t.name if t else "-", kind, detail))

    def _add_timer(self, t, when):
        self.seq += 1
        heapq.heappush(self.timers, (when, self.seq, t, t.wake_seq))

    def _fire_timers(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, t, ws = heapq.heappop(self.timers)
            if t.state == "blocked" and t.wake_seq == ws:
                self._make_ready(t, timed_out=True)

    def _make_ready(self, t, timed_out=False):
        t.timed_out = timed_out
        t.wake_seq += 1
        if t.wait_obj is not None:
            try:
                t.wait_obj.waiters.remove(t)
            except ValueError:
                pass
            t.wait_obj = None
        t.state = "ready"
        self.ready.append(t)

    def wake_all(self, w):
        for t in list(w.waiters):
            if t.state == "blocked":
                self._make_ready(t)
        del w.waiters[:]

    def wake_one(self, w):
        for t in list(w.waiters):
            if t.state == "blocked":
                self._make_ready(t)
                return

    def _pick_next(self, forced):
        """
        choose the next task out of self.ready (non-empty, or time advances).
        returns None if nothing can run anymore.
        """
        if self.killing:
            return self.killing.pop(0)
        self._fire_timers()
        while not self.ready:
            while self.timers and not (self.timers[0][2].state == "blocked" and self.timers[0][2].wake_seq == self.timers[0][3]):
                heapq.heappop(self.timers)
            if not self.timers:
                return None
            self.now = max(self.now, self.timers[0][0])
            if self.now - 1000.0 > self.cfg.max_time:
                self._set_outcome("time-limit", self._describe_tasks())
                self._stop_all()
                return self.killing.pop(0) if self.killing else None
            self._fire_timers()
        n = len(self.ready)
        i = self.chooser.pick(self._key("b"), n, 0, self.cfg.p_block) if n > 1 else 0
        return self.ready.pop(i)

    def _set_outcome(self, outcome, info=None):
        if self.outcome is None:
            self.outcome = outcome
            self.outcome_info = info

    def _describe_tasks(self):
        return ["%s: %s %s" % (t.name, t.state, t.block_info or "") for t in self.tasks if t.state not in ("done",)]

    def _stop_all(self):
        """end of run: unwind everything"""
        if self.stopping:
            return
        self.stopping = True
        for p in self.procs:
            if p.alive:
                p.data["stopped_by_sim"] = True
                self._proc_gone(p, code=None, killed_by="end-of-run")

    def _switch_to(self, nxt):
        """hand over baton; caller must park itself or be dead"""
        prev_proc = self.last_proc
        if nxt.proc is not prev_proc and self.globals_handlers:
            if prev_proc is not None:
                prev_proc.globals_state = [g() for (g, _s, _i) in self.globals_handlers]
            for (_g, s, _i), v in zip(self.globals_handlers, nxt.proc.globals_state):
                s(v)
        self.last_proc = nxt.proc
        self.current = nxt
        if nxt.state == "ready":
            nxt.state = "running"
        self.n_switch += 1
        self.sched_digest = (self.sched_digest * 1000003 + nxt.id * 7919 + 1) & 0xFFFFFFFFFFFFFFFF
        nxt.gate.release()

    def _schedule_from_dead(self, t):
        nxt = self._pick_next(True)
        if nxt is None:
            blocked = [x for x in self.tasks if x.state == "blocked" and not x.proc.data.get("may_block")]
            if blocked and not self.stopping:
                self._set_outcome("deadlock", self._describe_tasks())
                self._stop_all()
                nxt = self._pick_next(True)
        if nxt is None:
            # also processes which may block forever
            if not self.stopping and any(x.state == "blocked" for x in self.tasks):
                self._stop_all()
                nxt = self._pick_next(True)
        if nxt is None:
            self._set_outcome("ok")
            self.finished = True
            self.done_gate.release()
            return
        self._switch_to(nxt)

    def _park(self, t, nxt):
        gate = t.gate
        self._switch_to(nxt)
        gate.acquire()
        self._resumed(t)

    def _resumed(self, t):
        if t.killed:
            raise SimKilled()
        if t.pending_exc is not None and not t.no_preempt:
            exc, t.pending_exc = t.pending_exc, None
            raise exc

    def _check_killed(self, t):
        if t.killed:
            t.kill_raises += 1
            if t.kill_raises > 3000:
                # cannot unwind (catches everything in a loop). leave it parked for good.
                self.parked_forever += 1
                t.state = "done"
                _tasks_by_ident.pop(t.ident, None)
                gate = _real_allocate_lock()
                gate.acquire()
                self._schedule_from_dead(t)
                gate.acquire()
            raise SimKilled()

    # ---------------------------------------------------------------- events
    def event(self, kind, detail=None, p=None):
        """
        A scheduling point. May switch to another task, kill the own process, stall.
        """
        t = self.current
        if t.killed:
            self._check_killed(t)
        if t.no_preempt or _ib._module_locks:
            return
        self.ev += 1
        ev = self.ev
        cfg = self.cfg
        self.now += cfg.eps
        kc = _kind_code(kind)
        self.digest = (self.digest * 1000003 + t.id * 131 + kc) & 0xFFFFFFFFFFFFFFFF
        if self.log is not None and kind != "line":
            self._log(kind, detail)
        if ev > cfg.max_events:
            self._set_outcome("event-limit", self._describe_tasks())
            self._stop_all()
            raise SimKilled()
        if t.pending_exc is not None:
            exc, t.pending_exc = t.pending_exc, None
            raise exc
        for f in self.on_event:
            f(self, kind, detail)
        if self.stop_when is not None and self.stop_when():
            self._stop_all()
            raise SimKilled()
        if cfg.p_kill and self.n_kills < cfg.max_kills and kind != "line" and self._faults_on():
            if self._may_kill(t, kind, detail):
                if self.chooser.pick("%dk" % ev, 2, 0, cfg.p_kill * 2):
                    self.n_kills += 1
                    self.count_fault("kill")
                    self.kill_proc(t.proc, why="at %s %s" % (kind, detail))
        if cfg.p_stall and kind != "line" and self.n_stalls < cfg.max_stalls and self._faults_on():
            d = self.chooser.value("%dz" % ev, 0, cfg.p_stall, lambda r: round(r.uniform(0.01, 1.0) ** 2 * cfg.stall_max, 4))
            if d:
                self.n_stalls += 1
                self.count_fault("stall")
                self.block(None, timeout=d, info="stall")
        self._fire_timers()
        if self.killing:
            self.ready.append(t)
            t.state = "ready"
            self._park(t, self.killing.pop(0))
            return
        n = len(self.ready)
        if n:
            if p is None:
                p = cfg.p_switch
            i = self.chooser.pick("%ds" % ev, n + 1, n, p * (n + 1) / n if p < 1 else 1.0)
            if i != n:
                nxt = self.ready.pop(i)
                self.ready.append(t)
                t.state = "ready"
                self._park(t, nxt)

    def _key(self, suffix):
        """unique key of a decision which is not made in event() itself (several can follow the same event)"""
        if self._key_ev != self.ev:
            self._key_ev = self.ev
            self._key_n = {}
        n = self._key_n.get(suffix, 0)
        self._key_n[suffix] = n + 1
        return "%d%s.%d" % (self.ev, suffix, n) if n else "%d%s" % (self.ev, suffix)

    def choose(self, name, n, default=0, p=1.0):
        """decision of the environment model of a scenario"""
        return self.chooser.pick(self._key("x" + name), n, default, p)

    def _may_kill(self, t, kind, detail):
        if not t.proc.killable:
            return False
        return self.kill_filter is None or self.kill_filter(t, kind, detail)

    def _faults_on(self):
        return self.cfg.fault_until is None or self.now - 1000.0 < self.cfg.fault_until

    def fault(self, options, detail=None):
        """
        :param options: list of fault kinds which could be injected at this point
        :return: kind or None. keyed on the current event
        """
        cfg = self.cfg
        if not cfg.faults or not self._faults_on() or self.current.no_preempt:
            return None
        opts = [o for o in options if cfg.faults.get(o)]
        if not opts:
            return None
        key = self._key("f")
        ch = self.chooser
        if ch.replay is not None:
            v = ch.replay.get(key)
            if v is not None and v in opts:
                self.n_faults += 1
                self.count_fault(v)
                self._log("FAULT", v)
                return v
            return None
        if self.n_faults >= cfg.max_faults:
            return None
        r = ch.rng.random()
        acc = 0.0
        for o in opts:
            acc += cfg.faults[o]
            if r < acc:
                ch.dev[key] = o
                self.n_faults += 1
                self.count_fault(o)
                self._log("FAULT", o)
                return o
        return None

    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def block(self, w, timeout=None, info=None):
        """
        Block current task until woken (True) or timeout (False).
        """
        t = self.current
        if t.killed:
            self._check_killed(t)
        if t.pending_exc is not None and not t.no_preempt:
            exc, t.pending_exc = t.pending_exc, None
            raise exc
        if _ib._module_locks:
            pass
        t.state = "blocked"
        t.wait_obj = w
        t.block_info = info
        t.timed_out = False
        if w is not None:
            w.waiters.append(t)
        if timeout is not None:
            self._add_timer(t, self.now + max(timeout, 0.0))
        nxt = self._pick_next(True)
        if nxt is None:
            others = [x for x in self.tasks if x.state == "blocked" and not x.proc.data.get("may_block")]
            if others and not self.stopping:
                self._set_outcome("deadlock", self._describe_tasks())
            self._stop_all()
            raise SimKilled()
        if nxt is t:
            self.current = t
            t.state = "running"
            self._resumed(t)
        else:
            self._park(t, nxt)
        t.block_info = None
        return not t.timed_out

    def sleep(self, secs):
        self.event("sleep", secs)
        self.block(None, timeout=secs, info="sleep")

    def interrupt(self, t, exc):
        """async exception (like SIGINT -> KeyboardInterrupt) into task t"""
        if t.state == "done":
            return
        t.pending_exc = exc
        if t.state == "blocked" and t.interruptible:
            self._make_ready(t)

    # ---------------------------------------------------------------- run
    def run(self):
        """called by the harness (outside of any task)"""
        assert Sim.active is None and cur_task() is None
        Sim.active = self
        saved = [g() for (g, _s, _i) in self.globals_handlers]
        try:
            nxt = self._pick_next(True)
            if nxt is None:
                self.outcome = "ok"
                return
            self._switch_to(nxt)
            self.done_gate.acquire()
        finally:
            Sim.active = None
            self.current = None
            for (_g, s, _i), v in zip(self.globals_handlers, saved):
                s(v)
        if self.harness_exc is not None:
            raise self.harness_exc

    @property
    def elapsed(self):
        return self.now - 1000.0


def _exit_code_of(exc):
    if exc is None:
        return 0
    if isinstance(exc, SystemExit):
        c = exc.code
        if c is None:
            return 0
        if isinstance(c, int):
            return c & 0xFF
        return 1
    return 1


def _make_main_thread():
    import threading

    th = threading._MainThread.__new__(threading._MainThread)
    threading.Thread.__init__(th, name="MainThread", daemon=False)
    th._started._flag = True
    th._ident = _real_get_ident()
    th._native_id = th._ident
    threading._active[th._ident] = th
    return th


def _drop_main_thread(ident):
    import threading

    threading._active.pop(ident, None)


# ------------------------------------------------------------------------------------------------ primitives


class SimLock:
    """replacement for threading.Lock"""

    __slots__ = ("_locked", "_w", "_real", "_owner", "__weakref__")

    def __init__(self):
        self._locked = False
        self._w = WaitObj()
        self._real = None
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        t = _tasks_by_ident.get(_real_get_ident())
        if t is None:
            return self._out_acquire(blocking, timeout)
        sim = t.sim
        sim.event("lock")
        if not self._locked:
            self._locked = True
            self._owner = t
            return True
        if not blocking:
            return False
        if timeout is not None and timeout >= 0:
            deadline = sim.now + timeout
            while self._locked:
                rem = deadline - sim.now
                if rem <= 0:
                    return False
                sim.block(self._w, timeout=rem, info="lock")
        else:
            while self._locked:
                sim.block(self._w, info="lock")
        self._locked = True
        self._owner = t
        return True

    def _out_acquire(self, blocking=True, timeout=-1):
        # Outside of the simulation. There is only one thread then (or killed/leaked state): never block.
        if self._locked:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False
            owner = self._owner
            if owner is not None and owner.state != "done" and not owner.sim.finished:
                raise HarnessError("blocking on sim lock outside of simulation")
        self._locked = True
        self._owner = None
        return True

    def release(self):
        t = _tasks_by_ident.get(_real_get_ident())
        if not self._locked:
            if t is not None and t.killed:
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._owner = None
        if t is None:
            w = self._w.waiters
            if w and Sim.active is not None:
                Sim.active.wake_all(self._w)
            return
        if t.killed:
            return
        if self._w.waiters:
            t.sim.wake_all(self._w)
        t.sim.event("unlock")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._locked = False

    def __repr__(self):
        return "<SimLock %s>" % ("locked" if self._locked else "unlocked")


class SimRLock:
    """replacement for threading.RLock"""

    __slots__ = ("_block", "_owner_id", "_count", "__weakref__")

    def __init__(self):
        self._block = SimLock()
        self._owner_id = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_get_ident()
        if self._owner_id == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner_id = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner_id != _real_get_ident():
            t = cur_task()
            if t is not None and t.killed:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner_id = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner_id = state

    def _release_save(self):
        if self._count == 0:
            t = cur_task()
            if t is not None and t.killed:
                return 0, None
            raise RuntimeError("cannot release un-acquired lock")
        count, self._count = self._count, 0
        owner, self._owner_id = self._owner_id, None
        self._block.release()
        return count, owner

    def _is_owned(self):
        return self._owner_id == _real_get_ident()

    def _recursion_count(self):
        return self._count if self._owner_id == _real_get_ident() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner_id = None
        self._count = 0
