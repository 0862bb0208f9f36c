"""C18: lru_cache: linearizable, least recently used, size limit."""

from __future__ import annotations
from .common import *

FILE = "returnn/util/lru_cache.py"
NOVAL = "<none>"


class FErr(Exception):
    pass


# ------------------------------------------------------------------ sequential reference model
# state: (tuple of (key, value) from least to most recently used, maxsize, hits, misses)


def apply(state, op):
    """:return: (new state, result)"""
    items, maxsize, hits, misses = state
    kind = op[0]
    if kind == "lookup":
        k = op[1]
        for i, (kk, v) in enumerate(items):
            if kk == k:
                return (items[:i] + items[i + 1 :] + ((kk, v),), maxsize, hits + 1, misses), ("hit", v)
        return (items, maxsize, hits, misses + 1), ("miss",)
    if kind == "insert":  # keeps an existing entry
        _, k, v = op
        if maxsize == 0 or any(kk == k for kk, _ in items):
            return state, None
        items = items + ((k, v),)
        return (items[-maxsize:], maxsize, hits, misses), None
    if kind == "set":  # replaces an existing entry, is the most recent one then
        _, k, v = op
        if maxsize == 0:
            return state, None
        items = tuple(x for x in items if x[0] != k) + ((k, v),)
        return (items[-maxsize:], maxsize, hits, misses), None
    if kind == "peek":
        _, k, upd = op
        for kk, v in items:
            if kk == k:
                return (items, maxsize, hits + upd, misses), v
        return (items, maxsize, hits, misses + upd), NOVAL
    if kind == "pop":
        k = op[1]
        for i, (kk, v) in enumerate(items):
            if kk == k:
                return (items[:i] + items[i + 1 :], maxsize, hits, misses), v
        return state, NOVAL
    if kind == "pop_oldest":
        if not items:
            return state, NOVAL
        return (items[1:], maxsize, hits, misses), items[0][1]
    if kind == "clear":
        return ((), maxsize, 0, 0), None
    if kind == "maxsize":
        n = op[1]
        return (items[len(items) - n :] if len(items) > n else items, n, hits, misses), None
    if kind == "info":
        return state, (hits, misses, maxsize, len(items))
    if kind == "params":
        return state, maxsize
    raise HarnessError(kind)


def linearizable(history, init):
    """
    WGL search.
    :param history: list of (invoke, return, op, result)
    :return: None if ok, else the longest explained prefix (for the message)
    """
    n = len(history)
    seen = set()
    order = sorted(range(n), key=lambda i: history[i][0])
    best = []
    stack = [(0, init, ())]  # mask of done, state, path
    full = (1 << n) - 1
    while stack:
        mask, state, path = stack.pop()
        if mask == full:
            return None
        if (mask, state) in seen:
            continue
        seen.add((mask, state))
        if len(seen) > 300000:
            return None  # give up, undecided (counted as ok)
        if len(path) > len(best):
            best = path
        min_ret = min(history[i][1] for i in order if not mask >> i & 1)
        for i in order:
            if mask >> i & 1:
                continue
            inv, ret, op, res = history[i]
            if inv > min_ret:
                break
            st, r = apply(state, op)
            if r == res:
                stack.append((mask | 1 << i, st, path + (i,)))
    return best


class Key:
    """key with Python-level hash and eq, which may run other code (like a garbage collection running finalizers)"""

    cb = None

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        if Key.cb:
            Key.cb()
        return hash(self.i)

    def __eq__(self, other):
        if Key.cb:
            Key.cb()
        return isinstance(other, Key) and self.i == other.i

    def __repr__(self):
        return "Key(%i)" % self.i


# different calls, which only differ in how the arguments are given
MIXED = [(("x", 1), {}), ((), {"x": 1}), (("x", 1, "y", 2), {}), ((), {"x": 1, "y": 2}), (("x", 1), {"y": 2}), (("y", 2), {"x": 1})]
# different calls with typed=True
TYPED = [((1,), {}), ((1.0,), {}), ((True,), {}), ((), {"x": 1}), ((), {"x": 1.0}), ((), {"x": True})]


def call_id(args, kw):
    return tuple((type(a).__name__, a) for a in args), tuple(sorted((k, type(v).__name__, v) for k, v in kw.items()))


class S(Scenario):
    id = "C18"
    quick_runs = 40000
    thorough_runs = 1000000
    quick_time = 90
    real_components = ["returnn.util.lru_cache"]
    stub_components = ["thread scheduling (preemption possible at every line of the cache)", "the cached function"]
    assumptions = ["a call that misses is two steps (lookup; insertion of the computed value unless meanwhile present), as the function runs without the lock"]

    def prepare(self):
        prepare_base()
        import returnn.util.lru_cache  # noqa

    def generate(self, rng, tier):
        nkeys = rng.choice([2, 3, 4])
        n_threads = rng.choice([1, 2, 2, 3, 3, 4])
        kinds = ["call"] * 6 + ["set", "peek", "pop", "pop_oldest", "clear", "maxsize", "info", "params"]
        kinds = [k for k in kinds if k == "call" or rng.random() < 0.7]

        def op():
            k = rng.choice(kinds)
            d = dict(op=k, k=rng.randrange(nkeys))
            if k == "call":
                d["f"] = rng.choice(["ok", "ok", "ok", "raise", "recurse", "slow", "same"])
            if k == "peek":
                d["upd"] = rng.random() < 0.5
            if k == "maxsize":
                d["n"] = rng.choice([0, 0, 1, 2, 3])
            if k in ("pop", "pop_oldest"):
                d["fb"] = rng.random() < 0.5
            return d

        threads = [[op() for _ in range(rng.choice([1, 2, 3, 4, 6]))] for _ in range(n_threads)]
        sim = dict(max_events=200000, **swarm_sched(rng))
        sim["p_line"] = rng.choice([0.02, 0.1, 0.3, 0.5])
        typed = rng.random() < 0.3
        keytype = rng.choice(["int", "int", "tuple", "kw", "obj", "obj", "mixed"])
        if typed and rng.random() < 0.4:
            keytype = "typed"
        return dict(
            maxsize=rng.choice([0, 1, 1, 2, 2, 3]),
            typed=typed,
            keytype=keytype,
            forms=rng.sample(range(6), 6),
            p_re=rng.choice([0, 0, 0.05, 0.2]),
            re_op=rng.choice(["pop", "pop", "pop_oldest", "peek", "call"]),
            nkeys=nkeys,
            threads=threads,
            pre=rng.choice([0, 0, 1, 3]),
            sim=sim,
        )

    def shrink(self, params):
        for t in shrink_list(params["threads"]):
            if t:
                yield with_(params, threads=t)
        for i, t in enumerate(params["threads"]):
            for t2 in shrink_list(t):
                if t2:
                    yield with_(params, threads=params["threads"][:i] + [t2] + params["threads"][i + 1 :])
        for k, v in [("pre", 0), ("typed", False), ("p_re", 0), ("keytype", "int")]:
            if k == "typed" and params["keytype"] == "typed":
                continue
            if params[k] != v:
                yield with_(params, **{k: v})

    def execute(self, params, chooser, log=False):
        from returnn.util.lru_cache import lru_cache

        res = RunResult()
        sim = new_sim(params, chooser, log, with_vfs=False, lines=[FILE])
        hist = []
        st = dict(n=0, clock=0)

        def now():
            st["clock"] += 1
            return st["clock"]

        stacks = {}  # task -> stack of open calls

        def mk(k):
            t = params["keytype"]
            if t == "int":
                return (k,), {}
            if t == "tuple":
                return ((k, "a"), 1.5), {}
            if t == "kw":
                return (1,), {"x": k}
            if t in ("mixed", "typed"):
                args, kw = (MIXED if t == "mixed" else TYPED)[params["forms"][k]]
                return args, dict(kw)
            return (Key(k),), {}

        def unkey(args, kw):
            t = params["keytype"]
            if t in ("mixed", "typed"):
                return [call_id(*mk(i)) for i in range(6)].index(call_id(args, kw))
            a = kw["x"] if t == "kw" else args[0]
            return a[0] if t == "tuple" else (a.i if t == "obj" else a)

        def record(inv, op, r):
            hist.append((inv, now(), op, r))

        def user_func(*args, **kw):
            k = unkey(args, kw)
            call = stacks[cur_task().id][-1]
            call["hist_ok"] = True
            # the lookup part is over: it was a miss
            record(call["inv"], ("lookup", call["k"]), ("miss",))
            call["missed"] = True
            if call["k"] != k:
                res.violate("wrong-args", "function called with key %r for call %r" % (k, call["k"]))
            st["n"] += 1
            v = "%i/%i" % (k, st["n"])
            mode = call["f"]
            sim.event("f", mode)
            if mode == "raise":
                call["raised"] = True
                raise FErr()
            if mode == "recurse" and k > 0:
                do_call(k - 1, "ok")
            if mode == "same" and len(stacks[cur_task().id]) < 2:
                do_call(k, "ok")
            if mode == "slow":
                sim.sleep(1)
            call["v"] = v
            call["inv2"] = now()
            return v

        fn = lru_cache(params["maxsize"], typed=params["typed"])(user_func)

        def do_call(k, f):
            stk = stacks.setdefault(cur_task().id, [])
            call = dict(k=k, f=f, inv=now(), missed=False)
            stk.append(call)
            args, kw = mk(k)
            try:
                r = fn(*args, **kw)
            except FErr:
                if not call.get("raised"):
                    raise
                return
            finally:
                stk.pop()
            if not call["missed"]:
                record(call["inv"], ("lookup", k), ("hit", r))
            else:
                if r != call["v"]:
                    res.violate("wrong-value", "call(%r) returned %r, function returned %r" % (k, r, call["v"]))
                record(call["inv2"], ("insert", k, call["v"]), None)

        def do(d):
            args, kw = mk(d["k"])
            k = d["op"]
            if k == "call":
                return do_call(d["k"], d["f"])
            inv = now()
            if k == "set":
                st["n"] += 1
                v = "%i/set%i" % (d["k"], st["n"])
                fn.cache_set(*args, result=v, **kw)
                record(inv, ("set", d["k"], v), None)
            elif k == "peek":
                r = fn.cache_peek(*args, update_statistics=d["upd"], fallback=NOVAL, **kw)
                record(inv, ("peek", d["k"], int(d["upd"])), r)
            elif k == "pop":
                if d["fb"]:
                    r = fn.cache_pop(*args, fallback=NOVAL, **kw)
                else:
                    try:
                        r = fn.cache_pop(*args, **kw)
                    except KeyError as exc:
                        if exc.args != ("key not found",):
                            raise
                        r = NOVAL
                record(inv, ("pop", d["k"]), r)
            elif k == "pop_oldest":
                if d["fb"]:
                    r = fn.cache_pop_oldest(fallback=NOVAL)
                else:
                    try:
                        r = fn.cache_pop_oldest()
                    except KeyError as exc:
                        if exc.args != ("cache is empty",):
                            raise
                        r = NOVAL
                record(inv, ("pop_oldest",), r)
            elif k == "clear":
                fn.cache_clear()
                record(inv, ("clear",), None)
            elif k == "maxsize":
                fn.cache_set_maxsize(d["n"])
                record(inv, ("maxsize", d["n"]), None)
            elif k == "info":
                r = fn.cache_info()
                record(inv, ("info",), (r.hits, r.misses, r.maxsize, r.currsize))
            elif k == "params":
                r = fn.cache_parameters()
                record(inv, ("params",), r["maxsize"])

        def guard(d):
            try:
                do(d)
                return True
            except core.SimKilled:
                raise
            except Exception as exc:
                res.violate("internal-error:%s" % type(exc).__name__, "%r raised: %s" % (d, describe_exc(exc)))
                return False

        re_active = set()

        def cb():
            t = cur_task()
            if t is None or t.id in re_active or not params["p_re"] or res.violation:
                return
            if sim.choose("re", 2, 0, params["p_re"]):
                re_active.add(t.id)
                try:
                    sim.count_fault("reentry")
                    k = sim.choose("rek", params["nkeys"])
                    guard(dict(op=params["re_op"], k=k, fb=True, upd=True, f="ok"))
                finally:
                    re_active.discard(t.id)

        Key.cb = cb

        def thread(ops):
            for d in ops:
                if res.violation:
                    return
                if not guard(d):
                    return
                sim.event("next")

        done = []

        def main():
            import threading

            for i in range(params["pre"]):
                guard(dict(op="call", k=i % params["nkeys"], f="ok"))
            ths = [threading.Thread(target=thread, args=(ops,)) for ops in params["threads"]]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if res.violation:
                return
            Key.cb = None
            guard(dict(op="info", k=0))
            if not res.violation and fn.cache_len() > fn.cache_parameters()["maxsize"]:
                res.violate("too-big", "%i entries, maxsize %i" % (fn.cache_len(), fn.cache_parameters()["maxsize"]))
            for _ in range(6):
                if res.violation:
                    return
                guard(dict(op="pop_oldest", k=0, fb=True))
            if not res.violation:
                guard(dict(op="call", k=0, f="ok"))
                guard(dict(op="call", k=1, f="ok"))
                guard(dict(op="call", k=0, f="ok"))
                guard(dict(op="info", k=0))
            done.append(1)

        p = sim.spawn_proc(main, name="m")
        try:
            run_sim(sim)
        finally:
            Key.cb = None
        if p.exc is not None and not isinstance(p.exc, core.SimKilled):
            raise HarnessError("main: " + describe_exc(p.exc))
        if not res.violation:
            if sim.outcome != "ok":
                res.violate("hang", "%s: %s" % (sim.outcome, sim.outcome_info))
            else:
                best = linearizable(hist, ((), params["maxsize"], 0, 0))
                if best is not None:
                    hs = sorted(hist)
                    res.violate(
                        "not-linearizable",
                        "no order of the operations explains the results: %s; longest explained: %s"
                        % (["[%i,%i] %s -> %s" % (a, b, o, r) for a, b, o, r in hs], [hist[i][2] for i in best]),
                    )
        self.collect(sim, res, dict(count={"ops": len(hist)}, case=params["keytype"]))
        return res


SCENARIO = S()
