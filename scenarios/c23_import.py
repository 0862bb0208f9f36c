"""C23: import of versioned code from repositories: right version, complete, with concurrent and killed importers."""

from __future__ import annotations
import json
import os
import posixpath
import re
import sys
from .common import *

PKG = "/simfs/pkg"
IMP = "/simfs/imp"
_state = {}
_pool = []


class GitPopen:
    """stand-in for the git process"""

    def __init__(self, args, *a, cwd=None, stdout=None, **kw):
        if "hook" not in _state:
            raise HarnessError("unexpected Popen %r" % (args,))
        self.args = args
        self.returncode = None
        self.stdin = self.stderr = self.stdout = None
        self._proc = _state["hook"](list(args), cwd)
        self.pid = self._proc.pid

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def poll(self):
        if self.returncode is None and not self._proc.alive:
            self.returncode = self._proc.data["rc"]
        return self.returncode

    def wait(self, timeout=None):
        while self._proc.alive:
            self._proc.sim.block(self._proc.exit_waiters, info="waitpid")
        return self.poll()

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return self._proc.data.get("out", b""), None

    def kill(self):
        if self._proc.alive:
            self._proc.sim.kill_proc(self._proc, -9)

    terminate = kill


class GitError(Exception):
    pass


def fresh_modules():
    """import returnn.import_ once more: the module state of one simulated process"""
    import importlib

    old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "returnn.import_" or k.startswith("returnn.import_.")}
    try:
        importlib.import_module("returnn.import_.import_")
        importlib.import_module("returnn.import_.git")
        importlib.import_module("returnn.import_.common")
        mods = {k: sys.modules[k] for k in list(sys.modules) if k == "returnn.import_" or k.startswith("returnn.import_.")}
    finally:
        for k in list(sys.modules):
            if k == "returnn.import_" or k.startswith("returnn.import_."):
                del sys.modules[k]
        sys.modules.update(old)
    snaps = []
    for m in mods.values():
        snaps.append((m, {k: (type(v)(v) if type(v) in (dict, list, set) else v) for k, v in vars(m).items()}))
    return mods, snaps


def module_set(i):
    while len(_pool) <= i:
        _pool.append(fresh_modules())
    mods, snaps = _pool[i]
    for m, snap in snaps:
        d = vars(m)
        for k in list(d):
            if k not in snap:
                del d[k]
        for k, v in snap.items():
            if k in ("__builtins__", "__loader__", "__spec__"):
                continue
            d[k] = type(v)(v) if type(v) in (dict, list, set) else v
    return mods


REPOS = ["github.com/org-a/exp.one", "github.com/org-a/exp.one-common"]  # the second one is itself a package
PATHS = {0: ["a.py", "pkg/m.py", "pkg/sub/n.py", "nopkg/x_v3.py", "./a.py", "pkg"], 1: ["m.py", "sub/n.py", "."]}
DATES = ["20210101103000", "20210101113000", "20210215235959", "20220301000000", "20230405060708"]


def sha(repo, i):
    import hashlib

    return hashlib.sha1(b"%i %i" % (repo, i)).hexdigest()


def tree(repo, i):
    """files of a commit"""

    def c(f):
        return ("# %s of %s commit %i\n" % (f, REPOS[repo], i)) + "x" * 20 + "\n# end\n"

    if repo == 0:
        fs = ["README", "a.py", "pkg/__init__.py", "pkg/m.py", "pkg/sub/__init__.py", "pkg/sub/n.py", "nopkg/x_v3.py", "zz.txt"]
    else:
        fs = ["__init__.py", "m.py", "sub/__init__.py", "sub/n.py", "zz.txt"]
    if i >= 2:
        fs.append("later%i.py" % i)
    return {f: c(f) for f in fs}


class ImportScenario(Scenario):
    id = "C23"
    quick_runs = 8000
    thorough_runs = 300000
    quick_time = 85
    real_components = ["returnn.import_ (git, common, import_), one copy of the module state per simulated process"]
    stub_components = [
        "the git command (clone, fetch, log, worktree …): writes its files one by one, may fail or be killed, survives its parent",
        "Python's import of the resulting module name (resolves packages, executes the generated __init__.py, reads the file)",
        "file system (in-memory VFS)",
        "clock, process kill",
    ]
    assumptions = [
        "git itself behaves as documented: an object database that git log can read is consistent, a failing clone removes its directory",
        "nobody modifies the package directories by hand",
    ]

    def prepare(self):
        prepare_base()
        import logging
        import subprocess

        real = subprocess.Popen

        class P(GitPopen):
            def __new__(cls, *a, **k):
                if cur_task() is None:
                    return real(*a, **k)
                return object.__new__(cls)

        subprocess.Popen = P
        logging.getLogger("returnn.import_").setLevel(logging.CRITICAL)
        os.environ["RETURNN_PKG_PATH"] = PKG
        os.environ["RETURNN_PKG_IMPORT_PATH"] = IMP
        import returnn.import_.import_  # noqa

    def generate(self, rng, tier):
        procs = []
        n_pub = rng.choice([1, 2, 3, 5])
        repos = rng.choice([[0], [0], [1], [0, 1]])
        hot = rng.randrange(5)
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            imps = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                repo = rng.choice(repos)
                commit = hot if rng.random() < 0.5 else rng.randrange(5)
                kind = rng.choice(["v", "v", "v", "v", "v", "dev", "baddate", "unknown"])
                imps.append(dict(repo=repo, commit=commit, kind=kind, path=rng.choice(PATHS[repo]), other=rng.randrange(8), dl=rng.choice([8, 8, 10, 12, 14]), rl=rng.choice([7, 7, 9, 12, 20, 40]), gap=rng.choice([0, 0, 1, 20])))
            procs.append(dict(delay=rng.choice([0, 0, 0, 0.01, 1, 5, 30]), imps=imps))
        sim = dict(max_time=1e6, **swarm_sched(rng))
        mode = rng.choice(["kill", "kill", "fault", "kill+fault", "plain", "plain"])
        if "kill" in mode:
            sim.update(p_kill=rng.choice([0.005, 0.02, 0.06]), max_kills=rng.choice([1, 1, 2, 4]))
        if "fault" in mode:
            sim.update(faults={k: rng.choice([0.003, 0.01, 0.03]) for k in rng.sample(["enospc", "eio", "short_write"], rng.choice([1, 2]))}, max_faults=rng.choice([1, 2, 4]))
        return dict(
            procs=procs,
            n_pub=n_pub,
            pub_at=[rng.choice([0.5, 3, 10, 40]) for _ in range(5)],
            dur=rng.choice([0, 0.001, 0.5, 3]),
            target=rng.choice(["any", "any", "git", "importer"]),
            mode=mode,
            sim=sim,
        )

    def shrink(self, params):
        for p in shrink_list(params["procs"]):
            if p:
                yield with_(params, procs=p)
        for i, p in enumerate(params["procs"]):
            for im in shrink_list(p["imps"]):
                if im:
                    yield with_(params, procs=params["procs"][:i] + [dict(p, imps=im)] + params["procs"][i + 1 :])
            if p["delay"]:
                yield with_(params, procs=params["procs"][:i] + [dict(p, delay=0)] + params["procs"][i + 1 :])
        if params["n_pub"] < 5:
            yield with_(params, n_pub=5)
        if params["dur"]:
            yield with_(params, dur=0)

    def execute(self, params, chooser, log=False):
        res = RunResult()
        sim = new_sim(params, chooser, log)
        v = sim.vfs
        v.add_mount("pkg")
        v.add_mount("imp")
        v.god_makedirs(PKG)
        old_path = list(sys.path)
        st = dict(pub=params["n_pub"], n_git=0, n_set=0, ok=0, err=0, final=False)
        trees = []  # (root, repo, commit) which were used

        # ------------------------------------------------------------ git
        def write(fn, data):
            fd = os.open(fn, os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
            try:
                data = data.encode()
                while data:
                    data = data[os.write(fd, data) :]
            finally:
                os.close(fd)

        def checkout(path, repo, commit):
            for f, c in tree(repo, commit).items():
                os.makedirs(posixpath.dirname(path + "/" + f), exist_ok=True)
                write(path + "/" + f, c)
                if params["dur"]:
                    sim.sleep(params["dur"] / 10)

        def objs(cwd):
            """(main git dir, repo, commits)"""
            try:
                g = cwd + "/.git"
                if not os.path.isdir(g):
                    with open(g) as f:
                        g = f.read().strip().split(": ")[1].split("/.git/")[0] + "/.git"
                with open(g + "/objs") as f:
                    d = json.loads(f.read())
            except (OSError, ValueError, IndexError):
                raise GitError("not a git repository")
            return g, d["repo"], d["commits"]

        def resolve(repo, commits, rev):
            c = [i for i in commits if sha(repo, i).startswith(rev)] if re.match("^[0-9a-f]{4,40}$", rev) else []
            if rev == "HEAD":
                c = [max(commits)]
            if len(c) != 1:
                raise GitError("bad revision %s" % rev)
            return c[0]

        def put_objs(g, repo, commits):
            tmp = g + "/objs.lock%i" % core.cur_proc().pid
            write(tmp, json.dumps(dict(repo=repo, commits=commits)))
            os.rename(tmp, g + "/objs")

        def nonempty(path):
            return os.path.lexists(path) and not (os.path.isdir(path) and not os.listdir(path))

        def git(args, cwd, me):
            args = list(args)
            assert args.pop(0) == "git", args
            while args[0] in ("-c", "-C"):
                if args[0] == "-C":
                    cwd = args[1]
                del args[:2]
            cmd = args.pop(0)
            if cwd is not None and not os.path.isdir(cwd):
                raise GitError("no cwd")
            pos = [a for a in args if not a.startswith("-")]
            if cmd == "clone":
                url, path = pos
                url = re.sub("^https://([^:/]*):?/", r"\1/", url)
                if url not in REPOS:
                    raise GitError("repository %s not found" % url)
                repo = REPOS.index(url)
                if nonempty(path):
                    raise GitError("destination path already exists")
                try:
                    os.makedirs(path + "/.git", exist_ok=True)
                    write(path + "/.git/HEAD", "ref: master")
                    os.makedirs(path + "/.git/worktrees", exist_ok=True)
                    commits = list(range(st["pub"]))
                    sim.sleep(params["dur"])
                    put_objs(path + "/.git", repo, commits)
                    checkout(path, repo, max(commits))
                except OSError:
                    import shutil

                    shutil.rmtree(path, ignore_errors=True)  # "git clone" removes it when it fails
                    raise
                return b""
            g, repo, commits = objs(cwd)
            if cmd == "fetch":
                sim.sleep(params["dur"])
                put_objs(g, repo, list(range(max(st["pub"], len(commits)))))
                return b""
            if cmd == "log":
                i = resolve(repo, commits, pos[0])
                return ("%s %s" % (sha(repo, i), DATES[i])).encode()
            if cmd == "rev-parse":
                return (sha(repo, resolve(repo, commits, pos[-1]))[:12] + "\n").encode()
            if cmd in ("cat-file",):
                resolve(repo, commits, pos[-1].split("^")[0])
                return b""
            if cmd == "show":
                d = DATES[resolve(repo, commits, pos[-1])]
                return ("%s-%s-%s %s:%s:%s +0000\n" % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14])).encode()
            if cmd in ("diff", "status", "gc"):
                return b""
            if cmd == "worktree":
                sub = pos.pop(0)
                os.makedirs(g + "/worktrees", exist_ok=True)
                if sub == "add":
                    path, rev = pos
                    i = resolve(repo, commits, rev)
                    if nonempty(path):
                        raise GitError("%s already exists" % path)
                    for d in sorted(os.listdir(g + "/worktrees")):
                        try:
                            with open(g + "/worktrees/" + d) as f:
                                if f.read() == path and "-f" not in args and "--force" not in args:
                                    raise GitError("%s is a missing but already registered worktree" % path)
                        except FileNotFoundError:
                            pass
                    os.makedirs(path, exist_ok=True)
                    write(g + "/worktrees/" + posixpath.basename(path), path)
                    write(path + "/.git", "gitdir: %s/worktrees/%s" % (g, posixpath.basename(path)))
                    checkout(path, repo, i)
                    return b""
                if sub == "repair":
                    for path in pos:
                        write(g + "/worktrees/" + posixpath.basename(path), path)
                    return b""
                if sub == "remove":
                    import shutil

                    shutil.rmtree(pos[0])
                    return b""
                if sub == "move":
                    a, b = pos
                    if os.path.isdir(b):
                        b = b + "/" + posixpath.basename(a)
                    if os.path.lexists(b):
                        raise GitError("target already exists")
                    os.rename(a, b)
                    return b""
                if sub in ("prune", "list"):
                    for d in sorted(os.listdir(g + "/worktrees")):
                        with open(g + "/worktrees/" + d) as f:
                            gone = not os.path.exists(f.read())
                        if gone and sub == "prune":
                            os.unlink(g + "/worktrees/" + d)
                    return b""
            raise HarnessError("git command not modelled: %r" % ([cmd] + args,))

        def hook(args, cwd):
            sim.event("git", " ".join(args[:3]))
            parent = core.cur_proc()
            st["n_git"] += 1

            def main():
                me = core.cur_proc().data
                me["rc"] = 128
                try:
                    me["out"] = git(args, cwd, me)
                    me["rc"] = 0
                except GitError as exc:
                    sim._log("git-error", str(exc))

            p = sim.spawn_proc(main, name="git%i" % st["n_git"])

            def gone(pr):
                if pr.killed_by:
                    pr.data["rc"] = -9
                    parent.data["faulty"] = True
                elif pr.exc is not None:
                    pr.data["rc"] = 128
                    if isinstance(pr.exc, (HarnessError, AssertionError)) or not isinstance(pr.exc, (OSError, core.SimKilled)):
                        st["harness"] = describe_exc(pr.exc)
                if pr.data.get("faulty"):
                    parent.data["faulty"] = True

            p.exit_hooks.append(gone)
            return p

        _state["hook"] = hook
        orig_cf = sim.count_fault

        def cf(kind):
            t = cur_task()
            if t is not None:
                t.proc.data["faulty"] = True
            return orig_cf(kind)

        sim.count_fault = cf
        if params["target"] != "any":
            sim.kill_filter = lambda t, kind, detail: t.proc.name.startswith("git") == (params["target"] == "git")

        # ------------------------------------------------------------ stand-in of Python's import
        GEN = "from returnn.import_.common import setup_py_pkg\nsetup_py_pkg(globals())\n"

        def importer(mods):
            def import_module(name, package=None):
                path = IMP
                parts = name.split(".")
                through_link = False
                content = None
                for i, part in enumerate(parts):
                    d = path + "/" + part
                    if os.path.isdir(d):
                        through_link = through_link or os.path.islink(d)
                        content = None
                        try:
                            with open(d + "/__init__.py") as f:
                                content = f.read()
                        except FileNotFoundError:
                            if not through_link:
                                raise ImportError("package dir %s without __init__.py" % d)
                        if not through_link:
                            if GEN not in content:
                                raise ImportError("package dir %s: incomplete __init__.py %r" % (d, content))
                            mods["returnn.import_.common"].setup_py_pkg({"__name__": ".".join(parts[: i + 1])})
                        path = d
                        final = d
                    elif i == len(parts) - 1:
                        fn = d + ".py"
                        if not os.path.exists(fn):
                            raise ModuleNotFoundError("no module %s (%s)" % (name, d))
                        with open(fn) as f:
                            content = f.read()
                        final = fn
                    else:
                        raise ModuleNotFoundError("no package %s of %s" % (d, name))
                return name, final, content, os.path.realpath(final)

            return import_module

        class Importlib:
            def __init__(self, real, f):
                self._real = real
                self.import_module = f

            def __getattr__(self, k):
                return getattr(self._real, k)

        def new_set():
            import importlib

            mods = module_set(st["n_set"])
            st["n_set"] += 1
            f = importer(mods)
            for m in mods.values():
                d = vars(m)
                if d.get("importlib") is importlib:
                    d["importlib"] = Importlib(importlib, f)
                if d.get("import_module") is importlib.import_module:
                    d["import_module"] = f
            return mods

        # ------------------------------------------------------------ importers
        def version(im):
            if im["kind"] == "dev":
                return None
            rev = sha(im["repo"], im["commit"])[: im["rl"]]
            date = DATES[im["commit"]]
            if im["kind"] == "unknown":
                # a commit of the other repository, or of none
                rev = sha(1 - im["repo"], im["commit"] if im["other"] % 2 else 77)[: im["rl"]]
            if im["kind"] == "baddate":
                # date of another commit, or slightly different
                bad = [d for d in DATES + ["20190101000000", date[:13] + str((int(date[13]) + 1) % 10), date[:7] + str((int(date[7]) + 1) % 10) + date[8:]] if d[: im["dl"]] != date[: im["dl"]]]
                date = bad[im["other"] % len(bad)]
            return "%s-%s" % (date[: im["dl"]], rev)

        def check_tree(root, repo, commit, when):
            want = tree(repo, commit)
            got = {}
            for p, node in v.walk_files(root):
                rel = p[len(root) + 1 :]
                if rel == ".git" or rel.startswith(".git/"):
                    continue
                got[rel] = bytes(node.data).decode()
            if got != want:
                miss = sorted(set(want) - set(got))
                extra = sorted(set(got) - set(want))
                diff = sorted(f for f in want if f in got and got[f] != want[f])
                res.violate("incomplete" if not diff and not extra else "wrong-tree", "%s: %s is not commit %i of %s: missing %s, too much %s, different %s" % (when, root, commit, REPOS[repo], miss, extra, diff))
                return False
            return True

        def do_import(mods, im, who):
            p = core.cur_proc()
            pub0 = st["pub"]
            ver = version(im)
            bad = im["kind"] in ("baddate", "unknown")
            try:
                r = mods["returnn.import_.import_"].import_(REPOS[im["repo"]], im["path"], ver)
            except core.SimKilled:
                raise
            except Exception as exc:
                st["err"] += 1
                sim._log("import-error", repr(exc)[:200])
                if p.data.get("faulty") or bad or "harness" in st:
                    return False
                if im["kind"] == "v" and im["commit"] >= pub0:
                    return False  # was not published yet
                res.violate("error:%s" % type(exc).__name__, "t=%.2f %s: import of %s %s %s failed without any fault of its own: %s" % (sim.elapsed, who, REPOS[im["repo"]], im["path"], ver, describe_exc(exc)))
                return False
            st["ok"] += 1
            what = "%s: import of %s %s %s" % (who, REPOS[im["repo"]], im["path"], ver)
            if bad:
                res.violate("accepted", "%s: accepted, gives %r" % (what, r))
                return False
            name, final, content, real = r
            rel = posixpath.normpath(im["path"])
            if rel == ".":
                rel = "__init__.py"
                real = real + "/__init__.py"
            elif not rel.endswith(".py"):
                rel += "/__init__.py"
                real = real + "/__init__.py"
            if not real.endswith("/" + rel):
                res.violate("wrong-file", "%s: gives %s" % (what, real))
                return False
            root = real[: -len(rel) - 1]
            if im["kind"] == "dev":
                cs = [c for c in range(5) if tree(im["repo"], c)[rel] == content]
                if not cs:
                    res.violate("wrong-code", "%s: gives %r" % (what, content))
                    return False
                commit = cs[0]
            else:
                commit = im["commit"]
                if content != tree(im["repo"], commit)[rel]:
                    res.violate("wrong-code", "%s: gives %r, should be %r" % (what, content, tree(im["repo"], commit)[rel]))
                    return False
            if check_tree(root, im["repo"], commit, what):
                trees.append((root, im["repo"], commit))
            return True

        def proc_main(pi, mods):
            for k, im in enumerate(params["procs"][pi]["imps"]):
                if im["gap"]:
                    sim.sleep(im["gap"])
                do_import(mods, im, "p%i" % pi)
                if res.violation:
                    return

        sets = [new_set() for _ in params["procs"]]
        combos = sorted({(im["repo"], im["commit"], im["kind"], im["path"]) for p in params["procs"] for im in p["imps"] if im["kind"] in ("v", "dev")})
        final_sets = [new_set(), new_set()]

        def world():
            core.cur_proc().killable = False
            for d in params["pub_at"]:
                sim.sleep(d)
                if st["pub"] < 5:
                    st["pub"] += 1
                    sim.event("publish", st["pub"])

        def sup():
            core.cur_proc().killable = False
            ps = [sim.spawn_proc(lambda i=i: proc_main(i, sets[i]), name="p%i" % i, start_delay=p["delay"]) for i, p in enumerate(params["procs"])]
            for p in ps:
                while p.alive:
                    sim.block(p.exit_waiters, info="wait")
            # no more faults, everything published: every import works, also in a new process
            sim.cfg.faults = {}
            sim.cfg.p_kill = 0.0
            sim.kill_filter = lambda *a: False
            st["pub"] = 5
            sim.sleep(100)
            for k in range(2):

                def fin(k=k):
                    for repo, commit, kind, path in combos if k == 0 else combos[::-1]:
                        if not do_import(final_sets[k], dict(repo=repo, commit=commit, kind=kind, path=path, dl=8, rl=7), "final%i" % k) or res.violation:
                            return

                if res.violation:
                    return
                p = sim.spawn_proc(fin, name="fin%i" % k)
                while p.alive:
                    sim.block(p.exit_waiters, info="wait")
                if p.exc is not None and not isinstance(p.exc, core.SimKilled):
                    st["harness"] = describe_exc(p.exc)
            if not res.violation:
                for t in sorted(set(trees)):
                    check_tree(*t, "at the end")
            st["final"] = True

        sim.spawn_proc(sup, name="sup")
        sim.spawn_proc(world, name="world")
        try:
            run_sim(sim)
        finally:
            sys.path[:] = old_path
            _state.pop("hook", None)
        if "harness" in st:
            raise HarnessError(st["harness"])
        if sim.outcome != "ok":
            res.violate("no-progress", "%s: %s" % (sim.outcome, sim.outcome_info))
        elif not st["final"] and not res.violation:
            raise HarnessError("supervisor died")
        self.collect(sim, res, dict(count={"imports_ok": st["ok"], "imports_failed": st["err"], "git": st["n_git"]}, case=params["mode"]))
        return res


SCENARIO = ImportScenario()
