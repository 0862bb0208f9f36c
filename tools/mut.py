#!/usr/bin/env python3
"""
mut.py [-j N] [ID-or-PROP ...]: small changes (tools/mutants.py) which should be detected. For each: copy of /repo's HEAD with the change,
run the quick check of the property on it, report. Only for development, not part of any check.
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(__file__))
from mutants import M

args = sys.argv[1:]
j = 3
if args[:1] == ["-j"]:
    j = int(args[1]); args = args[2:]
sel = [m for m in M if not args or m["id"] in args or any(p in args for p in m["props"])]


def run(m):
    d = "/tmp/mut/" + m["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("git -C " + os.environ.get("MUT_REPO", "/repo") + " archive HEAD | tar x -C %s" % d, shell=True, check=True)
    for f, old, new in m["edits"]:
        fn = d + "/" + f
        s = open(fn).read()
        if s.count(old) < 1:
            return m["id"], "OLD TEXT NOT FOUND in " + f
        open(fn, "w").write(s.replace(old, new, 1))
    out = []
    for p in m["props"]:
        env = dict(os.environ, VERIF_REPO=d, PYTHONPATH="/verif:" + d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=d + "-out")
        r = subprocess.run(["/opt/venv/bin/python", "-B", "/verif/check.py", "run", p, "--workers", os.environ.get("MUT_WORKERS") or str(max(1, 8 // j))], env=env, cwd="/verif", capture_output=True, text=True)
        o = r.stdout.strip().splitlines()
        first = [x for x in o if x.startswith("run ")][:1]
        out.append("%s exit %i | %s | %s" % (p, r.returncode, (first or [""])[0][:160], o[-1][-60:] if o else r.stderr[-300:]))
    shutil.rmtree(d, ignore_errors=True)
    return m["id"], "\n    ".join(out)


with ThreadPoolExecutor(j) as ex:
    for i, s in ex.map(run, sel):
        print(i, ":", s, flush=True)
