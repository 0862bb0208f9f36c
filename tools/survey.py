"""survey.py PROP [--runs N --seed S --workers W --time T]: run all, group the violations"""
import argparse, os, re, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import runner

p = argparse.ArgumentParser()
p.add_argument("prop")
p.add_argument("--runs", type=int, default=300)
p.add_argument("--seed", type=int, default=1)
p.add_argument("--workers", type=int, default=3)
p.add_argument("--time", type=float, default=300)
p.add_argument("-n", type=int, default=1)
p.add_argument("-c", type=int, default=900)
a = p.parse_args()
g = runner.run_batch(a.prop, "quick", a.seed, runs=a.runs, budget=a.time, workers=a.workers, stop_on_violation=False)
d = {}
for r in g["violations"]:
    cls, msg = r["violation"]
    m = re.findall(r'File "([^"]*)", line (\d+)', msg)
    key = (cls, m[-1] if m else "")
    d.setdefault(key, []).append(r)
for k, rs in sorted(d.items(), key=lambda x: -len(x[1])):
    print("==", len(rs), k, "runs", [r["i"] for r in rs][:10])
    rs.sort(key=lambda r: len(r["violation"][1]))
    for r in rs[: a.n]:
        print("   run", r["i"], r["violation"][1][: a.c])
for e in g["errors"]:
    print("ERROR", e[0], e[1], e[2][-3000:])
for e in g["hangs"]:
    print("HANG", e[0], e[1][-3000:])
print(g["runs"], "runs", g["wall"], "s; max", g["max_wall"], g["extra"], g["outcomes"])
