"""replaydiff.py PROP seed run: random run versus replay of its recorded decisions, first difference in the event log"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("PYTHONHASHSEED", "0"); sys.path.insert(0, "/repo")
from sim.runner import *
from sim.runner import _guarded_run
scn = load_scenario(sys.argv[1])
scn.prepare()
p, c = gen_run(scn, "quick", int(sys.argv[2]), int(sys.argv[3]))
r1 = _guarded_run(scn, p, c, log=True)
r2 = _guarded_run(scn, json.loads(json.dumps(p)), Chooser(deviations=json.loads(json.dumps(c.dev))), log=True)
import re
l1, l2 = [[re.sub(r"Thread-\d+", "Thread", x) for x in r.stats["log"]] for r in (r1, r2)]
print(r1.stats["digest"], r2.stats["digest"])
for i, (a, b) in enumerate(zip(l1, l2)):
    if a != b:
        print("\n".join(l1[max(0, i - 8) : i + 3]))
        print("--")
        print("\n".join(l2[max(0, i - 8) : i + 3]))
        print({k: v for k, v in c.dev.items() if int("".join(x for x in k.split(".")[0] if x.isdigit())) - 10 < int(l1[i].split()[0]) + 5 and int("".join(x for x in k.split(".")[0] if x.isdigit())) > int(l1[i].split()[0]) - 10})
        break
print(len(l1), len(l2), r1.violation, r2.violation)
