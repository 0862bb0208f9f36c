"""showlog.py replay.json [regex-exclude]: event log of a replay, around the violation"""
import json, os, re, subprocess, sys

fn = sys.argv[1]
ex = re.compile(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2] else None
n = int(sys.argv[3]) if len(sys.argv) > 3 else 120
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = subprocess.run([sys.executable, "-B", V + "/check.py", "replay", fn, "--log"], capture_output=True, text=True)
if not o.stdout.strip():
    print(o.stderr[-3000:])
    sys.exit(1)
d = json.loads(o.stdout.strip().splitlines()[-1])
lines = [x for x in (d.get("log") or []) if not ex or not ex.search(x)]
if len(sys.argv) > 4:
    lines = lines[: int(sys.argv[4])]
print("\n".join(x[: 170 if "child-exc" not in x else 2000] for x in lines[-n:]))
print(d["violation"])
print(json.dumps({k: v for k, v in json.load(open(fn)).items() if k in ("params", "dev")}))
