"""writes MANIFEST.json from the scenarios which exist and properties.jsonl"""
import json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sim.runner import load_scenario  # noqa

props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = sorted({m.group(1).upper() for fn in os.listdir(V + "/scenarios") for m in [re.match(r"(c\d+)_.*\.py$", fn)] if m})
NA = {
    "N01": "Pure function of its inputs: no schedule, clock, I/O or other party can influence it, so there is nothing for a simulator to vary; it needs numeric differential testing, another technique family.",
    "N02": "Compile-time graph transformation plus numerics in one thread; no concurrency, time, I/O or crash behaviour for the property to depend on.",
    "N03": "Pure numeric kernels (C++/CUDA/TF ops); no concurrency, time or I/O at the level of the statement for a simulator to control.",
}
checks = []
na = []
py = "/opt/venv/bin/python -B check.py run"
for p in props:
    i = p["id"]
    if i in have:
        s = load_scenario(i)
        checks.append(
            dict(
                property=i,
                quick_cmd="%s %s --tier quick" % (py, i),
                thorough_cmd="%s %s --tier thorough" % (py, i),
                technique="deterministic simulation with fault injection (seeded search over schedules and faults)",
                level=s.level,
                level_note="Seeded exploration of simulated executions of the real code; not exhaustive. Assumes: "
                + ("; ".join(s.assumptions) or "the simulator's model of threads, clock, processes and files")
                + ". Stubs: "
                + ("; ".join(s.stub_components) or "none")
                + ".",
            )
        )
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check has been built for it yet.")))
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    hooks=dict(guard="none", enable="No hooks in /repo: all seams are installed from outside (module-level patching of threading, time, os, open, multiprocessing, subprocess), so the shipped code runs unmodified.", source_commits=[]),
    checks=checks,
    not_applicable=na,
    notes="Replay a violation with: /opt/venv/bin/python -B check.py replay <file> --log. Known findings and fixes: known_findings.json.",
)
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("claimed:", [c["property"] for c in checks], "na:", [x["property"] for x in na])
