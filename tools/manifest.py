"""Writes /verif/MANIFEST.json from the property modules that exist (python3 tools/manifest.py)."""
import ast
import json
import os

root = os.path.realpath(os.path.join(os.path.dirname(os.path.realpath(__file__)), ".."))
NA = {
    "C20": "A pure function of its input text: no schedule, clock, message, file operation, crash or randomness takes part, so a simulation has nothing to decide. (That all processes read the same input, and stop together when it is invalid, is C19 and is claimed.)",
    "C21": "A pure single-process numerical property of fixed matrices: nothing in it depends on scheduling, messages, time, I/O or faults.",
    "C22": "A single-process numerical-analysis property (truncation error against the time step): no schedule, clock, message or fault can change it; that results do not depend on those is C03/C04 and is claimed.",
}
checks = []
na = []
for l in open(os.path.join(root, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    f = os.path.join(root, "props", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(f):
        na.append({"property": i, "reason": "Not built yet."})
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("LEVEL", "RULE", "ASSUMPTIONS"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "deterministic simulation: real code of all ranks in one process over a simulated MPI, clock and disk; seeded search over schedules and faults",
        "level": v["LEVEL"],
        "level_note": v["RULE"] + " Sampled, not exhaustive. Assumes: " + "; ".join(v["ASSUMPTIONS"]) + ". Trusts the simulated MPI (sim/simmpi.py) to allow what real MPI allows.",
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator takes the place of the mpi4py module, time, open/os and sqlite3 below the unmodified code. Replay a violation: python3 check.py replay <file>. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
