"""Write /verif/SPACES.md: what each check enumerates, from its rule and the evidence of a run of all quick checks.

usage: spaces.py [run]    (run: run every quick check first)
"""
import importlib, json, subprocess, sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
PY = "/opt/venv/bin/python"

props = [json.loads(l) for l in open(V / "properties.jsonl")]
if sys.argv[1:] == ["run"]:
    for p in props:
        r = subprocess.run([PY, "-m", "mc.run", p["id"], "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        print(p["id"], r.returncode, flush=True)
        if r.returncode:
            sys.exit(r.stdout.decode()[-2000:])
out = ["# What each check enumerates", "", "Written by `tools/spaces.py` from the rules of the checks and the evidence of their quick runs.",
       "A state is one document, environment, history or schedule; an execution is one parse by the real code.", ""]
total = [0, 0]
for p in props:
    m = importlib.import_module("mc.checks." + p["id"].lower())
    e = json.load(open(V / "evidence" / (p["id"] + ".json")))
    assert e["tier"] == "quick" and not e["violations"], p["id"]
    c = e["coverage"]
    out += ["## %s %s" % (p["id"], p["title"]), "", m.RULE[0].upper() + m.RULE[1:] + ".", ""]
    if m.ASSUMPTIONS:
        out += ["Assumes: " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    out += ["| space | levels | states | executions |", "|---|---|---|---|"]
    by = {}
    for s in c["spaces"]:
        by.setdefault(s["space"], []).append(s)
    for n, ls in by.items():
        lv = [l["level"] for l in ls]
        out.append("| %s | %s | %d | %d |" % (n, ", ".join(lv) if len(lv) < 9 else "%s, ... %s (%d levels)" % (lv[0], lv[-1], len(lv)), sum(l["states"] for l in ls), sum(l.get("executions", 0) for l in ls)))
    n = sum(s["states"] for s in c["spaces"])
    x = sum(s.get("executions", 0) for s in c["spaces"])
    total[0] += n
    total[1] += x
    out += ["", "%d states, %d executions of the implementation, %d distinct outcomes.%s" % (n, x, c["distinct_outcomes"], "" if c.get("exhaustive", True) else " NOT EXHAUSTIVE."), ""]
out += ["In total %d states and %d executions." % tuple(total), ""]
(V / "SPACES.md").write_text("\n".join(out).replace("|", "|"))
