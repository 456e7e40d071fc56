"""python -m mc.run <property> [--replay case.json]   (VERIF_TIER, VERIF_SEED)"""
import ast
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import core


def replay(prop, case):
    mod = importlib.import_module("mc.checks." + prop.lower())
    if hasattr(mod, "before_load"):
        mod.before_load()
    if hasattr(mod, "prepare"):
        mod.prepare()
    with open(case) as f:
        c = json.load(f)
    sp = [s for s in mod.spaces() if s.name == c["space"]][0]
    core.load()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    with tempfile.TemporaryDirectory(prefix="mc-replay-", dir=base) as d:
        d = os.path.realpath(d)
        signal.signal(signal.SIGALRM, core._on_alarm)
        root = d + "/w0"
        os.makedirs(root)
        sp._level = 0
        if hasattr(sp, "prepare"):
            sp.prepare()
        bad = core.run_state(sp, core.Ctx(root), ast.literal_eval(c["state"]))
    for m in bad:
        sys.stderr.write("MISMATCH %s\n  at       %s\n  expected %s\n  observed %s\n" % (m.call, m.where, core.short(m.exp), core.short(m.obs)))
    print("REPRODUCED" if bad else "NOT-REPRODUCED")
    return 1 if bad else 0


def main(argv):
    prop = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(prop, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("mc.checks." + prop.lower())
    if hasattr(mod, "before_load"):
        mod.before_load()
    try:
        core.load()
    except core.HarnessError:
        raise
    except BaseException:
        # a tree that cannot be imported holds no property
        traceback.print_exc()
        print("the package cannot be imported")
        return 2
    if hasattr(mod, "prepare"):
        mod.prepare()
    run = core.Run(prop, mod.spaces(), tier, seed, core.known_findings(prop))
    run.go()
    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "model_checking")
    core.evidence(prop, tier, seed, level, run, wall, mod.RULE, mod.ASSUMPTIONS, fault=level == "fault_enumeration")
    for k, m in sorted(run.hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, run.known[k]["what"]))
    tot = sum(s["states"] for s in run.stats)
    ex = sum(s["executions"] for s in run.stats)
    print("%s %s: %d states, %d executions of the implementation, %d distinct outcomes, %.1f s" % (prop, tier, tot, ex, len(run.outset), wall))
    if os.environ.get("MC_VERBOSE"):
        for s in run.stats:
            print("   ", s)
    if run.viol is None:
        return 0
    space, lname, i, state, (call, where, exp, obs, files) = run.viol
    d = core.write_replay(prop, run.viol)
    try:
        r = subprocess.run(
            [sys.executable, "-m", "mc.run", prop, "--replay", os.path.join(d, "case.json")],
            cwd=core.VERIF, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120,
        )
        alone = "REPRODUCED" == r.stdout.decode("utf-8", "replace").strip()
    except subprocess.TimeoutExpired:
        alone = False
    print("state    %s/%s #%d: %s" % (space.name, lname, i, core.short(space.label(state))))
    print("call     %s" % (call,))
    print("at       %s" % (where,))
    print("expected %s" % core.short(exp).encode("ascii", "backslashreplace").decode())
    print("observed %s" % core.short(obs).encode("ascii", "backslashreplace").decode())
    print("replayed in a fresh process: %s" % ("reproduced" if alone else "not reproduced alone: it depends on what was parsed before"))
    print("VIOLATION property=%s replay=%s" % (prop, d))
    return 1


if __name__ == "__main__":
    sys.stdout.reconfigure(encoding="utf-8", errors="backslashreplace")
    try:
        rc = main(sys.argv[1:])
    except core.HarnessError as e:
        print("HARNESS ERROR", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
