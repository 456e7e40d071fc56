"""A thin slice of all checks in one process (for tools/mutate.py): prints the first violation or QUIET.

usage: MC_REPO=tree fast.py CAP [checks]
"""
import importlib, os, signal, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core

cap = int(sys.argv[1])
checks = sys.argv[2].split(",") if len(sys.argv) > 2 else ["c%02d" % i for i in range(1, 27) if i not in (19, 20, 21, 23)]
core.load()
signal.signal(signal.SIGALRM, core._on_alarm)
dn = os.open(os.devnull, os.O_WRONLY)
out = os.dup(1)
os.dup2(dn, 1)
base = tempfile.mkdtemp(prefix="fast-", dir="/dev/shm")
try:
    plan = []
    for c in checks:
        for s in importlib.import_module("mc.checks." + c).spaces():
            for li, (name, states) in enumerate(s.levels("quick")):
                plan.append((li, c, s, name, states))
    plan.sort(key=lambda x: x[0])
    ctxs = {}
    for li, c, s, name, states in plan:
        key = (c, s.name)
        if key not in ctxs:
            r = "%s/%s-%s" % (base, c, s.name)
            os.makedirs(r)
            ctxs[key] = core.Ctx(r)
        s._level = li
        step = max(1, len(states) // cap)
        off = (li * 7) % step
        for st in states[off::step]:
            bad = core.run_state(s, ctxs[key], st)
            if bad:
                m = bad[0]
                os.write(out, ("CAUGHT %s %s/%s: %s\n" % (c, s.name, name, core.short(s.label(st), 150))).encode("utf-8", "replace"))
                os._exit(0)
            ctxs[key].written = {}
    os.write(out, b"QUIET\n")
finally:
    shutil.rmtree(base, ignore_errors=True)
