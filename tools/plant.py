"""Plant the bugs defined in tools/bugs/*.py: write seeded/<id>/ after confirming, in a
scratch copy of /repo, that the change applies, keeps the tests passing and makes its
demonstration fail; then run the property's quick check against the scratch copy.

usage: plant.py [--nocheck] [--recheck] ID...   (ID may be a prefix; "all")
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
BASE = "4601082"
HELPER = (V / "tools/bugs/h.py")


def load():
    out = []
    for f in sorted(glob.glob(str(V / "tools/bugs/b*.py"))):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.B
    ids = [b["id"] for b in out]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return out


def apply(bug, tree):
    for f, old, new in bug["edits"]:
        p = tree / "pytiled_parser" / f
        s = p.open(newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        n = s.count(old)
        if n != 1:
            return f"{f}: {n} occurrences of {old!r}"
        s = s.replace(old, new)
        if crlf:
            s = s.replace("\n", "\r\n")
        p.open("w", newline="").write(s)
    return None


def sh(cmd, cwd, t=300, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, timeout=t)


def one(bug, check=True):
    w = Path(tempfile.mkdtemp(prefix="plant."))
    try:
        sh(["cp", "-a", "/repo", str(w / "r")], "/")
        r = w / "r"
        err = apply(bug, r)
        if err:
            return "EDIT " + err
        diff = sh(["git", "diff", "--no-color"], r).stdout
        # removed lines must be lines of the original repository
        orig = False
        base = {}
        cur = None
        for l in diff.split(b"\n"):
            if l.startswith(b"--- a/"):
                cur = l[6:].strip().decode()
                base[cur] = set(sh(["git", "show", f"{BASE}:{cur}"], r).stdout.split(b"\n"))
            elif l.startswith(b"-") and not l.startswith(b"---"):
                if l[1:].strip() and l[1:] in base[cur]:
                    orig = True
        probe = "" if orig else "(not kept: no original line) "
        d = V / "seeded" / bug["id"]
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / "patch.diff").write_bytes(diff)
        (d / "demo.sh").write_text(
            '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\n'
            'PYTHONPATH="$PWD:$here" exec timeout 250 /opt/venv/bin/python "$here/demo.py"\n')
        (d / "demo.py").write_text("from h import *\n\n" + bug["demo"].strip("\n") + "\n")
        shutil.copy(HELPER, d / "h.py")
        (d / "meta.json").write_text(json.dumps(
            {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
        bad = None
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--no-header"], r)
        if t.returncode != 0:
            bad = "TESTS FAIL " + t.stdout.decode()[-600:]
        g = sh(["bash", str(d / "demo.sh")], "/repo")
        b = sh(["bash", str(d / "demo.sh")], r)
        if g.returncode != 0:
            bad = "DEMO FAILS ON GOOD " + g.stderr.decode()[-600:]
        elif b.returncode == 0:
            bad = "DEMO PASSES ON BAD"
        if bad:
            shutil.rmtree(d)
            return bad
        if not check and orig:
            return "planted: " + b.stderr.decode().strip().split("\n")[-1][:100]
        res = runcheck(bug, r)
        if not orig:
            shutil.rmtree(d)
        return probe + res
    finally:
        shutil.rmtree(w)


def runcheck(bug, tree):
    c = sh([PY, "-m", "mc.run", bug["property"], "quick"], V, 900, MC_REPO=str(tree),
           MC_EVIDENCE="/dev/null")
    o = c.stdout.decode()
    if c.returncode == 1 and f"VIOLATION property={bug['property']}" in o:
        return "CAUGHT"
    return f"MISSED rc={c.returncode} {o[-200:]} {c.stderr.decode()[-300:]}"


def recheck(bug):
    w = Path(tempfile.mkdtemp(prefix="plant."))
    try:
        sh(["cp", "-a", "/repo", str(w / "r")], "/")
        err = apply(bug, w / "r")
        return err or runcheck(bug, w / "r")
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = [b for b in load() if "all" in args or any(b["id"].startswith(a) for a in args)]
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        def go(b):
            res = recheck(b) if "--recheck" in sys.argv else one(b, "--nocheck" not in sys.argv)
            print(b["id"], res, flush=True)
            return res
        res = list(ex.map(go, bugs))
    print(sum(r.startswith(("CAUGHT", "planted")) for r in res), "of", len(res))
