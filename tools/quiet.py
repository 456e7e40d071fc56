"""Apply the behaviour-preserving rewrites of tools/refactors/*.py to a copy of /repo and run the checks on it.

usage: quiet.py NAMES CHECKS   (NAMES: comma separated or all; CHECKS: comma separated or all)
"""
import ast, glob, importlib.util, subprocess, sys, tempfile, shutil, time
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
from plant import V, PY, sh


def rewrites():
    out = {}
    for f in sorted(glob.glob(str(V / "tools/refactors/*.py"))):
        spec = importlib.util.spec_from_file_location("r", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out.update(m.R)
    return out


def edit(tree, e):
    p = tree / "pytiled_parser" / e[0]
    s = p.open(newline="").read()
    crlf = "\r\n" in s
    s = s.replace("\r\n", "\n")
    if len(e) == 3:
        assert s.count(e[1]) == 1, (e[0], e[1], s.count(e[1]))
        s = s.replace(e[1], e[2])
    elif e[1][0] == "func":
        n = [x for x in ast.parse(s).body if isinstance(x, ast.FunctionDef) and x.name == e[1][1]]
        assert len(n) == 1, e[1][1]
        lines = s.split("\n")
        a = min([n[0].lineno] + [d.lineno for d in n[0].decorator_list]) - 1
        lines[a:n[0].end_lineno] = e[1][2].rstrip("\n").split("\n")
        s = "\n".join(lines)
    elif e[1][0] == "cut":
        i = s.index(e[1][1])
        j = s.index(e[1][2], i)
        s = s[:i] + e[1][3] + s[j:]
    if crlf:
        s = s.replace("\n", "\r\n")
    p.open("w", newline="").write(s)


if __name__ == "__main__":
    rw = rewrites()
    names = [n for n in rw if (n[0] == "2") == (sys.argv[1] == "all2")] if sys.argv[1] in ("all", "all2") else sys.argv[1].split(",")
    checks = ["C%02d" % i for i in range(1, 31)] if sys.argv[2] == "all" else sys.argv[2].split(",")
    w = Path(tempfile.mkdtemp(prefix="quiet."))
    try:
        sh(["cp", "-a", "/repo", str(w / "r")], "/")
        for n in names:
            for e in rw[n]:
                edit(w / "r", e)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-header"], w / "r")
        print(t.stdout.decode().strip().split("\n")[-1])
        if t.returncode:
            print(t.stdout.decode()[-3000:])
            sys.exit(2)
        for c in checks:
            t0 = time.time()
            r = sh([PY, "-m", "mc.run", c, "quick"], V, 900, MC_REPO=str(w / "r"), MC_EVIDENCE="/dev/null")
            print(c, "quiet" if r.returncode == 0 else "ALARM %d\n%s%s" % (r.returncode, r.stdout.decode()[-1500:], r.stderr.decode()[-800:]), "%.0f s" % (time.time() - t0), flush=True)
    finally:
        shutil.rmtree(w)
