"""Rare wrong values: every value the package computes, wrong on a condition only (a long string, a negative number,
a character beyond the BMP ...), one (place, condition) at a time.

usage: trigger.py OUT CAP [checks]

One instrumented copy of the package serves all: first every place records in which states of the checks' quick levels (at
most CAP per level) each condition holds; then, for each (place, condition), those states are run with the value changed.
OUT lists what no check noticed ("QUIET") and conditions that never hold ("NEVER").
"""
import ast, builtins, html, importlib, json, math, multiprocessing, os, shutil, signal, struct, sys, tempfile, unicodedata, urllib.parse
from pathlib import Path, PurePath

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TREE = tempfile.mkdtemp(prefix="trig-", dir="/dev/shm")
FILES = ["util.py", "world.py", "parser.py"] + ["parsers/%s/%s.py" % (f, m) for f in ("json", "tmx") for m in ("layer", "properties", "tiled_map", "tiled_object", "tileset", "wang_set")]


def f32(v):
    try:
        return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError:
        return v


S = {
    "long": lambda v: v[:64], "ascii": lambda v: v.encode("ascii", "ignore").decode(), "strip": lambda v: v.strip(), "newline": lambda v: v.replace("\n", " "), "tab": lambda v: v.replace("\t", " "),
    "backslash": lambda v: v.replace("\\", "/"), "unquote": urllib.parse.unquote, "lower": lambda v: v.lower(), "number": lambda v: str(int(v)) if v.isascii() and v.isdigit() else v,
    "quotes": lambda v: v.replace('"', "").replace("'", ""), "unescape": html.unescape, "nfc": lambda v: unicodedata.normalize("NFC", v), "nfd": lambda v: unicodedata.normalize("NFD", v),
    "astral": lambda v: "".join(c if ord(c) < 65536 else "?" for c in v), "spaces": lambda v: " ".join(v.split(" ")) if "  " not in v else v.replace("  ", " "), "empty": lambda v: v or "x",
    "comma": lambda v: v.split(",")[0], "slash": lambda v: os.path.normpath(v) if "/" in v and v else v, "none": lambda v: "" if v.lower() in ("none", "null", "nan", "undefined") else v, "hash": lambda v: v.lstrip("#"),
}
I = {
    "16": lambda v: v & 0xFFFF if v > 0xFFFF else v, "31": lambda v: v - 2 ** 32 if v >= 2 ** 31 else v, "28": lambda v: v & 0xFFFFFFF if v >= 2 ** 28 else v, "neg": abs, "zero": lambda v: v or 1,
    "255": lambda v: min(v, 255), "1000": lambda v: min(v, 1000), "float": lambda v: int(float(v)) if abs(v) < 1e300 else v, "one": lambda v: 0 if v == 1 else v, "minus1": lambda v: 0 if v == -1 else v,
}
F = {
    "small": lambda v: 0.0 if abs(v) < 1e-3 else v, "big": lambda v: v + 1 if abs(v) > 1e6 else v, "frac": lambda v: round(v, 3) if math.isfinite(v) else v, "neg": lambda v: abs(v) if v < 0 else v, "zero": lambda v: v or 1.0,
    "f32": f32, "over": lambda v: min(v, 1.0) if v > 1 else v, "360": lambda v: math.fmod(v, 360) if math.isfinite(v) else v, "whole": lambda v: v + 1 if v == 16.0 else v,
}
L = {
    "20": lambda v: v[:20], "100": lambda v: v[:100], "1000": lambda v: v[:1000], "single": lambda v: [] if len(v) == 1 else v, "none": lambda v: v or [None],
    "adjacent": lambda v: [x for i, x in enumerate(v) if not i or x is not v[i - 1] and x != v[i - 1]], "odd": lambda v: v[:-1] if len(v) > 2 and len(v) % 2 else v, "last": lambda v: v[:-1] if len(v) == 7 else v,
}
D = {"20": lambda v: dict(list(v.items())[:20]), "100": lambda v: dict(list(v.items())[:100]), "single": lambda v: {} if len(v) == 1 else v, "none": lambda v: v or {"x": "y"}}
P = {
    "dots": lambda v: type(v)(os.path.normpath(v)), "space": lambda v: type(v)(str(v).replace(" ", "_")), "ascii": lambda v: type(v)(str(v).encode("ascii", "replace").decode()), "abs": lambda v: type(v)(str(v).lstrip("/")),
    "lower": lambda v: type(v)(str(v).lower()), "unquote": lambda v: type(v)(urllib.parse.unquote(str(v))), "user": lambda v: v.expanduser() if str(v).startswith("~") else v, "home": lambda v: type(v)(os.path.expandvars(str(v))), "backslash": lambda v: type(v)(str(v).replace("\\", "/")),
    "resolve": lambda v: v.resolve(),
}
B = {}


def table(v):
    t = type(v)
    return S if t is str else I if t is int else F if t is float else L if t is list else D if t is dict else P if isinstance(v, PurePath) else B


def same(a, b):
    try:
        return a is b or type(a) is type(b) and (a == b or a != a)
    except Exception:
        return True


REC, SEL, SEEN = None, None, {}


def trig(i, v):
    if SEL is not None:
        if i != SEL[0]:
            return v
        f = table(v).get(SEL[2]) if table(v) is TABLES[SEL[1]] else None
        try:
            return f(v) if f else v
        except Exception:
            return v
    if REC is not None:
        t = table(v)
        if t is B:
            return v
        n = NAMES[id(t)]
        for k, f in t.items():
            c = REC.get((i, n, k))
            if c is None:
                c = REC[i, n, k] = {}
            # some states of every level
            l = c.setdefault(STATE[1], [])
            if len(l) >= 4 or l and l[-1] == STATE[0]:
                continue
            try:
                if not same(v, f(v)):
                    l.append(STATE[0])
            except Exception:
                pass
    return v


TABLES = dict(S=S, I=I, F=F, L=L, D=D, P=P)
NAMES = {id(t): n for n, t in TABLES.items()}
STATE = [None, None]
builtins._trig = trig
SITES = []


class Ins(ast.NodeTransformer):
    def __init__(self, name):
        self.name, self.fn = name, ""

    def wrap(self, e):
        if isinstance(e, (ast.Constant, ast.Lambda)) or e is None:
            return e
        SITES.append("%s:%d %s" % (self.name, e.lineno, ast.unparse(e)[:90]))
        return ast.copy_location(ast.Call(ast.Name("_trig", ast.Load()), [ast.Constant(len(SITES) - 1), e], []), e)

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n

    def visit_ClassDef(self, n):
        return n

    def visit_Assign(self, n):
        if n.col_offset == 0:
            return n
        self.generic_visit(n)
        n.value = self.wrap(n.value)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        n.value = self.wrap(n.value)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.wrap(n.iter)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("cast", "TypedDict", "isinstance", "hasattr", "len"):
            return n
        for k in n.keywords:
            if k.arg:
                k.value = self.wrap(k.value)
        if not (isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "find", "findall")):
            n.args = [self.wrap(a) if not isinstance(a, ast.Starred) else a for a in n.args]
        return n

    def visit_If(self, n):
        n.body = [self.visit(s) for s in n.body]
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    def visit_AnnAssign(self, n):
        return n

    def visit_Raise(self, n):
        return n


def main():
    global REC, SEL
    out, cap = sys.argv[1], int(sys.argv[2])
    shutil.copytree("/repo/pytiled_parser", TREE + "/pytiled_parser")
    for f in FILES:
        p = Path(TREE, "pytiled_parser", f)
        t = Ins(f).visit(ast.parse(p.read_text()))
        p.write_text(ast.unparse(ast.fix_missing_locations(t)))
    os.environ["MC_REPO"] = TREE
    from mc import core

    checks = sys.argv[3].split(",") if len(sys.argv) > 3 else ["c%02d" % i for i in range(1, 27) if i not in (18, 19, 20, 21, 23)]
    core.load()
    dn = os.open(os.devnull, os.O_WRONLY)
    con = os.dup(1)
    os.dup2(dn, 1)
    plan = []
    for c in checks:
        for s in importlib.import_module("mc.checks." + c).spaces():
            for li, (name, states) in enumerate(s.levels("quick")):
                step = max(1, len(states) // cap)
                plan += [(c, s, li, st) for st in states[(li * 7) % step::step]]
    os.write(con, ("%d sites, %d states\n" % (len(SITES), len(plan))).encode())
    N = 8

    def runner(root):
        ctxs = {}

        def run(i):
            c, s, li, st = plan[i]
            k = c, s.name
            if k not in ctxs:
                r = "%s/%s-%s" % (root, c, s.name)
                os.makedirs(r)
                ctxs[k] = core.Ctx(r)
            s._level = li
            bad = core.run_state(s, ctxs[k], st)
            ctxs[k].written = {}
            return bad

        return run

    def dry(w):
        global REC
        signal.signal(signal.SIGALRM, core._on_alarm)
        REC = {}
        run = runner("%s/w%d" % (TREE, w))
        for i in range(w, len(plan), N):
            STATE[:] = i, (plan[i][0], plan[i][1].name, plan[i][2])
            if run(i):
                os.write(con, ("FALSE ALARM state %d\n" % i).encode())
        return REC

    def mutant(job):
        global SEL
        key, states = job
        SEL = key
        signal.signal(signal.SIGALRM, core._on_alarm)
        root = "%s/m%d" % (TREE, os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        run = runner(root)
        for i in states:
            if run(i):
                return key, plan[i][0]
        return key, None

    global DRY, MUT
    DRY, MUT = dry, mutant
    mp = multiprocessing.get_context("fork")
    try:
        with mp.Pool(N) as pool:
            recs = pool.map(call_dry, range(N), 1)
        fired = {}
        for r in recs:
            for k, c in r.items():
                for lv, l in c.items():
                    fired.setdefault(k, {}).setdefault(lv, []).extend(l)
                fired.setdefault(k, {})
        jobs = [(k, [x for j in range(32) for lv, l in sorted(d.items()) if j < len(l) for x in l[j:j + 1]]) for k, d in fired.items()]
        never = [k for k, st in jobs if not st]
        jobs = [j for j in jobs if j[1]]
        os.write(con, ("%d never, %d to run\n" % (len(never), len(jobs))).encode())
        quiet = []
        with mp.Pool(N, maxtasksperchild=20) as pool:
            for k, c in pool.imap_unordered(call_mut, jobs, 4):
                if c is None:
                    quiet.append(k)
        with open(out, "w") as f:
            for k in sorted(quiet):
                f.write("QUIET %s/%s %s\n" % (k[1], k[2], SITES[k[0]]))
            for k in sorted(never):
                f.write("NEVER %s/%s %s\n" % (k[1], k[2], SITES[k[0]]))
        os.write(con, ("%d quiet\n" % len(quiet)).encode())
    finally:
        shutil.rmtree(TREE, ignore_errors=True)


def call_dry(w):
    return DRY(w)


def call_mut(j):
    return MUT(j)


if __name__ == "__main__":
    # the functions the pools call are those of this module under its name
    main()
