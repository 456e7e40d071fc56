"""C21: concurrent parses."""
import builtins
import collections
import io
import os
import pickle
import sys
import types
from functools import lru_cache
from pathlib import Path, PurePath

from .. import model as m_
from .. import sched
from ..core import Enum
from ..model import EXT, M, P, TC, TS
from . import c02, c11, c14, c16
from .c20 import fork_call

RULE = (
    "states: schedules of two (or three) real threads, each parsing one document, run one at a time by a cooperative scheduler that switches at trace events; for every pair of documents (the same one twice, the same names with other content in another directory, shared tilesets and templates, the two formats, one that fails) every schedule with up to the stated number of preemptions at the stated grain; "
    "meeting points: for every pair, all that threads share (module globals, classes, functions, their caches and defaults, the working directory, the environment) is compared at every line of both parses alone, and every schedule of two preemptions next to those changes (up to 24 of them; three preemptions next to up to 8) is run, so none where there is nothing to share; "
    "every schedule of a level not called warm runs in a fresh process, those of warm levels in a process that has already parsed; each thread's outcome must be the one of parsing alone in a fresh process"
)
ASSUMPTIONS = [
    "switches happen between lines, byte codes or calls of Python frames; the inside of C functions is atomic (the interpreter lock)",
    "a thread that stands still is taken to be blocked and another one is let on; only when none can go on is it a deadlock",
]

before_load = sched.own_locks

VERS = ["alpha", "gamma"]
DIRS = ["one", "two"]


def objs(v):
    w = VERS[v]
    return [
        {"id": 1 + v, "x": v, "y": 1, "kind": "tile", "gid": 2 + v, "width": 16, "height": 16, "name": w, "props": [P("k", "string", w)]},
        {"id": 3 + v, "x": v, "y": 1, "kind": "polygon", "points": [(v, 0), (1, v), (2, 2)]},
    ]


def t_set(n, v, full=True):
    w = VERS[v]
    if not full:
        return TS(n + w, tilecount=8 + v)
    return TS(n + w, tilecount=8 + v, tileoffset=(v, 1), props=[P("k", "string", w)], tiles=[{"id": v, "class": w, "animation": [(v, 10)], "objects": [{"id": 1, "x": v, "y": 1, "name": w}]}],
              wangsets=[{"name": w, "colors": [{"name": w, "color": "#01020%d" % v}], "tiles": [(v, c11.WID[v])]}])


def feature(name, fmt, v):
    """{file: bytes} of a feature's document (the first is the entry)."""
    w = VERS[v]
    e = "m" + EXT[fmt]["map"]
    more = {}
    if name == "objects":
        m = M([{"kind": "object", "id": 1 + v, "name": w, "objects": objs(v)}])
    elif name == "templates":
        tp, ts = "d/o" + EXT[fmt]["template"], "d/p" + EXT[fmt]["tileset"]
        more[tp] = m_.template_bytes({"object": {"kind": "tile", "gid": 2, "width": 16, "height": 16, "name": "t" + w, "props": [P("k", "string", w)]}, "src": "p" + EXT[fmt]["tileset"]}, fmt)
        more[ts] = m_.tileset_bytes(t_set("p", v, False), fmt)
        m = M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": v, "y": 2, "template": tp}]}], [{"firstgid": 1, "ts": t_set("own", v, False)}])
    elif name == "tileset":
        src = "s/e" + EXT[fmt]["tileset"]
        more[src] = m_.tileset_bytes(t_set("e", v), fmt)
        m = M([], [{"firstgid": 1 + v, "ts": t_set("e", v), "src": src}])
    elif name == "layers":
        ch = [{"x": 0, "y": 0, "w": 2, "h": 1, "grid": [[1 + v, 2]]}, {"x": 2, "y": 0, "w": 1, "h": 1, "grid": [[3 + v]]}]
        m = M([{"kind": "group", "id": 1, "name": w, "offset": (v, 1), "layers": [{"kind": "image", "id": 2, "image": w + ".png"}, {"kind": "tile", "id": 3, "width": 2, "height": 1, "data": c02.data("base64", "zlib", chunks=ch)}]}],
              (), [P("k", "string", w)], infinite=True)
    elif name == "fails":
        src = "s/e" + EXT[fmt]["tileset"]
        more[src] = m_.tileset_bytes(t_set("e", v, False), fmt)
        m = M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 1, "y": 1}]}], [{"firstgid": 1, "ts": t_set("e", v, False), "src": src}], backgroundcolor="#zz")
    elif name == "alone":
        e = "t" + EXT[fmt]["tileset"]
        return "tileset", {e: m_.tileset_bytes(t_set("e", v), fmt)}
    elif name == "world":
        return "world", {"w.world": m_.jsn(c16.world([dict(c16.DECL[0], x=10 + v)], [c16.pat(c16.RX[0], (16 + v, 9), (v, 1))], bool(v))), "map_%d_2.tmx" % v: b"<map/>"}
    elif name == "sink":
        # a bit of everything, in groups
        tp, tp2, ts = "d/o" + EXT[fmt]["template"], "o" + EXT[fmt]["template"], "d/p" + EXT[fmt]["tileset"]
        more[tp] = m_.template_bytes({"object": {"kind": "tile", "gid": 2, "width": 16, "height": 16, "name": "t" + w, "props": [P("k", "string", w)]}, "src": "p" + EXT[fmt]["tileset"]}, fmt)
        more[tp2] = m_.template_bytes({"object": {"kind": "polygon", "points": [(v, 1), (2, 3)], "name": "u" + w}}, fmt)
        more[ts] = m_.tileset_bytes(t_set("p", v, False), fmt)
        src = "s/e" + EXT["json" if fmt == "tmx" else "tmx"]["tileset"]
        more[src] = m_.tileset_bytes(t_set("e", v), "json" if fmt == "tmx" else "tmx")
        inst = lambda i: [{"id": 10 * i, "x": v, "y": 2, "template": tp}, {"id": 10 * i + 1, "x": v, "y": 2, "template": tp2, "name": w}]
        text = {"id": 50, "x": v, "y": 1, "kind": "text", "text": {"text": w, "color": "#0102030%d" % v, "wrap": True}}
        props = [P("s", "string", w), P("i", "int", v), P("f", "float", v + 0.5), P("b", "bool", bool(v)), P("c", "color", "#0%d020304" % v), P("p", "file", w + "/x"), P("o", "object", v)]
        grid = [[1 + v, 2], [3, 4 + v]]
        m = M([
            {"kind": "object", "id": 1, "objects": inst(1) + objs(v)},
            {"kind": "group", "id": 2, "name": w, "opacity": 0.5 + v / 4, "tintcolor": "#01020%d" % v, "layers": [
                {"kind": "object", "id": 3, "objects": inst(2), "class": w}, {"kind": "object", "id": 4, "objects": inst(3) + [text], "props": props},
                {"kind": "group", "id": 5, "layers": [{"kind": "tile", "id": 6, "width": 2, "height": 2, "data": c02.data("base64", "zlib", grid=grid)}, {"kind": "object", "id": 7, "objects": inst(4)}]},
                {"kind": "image", "id": 8, "image": w + ".png", "offset": (v, 1)},
            ]},
            {"kind": "tile", "id": 9, "width": 2, "height": 2, "data": c02.data("csv", "", grid=grid), "parallax": (v, 2)},
        ], [{"firstgid": 1 + v, "ts": t_set("i", v)}, {"firstgid": 100 + v, "ts": t_set("e", v), "src": src}], props, backgroundcolor="#0%d0203" % v)
    elif name == "deep":
        # each thread within the limits of one, both together beyond them
        l = {"kind": "object", "id": 90, "name": w, "objects": objs(v)}
        for i in range(58):
            l = {"kind": "group", "id": i + 1, "name": w, "layers": [l]}
        m = M([l])
    elif name == "wide":
        grid = [[1 + v + i for i in range(300)]]
        m = M([{"kind": "tile", "id": 1, "width": 300, "height": 1, "data": c02.data("base64", "zlib", grid=grid)}, {"kind": "tile", "id": 2, "width": 300, "height": 1, "data": c02.data("csv", "", grid=grid)},
               {"kind": "object", "id": 3, "objects": [{"id": i, "x": v, "y": i, "kind": "rect"} for i in range(1, 131)] + [{"id": 200, "x": 0, "y": v, "kind": "polygon", "points": [(v, i) for i in range(130)]}]}],
              [{"firstgid": 1, "ts": TS(w, tiles=[{"id": i, "class": w} for i in range(130)])}], [P("k%d" % i, "string", w) for i in range(130)])
    else:
        raise AssertionError(name)
    return "map", dict({e: m_.map_bytes(m, fmt)}, **more)


FEATURES = [(n, f) for n in ("objects", "templates", "tileset", "layers", "alone", "fails", "sink", "deep", "wide") for f in ("tmx", "json")] + [("world", "json")]


def docs():
    """Document id -> (kind, entry, directory, files)."""
    out = {}
    for n, f in FEATURES:
        for v in (0, 1):
            kind, files = feature(n, f, v)
            out[n, f, v] = (kind, list(files)[0], "%s-%s/%s" % (n, f, DIRS[v]), files)
    return out


@lru_cache(None)
def all_docs():
    return docs()


@lru_cache(None)
def pairs():
    """(document, document) by how they are related."""
    out = {"same": [], "other": [], "formats": [], "mixed": [], "sink": [], "large": []}
    for n, f in FEATURES:
        a, b = (n, f, 0), (n, f, 1)
        if n in ("deep", "wide"):
            out["large"] += [(a, a), (a, b)]
            continue
        if n == "sink":
            out["sink"] += [(a, a), (a, b)]
            continue
        out["same"].append((a, a))
        out["other"].append((a, b))
        if f == "tmx":
            out["formats"].append((a, (n, "json", 1)))
    for f in ("tmx", "json"):
        g = "json" if f == "tmx" else "tmx"
        out["mixed"] += [(("templates", f, 0), ("tileset", g, 1)), (("objects", f, 0), ("templates", f, 1)), (("fails", f, 0), ("templates", f, 1)), (("world", "json", 0), ("tileset", f, 1)), (("alone", f, 0), ("tileset", f, 1)), (("layers", f, 0), ("objects", f, 1))]
    return out


def parse(kind, path):
    import pytiled_parser

    return getattr(pytiled_parser, "parse_" + kind)(path)


def setup(root):
    for kind, entry, d, files in all_docs().values():
        for g, b in files.items():
            p = "%s/%s/%s" % (root, d, g)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)


def body(root, doc, rel=False):
    kind, entry, d, files = all_docs()[doc]
    p = Path("%s/%s" % (d, entry)) if rel else Path("%s/%s/%s" % (root, d, entry))
    return lambda: m_.dump(parse(kind, p))


def alone(root, doc, rel):
    try:
        os.chdir(root)
        return ("ok", body(root, doc, rel)())
    except Exception as e:
        return ("exc", type(e).__name__)


def run(root, ds, schedule, grain, scope, rel=False, probe=None):
    try:
        os.chdir(root)
        s = sched.Sched([body(root, d, rel) for d in ds], schedule, grain, scope)
        s.probe = probe
        r = s.run()
        if os.getcwd() != root:
            r = [("cwd", os.getcwd())] * len(ds)
            os.chdir(root)
    except sched.Deadlock:
        return [("deadlock", "")] * len(ds), 0, s.stalls, s.count
    return r, s.made, s.stalls, s.count


_lengths = {}


def length(doc, grain, scope):
    """Points of a document parsed alone in a fresh process."""
    k = (doc, grain, scope)
    if k not in _lengths:
        import tempfile

        with tempfile.TemporaryDirectory(prefix="mc-len-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None) as d:
            d = os.path.realpath(d)
            setup(d)
            _lengths[k] = fork_call(lambda: run(d, [doc], (0, ()), grain, scope)[3][0])
    return _lengths[k]


def bound1(ps, grain, scope, cold=True):
    out = []
    for ds in ps:
        for first in (0, 1):
            if first and ds[0] == ds[1]:
                continue
            out += [(ds, grain, scope, first, (n,), cold) for n in range(1, length(ds[first], grain, scope))]
    return out


def bound2(ps, grain, scope, cold=True):
    out = []
    for ds in ps:
        for first in (0, 1):
            if first and ds[0] == ds[1]:
                continue
            a, b = length(ds[first], grain, scope), length(ds[1 - first], grain, scope)
            out += [(ds, grain, scope, first, (n, k), cold) for n in range(1, a) for k in range(1, b)]
    return out


def small(ps, grain, limit):
    return [p for p in ps if length(p[0], grain, "own") * length(p[1], grain, "own") <= limit]


def three(grain):
    out = []
    for n, f in (("templates", "tmx"), ("templates", "json"), ("tileset", "tmx"), ("world", "json")):
        ds = ((n, f, 0), (n, f, 1), (n, f, 0))
        a, b = length(ds[0], grain, "own"), length(ds[1], grain, "own")
        out += [(ds, grain, "own", 0, (i, j), True) for i in range(1, a) for j in range(1, b)]
    return out


def levels(tier):
    p = pairs()
    every = p["same"] + p["other"] + p["formats"] + p["mixed"]
    out = [
        ("no preemption", [(ds, "line", "own", f, (), True) for ds in every for f in (0, 1)]),
        ("1 preemption, calls", bound1(every, "call", "own")),
        ("1 preemption, calls, deep and wide", bound1(p["large"], "call", "own")),
        ("1 preemption, lines, relative paths", bound1(p["same"] + p["other"] if tier == "quick" else every, "line", "own")),
        ("1 preemption, lines, everything in one", bound1(p["sink"], "line", "own") if tier == "thorough" else [x for x in bound1([q for q in p["sink"] if q[0] != q[1]], "line", "own") if x[3] == 0]),
        ("1 preemption, byte codes, warm", bound1(p["other"], "opcode", "own", False)),
    ]
    if tier == "quick":
        return out + [("2 preemptions, calls, warm", bound2(p["same"] + p["other"] + p["mixed"], "call", "own", False))]
    return out + [
        ("1 preemption, byte codes, warm, everything in one", bound1(p["sink"], "opcode", "own", False)),
        ("1 preemption, byte codes", bound1(every, "opcode", "own")),
        ("1 preemption, all lines", bound1(every, "line", "all")),
        ("2 preemptions, calls", bound2(every, "call", "own")),
        ("3 threads, 2 preemptions, calls", three("call")),
        ("2 preemptions, lines, warm", bound2(small(p["other"] + p["same"], "line", 60000), "line", "own", False)),
    ]


def check(ctx, st):
    ds, grain, scope, first, switches, cold = st
    one(ctx, ds, grain, scope, first, switches, cold, grain == "line" and cold)


def one(ctx, ds, grain, scope, first, switches, cold, rel):
    if getattr(ctx, "alone", None) is None:
        ctx.wipe()
        setup(ctx.root)
        ctx.alone = {}
    for d in ds:
        if (d, rel) not in ctx.alone:
            ctx.alone[d, rel] = fork_call(lambda: alone(ctx.root, d, rel))
    go = lambda: run(ctx.root, ds, (first, switches), grain, scope, rel)
    rs, made, stalls, count = fork_call(go) if cold else go()
    ctx.execs += len(ds)
    ctx.extra["preempted"] = ctx.extra.get("preempted", 0) + (made == len(switches) > 0)
    if stalls:
        ctx.stalled = getattr(ctx, "stalled", 0) + 1
    ctx.extra["stalled"] = ctx.extra.get("stalled", 0) + (stalls > 0)
    ctx.outcomes.add(hash(tuple(rs)))
    ctx.outcomes.add(tuple(count))
    for t, (d, r) in enumerate(zip(ds, rs)):
        exp = ctx.alone[d, rel]
        if r == exp:
            continue
        call = "thread %d of %d, parse_%s(%r)" % (t, len(ds), all_docs()[d][0], "%s/%s" % all_docs()[d][2:0:-1])
        if r[0] == exp[0] == "ok":
            ctx.fail(call, *(m_.first_diff(exp[1], r[1], "result") or ("result", exp, r)))
        else:
            ctx.fail(call, "outcome", exp, r)
        return


def label(s):
    ds, grain, scope, first, switches, cold = s
    return "%s; thread %d first, preempted after %s %s points (%s%s)" % (" | ".join("-".join(map(str, d)) for d in ds), first, list(switches), grain, scope, "" if cold else ", warm")


# -- where threads can meet at all ---------------------------------------------------------


PACK = "pytiled_parser"
HOLD = (PACK, "functools", "collections", "types", "contextlib", "threading", "abc")


class Watch:
    """Sees changes of what all threads share: the package's modules, classes, functions and what hangs on them, and the process."""

    def __init__(self):
        self.look()

    def look(self):
        """Everything that can be changed and that is reachable without a thread's own variables."""
        self.kept = []  # (how to read the parts, the parts)
        seen = set()
        stack = [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == PACK]
        while stack:
            o = stack.pop()
            t = type(o)
            if id(o) in seen or t in (str, int, float, bytes, bool, complex, types.CodeType) or o is None or isinstance(o, PurePath):
                continue
            seen.add(id(o))
            mod = getattr(t, "__module__", "") or ""
            if t is tuple or t is frozenset:
                stack += list(o)
            elif isinstance(o, dict):
                self.keep(lambda o=o: [x for kv in o.items() for x in kv], stack)
            elif isinstance(o, (list, set, collections.deque)):
                self.keep(lambda o=o: list(o), stack)
            elif t is types.ModuleType:
                if o.__name__.split(".")[0] == PACK:
                    self.keep(lambda o=o: [v for k, v in list(o.__dict__.items()) if k not in ("__builtins__", "__warningregistry__")], stack)
            elif t is types.FunctionType:
                self.keep(lambda o=o: [o.__code__, o.__defaults__, o.__kwdefaults__], stack)
                stack.append(o.__dict__)
                stack += o.__closure__ or ()
            elif t is types.CellType:
                self.keep(lambda o=o: [cell(o)], stack)
            elif isinstance(o, type):
                if o.__module__.split(".")[0] == PACK:
                    self.keep(lambda o=o: [v for k, v in list(vars(o).items()) if k not in ("__dict__", "__weakref__", "__doc__", "__abstractmethods__", "_abc_impl")], stack)
            elif t in (io.StringIO, io.BytesIO):
                self.keep(lambda o=o: [hash(o.getvalue()), o.tell()], [])
            elif t is bytearray:
                self.keep(lambda o=o: [hash(bytes(o))], [])
            elif mod.split(".")[0] in HOLD:
                if hasattr(o, "cache_info"):
                    self.keep(lambda o=o: list(o.cache_info()[1:]), [])
                if isinstance(getattr(o, "__dict__", None), dict):
                    stack.append(o.__dict__)
                names = [s for c in t.__mro__ for s in (c.__dict__.get("__slots__") or ()) if isinstance(s, str) and isinstance(c.__dict__.get("__slots__"), (tuple, list))]
                if names:
                    self.keep(lambda o=o, names=names: [getattr(o, n, None) for n in names], stack)
        self.keep(lambda: [os.getcwd()] + [hash(x) for x in (tuple(os.environ.items()), tuple(sys.path), sys.getrecursionlimit(), len(builtins.__dict__))] + [sys.stdout, sys.stderr, builtins.open], [])

    def keep(self, f, stack):
        v = f()
        self.kept.append((f, v))
        stack += v

    def changed(self):
        for f, old in self.kept:
            new = f()
            if len(new) != len(old) or not all(a is b or (type(a) in SIMPLE and type(a) is type(b) and a == b) for a, b in zip(old, new)):
                self.look()
                return True
        return False


SIMPLE = (str, int, float, bool)


def cell(c):
    try:
        return c.cell_contents
    except ValueError:
        return None


def changes(root, doc):
    """Points of a parse (line grain) at which shared state is seen to have changed, and the parse's length."""
    w, at = Watch(), []

    def probe(c):
        if w.changed() and c:
            at.append(c)

    r, made, stalls, count = run(root, [doc], (0, ()), "line", "own", probe=probe)
    return at, count[0], len(w.kept)


def found(ctx, doc, cold):
    """The changes of a parse; what one worker has found is there for the others."""
    p = "%s/../meet-%s-%d" % (ctx.root, "-".join(map(str, doc)), cold)
    if not os.path.exists(p):
        def look():
            if not cold:
                alone(ctx.root, doc, False)
            return changes(ctx.root, doc)

        r = fork_call(look)
        ctx.execs += 2 - cold
        with open(p + str(os.getpid()), "wb") as f:
            pickle.dump(r, f)
        os.rename(p + str(os.getpid()), p)
        ctx.extra["shared_state_points"] = ctx.extra.get("shared_state_points", 0) + r[1]
        ctx.extra["shared_state_changes"] = ctx.extra.get("shared_state_changes", 0) + len(r[0])
        ctx.seen((doc, repr(r)))
    with open(p, "rb") as f:
        return pickle.load(f)


def spread(xs, n):
    """At most n of them, the first, the last and evenly between."""
    return xs if len(xs) <= n else [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


def meeting(tier):
    p = pairs()
    ps = p["same"] + p["other"] + p["mixed"] + p["formats"] + p["sink"]
    ds = sorted({d for x in ps for d in x}, key=lambda d: (d[0] != "sink", d))
    return [
        ("alone", [((d, d), cold, 0) for d in ds for cold in (True, False)]),
        ("pairs", [(x, cold, f) for x in ps for cold in (True, False) for f in (0, 1) if x[0] != x[1]]),
    ]


def check_meeting(ctx, st):
    ds, cold, first = st
    if getattr(ctx, "alone", None) is None:
        ctx.wipe()
        setup(ctx.root)
        ctx.alone = {}
    found_ = [found(ctx, d, cold) for d in ds]
    # just before a change and just after it
    near = [sorted({x for c in found_[k][0] for x in (c - 1, c) if 0 < x < found_[k][1]}) for k in (first, 1 - first)]
    a, b = spread(near[0], NEAR), spread(near[1], NEAR)
    for n in a:
        for k in b + [found_[1 - first][1]]:
            one(ctx, ds, "line", "own", first, (n, k), cold, False)
            if ctx.bad:
                return
    a, b = spread(near[0], NEAR3), spread(near[1], NEAR3)
    for i, n in enumerate(a):
        for n2 in a[i + 1:]:
            for k in b:
                one(ctx, ds, "line", "own", first, (n, k, n2 - n), cold, False)
                if ctx.bad:
                    return


NEAR, NEAR3 = 24, 8


def spaces():
    return [
        Enum("schedules", levels, check, label=label, edges=lambda s: len(s[4])),
        Enum("meeting-points", meeting, check_meeting, label=lambda s: "%s; thread %d first%s" % (" | ".join("-".join(map(str, d)) for d in s[0]), s[2], "" if s[1] else ", warm"), edges=lambda s: 1, heavy=True),
    ]
