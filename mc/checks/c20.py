"""C20: every parse is independent of everything that happened before."""
import importlib
import os
import pickle
import traceback
from functools import lru_cache
from pathlib import Path

from .. import alias
from .. import model as m_
from ..core import Ctx, Enum, HarnessError
from ..model import EXT, M, P, TC, TS
from . import c02, c14, c16, c18

RULE = (
    "histories: every sequence of operations (parse one of eight documents of two directories, parse one of four broken ones, change all parts of an earlier result, rewrite a file (one of them together with what it refers to, in the other format) in place or by renaming with the same size and time stamps, create or remove a map of a world, change directory) up to the bound, up to commutation of consecutive rewrites, each parse compared with what a fresh process returns for the same files, all results of the history compared again at its end; short histories run in a process of their own. "
    "sharing: every document of the other checks' smaller levels, parsed twice: all pairs of paths to mutable parts within one result and between the two, then everything in the first is changed and the second and a third parse are compared"
)
ASSUMPTIONS = ["immutable parts (numbers, strings, tuples, paths) may be shared", "the fresh process has imported the library and parsed nothing"]


# -- histories ---------------------------------------------------------------------------

VERS = ["alpha", "gamma"]  # of the same length
FILES = ["m.tmx", "n.tmx", "m.tmj", "t.tsx", "t.tsj", "o.tx", "o.tj", "p.tsx", "w.world", "map_1_2.tmx", "x.any"]
DOCS = [("map", "m.tmx"), ("map", "n.tmx"), ("map", "m.tmj"), ("tileset", "t.tsx"), ("tileset", "t.tsj"), ("world", "w.world"), ("map", "x.any"), ("tileset", "y.any")]
WRITES = ["m.tmx", "m.tmj", "t.tsx", "t.tsj", "o.tx", "o.tj", "p.tsx", "w.world", "map_1_2.tmx", "x.any"]
# written together: a map, its tileset and its template, each turned into the other format
TOGETHER = {"x.any": ["y.any", "z.any"]}
# which files decide what a document parses to
NEEDS = {
    "m.tmx": ["m.tmx", "t.tsx", "o.tx", "p.tsx"], "n.tmx": ["t.tsx", "t.tsj", "o.tx", "p.tsx"], "m.tmj": ["m.tmj", "t.tsx", "o.tj", "p.tsx"], "t.tsx": ["t.tsx"], "t.tsj": ["t.tsj"],
    "w.world": ["w.world", "map_1_2.tmx"], "x.any": ["x.any"], "y.any": ["x.any"],
}
DIRS = ["one", "two"]


@lru_cache(None)
def content(d, name, v):
    """Bytes of a file of a directory in a version (None: it does not exist)."""
    w = VERS[v] + d
    props = [P("k", "string", w), P("n", "int", 1 + v)]
    col = "#01020%d" % v
    if name in ("m.tmx", "m.tmj", "n.tmx"):
        fmt = "json" if name == "m.tmj" else "tmx"
        tp = "o" + EXT[fmt]["template"]
        objs = [
            {"id": 1, "x": v, "y": 0, "name": w, "props": props}, {"id": 2, "x": 3, "y": 4, "template": tp}, {"id": 3, "x": 5, "y": 6, "template": tp, "name": "own" + w, "props": [P("k", "string", "own" + w)]},
            {"id": 4, "x": 0, "y": 0}, {"id": 5, "x": 0, "y": 0, "kind": "polygon", "points": [(v, 1), (2, 3), (4, 5)]},
        ]
        layers = [
            {"kind": "object", "id": 1, "name": w, "objects": objs},
            {"kind": "group", "id": 2, "name": "g", "props": props, "layers": [{"kind": "object", "id": 3, "objects": objs[1:3]}, {"kind": "tile", "id": 4, "width": 2, "height": 1, "data": {"grid": [[1 + v, 2]]}}]},
        ]
        refs = [{"firstgid": 1, "ts": t_set("t", d, v), "src": "t.tsx"}]
        if name == "n.tmx":
            refs = [{"firstgid": 1, "ts": TS("emb")}, {"firstgid": 9, "ts": t_set("u", d, v), "src": "t.tsj"}, {"firstgid": 30, "ts": t_set("t", d, v), "src": "t.tsx"}]
        return m_.map_bytes(M(layers, refs, props, backgroundcolor=col), fmt)
    if name in ("t.tsx", "t.tsj"):
        return m_.tileset_bytes(t_set("t" if name == "t.tsx" else "u", d, v), "tmx" if name == "t.tsx" else "json")
    if name == "p.tsx":
        return m_.tileset_bytes(TS("p" + d, props=props, tiles=[{"id": 1, "class": w}]), "tmx")
    if name in ("o.tx", "o.tj"):
        o = {"kind": "tile", "gid": 2, "width": 16, "height": 16, "name": "tpl" + w, "class": w, "props": props}
        return m_.template_bytes({"object": o, "src": "p.tsx"}, "tmx" if name == "o.tx" else "json")
    if name == "w.world":
        return m_.jsn(c16.world([dict(c16.DECL[0], x=10 + v + 100 * DIRS.index(d))], [c16.pat(c16.RX[0], (16 + v, 9))], True))
    if name == "map_1_2.tmx":
        return b"<map/>" if v == 0 else None
    fmts = ["tmx", "json"]
    if name == "x.any":
        m = M([{"kind": "object", "id": 1, "name": w, "objects": [{"id": 1, "x": v, "y": 0, "template": "z.any"}]}, {"kind": "tile", "id": 2, "width": 2, "height": 1, "data": {"grid": [[1 + v, 2]]}}],
              [{"firstgid": 1, "ts": t_set("y", d, v), "src": "y.any"}], props)
        return m_.map_bytes(m, fmts[v])
    if name == "y.any":
        return m_.tileset_bytes(t_set("y", d, v), fmts[1 - v])
    if name == "z.any":
        return m_.template_bytes({"object": {"kind": "rect", "name": "tpl" + w, "props": props}}, fmts[v])
    raise AssertionError(name)


def t_set(n, d, v):
    w = VERS[v] + d
    return TS(n, tilecount=8 + v, props=[P("k", "string", w)], tiles=[{"id": 0, "class": w, "animation": [(0, 10 + v)]}, {"id": 3, "objects": [{"id": 1, "x": v, "y": 1, "name": w}]}],
              wangsets=[{"name": "w" + w, "colors": [{"name": w, "color": "#01020%d" % v}], "tiles": []}])


BROKEN = {
    # fails after its tileset and template were read
    "bad.tmx": m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0, "template": "o.tx"}]}], [{"firstgid": 1, "ts": TS("t"), "src": "t.tsx"}], backgroundcolor="#zz"), "tmx"),
    "bad.tmj": m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0, "template": "o.tj"}]}], [{"firstgid": 1, "ts": TS("t"), "src": "t.tsx"}], backgroundcolor="#zz"), "json"),
    # what a document lacks must not be made up from what was read before
    "noid.tmx": m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0}, {"id": 707, "x": 0, "y": 0}]}]), "tmx").replace(b' id="707"', b""),
    "noid.tmj": m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0}, {"id": 707, "x": 0, "y": 0}]}]), "json").replace(b'"id":707,', b"").replace(b'"id": 707,', b""),
}

OPS = ["P%d" % i for i in range(len(DOCS))] + ["B0", "B1", "B2", "B3", "X", "D", "C"] + ["W%d" % i for i in range(len(WRITES))]
# for the longest histories: without and with the files that change their format
OPS_A = [o for o in OPS if o not in ("P6", "P7", "B2", "B3", "W9")]
OPS_B = ["P0", "P6", "P7", "B0", "B2", "B3", "X", "D", "C", "W0", "W9"]


def histories(n, ops):
    """Histories of n operations that end with a parse, up to commutation of rewrites."""
    out = []

    def go(h, parsed):
        if len(h) == n:
            if h and h[-1][0] == "P":
                out.append(tuple(h))
            return
        for o in ops:
            k = o[0]
            last = h[-1] if h else ""
            if k == "W" and last[:1] == "W" and int(o[1:]) <= int(last[1:]):
                continue  # rewrites of different files commute; twice the same is none
            if k in "XD" and (not parsed or last[:1] in ("X", "D", "W", "C", "B")):
                continue  # changing a result commutes with everything but parsing
            if k == "C" and last[:1] in ("C", "B", "X", "D"):
                continue
            if k == "B" and last[:1] == "B":
                continue
            if k in "WCBXD" and len(h) == n - 1:
                continue
            h.append(o)
            go(h, parsed + (k == "P"))
            h.pop()

    go([], 0)
    return out


def history_levels(tier):
    out = []
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        out.append(("ops=%d (fresh)" % n, [(h, rel, 1) for h in histories(n, OPS) for rel in (0, 1)]))
    deep = 4 if tier == "quick" else 5
    out.append(("ops=%d" % deep, [(h, len(h) % 2 if tier == "quick" else rel, 0) for h in dict.fromkeys(histories(deep, OPS_A) + histories(deep, OPS_B)) for rel in ((0,) if tier == "quick" else (0, 1))]))
    return out


def fork_call(f):
    """f() in a child of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as p:
                try:
                    o = (True, f())
                except BaseException:
                    o = (False, traceback.format_exc())
                p.write(pickle.dumps(o))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        b = p.read()
    st = os.waitpid(pid, 0)[1]
    ok, v = pickle.loads(b) if b else (False, "a child ended early: status %d" % st)
    if not ok:
        raise HarnessError(v)
    return v


STAMP = 1_600_000_000_000_000_000


def write(root, d, name, v, how=0):
    for n in TOGETHER.get(name, ()):
        write(root, d, n, v, how)
    p = "%s/%s/%s" % (root, d, name)
    b = content(d, name, v)
    if b is None:
        if os.path.exists(p):
            os.unlink(p)
        return
    if how == 0 or not os.path.exists(p):
        with open(p, "wb") as f:
            f.write(b)
        os.utime(p, ns=(STAMP, STAMP))
    else:
        with open(p + "~", "wb") as f:
            f.write(b)
        os.utime(p + "~", ns=(STAMP, STAMP))
        os.rename(p + "~", p)
    ds = os.path.dirname(p)
    os.utime(ds, ns=(STAMP, STAMP))


def setup(root, vers):
    for d in DIRS:
        os.makedirs("%s/%s" % (root, d), exist_ok=True)
        for n in FILES:
            write(root, d, n, vers.get((d, n), 0))
        for n, b in BROKEN.items():
            with open("%s/%s/%s" % (root, d, n), "wb") as f:
                f.write(b)


def parse(kind, path):
    import pytiled_parser

    return getattr(pytiled_parser, "parse_" + kind)(path)


def where(root, d, name, rel):
    return Path(name) if rel else Path("%s/%s/%s" % (root, d, name))


def outcome(kind, path):
    try:
        return m_.dump(parse(kind, path))
    except Exception as e:
        return ("EXC", type(e).__name__)


class Table:
    """What a fresh process returns, per directory, document and versions of the files it needs."""

    def __init__(self, root):
        self.root, self.t = root, {}
        setup(root, {})
        cwd = os.getcwd()
        for d in DIRS:
            os.chdir("%s/%s" % (root, d))
            for kind, doc in DOCS:
                need = NEEDS[doc]
                for bits in range(1 << len(need)):
                    for i, n in enumerate(need):
                        write(root, d, n, bits >> i & 1)
                    for rel in (0, 1):
                        self.t[d, doc, bits, rel] = fork_call(lambda: outcome(kind, where(root, d, doc, rel)))
                for n in need:
                    write(root, d, n, 0)
            for doc in BROKEN:
                for rel in (0, 1):
                    self.t[d, doc, 0, rel] = fork_call(lambda: outcome("map", where(root, d, doc, rel)))
        os.chdir(cwd)


def check_history(ctx, st):
    h, rel, fresh = st
    if getattr(ctx, "table", None) is None:
        ctx.wipe()
        ctx.table = Table(ctx.root)
        # content matters, or nothing stale could be seen
        ctx.extra["distinct_fresh_results"] = ctx.extra.get("distinct_fresh_results", 0) + len(set(ctx.table.t.values()))
        ctx.extra["fresh_results"] = ctx.extra.get("fresh_results", 0) + len(ctx.table.t)
    if fresh:
        bad, outs, ex = fork_call(lambda: history(ctx.root, ctx.table, h, rel))
    else:
        bad, outs, ex = history(ctx.root, ctx.table, h, rel)
    ctx.execs += ex
    ctx.outcomes |= outs
    for b in bad:
        ctx.fail(*b)


def history(root, table, h, rel):
    vers = {}
    dirty = []
    results = []  # (op index, result, dump, parts)
    cur = 0
    cwd = os.getcwd()
    bad, outs, ex = [], set(), 0
    try:
        os.chdir("%s/%s" % (root, DIRS[cur]))
        for i, o in enumerate(h):
            k, a = o[0], int(o[1:] or 0)
            d = DIRS[cur]
            if k == "P":
                kind, doc = DOCS[a]
                bits = sum(vers.get((d, n), 0) << j for j, n in enumerate(NEEDS[doc]))
                ex += 1
                try:
                    r = parse(kind, where(root, d, doc, rel))
                except Exception as e:
                    r = None
                    obs = ("EXC", type(e).__name__)
                else:
                    obs = m_.dump(r)
                outs.add(hash(obs))
                exp = table.t[d, doc, bits, rel]
                if obs != exp:
                    w = m_.first_diff(exp, obs, "result") or ("result", exp, obs)
                    bad.append(("operation %d of %s: parse_%s(%s/%s)" % (i, "-".join(h), kind, d, doc),) + tuple(w))
                    break
                results.append([i, r, obs, alias.parts(r)])
            elif k == "B":
                doc = list(BROKEN)[a]
                ex += 1
                obs, exp = outcome("map", where(root, d, doc, rel)), table.t[d, doc, 0, rel]
                if obs != exp:
                    bad.append(("operation %d of %s: parse_map(%s/%s)" % (i, "-".join(h), d, doc), "result", exp, obs))
                    break
            elif k == "X":
                alias.mutate(results[-1][3])
                results[-1][2] = m_.dump(results[-1][1])
            elif k == "D":
                del results[-1]
            elif k == "C":
                cur = 1 - cur
                os.chdir("%s/%s" % (root, DIRS[cur]))
            elif k == "W":
                n = WRITES[a]
                v = 1 - vers.get((d, n), 0)
                vers[d, n] = v
                write(root, d, n, v, i % 2)
                dirty.append((d, n))
        if not bad:
            for j, (i, r, obs, ps) in enumerate(results):
                if m_.dump(r) != obs:
                    w = m_.first_diff(obs, m_.dump(r), "result") or ("result", obs, m_.dump(r))
                    bad.append(("the result of operation %d at the end of %s" % (i, "-".join(h)),) + tuple(w))
                    break
                for i2, r2, obs2, ps2 in results[j + 1:]:
                    s = alias.shared_between(ps, ps2)
                    if s:
                        bad.append(("the results of operations %d and %d of %s" % (i, i2, "-".join(h)), "one object in both results", "separate objects", "%s is %s" % s))
                        break
    finally:
        os.chdir(cwd)
        for d, n in set(dirty):
            write(root, d, n, 0)
    return bad, outs, ex


# -- sharing --------------------------------------------------------------------------------


class Sharing(Ctx):
    """Runs the states of another check, looking only at who shares what."""

    def __init__(self, outer):
        Ctx.__init__(self, outer.root)
        self.outer = outer
        self.kinds = 0

    def fail(self, *a):
        pass

    def expect(self, *a, **k):
        return True

    def observe(self, kind, rel, path=None):
        p = self.path(rel) if path is None else path
        try:
            r1 = self.call(kind, p)
        except Exception as e:
            return ("EXC", type(e).__name__)
        d1 = m_.dump(r1)
        try:
            twice(self.outer, "parse_%s(%r)" % (kind, rel), lambda: self.call(kind, p), r1, d1, self.written)
        finally:
            self.outer.execs, self.execs = self.outer.execs + self.execs, 0
        return d1


def twice(ctx, call, again, r1, d1, files):
    ctx.written = dict(files)
    ps1 = alias.parts(r1)
    ctx.extra["nontrivial"] = ctx.extra.get("nontrivial", 0) + len(ps1)
    ctx.outcomes.add(len(ps1))
    s = alias.shared_within(ps1)
    if s:
        return ctx.fail(call, "one object in two places of the result", "separate objects", "%s is %s" % s)
    r2 = again()
    ps2 = alias.parts(r2)
    d2 = m_.dump(r2)
    if d2 != d1:
        return ctx.fail(call + ", again", *(m_.first_diff(d1, d2, "result") or ("result", d1, d2)))
    s = alias.shared_between(ps1, ps2)
    if s:
        return ctx.fail(call + ", twice", "one object in both results", "separate objects", "%s of the first is %s of the second" % s)
    alias.mutate(ps1)
    d2b = m_.dump(r2)
    if d2b != d1:
        return ctx.fail(call + ", an earlier result changed", *(m_.first_diff(d1, d2b, "result") or ("result", d1, d2b)))
    d3 = m_.dump(again())
    if d3 != d1:
        return ctx.fail(call + " after changing an earlier result", *(m_.first_diff(d1, d3, "result") or ("result", d1, d3)))


SOURCES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c14", "c15", "c16", "c17", "c22", "c24", "c25"]


@lru_cache(None)
def others():
    return [(c, i, s) for c in SOURCES for i, s in enumerate(importlib.import_module("mc.checks." + c).spaces())]


def sharing_levels(tier):
    from ..docs import SLOW

    cap = 250 if tier == "quick" else 10000
    out = []
    for n, (c, i, s) in enumerate(others()):
        if (c, s.name) in SLOW:
            continue
        for li, (name, states) in enumerate(s.levels("quick")):
            if 0 < len(states) <= cap:
                out.append((li, "%s/%s/%s" % (c, s.name, name), [(n, li, x) for x in states]))
    out.sort(key=lambda x: x[0])
    return [("all", [x for _, _, st in out for x in st])]


def check_sharing(ctx, st):
    n, li, x = st
    sp = others()[n][2]
    sp._level = li
    if getattr(ctx, "inner", (None,))[0] != n:
        ctx.wipe()
        ctx.inner = (n, Sharing(ctx))
    sp.run(ctx.inner[1], x)


def scenario_levels(tier):
    return [("scenarios", [(i,) for i in range(len(c18.scenarios()))])]


def check_scenario(ctx, st):
    name, kind, entry, files, errs = c18.scenarios()[st[0]]
    ctx.wipe()
    for g, b in files.items():
        ctx.put(g, b)
    r = ctx.call(kind, ctx.path(entry))
    twice(ctx, "parse_%s(%r)" % (kind, entry), lambda: ctx.call(kind, ctx.path(entry)), r, m_.dump(r), files)


def twins(tier):
    """Two and three of every carrier side by side, with every combination of absent, empty and set properties."""
    return [("twins", [(fmt, where, a, b, c) for fmt in ("tmx", "json") for where in range(8) for a in range(3) for b in range(3) for c in range(3)])]


PS = [None, [], [P("k", "string", "v"), P("n", "int", 1)]]


def check_twins(ctx, st):
    fmt, where, *abc = st
    ctx.wipe()
    pr = [({} if PS[x] is None else {"props": PS[x]}) for x in abc]
    tp = "o" + EXT[fmt]["template"]
    layers, tss, more = [], [{"firstgid": 1, "ts": TS("a")}], {}
    if where == 0:
        layers = [{"kind": "object", "id": 1, "objects": [dict({"id": i, "x": 0, "y": 0}, **p) for i, p in enumerate(pr)]}]
    elif where == 1:
        layers = [dict({"kind": k, "id": i, "image": "i.png", "objects": [], "layers": [], "width": 1, "height": 1, "data": {"grid": [[0]]}}, **p) for i, (k, p) in enumerate(zip(("object", "group", "image"), pr))]
    elif where == 2:
        layers = [dict({"kind": "group", "id": i, "layers": [{"kind": "object", "id": 9, "objects": []}]}, **p) for i, p in enumerate(pr)]
    elif where == 3:
        tss = [{"firstgid": 1 + 20 * i, "ts": TS("s%d" % i, **p)} for i, p in enumerate(pr)]
    elif where == 4:
        tss = [{"firstgid": 1, "ts": TS("s", tiles=[dict({"id": i, "animation": [(0, 1)], "objects": [{"id": 1, "x": 0, "y": 0}]}, **p) for i, p in enumerate(pr)])}]
    elif where == 5:
        tss = [{"firstgid": 1, "ts": TS("s", wangsets=[dict({"name": "w%d" % i, "colors": [{"name": "c", "color": "#010203"}, {"name": "d", "color": "#010203"}], "tiles": [(0, (0, 1, 0, 1, 0, 1, 0, 1)), (1, (0, 1, 0, 1, 0, 1, 0, 1))]}, **p) for i, p in enumerate(pr)])}]
    elif where == 6:
        # the template has its own choice of properties
        tm = {"object": dict({"kind": "rect", "name": "t"}, **pr[0])}
        more[tp] = m_.template_bytes(tm, fmt)
        layers = [{"kind": "object", "id": 1, "objects": [dict({"id": i, "x": 0, "y": 0, "template": tp}, **p) for i, p in enumerate(pr[1:] + [{}, {}])]}]
    elif where == 7:
        tm = {"object": dict({"kind": "polygon", "points": [(0, 0), (1, 1), (2, 3)]}, **pr[0])}
        more[tp] = m_.template_bytes(tm, fmt)
        layers = [{"kind": "group", "id": i, "layers": [{"kind": "object", "id": 1, "objects": [dict({"id": i, "x": 0, "y": 0, "template": tp}, **p)]}]} for i, p in enumerate(pr[1:] + [{}])]
    rel = "m" + EXT[fmt]["map"]
    more[rel] = m_.map_bytes(M(layers, tss, **({"props": PS[abc[0]]} if PS[abc[0]] is not None else {})), fmt)
    for g, b in more.items():
        ctx.put(g, b)
    r = ctx.call("map", ctx.path(rel))
    twice(ctx, "parse_map(%r)" % rel, lambda: ctx.call("map", ctx.path(rel)), r, m_.dump(r), more)


# -- equal parts, side by side ----------------------------------------------------------------


GRIDS = [[[0, 0], [0, 0]], [[1, 1], [1, 1]], [[1, 2], [1, 2]], [[1, 2], [3, 4]]]
ENCS = [("csv", ""), ("base64", ""), ("base64", "zlib"), ("base64", "gzip"), ("xml", "")]
SHAPES = ["rect", "ellipse", "point", "polygon", "polyline", "text", "tile"]


def shape(k, i=1):
    o = {"id": i, "x": 1, "y": 2, "kind": k}
    if k[:4] == "poly":
        o["points"] = [(0, 0), (1, 1), (0, 0), (1, 1)]
    if k == "text":
        o["text"] = {"text": "t", "color": "#010203"}
    if k == "tile":
        o["gid"] = 1
    return o


def alike(tier):
    st = []
    for fmt in ("tmx", "json"):
        for e in range(len(ENCS)):
            if fmt == "json" and ENCS[e][0] == "xml":
                continue
            for g in range(len(GRIDS)):
                for g2 in range(len(GRIDS)):
                    for inf in (0, 1):
                        st.append((fmt, "grids", e, g, g2, inf))
        for a in range(len(SHAPES)):
            for b in range(len(SHAPES)):
                for n in (0, 1, 2):
                    st.append((fmt, "objects", a, b, n))
        for k in range(7):
            for n in (2, 3):
                st.append((fmt, "carriers", k, n))
        for k in range(3):
            st.append(("json", "world", k) if fmt == "json" else ("json", "world", k + 3))
    return [("alike", st)]


def check_alike(ctx, st):
    """The same thing saved several times over is several things."""
    fmt, what = st[:2]
    ctx.wipe()
    more, layers, tss, inf, extra = {}, [], [{"firstgid": 1, "ts": TS("a")}], False, {}
    props = [P("k", "string", "v"), P("f", "file", "x/y"), P("c", "color", "#01020304")]
    if what == "grids":
        e, g, g2, inf = st[2:]
        ls = []
        for i, gr in enumerate((GRIDS[g], GRIDS[g2], GRIDS[g])):
            kw = {"chunks": [{"x": 0, "y": 0, "w": 2, "h": 2, "grid": gr}, {"x": 2, "y": 0, "w": 2, "h": 2, "grid": GRIDS[g2]}]} if inf else {"grid": gr}
            ls.append({"kind": "tile", "id": i, "name": "n", "width": 2, "height": 2, "data": c02.data(*ENCS[e], **kw)})
        layers = ls[:2] + [{"kind": "group", "id": 8, "layers": ls[2:]}]
    elif what == "objects":
        a, b, n = st[2:]
        os_ = [shape(SHAPES[a]), shape(SHAPES[b]), shape(SHAPES[a])]
        if n == 0:
            layers = [{"kind": "object", "id": 1, "objects": os_}]
        elif n == 1:
            layers = [{"kind": "object", "id": 1, "objects": os_[:2]}, {"kind": "group", "id": 2, "layers": [{"kind": "object", "id": 1, "objects": os_}]}]
        else:
            tss = [{"firstgid": 1, "ts": TS("a", tiles=[{"id": i, "objects": os_} for i in range(2)])}]
    elif what == "carriers":
        k, n = st[2:]
        if k == 0:
            layers = [dict({"kind": x, "id": 1, "name": "n", "image": "i.png", "objects": [], "layers": [], "width": 1, "height": 1, "data": {"grid": [[0]]}}, props=props, offset=(1, 2), parallax=(1, 2), tintcolor="#010203")
                      for x in ("object", "group", "image", "tile") for _ in range(n)]
        elif k == 1:
            tss = [{"firstgid": 1 + 50 * i, "ts": t_set("same", "one", 0)} for i in range(n)]
        elif k == 2:
            src = "s" + EXT[fmt]["tileset"]
            more[src] = m_.tileset_bytes(t_set("same", "one", 0), fmt)
            tss = [{"firstgid": 1 + 50 * i, "ts": t_set("same", "one", 0), "src": src} for i in range(n)]
        elif k == 3:
            tss = [{"firstgid": 1, "ts": TS("a", tiles=[{"id": i, "class": "c", "animation": [(0, 1)] * n, "props": props, "objects": [{"id": 1, "x": 0, "y": 0, "props": props}] * n} for i in range(n)])}]
        elif k == 4:
            cl = {"name": "c", "color": "#010203", "props": props}
            tss = [{"firstgid": 1, "ts": TS("a", wangsets=[{"name": "w", "props": props, "colors": [cl] * n, "tiles": [(i, (0, 1, 0, 1, 0, 1, 0, 1)) for i in range(n)]}] * n)}]
        elif k == 5:
            tp = "o" + EXT[fmt]["template"]
            more[tp] = m_.template_bytes({"object": dict(shape("polygon"), props=props)}, fmt)
            tp2 = "p" + EXT[fmt]["template"]
            more[tp2] = more[tp]
            layers = [{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0, "template": t} for t in (tp, tp2)] * n}]
        else:
            tp, src = "o" + EXT[fmt]["template"], "p" + EXT[fmt]["tileset"]
            more[src] = m_.tileset_bytes(t_set("q", "one", 0), fmt)
            more[tp] = m_.template_bytes({"object": dict(shape("tile"), props=props), "src": src}, fmt)
            layers = [{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0, "template": tp}] * n}]
            tss = [{"firstgid": 1, "ts": t_set("q", "one", 0), "src": src}]
        extra = {"props": props}
    else:
        k = st[2]
        w = c16.world([dict(c16.DECL[0])] * (k % 3 + 1), [c16.pat(c16.RX[0], (16, 9))] * (1 + k // 3), True)
        more = {"w.world": m_.jsn(w), "map_1_2.tmx": b"<map/>", "map_3_4.tmx": b"<map/>"}
    if what != "world":
        rel = "m" + EXT[fmt]["map"]
        more[rel] = m_.map_bytes(M(layers, tss, infinite=bool(inf), **extra), fmt)
    else:
        rel = "w.world"
    for g, b in more.items():
        ctx.put(g, b)
    kind = "world" if what == "world" else "map"
    r = ctx.call(kind, ctx.path(rel))
    twice(ctx, "parse_%s(%r)" % (kind, rel), lambda: ctx.call(kind, ctx.path(rel)), r, m_.dump(r), more)


def spaces():
    return [
        Enum("alike", alike, check_alike),
        Enum("histories", history_levels, check_history, label=lambda s: "%s%s" % ("-".join(s[0]), " relative" if s[1] else ""), edges=lambda s: len(s[0])),
        Enum("scenarios", scenario_levels, check_scenario, label=lambda s: c18.scenarios()[s[0]][0]),
        Enum("twins", twins, check_twins),
        Enum("documents", sharing_levels, check_sharing, label=lambda s: "%s/%s %s" % (others()[s[0]][0], others()[s[0]][2].name, others()[s[0]][2].label(s[2])), edges=lambda s: 3),
    ]
