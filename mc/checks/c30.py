"""C30: every parse ends, with work in step with the document."""
import json
import os
import re
import signal
import subprocess
import sys
import tracemalloc
from functools import lru_cache

from .. import core, docs, odd
from .. import model as m_
from ..core import Enum, Hang
from ..model import EXT, M, P, TC, TS
from . import c02, c05, c16

RULE = (
    "states: contents of the files: all words of tokens up to a length, every place of every scenario edited, every number of every scenario replaced by huge ones, references to oneself and to what cannot be read, nesting up to far beyond the interpreter's limits (in processes of their own); "
    "each parse must end in time with an instance of the documented class or an ordinary exception, without memory out of proportion; scaling: each dimension in which documents grow, at sizes n, 2n and 4n, with the steps of the interpreter (and the instructions of the processor, counted by valgrind) as work: the second increase is at most three times the first (executions = parses)"
)
ASSUMPTIONS = ["an ordinary exception is an instance of Exception", "work that is constant or small against the counting is not judged", "instructions are not judged where valgrind cannot be run"]

CLASS = {"map": "TiledMap", "tileset": "Tileset", "world": "World"}
LIMIT = 10


def ends(ctx, kind, path, call):
    """One parse: ends in time, as it should."""
    old = signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        r = ctx.call(kind, path)
    except Hang:
        ctx.fail(call, "end", "within %d s" % LIMIT, "none")
    except Exception as e:
        ctx.seen(type(e).__name__)
    except BaseException as e:
        ctx.fail(call, "result", "a result or an ordinary exception", type(e).__name__)
    else:
        ctx.seen(m_.dump(r))
        if type(r).__name__ != CLASS[kind]:
            ctx.fail(call, "class of the result", CLASS[kind], type(r).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, *old)


def look(ctx, kind, path, files):
    ctx.written = dict(files)
    ends(ctx, kind, path, "parse_%s(%r)" % (kind, os.path.basename(str(path))))


# -- any content -------------------------------------------------------------------------------

TOKENS = [b"<", b">", b"/", b"{", b"}", b"[", b"]", b'"', b":", b",", b" ", b"\n", b"0", b"a", b"\0", b"\xff", b"&", b"<map>", b"<tileset/>", b"null", b"<?xml?>", b"<!--", b"\xef\xbb\xbf", b'{"maps":', b"<!DOCTYPE a>"]
ROLES = ["map", "tileset", "world", "external", "template", "template-tileset"]


def words(tier):
    out = [("length %d" % 0, [(r, ()) for r in ROLES])]
    ws = [()]
    for n in range(1, 4 if tier == "quick" else 5):
        ws = [w + (t,) for w in ws for t in range(len(TOKENS))]
        out.append(("length %d" % n, [(r, w) for r in (ROLES if n < 3 else ROLES[:3] if n == 3 else ROLES[:1]) for w in ws]))
    return out


def check_word(ctx, st):
    r, w = st
    b = b"".join(TOKENS[t] for t in w)
    if r in ("map", "tileset", "world"):
        n = "x"
        ctx.put(n, b)
        return ends(ctx, r, ctx.path(n), "parse_%s of %r" % (r, b))
    ctx.put("x", b)
    if r == "external":
        ctx.put("m", json.dumps(jmap(tilesets=[{"firstgid": 1, "source": "x"}])).encode())
    elif r == "template":
        ctx.put("m", json.dumps(jmap(template="x")).encode())
    else:
        ctx.put("t", json.dumps({"type": "template", "tileset": {"firstgid": 1, "source": "x"}, "object": {"gid": 1, "name": "", "type": "", "width": 1, "height": 1, "rotation": 0, "visible": True, "id": 1}}).encode())
        ctx.put("m", json.dumps(jmap(template="t")).encode())
    ends(ctx, "map", ctx.path("m"), "parse_map with %s %r" % (r, b))


def jmap(tilesets=(), template=None, layers=None):
    m = json.loads(m_.map_bytes(M([{"kind": "object", "id": 1, "objects": []}]), "json"))
    m["tilesets"] = list(tilesets)
    if layers is not None:
        m["layers"] = layers
    elif template is not None:
        m["layers"][0]["objects"] = [{"id": 1, "x": 0, "y": 0, "template": template}]
    return m


def xmap(body):
    """A TMX map that contains just this."""
    b = m_.map_bytes(M(), "tmx").rstrip()
    if b.endswith(b"</map>"):
        return b[:-6] + body + b"</map>"
    assert b.endswith(b"/>")
    return b[:-2] + b">" + body + b"</map>"


def edits(tier):
    every = {("odd", "edited-places"): 3 if tier == "quick" else 1}
    return [("edits", docs.states(10 ** 6, ("odd",), every))]


def check_edits(ctx, st):
    docs.run(ctx, st, look, ("odd",))


# -- huge numbers ------------------------------------------------------------------------------

HUGE = [10 ** 6, 3 * 10 ** 7, 10 ** 12, -(10 ** 7)]


@lru_cache(None)
def numbers(i):
    """Places of numbers in a source of mc/odd.py."""
    name, kind, entry, files, f = odd.sources()[i]
    out = []
    for n, (place, *e) in enumerate(odd.edits(i)):
        if files[f].lstrip()[:1] == b"<":
            if e[0][:1] != "<" and e[1] == 0:
                out.append((place, e[0]))
            elif e[0] == "<gone>":
                out.append((place, "<text>"))
        elif e[0] == 0:
            o = json.loads(files[f])
            for k in place:
                o = o[k]
            if isinstance(o, (int, float)) and not isinstance(o, bool):
                out.append(place)
    return out


def huge(tier):
    return [("huge", [(i, p, v) for i in range(len(odd.sources())) for p in range(len(numbers(i))) for v in range(len(HUGE))])]


def check_huge(ctx, st):
    """A number says nothing about how much there is to read."""
    import xml.etree.ElementTree as ET

    i, p, v = st
    name, kind, entry, files, f = odd.sources()[i]
    if getattr(ctx, "scenario", None) != i:
        ctx.wipe()
        for g, b in files.items():
            ctx.put(g, b)
        ctx.scenario = i
    b, place = files[f], numbers(i)[p]
    if b.lstrip()[:1] == b"<":
        root = ET.fromstring(b)
        el = list(root.iter())[place[0]]
        old = el.text or "" if place[1] == "<text>" else el.get(place[1])
        if not re.fullmatch(r"[-+\d., \n]*\d[-+\d., \n]*", old):
            return
        # the last number of a list
        new = re.sub(r"[-+\d.]+(?=[ \n]*$)", str(HUGE[v]), old)
        if place[1] == "<text>":
            el.text = new
        else:
            el.set(place[1], new)
        b = ET.tostring(root, "utf-8", xml_declaration=True)
    else:
        o = t = json.loads(b)
        for k in place[:-1]:
            t = t[k]
        t[place[-1]] = HUGE[v]
        b = json.dumps(o).encode()
    ctx.put(f, b)
    call = "parse_%s(%r), %s: %s = %d" % (kind, entry, f, place, HUGE[v])
    tracemalloc.start()
    try:
        ends(ctx, kind, ctx.path(entry), call)
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
        ctx.put(f, files[f])
    if peak > 4 << 20:
        ctx.fail(call, "memory", "in proportion to %d bytes" % sum(map(len, files.values())), "%d bytes" % peak)


# -- references that lead nowhere, or back -----------------------------------------------------

REFS = ["m", "./m", "x", "x/../m", "", ".", "..", "/", "/dev/null", "missing", "d", "d/", "l", "loop", "n" * 300, "a/" * 200 + "b", "nul\0byte", "\ud800", "m\n", "t", "u", "C:\\x", "file:///x", "http://x/y", "~", "*", "e"]
WHERE = ["json-tileset-source", "tmx-tileset-source", "json-template-tileset-source", "tmx-template-tileset-source", "json-template-template", "tmx-template-template", "json-tileset", "tmx-tileset", "json-template", "tmx-template", "json-template-tileset", "tmx-template-tileset", "world-map", "image", "world-pattern"]


def refs(tier):
    return [("references", [(w, r) for w in WHERE for r in range(len(REFS))])]


def check_ref(ctx, st):
    from xml.sax.saxutils import quoteattr

    w, r = st
    ref = REFS[r]
    ctx.wipe()
    os.makedirs(ctx.root + "/d")
    os.symlink("loop", ctx.root + "/loop")
    os.symlink("m", ctx.root + "/l")
    q = quoteattr(ref.replace("\0", "").encode("utf-8", "replace").decode())
    tj = lambda s: json.dumps({"type": "template", "tileset": {"firstgid": 1, "source": s}, "object": {"gid": 1, "name": "", "type": "", "width": 1, "height": 1, "rotation": 0, "visible": True, "id": 1}}).encode()
    tx = lambda s: ('<template><tileset firstgid="1" source=%s/><object gid="1" width="1" height="1"/></template>' % s).encode()
    ctx.put("t", tj("t"))
    ctx.put("u", tx('"u"'))
    ctx.put("e", b"")
    kind = "map"
    if w == "json-tileset":
        ctx.put("m", json.dumps(jmap([{"firstgid": 1, "source": ref}])).encode())
    elif w == "tmx-tileset":
        ctx.put("m", xmap(('<tileset firstgid="1" source=%s/>' % q).encode()))
    elif w == "json-template":
        ctx.put("m", json.dumps(jmap(template=ref)).encode())
    elif w == "tmx-template":
        ctx.put("m", xmap(('<objectgroup id="1"><object id="1" x="0" y="0" template=%s/></objectgroup>' % q).encode()))
    elif w == "json-template-tileset":
        ctx.put("x", tj(ref))
        ctx.put("m", json.dumps(jmap(template="x")).encode())
    elif w == "tmx-template-tileset":
        ctx.put("x", tx(q))
        ctx.put("m", xmap(b'<objectgroup id="1"><object id="1" x="0" y="0" template="x"/></objectgroup>'))
    elif w in ("json-tileset-source", "tmx-tileset-source", "json-template-tileset-source", "tmx-template-tileset-source"):
        # a tileset file that refers to another
        if w[:4] == "json":
            ctx.put("x", json.dumps(dict(json.loads(m_.tileset_bytes(TS("t"), "json")), firstgid=1, source=ref)).encode())
        else:
            ctx.put("x", m_.tileset_bytes(TS("t"), "tmx").replace(b"<tileset ", b'<tileset firstgid="1" source=' + q.encode() + b" "))
        if "template" in w:
            ctx.put("t", tj("x") if w[:4] == "json" else tx('"x"'))
            ctx.put("m", json.dumps(jmap(template="t")).encode() if w[:4] == "json" else xmap(b'<objectgroup id="1"><object id="1" x="0" y="0" template="t"/></objectgroup>'))
        else:
            ctx.put("m", json.dumps(jmap([{"firstgid": 1, "source": "x"}])).encode() if w[:4] == "json" else xmap(b'<tileset firstgid="1" source="x"/>'))
    elif w == "json-template-template":
        ctx.put("x", json.dumps({"type": "template", "template": ref, "object": {"template": ref, "name": "", "type": "", "width": 1, "height": 1, "rotation": 0, "visible": True, "id": 1}}).encode())
        ctx.put("m", json.dumps(jmap(template="x")).encode())
    elif w == "tmx-template-template":
        ctx.put("x", ('<template template=%s><object template=%s width="1" height="1"/></template>' % (q, q)).encode())
        ctx.put("m", xmap(b'<objectgroup id="1"><object id="1" x="0" y="0" template="x"/></objectgroup>'))
    elif w == "image":
        ctx.put("e.tsj", m_.tileset_bytes(TS("t"), "json").replace(b'"image": "t.png"', b'"image": ' + json.dumps(ref).encode()))
        ctx.put("m", json.dumps(jmap([{"firstgid": 1, "source": "e.tsj"}])).encode())
    else:
        kind = "world"
        o = c16.world([{"fileName": ref, "x": 0, "y": 0, "width": 1, "height": 1}]) if w == "world-map" else c16.world([], [{"regexp": ref, "multiplierX": 1, "multiplierY": 1, "offsetX": 0, "offsetY": 0}])
        ctx.put("m", json.dumps(o).encode())
    ends(ctx, kind, ctx.path("m"), "parse_%s, %s refers to %s" % (kind, w, ascii(ref[:40])))


# -- nesting -----------------------------------------------------------------------------------

DEPTHS = {"quick": [1, 30, 60, 100, 400, 1000, 3000, 20000, 100000], "thorough": [1, 10, 30, 60, 100, 200, 300, 400, 450, 480, 500, 700, 900, 1000, 1100, 2000, 3000, 5000, 10000, 20000, 50000, 100000, 300000]}
NEST = ["arrays", "objects", "elements", "json-groups", "tmx-groups", "json-property", "tile-groups"]


def nesting(tier):
    return [("depths", [(n, d, k) for d in DEPTHS[tier] for n in NEST for k in (("map", "tileset", "world") if n in ("arrays", "objects", "elements") else ("map",))])]


def nested(n, d):
    if n == "arrays":
        return b"[" * d + b"]" * d
    if n == "objects":
        return b'{"layers":' * d + b"1" + b"}" * d
    if n == "elements":
        return b"<map>" * d + b"</map>" * d
    if n == "json-groups":
        g = b'{"type":"group","name":"g","id":1,"opacity":1,"visible":true,"x":0,"y":0,"layers":['
        return json.dumps(jmap(layers=["@"])).encode().replace(b'"@"', g * d + b"]}" * d)
    if n == "tmx-groups":
        return xmap(b'<group id="1" name="g">' * d + b"</group>" * d)
    if n == "json-property":
        m = jmap()
        m["properties"] = [{"name": "p", "type": "class", "value": "@"}]
        return json.dumps(m).encode().replace(b'"@"', b'{"a":' * d + b"1" + b"}" * d)
    return m_.map_bytes(M([], [{"firstgid": 1, "ts": TS("t")}]), "tmx").replace(b"</tileset>", b'<tile id="0">' * d + b"</tile>" * d + b"</tileset>")


def check_nest(ctx, st):
    """In a process of its own: it must end as processes do."""
    n, d, k = st
    ctx.put("m", nested(n, d))
    call = "parse_%s of %s nested %d deep" % (k, n, d)
    ctx.execs += 1
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = b"?"
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                res = getattr(core.load(), "parse_" + k)(ctx.path("m"))
                out = b"=" + type(res).__name__.encode()
                if n.endswith("groups") and n != "tile-groups" and k == "map":
                    ls = res.layers
                    c = 0
                    while ls:
                        c, ls = c + 1, ls[0].layers
                    out += b" %d" % c
            except Exception as e:
                out = b"!" + type(e).__name__.encode()
            except BaseException as e:
                out = b"?" + type(e).__name__.encode()
        finally:
            os.write(w, out)
            os._exit(0)
    os.close(w)
    try:
        b = b""
        import select

        if select.select([r], [], [], 40)[0]:
            b = os.read(r, 200)
        else:
            os.kill(pid, signal.SIGKILL)
    finally:
        os.close(r)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    ctx.seen((b, code))
    b = b.decode()
    if b[:1] not in ("=", "!") or code:
        return ctx.fail(call, "end of the process", "a result or an ordinary exception", (b, code))
    if b[0] == "=" and b[1:].split()[0] != CLASS[k]:
        return ctx.fail(call, "class of the result", CLASS[k], b[1:])
    if n in ("json-groups", "tmx-groups") and b[0] == "=" and b.split()[1] != str(d):
        return ctx.fail(call, "groups in the result", d, b)
    # what people make by hand
    if d <= 60 and n.endswith("groups") and b[0] != "=":
        ctx.fail(call, "result", "a map", b[1:])


# -- scaling -----------------------------------------------------------------------------------


def grid(w, h):
    return [[(x * 7919 + y * 104729) % 99991 for x in range(w)] for y in range(h)]


def obj(i, **kw):
    return dict({"id": i, "x": i, "y": 2 * i, "name": "o%d" % i}, **kw)


def lay(enc, comp, w, h):
    return lambda n: M([{"kind": "tile", "id": 1, "width": w(n), "height": h(n), "data": c02.data(enc, comp, grid=grid(w(n), h(n)))}])


def chunks(enc, comp):
    return lambda n: M([{"kind": "tile", "id": 1, "width": 4, "height": 4, "data": c02.data(enc, comp, chunks=[{"x": 2 * i, "y": 0, "w": 2, "h": 2, "grid": [[i, 2], [3, 4]]} for i in range(n)])}], infinite=True)


def deep(n):
    l = {"kind": "object", "id": 999, "objects": [obj(1)]}
    for i in range(n):
        l = {"kind": "group", "id": i + 1, "layers": [l]}
    return M([l])


def objs(f):
    return lambda n: M([{"kind": "object", "id": 1, "objects": [f(i + 1) for i in range(n)]}])


def tset(**kw):
    return lambda n: TS("t", **{k: f(n) for k, f in kw.items()})


# (name, kind, base size, document of size n)
DIMS = [
    ("rows, csv", "map", 100, lay("csv", "", lambda n: 8, lambda n: n)), ("columns, csv", "map", 100, lay("csv", "", lambda n: n, lambda n: 8)),
    ("rows, base64", "map", 100, lay("base64", "", lambda n: 8, lambda n: n)), ("columns, zlib", "map", 100, lay("base64", "zlib", lambda n: n, lambda n: 8)), ("rows, gzip", "map", 100, lay("base64", "gzip", lambda n: 8, lambda n: n)),
    ("chunks, csv", "map", 100, chunks("csv", "")), ("chunks, zlib", "map", 50, chunks("base64", "zlib")),
    ("layers", "map", 40, lambda n: M([{"kind": "group", "id": i + 1, "name": "g%d" % i, "layers": []} for i in range(n)])),
    ("tile layers", "map", 30, lambda n: M([{"kind": "tile", "id": i + 1, "width": 2, "height": 2, "data": c02.data("csv", "", grid=[[1, 2], [3, 4]])} for i in range(n)])),
    ("nested groups", "map", 15, deep),
    ("objects", "map", 60, objs(lambda i: obj(i))), ("objects with properties", "map", 30, objs(lambda i: obj(i, props=[P("a", "int", i), P("b", "string", "x")]))),
    ("texts", "map", 40, objs(lambda i: obj(i, kind="text", text={"text": "t%d" % i}))), ("text length", "map", 2000, lambda n: M([{"kind": "object", "id": 1, "objects": [obj(1, kind="text", text={"text": "ab " * n})]}])),
    ("points", "map", 150, lambda n: M([{"kind": "object", "id": 1, "objects": [obj(1, kind="polygon", points=[(i, i + 1) for i in range(n)])]}])),
    ("polyline points", "map", 150, lambda n: M([{"kind": "object", "id": 1, "objects": [obj(1, kind="polyline", points=[(i, i + 1) for i in range(n)])]}])),
    ("properties", "map", 100, lambda n: M([], [], [P("p%d" % i, "int", i) for i in range(n)])), ("property length", "map", 4000, lambda n: M([], [], [P("p", "string", "ab " * n)])),
    ("tilesets", "map", 15, lambda n: M([], [{"firstgid": 1 + 10 * i, "ts": TS("t%d" % i)} for i in range(n)])),
    ("tiles", "tileset", 40, lambda n: TC("c", tuple(range(n)))), ("frames", "tileset", 150, tset(tiles=lambda n: [{"id": 0, "animation": [(i % 4, i) for i in range(n)]}])),
    ("collision shapes", "tileset", 40, tset(tiles=lambda n: [{"id": 0, "objects": [c05.obj("rect", i + 1, {}) for i in range(n)]}])),
    ("wang tiles", "tileset", 80, tset(wangsets=lambda n: [{"name": "w", "colors": [{"name": "c", "color": "#010203"}], "tiles": [(i, [0, 1] * 4) for i in range(n)]}])),
    ("wang colours", "tileset", 40, tset(wangsets=lambda n: [{"name": "w", "colors": [{"name": "c%d" % i, "color": "#010203"} for i in range(n)], "tiles": []}])),
    ("wang sets", "tileset", 40, tset(wangsets=lambda n: [{"name": "w%d" % i, "colors": [{"name": "c", "color": "#010203"}], "tiles": []} for i in range(n)])),
    ("template instances", "template", 12, None), ("template tile instances", "tiletemplate", 12, None), ("external tilesets", "external", 12, None),
    ("declared maps", "world", 60, None), ("matched maps", "matches", 60, None), ("patterns", "patterns", 20, None),
]


def write(d, dim, fmt, n):
    """Write the document of the size; returns (kind, path)."""
    name, kind, base, make = DIMS[dim]
    p = os.path.join(d, "%d-%s-%d" % (dim, fmt, n))
    os.makedirs(p, exist_ok=True)

    def put(f, b):
        with open(os.path.join(p, f), "wb") as h:
            h.write(b)
        return os.path.join(p, f)

    if kind in ("map", "tileset"):
        return kind, put("x" + EXT[fmt][kind], (m_.map_bytes if kind == "map" else m_.tileset_bytes)(make(n), fmt))
    if kind in ("template", "tiletemplate"):
        t = {"object": {"id": 1, "x": 0, "y": 0, "name": "t", "width": 3, "height": 4, "props": [P("a", "int", 1)]}}
        if kind == "tiletemplate":
            t["object"].update(gid=2, kind="tile")
            t["src"] = "ts" + EXT[fmt]["tileset"]
            put(t["src"], m_.tileset_bytes(TS("tt"), fmt))
        tn = "t" + EXT[fmt]["template"]
        put(tn, m_.template_bytes(t, fmt))
        return "map", put("x" + EXT[fmt]["map"], m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [{"id": i + 1, "x": i, "y": 0, "template": tn} for i in range(n)]}]), fmt))
    if kind == "external":
        for i in range(n):
            put("e%d" % i + EXT[fmt]["tileset"], m_.tileset_bytes(TS("e%d" % i), fmt))
        return "map", put("x" + EXT[fmt]["map"], m_.map_bytes(M([], [{"firstgid": 1 + 10 * i, "ts": TS("e%d" % i), "src": "e%d" % i + EXT[fmt]["tileset"]} for i in range(n)]), fmt))
    if kind == "world":
        return "world", put("x.world", m_.jsn(c16.world([{"fileName": "m%d.tmx" % i, "x": i, "y": 0, "width": 1, "height": 1} for i in range(n)])))
    pat = lambda r: {"regexp": r, "multiplierX": 1, "multiplierY": 1, "offsetX": 0, "offsetY": 0}
    for i in range(n if kind == "matches" else 3):
        put("m%d_0.tmx" % i, b"")
    return "world", put("x.world", m_.jsn(c16.world([], [pat(r"m(\d+)_(\d+)\.tmx") for i in range(1 if kind == "matches" else n)])))


def fmts(dim):
    return ("json",) if DIMS[dim][1] in ("world", "matches", "patterns") else ("tmx", "json")


def steps(path, kind):
    """Instructions of Python executed by one parse."""
    mon = sys.monitoring
    n = [0]

    def count(code, off):
        n[0] += 1

    f = getattr(core.load(), "parse_" + kind)
    mon.use_tool_id(3, "mc-c30")
    try:
        mon.register_callback(3, mon.events.INSTRUCTION, count)
        mon.set_events(3, mon.events.INSTRUCTION)
        f(path)
    finally:
        mon.set_events(3, 0)
        mon.register_callback(3, mon.events.INSTRUCTION, None)
        mon.free_tool_id(3)
    return n[0]


def scale_states(tier):
    f = (1, 16) if tier == "quick" else (1, 4, 16, 64)
    return [("dimensions", [(d, fmt, s) for s in f for d in range(len(DIMS)) for fmt in fmts(d) if s == 1 or DIMS[d][0] != "nested groups"])]


def judge(ctx, call, unit, w, noise):
    a, b = w[1] - w[0], w[2] - w[1]
    ctx.seen((call, b > a))
    if b > noise and b > 3 * max(a, 0):
        ctx.fail(call, unit, "an increase of about twice %d" % a, "%d, %d, %d: an increase of %d" % (tuple(w) + (b,)))


def check_scale(ctx, st):
    from pathlib import Path

    d, fmt, s = st
    name, kind, base, make = DIMS[d]
    ns = [base * s, 2 * base * s, 4 * base * s]
    w = []
    for n in ns:
        k, p = write(ctx.root, d, fmt, n)
        # what is done only once in a process does not count
        getattr(core.load(), "parse_" + k)(Path(p))
        w.append(steps(Path(p), k))
        ctx.execs += 2
    judge(ctx, "parse of %s (%s), sizes %s" % (name, fmt, ns), "steps of the interpreter", w, 1500)


def timed(path, kind, limit):
    """Processor time of one parse; at most the limit."""
    import gc
    import time

    f = getattr(core.load(), "parse_" + kind)
    gc.collect()
    old = signal.setitimer(signal.ITIMER_REAL, 10 * limit + 20)
    a = time.process_time()
    try:
        f(path)
    except Hang:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, *old)
    return time.process_time() - a


def time_states(tier):
    return [("dimensions", [(d, fmt, 0.15 if tier == "quick" else 0.6) for d in range(len(DIMS)) for fmt in fmts(d) if DIMS[d][0] != "nested groups"])]


def check_time(ctx, st):
    """Documents so large that what grows faster prevails: four times the size takes at most twelve times the time."""
    from pathlib import Path

    d, fmt, least = st
    name, kind, base, make = DIMS[d]
    s = 16
    while True:
        ctx.wipe()
        k, p = write(ctx.root, d, fmt, base * s)
        t = max(timed(Path(p), k, 60) for _ in range(2))
        ctx.execs += 2
        if t >= least or s >= 2048:
            break
        s *= 4 if t < least / 5 else 2
    k, q = write(ctx.root, d, fmt, 4 * base * s)
    for attempt in range(4):
        u = timed(Path(q), k, 14 * t)
        ctx.execs += 1
        if u < 12 * t or u < 0.2:
            break
        t = max(t, timed(Path(p), k, 60))
    else:
        ctx.fail("parse of %s (%s), sizes %d and %d" % (name, fmt, base * s, 4 * base * s), "time", "about four times as long", "%.1f times as long" % (u / t))
    if os.environ.get("MC_VERBOSE"):
        sys.stderr.write("%s %s %d: %.2f %.2f %.2f\n" % (name, fmt, base * s, t, u, u / t))
    ctx.seen((name, fmt))


def weigh(f, work):
    """Child of valgrind: parse each document in a process of its own, forked when all is imported."""
    from pathlib import Path

    lib = core.load()
    for kind, p in json.loads(Path(f).read_text()):
        pid = os.fork()
        if pid == 0:
            for _ in range(2):
                getattr(lib, "parse_" + kind)(Path(p))
            print("DONE", os.getpid(), p, flush=True)
            os._exit(0)
        os.waitpid(pid, 0)


def weigh_states(tier):
    f = 3 if tier == "quick" else 8
    st = [(d, fmt) for d in range(len(DIMS)) for fmt in fmts(d)]
    return [("instructions", [(tuple(st[i::8]), f) for i in range(8)])]


def check_weigh(ctx, st):
    """The same with the instructions of the processor, which count what is done outside of Python code too."""
    import shutil

    ds, s = st
    if not shutil.which("valgrind"):
        ctx.extra["left_out_without_valgrind"] = 1
        return
    ctx.wipe()
    todo, sizes = [], {}
    for d, fmt in ds:
        ns = [DIMS[d][2] * s * k for k in (1, 2, 4)]
        if DIMS[d][0] == "nested groups":
            ns = [15, 30, 60]
        for n in ns:
            k, p = write(ctx.root, d, fmt, n)
            todo.append((k, p))
            sizes[p] = (d, fmt, n)
    with open(ctx.root + "/todo", "w") as f:
        json.dump(todo, f)
    code = "import sys; sys.path.insert(0, %r); from mc.checks import c30; c30.weigh(%r, %r)" % (core.VERIF, ctx.root + "/todo", ctx.root)
    env = dict(os.environ, PYTHONHASHSEED="0", MC_REPO=core.REPO)
    argv = ["valgrind", "--tool=none", "-q"]
    argv = ["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", "--trace-children=no", "--log-file=" + ctx.root + "/log.%p", sys.executable, "-c", code]
    p = subprocess.run(argv, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=380)
    w = {}
    for l in p.stdout.decode("utf-8", "replace").splitlines():
        m = re.match(r"DONE (\d+) (.*)", l)
        if m and os.path.exists(ctx.root + "/log." + m.group(1)):
            with open(ctx.root + "/log." + m.group(1)) as f:
                c = re.search(r"I\s+refs:\s+([\d,]+)", f.read())
            if c:
                w[sizes[m.group(2)]] = int(c.group(1).replace(",", ""))
    ctx.execs += 2 * len(w)
    if not w:
        ctx.extra["left_out_without_valgrind"] = 1
        return
    for d, fmt in ds:
        ns = sorted(n for x, f, n in sizes.values() if (x, f) == (d, fmt))
        if any((d, fmt, n) not in w for n in ns):
            ctx.fail("parse of %s (%s) in sizes %s" % (DIMS[d][0], fmt, ns), "end of the process", "as usual", "none")
            continue
        v = [w[(d, fmt, n)] for n in ns]
        if os.environ.get("MC_VERBOSE"):
            sys.stderr.write("%s %s %s %.2f\n" % (DIMS[d][0], fmt, [x - v[0] for x in v], (v[2] - v[1]) / max(1, v[1] - v[0])))
        judge(ctx, "parse of %s (%s), sizes %s" % (DIMS[d][0], fmt, ns), "instructions of the processor", v, 600000)


def spaces():
    one = lambda s: 1
    return [
        Enum("scaling", scale_states, check_scale, edges=one, label=lambda s: "%s, %s, factor %d" % (DIMS[s[0]][0], s[1], s[2])),
        Enum("time", time_states, check_time, edges=one, heavy=True, label=lambda s: "%s, %s" % (DIMS[s[0]][0], s[1])),
        Enum("references", refs, check_ref, edges=one, label=lambda s: "%s to %s" % (s[0], ascii(REFS[s[1]][:40]))),
        Enum("nesting", nesting, check_nest, edges=one),
        Enum("words", words, check_word, edges=lambda s: len(s[1]), label=lambda s: "%s: %r" % (s[0], b"".join(TOKENS[t] for t in s[1]))),
        Enum("huge-numbers", huge, check_huge, edges=one),
        Enum("edited-places", edits, check_edits, edges=one, label=lambda s: docs.label(s, ("odd",))),
        Enum("instructions", weigh_states, check_weigh, edges=one, heavy=True, label=lambda s: ", ".join("%s %s" % (DIMS[d][0], f) for d, f in s[0])),
    ]
