"""Odd and large documents: files that other programs, hands and accidents make.

No result is prescribed for them; they are states for the checks that look at any document
(the same everywhere, plain values, no trace).
"""
import json
import re
import xml.etree.ElementTree as ET
from functools import lru_cache

from . import model as m_
from .core import Enum
from .model import EXT, M, P, TC, TS

# -- objects of more than one kind -------------------------------------------------------------

MARK = {
    "json": {"ellipse": True, "point": True, "polygon": [{"x": 0, "y": 0}, {"x": 1, "y": 2}], "polyline": [{"x": 3, "y": 0}, {"x": 1, "y": 4}], "text": {"text": "t", "color": "#010203"}, "gid": 3},
    "tmx": {"ellipse": "<ellipse/>", "point": "<point/>", "polygon": '<polygon points="0,0 1,2"/>', "polyline": '<polyline points="3,0 1,4"/>', "text": '<text color="#010203">t</text>', "gid": None},
}
KINDS = ["ellipse", "point", "polygon", "polyline", "text", "gid"]


def kinds(tier):
    return [("shapes", [(f, b) for f in ("tmx", "json") for b in range(64)])]


def check_kinds(ctx, st):
    f, b = st
    on = [k for i, k in enumerate(KINDS) if b >> i & 1]
    if f == "json":
        o = dict({"id": 1, "x": 1, "y": 2, "width": 3, "height": 4, "rotation": 0, "visible": True, "name": "n", "type": ""}, **{k: MARK[f][k] for k in on})
        m = json.loads(m_.map_bytes(M([{"kind": "object", "id": 1, "objects": []}]), "json"))
        m["layers"][0]["objects"] = [o]
        ctx.put("m.json", json.dumps(m).encode())
        return ctx.observe("map", "m.json")
    x = '<object id="1" x="1" y="2" width="3" height="4" name="n"%s>%s</object>' % (' gid="3"' if "gid" in on else "", "".join(MARK[f][k] for k in on if k != "gid"))
    t = m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0}]}]), "tmx").decode()
    t = re.sub(r"<object id.*?/>", lambda _: x, t, flags=re.S)
    assert "<point/>" in t or "point" not in on
    ctx.put("m.tmx", t.encode())
    return ctx.observe("map", "m.tmx")


# -- every place edited ------------------------------------------------------------------------

JV = [None, True, 0, -1, 1.5, 10 ** 30, "", "x", "#12", "1", [], {}, [[]], [None], {"a": 1}, float("nan"), float("inf"), "\ud800"]
XV = ["", " ", "x", "0", "-1", "1.5", "1e3", "nan", "inf", "99999999999999999999", "#12", "true", " 7 ", "0x10", "１", "a/../b", "\U0001F600"]


def places_json(o, at=()):
    if isinstance(o, dict):
        for k in sorted(o):
            yield at + (k,)
            yield from places_json(o[k], at + (k,))
    elif isinstance(o, list):
        for i in range(len(o)):
            if i < 3:
                yield at + (i,)
                yield from places_json(o[i], at + (i,))


@lru_cache(None)
def sources():
    """(name, kind, entry, files, file): files of the scenarios, each once."""
    from .checks import c18

    seen, out = set(), []
    for name, kind, entry, files, errs in c18.scenarios():
        for f in sorted(errs):
            if files[f] not in seen:
                seen.add(files[f])
                out.append((name, kind, entry, files, f))
    return out


@lru_cache(None)
def edits(i):
    """[(place, edit)] of one source."""
    name, kind, entry, files, f = sources()[i]
    b = files[f]
    out = []
    if b.lstrip()[:1] == b"<":
        root = ET.fromstring(b)
        for n, e in enumerate(root.iter()):
            for a in sorted(e.attrib):
                out += [(n, a, None)] + [(n, a, v) for v in range(len(XV))]
            out += [(n, "<twice>", None), (n, "<gone>", None), (n, "<empty>", None), (n, "<bare>", None), (n, "<comments>", None), (n, "<unknown>", None), (n, "<upper>", None)]
    else:
        for p in places_json(json.loads(b)):
            out += [(p, "gone")] + [(p, v) for v in range(len(JV))] + [(p, "twice"), (p, "string"), (p, "listed")]
    return out


def edit_states(tier):
    return [("edits", [(i, n) for i in range(len(sources())) for n in range(len(edits(i)))])]


def edited(i, n):
    name, kind, entry, files, f = sources()[i]
    b, e = files[f], edits(i)[n]
    if b.lstrip()[:1] == b"<":
        at, what, v = e
        root = ET.fromstring(b)
        parent = {c: p for p in root.iter() for c in p}
        el = list(root.iter())[at]
        if what == "<twice>":
            if el in parent:
                parent[el].append(el)
        elif what == "<gone>":
            if el in parent:
                parent[el].remove(el)
        elif what == "<empty>":
            for c in list(el):
                el.remove(c)
            el.text = None
        elif what == "<bare>":
            el.attrib.clear()
        elif what == "<comments>":
            el.insert(0, ET.Comment(" c "))
            el.append(ET.ProcessingInstruction("p", "i"))
        elif what == "<unknown>":
            el.insert(0, ET.Element("unknown", {"name": "x", "id": "1"}))
            el.set("unknown", "1")
        elif what == "<upper>":
            el.tag = el.tag.upper()
        elif v is None:
            del el.attrib[what]
        else:
            el.set(what, XV[v])
        return ET.tostring(root, "utf-8", xml_declaration=True)
    p, v = e
    o = json.loads(b)
    t = o
    for k in p[:-1]:
        t = t[k]
    k = p[-1]
    if v == "gone":
        del t[k]
    elif v == "twice":
        if isinstance(t, list):
            t.insert(k, t[k])
        else:
            # one key twice, the second with another value
            mark = "\0mark"
            t[k + mark] = t[k]
            s = json.dumps(o).replace(json.dumps(k + mark), json.dumps(k))
            return s.encode()
    elif v == "string":
        t[k] = json.dumps(t[k])
    elif v == "listed":
        t[k] = [t[k], t[k]]
    else:
        t[k] = JV[v]
    return json.dumps(o).encode("utf-8", "surrogatepass")


def check_edit(ctx, st):
    i, n = st
    name, kind, entry, files, f = sources()[i]
    if getattr(ctx, "odd_scenario", None) != i:
        ctx.wipe()
        for g, b in files.items():
            ctx.put(g, b)
        ctx.odd_scenario = i
    ctx.put(f, edited(i, n))
    try:
        return ctx.observe(kind, entry)
    finally:
        bad = ctx.written
        ctx.put(f, files[f])
        ctx.written = bad


def label_edit(st):
    i, n = st
    name, kind, entry, files, f = sources()[i]
    e = edits(i)[n]
    if len(e) == 3:
        return "%s, %s: element %d, %s%s" % (name, f, e[0], e[1], "" if e[2] is None else " = %r" % XV[e[2]])
    return "%s, %s: %s %s" % (name, f, "/".join(map(str, e[0])), "= %r" % (JV[e[1]],) if isinstance(e[1], int) else e[1])


# -- large documents ---------------------------------------------------------------------------


def large():
    from .checks import c02

    grid = lambda w, h: [[(x * 7919 + y * 104729) % 99991 for x in range(w)] for y in range(h)]
    layer = lambda enc, comp: M([{"kind": "tile", "id": 1, "width": 160, "height": 180, "data": c02.data(enc, comp, grid=grid(160, 180))}])
    obj = lambda i: {"id": i, "x": i, "y": 2 * i, "name": "object %d" % i, "props": [P("n", "int", i), P("s", "string", "v" * (i % 7))]}

    def deep(n):
        l = {"kind": "object", "id": 99, "objects": [obj(1)]}
        for i in range(n):
            l = {"kind": "group", "id": i, "layers": [l]}
        return M([l])

    return [
        ("csv", "map", lambda: layer("csv", "")), ("base64", "map", lambda: layer("base64", "")), ("zlib", "map", lambda: layer("base64", "zlib")), ("gzip", "map", lambda: layer("base64", "gzip")),
        ("objects", "map", lambda: M([{"kind": "object", "id": 1, "objects": [obj(i) for i in range(1, 700)]}])),
        ("layers", "map", lambda: M([{"kind": "group", "id": i, "layers": []} for i in range(1, 500)])),
        ("deep groups", "map", lambda: deep(60)),
        ("a long text", "map", lambda: M([{"kind": "object", "id": 1, "objects": [dict(obj(1), kind="text", text={"text": "long é\n" * 30000})]}])),
        ("a long property", "map", lambda: M([], [], [P("p", "string", "y" * 200000)])),
        ("properties", "map", lambda: M([], [], [P("p%d" % i, "int", i) for i in range(2000)])),
        ("a long polygon", "map", lambda: M([{"kind": "object", "id": 1, "objects": [dict(obj(1), kind="polygon", points=[(i, i * i) for i in range(6000)])]}])),
        ("tilesets", "map", lambda: M([], [{"firstgid": 1 + 10 * i, "ts": TS("t%d" % i)} for i in range(150)])),
        ("tiles", "tileset", lambda: TC("c", tuple(range(900)))),
        ("frames", "tileset", lambda: TS("t", tiles=[{"id": 0, "animation": [(i % 4, i) for i in range(3000)]}])),
    ]


def large_states(tier):
    return [("large", [(i, f) for i in range(len(large())) for f in ("tmx", "json")])]


def check_large(ctx, st):
    i, f = st
    name, kind, make = large()[i]
    n = "m" + EXT[f][kind]
    ctx.put(n, (m_.map_bytes if kind == "map" else m_.tileset_bytes)(make(), f))
    return ctx.observe(kind, n)


def spaces():
    return [
        Enum("kinds", kinds, check_kinds, edges=lambda s: 1),
        Enum("edited-places", edit_states, check_edit, label=label_edit, edges=lambda s: 1),
        Enum("large", large_states, check_large, label=lambda s: "%s, %s" % (large()[s[0]][0], s[1]), edges=lambda s: 1),
    ]
