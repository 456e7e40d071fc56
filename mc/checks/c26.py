"""C26: what is unsupported is refused."""
import os
from itertools import product

from .. import model as m_
from ..core import Enum, HarnessError
from ..model import EXT, M, TS, encode
from . import c03, c14

RULE = "states: an unsupported feature (compression, encoding, layer type, XML image layer without an image, template of the other format or among collision shapes) at every position of every layer forest up to n layers, in finite and infinite maps, in both formats; parsing must raise the documented error and never return"
ASSUMPTIONS = ["the zstd package is not installed in the sandbox", "parse_map reports ValueError of a JSON map as UnknownFormat (parse_map's rule for JSON), so either is accepted there", "an XML data element without any text has nothing that could be compressed (it is a layer without chunks: C02)"]

COMP = ["zstd", "lz4", "bzip2", "ZLIB", "Gzip", "zlib ", " ", "none", "deflate", "0", "zip", "gz", "zst", "lzma", "csv"]
DATA = ["raw", "zlib", "gzip", "zstd", "empty"]
ZSTD = "KLUv/SAQgQAAAQAAAAIAAAADAAAABAAAAA=="


def payload(kind, grid):
    if kind == "zstd":
        return ZSTD
    if kind == "empty":
        return ""
    return encode(grid, "base64", "" if kind == "raw" else kind)


def outcome(ctx, kind, rel):
    try:
        return "result", ctx.call(kind, ctx.path(rel))
    except Exception as e:
        ctx.seen(type(e).__name__)
        return "error", e


def names(e):
    return [c.__name__ for c in type(e).__mro__]


def demand(ctx, kind, rel, ok, what):
    how, r = outcome(ctx, kind, rel)
    call = "parse_%s(%r) with %s" % (kind, rel, what)
    if how == "result":
        return ctx.fail(call, "result", "an error: " + " or ".join(ok), m_.dump(r))
    if not set(ok) & set(names(r)):
        ctx.fail(call, "error", " or ".join(ok), type(r).__name__ + ": " + str(r)[:200])


def tilelayers(ls, out):
    for l in ls:
        if l["kind"] == "tile":
            out.append(l)
        tilelayers(l.get("layers", ()), out)
    return out


def objlayers(ls, out):
    for l in ls:
        if l["kind"] == "object":
            out.append(l)
        objlayers(l.get("layers", ()), out)
    return out


class Raw(str):
    """Base64 text used as it is."""


def sabotage(fmt, l, comp, kind, chunks):
    """Returns nothing; makes the tile layer l use an unsupported compression."""
    g = [[1, 2], [3, 4]]
    l["width"] = l["height"] = 2
    d = {"enc": "base64", "comp": comp}
    if chunks:
        d["chunks"] = [{"x": 16 * i, "y": 0, "w": 2, "h": 2, "grid": g} for i in range(chunks)]
    else:
        d["grid"] = g
    d["payload"] = payload(kind, g)
    l["data"] = d


def write(ctx, m, fmt):
    old = m_.encode
    # unknown compressions have no encoder: the payload is given
    pay = {}

    def find(ls):
        for l in ls:
            if "payload" in l.get("data", {}):
                pay[l["data"]["comp"]] = l["data"]["payload"]
            find(l.get("layers", ()))

    find(m["layers"])
    m_.encode = lambda grid, enc, comp, level=-1: pay[comp] if comp in pay else old(grid, enc, comp, level)
    try:
        rel = "m" + EXT[fmt]["map"]
        ctx.put(rel, m_.map_bytes(m, fmt))
        return rel
    finally:
        m_.encode = old


def forests_with(n, what):
    return [f for f in c03.forests(n) if what in f]


def comp_states(tier):
    n = 5 if tier == "quick" else 6
    lv = [("all compressions", [(f, i, c, k, ch, fmt) for f in ("t", "tt", "g(t)", "otg(it)", "g(g(t)t)") for i in range(f.count("t")) for c in range(len(COMP)) for k in range(len(DATA)) for ch in (0, 1, 2, 3) for fmt in ("tmx", "json") if fmt == "json" or DATA[k] != "empty"])]
    for d in range(1, n + 1):
        lv.append(("n=%d" % d, [(f, i, c, 0, ch, fmt) for f in forests_with(d, "t") for i in range(f.count("t")) for c in (0, 1) for ch in (0, 2) for fmt in ("tmx", "json")]))
    return lv


def check_comp(ctx, st):
    f, i, c, k, ch, fmt = st
    ls = c03.build(f, "distinct")
    ts = tilelayers(ls, [])
    if ch:
        for t in ts:
            t["data"] = {"enc": "base64", "chunks": [{"x": 0, "y": 0, "w": 1, "h": 1, "grid": [[7]]}]}
    sabotage(fmt, ts[i], COMP[c], DATA[k], ch)
    rel = write(ctx, M(ls, infinite=bool(ch)), fmt)
    demand(ctx, "map", rel, ["ValueError"] if fmt == "tmx" else ["ValueError", "UnknownFormat"], "compression %r" % COMP[c])


ENCODINGS = ["hex", "base91", "base32", "Base64", "BASE64", "base64 ", " csv", "CSV", "zlib", "gzip", "xml", "none", "raw", "0", "utf-8", "json"]


def enc_states(tier):
    n = 4 if tier == "quick" else 6
    lv = [("all encodings", [(f, i, e, c, p, ch, fmt) for f in ("t", "tt", "g(t)", "otg(it)", "g(g(t)t)") for i in range(f.count("t")) for e in range(len(ENCODINGS)) for c in ("", "zlib", "gzip") for p in range(4) for ch in (0, 1, 2) for fmt in ("tmx", "json")])]
    for d in range(1, n + 1):
        lv.append(("n=%d" % d, [(f, i, e, "", p, ch, fmt) for f in forests_with(d, "t") for i in range(f.count("t")) for e in (0, 3) for p in (0, 1, 2) for ch in (0, 2) for fmt in ("tmx", "json")]))
    return lv


def check_enc(ctx, st):
    """Tile data in an encoding nobody knows, whatever it looks like."""
    f, i, e, comp, p, ch, fmt = st
    ls = c03.build(f, "distinct")
    ts = tilelayers(ls, [])
    if ch:
        for t in ts:
            t["data"] = {"enc": "base64", "chunks": [{"x": 0, "y": 0, "w": 1, "h": 1, "grid": [[7]]}]}
    sabotage(fmt, ts[i], comp or "", "raw", ch)
    d = ts[i]["data"]
    d["enc"] = "base64"
    if not comp:
        d["nocomp"] = True
    g = [[1, 2], [3, 4]]
    text = [encode(g, "base64", comp), "1,2,3,4", "1234", encode(g, "base64", "zlib")][p]
    d["payload"] = text
    rel = "m" + EXT[fmt]["map"]
    m = M(ls, infinite=bool(ch))
    old = m_.encode
    m_.encode = lambda grid, enc, c, level=-1: text if grid == g else old(grid, enc, c, level)
    name = ENCODINGS[e]
    try:
        if fmt == "json":
            tree = m_.json_map(m)

            def walk(layers):
                for l in layers:
                    if l["type"] == "tilelayer" and text in [l.get("data")] + [c["data"] for c in l.get("chunks", ())]:
                        l["encoding"] = name
                    walk(l.get("layers", ()))

            walk(tree["layers"])
            b = m_.jsn(tree)
        else:
            tree = m_.tmx_map(m)

            def walk(x):
                if x.tag == "data" and any(text in (k.text or "") for k in [x] + x.kids):
                    x.attrs = [(k, name if k == "encoding" else v) for k, v in x.attrs]
                for k in x.kids:
                    walk(k)

            walk(tree)
            b = m_.xml(tree)
    finally:
        m_.encode = old
    if name.encode() not in b:
        raise HarnessError("no encoding %r in %r" % (name, b))
    ctx.put(rel, b)
    demand(ctx, "map", rel, ["ValueError"] if fmt == "tmx" else ["ValueError", "UnknownFormat"], "encoding %r" % name)


TYPES = ["", "objectlayer", "tilelayer ", "TileLayer", "layer", "image", "unknown", "group2", "imageLayer", "tileset", "map", "template", "object"]


def type_states(tier):
    n = 5 if tier == "quick" else 6
    lv = []
    for d in range(1, n + 1):
        out = []
        for f in c03.forests(d):
            k = sum(f.count(x) for x in "toig")
            for i in range(k):
                out += [(f, i, t) for t in (range(len(TYPES)) if d < 3 else (i % len(TYPES), 6))]
        lv.append(("n=%d" % d, out))
    return lv


def check_type(ctx, st):
    f, i, t = st
    d = m_.json_map(M(c03.build(f, "distinct"), c03.refs(1)))
    flat = []

    def walk(ls):
        for l in ls:
            flat.append(l)
            walk(l.get("layers", ()))

    walk(d["layers"])
    flat[i]["type"] = TYPES[t]
    ctx.put("m.tmj", m_.jsn(d))
    demand(ctx, "map", "m.tmj", ["RuntimeError"], "layer type %r" % TYPES[t])


def shape_states(tier):
    return [("collision layers", [(w, i, t) for w in ("embedded", "external", "external-tmx", "standalone") for i in range(3) for t in range(len(TYPES))])]


def check_shape(ctx, st):
    """The collision shapes of a tile are a JSON layer, too."""
    w, i, t = st
    j = m_.json_tileset(TS("s", tiles=[{"id": k, "objects": c03.shapes(k)} for k in range(3)]))
    j["tiles"][i]["objectgroup"]["type"] = TYPES[t]
    if w == "standalone":
        ctx.put("s.tsj", m_.jsn(j))
        return demand(ctx, "tileset", "s.tsj", ["RuntimeError"], "layer type %r" % TYPES[t])
    fmt = "tmx" if w == "external-tmx" else "json"
    if w == "embedded":
        d = m_.json_map(M())
        d["tilesets"] = [dict(j, firstgid=1)]
        ctx.put("m.tmj", m_.jsn(d))
    else:
        ctx.put("s.tsj", m_.jsn(j))
        ctx.put("m" + EXT[fmt]["map"], m_.map_bytes(M([], [{"firstgid": 1, "ts": TS("s"), "src": "s.tsj"}]), fmt))
    demand(ctx, "map", "m" + EXT[fmt]["map"], ["RuntimeError"], "layer type %r" % TYPES[t])


KINDS = ["rect", "ellipse", "point", "polygon", "polyline", "text", "tile"]


def tpl_states(tier):
    n = 3 if tier == "quick" else 5
    lv = [("kinds", [(f, i, p, k, fmt, ts) for f in ("o", "og(o)", "g(o)", "g(g(o))", "tog(io)") for i in range(f.count("o")) for p in range(3) for k in range(7) for fmt in ("tmx", "json") for ts in range(3)])]
    for d in range(1, n + 1):
        lv.append(("n=%d" % d, [(f, i, p, k, fmt, 1) for f in forests_with(d, "o") for i in range(f.count("o")) for p in (0, 1) for k in (0, 6) for fmt in ("tmx", "json")]))
    return lv


def check_tpl(ctx, st):
    f, i, p, k, fmt, ts = st
    other = "json" if fmt == "tmx" else "tmx"
    kind = KINDS[k]
    t = {"object": c14.template(kind, {"name": "n"})}
    tname = "t" + EXT[fmt if ts == 2 else other]["template"]
    if kind == "tile":
        tf = (fmt, other, other)[ts]
        t["src"] = "s" + EXT[tf]["tileset"]
        ctx.put(t["src"], m_.tileset_bytes(TS("s"), tf))
    elif ts == 0:
        t["object"]["props"] = c14.TPROPS[0]
    ctx.put(tname, m_.template_bytes(t, other))
    good = "g" + EXT[fmt]["template"]
    ctx.put(good, m_.template_bytes({"object": c14.template("rect", {})}, fmt))
    ls = c03.build(f, "distinct")
    o = objlayers(ls, [])[i]
    o["objects"] = [{"id": 900, "x": 0, "y": 0}, {"id": 902, "x": 3, "y": 3, "template": good}]
    inst = {"id": 901, "x": 1, "y": 2, "template": tname}
    if kind == "tile" and p == 2:
        inst["gid"] = 3
    o["objects"].insert(p, inst)
    rel = "m" + EXT[fmt]["map"]
    ctx.put(rel, m_.map_bytes(M(ls, [{"firstgid": 1, "ts": TS("s")}]), fmt))
    demand(ctx, "map", rel, ["NotImplementedError"], "a template in the other format")


def image_states(tier):
    n = 5 if tier == "quick" else 6
    return [("n=%d" % d, [(f, i, p) for f in forests_with(d, "i") for i in range(f.count("i")) for p in (0, 1)]) for d in range(1, n + 1)]


def check_image(ctx, st):
    """An XML image layer that has no image."""
    f, i, p = st
    ls = c03.build(f, "distinct")

    def images(ls):
        return [x for l in ls for x in ([l] if l["kind"] == "image" else images(l.get("layers", ())))]

    l = images(ls)[i]
    l["image"] = None
    if p:
        l.update(opacity=0.5, props=[m_.P("image", "file", "i.png")])
    ctx.put("m.tmx", m_.map_bytes(M(ls), "tmx"))
    demand(ctx, "map", "m.tmx", ["RuntimeError"], "an image layer without an image")


HOW = ["embedded", "external", "external-other", "template tileset", "standalone"]


def shape_tpl_states(tier):
    return [("shapes", [(fmt, h, nt, i, n, j, k, x) for fmt in ("tmx", "json") for h in range(len(HOW)) for nt in (1, 2, 3) for i in range(nt) for n in (1, 2, 3) for j in range(n) for k in (0, 3, 5, 6) for x in (0, 1)])]


def check_shape_tpl(ctx, st):
    """Templates among the collision shapes of a tile: nobody knows what they are relative to."""
    fmt, h, nt, i, n, j, k, x = st
    other = "json" if fmt == "tmx" else "tmx"
    sf = other if HOW[h] == "external-other" else fmt
    tname = "t" + EXT[sf]["template"]
    t = {"object": c14.template(KINDS[k], {"name": "n"})}
    if KINDS[k] == "tile":
        t["src"] = "z" + EXT[sf]["tileset"]
        ctx.put(t["src"], m_.tileset_bytes(TS("z"), sf))
    if x:
        # the file is there; otherwise nothing at all is
        ctx.put(tname, m_.template_bytes(t, sf))
    elif os.path.exists(ctx.root + "/" + tname):
        os.unlink(ctx.root + "/" + tname)
    tiles = []
    for a in range(nt):
        objs = [{"id": 10 * a + b, "x": b, "y": 0} for b in range(n)]
        if a == i:
            objs[j] = {"id": 99, "x": 5, "y": 6, "template": tname}
        tiles.append({"id": a, "objects": objs})
    ts = TS("s", tiles=tiles)
    kind, rel = "map", "m" + EXT[fmt]["map"]
    if HOW[h] == "standalone":
        kind, rel = "tileset", "s" + EXT[fmt]["tileset"]
        ctx.put(rel, m_.tileset_bytes(ts, fmt))
    elif HOW[h] == "embedded":
        ctx.put(rel, m_.map_bytes(M([], [{"firstgid": 1, "ts": ts}]), fmt))
    else:
        src = "s" + EXT[sf]["tileset"]
        ctx.put(src, m_.tileset_bytes(ts, sf))
        if HOW[h] == "template tileset":
            ctx.put("u" + EXT[fmt]["template"], m_.template_bytes({"object": c14.template("tile", {}), "src": src}, fmt))
            ctx.put(rel, m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0, "template": "u" + EXT[fmt]["template"]}]}]), fmt))
        else:
            ctx.put(rel, m_.map_bytes(M([], [{"firstgid": 1, "ts": ts, "src": src}]), fmt))
    demand(ctx, kind, rel, ["RuntimeError"], "a template among the collision shapes of a tile")


def spaces():
    one = lambda s: 1
    return [
        Enum("compressions", comp_states, check_comp, edges=one),
        Enum("encodings", enc_states, check_enc, edges=one),
        Enum("layer-types", type_states, check_type, edges=one),
        Enum("collision-layer-types", shape_states, check_shape, edges=one),
        Enum("imageless-layers", image_states, check_image, edges=one),
        Enum("templates-in-collision-shapes", shape_tpl_states, check_shape_tpl, edges=one),
        Enum("templates", tpl_states, check_tpl, edges=one),
    ]
