"""C01: the two formats agree."""
import copy
from itertools import product

from .. import dom
from .. import model as m_
from ..core import Dev, Enum
from ..model import EXT, M, P, TC, TS
from . import c05, c06, c07, c09, c10, c11, c14, c22

RULE = "states: documents reached by up to k editing operations from the empty map (breadth first, equal documents merged) and by up to k attribute edits of a document that uses every feature; each state is saved in both formats with all its tilesets and templates, both are parsed, and the two results are compared with each other (an edge is one editing operation)"
ASSUMPTIONS = [
    "numbers are compared by value where the result type is a float by declaration",
    "class-typed custom properties (unsupported by the library) are left out",
    "both saves of a document are written by this suite's model of Tiled's writers",
]

# ---------------------------------------------------------------------------
# comparison of the two saves
# ---------------------------------------------------------------------------


def strip_file(t):
    """Forget the path of the map file."""
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "TiledMap":
        return (t[0], tuple([f for f in t[1] if f[0] != "map_file"]))
    return t


def exts(doc, fmt):
    return {"own": fmt, "tmx": "tmx", "json": "json"}


def save(ctx, doc, fmt):
    """Write the map and all it refers to. Tilesets marked src are external."""
    d = copy.deepcopy(doc["map"])
    for i, r in enumerate(d["tilesets"]):
        ext = r.pop("ext", None)
        if ext:
            tf = fmt if ext == "own" else ext
            r["src"] = "sets/e%d%s" % (i, EXT[tf]["tileset"])
            ctx.put(r["src"], m_.tileset_bytes(r["ts"], tf))
            r["fmt"] = tf
    for i, t in enumerate(doc["templates"]):
        t = dict(t)
        ts = t.pop("ts", None)
        if ts is not None:
            t["src"] = "../sets/t%d%s" % (i, EXT[fmt]["tileset"])
            ctx.put("sets/t%d%s" % (i, EXT[fmt]["tileset"]), m_.tileset_bytes(ts, fmt))
        ctx.put("tpl/t%d%s" % (i, EXT[fmt]["template"]), m_.template_bytes(t, fmt))

    def fix(ls):
        for l in ls:
            for o in l.get("objects", ()):
                if "tpl" in o:
                    o["template"] = "tpl/t%d%s" % (o.pop("tpl"), EXT[fmt]["template"])
            fix(l.get("layers", ()))

    fix(d["layers"])
    rel = "m" + EXT[fmt]["map"]
    ctx.put(rel, m_.map_bytes(d, fmt))
    return rel


def compare(ctx, doc):
    a = ctx.observe("map", save(ctx, doc, "tmx"))
    b = ctx.observe("map", save(ctx, doc, "json"))
    a, b = m_.loose(strip_file(a)), m_.loose(strip_file(b))
    if a and a[0] == "EXC":
        # neither format may fail on what both can express
        return ctx.fail("parse_map('m.tmx')", "result", "a map", a)
    if b and b[0] == "EXC":
        return ctx.fail("parse_map('m.tmj')", "result", "a map", b)
    if a != b:
        ctx.fail("parse_map('m.tmx') against parse_map('m.tmj')", *(m_.first_diff(a, b) or ("result", a, b)))


# ---------------------------------------------------------------------------
# edit operations: the state is the tuple of operation names
# ---------------------------------------------------------------------------

PROP = [P("s", "string", "v\nw"), P("i", "int", -5), P("f", "float", 2.5), P("b", "bool", True), P("c", "color", "#80010203"), P("p", "file", "../a.png"), P("o", "object", 3), P("e", "string", "")]


def empty():
    return {"map": M(), "templates": []}


class Cur:
    """The document being edited, with the entity the next edit applies to."""

    def __init__(self):
        self.doc = empty()
        self.stack = [self.doc["map"]["layers"]]
        self.kind, self.ent = "map", self.doc["map"]["attrs"]
        self.layer = self.ts = self.tile = self.wset = None
        self.n = 0

    def nid(self):
        self.n += 1
        return self.n


def op_layer(kind):
    def f(c):
        n = c.nid()
        l = {"kind": kind, "id": n, "name": "L%d" % n}
        if kind == "tile":
            l.update(width=2, height=2, data={"grid": [[n, 0x80000001], [0, 7]]})
        elif kind == "object":
            l["objects"] = []
        elif kind == "image":
            l["image"] = "pic%d.png" % n
        else:
            l["layers"] = []
        c.stack[-1].append(l)
        if kind == "group":
            c.stack.append(l["layers"])
        c.layer, c.kind, c.ent = l, kind, l
        return True

    return f


def op_close(c):
    if len(c.stack) < 2:
        return False
    c.stack.pop()
    return True


def op_obj(kind):
    def f(c):
        if not c.layer or c.layer["kind"] != "object":
            return False
        o = c05.obj(kind, c.nid(), {})
        c.layer["objects"].append(o)
        c.kind, c.ent = "obj-" + kind, o
        return True

    return f


def op_inst(kind):
    def f(c):
        if not c.layer or c.layer["kind"] != "object":
            return False
        obj = c14.template(kind, {"name": "tn", "class": ("type", "tc"), "width": 20, "props": c14.TPROPS[0]})
        t = {"object": obj}
        if kind == "tile":
            t["ts"] = TS("tmplset", tiles=[{"id": 2, "class": "w"}])
        c.doc["templates"].append(t)
        n = c.nid()
        o = {"id": n, "x": n, "y": 2 * n, "tpl": len(c.doc["templates"]) - 1}
        c.layer["objects"].append(o)
        c.kind, c.ent = "inst", o
        return True

    return f


def op_ts(ext, coll):
    def f(c):
        i = len(c.doc["map"]["tilesets"])
        t = TC("s%d" % i, (0, 5)) if coll else TS("s%d" % i)
        c.doc["map"]["tilesets"].append({"firstgid": 1 + 100 * i, "ts": t, "ext": ext})
        c.ts, c.kind, c.ent, c.tile, c.wset = t, "ts", t, None, None
        return True

    return f


def op_tile(c):
    if c.ts is None:
        return False
    c.ts.setdefault("tiles", [])
    used = {t["id"] for t in c.ts["tiles"]}
    n = min(i for i in (3, 1, 6, 2, 4, 7, 0) if i not in used)
    t = {"id": n}
    c.ts["tiles"].append(t)
    c.tile, c.kind, c.ent = t, "tile-entry", t
    return True


def op_shape(kind):
    def f(c):
        if c.tile is None:
            return False
        o = c05.obj(kind, c.nid(), {})
        c.tile.setdefault("objects", []).append(o)
        c.kind, c.ent = "obj-" + kind, o
        return True

    return f


def op_wset(c):
    if c.ts is None:
        return False
    w = {"name": "w%d" % c.nid(), "colors": [], "tiles": []}
    c.ts.setdefault("wangsets", []).append(w)
    c.wset, c.kind, c.ent = w, "wset", w
    return True


def op_wcolor(c):
    if c.wset is None:
        return False
    e = {"name": "c%d" % c.nid(), "color": "#102030"}
    c.wset["colors"].append(e)
    c.kind, c.ent = "wcolor", e
    return True


def op_wtile(c):
    if c.wset is None:
        return False
    c.wset["tiles"].append((len(c.wset["tiles"]) * 3 % 7, [1, 0, 2, 0, 1, 0, 2, c.n % 9]))
    return True


def op_prop(i):
    def f(c):
        if c.kind == "map":
            c.doc["map"].setdefault("props", []).append(PROP[i])
        else:
            ps = c.ent.setdefault("props", [])
            if PROP[i] in ps:
                return False
            c.ent["props"] = ps + [PROP[i]]
        return True

    return f


LAY = [("opacity", 0.5), ("visible", False), ("class", "lc"), ("offsetx", 3.5), ("offsety", -2), ("parallaxx", 0.5), ("parallaxy", 2), ("tintcolor", "#80ff0102"), ("repeatx", True), ("repeaty", True)]
OBJ = [("width", 10), ("height", 7.5), ("rotation", 45.5), ("visible", False), ("name", "on"), ("class", "oc")]
ATTRS = {
    "map": [("class", "mc"), ("backgroundcolor", "#102030"), ("orientation", "hexagonal"), ("hexsidelength", 5), ("staggeraxis", "y"), ("staggerindex", "odd"), ("parallaxoriginx", 3), ("parallaxoriginy", -1.5), ("renderorder", "left-up")],
    "tile": LAY + [("data", {"enc": "base64", "comp": "zlib", "grid": [[9, 8], [7, 6]]}), ("data", {"enc": "base64", "comp": "gzip", "grid": [[9, 8], [7, 6]]}), ("data", {"enc": "base64", "grid": [[9, 8], [7, 6]]})],
    "object": LAY + [("draworder", "index")],
    "image": LAY + [("trans", "#ff00ff")],
    "group": LAY,
    "ts": [("spacing", 1), ("margin", 2), ("class", "tc"), ("backgroundcolor", "#80102030"), ("tileoffset", (3, -4)), ("grid", ("isometric", 8, 9)), ("transformations", (1, 0, 1, 0)), ("objectalignment", "top"), ("tilerendersize", "grid"), ("fillmode", "preserve-aspect-fit"), ("version", "1.8"), ("tiledversion", "1.8.1"), ("trans", "#00ff00")],
    "tile-entry": [("class", "ec"), ("animation", [(1, 100), (0, 50)]), ("image", ("ti.png", 10, 12)), ("x", 1), ("y", 2), ("width", 3), ("height", 4)],
    "wset": [("class", "wc"), ("type", "corner"), ("tile", 3)],
    "wcolor": [("class", "cc"), ("probability", 0.25), ("tile", 2)],
    "inst": [("name", "in"), ("class", "ic"), ("width", 3), ("height", 4), ("rotation", 9), ("visible", False)],
}
for k in c05.KINDS:
    ATTRS["obj-" + k] = list(OBJ)
ATTRS["obj-tile"] += [("gid", 0xE0000005)]
ATTRS["obj-polygon"] += [("points", [(0.5, 0.25), (-1, -2)])]
for x, v in [("color", "#80010203"), ("pixelsize", 12), ("fontfamily", "Arial"), ("bold", True), ("italic", True), ("underline", True), ("strikeout", True), ("kerning", False), ("halign", "justify"), ("valign", "center"), ("wrap", True), ("text", "x\ny")]:
    ATTRS["obj-text"].append(("t." + x, v))


def op_attr(i):
    def f(c):
        at = ATTRS[c.kind]
        if i >= len(at):
            return False
        k, v = at[i]
        if k == "trans" and c.kind == "ts" and "image" not in c.ent:
            return False  # the colour is an attribute of the image
        if k.startswith("t."):
            if c.ent["text"].get(k[2:]) == v:
                return False
            c.ent["text"] = dict(c.ent["text"], **{k[2:]: v})
        else:
            if c.ent.get(k) == v:
                return False
            c.ent[k] = v
        return True

    return f


OPS = {}
for k in ("tile", "object", "image", "group"):
    OPS["layer:" + k] = op_layer(k)
OPS["close"] = op_close
for k in c05.KINDS:
    OPS["object:" + k] = op_obj(k)
for k in ("rect", "text", "polygon", "tile"):
    OPS["instance:" + k] = op_inst(k)
for e in (None, "own", "tmx", "json"):
    OPS["tileset:%s" % (e or "embedded")] = op_ts(e, False)
OPS["tileset:collection"] = op_ts(None, True)
OPS["tile"] = op_tile
for k in ("rect", "polyline"):
    OPS["shape:" + k] = op_shape(k)
OPS["wangset"] = op_wset
OPS["wangcolor"] = op_wcolor
OPS["wangtile"] = op_wtile
for i in range(len(PROP)):
    OPS["property:%s" % PROP[i]["type"] + ("-empty" if PROP[i]["value"] == "" else "")] = op_prop(i)
for i in range(max(map(len, ATTRS.values()))):
    OPS["attr:%d" % i] = op_attr(i)


def apply(seq):
    c = Cur()
    for o in seq:
        if not OPS[o](c):
            return None
    return c


def successors(frontier, seen):
    out = []
    for s in frontier:
        for o in OPS:
            c = Cur()
            if not all(OPS[x](c) for x in s) or not OPS[o](c):
                continue
            # two documents are one state if also the cursors agree
            k = hash(repr((c.doc, c.kind, len(c.stack), id(c.ent) and repr(c.ent), c.layer and c.layer["id"], c.tile and c.tile["id"], c.wset and c.wset["name"])))
            if k not in seen:
                seen.add(k)
                out.append(s + (o,))
    return out


def bfs(tier):
    depth = 3 if tier == "quick" else 4
    seen, fr, lv = set(), [()], [("depth=0", [()])]
    for d in range(1, depth + 1):
        fr = successors(fr, seen)
        lv.append(("depth=%d" % d, fr))
        if len(fr) > 2500000:
            break
    return lv


def check_bfs(ctx, st):
    compare(ctx, apply(st).doc)


# ---------------------------------------------------------------------------
# edits of a document that uses everything
# ---------------------------------------------------------------------------

LAYV = [("name", dom.STR), ("opacity", dom.UNIT), ("visible", dom.BOOLN), ("class", dom.STR), ("offsetx", dom.NUM), ("offsety", dom.NUM), ("parallaxx", dom.NUM), ("parallaxy", dom.NUM), ("tintcolor", dom.COL), ("repeatx", dom.BOOL), ("repeaty", dom.BOOL), ("props", dom.PROPLISTS)]
OBJV = [("name", dom.STR), ("x", dom.NUM), ("y", dom.NUM), ("width", dom.NUM), ("height", dom.NUM), ("rotation", dom.NUM), ("visible", dom.BOOLN), ("props", dom.PROPLISTS), ("class", dom.STR)]


def rich(ext="own"):
    ts1 = TS("main", version="1.9", tiles=[{"id": 0, "class": "a", "animation": [(0, 10), (1, 20)]}, {"id": 5, "objects": [c05.obj("rect", 1, {}), c05.obj("polygon", 2, {})], "props": [P("tp", "int", 1)]}],
             wangsets=[{"name": "W", "colors": [{"name": "c", "color": "#010203", "props": [P("cp", "bool", True)]}, {"name": "d", "color": "#040506"}], "tiles": [(0, [1] * 8), (3, [2, 1] * 4)]}])
    ts2 = TC("coll", (0, 4))
    objs = [c05.obj(k, 10 + i, {}) for i, k in enumerate(c05.KINDS)]
    insts = [{"id": 30 + i, "x": i, "y": 2 * i, "tpl": i} for i in range(3)]
    layers = [
        {"kind": "tile", "id": 1, "name": "ground", "width": 3, "height": 2, "data": {"grid": [[1, 2, 3], [0, 0x80000001, 200]]}},
        {"kind": "group", "id": 2, "name": "grp", "layers": [
            {"kind": "object", "id": 3, "name": "objs", "objects": objs},
            {"kind": "image", "id": 4, "name": "img", "image": "bg.png"},
        ]},
        {"kind": "object", "id": 5, "name": "insts", "objects": insts},
    ]
    tpl = [
        {"object": c14.template("rect", {"name": "r", "width": 5, "props": c14.TPROPS[0]})},
        {"object": c14.template("text", {"class": ("type", "tc")})},
        {"object": c14.template("tile", {"width": 16, "height": 16}), "ts": TS("tset", tilecount=4)},
    ]
    m = M(layers, [{"firstgid": 1, "ts": ts1, "ext": ext}, {"firstgid": 100, "ts": ts2}], [P("mp", "string", "x")])
    return {"map": m, "templates": tpl}


def rslots():
    s = [("map." + n, v) for n, v in c22.SLOTS if n != "infinite"]
    for i in ("0", "1", "1.0", "1.1", "2"):
        s += [("layer:%s." % i + n, v) for n, v in LAYV]
    for i, k in enumerate(c05.KINDS):
        s += [("obj:%d." % i + n, v) for n, v in OBJV]
        if k == "text":
            s += [("obj:%d.t." % i + n, v) for n, v in c06.TEXT]
        if k in ("polygon", "polyline"):
            s.append(("obj:%d.points" % i, c05.PTS))
        if k == "tile":
            s.append(("obj:%d.gid" % i, c05.GIDS))
    for i in range(3):
        s += [("inst:%d." % i + n, v) for n, v in OBJV]
    s += [("ts:0." + n, v) for n, v in c09.SLOTS if n not in ("name", "image")]
    s += [("ts:1." + n, v) for n, v in c09.SLOTS if n in ("class", "props", "tileoffset", "grid")]
    for i in range(2):
        s += [("tile:%d." % i + n, v) for n, v in c10.SLOTS if n != "class"]
    s += [("wset." + n, v) for n, v in c11.SET] + [("wcol:%d." % i + n, v) for n, v in c11.COLOR for i in (0, 1)] + [("wset." + n, v) for n, v in c11.TILES]
    s += [("tpl:%d." % i + n, v) for n, v in OBJV if n not in ("x", "y") for i in range(3)]
    return s


def check_rich(ctx, a, ext):
    doc = rich(ext)
    m = doc["map"]
    L = m["layers"]
    at = {
        "map": m["attrs"], "layer:0": L[0], "layer:1": L[1], "layer:1.0": L[1]["layers"][0], "layer:1.1": L[1]["layers"][1], "layer:2": L[2],
        "ts:0": m["tilesets"][0]["ts"], "ts:1": m["tilesets"][1]["ts"], "wset": m["tilesets"][0]["ts"]["wangsets"][0],
    }
    for i, o in enumerate(L[1]["layers"][0]["objects"]):
        at["obj:%d" % i] = o
    for i in range(3):
        at["inst:%d" % i] = L[2]["objects"][i]
        at["tpl:%d" % i] = doc["templates"][i]["object"]
    for i in range(2):
        at["tile:%d" % i] = m["tilesets"][0]["ts"]["tiles"][i]
        at["wcol:%d" % i] = at["wset"]["colors"][i]
    for k, v in a.items():
        if ".t." in k:
            e, n = k.split(".t.")
            at[e]["text"] = dict(at[e]["text"], **{n: v})
            continue
        e, n = k.rsplit(".", 1)
        if e == "map" and n == "props":
            m["props"] = v
        else:
            at[e][n] = v
    compare(ctx, doc)


def check_props(ctx, st):
    carrier, lst = st
    doc = rich()
    ps = [PROPV[i] for i in lst]
    m = doc["map"]
    L = m["layers"]
    if carrier == "map":
        m["props"] = ps
    else:
        {"layer": L[0], "group": L[1], "object": L[1]["layers"][0]["objects"][0], "inst": L[2]["objects"][0], "tset": m["tilesets"][0]["ts"], "tile": m["tilesets"][0]["ts"]["tiles"][0],
         "wset": m["tilesets"][0]["ts"]["wangsets"][0], "wcol": m["tilesets"][0]["ts"]["wangsets"][0]["colors"][0], "tpl": doc["templates"][0]["object"]}[carrier]["props"] = ps
    compare(ctx, doc)


PROPV = [P("p%d" % i, t, v) for i, (t, v) in enumerate(
    [("string", s) for s in dom.STR] + [("int", n) for n in dom.INT] + [("float", n) for n in dom.NUM] + [("bool", b) for b in dom.BOOL] + [("color", c) for c in dom.COL] + [("file", f) for f in dom.PNG] + [("object", n) for n in (0, 1, 77)])]
CARRIERS = ["map", "layer", "group", "object", "inst", "tset", "tile", "wset", "wcol", "tpl"]


def props(tier):
    one = [(c, (i,)) for c in CARRIERS for i in range(len(PROPV))]
    firsts = [0, 1, 3, len(dom.STR), len(dom.STR) + len(dom.INT)] + list(range(len(PROPV) - 20, len(PROPV), 4))
    two = [(c, p) for c in CARRIERS for p in product(firsts if tier == "quick" else range(len(PROPV)), repeat=2) if p[0] != p[1]]
    return [("one", one), ("two", two)]


def infinite(tier):
    from . import c02

    return [("chunks", [(e, c) for e in (0, 2, 3, 4) for n in range(0, 4) for c in product(range(len(c02.CH)), repeat=n) if len(set(c)) == n])]


def check_infinite(ctx, st):
    from . import c02

    e, c = st
    enc, comp, _ = c02.ENC[e]
    ch = [dict(zip("xywh", c02.CH[i]), grid=c02.uniq(*c02.CH[i][2:], 9 * i)) for i in c]
    l = {"kind": "tile", "id": 1, "width": 30, "height": 20, "data": c02.data(enc, comp, chunks=ch)}
    compare(ctx, {"map": M([l, {"kind": "group", "id": 2, "layers": [dict(l, id=3, opacity=0.5)]}], infinite=True), "templates": []})


def spaces():
    return [
        Enum("edit-sequences", bfs, check_bfs, edges=lambda s: len(s) and 1, label=lambda s: " > ".join(s) or "(empty map)"),
        Dev("rich-document", rslots(), check_rich, {"quick": [(0, 99), (1, 99), (2, 1)], "thorough": [(0, 99), (1, 99), (2, 3)]}, contexts=["own"],
            dense={"quick": [(0, 99)], "thorough": [(0, 99), (1, 9)]}),
        Dev("rich-document-tsx", rslots(), check_rich, {"quick": [(0, 99)], "thorough": [(0, 99), (1, 99), (2, 1)]}, contexts=["tmx", "json"]),
        Enum("properties", props, check_props, edges=lambda s: len(s[1])),
        Enum("infinite", infinite, check_infinite, edges=lambda s: len(s[1])),
    ]
