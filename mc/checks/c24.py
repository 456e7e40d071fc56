"""C24: older JSON shapes."""
import copy
from itertools import product

from .. import dom
from .. import model as m_
from ..core import Dev, Enum
from ..model import B, M, P, TC, TS
from ..util import absimg
from . import c05

RULE = "states: which places of a JSON document are in an older shape (up to k places, all-but-k, and the full lattice over the map's and over a tileset's places), for tilesets embedded, external or standalone and several property contents; each is parsed and compared with the reference model of the current shape, with documented defaults for what is absent"
ASSUMPTIONS = ["the older property shape carries no types, so only string, number and boolean properties are compared", "columns absent means 1, layer id and next layer id absent mean None, Tiled version absent means the empty string"]

PV = [
    [P("s", "string", "v"), P("i", "int", 5), P("f", "float", 1.5), P("b", "bool", False)],
    [P("value", "string", "#ff0000"), P("type", "string", "int"), P("name", "string", "n")],
    [],
    [P("", "string", ""), P("é日", "string", "ü"), P("neg", "int", -7), P("t", "bool", True), P("1", "int", 0)],
    [P("k%d" % i, "int", i) for i in range(25)],
]


def pdict(l):
    return {p["name"]: p["value"] for p in l}


# what only the current shape can hold; a place in the older shape goes without
EXTRA = [P("xc", "color", "#80102030"), P("xf", "file", "a/b.c"), P("xo", "object", 4), P("xi", "float", 2)]


def base(pv):
    ps = PV[pv] + EXTRA
    t1 = TS("one", version="1.9", tiledversion="1.9.2", props=ps, columns=4,
            tiles=[{"id": 0, "class": "tc", "props": ps, "animation": [(1, 100)]}, {"id": 10, "image": ("i.png", 8, 9), "class": "kc", "classkey": "class"},
                   {"id": 5, "objects": [dict(c05.obj("rect", 1, {}), props=ps, **{"class": "shape"}), c05.obj("polygon", 2, {})]}],
            wangsets=[{"name": "W", "colors": [{"name": "c", "color": "#010203", "props": ps}], "tiles": [(0, [1] * 8)], "props": ps}])
    t2 = TC("two", (0, 4), version="1.8")
    objs = [dict(c05.obj(k, 10 + i, {}), props=ps, **{"class": "oc%d" % i}) for i, k in enumerate(c05.KINDS)]
    layers = [
        {"kind": "tile", "id": 1, "name": "t", "class": "lc", "width": 2, "height": 1, "data": {"grid": [[1, 2]]}, "props": ps},
        {"kind": "group", "id": 2, "name": "g", "props": ps, "layers": [
            {"kind": "object", "id": 3, "name": "o", "objects": objs, "props": ps},
            {"kind": "image", "id": 4, "name": "i", "image": "x.png", "props": ps},
        ]},
    ]
    return layers, t1, t2


# place -> variants; "val" entries pick the old value
SLOTS = [
    ("map.props", ["dict"]), ("map.version", [1.0, 1.1, 1, 1.9, 2]), ("map.infinite", ["absent"]), ("map.nextlayerid", ["absent"]), ("map.tiledversion", ["absent"]),
    ("layer.t.props", ["dict"]), ("layer.g.props", ["dict"]), ("layer.o.props", ["dict"]), ("layer.i.props", ["dict"]),
    ("layer.t.id", ["absent"]), ("layer.g.id", ["absent"]), ("layer.o.id", ["absent"]), ("layer.i.id", ["absent"]),
    ("obj0.props", ["dict"]), ("obj4.props", ["dict"]), ("objs.props", ["dict"]), ("obj0.class", ["class", "type", "both"]), ("obj5.class", ["class", "both"]), ("objs.class", ["class", "both"]),
    ("ts.props", ["dict"]), ("ts.version", [1.2, 1, 1.0]), ("ts.columns", ["absent"]), ("ts.tiles", ["dict", "dict-reversed"]), ("ts.tiledversion", ["absent"]), ("ts2.columns", ["absent"]), ("ts2.tiles", ["dict"]), ("ts2.version", [1.4]),
    ("tile0.props", ["dict"]), ("tile0.class", ["class", "both"]), ("tile10.class", ["type", "both"]), ("shape.props", ["dict"]), ("shape.class", ["class", "both"]),
    ("wang.props", ["dict"]), ("wcol.props", ["dict"]),
]
MODES = ["embedded", "external", "external-tmx-map", "standalone"]
CONTEXTS = [(m, p) for m in MODES for p in range(len(PV))]


def renamed(o, how):
    """The class under its name in Tiled 1.9; "both": an empty one under the other name as well."""
    o["class"] = o.pop("type")
    if how == "both":
        o["type"] = ""


def old_tileset(j, e, a, ps, pre, first):
    """Turn JSON tileset j into the older shapes; e is its model."""
    def has(n):
        return pre + n in a

    if has(".props"):
        j["properties"] = pdict(ps)
        e["props"] = ps
    if has(".version"):
        v = a[pre + ".version"]
        j["version"] = v
        e["version"] = str(v)
    if has(".columns"):
        del j["columns"]
        e["columns"] = 1
    if has(".tiledversion"):
        del j["tiledversion"]
        e.pop("tiledversion")
    if first:
        by = {t["id"]: t for t in j["tiles"]}
        eby = {t["id"]: t for t in e["tiles"]}
        if "tile0.props" in a:
            by[0]["properties"] = pdict(ps)
            eby[0]["props"] = ps
        if "tile0.class" in a:
            renamed(by[0], a["tile0.class"])
        if "tile10.class" in a:
            if a["tile10.class"] == "both":
                by[10]["type"] = ""
            else:
                by[10]["type"] = by[10].pop("class")
        sh = by[5]["objectgroup"]["objects"][0]
        if "shape.props" in a:
            sh["properties"] = pdict(ps)
            eby[5]["objects"][0]["props"] = ps
        if "shape.class" in a:
            renamed(sh, a["shape.class"])
        w = j["wangsets"][0]
        if "wang.props" in a:
            w["properties"] = pdict(ps)
            e["wangsets"][0]["props"] = ps
        if "wcol.props" in a:
            w["colors"][0]["properties"] = pdict(ps)
            e["wangsets"][0]["colors"][0]["props"] = ps
    if has(".tiles"):
        ts = j["tiles"]
        if a[pre + ".tiles"] == "dict-reversed":
            ts = ts[::-1]
        j["tiles"] = {str(t["id"]): {k: v for k, v in t.items() if k != "id"} for t in ts}


def check(ctx, a, c):
    mode, pv = c
    ps = PV[pv]
    layers, t1, t2 = base(pv)
    j1, j2 = m_.json_tileset(t1), m_.json_tileset(t2)
    e1, e2 = copy.deepcopy(t1), copy.deepcopy(t2)
    old_tileset(j1, e1, a, ps, "ts", True)
    old_tileset(j2, e2, a, ps, "ts2", False)
    if mode == "standalone":
        for n, j, e in (("a.tsj", j1, e1), ("b.tsj", j2, e2)):
            ctx.put(n, m_.jsn(j))
            ctx.expect("parse_tileset(%r)" % n, m_.exp_tileset(e, 1, "json"), ctx.observe("tileset", n))
        return
    m = M(layers, [{"firstgid": 1, "ts": t1}, {"firstgid": 100, "ts": t2}], ps + EXTRA)
    em = copy.deepcopy(m)
    em["tilesets"][0]["ts"], em["tilesets"][1]["ts"] = e1, e2
    img = None
    if mode != "embedded":
        ctx.put("s/a.tsj", m_.jsn(j1))
        ctx.put("s/b.tsj", m_.jsn(j2))
        img = lambda r: absimg(ctx.root + "/s")
    if mode == "external-tmx-map":
        for r, n in zip(m["tilesets"], "ab"):
            r["src"] = "s/%s.tsj" % n
        for r in em["tilesets"]:
            r["fmt"] = "json"
        p = ctx.put("m.tmx", m_.map_bytes(m, "tmx"))
        ctx.expect("parse_map('m.tmx')", m_.exp_map(em, "tmx", p, img), ctx.observe("map", "m.tmx"))
        return
    d = m_.json_map(m)
    if mode == "embedded":
        d["tilesets"] = [dict(j1, firstgid=1), dict(j2, firstgid=100)]
    else:
        d["tilesets"] = [{"firstgid": 1, "source": "s/a.tsj"}, {"firstgid": 100, "source": "s/b.tsj"}]
    at = em["attrs"]
    if "map.props" in a:
        d["properties"] = pdict(ps)
        em["props"] = ps
    if "map.version" in a:
        d["version"] = a["map.version"]
        at["version"] = str(a["map.version"])
    for k in ("infinite", "nextlayerid", "tiledversion"):
        if "map." + k in a:
            del d[k]
            del at[k]
    ls = {"t": (d["layers"][0], em["layers"][0]), "g": (d["layers"][1], em["layers"][1]), "o": (d["layers"][1]["layers"][0], em["layers"][1]["layers"][0]), "i": (d["layers"][1]["layers"][1], em["layers"][1]["layers"][1])}
    for k, (jl, el) in ls.items():
        if "layer.%s.props" % k in a:
            jl["properties"] = pdict(ps)
            el["props"] = ps
        if "layer.%s.id" % k in a:
            del jl["id"]
            el.pop("id")
    for i, o in enumerate(ls["o"][0]["objects"]):
        if "objs.props" in a or "obj%d.props" % i in a:
            o["properties"] = pdict(ps)
            ls["o"][1]["objects"][i]["props"] = ps
        how = a.get("obj%d.class" % i, a.get("objs.class", "type"))
        if how != "type" and "type" in o:
            renamed(o, how)
    p = ctx.put("m.tmj", m_.jsn(d))
    ctx.expect("parse_map('m.tmj')", m_.exp_map(em, "json", p, img), ctx.observe("map", "m.tmj"))


def lattice(tier):
    a = ["map.props", "map.version", "map.infinite", "map.nextlayerid", "map.tiledversion", "layer.t.props", "layer.t.id", "layer.o.props", "obj0.props", "objs.class", "ts.props", "ts.version", "ts.columns", "ts.tiles"]
    b = ["ts.props", "ts.version", "ts.columns", "ts.tiles", "ts.tiledversion", "tile0.props", "tile0.class", "tile10.class", "shape.props", "shape.class", "wang.props", "wcol.props"]
    out = [("map", [("e", x, 0) for x in range(1 << len(a))])]
    return out + [("tileset", [("s", x, pv) for x in range(1 << len(b)) for pv in ((0,) if tier == "quick" else range(len(PV)))])]


def lat_assign(st):
    a = lat_names[st[0]]
    d = dict(SLOTS)
    return {n: d[n][0] for i, n in enumerate(a) if st[1] >> i & 1}


lat_names = {
    "e": ["map.props", "map.version", "map.infinite", "map.nextlayerid", "map.tiledversion", "layer.t.props", "layer.t.id", "layer.o.props", "obj0.props", "objs.class", "ts.props", "ts.version", "ts.columns", "ts.tiles"],
    "s": ["ts.props", "ts.version", "ts.columns", "ts.tiles", "ts.tiledversion", "tile0.props", "tile0.class", "tile10.class", "shape.props", "shape.class", "wang.props", "wcol.props"],
}


def check_lattice(ctx, st):
    check(ctx, lat_assign(st), ("embedded" if st[0] == "e" else "standalone", st[2]))


VALS = dom.STR + dom.INT + dom.NUM + [True, False]


def values(tier):
    return [("values", [(i, w) for i in range(len(VALS)) for w in range(4)])]


def check_value(ctx, st):
    """Each value at each carrier, in the older shape."""
    i, w = st
    v = VALS[i]
    typ = "bool" if isinstance(v, bool) else "string" if isinstance(v, str) else "int" if isinstance(v, int) else "float"
    ps = [P("v", typ, v), P("w", "string", "x")]
    o = {"id": 1, "x": 0, "y": 0}
    l = {"kind": "object", "id": 1, "name": "l", "objects": [o]}
    t = TS("t", tiles=[{"id": 3}])
    m = M([l], [{"firstgid": 1, "ts": t}])
    if w == 0:
        m["props"] = ps
    else:
        [None, l, o, t["tiles"][0]][w]["props"] = ps
    d = m_.json_map(m)
    e = [d, d["layers"][0], d["layers"][0]["objects"][0], d["tilesets"][0]["tiles"][0]][w]
    e["properties"] = pdict(ps)
    p = ctx.put("m.tmj", m_.jsn(d))
    ctx.expect("parse_map('m.tmj')", m_.exp_map(m, "json", p), ctx.observe("map", "m.tmj"))


MAPOLD = ["props", "version", "infinite", "nextlayerid", "tiledversion", "layerids"]
CONTENT = [(), ("object",), ("group",), ("image",), ("tile",), ("chunks",), ("object", "tile"), ("group", "image"), ("deep",)]


def minimal(tier):
    """Every mix of the map's own older places over documents with almost nothing in them."""
    return [("minimal", [(x, c, t, e) for x in range(1 << len(MAPOLD)) for c in range(len(CONTENT)) for t in range(3) for e in range(3)])]


def min_layer(k, i):
    b = {"id": i, "name": k}
    if k == "object":
        return dict(b, kind="object", objects=[])
    if k == "group":
        return dict(b, kind="group", layers=[])
    if k == "deep":
        return dict(b, kind="group", layers=[dict(min_layer("chunks", i + 1), name="d")])
    if k == "image":
        return dict(b, kind="image", image="i.png")
    if k == "tile":
        return dict(b, kind="tile", width=1, height=1, data={"grid": [[0]]})
    return dict(b, kind="tile", width=1, height=1, data={"chunks": [{"x": 0, "y": 0, "w": 1, "h": 1, "grid": [[0]]}]})


def check_minimal(ctx, st):
    x, c, t, e = st
    old = {n for i, n in enumerate(MAPOLD) if x >> i & 1}
    ls = [min_layer(k, 1 + 4 * i) for i, k in enumerate(CONTENT[c])]
    ts = [[], [{"firstgid": 1, "ts": TS("a")}], [{"firstgid": 1, "ts": TS("a")}, {"firstgid": 9, "ts": TC("b", (0, 3))}]][t]
    # e: no properties at all, none in an empty container, one
    m = M(ls, ts, [None, [], [P("p", "bool", True)]][e], infinite=bool({"chunks", "deep"} & set(CONTENT[c])) or t == 2)
    d = m_.json_map(m)
    at = m["attrs"]
    if "props" in old and "props" in m:
        d["properties"] = pdict(m["props"])
    if "version" in old:
        d["version"] = 1.4
        at["version"] = "1.4"
    for k in ("infinite", "nextlayerid", "tiledversion"):
        if k in old:
            d.pop(k, None)
            at.pop(k, None)

    def strip(js, ls):
        for j, l in zip(js, ls):
            j.pop("id", None)
            l.pop("id", None)
            strip(j.get("layers", []), l.get("layers", []))

    if "layerids" in old:
        strip(d["layers"], m["layers"])
    p = ctx.put("m.tmj", m_.jsn(d))
    ctx.expect("parse_map('m.tmj')", m_.exp_map(m, "json", p), ctx.observe("map", "m.tmj"))


def tids(tier):
    pool = [0, 1, 2, 9, 10, 11, 100, 255, 65536]
    from itertools import permutations

    return [("id-keyed", [(c, w) for n in range(0, 4) for c in permutations(pool, n) for w in (0, 1)])]


def check_tids(ctx, st):
    c, w = st
    tiles = [{"id": i, "class": "c%d" % i, "x": i} for i in c]
    t = TS("t", tiles=tiles)
    j = m_.json_tileset(t)
    j["tiles"] = {str(x["id"]): {k: v for k, v in m_.json_tile(x).items() if k != "id"} for x in tiles}
    if not c:
        del j["tiles"]
    if w:
        ctx.put("t.tsj", m_.jsn(j))
        ctx.expect("parse_tileset", m_.exp_tileset(t, 1, "json"), ctx.observe("tileset", "t.tsj"))
    else:
        d = m_.json_map(M())
        d["tilesets"] = [dict(j, firstgid=1)]
        p = ctx.put("m.tmj", m_.jsn(d))
        ctx.expect("parse_map", m_.exp_map(M([], [{"firstgid": 1, "ts": t}]), "json", p), ctx.observe("map", "m.tmj"))


def own_ids(tier):
    """ID-keyed tiles with an ID of their own: which of the two counts is unknown."""
    from itertools import combinations, permutations

    pool = (0, 1, 7)
    return [("own-ids", [(c, own, v, w) for n in (1, 2, 3) for c in permutations(pool, n) for r in range(1, n + 1) for own in combinations(range(n), r) for v in range(3) for w in (0, 1)])]


def check_own_ids(ctx, st):
    c, own, v, w = st
    j = m_.json_tileset(TS("t", tiles=[{"id": i, "class": "c%d" % i} for i in c]))
    j["tiles"] = {str(i): {"class": "c%d" % i} for i in c}
    for k in own:
        j["tiles"][str(c[k])]["id"] = [c[k], c[k] + 20, str(c[k])][v]
    ctx.put("t.tsj", m_.jsn(j))
    ctx.put("m.tmj", m_.jsn(dict(m_.json_map(M()), tilesets=[dict(j, firstgid=1)])))
    obs = ctx.observe(*(("tileset", "t.tsj") if w else ("map", "m.tmj")))
    if obs[0] != "EXC":
        ctx.fail("parse_%s" % ("tileset" if w else "map"), "result", "an error", obs)


def spaces():
    return [
        Dev("old-shapes", SLOTS, check, {"quick": [(0, 99), (1, 99), (2, 2)], "thorough": [(0, 99), (1, 99), (2, 9), (3, 1)]}, contexts=CONTEXTS,
            dense={"quick": [(0, 99), (1, 9)], "thorough": [(0, 99), (1, 9), (2, 9)]}),
        Enum("presence-lattice", lattice, check_lattice, edges=lambda s: bin(s[1]).count("1"), label=lambda s: ", ".join(lat_assign(s))),
        Enum("minimal", minimal, check_minimal, edges=lambda s: bin(s[0]).count("1")),
        Enum("property-values", values, check_value, edges=lambda s: 1),
        Enum("own-ids", own_ids, check_own_ids, edges=lambda s: 1),
        Enum("id-keyed-tiles", tids, check_tids, edges=lambda s: len(s[0])),
    ]
