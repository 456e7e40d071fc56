"""C07: custom properties."""
from itertools import permutations

from .. import dom, grow, wide
from . import c13
from .. import model as m_
from ..core import Enum
from ..model import EXT, M, P, TS
from ..util import check_map
from . import c24

RULE = "states: property lists (every type x value, every pair and triple of typed properties, long lists) on every carrier, and every pair of carriers with different lists; each saved in both formats, parsed and compared (values and Python types) with the reference model"
ASSUMPTIONS = ["documents are as Tiled writes them", "class-typed properties are unsupported: only their effect on the other properties is judged"]

CARRIERS = [
    "map", "tile-layer", "object-layer", "image-layer", "group", "nested-layer", "rect", "ellipse", "point", "polygon", "polyline", "text", "tile-object",
    "nested-object", "tileset", "tileset2", "tile", "tile2", "shape", "wangset", "wangset2", "wangcolor", "wangcolor2",
]

VALUES = {
    "string": dom.STR + ["two\nlines", "\n", "a\n", "\nb", "l1\nl2\nl3 <&>", "3", "3.5", "yes", " \n "],
    "int": [3, 0, -1, 1, 2, 255, 65536, 2147483647, -2147483648, 4294967295, 9007199254740993, 10],
    "float": [1.5, 0, 2, -0.25, 1e-07, 1e21, 123456789.125, 0.1, -3, 100, 1e300, -2.5e-300, 1.7976931348623157e308, 5e-324, 16777217.5, 3.4e38, 3.5e38],
    "bool": [True, False],
    "color": dom.COL,
    "file": ["a.txt", "../x/y.png", "/abs/p.q", "sp ace/日本.x", "./a", "a/../b", "C:/x/y", "x", "http://h/p?q=1"] + [n for n in c13.NAMES if "\t" not in n],
    "object": [4, 0, 1, 99999, 2147483647],
    "class": [{}, {"a": "b"}],
}
NAMES = dom.STR + ["value", "type", "id", "gid", "properties", "x", "p p", "propertytype"]


def doc(props):
    """A map with every carrier; props: carrier -> list."""

    def w(name, d):
        if name in props:
            d["props"] = props[name]
        return d

    tiles = [
        w("tile", {"id": 0, "objects": [w("shape", {"id": 1, "x": 1, "y": 2})]}),
        w("tile2", {"id": 1, "class": "c"}),
    ]
    ws = [
        w("wangset", {"name": "w1", "colors": [w("wangcolor", {"name": "c1", "color": "#010203"}), w("wangcolor2", {"name": "c2", "color": "#040506"})], "tiles": [(0, [0, 1, 0, 1, 0, 1, 0, 1])]}),
        w("wangset2", {"name": "w2", "colors": [], "tiles": []}),
    ]
    t1 = w("tileset", TS("one", tiles=tiles, wangsets=ws))
    t2 = w("tileset2", TS("two"))
    objs = [w("rect", {"id": 1, "x": 0, "y": 0}), w("ellipse", {"kind": "ellipse", "id": 2, "x": 0, "y": 0}), w("point", {"kind": "point", "id": 3, "x": 0, "y": 0}),
            w("polygon", {"kind": "polygon", "id": 4, "x": 0, "y": 0, "points": [(0, 0), (1, 1)]}), w("polyline", {"kind": "polyline", "id": 5, "x": 0, "y": 0, "points": [(0, 0), (1, 1)]}),
            w("text", {"kind": "text", "id": 6, "x": 0, "y": 0, "text": {"text": "t"}}), w("tile-object", {"kind": "tile", "gid": 2, "id": 7, "x": 0, "y": 0})]
    layers = [
        w("tile-layer", {"kind": "tile", "name": "t", "id": 1, "width": 1, "height": 1, "data": {"grid": [[1]]}}),
        w("object-layer", {"kind": "object", "name": "o", "id": 2, "objects": objs}),
        w("image-layer", {"kind": "image", "name": "i", "id": 3, "image": "i.png"}),
        w("group", {"kind": "group", "name": "g", "id": 4, "layers": [w("nested-layer", {"kind": "object", "name": "n", "id": 5, "objects": [w("nested-object", {"id": 9, "x": 0, "y": 0})]})]}),
    ]
    return M(layers, [{"firstgid": 1, "ts": t1}, {"firstgid": 20, "ts": t2}], props=props.get("map"))


def forget(tree, names):
    """Drop the entries of unsupported properties."""
    if isinstance(tree, tuple):
        if len(tree) == 2 and tree[0] == "dict":
            return ("dict", tuple((k, forget(v, names)) for k, v in tree[1] if k not in names))
        return tuple([forget(x, names) for x in tree])
    return tree


def check_props(ctx, props):
    m = doc(props)
    unsup = {repr(p["name"]) for l in props.values() for p in l if p["type"] == "class"}
    if not unsup:
        return check_map(ctx, m)
    for fmt in ("tmx", "json"):
        rel = "m" + EXT[fmt]["map"]
        p = ctx.put(rel, m_.map_bytes(m, fmt))
        ctx.expect("parse_map(%r)" % rel, forget(m_.exp_map(m, fmt, p), unsup), forget(ctx.observe("map", rel), unsup))


TYPES = [t for t in VALUES]


def singles(tier):
    return [
        ("value", [(c, "p", t, i) for c in range(len(CARRIERS)) for t in TYPES for i in range(len(VALUES[t]))]),
        ("name", [(c, n, t, 0) for c in range(len(CARRIERS)) for n in NAMES for t in ("string", "bool", "file")]),
        ("string-type-spelled-out", [(c, "p", "string", i, True) for c in range(len(CARRIERS)) for i in range(len(VALUES["string"]))]),
    ]


def check_single(ctx, st):
    c, n, t, i = st[:4]
    check_props(ctx, {CARRIERS[c]: [dict(P(n, t, VALUES[t][i]), typed=len(st) > 4)]})


def lists(tier):
    nv = 2 if tier == "quick" else 4
    tv = [(t, i) for t in TYPES for i in range(min(nv, len(VALUES[t])))]
    car = range(len(CARRIERS))
    out = [("pairs", [(c, (a, b)) for c in car for a in tv for b in tv])]
    tv1 = [(t, 0) for t in TYPES]
    cs = [0, 2, 6, 14, 16, 19, 21] if tier == "quick" else car
    out.append(("triples", [(c, (a, b, d)) for c in cs for a in tv1 for b in tv1 for d in tv1]))
    if tier != "quick":
        out.append(("quadruples", [(c, (a, b, d, e)) for c in (0, 6) for a in tv1 for b in tv1 for d in tv1 for e in tv1]))
    out.append(("orders", [(c, tuple((t, 0) for t in perm)) for c in (cs[:3] if tier == "quick" else cs) for perm in permutations(["string", "int", "bool", "color", "file"])]))
    n = 120 if tier == "quick" else 400
    out.append(("long", [(c, tuple((TYPES[(j * 5 + i) % 8], j % 2) for j in range(i))) for c in car for i in range(0, n, 1 if tier != "quick" else 5)]))
    return out


def check_list(ctx, st):
    c, l = st
    check_props(ctx, {CARRIERS[c]: [P("k%d" % i, t, VALUES[t][v]) for i, (t, v) in enumerate(l)]})


def cross(tier):
    n = len(CARRIERS)
    return [("carrier-pairs", [(a, b, v) for a in range(n) for b in range(n) if a != b for v in range(3)]), ("carrier-subsets", [("sub", s) for s in range(1 << (10 if tier == "quick" else 15))])]


def check_cross(ctx, st):
    if st[0] == "sub":
        props = {c: [P("k", "string", c), P("k" + c, "int", i)] for i, c in enumerate(CARRIERS) if st[1] >> (i * 7 % 15) & 1}
        return check_props(ctx, props)
    a, b, v = st
    la = [P("k", "int", 1), P("only-a", "string", "a")]
    lb = [[P("k", "int", 2), P("only-b", "bool", True)], [], [P("k", "string", "other")]][v]
    check_props(ctx, {CARRIERS[a]: la, CARRIERS[b]: lb})


def spaces():
    return [
        Enum("older-shape", c24.values, c24.check_value, edges=lambda s: 1),
        Enum("singles", singles, check_single, edges=lambda s: 1),
        Enum("lists", lists, check_list, edges=lambda s: len(s[1])),
        Enum("leakage", cross, check_cross, edges=lambda s: 2),
        grow.space("C07"),
        wide.space("C07"),
        wide.same("C07"),
    ]
