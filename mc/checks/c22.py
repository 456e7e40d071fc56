"""C22: map attributes."""
from .. import dom, wide
from ..core import Dev, Enum
from .. import model as m_
from ..model import M, TS
from ..util import check_map

RULE = "states: attribute assignments of a map (up to k deviations, the full presence lattice of the optional attributes, all-set-but-k), each saved in both formats, parsed and compared with the reference model; plus ways of naming the map file"
ASSUMPTIONS = ["attributes that Tiled always writes are always present (older shapes are covered by C24)"]

VER = ["1.10", "1.0", "1.1", "1", "2.0", "1.8.4", "0.18.2", "", "v1", "10"]
SLOTS = [
    ("orientation", ["isometric", "orthogonal", "staggered", "hexagonal"]),
    ("renderorder", ["left-up", "right-down", "right-up", "left-down"]),
    ("width", [7, 1, 2, 100, 65536, 0]), ("height", [5, 1, 2, 101, 65537, 0]),
    ("tilewidth", [33, 1, 2, 256, 70]), ("tileheight", [17, 1, 2, 255, 71]),
    ("infinite", [True, False]),
    ("nextlayerid", dom.NAT), ("nextobjectid", dom.NAT),
    ("version", VER), ("tiledversion", ["1.10.2", "1.9.2", "", "2023.01.01", "1", "1.4"]),
    ("class", dom.STR), ("backgroundcolor", dom.COL),
    ("hexsidelength", [9, 0, 1, 255, 1000, -1]), ("staggeraxis", ["x", "y"]), ("staggerindex", ["even", "odd"]),
    ("parallaxoriginx", dom.NUM), ("parallaxoriginy", dom.NUM), ("props", dom.PROPLISTS),
]
# what surrounds the attributes
CONTEXTS = ["bare", "full"]
OPTIONAL = ["class", "backgroundcolor", "hexsidelength", "staggeraxis", "staggerindex", "parallaxoriginx", "parallaxoriginy", "props", "nextlayerid", "infinite", "tiledversion", "orientation"]


def doc(a, c):
    a = dict(a)
    props = a.pop("props", None)
    if c == "bare":
        return M([], [], props, **a)
    layers = [
        {"kind": "tile", "id": 1, "name": "t", "class": "tc", "width": 3, "height": 2, "data": {"grid": [[1, 2, 3], [4, 5, 6]]}, "props": [dom.P("lp", "int", 1)], "parallaxx": 0.5, "tintcolor": "#010203"},
        {"kind": "object", "id": 2, "name": "o", "class": "oc", "objects": [{"id": 3, "x": 1, "y": 2, "class": "k", "props": [dom.P("op", "string", "v")]}]},
    ]
    if a.get("infinite"):
        layers[0]["data"] = {"chunks": [{"x": 0, "y": 0, "w": 3, "h": 2, "grid": [[1, 2, 3], [4, 5, 6]]}]}
    return M(layers, [{"firstgid": 1, "ts": TS("ts", version="0.9", tiledversion="0.1", backgroundcolor="#a0b0c0d0", props=[dom.P("tp", "bool", True)], **{"class": "tsclass"})}], props, **a)


def check(ctx, a, c):
    check_map(ctx, doc(a, c))


def lattice(tier):
    n = len(OPTIONAL)
    return [("presence", [(b, c) for b in range(1 << n) for c in CONTEXTS])]


def check_lattice(ctx, st):
    b, c = st
    d = dict(SLOTS)
    check_map(ctx, doc({k: d[k][0] for i, k in enumerate(OPTIONAL) if b >> i & 1}, c))


NAMES = ["m", "a b", "日本", "x.y", "UPPER.TMX", "-", "map.json", "map.tsx", "noext", "ends.", ".hidden", "sub/dir/m", "sub.dir/m.tmx", "a%20b", "(1)", "\u00e9"]


def names(tier):
    return [("names", [(n, f, how) for n in NAMES for f in ("tmx", "json") for how in range(4)])]


def check_name(ctx, st):
    """The reported path is the very path the caller gave (absolute, relative, not normalised)."""
    import os
    from pathlib import Path

    n, fmt, how = st
    m = doc({}, "bare")
    p = ctx.put("cwd/" + n, m_.map_bytes(m, fmt))
    os.makedirs(ctx.root + "/cwd/sub", exist_ok=True)
    old = os.open(".", os.O_RDONLY)
    try:
        os.chdir(ctx.root + "/cwd")
        given = [Path(p), Path(n), Path("../cwd") / n, Path(ctx.root + "/cwd/sub/..") / n][how]
        obs = ctx.observe("map", None, given)
        ctx.expect("parse_map(%r)" % given, m_.exp_map(m, fmt, given), obs)
        if os.getcwd() != os.path.realpath(ctx.root + "/cwd"):
            ctx.fail("parse_map", "current directory", "unchanged", os.getcwd())
    finally:
        os.fchdir(old)
        os.close(old)


NUMVER = [1, 2, 0, 10, 1.0, 1.1, 1.2, 1.10, 0.9, 2.5, 1.25, 100]


def numeric(tier):
    return [("numeric", [(v, c, i, j) for v in NUMVER for c in CONTEXTS for i in range(len(VER)) for j in (0, 1)])]


def check_numeric(ctx, st):
    """Older JSON saves store the version as a number."""
    v, c, i, j = st
    m = doc({"version": v, "tiledversion": VER[i], "infinite": bool(j)}, c)
    p = ctx.put("m.tmj", m_.map_bytes(m, "json"))
    ctx.expect("parse_map('m.tmj')", m_.exp_map(dict(m, attrs=dict(m["attrs"], version=str(v))), "json", p), ctx.observe("map", "m.tmj"))


def spaces():
    return [
        Dev("attrs", SLOTS, check, {"quick": [(0, 99), (1, 99), (2, 5), (3, 2)], "thorough": [(0, 99), (1, 99), (2, 99), (3, 4), (4, 1)]},
            contexts=CONTEXTS, dense={"quick": [(0, 99), (1, 99), (2, 3)], "thorough": [(0, 99), (1, 99), (2, 9), (3, 2)]}),
        Enum("presence-lattice", lattice, check_lattice, edges=lambda s: bin(s[0]).count("1")),
        Enum("numeric-versions", numeric, check_numeric, edges=lambda s: 1),
        Enum("file-names", names, check_name, edges=lambda s: 1),
        wide.space("C22"),
        wide.same("C22"),
    ]
