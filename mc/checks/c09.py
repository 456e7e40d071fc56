"""C09: tileset attributes."""
from .. import dom, grow, wide
from .. import model as m_
from ..core import Dev, Enum
from ..model import EXT, M, TC, TS
from ..util import absimg

RULE = "states: attribute assignments (deviation-bounded, presence lattice, all-set-but-k) of a tileset and a second one beside it, embedded, external and standalone; each saved in both formats, parsed and compared with the reference model"
ASSUMPTIONS = ["documents are as Tiled writes them", "tileset names within a map are distinct"]

T16 = [tuple(b >> i & 1 for i in range(4)) for b in (15, 1, 2, 4, 8, 5, 10, 0, 3, 6, 7, 9, 11, 12, 13, 14)]
SLOTS = [
    ("name", [s for s in dom.STR if s != "second"]),
    ("tilewidth", dom.POS), ("tileheight", [9] + dom.POS), ("tilecount", [11, 0, 1, 255, 256, 65536]), ("columns", [3, 0, 1, 255, 256]),
    ("spacing", dom.NAT), ("margin", [5] + dom.NAT),
    ("image", [("a.png", 70, 35), ("../up/b.png", 1, 999999), ("sp ace/日本.png", 256, 256), ("x/./y/../z.png", 3, 4), None, ("unknown.png", None, None), ("w.png", 5, None), ("h.png", None, 6)]),
    ("trans", dom.COL[:4] + ["ff00ff", "102030", "AbCdEf"]),
    ("backgroundcolor", dom.COL),
    ("tileoffset", [(3, -4), (0, 0), (-1, 0), (0, 7), (100, 200)]),
    ("grid", [("isometric", 8, 9), ("orthogonal", 1, 1), ("orthogonal", 256, 300), ("isometric", 0, 0)]),
    ("transformations", T16),
    ("objectalignment", ["topleft", "top", "topright", "left", "center", "right", "bottomleft", "bottom", "bottomright", "unspecified"]),
    ("class", dom.STR), ("tilerendersize", ["grid", "tile"]), ("fillmode", ["preserve-aspect-fit", "stretch"]),
    ("version", ["1.10", "1.0", "1.9", "1.2.3"]), ("tiledversion", ["1.10.2", "2021.03.23", ""]), ("props", dom.PROPLISTS),
]
MODES = ["embedded", "external", "standalone"]


def build(at, base=None):
    t = dict(base or TS("first"))
    t.update(at)
    if t.get("image") is None:
        t.pop("image", None)
    return {k: v for k, v in t.items() if v is not None}


def show(ctx, t1, t2, mode, g1=1, g2=500000):
    for fmt in ("tmx", "json"):
        if fmt == "tmx" and any("trans" in t and "image" not in t for t in (t1, t2)):
            continue  # only JSON stores the transparent colour beside the image
        if mode == "standalone":
            for i, t in enumerate((t1, t2)):
                rel = "s%d%s" % (i, EXT[fmt]["tileset"])
                ctx.put(rel, m_.tileset_bytes(t, fmt))
                ctx.expect("parse_tileset(%r)" % rel, m_.exp_tileset(t, 1, fmt), ctx.observe("tileset", rel))
            continue
        refs = [{"firstgid": g1, "ts": t1}, {"firstgid": g2, "ts": t2}]
        if mode == "external":
            for i, r in enumerate(refs):
                r["src"] = "d%d/e%s" % (i, EXT[fmt]["tileset"])
                ctx.put(r["src"], m_.tileset_bytes(r["ts"], fmt))
        rel = "m" + EXT[fmt]["map"]
        p = ctx.put(rel, m_.map_bytes(M([], refs), fmt))
        img = None if mode == "embedded" else (lambda r: absimg(ctx.root + "/" + r["src"].rsplit("/", 1)[0]))
        ctx.expect("parse_map(%r)" % rel, m_.exp_map(M([], refs), fmt, p, img), ctx.observe("map", rel))


def check(ctx, a, mode):
    at = {k[2:]: v for k, v in a.items() if k[0] == "a"}
    bt = {k[2:]: v for k, v in a.items() if k[0] == "b"}
    show(ctx, build(at), build(bt, TS("second")), mode)


def lattice(tier):
    opt = [s for s in SLOTS if s[0] not in ("name", "tilewidth", "tileheight", "tilecount", "columns", "image")]
    n = len(opt)
    return [(mode, [(mode, b) for b in range(1 << n)]) for mode in (MODES[:1] + MODES[2:] if tier == "quick" else MODES)]


def check_lattice(ctx, st):
    mode, bits = st
    opt = [s for s in SLOTS if s[0] not in ("name", "tilewidth", "tileheight", "tilecount", "columns", "image")]
    at = {n: v[0] for i, (n, v) in enumerate(opt) if bits >> i & 1}
    show(ctx, build(at), build({}, TC("second")), mode)


def firstgids(tier):
    g = [1, 2, 3, 100, 255, 256, 257, 65535, 65536, 2 ** 24, 2 ** 28 - 1]
    n = 60 if tier == "quick" else 300
    return [("firstgid", [("g", a, b, md) for a in g for b in g if a != b for md in MODES[:2]]), ("many", [("n", k, 0, md) for k in range(n) for md in MODES[:2]])]


def check_firstgid(ctx, st):
    kind, a, b, mode = st
    if kind == "g":
        return show(ctx, TS("first"), TS("second"), mode, a, b)
    for fmt in ("tmx", "json"):
        refs = []
        for i in range(a):
            t = TS("t%d" % i, spacing=i) if i % 2 else TC("t%d" % i, range(i % 4))
            if i % 3 == 1:
                t["tileoffset"] = (i, -i)
            if i % 5 == 2:
                t["objectalignment"] = "top"
            if i % 4 == 3:
                t["props"] = [dom.P("k", "int", i)]
            r = {"firstgid": 1 + 10 * i, "ts": t}
            if mode == "external":
                r["src"] = "t%d%s" % (i, EXT[fmt]["tileset"])
                ctx.put(r["src"], m_.tileset_bytes(t, fmt))
            refs.append(r)
        rel = "m" + EXT[fmt]["map"]
        p = ctx.put(rel, m_.map_bytes(M([], refs), fmt))
        img = None if mode == "embedded" else (lambda r: absimg(ctx.root))
        ctx.expect("parse_map(%r)" % rel, m_.exp_map(M([], refs), fmt, p, img), ctx.observe("map", rel))


def spaces():
    sl = [("a." + n, v) for n, v in SLOTS] + [("b." + n, v) for n, v in SLOTS if n != "name"]
    return [
        Dev("attrs", sl, check, {"quick": [(0, 99), (1, 99), (2, 3)], "thorough": [(0, 99), (1, 99), (2, 8), (3, 2)]},
            dense={"quick": [(1, 99), (2, 2)], "thorough": [(1, 99), (2, 5)]}, contexts=MODES),
        Enum("presence-lattice", lattice, check_lattice, edges=lambda s: bin(s[1]).count("1")),
        Enum("first-ids", firstgids, check_firstgid),
        grow.space("C09"),
        wide.space("C09"),
        wide.same("C09"),
    ]
