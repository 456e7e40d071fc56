"""C04: layer attributes."""
from .. import dom, grow, wide
from ..core import Dev, Enum
from ..model import M
from ..util import check_map, wrap

RULE = "states: attribute assignments (deviation-bounded, presence lattice, all-set-but-k) of two sibling layers and their parent group; every state is saved as TMX and as JSON, parsed and compared with the reference model"
ASSUMPTIONS = ["documents are as Tiled writes them (JSON always stores name, opacity and visible)"]

COMMON = [
    ("name", dom.STR), ("id", dom.NAT), ("opacity", dom.UNIT), ("visible", dom.BOOLN), ("class", dom.STR),
    ("offsetx", dom.NUM), ("offsety", dom.NUM), ("parallaxx", dom.NUM), ("parallaxy", dom.NUM),
    ("tintcolor", dom.COL), ("repeatx", dom.BOOL), ("repeaty", dom.BOOL), ("props", dom.PROPLISTS),
]
OWN = {
    "tile": [("width", [2, 5, 9, 1]), ("height", [2, 7, 1])],
    "object": [("draworder", ["index", "topdown"]), ("nobj", [1, 2])],
    "image": [("image", dom.PNG), ("trans", dom.COL + ["ff00ff", "102030"])],
    "group": [("nlay", [1, 2])],
}
KINDS = ["tile", "object", "image", "group"]


def layer(kind, at, n):
    at = dict(at)
    l = {"kind": kind, "id": n}
    if kind == "tile":
        w, h = at.pop("width", 3), at.pop("height", 2)
        l.update(width=w, height=h, data={"grid": [[x + w * y + n for x in range(w)] for y in range(h)]})
    elif kind == "image":
        l["image"] = "d%d.png" % n
    elif kind == "object":
        l["objects"] = [{"id": n * 10 + i, "x": i, "y": n} for i in range(at.pop("nobj", 0))]
    else:
        l["layers"] = [layer("image", {"name": "kid"}, n * 10 + i) for i in range(at.pop("nlay", 0))]
    l.update(at)
    return l


def check(ctx, a, c):
    ka, kb, where = c
    A = layer(ka, {k[2:]: v for k, v in a.items() if k[0] == "a"}, 4)
    B = layer(kb, {k[2:]: v for k, v in a.items() if k[0] == "b"}, 5)
    G = {k[2:]: v for k, v in a.items() if k[0] == "g"}
    check_map(ctx, M(wrap([A, B], where, G)))


def lattice(tier):
    out = []
    for kind in KINDS:
        sl = COMMON + OWN[kind]
        n = len(sl)
        out.append((kind, [(kind, b) for b in range(1 << n)]))
    return out


def check_lattice(ctx, st):
    kind, bits = st
    sl = COMMON + OWN[kind]
    at = {n: v[0] for i, (n, v) in enumerate(sl) if bits >> i & 1}
    check_map(ctx, M([layer(kind, at, 4), layer(kind, {}, 5)]))


def many(tier):
    n = 70 if tier == "quick" else 400
    return [("count", [(k, i) for k in KINDS for i in range(n)])]


def check_many(ctx, st):
    """n siblings, every one with its own values of every attribute."""
    kind, n = st
    ls = []
    for i in range(n):
        at = {"name": "L%d" % i, "opacity": (i % 10) / 10, "visible": i % 3 != 0, "class": "c%d" % i}
        if i % 2:
            at["offsetx"] = i + 0.5
        if i % 3 == 1:
            at["offsety"] = -i
        if i % 4 == 1:
            at["parallaxx"] = i / 4
        if i % 4 == 2:
            at["parallaxy"] = i / 8
        if i % 5 == 3:
            at["tintcolor"] = "#%02x%02x%02x" % (i % 256, (i * 7) % 256, (i * 3) % 256)
        if i % 7 == 2:
            at["props"] = [dom.P("k%d" % i, "int", i)]
        ls.append(layer(kind, at, 100 + i))
    check_map(ctx, M(ls))


def spaces():
    out = []
    for ka in KINDS:
        i = KINDS.index(ka)
        ctxs = [(ka, kb, w) for kb, w in ((ka, "top"), (KINDS[(i + 1) % 4], "top"), (ka, "group"), (KINDS[(i + 2) % 4], "group2"))]
        slots = [("a." + n, v) for n, v in COMMON + OWN[ka]]
        slots += [("b." + n, v) for n, v in COMMON[:]]
        slots += [("g." + n, v) for n, v in COMMON if n in ("offsetx", "visible", "class", "props", "opacity", "tintcolor")]
        out.append(
            Dev("attrs-" + ka, slots, check,
                {"quick": [(0, 99), (1, 99), (2, 2)], "thorough": [(0, 99), (1, 99), (2, 6), (3, 1)]},
                contexts=ctxs, dense={"quick": [(0, 99), (1, 4)], "thorough": [(0, 99), (1, 99), (2, 2)]}))
    out.append(Enum("presence-lattice", lattice, check_lattice, edges=lambda s: bin(s[1]).count("1")))
    out.append(Enum("siblings", many, check_many))
    out.append(grow.space("C04"))
    out.append(wide.space("C04"))
    out.append(wide.same("C04"))
    return out
