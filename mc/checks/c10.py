"""C10: tiles of a tileset."""
from itertools import permutations, product

from .. import dom, grow, wide
from ..core import Dev, Enum
from ..model import P, TS
from . import c09

RULE = "states: sets and orders of tile entries over sparse ids, all frame sequences up to a length over a small frame alphabet, and attribute assignments (deviation-bounded, presence lattice) of two tiles, in embedded, external and standalone tilesets; each saved in both formats, parsed and compared with the reference model"
ASSUMPTIONS = ["documents are as Tiled writes them", "tile ids within a tileset are distinct"]

OBJS = [
    [{"id": 1, "x": 1, "y": 2, "width": 3, "height": 4}],
    [],
    [{"kind": "ellipse", "id": 2, "x": 0.5, "y": 0}, {"kind": "polygon", "id": 1, "x": 0, "y": 0, "points": [(0, 0), (1, 1), (2, -1)]}],
    [{"kind": "polyline", "id": 7, "x": -1, "y": 0, "points": [(0, 0), (9, 9)]}, {"kind": "point", "id": 8, "x": 0, "y": 0}, {"id": 9, "x": 1, "y": 1, "props": [P("deep", "int", 1)]}],
]
ANIM = [[(0, 100), (1, 200)], [], [(5, 0)], [(3, 1), (3, 2), (3, 3)], [(i, 1000 - i) for i in range(12)], [(9, 65536), (0, 1)]]
SLOTS = [
    ("class", [("type", "wall"), ("class", "floor")] + [(k, s) for s in dom.STR[1:] for k in ("type", "class")]),
    ("animation", ANIM), ("objects", OBJS), ("props", dom.PROPLISTS),
    ("image", [("a.png", 20, 30), ("../b.png", 1, 1), ("sub/日本.png", 256, 300), ("x.png", 0, 0), ("unknown.png", None, None), ("w.png", 5, None), ("h.png", None, 6)]),
    ("x", [4, 0, 1, 255, 256]), ("y", [6, 0, 1, 255]), ("width", [10, 0, 1, 300]), ("height", [12, 0, 1, 300]),
]
MODES = c09.MODES


def tile(n, at):
    t = {"id": n}
    t.update(at)
    if "class" in t:
        t["classkey"], t["class"] = t["class"]
    return t


def show(ctx, tiles, mode, tiles2=None):
    t1 = TS("first", tiles=tiles, tilecount=1000)
    t2 = TS("second", tiles=tiles2)
    c09.show(ctx, t1, {k: v for k, v in t2.items() if v is not None}, mode)


def check(ctx, a, mode):
    A = tile(a.get("a.id", 2), {k[2:]: v for k, v in a.items() if k[0] == "a" and k != "a.id"})
    B = tile(5, {k[2:]: v for k, v in a.items() if k[0] == "b"})
    show(ctx, [A, B], mode)


def ids(tier):
    pool = [0, 1, 2, 5, 7, 10, 100, 255, 256, 65536]
    lv = []
    for n in range(0, 4 if tier == "quick" else 5):
        lv.append(("orders-%d" % n, [(md, s) for md in MODES for s in permutations(pool, n)]))
    k = 10 if tier == "quick" else 14
    lv.append(("subsets", [("embedded", tuple(i for i in range(k) if b >> i & 1)) for b in range(1 << k)]))
    n = 300 if tier == "quick" else 1500
    lv.append(("runs", [(md, ("run", i)) for md in MODES for i in range(0, n, 3)]))
    return lv


def check_ids(ctx, st):
    mode, s = st
    if s and s[0] == "run":
        s = range(s[1])
    tiles = []
    for j, i in enumerate(s):
        at = [
            {"class": ("type", "c%d" % i)}, {"animation": [(i, 10 + j), (j, 20)]}, {"objects": [{"id": 1, "x": i, "y": j}]},
            {"props": [P("k%d" % i, "int", j)]}, {"image": ("i%d.png" % i, 10 + j, 20 + j)}, {},
        ][(i + j) % 6]
        tiles.append(tile(i, at))
    show(ctx, tiles, mode, [tile(i, {"class": ("class", "s%d" % i)}) for i in (0, 1)])


def lattice(tier):
    return [(m, [(m, b) for b in range(1 << len(SLOTS))]) for m in MODES]


def check_lattice(ctx, st):
    mode, bits = st
    at = {n: v[0] for i, (n, v) in enumerate(SLOTS) if bits >> i & 1}
    show(ctx, [tile(2, at), tile(5, {})], mode)


FRAMES = [(2, 100), (0, 100), (2, 50), (7, 0), (0, 0), (1, 100)]


def animations(tier):
    n = 5 if tier == "quick" else 6
    return [("frames-%d" % k, [("embedded", s) for s in product(range(len(FRAMES) if k < n else 3), repeat=k)]
             + ([(m, s) for m in MODES[1:] for s in product(range(3), repeat=k)] if k < n else [])) for k in range(0, n + 1)]


def check_animations(ctx, st):
    mode, seq = st
    show(ctx, [tile(2, {"animation": [FRAMES[i] for i in seq]}), tile(5, {"animation": [FRAMES[i] for i in seq[:1]]})], mode)


def spaces():
    sl = [("a.id", [0, 1, 4, 6, 255, 256, 65535, 999])] + [("a." + n, v) for n, v in SLOTS] + [("b." + n, v) for n, v in SLOTS]
    return [
        Dev("attrs", sl, check, {"quick": [(0, 99), (1, 99), (2, 3), (3, 1)], "thorough": [(0, 99), (1, 99), (2, 6), (3, 3), (4, 1)]},
            dense={"quick": [(1, 99), (2, 2)], "thorough": [(1, 99), (2, 4)]}, contexts=MODES),
        Enum("ids", ids, check_ids),
        Enum("animations", animations, check_animations),
        Enum("presence-lattice", lattice, check_lattice, edges=lambda s: bin(s[1]).count("1")),
        grow.space("C10"),
        wide.space("C10"),
        wide.same("C10"),
    ]
