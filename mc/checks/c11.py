"""C11: wang sets."""
from itertools import product

from .. import dom, grow, wide
from ..core import Dev, Enum
from ..model import P, TS
from . import c09

RULE = "states: all shapes (sets x colours x tiles) up to the bound and attribute assignments (deviation-bounded) of two wang sets with two colours each, in embedded, external and standalone tilesets; each saved in both formats, parsed and compared with the reference model"
ASSUMPTIONS = ["documents are as Tiled writes them", "a tile occurs at most once in a wang set"]

MODES = c09.MODES
WID = [[0, 1, 0, 2, 0, 1, 0, 2], [1, 2, 3, 4, 5, 6, 7, 8], [0] * 8, [8, 7, 6, 5, 4, 3, 2, 1], [255, 0, 254, 0, 16, 0, 15, 0], [1, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 1]]
SET = [
    ("name", dom.STR), ("class", dom.STR), ("type", ["corner", "edge", "mixed"]), ("tile", [3, -1, 0, 1, 255, 65536]), ("props", dom.PROPLISTS),
]
COLOR = [
    ("name", dom.STR), ("class", dom.STR), ("color", dom.COL), ("probability", [0.5, 0, 1, 2, 0.01, 100, 0.333333333, 1e-05, 12345.678]), ("tile", [3, -1, 0, 1, 255, 65536]), ("props", dom.PROPLISTS),
]
TILES = [("tiles", [[(4, WID[0]), (2, WID[1])], [], [(0, WID[2])], [(7, WID[3]), (0, WID[4]), (100, WID[5]), (65536, WID[6])], [(i, [i % 9] * 8) for i in range(20)]])]


def base(n):
    return {"name": "w%d" % n, "colors": [{"name": "c%d%d" % (n, i), "color": "#0%d0%d0%d" % (n, i, n)} for i in range(2)], "tiles": [(n, WID[n % 7])]}


def show(ctx, sets, mode, sets2=None):
    t2 = TS("second")
    if sets2 is not None:
        t2["wangsets"] = sets2
    c09.show(ctx, TS("first", wangsets=sets), t2, mode)


def check(ctx, a, mode):
    ws = [base(1), base(2)]
    for k, v in a.items():
        part, n = k.split(".")
        w = ws[int(part[1])]
        if part[0] == "s":
            w[n] = v
        else:
            w["colors"][int(part[2])][n] = v
    show(ctx, ws, mode)


def shapes(tier):
    # every list of up to n sets with 0..3 colours and 0..3 tiles each
    n = 2 if tier == "quick" else 3
    one = [(c, t) for c in range(4) for t in range(4)]
    lv = []
    for k in range(n + 1):
        ms = MODES if k < 3 else MODES[:1]
        lv.append(("sets-%d" % k, [(md, s) for md in ms for s in product(one, repeat=k)]))
    m = 40 if tier == "quick" else 256
    lv.append(("colors", [(md, ((i, i),)) for md in MODES for i in range(m)]))
    lv.append(("many-sets", [(md, ((1, 2),) * i) for md in MODES[:2] for i in range(m)]))
    return lv


def check_shape(ctx, st):
    mode, s = st
    ws = []
    for i, (c, t) in enumerate(s):
        cs = []
        for j in range(c):
            d = {"name": "c%d.%d" % (i, j), "color": "#%02x%02x%02x" % (i % 256, j % 256, (i * j) % 256), "tile": j - 1, "probability": (i + j) / 4}
            if (i + j) % 3 == 1:
                d["class"] = "k%d" % j
            if (i + j) % 4 == 2:
                d["props"] = [P("q%d" % j, "int", j)]
            cs.append(d)
        w = {"name": "w%d" % i, "colors": cs, "tiles": [((j * 3 + i) % 997, [(i + j + x) % (c + 1) for x in range(8)]) for j in range(t)], "type": ["corner", "edge", "mixed"][i % 3]}
        if i % 2:
            w["class"] = "wc%d" % i
        ws.append(w)
    show(ctx, ws, mode, [base(5)])


def ids(tier):
    v = [0, 1, 15, 254, 255] if tier == "quick" else list(range(0, 256, 5))
    return [("wang-id", [(p, x, y) for p in range(8) for x in v for y in v])]


def check_ids(ctx, st):
    p, x, y = st
    w = [0] * 8
    w[p], w[(p + 3) % 8] = x, y
    show(ctx, [{"name": "w", "colors": [], "tiles": [(1, w), (0, w[::-1])]}], "standalone")


def spaces():
    sl = [("s%d.%s" % (i, n), v) for i in range(2) for n, v in SET + TILES] + [("c%d%d.%s" % (i, j, n), v) for i in range(2) for j in range(2) for n, v in COLOR]
    return [
        Dev("attrs", sl, check, {"quick": [(0, 99), (1, 99), (2, 2)], "thorough": [(0, 99), (1, 99), (2, 6), (3, 1)]},
            dense={"quick": [(1, 99), (2, 2)], "thorough": [(1, 99), (2, 5)]}, contexts=MODES),
        Enum("shapes", shapes, check_shape, edges=lambda s: min(1, len(s[1]))),
        Enum("wang-ids", ids, check_ids),
        grow.space("C11"),
        wide.space("C11"),
        wide.same("C11"),
    ]
