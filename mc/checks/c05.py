"""C05: object kinds and geometry."""
from itertools import product

from .. import dom, grow, wide
from ..core import Dev, Enum
from ..model import KINDCLS, M, TS
from ..util import check_map, wrap

RULE = "states: object sequences over all kinds (every sequence up to the depth), geometry assignments of two sibling objects, bit patterns of global ids, point list lengths and object counts, in every container; each saved in both formats, parsed and compared with the reference model"
ASSUMPTIONS = ["documents are as Tiled writes them", "local objects only (template instances are C14 and C15)"]

KINDS = list(KINDCLS)
WHERE = ["top", "group", "group2", "tile"]
PTS = [
    [(0, 0), (10, 0.5), (-3.25, 7)], [(0, 0)], [(-1, -2), (3, 4)], [(0.1, 0.2), (0.1, 0.2), (0.1, 0.2), (1e-07, 1e21)],
    [(1, 0), (0, 1)], [(5, 5), (5, -5), (-5, -5), (-5, 5), (5, 5)], [(i, -i) for i in range(11)],
]
GIDS = [1, 7, 0x80000001, 0x40000002, 0x20000003, 0xE0000004, 0x10000005, 0xF0000006, 0xFFFFFFFF, 255, 256, 65536, 0x0FFFFFFF, 0x80000000]


def obj(kind, n, at):
    o = {"kind": kind, "id": n, "x": 16 * n, "y": 8 * n}
    if kind in ("polygon", "polyline"):
        o["points"] = [(0, 0), (n, 1), (2, n + 0.5)]
    elif kind == "tile":
        o["gid"] = n + 1
    elif kind == "text":
        o["text"] = {"text": "t%d" % n}
    o.update(at)
    return o


def place(objs, where):
    if where == "tile":
        t = TS(tiles=[{"id": 3, "objects": objs}, {"id": 5, "objects": [obj("ellipse", 77, {})]}])
        return M([{"kind": "object", "id": 1, "objects": [obj("point", 78, {})]}], [{"firstgid": 1, "ts": t}])
    other = {"kind": "object", "name": "other", "id": 60, "objects": [obj("ellipse", 79, {})]}
    return M(wrap([{"kind": "object", "name": "objs", "id": 50, "objects": objs}, other], where))


def check_geom(ctx, a, c):
    ka, kb, where = c
    A = obj(ka, 3, {k[2:]: v for k, v in a.items() if k[0] == "a"})
    B = obj(kb, 4, {k[2:]: v for k, v in a.items() if k[0] == "b"})
    check_map(ctx, place([A, B], where))


def slots(kind, pre):
    s = [("id", dom.NAT), ("x", dom.NUM), ("y", dom.NUM), ("width", dom.NUM), ("height", dom.NUM), ("rotation", dom.NUM + [45, 90, 180, 270, 359.5, -90])]
    if kind in ("polygon", "polyline"):
        s.append(("points", PTS))
    if kind == "tile":
        s.append(("gid", GIDS))
    return [(pre + n, v) for n, v in s]


def seqs(tier):
    d = {"quick": (4, 3), "thorough": (5, 5)}[tier]
    out = []
    for n in range(0, d[0] + 1):
        ws = WHERE if n <= d[1] else ["top"]
        out.append(("len%d" % n, [(w, s) for w in ws for s in product(range(7), repeat=n)]))
    return out


def check_seq(ctx, st):
    where, s = st
    objs = []
    for i, k in enumerate(s):
        # sizes only on some, so that leaking one shows
        at = {"width": 5 + i, "height": 7 + i} if (i + k) % 2 else {}
        if (i + k) % 3 == 1:
            at["rotation"] = 10 * (i + 1)
        objs.append(obj(KINDS[k], i + 1, at))
    check_map(ctx, place(objs, where))


def gids(tier):
    lv = [("one-bit", [1 << b for b in range(32)]), ("two-bit", [1 << a | 1 << b for a in range(32) for b in range(a)])]
    flips = [f << 28 for f in range(16)]
    top = 260 if tier == "quick" else 1200
    lv.append(("flips", [f | i for f in flips for i in list(range(1, top)) + [2 ** k - 1 for k in range(9, 29)] + [2 ** k + 1 for k in range(9, 28)]]))
    return lv


def check_gid(ctx, g):
    check_map(ctx, place([obj("tile", 1, {"gid": g}), obj("rect", 2, {})], "top"))


def counts(tier):
    n = 160 if tier == "quick" else 700
    return [("objects", [("objs", w, i) for w in ("top", "tile") for i in range(n)]), ("points", [(k, "top", i) for k in ("polygon", "polyline") for i in range(1, n)])]


def check_count(ctx, st):
    k, where, n = st
    if k == "objs":
        objs = [obj(KINDS[(i * 3 + n) % 7], i + 1, {"width": i % 5} if i % 4 == 0 else {}) for i in range(n)]
    else:
        objs = [obj(k, 1, {"points": [(i * 0.5, (i * 7919) % 101 - 50) for i in range(n)]}), obj(k, 2, {})]
    check_map(ctx, place(objs, where))


def spaces():
    out = []
    for i, k in enumerate(KINDS):
        ctxs = [(k, k, "top"), (k, KINDS[(i + 2) % 7], "tile"), (k, KINDS[(i + 3) % 7], "group")]
        out.append(
            Dev("geom-" + k, slots(k, "a.") + slots(ctxs[0][1], "b."), check_geom,
                {"quick": [(0, 99), (1, 99), (2, 5)], "thorough": [(0, 99), (1, 99), (2, 10), (3, 4)]},
                dense={"quick": [(1, 99), (2, 3)], "thorough": [(1, 99), (2, 9), (3, 3)]}, contexts=ctxs[:1]))
        out.append(
            Dev("geom-%s-nested" % k, slots(k, "a."), check_geom,
                {"quick": [(0, 99), (1, 99), (2, 3)], "thorough": [(0, 99), (1, 99), (2, 10), (3, 4)]}, contexts=ctxs[1:]))
    out.append(Enum("sequences", seqs, check_seq, edges=lambda s: min(1, len(s[1]))))
    out.append(Enum("gid-bits", gids, check_gid))
    out.append(Enum("counts", counts, check_count))
    out.append(grow.space("C05"))
    out.append(wide.space("C05"))
    out.append(wide.same("C05"))
    return out
