"""C03: the layer tree."""
from functools import lru_cache
from itertools import product

from .. import grow
from ..core import Enum
from ..model import M, TC, TS
from ..util import check_map

RULE = "states: every ordered forest of up to n layers over the four kinds (only groups have children), with and without embedded tilesets that carry collision shapes; plus sweeps over depth, width and object counts; each saved in both formats, parsed, compared with the reference model (an edge adds one layer)"
ASSUMPTIONS = ["n is 6 (quick) or 7 (thorough); beyond that depth and width are swept separately"]


@lru_cache(None)
def forests(n):
    """All forests with exactly n nodes: strings over t o i g( )."""
    if n == 0:
        return ("",)
    out = []
    for k in range(1, n + 1):
        # first tree has k nodes, the rest n - k
        trees = ["t", "o", "i", "g()"] if k == 1 else ["g(%s)" % f for f in forests(k - 1)]
        for t in trees:
            for r in forests(n - k):
                out.append(t + r)
    return tuple(out)


def build(s, mode):
    """Layers of a forest string. mode: distinct | same (equal names and ids) | noid."""
    pos = [0]
    num = [0]

    def seq():
        ls = []
        while pos[0] < len(s) and s[pos[0]] != ")":
            c = s[pos[0]]
            pos[0] += 1
            num[0] += 1
            n = num[0]
            l = {"id": n, "name": "%s%d" % (c, n)}
            if mode == "same":
                l = {"id": 1, "name": "same"}
            if c == "t":
                l.update(kind="tile", width=2, height=1, data={"grid": [[n, n + 1]]})
            elif c == "o":
                l.update(kind="object", objects=[{"id": n * 10 + i, "x": i, "y": n} for i in range(1 + n % 2)])
            elif c == "i":
                l.update(kind="image", image="i%d.png" % n)
            else:
                pos[0] += 1
                l.update(kind="group", layers=seq())
                pos[0] += 1
            ls.append(l)
        return ls

    return seq()


def shapes(n, k=3):
    return [{"id": i + 1, "x": i, "y": n, "width": 4, "height": 4, "kind": ["rect", "ellipse", "point"][i % 3]} for i in range(k)]


TSETS = [
    [],
    [TS("a", tiles=[{"id": 0, "objects": shapes(0)}, {"id": 3, "objects": shapes(3, 1), "animation": [(1, 100)]}])],
    [TC("b", (0, 4)), TS("c", tiles=[{"id": i, "objects": shapes(i, i + 1)} for i in range(3)])],
    [dict(TC("d", (0, 2)), tiles=[{"id": 0, "image": ("z.png", 8, 8), "objects": shapes(1, 2)}, {"id": 2, "image": ("y.png", 8, 8), "objects": []}])],
]


def refs(k):
    return [{"firstgid": 1 + 100 * i, "ts": t} for i, t in enumerate(TSETS[k])]


def check(ctx, st):
    s, mode, ts = st
    check_map(ctx, M(build(s, mode), refs(ts)))


def levels(tier):
    n = 6 if tier == "quick" else 7
    out = []
    for i in range(n + 1):
        combos = [("distinct", 0), ("distinct", 1), ("same", 0), ("distinct", 2), ("distinct", 3)]
        if i == n:
            combos = combos[:2]
        out.append(("n=%d" % i, [(f, m, t) for f in forests(i) for m, t in combos]))
    return out


def sweeps(tier):
    d = 60 if tier == "quick" else 150
    w = 60 if tier == "quick" else 600
    out = []
    for n in range(1, d + 1):
        for leaf in "toi":
            out.append("g(" * n + leaf + ")" * n)
        out.append("g(t" * n + "o)" * n)
        out.append("g(" * n + ")i" * n)
    for n in range(1, w + 1):
        for c in ("t", "o", "i", "g()", "to", "oi", "it", "g(t)o", "ig(o)", "tg(oi)"):
            out.append(c * n)
            if n % 10 == 0:
                out.append("g(" + c * n + ")")
    return [("depth-width", [(s, "distinct", n % 2) for n, s in enumerate(out)])]


def periodic(tier):
    """All words over the leaf kinds and two groups, repeated: order of long sibling lists."""
    k = 5 if tier == "quick" else 6
    return [("words", [("".join(p), "distinct", 1) for n in range(1, k + 1) for p in product(["t", "o", "i", "g()", "g(o)"], repeat=n)])]


def objects(tier):
    n = 40 if tier == "quick" else 300
    return [("object-counts", [(a, b, w) for a in range(n) for b in (0, 1, 2, 7) for w in (0, 1)])]


def check_objects(ctx, st):
    a, b, w = st
    mk = lambda n, base: [{"id": base + i, "x": i, "y": 0, "name": "o%d" % i, "kind": ("rect", "ellipse", "point")[i % 3]} for i in range(n)]
    A = {"kind": "object", "id": 1, "name": "a", "objects": mk(a, 1000)}
    B = {"kind": "object", "id": 2, "name": "b", "objects": mk(b, 5000)}
    check_map(ctx, M([A, {"kind": "group", "id": 3, "layers": [B]}] if w else [A, B], refs(w)))


# objects that are easily taken for one another
LETTERS = [dict({"id": i, "x": x, "y": 0, "kind": k}, **({"name": "a"} if n else {})) for i in (1, 2) for x, k, n in ((0, "rect", 1), (0, "rect", 0), (8, "rect", 1), (0, "point", 1))]


def words(tier):
    k = 4 if tier == "quick" else 5
    return [("objects alike", [(w, c) for n in range(2, k + 1) for w in product(range(len(LETTERS)), repeat=n) for c in (range(4) if n < 4 else (n % 2,))])]


def check_words(ctx, st):
    w, c = st
    objs = [dict(LETTERS[i]) for i in w]
    cut = len(objs) // 2
    og = lambda os, **k: dict({"kind": "object", "id": 1, "name": "a", "objects": os}, **k)
    if c == 0:
        check_map(ctx, M([og(objs)]))
    elif c == 1:
        check_map(ctx, M([og(objs[:cut]), og(objs[cut:], id=2)]))
    elif c == 2:
        check_map(ctx, M([{"kind": "group", "id": 2, "layers": [og(objs[:cut]), {"kind": "group", "id": 3, "layers": [og(objs[cut:])]}]}]))
    else:
        check_map(ctx, M([og(objs[:1])], [{"firstgid": 1, "ts": TS("a", tiles=[{"id": 0, "objects": objs}, {"id": 1, "objects": objs[cut:]}])}]))


def spaces():
    return [
        Enum("forests", levels, check, edges=lambda s: 1),
        Enum("sibling-words", periodic, check, edges=lambda s: 1),
        Enum("sweeps", sweeps, check, edges=lambda s: 1),
        Enum("object-counts", objects, check_objects, edges=lambda s: 1),
        Enum("objects-alike", words, check_words, edges=lambda s: 1),
        grow.space("C03"),
    ]
