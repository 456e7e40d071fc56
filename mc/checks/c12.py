"""C12: tileset references."""
import json
import os
from itertools import permutations, product

from .. import dom, grow
from .. import model as m_
from ..core import Enum, Hang
from ..model import EXT, M, P, TC, TS
from ..util import absimg
from . import c09, c10, c11

RULE = "states: sequences of tileset references over {embedded, TSX, JSON} x contents (same or distinct files) x first-id layouts, and every tileset/tile/wang feature in each of the six map x form combinations; the parsed tileset mapping is compared with the reference model"
ASSUMPTIONS = ["first global ids of one map are distinct"]

POOL = [
    TS("alpha", spacing=2, margin=1, tileoffset=(1, -2), props=[P("k", "int", 1)], tiles=[{"id": 3, "class": "c", "animation": [(0, 10), (1, 20)]}], **{"class": "kls"}),
    TC("beta", (0, 4, 9), grid=("isometric", 3, 4), backgroundcolor="#80010203"),
    TS("gamma", trans="#ff00ff", wangsets=[c11.base(1)], transformations=(1, 0, 1, 0), tiles=[{"id": 0, "objects": [{"id": 1, "x": 1, "y": 2}]}, {"id": 7, "props": [P("z", "string", "q")]}]),
]
FORMS = ["emb", "tmx", "json"]
LAYOUTS = ["ascending", "descending", "gaps", "middle-first"]


def gids(n, layout):
    g = [1 + 20 * i for i in range(n)]
    if layout == "descending":
        g = g[::-1]
    elif layout == "gaps":
        g = [5 + 300 * i * i for i in range(n)]
    elif layout == "middle-first":
        g = g[n // 2:] + g[: n // 2]
    return g


def own_gid(b, form, n):
    """The file with a first id of its own (Tiled ignores it)."""
    if form == "tmx":
        return b.replace(b"<tileset ", b'<tileset firstgid="%d" ' % n, 1)
    return m_.jsn(dict(json.loads(b), firstgid=n))


def show(ctx, refs, mapfmt, layers=(), stale=None):
    """refs: list of (form, tileset, file stem, firstgid)."""
    out = []
    for form, ts, stem, g in refs:
        r = {"firstgid": g, "ts": ts}
        if form != "emb":
            r["src"] = stem + EXT[form]["tileset"]
            b = m_.tileset_bytes(ts, form)
            ctx.put(r["src"], b if stale is None else own_gid(b, form, stale))
        out.append(r)
    rel = "m" + EXT[mapfmt]["map"]
    m = M(list(layers), out)
    p = ctx.put(rel, m_.map_bytes(m, mapfmt))

    def img(r):
        return absimg(ctx.root + "/" + (r["src"].rsplit("/", 1)[0] if "/" in r["src"] else ".")) if "src" in r else m_.path

    obs = ctx.observe("map", rel)
    ctx.expect("parse_map(%r)" % rel, m_.exp_map(m, mapfmt, p, img), obs)


def seqs(tier):
    one = [(f, c) for f in range(3) for c in range(3)]
    lv = []
    for n in range(0, 4 if tier == "quick" else 5):
        lay = LAYOUTS if n > 1 else LAYOUTS[:1]
        if n == 4:
            lay = LAYOUTS[1:2]
        lv.append(("refs-%d" % n, [(mf, s, l) for mf in ("tmx", "json") for l in lay for s in product(one, repeat=n)]))
    k = 40 if tier == "quick" else 200
    lv.append(("many", [(mf, tuple(((i + j) % 3, (i * j) % 3) for j in range(i)), l) for mf in ("tmx", "json") for i in range(4, k) for l in LAYOUTS]))
    return lv


def check_seq(ctx, st):
    mf, s, layout = st
    g = gids(len(s), layout)
    refs = []
    for i, (f, c) in enumerate(s):
        # the same content in the same form is the same file referenced again
        refs.append((FORMS[f], POOL[c], "d%d/%s" % (c, POOL[c]["name"]), g[i]))
    tiles = {"kind": "tile", "name": "t", "id": 1, "width": max(1, len(g)), "height": 1, "data": {"grid": [g or [0]]}}
    show(ctx, refs, mf, [tiles])


def features(tier):
    combos = [(mf, f) for mf in ("tmx", "json") for f in FORMS]
    ts = [("ts", n, i) for n, v in c09.SLOTS for i in range(len(v))]
    ts += [("tile", n, i) for n, v in c10.SLOTS for i in range(len(v))]
    ts += [("wset", n, i) for n, v in c11.SET + c11.TILES for i in range(len(v))]
    ts += [("wcol", n, i) for n, v in c11.COLOR for i in range(len(v))]
    lv = [("one", [(mf, f, (x,)) for mf, f in combos for x in ts])]
    few = [x for x in ts if x[2] < (2 if tier == "quick" else 4)]
    lv.append(("two", [(mf, f, (x, y)) for mf, f in combos for i, x in enumerate(few) for y in few[:i] if (x[0], x[1]) != (y[0], y[1])]))
    return lv


def check_feature(ctx, st):
    mf, form, fs = st
    at, tl, ws, wc = {}, {}, c11.base(3), c11.base(3)["colors"][0]
    ws["colors"][0] = wc
    used = False
    for kind, n, i in fs:
        if kind == "ts":
            at[n] = dict(c09.SLOTS)[n][i]
        elif kind == "tile":
            tl[n] = dict(c10.SLOTS)[n][i]
        elif kind == "wset":
            ws[n], used = dict(c11.SET + c11.TILES)[n][i], True
        else:
            wc[n], used = dict(c11.COLOR)[n][i], True
    t = c09.build(at)
    if tl:
        t["tiles"] = [c10.tile(2, tl), {"id": 4}]
    if used:
        t["wangsets"] = [ws]
    show(ctx, [(form, t, "sub/t", 7)], mf)


def stales(tier):
    return [("own first id", [(mf, f, n) for mf in ("tmx", "json") for f in product(FORMS, repeat=2) for n in (0, 1, 5, 21, 400)])]


def check_stale(ctx, st):
    mf, f, n = st
    refs = [(x, POOL[i], "d/%d" % i, g) for i, (x, g) in enumerate(zip(f, (5, 21)))]
    show(ctx, refs, mf, stale=n)


# -- the same file from maps of both formats -------------------------------------------


def whole():
    t = dict(POOL[2], tiles=[{"id": 0, "class": "k", "props": [P("z", "int", 1)], "animation": [(0, 10), (1, 20)], "objects": [{"id": 1, "x": 1, "y": 2}, {"id": 2, "x": 1, "y": 2, "kind": "tile", "gid": 2}]}, {"id": 7, "props": [P("z", "string", "q")]}],
             spacing=2, margin=1, tileoffset=(1, -2), grid=("isometric", 3, 4), backgroundcolor="#80010203", props=[P("k", "int", 1)], version="1.9", tiledversion="1.9.2", **{"class": "kls"})
    return [t, dict(POOL[1], props=[P("k", "bool", True)]), TS("plain", tilecount=1, columns=1)]


def addresses(x, at=()):
    """Every key or attribute of a tree, as a path."""
    out = []
    if isinstance(x, dict):
        for k, v in x.items():
            out += [at + (k,)] + addresses(v, at + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out += addresses(v, at + (i,))
    elif isinstance(x, m_.E):
        out += [at + ("@" + k,) for k, v in x.attrs if v is not None]
        for i, k in enumerate(x.kids):
            out += [at + (i,)] + addresses(k, at + (i,))
    return out


def without(x, paths, at=()):
    if isinstance(x, dict):
        return {k: without(v, paths, at + (k,)) for k, v in x.items() if at + (k,) not in paths}
    if isinstance(x, list):
        return [without(v, paths, at + (i,)) for i, v in enumerate(x)]
    if isinstance(x, m_.E):
        return m_.E(x.tag, [(k, v) for k, v in x.attrs if at + ("@" + k,) not in paths], [without(k, paths, at + (i,)) for i, k in enumerate(x.kids) if at + (i,) not in paths], x.text)
    return x


def tree_of(i, fmt):
    t = whole()[i]
    return json.loads(m_.tileset_bytes(t, "json")) if fmt == "json" else m_.tmx_tileset(t)


def cuts(tier):
    out = {1: [], 2: []}
    for fmt in ("json", "tmx"):
        for i in range(3):
            a = addresses(tree_of(i, fmt))
            out[1] += [(fmt, i, ())] + [(fmt, i, (x,)) for x in a]
            top = a if tier != "quick" else [x for x in a if len(x) < 3]
            out[2] += [(fmt, i, (x, y)) for k, x in enumerate(top) for y in top[:k]]
    return [("one", out[1]), ("two", out[2])]


def unplaced(tree, root):
    """Without what the way to the file decides: first global ids and relative or absolute image paths."""
    if isinstance(tree, tuple):
        if len(tree) == 2 and tree[0] == "path" and isinstance(tree[1], str):
            return ("path", os.path.normpath(os.path.join(root, tree[1])))
        if len(tree) == 2 and tree[0] == "firstgid":
            return ("firstgid", 0)
        return tuple(unplaced(x, root) for x in tree)
    return tree


def check_cut(ctx, st):
    fmt, i, paths = st
    t = without(tree_of(i, fmt), set(paths))
    src = "d/t" + EXT[fmt]["tileset"]
    ctx.put(src, m_.jsn(t) if fmt == "json" else m_.xml(t))
    seen = []

    def run(call, f):
        try:
            seen.append((call, f()))
        except Hang:
            raise
        except Exception as e:
            seen.append((call, ("EXC", type(e).__name__)))

    for mf in ("tmx", "json"):
        ctx.put("m" + EXT[mf]["map"], m_.map_bytes(M([], [{"firstgid": 5, "ts": whole()[i], "src": src}]), mf))
        run("the tileset of m" + EXT[mf]["map"], lambda: m_.dump(ctx.call("map", ctx.path("m" + EXT[mf]["map"])).tilesets[5]))
    a, b = seen
    ctx.seen(a[1])
    if a[1] != b[1]:
        w = m_.first_diff(a[1], b[1], "tileset") or ("tileset", a[1], b[1])
        return ctx.fail("%s, without %r: %s against %s" % (src, paths, b[0], a[0]), *w)
    run("parse_tileset(%r)" % src, lambda: m_.dump(ctx.call("tileset", ctx.path(src))))
    c = seen[2]
    x, y = unplaced(a[1], ctx.root + "/d"), unplaced(c[1], ctx.root + "/d")
    if x != y and not (x[0] == y[0] == "EXC"):
        w = m_.first_diff(x, y, "tileset") or ("tileset", x, y)
        return ctx.fail("%s, without %r: %s against %s" % (src, paths, c[0], a[0]), *w)


# files that are alike in name, content or place
STEMS = ["t", "a/t", "b/t", "a/b/t", "T", "a/T", "tt", "b/../t", "./a/t", "t.t"]


def alike(tier):
    out = []
    for k in (2, 3):
        n = len(STEMS) if k == 2 or tier != "quick" else 6
        for s in product(range(n), repeat=k):
            for fs in product(range(3 if k == 2 else 2), repeat=k):
                for same in range(3):
                    out += [(mf, s, fs, same) for mf in ("tmx", "json")]
    return [("places", out)]


def check_alike(ctx, st):
    """same: 0 the tilesets differ, 1 they have one name, 2 they have one image and size too."""
    mf, s, fs, same = st
    ctx.wipe()
    refs = []
    for i, (k, f) in enumerate(zip(s, fs)):
        p = (os.path.normpath(STEMS[k]), FORMS[f + (len(s) > 2)])
        n = sum(map(ord, repr(p)))
        t = TS("n%d" % n if not same else "n", tilecount=8 if same == 2 else n % 50 + 1, props=[P("which", "string", repr(p))])
        if same == 2:
            t["tiles"] = [{"id": 0, "class": repr(p)}]
        elif same:
            t["image"] = ("img/%d.png" % n, n, n)
        refs.append((p[1], t, STEMS[k], 1 + 100 * i))
    os.makedirs(ctx.root + "/b", exist_ok=True)
    os.makedirs(ctx.root + "/a/b", exist_ok=True)
    show(ctx, refs, mf)


def spaces():
    return [
        Enum("alike", alike, check_alike, edges=lambda s: len(s[1])),
        Enum("same-file", cuts, check_cut, edges=lambda s: len(s[2])),
        Enum("own-first-ids", stales, check_stale, edges=lambda s: 1),
        Enum("sequences", seqs, check_seq, edges=lambda s: min(1, len(s[1]))),
        Enum("features", features, check_feature, edges=lambda s: len(s[2])),
        grow.space("C12"),
    ]
