"""C15: global ids of template tile objects."""
import os
from itertools import combinations, permutations, product

from .. import grow
from .. import model as m_
from ..core import Enum
from ..model import EXT, M, P, TC, TS
from ..util import absimg

RULE = "states: sequences of template instances (which template tileset, local id, flip bits, layer position) x which tilesets the map lists (embedded or external, any order of first ids, sparse collections) (one without tiles among them) x first id in the template x map format x tileset format; the parsed map is checked against the id-resolution relation (not against particular new ids)"
ASSUMPTIONS = ["an embedded tileset stands for a template's tileset of the same name", "the declared id ranges do not overlap", "template files have the map's format"]

# names that contain each other, or differ in case only
NAME = {"A": "set", "B": "set2", "C": "Set", "D": "my set", "E": "set.2", "Y": "none", "Z": "nothing"}
KEY = {v: k for k, v in NAME.items()}
POOL = {
    "A": TS(NAME["A"], tilecount=8),
    "B": TC(NAME["B"], (0, 5, 9)),
    "C": TS(NAME["C"], tilecount=1, columns=1),
    "D": TC(NAME["D"], (2, 40)),
    "E": TS(NAME["E"], tilecount=12, columns=4, tiles=[{"id": 3, "class": "x"}], spacing=1),
}
NAMES = list(POOL)
# tilesets without tiles
POOL["Y"], POOL["Z"] = TC(NAME["Y"], ()), TS(NAME["Z"], tilecount=0)
LOCAL = {"A": [0, 7], "B": [0, 9], "C": [0], "D": [2, 40], "E": [3, 11]}
POS = ["top1", "top2", "group", "group2"]
FLIPS = [0, 0x80000000, 0xE0000000, 0x50000000]


def extent(ts):
    return max([ts["tilecount"]] + [t["id"] + 1 for t in ts.get("tiles", [])])


INST = [(n, l) for n in NAMES for l in range(len(LOCAL[n]))]


# attributes of the layers and groups that hold the instances
LOOK = [
    {}, {"visible": False}, {"opacity": 0}, {"tintcolor": "#80010203"}, {"offsetx": 16, "offsety": -3}, {"parallaxx": 0, "parallaxy": 0.5}, {"class": "c"},
    {"props": [P("visible", "bool", False), P("template", "string", "no")]}, {"name": ""}, {"draworder": "index"}, {"color": "#010203"}, {"locked": True},
]


def check(ctx, st):
    mf, tf, listed, insts = st[:4]
    look = LOOK[st[4]] if len(st) > 4 else {}
    lg = look if len(st) < 6 or st[5] != 1 else {}
    lo = look if len(st) < 6 or st[5] != 0 else {}
    # files
    f0 = st[6] if len(st) > 6 else 1
    for n in POOL:
        ctx.put("ts/%s%s" % (NAME[n], EXT[tf]["tileset"]), m_.tileset_bytes(POOL[n], tf))
    need = sorted({(n, l) for n, l, f, p in insts})
    for n, l in need:
        tm = {"object": {"kind": "tile", "gid": LOCAL[n][l] + f0, "width": 16, "height": 16}, "firstgid": f0, "src": "../ts/%s%s" % (NAME[n], EXT[tf]["tileset"])}
        ctx.put("tp/%s%d%s" % (n, l, EXT[mf]["template"]), m_.template_bytes(tm, mf))
    # flipped template objects keep their flip bits in the template file
    for n, l, f, p in insts:
        if f:
            tm = {"object": {"kind": "tile", "gid": (LOCAL[n][l] + f0) | FLIPS[f], "width": 16, "height": 16}, "firstgid": f0, "src": "../ts/%s%s" % (NAME[n], EXT[tf]["tileset"])}
            ctx.put("tp/%s%d-%d%s" % (n, l, f, EXT[mf]["template"]), m_.template_bytes(tm, mf))
    refs, g = [], 1
    for j, (n, form) in enumerate(listed[0]):
        r = {"firstgid": g, "ts": POOL[n]}
        if form:
            r["src"] = "ts/%s%s" % (NAME[n], EXT[tf]["tileset"])
        refs.append(r)
        g += max(extent(POOL[n]) + listed[1], 1)
    if listed[2]:
        refs = refs[::-1]
    layers = {p: [] for p in POS}
    for i, (n, l, f, p) in enumerate(insts):
        src = "tp/%s%d%s%s" % (n, l, "-%d" % f if f else "", EXT[mf]["template"])
        layers[POS[p]].append({"id": i + 1, "x": i, "y": i, "template": src})
    # plain tile objects must be left alone
    for k, p in enumerate(POS):
        layers[p].insert(0, {"id": 900 + k, "x": 0, "y": 0, "kind": "tile", "gid": 3 + k})
    og = lambda p, n: dict({"kind": "object", "name": p, "id": n, "objects": layers[p]}, **lo)
    doc = M(
        [og("top1", 1), dict({"kind": "group", "name": "g", "id": 2, "layers": [og("group", 3), dict({"kind": "group", "name": "h", "id": 4, "layers": [og("group2", 5)]}, **lg)]}, **lg), og("top2", 6)],
        refs)
    rel = "m" + EXT[mf]["map"]
    ctx.put(rel, m_.map_bytes(doc, mf))
    call = "parse_map(%r)" % rel
    try:
        res = ctx.call("map", ctx.path(rel))
    except Exception as e:
        return ctx.fail(call, "result", "a map", ("EXC", type(e).__name__, str(e)[:200]))
    img = absimg(ctx.root + "/ts")
    # 1. declared tilesets are untouched
    sets = dict(res.tilesets)
    for r in refs:
        if r["firstgid"] not in sets:
            return ctx.fail(call, "tilesets", "declared first id %d" % r["firstgid"], sorted(sets))
        if not ctx.expect(call, m_.exp_tileset(r["ts"], r["firstgid"], tf, img if "src" in r else m_.path), m_.dump(sets[r["firstgid"]]), "tilesets[%d]" % r["firstgid"]):
            return
    # 2. each missing template tileset is added once, with its own content
    declared = {r["firstgid"] for r in refs}
    have = {n for n, _ in listed[0]}
    want = sorted(NAME[n] for n in {n for n, l, f, p in insts} - have)
    added = sorted(t.name for k, t in sets.items() if k not in declared)
    if added != want:
        return ctx.fail(call, "tilesets added", want, added)
    for k, t in sets.items():
        if k not in declared:
            if not ctx.expect(call, m_.exp_tileset(POOL[KEY[t.name]], k, tf, img), m_.dump(t), "tilesets[%d]" % k):
                return
    # 3. no overlap
    rng = sorted((k, k + extent(POOL[KEY[t.name]]), KEY[t.name]) for k, t in sets.items())
    for (a, b, x), (c, d, y) in zip(rng, rng[1:]):
        if c < b or a < 1:
            return ctx.fail(call, "id ranges", "no overlap", rng)
    # 4. every instance resolves to its tile
    objs = {}

    def walk(ls):
        for l in ls:
            if hasattr(l, "tiled_objects"):
                for o in l.tiled_objects:
                    objs.setdefault(o.id, []).append(o)
            if getattr(l, "layers", None):
                walk(l.layers)

    walk(res.layers)
    for k in range(4):
        if [o.gid for o in objs.get(900 + k, [])] != [3 + k]:
            return ctx.fail(call, "plain tile object", 3 + k, [o.gid for o in objs.get(900 + k, [])])
    got = []
    for i, (n, l, f, p) in enumerate(insts):
        os_ = objs.get(i + 1, [])
        if len(os_) != 1 or type(os_[0].gid) is not int:
            return ctx.fail(call, "object %d" % (i + 1), "one tile object", repr(os_)[:300])
        gid = os_[0].gid
        if not 0 < gid < 1 << 32:
            return ctx.fail(call, "gid of object %d" % (i + 1), "an unsigned 32 bit number", gid)
        flags, num = gid & 0xF0000000, gid & 0x0FFFFFFF
        owner = [(x, num - a) for a, b, x in rng if a <= num < b]
        if flags != FLIPS[f] or owner != [(n, LOCAL[n][l])]:
            return ctx.fail(call, "gid of object %d" % (i + 1), (FLIPS[f], n, LOCAL[n][l]), (flags, owner, num, rng))
        got.append(gid)
    ctx.seen((tuple(got), tuple(rng)))


def listings(tier, n):
    """(tilesets in first-id order with their form, gap, reversed in the file)"""
    out = [((), 0, 0)]
    for k in range(1, n + 1):
        for c in permutations(NAMES, k):
            if k == 2 and tier == "quick" and c[0] == "E":
                continue
            for gap, rev in ((0, 0), (7, 1)) if k > 1 else ((0, 0),):
                out.append((tuple((x, (i + k) % 2) for i, x in enumerate(c)), gap, rev))
                if k == 1:
                    out.append((tuple((x, 1 - (i + k) % 2) for i, x in enumerate(c)), gap, rev))
    return out


def states(tier):
    fm = [(a, b) for a in ("tmx", "json") for b in ("tmx", "json")]
    one = [(n, l, f, p) for n, l in INST for f in range(4) for p in range(4)]
    lv = [("one", [(a, b, li, (x,)) for a, b in fm for li in listings(tier, 2) for x in one])]
    base = [(n, l, 0, p) for n, l in INST for p in ((0, 2) if tier == "quick" else range(4))]
    lv.append(("two", [(a, b, li, (x, y)) for a, b in fm for li in listings(tier, 1) for x in base for y in base]))
    three = [(n, len(LOCAL[n]) - 1, 1 if n in "BD" else 0, p) for n in NAMES for p in ((0,) if tier == "quick" else (0, 3))]
    lv.append(("three", [(a, b, li, xs) for a, b in fm for li in listings(tier, 1) for xs in product(three, repeat=3)]))
    perm = [(n, 0, 0, i % 4) for i, n in enumerate(NAMES)]
    lv.append(("all-tilesets", [(a, b, li, tuple(pm) + tuple(pm[: r])) for a, b in fm for li in listings(tier, 1 if tier == "quick" else 2) for r in (0, 3) for pm in permutations(perm)]))
    looks = [(a, b, li, xs, k, w) for a, b in fm for li in [((), 0, 0), ((("B", 1),), 0, 0)] for k in range(1, len(LOOK)) for w in range(3)
             for xs in [((n, 0, 0, p),) for n in NAMES for p in range(4)] + [tuple((n, 0, 0, p) for p in range(4)) for n in "AB"] + [tuple((n, 0, 0, i % 4) for i, n in enumerate(NAMES))]]
    lv.append(("layer-attributes", looks))
    # tilesets without tiles among those the map lists
    empty = [(tuple((x, (i + w) % 2) for i, x in enumerate(c)), gap, rev) for k in (1, 2, 3) for c in permutations("ABYZ", k) if set(c) & set("YZ") for w in (0, 1) for gap, rev in ((0, 0), (7, 0), (0, 1))]
    ins = [((n, 0, 0, p),) for n in "ABC" for p in (0, 2)] + [((x, 0, 0, 0), (y, 0, 1, 1)) for x in "ABC" for y in "ABC"]
    lv.append(("empty-tilesets", [(a, b, li, xs) for a, b in fm for li in empty for xs in ins]))
    # templates whose tileset has another first id
    ids = (2, 3, 9) if tier == "quick" else (0, 2, 3, 9, 41, 1000)
    few = listings(tier, 1) + [((("A", 1), ("B", 0)), 7, 1)]
    lv.append(("template-first-id", [(a, b, li, xs, 0, 0, i) for i in ids for a, b in fm for li in few for xs in [(x,) for x in one if not x[3] % 2] + [((x, 0, 0, 0), (y, 0, 3, 2)) for x in NAMES for y in NAMES]]))
    return lv


# different tilesets of one name, each in a file of its own
TWINS = {"x/t": TS("t"), "y/t": TC("t", (0, 5)), "x/u": TS("t", tilecount=2, columns=2), "z": TS("z", tilecount=3, columns=3)}
TWIN = list(TWINS)
TLOCAL = {"x/t": 7, "y/t": 5, "x/u": 1, "z": 2}
SPELL = ["ts/%s", "./ts/%s", "ts/x/../%s", "link/%s"]


def twins(tier):
    out = []
    for mf in ("tmx", "json"):
        for tf in ("tmx", "json"):
            for k in range(4):
                for listed in permutations(TWIN, k):
                    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                        for ins in (permutations(TWIN, n) if n > 2 else product(TWIN, repeat=n)):
                            if n < 3 or k < 3:
                                out += [(mf, tf, listed, ins, a, b) for a, b in (((0, 0), (1, 3), (3, 2)) if n < 3 else ((0, 0),))]
    return [("one name", out)]


def check_twins(ctx, st):
    mf, tf, listed, ins, a, b = st
    ctx.wipe()
    x = EXT[tf]["tileset"]
    for n in TWIN:
        ctx.put("ts/%s%s" % (n, x), m_.tileset_bytes(TWINS[n], tf))
        t = {"object": {"kind": "tile", "gid": TLOCAL[n] + 1, "width": 16, "height": 16}, "src": "../" + SPELL[b] % n + x}
        ctx.put("tp/%d%s" % (TWIN.index(n), EXT[mf]["template"]), m_.template_bytes(t, mf))
    os.symlink("ts", ctx.root + "/link")
    refs, g = [], 1
    for n in listed:
        refs.append({"firstgid": g, "ts": TWINS[n], "src": SPELL[a] % n + x})
        g += 20
    objs = [{"id": i + 1, "x": i, "y": i, "template": "tp/%d%s" % (TWIN.index(n), EXT[mf]["template"])} for i, n in enumerate(ins)]
    rel = "m" + EXT[mf]["map"]
    ctx.put(rel, m_.map_bytes(M([{"kind": "object", "id": 1, "objects": objs}], refs), mf))
    call = "parse_map(%r)" % rel
    try:
        res = ctx.call("map", ctx.path(rel))
    except Exception as e:
        return ctx.fail(call, "result", "a map", ("EXC", type(e).__name__, str(e)[:200]))
    got = {}
    for k, t in res.tilesets.items():
        d = m_.dump(t)
        n = [n for n in TWIN if d == m_.exp_tileset(TWINS[n], k, tf, absimg(ctx.root + "/ts/" + os.path.dirname(n)))]
        if len(n) != 1:
            return ctx.fail(call, "tilesets[%d]" % k, "one of the tilesets", d)
        got[k] = n[0]
    ctx.seen(tuple(sorted(got.items())))
    want = list(listed) + sorted(set(ins) - set(listed))
    have = [got[1 + 20 * i] for i in range(len(listed))] + sorted(n for k, n in got.items() if (k - 1) % 20 or k > 20 * len(listed))
    if have != want:
        return ctx.fail(call, "tilesets", want, have)
    rng = [(k, k + extent(TWINS[n]), n) for k, n in got.items()]
    for i, o in enumerate(res.layers[0].tiled_objects):
        owner = [(n, o.gid - p) for p, q, n in rng if p <= o.gid < q]
        if owner != [(ins[i], TLOCAL[ins[i]])]:
            return ctx.fail(call, "gid of object %d" % (i + 1), (ins[i], TLOCAL[ins[i]]), (owner, o.gid, rng))


# names of tilesets, files and directories that are easily taken for one another
ALIKE = [
    "a", "A", "a ", " a", "a  b", "a b", "a_b", "a%20b", "a+b", "é", "e\u0301", "É", "e", "ß", "ss", "😀", "😁", "?", "x" * 70 + "1", "x" * 70 + "2", "x" * 64, "#a", "a.tsx", "a.json", "a.b", "None", "0", "00", "&", "&amp;", "a\\b", "a,b", "~", "$HOME", "ı", "i", "I", "K", "\u212a",
]


def alike(tier):
    few = ALIKE if tier != "quick" else ALIKE
    return [("alike", [(mf, tf, how, x, y) for mf in ("tmx", "json") for tf in ("tmx", "json") for how in ("name", "file", "directory") for x in range(len(few)) for y in range(len(few))])]


def check_alike(ctx, st):
    """The map lists the tileset x; two templates use the tilesets y and x."""
    mf, tf, how, x, y = st
    ctx.wipe()
    a, b = ALIKE[x], ALIKE[y]
    e, te = EXT[tf]["tileset"], EXT[mf]["template"]
    ta = TS(a if how == "name" else "t", tilecount=8)
    tb = ta if x == y else TS(b if how == "name" else "t", tilecount=4, columns=2)
    fa, fb = {"name": ("fa", "fb"), "file": (a, b), "directory": (a + "/t", b + "/t")}[how]
    if x == y:
        fb = fa
    ctx.put("ts/" + fa + e, m_.tileset_bytes(ta, tf))
    if x != y:
        ctx.put("ts/" + fb + e, m_.tileset_bytes(tb, tf))
    for n, f, g in (("a", fa, 5), ("b", fb, 3)):
        ctx.put("tp/" + n + te, m_.template_bytes({"object": {"kind": "tile", "gid": g, "width": 16, "height": 16}, "src": "../ts/" + f + e}, mf))
    ref = {"firstgid": 11, "ts": ta}
    if how != "name":
        ref["src"] = "ts/" + fa + e
    rel = "m" + EXT[mf]["map"]
    ctx.put(rel, m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [{"id": i + 1, "x": i, "y": i, "template": "tp/" + n + te} for i, n in enumerate("bab")]}], [ref]), mf))
    call = "parse_map(%r), %s %r and %r" % (rel, how, a, b)
    try:
        res = ctx.call("map", ctx.path(rel))
    except Exception as ex:
        return ctx.fail(call, "result", "a map", ("EXC", type(ex).__name__, str(ex)[:200]))
    img = lambda f: absimg(ctx.root + "/ts/" + os.path.dirname(f))
    got = {k: m_.dump(t) for k, t in res.tilesets.items()}
    ctx.seen(tuple(sorted(got)))
    if len(got) != 1 + (x != y) or 11 not in got:
        return ctx.fail(call, "tilesets", "the one listed" + (" and the template's" if x != y else ""), sorted((k, t.name) for k, t in res.tilesets.items()))
    if not ctx.expect(call, m_.exp_tileset(ta, 11, tf, m_.path if how == "name" else img(fa)), got.pop(11), "tilesets[11]"):
        return
    g = 11
    for k, d in got.items():
        g = k
        if not ctx.expect(call, m_.exp_tileset(tb, k, tf, img(fb)), d, "tilesets[%d]" % k):
            return
        if k < 19 and k + 4 > 11:
            return ctx.fail(call, "id ranges", "no overlap", sorted(res.tilesets))
    want = [g + 2, 15, g + 2]
    have = [o.gid for o in res.layers[0].tiled_objects]
    if want != have:
        ctx.fail(call, "global ids", want, have)


def places(tier):
    ns = list(range(1, 13)) + [16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129] + ([] if tier == "quick" else [200, 256, 257, 512, 1000, 1001, 1025])
    out = []
    for mf in ("tmx", "json"):
        for shape in ("layers", "objects", "depth", "groups", "group"):
            for n in ns if shape != "depth" else range(1, 59):
                for k in range(n) if n < 9 and shape != "depth" else sorted({0, n // 2, n - 1}):
                    out.append((mf, shape, n, k))
    return [("places", out)]


def check_places(ctx, st):
    """One instance, anywhere among plain layers, groups and objects."""
    mf, shape, n, k = st
    ctx.wipe()
    e, te = EXT[mf]["tileset"], EXT[mf]["template"]
    ctx.put("a" + e, m_.tileset_bytes(POOL["A"], mf))
    ctx.put("b" + e, m_.tileset_bytes(POOL["E"], mf))
    ctx.put("t" + te, m_.template_bytes({"object": {"kind": "tile", "gid": 0x80000004, "width": 16, "height": 16}, "src": "b" + e}, mf))
    inst = {"id": 7, "x": 0, "y": 0, "template": "t" + te}
    rect = {"id": 8, "x": 0, "y": 0, "kind": "rect"}
    og = lambda *objs: {"kind": "object", "id": 1, "name": "o", "objects": list(objs)}
    gr = lambda *ls: {"kind": "group", "id": 2, "name": "g", "layers": list(ls)}
    if shape == "objects":
        ls = [og(*[inst if i == k else rect for i in range(n)])]
    elif shape == "layers":
        ls = [og(inst) if i == k else og(rect) if i % 2 else og() for i in range(n)]
    elif shape == "groups":
        ls = [gr(og(inst)) if i == k else gr(og(rect)) if i % 2 else gr() for i in range(n)]
    elif shape == "group":
        ls = [gr(*[og(inst) if i == k else gr() if i % 2 else og(rect) for i in range(n)])]
    else:
        l = og(inst)
        for i in range(n):
            l = gr(l) if i < k else gr(og(rect), l) if i % 2 else gr(l, og(rect))
        ls = [l]
    rel = "m" + EXT[mf]["map"]
    ctx.put(rel, m_.map_bytes(M(ls, [{"firstgid": 3, "ts": POOL["A"], "src": "a" + e}]), mf))
    call = "parse_map(%r): %s" % (rel, st)
    try:
        res = ctx.call("map", ctx.path(rel))
    except Exception as ex:
        return ctx.fail(call, "result", "a map", ("EXC", type(ex).__name__, str(ex)[:200]))
    gids = []
    todo = list(res.layers)
    while todo:
        l = todo.pop()
        gids += [o.gid for o in getattr(l, "tiled_objects", ()) if hasattr(o, "gid")]
        todo += getattr(l, "layers", None) or []
    new = [g for g in res.tilesets if g != 3]
    ctx.seen((tuple(gids), tuple(new)))
    if len(new) != 1 or 3 not in res.tilesets or new[0] + 12 > 3 and new[0] < 11:
        return ctx.fail(call, "tilesets", "the listed one, at 3, and another apart from it", sorted(res.tilesets))
    if gids != [0x80000000 + new[0] + 3]:
        ctx.fail(call, "global ids", [0x80000000 + new[0] + 3], gids)


def spaces():
    return [Enum("places", places, check_places, edges=lambda s: 1), Enum("alike", alike, check_alike, edges=lambda s: 1), Enum("instances", states, check, edges=lambda s: 1), Enum("one-name", twins, check_twins, edges=lambda s: 1), grow.space("C15")]
