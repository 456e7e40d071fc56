"""Larger documents: the reference model's answer in each dimension in which documents grow."""

from . import model as m_
from .core import Enum
from .model import M, P, TC, TS
from .util import check_map, check_tileset

# around every power of two, and round numbers
SMALL = list(range(0, 71))


def near(top, width=1):
    s = {10 ** k + d for k in range(1, 7) for d in range(-width, width + 1)} | {2 ** k + d for k in range(1, 21) for d in range(-width, width + 1)}
    s |= {50, 200, 300, 500, 999, 1500, 2000, 3000, 5000, 20000, 50000}
    return sorted(set(SMALL) | {x for x in s if 0 <= x <= top})


def props(i):
    t = [("int", i - 3), ("string", "s%d" % i), ("bool", i % 2 == 0), ("float", i / 8), ("color", "#%08x" % (0x80000000 + i)), ("file", "f%d/x" % i), ("object", i)]
    return [P("k%d" % j, *t[(i + j) % 7]) for j in range(i % 4)]


def obj(i, kind=None):
    from .checks import c05

    k = kind or c05.KINDS[(i * 5 + i // 7) % 7]
    o = {"name": "o%d" % i} if i % 3 else {}
    if i % 4 == 1:
        o.update(width=i + 0.5, height=i / 4)
    if i % 5 == 2:
        o["class"] = "c%d" % i
    if i % 6 == 3:
        o["props"] = props(i)
    if i % 7 == 5:
        o["visible"] = False
    return c05.obj(k, i + 1, o)


def olay(objs, i=1, **kw):
    return dict({"kind": "object", "id": i, "name": "l%d" % i, "objects": objs}, **kw)


def tlay(enc, comp, w, h, i=1):
    from .checks import c02

    return {"kind": "tile", "id": i, "name": "l%d" % i, "width": w, "height": h, "data": c02.data(enc, comp, grid=[[(x * 7919 + y * 104729 + i) % 0x7FFFFFFF for x in range(w)] for y in range(h)])}


def layer(i):
    k = (i * 3 + i // 5) % 5
    l = [tlay("csv", "", 2, 2, i + 1), olay([obj(i)], i + 1), {"kind": "image", "id": i + 1, "name": "i%d" % i, "image": "i%d.png" % i}, {"kind": "group", "id": i + 1, "name": "g%d" % i, "layers": []}, {"kind": "group", "id": i + 1, "name": "g%d" % i, "layers": [olay([], 100000 + i)]}][k]
    for n, (a, v) in enumerate([("visible", False), ("opacity", 0.5), ("offsetx", i), ("offsety", -i), ("parallaxx", 0.25), ("tintcolor", "#%08x" % (0x80000000 + i)), ("class", "c%d" % i), ("props", props(i))]):
        if (i + n * n) % (n + 3) == 1:
            l[a] = v
    return l


def cells(enc, comp, w, h):
    return lambda n: M([tlay(enc, comp, w(n), h(n)), tlay(enc, comp, 1, 1, 2)])


def chunked(enc, comp):
    from .checks import c02

    def f(n):
        cs = [{"x": 2 * (i % 7) - 6, "y": 2 * (i // 7) - 4, "w": 2, "h": 2, "grid": [[i, 2], [3, 4 + i]]} for i in range(n)]
        return M([{"kind": "tile", "id": 1, "width": 4, "height": 4, "data": c02.data(enc, comp, chunks=cs)}], infinite=True)

    return f


def tile(i):
    t = {"id": i * 3}
    for n, (a, v) in enumerate([("animation", [(i, 10 + i), (0, 20)]), ("props", props(i)), ("objects", [obj(i, "rect")]), ("class", "c%d" % i)]):
        if (i + n) % 3 == 1:
            t[a] = v
    return t


def ts(i):
    return TS("t%d" % i, tilecount=i % 8 + 1, columns=i % 4 + 1, tiles=[tile(i)], spacing=i % 3, **({"class": "c%d" % i} if i % 5 == 0 else {}))


def wset(n, colors, tiles):
    cs = [{"name": "c%d" % j, "color": "#%06x" % (j * 65521 % 2 ** 24), "tile": j - 1, "probability": j / 4} for j in range(colors)]
    return {"name": "w%d" % n, "colors": cs, "tiles": [(j * 2, [(j + x) % (colors + 1) for x in range(8)]) for j in range(tiles)], "type": ["corner", "edge", "mixed"][n % 3]}


def one_tileset(*sets):
    return TS("t", wangsets=list(sets))


# strings of a length: where they are
def strs(c):
    s = lambda n: ("ab é" * (n // 4 + 1))[:n]
    f = {
        "map-class": lambda n: M(**{"class": s(n)}),
        "layer-name": lambda n: M([olay([], 1, name=s(n)), olay([], 2)]),
        "layer-class": lambda n: M([olay([], 1, **{"class": s(n)}), olay([], 2)]),
        "image": lambda n: M([{"kind": "image", "id": 1, "name": "i", "image": (s(n) or "a").replace(" ", "/").strip("/")}]),
        "object-name": lambda n: M([olay([dict(obj(1), name=s(n)), obj(2)])]),
        "object-class": lambda n: M([olay([dict(obj(1), **{"class": s(n)}), obj(2)])]),
        "text": lambda n: M([olay([{"kind": "text", "id": 1, "x": 0, "y": 0, "text": {"text": s(n)}}, obj(2)])]),
        "lines": lambda n: M([olay([{"kind": "text", "id": 1, "x": 0, "y": 0, "text": {"text": "é\n" * n + "x"}}, obj(2)])]),
        "font": lambda n: M([olay([{"kind": "text", "id": 1, "x": 0, "y": 0, "text": {"text": "a", "fontfamily": s(n) or "f"}}, obj(2)])]),
        "string": lambda n: M(props=[P("k", "string", s(n)), P("l", "int", 1)]),
        "multiline": lambda n: M(props=[P("k", "string", "é\n" * n + "x"), P("l", "int", 1)]),
        "file": lambda n: M(props=[P("k", "file", s(n)), P("l", "int", 1)]),
        "property-name": lambda n: M(props=[P(s(n), "string", "x"), P("l", "int", 1)]),
        "tileset-name": lambda n: M([], [{"firstgid": 1, "ts": dict(TS("t"), name=s(n))}, {"firstgid": 99, "ts": TS("u")}]),
        "tileset-class": lambda n: M([], [{"firstgid": 1, "ts": TS("t", **{"class": s(n)})}]),
        "tile-class": lambda n: M([], [{"firstgid": 1, "ts": TS("t", tiles=[{"id": 1, "class": s(n)}, {"id": 2}])}]),
        "wang-name": lambda n: M([], [{"firstgid": 1, "ts": one_tileset(dict(wset(1, 2, 1), name=s(n)), wset(2, 1, 1))}]),
        "colour-name": lambda n: M([], [{"firstgid": 1, "ts": one_tileset(dict(wset(1, 0, 1), colors=[{"name": s(n), "color": "#010203"}, {"name": "x", "color": "#010204"}]))}]),
    }
    return f[c]


# property: [(dimension, kind, largest size at the quick tier, at the thorough tier, document of size n)]
def dims():
    mp = lambda name, q, t, f: (name, "map", q, t, f)
    st = lambda name, q, t, f: (name, "tileset", q, t, f)
    S = lambda *names: [mp("length of " + n, 140000, 1100000, strs(n)) for n in names]
    two = lambda t: [{"firstgid": 1, "ts": t}, {"firstgid": 100000, "ts": TS("u")}]
    return {
        "C02": [mp("%s of %s %s" % (a, e, c), 11000, 70000, cells(e, c, (lambda n: n or 1) if a == "columns" else (lambda n: 3), (lambda n: n or 1) if a == "rows" else (lambda n: 3)))
                for a in ("rows", "columns") for e, c in (("csv", ""), ("base64", ""), ("base64", "zlib"), ("base64", "gzip"))]
        + [mp("square, %s %s" % (e, c), 260, 1100, lambda n, e=e, c=c: M([tlay(e, c, n or 1, n or 1)])) for e, c in (("csv", ""), ("base64", "zlib"))]
        + [mp("chunks of %s %s" % (e, c), 1100, 4200, chunked(e, c)) for e, c in (("csv", ""), ("base64", ""), ("base64", "zlib"))],
        "C03": [mp("layers", 1100, 4200, lambda n: M([layer(i) for i in range(n)])), mp("layers of a group", 1100, 2100, lambda n: M([{"kind": "group", "id": 99999, "name": "g", "layers": [layer(i) for i in range(n)]}, layer(0)])),
                mp("tile layers", 1100, 1100, lambda n: M([tlay("csv", "", 2, 2, i + 1) for i in range(n)])), mp("groups with layers", 260, 1100, lambda n: M([{"kind": "group", "id": 1000 + i, "name": "g", "layers": [layer(i + j) for j in range(i % 4)]} for i in range(n)]))],
        "C04": S("layer-name", "layer-class", "image"),
        "C05": [mp("objects", 2100, 11000, lambda n: M([olay([obj(i) for i in range(n)])])), mp("object layers", 1100, 1100, lambda n: M([olay([obj(i)], i + 1) for i in range(n)])),
                *[mp(k + " points", 11000, 70000, lambda n, k=k: M([olay([{"kind": k, "id": 1, "x": 0, "y": 0, "points": [(i * 0.5, (i * 7919) % 101 - 50) for i in range(n + 1)]}, obj(2)])])) for k in ("polygon", "polyline")]],
        "C06": S("object-name", "object-class", "text", "lines", "font") + [mp("texts", 1100, 4200, lambda n: M([olay([dict(obj(i, "text"), text=dict({"text": "t%d" % i}, **([{}, {"bold": True}, {"color": "#%06x" % i}, {"wrap": True, "pixelsize": i + 1}][i % 4]))) for i in range(n)])]))],
        "C07": S("string", "multiline", "file", "property-name") + [mp("properties", 11000, 70000, lambda n: M(props=[P("p%d" % i, *[("int", i), ("string", "s%d" % i), ("bool", i % 2 == 0), ("float", i / 8)][i % 4]) for i in range(n)])),
                                                                    mp("properties of an object", 1100, 2100, lambda n: M([olay([dict(obj(1, "rect"), props=[P("p%d" % i, "int", i) for i in range(n)]), dict(obj(2, "rect"), props=props(3))])]))],
        "C08": S("map-class"),
        "C09": S("tileset-name", "tileset-class") + [mp("tilesets", 520, 1100, lambda n: M([], [{"firstgid": 1 + 10 * i, "ts": ts(i)} for i in range(n)]))],
        "C10": S("tile-class") + [f for how in ("map", "tileset") for f in [
            (d + (", embedded" if how == "map" else ""), how, q, t, (lambda n, g=g: M([], two(g(n)))) if how == "map" else g) for d, q, t, g in [
                ("tiles", 1100, 11000, lambda n: TS("t", tilecount=100000, tiles=[tile(i) for i in range(n)])), ("image tiles", 1100, 4200, lambda n: TC("t", tuple(i * 2 for i in range(n)))),
                ("frames", 4200, 11000, lambda n: TS("t", tiles=[{"id": 0, "animation": [(i % 7, i) for i in range(n)]}, tile(1)])), ("shapes", 1100, 4200, lambda n: TS("t", tiles=[{"id": 0, "objects": [obj(i, ["rect", "ellipse", "point", "polygon"][i % 4]) for i in range(n)]}, tile(1)]))]]],
        "C11": S("wang-name", "colour-name") + [f for how in ("map", "tileset") for f in [
            (d + (", embedded" if how == "map" else ""), how, q, t, (lambda n, g=g: M([], two(g(n)))) if how == "map" else g) for d, q, t, g in [
                ("wang tiles", 1100, 11000, lambda n: one_tileset(wset(0, 3, n), wset(1, 1, 1))), ("colours", 1100, 1100, lambda n: one_tileset(wset(0, n, 2), wset(1, 1, 1))), ("wang sets", 1100, 1100, lambda n: one_tileset(*[wset(i, i % 4, i % 3) for i in range(n)]))]]],
        "C12": [("%s tilesets of a %s map" % ("+".join(fs), mf), "check", 130, 520, c12(fs)(mf)) for fs in (["tmx"], ["json"], ["emb", "tmx", "json"]) for mf in ("tmx", "json")],
        "C14": [("instances of a template (%s)" % k, "check", 1100, 4200, c14(k)) for k in ("rect", "text", "tile", "polygon")] + [("templates", "check", 130, 520, many_templates), ("properties of a template", "check", 520, 4200, template_properties)],
        "C15": [("tile instances, %s map, %s tilesets, lists %s" % (a, b, "".join(l) or "nothing"), "check", 130, 890, c15((a, b, l))) for a in ("tmx", "json") for b in ("tmx", "json") for l in ((), ("A",), ("B", "D"), ("E", "C", "A"))],
        "C16": [(k, "check", q, t, c16(k)) for k, q, t in (("declared", 2100, 20000), ("matched", 1100, 4200), ("patterns", 260, 1100), ("name", 520, 20000), ("expression", 520, 20000))],
    }


def c12(forms):
    from .checks import c12 as c

    return lambda mf: lambda ctx, n: c.show(ctx, [(forms[i % len(forms)], ts(i), "e%d" % i, 1 + 10 * i) for i in range(n)], mf)


def c14(kind):
    from .checks import c14 as c

    def check(ctx, n):
        t = c.template(kind, {"name": "t", "width": 3, "height": 4, "class": ("type", "tc"), "props": props(3)})
        at = [{}, {"name": "own"}, {"width": 7}, {"visible": False}, {"props": [P("k0", "int", 1), P("z", "string", "y")]}]
        c.show(ctx, {"tpl": t, "tpm": c.template("rect", {"name": "m"})}, [c.instance(i + 1, kind, at[i % 5], "tpl") if i % 11 != 7 else c.instance(i + 1, "rect", {}, "tpm") for i in range(n)])

    return check


def many_templates(ctx, n):
    from .checks import c14 as c

    c.show(ctx, {"t%d" % i: c.template(c.KINDS[i % 7], {"name": "n%d" % i, "props": props(i)}) for i in range(n)}, [c.instance(i + 1, c.KINDS[i % 7], {}, "t%d" % i) for i in range(n)])


def template_properties(ctx, n):
    from .checks import c14 as c

    c.show(ctx, {"t": c.template("rect", {"props": [P("p%d" % i, "int", i) for i in range(n)]})}, [c.instance(1, "rect", {"props": [P("p%d" % (i * 2), "int", -i) for i in range(n)]}, "t"), c.instance(2, "rect", {}, "t")])


def c15(form):
    from .checks import c15 as c

    # the same few instances over and over
    return lambda ctx, n: c.check(ctx, (form[0], form[1], (tuple((x, i % 2) for i, x in enumerate(form[2])), 3, False), tuple((c.NAMES[i % 5], i % len(c.LOCAL[c.NAMES[i % 5]]), (i // 3) % 4, (i // 2) % 4) for i in range(n))))


def c16(how):
    from .checks import c16 as c

    pat = lambda r, m: {"regexp": r, "multiplierX": m, "multiplierY": 1, "offsetX": 0, "offsetY": -m}

    def check(ctx, n):
        if how == "declared":
            return c.run(ctx, c.world([{"fileName": "m%d.tmx" % i, "x": i, "y": -i, "width": 1 + i, "height": 1} for i in range(n)]), [("m%d.tmx" % i, "file") for i in range(3)])
        if how == "matched":
            return c.run(ctx, c.world([], [pat(r"m(\d+)_(\d+)\.tmx", 3)]), [("m%d_%d.tmx" % (i, i * i % 97), "file") for i in range(n)])
        if how == "patterns":
            return c.run(ctx, c.world([], [pat(r"m(\d+)_(\d+)\.tmx" if i % 3 == 0 else "n%d_(\\d+)_(\\d+).tmx" % i, i + 1) for i in range(n)]), [("m%d_%d.tmx" % (i, i * i % 97), "file") for i in range(4)] + [("n%d_1_2.tmx" % i, "file") for i in range(0, n, 7)])
        if how == "name":
            k = min(n, 200)
            return c.run(ctx, c.world([{"fileName": "d" * n + ".tmx", "x": 1, "y": 2, "width": 3, "height": 4}], [pat(r"a*_(\d+)_(\d+)\.tmx", 2)]), [("a" * k + "_1_2.tmx", "file"), ("a_5_6.tmx", "file")])
        c.run(ctx, c.world([], [pat(r"m_(\d+)_(\d+)\.tmx" + "|zz" * n, 2)]), [("m_3_4.tmx", "file")])

    return check


def levels_of(prop):
    ds = dims()[prop]

    def levels(tier):
        out = []
        for i, (name, kind, q, t, f) in enumerate(ds):
            out.append((name, [(i, n) for n in near(q if tier == "quick" else t)]))
        return out

    return levels


def space(prop):
    ds = dims()[prop]

    def check(ctx, st):
        name, kind, q, t, f = ds[st[0]]
        if kind == "check":
            return f(ctx, st[1])
        (check_map if kind == "map" else check_tileset)(ctx, f(st[1]))

    return Enum("growth", levels_of(prop), check, label=lambda st: "%s: %d" % (ds[st[0]][0], st[1]), edges=lambda s: min(1, s[1]))
