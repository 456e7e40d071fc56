"""C18: torn and damaged files."""
from functools import lru_cache
from pathlib import Path

from .. import model as m_
from ..core import Enum
from ..model import EXT, M, P, TC, TS
from . import c02, c05, c11, c14, c16

LEVEL = "fault_enumeration"
RULE = "states: (scenario, file, damage kind, offset): every proper prefix of the content (crash while writing), every tail zeroed (torn write of a preallocated file), every single content byte replaced by NUL, 0xFF and 0xC0 (never valid in UTF-8), every aligned block zeroed; each is parsed through the public entry point and must raise, UnknownFormat where the damaged JSON file is a map or tileset"
ASSUMPTIONS = ["damage is confined to the content (from the first to the last non-blank byte); trailing blanks carry no information", "the files other than the damaged one are intact"]

BLOCKS = [2, 3, 4, 8, 16, 64, 512]


def full_layers(fmt, data):
    objs = [c05.obj(k, 10 + i, {"props": [P("k", "string", "v é"), P("n", "int", i)]} if i % 2 else {}) for i, k in enumerate(c05.KINDS)]
    return [
        {"kind": "tile", "id": 1, "name": "ground", "width": 3, "height": 2, "data": dict(data, grid=[[1, 2, 3], [0, 0x80000001, 200]])},
        {"kind": "group", "id": 2, "name": "grp", "tintcolor": "#80102030", "layers": [
            {"kind": "object", "id": 3, "name": "objs", "objects": objs},
            {"kind": "image", "id": 4, "name": "img", "image": "bg.png", "trans": "#ff00ff"},
        ]},
    ]


def big_tileset(name="set"):
    return TS(name, version="1.9", tiledversion="1.9.2", tileoffset=(1, 2), grid=("isometric", 8, 9), transformations=(1, 0, 1, 0), backgroundcolor="#010203", trans="#ff00ff",
              props=[P("a", "bool", True), P("b", "color", "#80010203")],
              tiles=[{"id": 0, "class": "k", "animation": [(0, 10), (1, 20)]}, {"id": 5, "objects": [c05.obj("rect", 1, {}), c05.obj("polygon", 2, {})], "props": [P("tp", "float", 1.5)]}],
              wangsets=[{"name": "W", "colors": [{"name": "c", "color": "#010203"}], "tiles": [(0, c11.WID[0]), (3, c11.WID[1])]}])


@lru_cache(None)
def scenarios():
    """(name, entry kind, entry file, {file: bytes}, {file: exception class name or None})"""
    out = []
    for fmt in ("tmx", "json"):
        uf = "UnknownFormat" if fmt == "json" else None
        root = "m" + EXT[fmt]["map"]

        def one(name, m, more=None, errs=None):
            files = {root: m_.map_bytes(m, fmt)}
            files.update(more or {})
            e = {root: uf}
            e.update(errs or {})
            out.append(("%s-%s" % (fmt, name), "map", root, files, e))

        one("minimal", M())
        for enc, comp in (("csv", ""), ("base64", ""), ("base64", "zlib"), ("base64", "gzip")) + ((("xml", ""),) if fmt == "tmx" else ()):
            one("full-%s%s" % (enc, comp), M(full_layers(fmt, c02.data(enc, comp)), [{"firstgid": 1, "ts": big_tileset()}], [P("mp", "string", "x\ny")], backgroundcolor="#102030"))
        ch = [{"x": -16, "y": 0, "w": 2, "h": 2, "grid": [[1, 2], [3, 4]]}, {"x": 0, "y": 16, "w": 1, "h": 1, "grid": [[5]]}]
        for enc, comp in (("csv", ""), ("base64", "zlib")):
            one("infinite-%s" % enc, M([{"kind": "tile", "id": 1, "width": 4, "height": 4, "data": c02.data(enc, comp, chunks=ch)}], infinite=True))
        for tf in ("tmx", "json"):
            src = "s/e" + EXT[tf]["tileset"]
            t = big_tileset("ext")
            one("tileset-" + tf, M([{"kind": "object", "id": 1, "objects": []}], [{"firstgid": 1, "ts": TS("emb")}, {"firstgid": 50, "ts": t, "src": src}]),
                {src: m_.tileset_bytes(t, tf)}, {src: "UnknownFormat" if tf == "json" else None})
            c = TC("coll", (0, 5), props=[P("p", "file", "a/b")])
            one("collection-" + tf, M([], [{"firstgid": 1, "ts": c, "src": src}]), {src: m_.tileset_bytes(c, tf)}, {src: "UnknownFormat" if tf == "json" else None})
            # a template with its tileset, used once in a group
            for k in ("rect", "tile", "text"):
                tp, tsrc = "t/t" + EXT[fmt]["template"], "q/p" + EXT[tf]["tileset"]
                o = c14.template(k, {"name": "tn", "props": c14.TPROPS[0]})
                tm = {"object": o}
                more, errs = {}, {tp: None}
                if k == "tile":
                    tm["src"] = "../" + tsrc
                    more[tsrc] = m_.tileset_bytes(TS("tps", tiles=[{"id": 2, "class": "w"}]), tf)
                    errs[tsrc] = None
                elif tf == "json":
                    continue
                more[tp] = m_.template_bytes(tm, fmt)
                inst = [{"id": 1, "x": 1, "y": 2}, {"id": 2, "x": 3, "y": 4, "template": tp}]
                one("template-%s-%s" % (k, tf), M([{"kind": "group", "id": 1, "layers": [{"kind": "object", "id": 2, "objects": inst}]}], [{"firstgid": 1, "ts": TS("own")}]), more, errs)
        t = "t" + EXT[fmt]["tileset"]
        for n, ts in (("image", big_tileset()), ("collection", TC("c", (0, 3))), ("plain", TS("p"))):
            out.append(("%s-alone-%s" % (fmt, n), "tileset", t, {t: m_.tileset_bytes(ts, fmt)}, {t: uf}))
    w = c16.world([c16.DECL[0], c16.DECL[3]], [c16.pat(c16.RX[0], (16, 9), (3, -4))], True)
    out.append(("world", "world", "w.world", {"w.world": m_.jsn(w), "map_1_2.tmx": b"x"}, {"w.world": None}))
    out.append(("world-declared", "world", "w.world", {"w.world": m_.jsn(c16.world([c16.DECL[0]]))}, {"w.world": None}))
    return out


def content(b):
    """[start, end) of the content."""
    s = b.rstrip()
    return len(b) - len(b.lstrip()), len(s)


def damage(b, kind, off):
    lo, hi = content(b)
    if kind == "cut":
        return b[:off]
    if kind == "tail":
        return b[:off] + b"\0" * (len(b) - off)
    if kind == "nul":
        return b[:off] + b"\0" + b[off + 1:]
    if kind == "ff":
        return b[:off] + b"\xff" + b[off + 1:]
    if kind == "c0":
        return b[:off] + b"\xc0" + b[off + 1:]
    n = int(kind)
    return b[:off] + b"\0" * (min(off + n, len(b)) - off) + b[off + n:]


def states(tier):
    lv = {}
    for i, (name, kind, entry, files, errs) in enumerate(scenarios()):
        for f in errs:
            lo, hi = content(files[f])
            for k in ("cut", "tail", "nul", "ff", "c0"):
                lv.setdefault(k, []).extend((i, f, k, off) for off in range(0 if k in ("cut", "tail") else lo, hi))
            for n in BLOCKS:
                st = n if tier == "quick" else 1
                lv.setdefault("block", []).extend((i, f, str(n), off) for off in range(lo, hi, st))
    return [(k, lv[k]) for k in ("cut", "tail", "nul", "ff", "c0", "block")]


def check(ctx, st):
    i, f, k, off = st
    name, kind, entry, files, errs = scenarios()[i]
    if getattr(ctx, "scenario", None) != i:
        ctx.wipe()
        for g, b in files.items():
            ctx.put(g, b)
        ctx.scenario = i
    bad = damage(files[f], k, off)
    ctx.put(f, bad)
    try:
        obs = ctx.observe(kind, entry)
    finally:
        ctx.put(f, files[f])
    ctx.written = dict(files)
    ctx.written[f] = bad
    call = "parse_%s(%r), %s: %s at %d" % (kind, entry, f, k, off)
    if obs[0] != "EXC":
        return ctx.fail(call, "result", "an error", obs)
    want = errs[f]
    if want and bad.lstrip()[:1] == b"<":
        want = None
    if want and obs[1] != want:
        return ctx.fail(call, "error", want, obs[1])
    ctx.extra["nontrivial"] = ctx.extra.get("nontrivial", 0) + 1
    if off % 64 == 0:
        # what is intact parses again
        if ctx.observe(kind, entry)[0] == "EXC":
            ctx.fail(call, "the intact files afterwards", "a result", "an error")


def intact(tier):
    return [("intact", [(i,) for i in range(len(scenarios()))])]


def check_intact(ctx, st):
    """Every scenario parses when nothing is damaged (so that errors mean damage)."""
    name, kind, entry, files, errs = scenarios()[st[0]]
    ctx.wipe()
    ctx.scenario = None
    for g, b in files.items():
        ctx.put(g, b)
    o = ctx.observe(kind, entry)
    if o[0] == "EXC":
        ctx.fail("parse_%s(%r)" % (kind, entry), "intact " + name, "a result", o)


def lone(tier):
    """Files without any content."""
    return [("empty", [(i, f, t) for i, s in enumerate(scenarios()) for f in s[4] for t in range(6)])]


def check_lone(ctx, st):
    i, f, t = st
    name, kind, entry, files, errs = scenarios()[i]
    ctx.wipe()
    ctx.scenario = None
    for g, b in files.items():
        ctx.put(g, b)
    bad = [b"", b"\n", b" \r\n\t\n", b"\0" * len(files[f]), b"\xff" * len(files[f]), b"\0"][t]
    ctx.put(f, bad)
    obs = ctx.observe(kind, entry)
    call = "parse_%s(%r), %s: %r" % (kind, entry, f, bad[:4])
    if obs[0] != "EXC":
        return ctx.fail(call, "result", "an error", obs)
    if errs[f] and obs[1] != errs[f]:
        return ctx.fail(call, "error", errs[f], obs[1])
    ctx.extra["nontrivial"] = ctx.extra.get("nontrivial", 0) + 1


def spaces():
    lab = lambda s: "%s, %s: %s at %s" % (scenarios()[s[0]][0], s[1], s[2], s[3])
    return [
        Enum("intact", intact, check_intact, label=lambda s: scenarios()[s[0]][0]),
        Enum("no-content", lone, check_lone, edges=lambda s: 1, label=lambda s: "%s, %s: empty variant %d" % (scenarios()[s[0]][0], s[1], s[2])),
        Enum("damage", states, check, label=lab, edges=lambda s: 1),
    ]
