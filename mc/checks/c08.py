"""C08: colours."""
from itertools import product

from .. import dom, grow
from .. import model as m_
from ..core import Enum
from ..model import EXT, M, P, TS, TC

RULE = "states: every byte value of every channel (and every pair of channels at boundary bytes) in every spelling; every string over an adversarial alphabet up to the length bound; every well-formed colour with up to two edits (replace, insert, delete); each colour-carrying attribute of both formats with well-formed and malformed values"
ASSUMPTIONS = ["where TMX stores a transparent colour without '#', that spelling is well-formed"]

ALPHA = ["#", "0", "9", "a", "F", "g", "x", "+", "-", " ", "_", "\n", "\u0663", "\uff10", "G", "\u00e9", ".", "\x00"]
HEX = set("0123456789abcdefABCDEF")


def wellformed(s):
    t = s[1:] if s[:1] == "#" else s
    return len(t) in (6, 8) and all(c in HEX for c in t)


def check_text(ctx, s):
    from pytiled_parser.util import parse_color

    ctx.execs += 1
    exp = m_.color(s) if wellformed(s) else "an error"
    try:
        obs = m_.dump(parse_color(s))
    except Exception as e:
        obs = "an error" if exp == "an error" else ("EXC", type(e).__name__)
    ctx.seen(obs)
    if exp != obs:
        ctx.fail("parse_color(%r)" % s, "result", exp, obs)


def channels(tier):
    out = []
    for n in (3, 4):
        base = [0x12, 0xAB, 0x05, 0xF0][:n]
        one = []
        for i in range(n):
            for v in range(256):
                for bg in (base, [0] * n, [255] * n):
                    b = list(bg)
                    b[i] = v
                    one.append(bytes(b))
        out.append(one)
    edge = [0, 1, 9, 10, 15, 16, 127, 128, 254, 255]
    pairs = []
    for n in (3, 4):
        for c in product(edge if tier != "quick" else [0, 1, 15, 16, 128, 255], repeat=n):
            pairs.append(bytes(c))
    return [("bytes", out[0] + out[1]), ("corners", pairs)]


def check_channel(ctx, b):
    h = b.hex()
    mixed = "".join(c.upper() if i % 2 else c for i, c in enumerate(h))
    for s in (h, h.upper(), mixed):
        check_text(ctx, s)
        check_text(ctx, "#" + s)


def strings(tier):
    full = {"quick": 4, "thorough": 5}[tier]
    lv = []
    for n in range(full + 1):
        lv.append(("len%d" % n, [("all", t) for t in product(range(len(ALPHA)), repeat=n)]))
    small = ["#", "0", "f", "+", " ", "g"][: 4 if tier == "quick" else 5]
    for n in range(full + 1, 10 if tier != "quick" else 9):
        if len(small) ** n > 2500000:
            break
        lv.append(("small-len%d" % n, [("small", t) for t in product(range(len(small)), repeat=n)]))
    return lv


SMALL = ["#", "0", "f", "+", " ", "g"]


def check_string(ctx, st):
    kind, t = st
    check_text(ctx, "".join((ALPHA if kind == "all" else SMALL)[i] for i in t))


def edits(tier):
    """Edit graph around well-formed colours."""
    k = {"quick": 2, "thorough": 3}[tier]
    seeds = ["1a2B3c", "#1a2B3c", "80fF0102", "#80fF0102", "#000000", "ffffffff"]
    level = set(seeds)
    seen = set(level)
    out = [("edit0", sorted(level))]
    al = ALPHA if tier == "quick" else ALPHA[:12]
    for d in range(k):
        nxt = set()
        src = level if d < 2 else sorted(level)[:: 7]
        for s in src:
            for i in range(len(s) + 1):
                for c in al:
                    nxt.add(s[:i] + c + s[i:])
                    if i < len(s):
                        nxt.add(s[:i] + c + s[i + 1:])
                if i < len(s):
                    nxt.add(s[:i] + s[i + 1:])
        level = nxt - seen
        seen |= level
        out.append(("edit%d" % (d + 1), sorted(level)))
    return out


PLACES = [
    "map.background", "tile.tint", "object.tint", "image.tint", "group.tint", "nested.tint", "image.trans", "tileset.background",
    "tileset.trans", "wangcolor", "text", "prop.map", "prop.layer", "prop.object", "prop.tileset", "prop.tile", "prop.wangset", "prop.wangcolor", "shape.text",
    "collection.background",
]


def doc(place, c, at2=None, c2=None):
    v = {place: c}
    if at2:
        v[at2] = c2
    pr = lambda k: {"props": [P("c", "color", v["prop." + k])]} if "prop." + k in v else {}
    tint = lambda k: {"tintcolor": v[k + ".tint"]} if k + ".tint" in v else {}
    tx = lambda k: {"kind": "text", "id": 1, "x": 0, "y": 0, "text": dict({"text": "t"}, **({"color": v[k]} if k in v else {}))}
    wang = [dict({"name": "w", "colors": [dict({"name": "c", "color": v.get("wangcolor", "#0a0b0c")}, **pr("wangcolor")), {"name": "d", "color": "#0d0e0f"}], "tiles": []}, **pr("wangset"))]
    ts = TS("one", tiles=[dict({"id": 0, "objects": [tx("shape.text")]}, **pr("tile"))], wangsets=wang, **pr("tileset"))
    if "tileset.background" in v:
        ts["backgroundcolor"] = v["tileset.background"]
    if "tileset.trans" in v:
        ts["trans"] = v["tileset.trans"]
    tc = TC("two", (0, 1))
    if "collection.background" in v:
        tc["backgroundcolor"] = v["collection.background"]
    layers = [
        dict({"kind": "tile", "name": "t", "id": 1, "width": 1, "height": 1, "data": {"grid": [[1]]}}, **tint("tile")),
        dict(dict({"kind": "object", "name": "o", "id": 2, "objects": [tx("text"), dict({"id": 2, "x": 0, "y": 0}, **pr("object"))]}, **tint("object")), **pr("layer")),
        dict({"kind": "image", "name": "i", "id": 3, "image": "i.png"}, **dict(tint("image"), **({"trans": v["image.trans"]} if "image.trans" in v else {}))),
        dict({"kind": "group", "name": "g", "id": 4, "layers": [dict({"kind": "image", "name": "n", "id": 5, "image": "n.png"}, **tint("nested"))]}, **tint("group")),
    ]
    at = {"backgroundcolor": v["map.background"]} if "map.background" in v else {}
    return M(layers, [{"firstgid": 1, "ts": ts}, {"firstgid": 100, "ts": tc}], props=[P("c", "color", v["prop.map"])] if "prop.map" in v else None, **at)


BAD = ["", "#", "red", "#12345", "#1234567", "#123456789", "#12 456", "+12345", "#+1+1+1", "#-1-1-1", "#0x0x0x", "#12345g", "##12345", "#1_1_1_", "123", "#fff", "#ffff", "\uff11\uff11\uff11\uff11\uff11\uff11", " #ff0000", "#ff0000 ", "transparent", "0", "x1a2b3c", " 1a2b3c", "x80fF0102"]
# what clearing up would make a colour of
BAD += [
    "##102030", "#102030#", "102030#", "#102030\u00e9", "\u00e9102030", "#10203\u00e90", "0x102030", "0X80102030", "#0x102030", "#10 20 30", "#10,20,30", "#10-20-30", "#10_20_30", "#10:20:30", "'#102030'", '"#102030"', "(16,32,48)", "rgb(16,32,48)", "16,32,48", "#102030;", "#102030,", "&h102030",
    "\u00a0#102030", "#102030\u00a0", "\u3000102030", "\ufeff#102030", "#102030\u200b", "\uff03102030", "#\uff11\uff10\uff12\uff10\uff13\uff10", "#\u0661\u0660\u0662\u0660\u0663\u0660", "#\uff21\uff22\uff23\uff24\uff25\uff26", "#\u00b9\u2070\u00b2\u2070\u00b3\u2070", "%23102030", "#10%32030", "\\#102030", "#1020301", "#80102030F", "#80102030FF", "#00000000000", "#10203 ", "# 10203", "#-10203", "-#102030", "+102030", "#1.2e30",
    "1e1e1g", "black", "Black", "none", "None", "null", "true", "inherit", "#nan", "nan", "inf", "#l02o3o", "#102030 #405060", "#102030#405060", "102030 405060", "argb:80102030",
]


def places(tier):
    ok = dom.COL + ["1a2b3c", "80Ff0102"]
    step = 5 if tier == "quick" else 1
    byt = ["#%02x%02x%02x%02x" % tuple((v if i == j else 0x31 + j) for j in range(4)) for i in range(4) for v in range(0, 256, step)]
    byt += ["#%02x%02x%02x" % tuple((v if i == j else 0x31 + j) for j in range(3)) for i in range(3) for v in range(0, 256, step)]
    return [
        ("well-formed", [(p, c) for p in PLACES for c in ok + byt]),
        ("malformed", [(p, c) for p in PLACES for c in BAD]),
        ("two-places", [(p, "#80010203", q, c) for p in PLACES for q in PLACES if p != q for c in ("#405060", "#fg0000")]),
    ]


def check_place(ctx, st):
    for fmt in ("tmx", "json"):
        m = doc(*st)
        cs = [(st[0], st[1])] + ([(st[2], st[3])] if len(st) > 2 else [])
        bad = False
        for p, c in cs:
            # the saved spelling: JSON writers add the '#' of transparent colours
            if p.endswith("trans"):
                c = c if c.startswith("#") else "#" + c
                # (an image's trans attribute may lack it in TMX)
            bad = bad or not wellformed(c)
        rel = "m" + EXT[fmt]["map"]
        pth = ctx.put(rel, m_.map_bytes(m, fmt))
        obs = ctx.observe("map", rel)
        if bad:
            if obs[0] != "EXC":
                ctx.fail("parse_map(%r)" % rel, "malformed colour %r" % (cs,), "an error", "a result")
        else:
            ctx.expect("parse_map(%r)" % rel, m_.exp_map(m, fmt, pth), obs)


def spaces():
    return [
        Enum("channels", channels, check_channel),
        Enum("strings", strings, check_string),
        Enum("edits", edits, check_text),
        Enum("places", places, check_place),
        grow.space("C08"),
    ]
