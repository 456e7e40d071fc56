"""Every scalar place of one document that has everything, with every one of many values: the reference model's answer.

The checks' own spaces vary few values per place but several places at once; this one varies one place at a
time in a document where everything else is set too, over many more values.
"""
import copy

from . import dom
from .core import Enum
from .model import M, P
from .util import check_map

ASCII = [chr(c) for c in range(32, 127)]
OTHER = ["\t", "\n", "\u00a0", "\u00ad", "\u00df", "\u0130", "\u0131", "\u017f", "\u200b", "\u200d", "\u202e", "\u2028", "\u2029", "\u2212", "\u3000", "\ud7ff", "\ue000", "\ufeff", "\uff11", "\U0001f1e6", "\U0010ffff", "\u0301"]
WORDS = [
    "Null", "NULL", "None", "none", "undefined", "NaN", "inf", "Infinity", "True", "TRUE", "on", "off", "no", "y", "n", "id", "type", "class", "source", "image", "template", "tileset", "map", "tile", "group", "x", "y", "gid",
    "00", "01", "007", "+1", "1.", ".5", "1,5", "1e400", "0b1", "0o7", "1L", "1j", "12:30", "2020-01-01", "3/4", "100%", "%20", "%s", "%(a)s", "{0}", "{x}", "${x}", "$x", "~/x", "~", "*", "?.png", "[a-z]", "(", ")", "\\1", "\\n", "\\u0041", "\\\\",
    "&", "&lt;", "&#10;", "&nbsp;", "<b>", "</property>", "<?xml?>", "/*", "//", "--", "#", "##", "#f", "#12345", "#gggggg", "http://a/b", "file:///a", "C:/a", "//a/b", "/abs", "./a", "../a", "a/", "a//b", "a/./b", ".", "..", "CON", "a:b", "a;b", "a|b",
    " a", "a ", "  ", "a  b", "\ta", "a\n", "\n\n", "a\tb", "''", "\"\"", "'a'", "\"a\"", "`a`", "a'b", "a\"b", "e\u0301", "\u00e9", "\u212b", "\uac00", "\u1100\u1161", "ﬀ", "ß", "SS", "İ", "ı", "😀", "👨‍👩‍👧", "\u202eabc", "\ufeffa", "ab" * 500,
]
TEXTS = ASCII + OTHER + WORDS + [a + a for a in ASCII] + ["a" + c for c in ASCII] + [c + "a" for c in ASCII] + ["a" + c + "a" for c in ASCII] + [a + "ä" for a in "#%&"]
PATHS = [t for t in TEXTS if t.strip() and "\0" not in t and len(t) < 200]
POW = sorted({2 ** k + d for k in range(3, 32) for d in (-1, 0, 1)} | {10 ** k + d for k in range(1, 10) for d in (-1, 0, 1)})
NATS = list(range(0, 41)) + [p for p in POW if p <= 2 ** 31 - 1]
POSS = [n for n in NATS if n]
INTS = NATS + [-n for n in POSS] + [-2 ** 31]
FLOATS = sorted(
    {s * n / d for n in list(range(0, 41)) for d in (1, 2, 3, 8, 10, 100) for s in (1, -1)} | {s * p * f for p in POW for f in (1, 0.5, 1.1) for s in (1, -1)}
    | {s * 10.0 ** k for k in range(-12, 23) for s in (1, -1)} | {s * v for v in (0.1 + 0.2, 1 / 3, 123456.789, 3.4028234663852886e38, 1.17549435e-38, 5e-324, 1.7976931348623157e308, 2.0 ** 53 + 2, 45.0, 90.0, 180.0, 270.0, 359.99, 360.0, 720.0) for s in (1, -1)}
)
UNITS = [n / 256 for n in range(257)] + [n / 100 for n in range(101)] + [n / 1000 for n in (1, 5, 333, 999)]
COLS = ["#" + "".join("%02x" % b for b in (a, r, g, x)) for a, r, g, x in [(i, 255 - i, (i * 7) % 256, (i * 31 + 5) % 256) for i in range(0, 256, 3)]] + ["#%06x" % ((i * 2654435761) & 0xFFFFFF) for i in range(64)] + ["#%06X" % ((i * 40503) & 0xFFFFFF) for i in range(32)]
BOOLS = [True, False]

PROPS = [P("str", "string", "v"), P("num", "int", 5), P("flo", "float", 2.5), P("boo", "bool", True), P("col", "color", "#80102030"), P("fil", "file", "a/b.png"), P("obj", "object", 3)]


def props(t):
    return [P(t + p["name"], p["type"], p["value"]) for p in PROPS]


def everything():
    from .checks import c05

    lay = dict(opacity=0.5, visible=False, tintcolor="#40112233", offsetx=1.5, offsety=-2, parallaxx=0.5, parallaxy=1.25, repeatx=True, repeaty=True)
    lay.update({"class": "lclass"})
    objs = []
    for i, k in enumerate(c05.KINDS):
        o = c05.obj(k, i + 1, {"name": "obj%d" % i, "class": "oc%d" % i, "width": 10.5 + i, "height": 7.25, "rotation": 12.5, "visible": True, "props": props("o")})
        if k == "text":
            o["text"] = dict(text="hello", color="#11223344", fontfamily="Serif", pixelsize=20, bold=True, italic=True, kerning=False, strikeout=True, underline=True, halign="center", valign="bottom", wrap=True)
        objs.append(o)
    layers = [
        dict(lay, kind="tile", id=1, name="tiles", width=2, height=2, data={"grid": [[1, 2], [3, 0x80000004]]}, props=props("l")),
        dict(lay, kind="object", id=2, name="objects", objects=objs, draworder="index", props=props("l")),
        dict(lay, kind="group", id=3, name="group", props=props("l"), layers=[
            dict(lay, kind="image", id=4, name="image", image="bg.png", trans="#ff00fe", props=props("l")),
            dict(lay, kind="tile", id=5, name="chunks", width=2, height=1, data={"chunks": [{"x": -2, "y": 4, "w": 2, "h": 1, "grid": [[5, 6]]}]}),
        ]),
    ]
    wang = {"name": "wang", "class": "wc", "type": "mixed", "tile": 3, "props": props("w"), "colors": [
        {"name": "red", "class": "cc", "color": "#ff0000", "tile": 2, "probability": 0.75, "props": props("c")},
        {"name": "green", "color": "#00ff00"}], "tiles": [(2, [1, 0, 2, 0, 1, 0, 2, 0]), (5, [0, 1, 0, 1, 0, 1, 0, 1])]}
    tile = {"id": 2, "class": "tc", "x": 1, "y": 2, "width": 9, "height": 11, "props": props("t"), "image": ("tile.png", 13, 17), "animation": [(2, 100), (4, 250)], "objects": [dict(objs[0], id=31), dict(objs[2], id=32)]}
    ts = dict(name="ts", tilewidth=16, tileheight=12, tilecount=8, columns=4, spacing=1, margin=2, fillmode="stretch", tilerendersize="grid", objectalignment="center", backgroundcolor="#80aabbcc",
              version="1.9", tiledversion="1.9.2", image=("img/ts.png", 64, 48), trans="#ff00ff", tileoffset=(3, -4), grid=("isometric", 18, 20), props=props("s"), tiles=[tile, {"id": 6}], wangsets=[wang],
              transformations=(True, False, True, False))
    ts["class"] = "tsc"
    m = M(layers, [{"firstgid": 1, "ts": ts}, {"firstgid": 50, "ts": dict(name="two", tilewidth=8, tileheight=8, tilecount=2, columns=1, image=("two.png", 8, 16))}], props("m"),
          hexsidelength=6, staggeraxis="x", staggerindex="even", parallaxoriginx=5.5, parallaxoriginy=-3.25, backgroundcolor="#ffeeddcc")
    m["attrs"]["class"] = "mapclass"
    return m


NAT = {"id", "nextlayerid", "nextobjectid", "hexsidelength", "tilecount", "columns", "spacing", "margin", "gid"}
POSK = {"tilewidth", "tileheight", "firstgid", "pixelsize"}
FLO = {"x", "y", "width", "height", "rotation", "offsetx", "offsety", "parallaxx", "parallaxy", "parallaxoriginx", "parallaxoriginy", "probability"}
TXT = {"name", "class", "text", "fontfamily", "version", "tiledversion"}
COL = {"tintcolor", "trans", "backgroundcolor", "color"}


def kind(where):
    """The values a place may have, or None; where: the way to it."""
    k = where[-1]
    if "data" in where:
        if k in ("x", "y"):
            return INTS
        return GIDS if "grid" in where else None
    if "props" in where:
        return TXT and {"name": TEXTS}.get(k) if k != "value" else "prop"
    if "tiles" in where and "wangsets" in where:
        return NATS if len(where) and where[-2] != 1 else None
    if "animation" in where or "tileoffset" in where and "objects" not in where:
        return INTS if "tileoffset" in where else NATS
    if "grid" in where:
        return POSS if k in (1, 2) else None
    if "transformations" in where:
        return BOOLS
    if "points" in where:
        return FLOATS
    if "image" in where:
        return PATHS if k in (0, "image") else POSS
    if k in ("width", "height", "x", "y") and "objects" not in where:
        if "layers" in where:
            return None  # the size of a layer goes with its data
        return NATS
    if k == "tile":
        return INTS
    if k == "opacity":
        return UNITS
    if k == "gid":
        return GIDS[1:]
    if k in NAT:
        return NATS
    if k in POSK:
        return POSS
    if k in FLO:
        return FLOATS
    if k in TXT:
        return TEXTS
    if k in COL:
        return COLS
    return None


GIDS = [n for n in NATS] + [f << 28 | n for f in range(1, 16) for n in (0, 1, 7, 0x0FFFFFFF)]
PROPV = {"string": TEXTS, "int": INTS, "float": FLOATS, "bool": BOOLS, "color": COLS, "file": PATHS, "object": NATS}


def owner(where):
    if "props" in where:
        return "C07"
    if where[0] == "attrs":
        return "C22"
    if where[0] == "layers":
        if "objects" in where:
            return "C06" if where[-1] in TXT | {"pixelsize", "color", "visible"} else "C05"
        return "C02" if "data" in where else "C04"
    if "wangsets" in where:
        return "C11"
    if "tiles" in where:
        return "C10"
    return "C09"


def places():
    """(owner, way, values) for every scalar place."""
    out = []

    def walk(v, where):
        if isinstance(v, dict):
            it = v.items()
        elif isinstance(v, (list, tuple)):
            it = enumerate(v)
        else:
            return leaf(v, where)
        for k, x in it:
            walk(x, where + (k,))

    def leaf(v, where):
        ks = kind(where)
        if ks == "prop":
            ks = PROPV[at(doc(), where[:-1])["type"]]
        elif isinstance(v, bool):
            ks = BOOLS
        if ks:
            out.append((owner(where), where, ks))

    walk(doc(), ())
    return out


def at(m, where):
    for k in where:
        m = m[k]
    return m


def put(v, where, x):
    if not where:
        return x
    k, rest = where[0], where[1:]
    if isinstance(v, tuple):
        return tuple([put(y, rest, x) if i == k else y for i, y in enumerate(v)])
    v = copy.copy(v)
    v[k] = put(v[k], rest, x)
    return v


_DOC = []


def doc():
    # built on first use: the checks import this module
    if not _DOC:
        _DOC.append(everything())
    return _DOC[0]


def allowed(where, v):
    # names of properties of one list, tile ids of one tileset and the like stay apart
    if where[-1] == "name" and "props" in where:
        return v not in [p["name"] for p in at(doc(), where[:-2])]
    if where[-1] == "id" and "layers" not in where and "objects" not in where:
        return v not in (2, 6)
    if "wangsets" in where and "tiles" in where and "wangid" not in where:
        return v not in (2, 5)
    if where[-1] == "firstgid":
        return v not in (1, 50)
    if isinstance(v, str) and not all(c in "\t\n" or c >= " " for c in v):
        return False
    if where[-1] == "text" and v.strip() == "" and v:
        return True
    return True


def states(cid, tier):
    mine = [(w, ks) for o, w, ks in places() if o == cid]
    total = sum(len(ks) for w, ks in mine)
    # in a larger space, every value at every k-th place, each starting at another one
    k = max(1, -(-total // {"quick": 20000, "thorough": 10 ** 9}[tier]))
    return [(w, v) for j, (w, ks) in enumerate(mine) for i, v in enumerate(ks) if (i + j) % k == 0 and allowed(w, v)]


def check(ctx, st):
    w, v = st
    check_map(ctx, put(doc(), w, v))


def space(cid):
    return Enum("wide", lambda tier: [("one place, every value", states(cid, tier))], check, edges=lambda s: 1)


# two places that happen to have the same value
def sort_of(ks):
    if ks is TEXTS:
        return "text"
    if ks is PATHS:
        return "path"
    if ks is COLS:
        return "color"
    return None if ks is BOOLS or ks is UNITS else "number"


SAME = {"text": ["same", "", "5"], "path": ["same.png"], "color": ["#80010203", "#ffffffff"], "number": [3, 5]}


def pairs(cid, tier):
    ps = [(o, w, sort_of(ks)) for o, w, ks in places()]
    quick = tier == "quick"
    out = []
    for i, (o, a, s) in enumerate(ps):
        for k, b, t in ps[i + 1:]:
            if cid not in (o, k) or not s or not t or (s != t and {s, t} != {"text", "path"}):
                continue
            beside = a[:-1] == b[:-1] or a[:-2] == b[:-2]
            if o == k == "C07":
                # properties of one carrier
                if not beside and (quick or a[-1] != b[-1]):
                    continue
            elif o == k:
                if quick and not (beside or a[-1] == b[-1]):
                    continue
            elif "C07" in (o, k) or quick and (s == t == "number"):
                # a property and something of its carrier
                if a[:-1] != b[:-3] and b[:-1] != a[:-3]:
                    continue
            if a[:-2] == b[:-2] and a[-1] == b[-1] and (a[-1] == "name" and "props" in a or a[-1] == "id" and "layers" not in a and "objects" not in a or a[-1] == "firstgid"):
                continue  # keys, which stay apart
            if "wangsets" in a and "tiles" in a and "wangsets" in b and "tiles" in b and a[-1] == b[-1] == 0:
                continue
            for v in SAME[s if s != "text" else t]:
                if allowed(a, v) and allowed(b, v):
                    out.append((a, b, v))
    return out


def check_pairs(ctx, st):
    a, b, v = st
    check_map(ctx, put(put(doc(), a, v), b, v))


def same(cid):
    return Enum("same-value", lambda tier: [("two places, one value", pairs(cid, tier))], check_pairs, edges=lambda s: 2)
