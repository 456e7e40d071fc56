"""The reference model.

An abstract Tiled document is plain data (dicts/lists that hold only what is
"saved").  This module gives it three meanings, all independent of the code
under test:

  * tmx_*  : the TMX/TSX/TX element tree Tiled would write for it
  * json_* : the JSON object Tiled would write for it
  * exp_*  : the value the library must return for it (a canonical tree)

and `dump` turns a real result of the library into the same canonical tree.
"""
import base64
import gzip
import json
import struct
import zlib
from pathlib import PurePath

# --------------------------------------------------------------------------
# canonical trees of observed results
# --------------------------------------------------------------------------

LAYER = [
    "name", "opacity", "visible", "repeat_x", "repeat_y", "coordinates",
    "parallax_factor", "offset", "id:int", "class_", "size", "properties",
    "tint_color",
]
OBJ = ["id:int", "coordinates", "size", "rotation", "visible", "name", "class_", "properties"]
SCHEMA = {
    "TiledMap": [
        "map_file", "infinite", "layers", "map_size", "next_layer_id:int",
        "next_object_id:int", "orientation", "render_order", "tiled_version",
        "tile_size", "tilesets", "version", "parallax_origin", "class_",
        "background_color", "properties", "hex_side_length:int",
        "stagger_axis", "stagger_index",
    ],
    "TileLayer": LAYER + ["chunks", "data:int"],
    "ObjectLayer": LAYER + ["tiled_objects", "draw_order"],
    "ImageLayer": LAYER + ["image", "transparent_color"],
    "LayerGroup": LAYER + ["layers"],
    "Chunk": ["coordinates", "size", "data:int"],
    "Rectangle": OBJ,
    "Ellipse": OBJ,
    "Point": OBJ,
    "Polygon": OBJ + ["points"],
    "Polyline": OBJ + ["points"],
    "Text": OBJ + [
        "text", "color", "font_family", "font_size", "bold", "italic",
        "kerning", "strike_out", "underline", "horizontal_align",
        "vertical_align", "wrap",
    ],
    "TileObject": OBJ + ["gid:int"],
    "Tileset": [
        "name", "tile_width:int", "tile_height:int", "tile_count:int",
        "columns:int", "firstgid:int", "type", "tile_render_size", "fill_mode",
        "spacing:int", "margin:int", "tiled_version", "version", "image",
        "image_width:int", "image_height:int", "transformations", "class_",
        "background_color", "tile_offset", "transparent_color", "grid",
        "properties", "tiles", "wang_sets", "alignment",
    ],
    "TilesetTile": [
        "id:int", "opacity", "x:int", "y:int", "width:int", "height:int",
        "class_", "animation", "objects", "image", "image_width:int",
        "image_height:int", "properties", "tileset", "flipped_horizontally",
        "flipped_diagonally", "flipped_vertically",
    ],
    "Transformations": ["hflip", "vflip", "rotate", "prefer_untransformed"],
    "Grid": ["orientation", "width:int", "height:int"],
    "Frame": ["tile_id:int", "duration:int"],
    "WangSet": ["name", "tile:int", "wang_type", "wang_tiles", "wang_colors", "class_", "properties"],
    "WangColor": ["color", "name", "probability", "tile:int", "class_", "properties"],
    "WangTile": ["tile_id:int", "wang_id:int"],
    "World": ["maps", "only_show_adjacent"],
    "WorldMap": ["map_file", "size", "coordinates"],
}
FIELDS = {
    c: [(f.split(":")[0], f.endswith(":int")) for f in fs] for c, fs in SCHEMA.items()
}


class _Missing:
    """Stands for an attribute the result does not have."""


MISSING = _Missing()


def _cls(o):
    n = type(o).__name__
    if n == "Tile":
        return "TileObject" if hasattr(o, "gid") else "TilesetTile"
    return n


def dump(o, ints=False):
    """Canonical tree of a value the library returned."""
    if o is None:
        return None
    t = type(o)
    if t is bool:
        return ("bool", o)
    if t is int:
        return o
    if t is float:
        if ints:
            return ("not-an-int", repr(o))
        return o
    if t is str:
        return o
    if t is list:
        return ("list", tuple([dump(v, ints) for v in o]))
    if t is dict:
        return ("dict", tuple(sorted(((repr(k), ("int", v) if type(v) is int else dump(v)) for k, v in o.items()), key=_first)))
    if isinstance(o, PurePath):
        return ("path", str(o))
    n = t.__name__
    if n in ("Color", "Size", "OrderedPair"):
        return (n,) + tuple([dump(v, n == "Color") for v in o])
    n = _cls(o)
    if n in FIELDS:
        return (n, tuple([(f, dump(getattr(o, f, MISSING), i)) for f, i in FIELDS[n]]))
    return ("unknown", t.__module__ + "." + t.__qualname__)


def _first(kv):
    return kv[0]


def D(d):
    """Expected dict (values already canonical)."""
    return ("dict", tuple(sorted(((repr(k), v) for k, v in d.items()), key=_first)))


def L(items):
    return ("list", tuple(items))


def O(name, /, **kw):
    """Expected object; every schema field must be given."""
    fs = FIELDS[name]
    assert len(kw) == len(fs), (name, set(kw) ^ {f for f, _ in fs})
    return (name, tuple([(f, kw[f]) for f, _ in fs]))


def B(v):
    return ("bool", bool(v))


def pair(x, y):
    return ("OrderedPair", x, y)


def size(w, h):
    return ("Size", w, h)


def path(s):
    return ("path", str(PurePath(s)))


def color(s):
    """Reference colour semantics, for well-formed strings only."""
    s = s[1:] if s.startswith("#") else s
    v = bytes.fromhex(s)
    if len(v) == 3:
        return ("Color", v[0], v[1], v[2], 255)
    a, r, g, b = v
    return ("Color", r, g, b, a)


def first_diff(exp, obs, where="result"):
    """(where, expected, observed) of the first difference, or None."""
    if exp == obs and not (isinstance(exp, bool) or isinstance(obs, bool)):
        return None
    if isinstance(exp, tuple) and isinstance(obs, tuple):
        if exp and obs and exp[0] == obs[0] and len(exp) == len(obs):
            tag = exp[0]
            if tag == "list":
                a, b = exp[1], obs[1]
                if len(a) != len(b):
                    return (where + " (length)", len(a), len(b)) if len(repr(a)) + len(repr(b)) > 600 else (where, exp, obs)
                for i, (x, y) in enumerate(zip(a, b)):
                    d = first_diff(x, y, "%s[%d]" % (where, i))
                    if d:
                        return d
            elif tag == "dict":
                a, b = dict(exp[1]), dict(obs[1])
                if sorted(a) != sorted(b):
                    return (where + " (keys)", sorted(a), sorted(b))
                for k in a:
                    d = first_diff(a[k], b[k], "%s[%s]" % (where, k))
                    if d:
                        return d
            elif isinstance(tag, str) and tag in FIELDS:
                for (f, x), (_, y) in zip(exp[1], obs[1]):
                    d = first_diff(x, y, where + "." + f)
                    if d:
                        return d
    return (where, exp, obs)


# --------------------------------------------------------------------------
# element trees
# --------------------------------------------------------------------------


class E:
    __slots__ = ("tag", "attrs", "kids", "text")

    def __init__(self, tag, attrs=(), kids=(), text=None):
        self.tag = tag
        self.attrs = [(k, v) for k, v in attrs if v is not None]
        self.kids = [k for k in kids if k is not None]
        self.text = text


def esc_text(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def esc_attr(s):
    return (
        esc_text(s).replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    )


def xml(e, ind=0, out=None):
    """Tiled's own formatting: one element per line, one space indentation."""
    top = out is None
    if top:
        out = ['<?xml version="1.0" encoding="UTF-8"?>\n']
    pad = " " * ind
    out.append(pad + "<" + e.tag)
    for k, v in e.attrs:
        out.append(' %s="%s"' % (k, esc_attr(v)))
    if not e.kids and e.text is None:
        out.append("/>\n")
    elif not e.kids:
        out.append(">" + esc_text(e.text) + "</" + e.tag + ">\n")
    else:
        out.append(">\n")
        for k in e.kids:
            xml(k, ind + 1, out)
        out.append(pad + "</" + e.tag + ">\n")
    if top:
        return "".join(out).encode("utf-8")


def jsn(o):
    return json.dumps(o, ensure_ascii=False, indent=1).encode("utf-8")


def zstd(raw):
    """A Zstandard frame (RFC 8878) of raw blocks and, for runs, repeated ones."""
    out = [b"\x28\xb5\x2f\xfd", b"\xa0", struct.pack("<I", len(raw))]
    cut = [raw[i : i + 1000] for i in range(0, len(raw), 1000)] or [b""]
    for i, b in enumerate(cut):
        same = len(b) > 1 and b == b[:1] * len(b)
        out.append(struct.pack("<I", (i == len(cut) - 1) | (2 if same else 0) | len(b) << 3)[:3] + (b[:1] if same else b))
    return b"".join(out)


def num(v):
    if v is None:
        return None
    if v is True or v is False:
        return "1" if v else "0"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    return repr(v)


# --------------------------------------------------------------------------
# properties
# --------------------------------------------------------------------------


def P(name, type_, value):
    return {"name": name, "type": type_, "value": value}


def tmx_props(props):
    if props is None:
        return None
    kids = []
    for p in props:
        t, v = p["type"], p["value"]
        at = [("name", p["name"])]
        if t != "string" or p.get("typed"):
            at.append(("type", t))
        if t == "class":
            at.append(("propertytype", "Cls"))
            kids.append(E("property", at, [tmx_props([P(k, "string", x) for k, x in v.items()])] if v else []))
        elif t == "string" and "\n" in v:
            kids.append(E("property", at, text=v))
        else:
            if t == "bool":
                v = "true" if v else "false"
            kids.append(E("property", at + [("value", v if isinstance(v, str) else num(v))]))
    return E("properties", [], kids)


def json_props(props):
    out = []
    for p in props:
        d = {"name": p["name"], "type": p["type"], "value": p["value"]}
        if p["type"] == "class":
            d["propertytype"] = "Cls"
        out.append(d)
    return out


class AnyNum:
    """A number of either Python type (JSON stores the float 2.0 as 2)."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if isinstance(o, tuple):
            return len(o) == 2 and o[0] == "int" and o[1] == self.v
        return type(o) in (int, float) and o == self.v

    __hash__ = None

    def __repr__(self):
        return "number %r" % self.v


def loose(t):
    """The canonical tree with ints and floats of equal value identified."""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "int":
            return t[1]
        return tuple([loose(x) for x in t])
    return t


def exp_prop(p):
    t, v = p["type"], p["value"]
    if t in ("int", "object"):
        return ("int", v)
    if t == "float":
        return AnyNum(v)
    if t == "bool":
        return B(v)
    if t == "file":
        return path(v)
    if t == "color":
        return color(v)
    return v


def exp_props(props, default=None):
    if props is None:
        return default
    return D({p["name"]: exp_prop(p) for p in props if p["type"] != "class"})


EMPTY = D({})

# --------------------------------------------------------------------------
# objects
# --------------------------------------------------------------------------

TEXT_KEYS = ["fontfamily", "pixelsize", "wrap", "color", "bold", "italic", "underline", "strikeout", "kerning", "halign", "valign"]


def points_str(pts):
    return " ".join("%s,%s" % (num(x), num(y)) for x, y in pts)


def tmx_object(o):
    at = [("id", num(o.get("id")))]
    if "template" in o:
        at.append(("template", o["template"]))
    at += [
        ("name", o.get("name")),
        (o.get("classkey", "type"), o.get("class")),
        ("gid", num(o.get("gid"))),
        ("x", num(o.get("x"))),
        ("y", num(o.get("y"))),
        ("width", num(o.get("width"))),
        ("height", num(o.get("height"))),
        ("rotation", num(o.get("rotation"))),
        ("visible", num(o.get("visible"))),
    ]
    kids = [tmx_props(o.get("props"))]
    k = o.get("kind")
    if k in ("ellipse", "point"):
        kids.append(E(k))
    elif k in ("polygon", "polyline"):
        kids.append(E(k, [("points", points_str(o["points"]))]))
    elif k == "text":
        t = o["text"]
        kids.append(E("text", [(x, num(t.get(x))) for x in TEXT_KEYS], text=t["text"] or None))
    return E("object", at, kids)


def json_object(o, partial=False):
    """partial: a template instance, which stores only what it overrides."""
    d = {}
    if "id" in o:
        d["id"] = o["id"]
    if "template" in o:
        d["template"] = o["template"]
    if "gid" in o:
        d["gid"] = o["gid"]
    for k, dv in (("name", ""), ("rotation", 0), ("visible", True), ("width", 0), ("height", 0)):
        if k in o:
            d[k] = o[k]
        elif not partial:
            d[k] = dv
    ck = o.get("classkey", "type")
    if "class" in o:
        d[ck] = o["class"]
    elif not partial:
        d[ck] = ""
    for k in ("x", "y"):
        if k in o:
            d[k] = o[k]
    if "props" in o:
        d["properties"] = json_props(o["props"])
    k = o.get("kind")
    if k in ("ellipse", "point"):
        d[k] = True
    elif k in ("polygon", "polyline"):
        d[k] = [{"x": x, "y": y} for x, y in o["points"]]
    elif k == "text":
        t = o["text"]
        d["text"] = {x: t[x] for x in ["text"] + TEXT_KEYS if x in t}
    return d


KINDCLS = {
    "rect": "Rectangle", "ellipse": "Ellipse", "point": "Point", "polygon": "Polygon",
    "polyline": "Polyline", "text": "Text", "tile": "TileObject",
}


def exp_object(o, gid=None):
    kw = dict(
        id=o["id"],
        coordinates=pair(o["x"], o["y"]),
        size=size(o.get("width", 0), o.get("height", 0)),
        rotation=o.get("rotation", 0),
        visible=B(o.get("visible", True)),
        name=o.get("name", ""),
        class_=o.get("class", ""),
        properties=exp_props(o.get("props"), EMPTY),
    )
    k = o.get("kind", "rect")
    if k in ("polygon", "polyline"):
        kw["points"] = L([pair(x, y) for x, y in o["points"]])
    elif k == "tile":
        kw["gid"] = o["gid"] if gid is None else gid
    elif k == "text":
        t = o["text"]
        kw.update(
            text=t["text"],
            color=color(t.get("color", "#ffffff")),
            font_family=t.get("fontfamily", "sans-serif"),
            font_size=t.get("pixelsize", 16),
            bold=B(t.get("bold", False)),
            italic=B(t.get("italic", False)),
            kerning=B(t.get("kerning", True)),
            strike_out=B(t.get("strikeout", False)),
            underline=B(t.get("underline", False)),
            horizontal_align=t.get("halign", "left"),
            vertical_align=t.get("valign", "top"),
            wrap=B(t.get("wrap", False)),
        )
    return O(KINDCLS[k], **kw)


# --------------------------------------------------------------------------
# tile data
# --------------------------------------------------------------------------


def encode(grid, enc, comp, level=-1):
    flat = [g for r in grid for g in r]
    raw = struct.pack("<%dI" % len(flat), *flat)
    if callable(level):
        raw = level(comp, raw)
    elif comp == "zlib":
        raw = zlib.compress(raw, level)
    elif comp == "gzip":
        raw = gzip.compress(raw, 9 if level < 0 else level, mtime=0)
    elif comp == "zstd":
        raw = zstd(raw)
    return base64.b64encode(raw).decode()


def csv(grid):
    return "\n" + ",\n".join(",".join(str(g) for g in r) for r in grid) + "\n"


def tmx_grid(tag, attrs, grid, enc, comp, level):
    if enc == "csv":
        return E(tag, attrs, text=csv(grid))
    if enc == "xml":
        return E(tag, attrs, [E("tile", [("gid", str(g) if g else None)]) for r in grid for g in r])
    return E(tag, attrs, text="\n   " + encode(grid, enc, comp, level) + "\n  ")


def tmx_data(d):
    enc, comp = d.get("enc", "csv"), d.get("comp", "")
    at = []
    if enc != "xml":
        at.append(("encoding", enc))
    if comp or d.get("nocomp"):
        at.append(("compression", comp))
    if "chunks" in d:
        return E("data", at, [
            tmx_grid("chunk", [("x", num(c["x"])), ("y", num(c["y"])), ("width", num(c["w"])), ("height", num(c["h"]))],
                     c["grid"], enc, comp, d.get("level", -1))
            for c in d["chunks"]
        ], text=d.get("blank"))
    return tmx_grid("data", at, d["grid"], enc, comp, d.get("level", -1))


def json_data(d, layer):
    enc, comp = d.get("enc", "csv"), d.get("comp", "")
    def one(grid):
        if enc == "base64":
            return encode(grid, enc, comp, d.get("level", -1))
        return [g for r in grid for g in r]
    if enc == "base64":
        layer["encoding"] = "base64"
        if not d.get("nocomp"):
            layer["compression"] = comp
    elif d.get("explicit_csv"):
        layer["encoding"] = "csv"
    if "chunks" in d:
        layer["chunks"] = [
            {"data": one(c["grid"]), "height": c["h"], "width": c["w"], "x": c["x"], "y": c["y"]}
            for c in d["chunks"]
        ]
    else:
        layer["data"] = one(d["grid"])


def exp_grid(grid):
    return L([L(r) for r in grid])


# --------------------------------------------------------------------------
# layers
# --------------------------------------------------------------------------

LTAG = {"tile": "layer", "object": "objectgroup", "image": "imagelayer", "group": "group"}
JTYPE = {"tile": "tilelayer", "object": "objectgroup", "image": "imagelayer", "group": "group"}


def tmx_layer(l):
    k = l["kind"]
    at = [("id", num(l.get("id"))), ("name", l.get("name")), ("class", l.get("class"))]
    if k == "tile":
        at += [("width", num(l["width"])), ("height", num(l["height"]))]
    at += [(x, num(l.get(x))) for x in ("opacity", "visible", "tintcolor", "offsetx", "offsety", "parallaxx", "parallaxy", "repeatx", "repeaty", "draworder")]
    kids = [tmx_props(l.get("props"))]
    if k == "tile":
        if "data" in l:
            kids.append(tmx_data(l["data"]))
    elif k == "object":
        kids += [tmx_object(o) for o in l.get("objects", [])]
    elif k == "image" and l["image"] is not None:
        kids.append(E("image", [("source", l["image"]), ("trans", l.get("trans")), ("width", "32"), ("height", "32")]))
    elif k == "group":
        kids += [tmx_layer(c) for c in l.get("layers", [])]
    return E(LTAG[k], at, kids)


def json_layer(l):
    k = l["kind"]
    d = {"type": JTYPE[k], "x": 0, "y": 0, "name": l.get("name", ""), "opacity": l.get("opacity", 1), "visible": l.get("visible", True)}
    for x in ("id", "class", "tintcolor", "offsetx", "offsety", "parallaxx", "parallaxy", "repeatx", "repeaty"):
        if x in l:
            d[x] = l[x]
    if "props" in l:
        d["properties"] = json_props(l["props"])
    if k == "tile":
        d["width"], d["height"] = l["width"], l["height"]
        if "data" in l:
            json_data(l["data"], d)
        if "startx" in l:
            d["startx"], d["starty"] = l["startx"], l["starty"]
    elif k == "object":
        d["draworder"] = l.get("draworder", "topdown")
        d["objects"] = [json_object(o, "template" in o) for o in l.get("objects", [])]
    elif k == "image":
        d["image"] = l["image"]
        if "trans" in l:
            d["transparentcolor"] = l["trans"] if l["trans"].startswith("#") else "#" + l["trans"]
    else:
        d["layers"] = [json_layer(c) for c in l.get("layers", [])]
    return d


def exp_layer(l, fmt, obj=exp_object):
    k = l["kind"]
    kw = dict(
        name=l.get("name", ""),
        opacity=l.get("opacity", 1),
        visible=B(l.get("visible", True)),
        repeat_x=B(l.get("repeatx", False)),
        repeat_y=B(l.get("repeaty", False)),
        coordinates=pair(0, 0),
        parallax_factor=pair(l.get("parallaxx", 1), l.get("parallaxy", 1)),
        offset=pair(l.get("offsetx", 0), l.get("offsety", 0)),
        id=l.get("id"),
        class_=l.get("class"),
        size=None,
        properties=exp_props(l.get("props")),
        tint_color=color(l["tintcolor"]) if "tintcolor" in l else None,
    )
    if k == "tile":
        kw["size"] = size(l["width"], l["height"])
        kw["chunks"] = kw["data"] = None
        d = l.get("data")
        if d and "chunks" in d:
            kw["chunks"] = L([O("Chunk", coordinates=pair(c["x"], c["y"]), size=size(c["w"], c["h"]), data=exp_grid(c["grid"])) for c in d["chunks"]])
        elif d:
            kw["data"] = exp_grid(d["grid"])
        if "startx" in l and fmt == "json":
            kw["coordinates"] = pair(l["startx"], l["starty"])
        return O("TileLayer", **kw)
    if k == "object":
        return O("ObjectLayer", tiled_objects=L([obj(o) for o in l.get("objects", [])]), draw_order=l.get("draworder", "topdown"), **kw)
    if k == "image":
        return O("ImageLayer", image=path(l["image"]), transparent_color=color(l["trans"]) if "trans" in l else None, **kw)
    return O("LayerGroup", layers=L([exp_layer(c, fmt, obj) for c in l.get("layers", [])]), **kw)


# --------------------------------------------------------------------------
# tilesets
# --------------------------------------------------------------------------


def tmx_wangset(w):
    kids = []
    if "props" in w:
        kids.append(tmx_props(w["props"]))
    for c in w.get("colors", []):
        kids.append(E("wangcolor", [("name", c["name"]), ("class", c.get("class")), ("color", c["color"]), ("tile", num(c.get("tile", -1))), ("probability", num(c.get("probability", 1)))], [tmx_props(c.get("props"))]))
    for t, ids in w.get("tiles", []):
        kids.append(E("wangtile", [("tileid", num(t)), ("wangid", ",".join(map(str, ids)))]))
    return E("wangset", [("name", w["name"]), ("class", w.get("class")), ("type", w.get("type", "mixed")), ("tile", num(w.get("tile", -1)))], kids)


def json_wangset(w):
    d = {
        "name": w["name"], "type": w.get("type", "mixed"), "tile": w.get("tile", -1), "colors": [],
        "wangtiles": [{"tileid": t, "wangid": list(ids)} for t, ids in w.get("tiles", [])],
    }
    for c in w.get("colors", []):
        e = {"name": c["name"], "color": c["color"], "tile": c.get("tile", -1), "probability": c.get("probability", 1)}
        if "class" in c:
            e["class"] = c["class"]
        if "props" in c:
            e["properties"] = json_props(c["props"])
        d["colors"].append(e)
    if "class" in w:
        d["class"] = w["class"]
    if "props" in w:
        d["properties"] = json_props(w["props"])
    return d


def exp_wangset(w):
    return O(
        "WangSet", name=w["name"], tile=w.get("tile", -1), wang_type=w.get("type", "mixed"),
        wang_tiles=D({t: O("WangTile", tile_id=t, wang_id=L(ids)) for t, ids in w.get("tiles", [])}),
        wang_colors=L([
            O("WangColor", color=color(c["color"]), name=c["name"], probability=c.get("probability", 1), tile=c.get("tile", -1),
              class_=c.get("class"), properties=exp_props(c.get("props")))
            for c in w.get("colors", [])
        ]),
        class_=w.get("class"), properties=exp_props(w.get("props")),
    )


def tmx_tile(t):
    kids = [tmx_props(t.get("props"))]
    if "image" in t:
        s, w, h = t["image"]
        kids.append(E("image", [("width", num(w)), ("height", num(h)), ("source", s)]))
    if "objects" in t:
        kids.append(E("objectgroup", [("draworder", "index")], [tmx_object(o) for o in t["objects"]]))
    if "animation" in t:
        kids.append(E("animation", [], [E("frame", [("tileid", num(a)), ("duration", num(b))]) for a, b in t["animation"]]))
    return E("tile", [("id", num(t["id"])), (t.get("classkey", "type"), t.get("class"))] + [(k, num(t.get(k))) for k in ("x", "y", "width", "height")], kids)


def json_tile(t):
    d = {"id": t["id"]}
    if "class" in t:
        d[t.get("classkey", "type")] = t["class"]
    if "props" in t:
        d["properties"] = json_props(t["props"])
    if "image" in t:
        d.update((k, v) for k, v in zip(("image", "imagewidth", "imageheight"), t["image"]) if v is not None)
    if "objects" in t:
        d["objectgroup"] = json_layer({"kind": "object", "draworder": "index", "objects": t["objects"]})
    if "animation" in t:
        d["animation"] = [{"tileid": a, "duration": b} for a, b in t["animation"]]
    for k in ("x", "y", "width", "height"):
        if k in t:
            d[k] = t[k]
    return d


def exp_tile(t, fmt, img):
    iw = ih = None
    im = None
    if "image" in t:
        s, iw, ih = t["image"]
        im = img(s)
    return O(
        "TilesetTile", id=t["id"], opacity=1, x=t.get("x", 0), y=t.get("y", 0),
        width=t.get("width", iw or 0), height=t.get("height", ih or 0), class_=t.get("class"),
        animation=L([O("Frame", tile_id=a, duration=b) for a, b in t["animation"]]) if "animation" in t else None,
        objects=exp_layer({"kind": "object", "draworder": "index", "objects": t["objects"]}, fmt) if "objects" in t else None,
        image=im, image_width=iw, image_height=ih, properties=exp_props(t.get("props")),
        tileset=None, flipped_horizontally=B(False), flipped_diagonally=B(False), flipped_vertically=B(False),
    )


TS_OPT = ["class", "fillmode", "tilerendersize", "objectalignment", "backgroundcolor", "version", "tiledversion"]


def tmx_tileset(t, firstgid=None, source=None):
    if source is not None:
        return E("tileset", [("firstgid", num(firstgid)), ("source", source)])
    at = [("firstgid", num(firstgid))] if firstgid is not None else []
    at += [(k, num(t.get(k))) for k in ("version", "tiledversion", "name", "class", "tilewidth", "tileheight", "spacing", "margin", "tilecount", "columns", "objectalignment", "tilerendersize", "fillmode", "backgroundcolor")]
    kids = []
    if "tileoffset" in t:
        kids.append(E("tileoffset", [("x", num(t["tileoffset"][0])), ("y", num(t["tileoffset"][1]))]))
    if "grid" in t:
        g = t["grid"]
        kids.append(E("grid", [("orientation", g[0]), ("width", num(g[1])), ("height", num(g[2]))]))
    kids.append(tmx_props(t.get("props")))
    if "image" in t:
        s, w, h = t["image"]
        tr = t.get("trans")
        kids.append(E("image", [("source", s), ("trans", tr), ("width", num(w)), ("height", num(h))]))
    kids += [tmx_tile(x) for x in t.get("tiles", [])]
    if "wangsets" in t:
        kids.append(E("wangsets", [], [tmx_wangset(w) for w in t["wangsets"]]))
    if "transformations" in t:
        kids.append(E("transformations", [(k, num(v)) for k, v in zip(("hflip", "vflip", "rotate", "preferuntransformed"), t["transformations"])]))
    return E("tileset", at, kids)


def json_tileset(t, firstgid=None, source=None):
    if source is not None:
        return {"firstgid": firstgid, "source": source}
    d = {"type": "tileset"}
    if firstgid is not None:
        d["firstgid"] = firstgid
    for k in ("name", "tilewidth", "tileheight", "tilecount", "columns"):
        d[k] = t[k]
    d["spacing"] = t.get("spacing", 0)
    d["margin"] = t.get("margin", 0)
    for k in TS_OPT:
        if k in t:
            d[k] = t[k]
    if "tileoffset" in t:
        d["tileoffset"] = {"x": t["tileoffset"][0], "y": t["tileoffset"][1]}
    if "grid" in t:
        d["grid"] = dict(zip(("orientation", "width", "height"), t["grid"]))
    if "props" in t:
        d["properties"] = json_props(t["props"])
    if "image" in t:
        d.update((k, v) for k, v in zip(("image", "imagewidth", "imageheight"), t["image"]) if v is not None)
    if "trans" in t:
        d["transparentcolor"] = t["trans"] if t["trans"].startswith("#") else "#" + t["trans"]
    if t.get("tiles"):
        d["tiles"] = [json_tile(x) for x in t["tiles"]]
    if "wangsets" in t:
        d["wangsets"] = [json_wangset(w) for w in t["wangsets"]]
    if "transformations" in t:
        d["transformations"] = dict(zip(("hflip", "vflip", "rotate", "preferuntransformed"), map(bool, t["transformations"])))
    return d


def exp_tileset(t, firstgid, fmt, img=path):
    """img maps a saved image path to the expected canonical path."""
    iw = ih = im = None
    if "image" in t:
        s, iw, ih = t["image"]
        im = img(s)
    return O(
        "Tileset", name=t["name"], tile_width=t["tilewidth"], tile_height=t["tileheight"], tile_count=t["tilecount"],
        columns=t["columns"], firstgid=firstgid, type="tileset", tile_render_size=t.get("tilerendersize", "tile"),
        fill_mode=t.get("fillmode", "stretch"), spacing=t.get("spacing", 0), margin=t.get("margin", 0),
        tiled_version=t.get("tiledversion"), version=t.get("version"), image=im, image_width=iw, image_height=ih,
        transformations=O("Transformations", **{k: B(v) for k, v in zip(("hflip", "vflip", "rotate", "prefer_untransformed"), t["transformations"])}) if "transformations" in t else None,
        class_=t.get("class"), background_color=color(t["backgroundcolor"]) if "backgroundcolor" in t else None,
        tile_offset=pair(*t["tileoffset"]) if "tileoffset" in t else None,
        transparent_color=color(t["trans"]) if "trans" in t else None,
        grid=O("Grid", orientation=t["grid"][0], width=t["grid"][1], height=t["grid"][2]) if "grid" in t else None,
        properties=exp_props(t.get("props")),
        tiles=D({x["id"]: exp_tile(x, fmt, img) for x in t["tiles"]}) if t.get("tiles") else None,
        wang_sets=L([exp_wangset(w) for w in t["wangsets"]]) if "wangsets" in t else None,
        alignment=t.get("objectalignment"),
    )


# --------------------------------------------------------------------------
# maps
# --------------------------------------------------------------------------

MAP_DEF = dict(
    version="1.9", tiledversion="1.9.2", orientation="orthogonal", renderorder="right-down",
    width=4, height=3, tilewidth=16, tileheight=16, infinite=False, nextlayerid=9, nextobjectid=21,
)
MAP_KEYS = [
    "version", "tiledversion", "class", "orientation", "renderorder", "width", "height", "tilewidth", "tileheight",
    "infinite", "hexsidelength", "staggeraxis", "staggerindex", "parallaxoriginx", "parallaxoriginy", "backgroundcolor",
    "nextlayerid", "nextobjectid",
]


def M(layers=(), tilesets=(), props=None, **attrs):
    """A map. tilesets: list of dicts firstgid, ts (tileset), src (or None), ext format decided at layout time."""
    a = dict(MAP_DEF)
    a.update(attrs)
    m = {"attrs": a, "layers": list(layers), "tilesets": list(tilesets)}
    if props is not None:
        m["props"] = props
    return m


def tmx_map(m):
    a = m["attrs"]
    kids = [tmx_props(m.get("props"))]
    kids += [tmx_tileset(t["ts"], t["firstgid"], t.get("src")) for t in m["tilesets"]]
    kids += [tmx_layer(l) for l in m["layers"]]
    return E("map", [(k, num(a.get(k))) for k in MAP_KEYS], kids)


def json_map(m):
    a = m["attrs"]
    d = {"type": "map", "compressionlevel": -1}
    for k in MAP_KEYS:
        if k in a:
            d[k] = a[k]
    if "props" in m:
        d["properties"] = json_props(m["props"])
    d["tilesets"] = [json_tileset(t["ts"], t["firstgid"], t.get("src")) for t in m["tilesets"]]
    d["layers"] = [json_layer(l) for l in m["layers"]]
    return d


def exp_map(m, fmt, map_file=None, img=None, obj=exp_object):
    """img(tileset_ref) -> function giving the expected path of an image of that tileset."""
    a = m["attrs"]
    return O(
        "TiledMap", map_file=("path", str(map_file)) if map_file is not None else None, infinite=B(a.get("infinite", False)),
        layers=L([exp_layer(l, fmt, obj) for l in m["layers"]]), map_size=size(a["width"], a["height"]),
        next_layer_id=a.get("nextlayerid"), next_object_id=a["nextobjectid"], orientation=a["orientation"],
        render_order=a["renderorder"], tiled_version=a.get("tiledversion", ""), tile_size=size(a["tilewidth"], a["tileheight"]),
        tilesets=D({t["firstgid"]: exp_tileset(t["ts"], t["firstgid"], t.get("fmt", fmt), (img or (lambda t: path))(t)) for t in m["tilesets"]}),
        version=a["version"], parallax_origin=pair(a.get("parallaxoriginx", 0), a.get("parallaxoriginy", 0)),
        class_=a.get("class"), background_color=color(a["backgroundcolor"]) if "backgroundcolor" in a else None,
        properties=exp_props(m.get("props")), hex_side_length=a.get("hexsidelength"), stagger_axis=a.get("staggeraxis"),
        stagger_index=a.get("staggerindex"),
    )


# templates: {"object": objdict, "tileset": {"firstgid":1,"src":...} or None}


def tmx_template(t):
    kids = []
    if t.get("src"):
        kids.append(E("tileset", [("firstgid", num(t.get("firstgid", 1))), ("source", t["src"])]))
    kids.append(tmx_object(t["object"]))
    return E("template", [], kids)


def json_template(t):
    d = {"object": json_object(t["object"]), "type": "template"}
    if t.get("src"):
        d["tileset"] = {"firstgid": t.get("firstgid", 1), "source": t["src"]}
    return d


def map_bytes(m, fmt):
    return xml(tmx_map(m)) if fmt == "tmx" else jsn(json_map(m))


def tileset_bytes(t, fmt):
    return xml(tmx_tileset(t)) if fmt == "tmx" else jsn(json_tileset(t))


def template_bytes(t, fmt):
    return xml(tmx_template(t)) if fmt == "tmx" else jsn(json_template(t))


EXT = {"tmx": {"map": ".tmx", "tileset": ".tsx", "template": ".tx"}, "json": {"map": ".tmj", "tileset": ".tsj", "template": ".tj"}}


def TS(name="ts", **kw):
    """A small image tileset."""
    d = dict(name=name, tilewidth=16, tileheight=16, tilecount=8, columns=4, image=("img/%s.png" % name, 64, 32))
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


def TC(name="coll", ids=(0, 1), **kw):
    """A small image-collection tileset."""
    d = dict(name=name, tilewidth=16, tileheight=16, tilecount=len(ids), columns=0,
             tiles=[{"id": i, "image": ("c%d.png" % i, 16 + i, 8 + i)} for i in ids])
    d.update(kw)
    return d
