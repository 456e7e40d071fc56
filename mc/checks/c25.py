"""C25: insignificant syntax."""
import json
from functools import lru_cache

from .. import model as m_
from ..core import Dev, Enum
from ..model import E, EXT, M, P, TC, TS
from . import c02, c05, c11, c14

RULE = "states: up to k syntactic rewrites applied to every file of a document, and every single insertion (comment, unknown attribute, unknown element, unknown key, processing instruction) at every node of every file; the result is compared with the result for the plain spelling (an edge is one rewrite)"
ASSUMPTIONS = ["unknown elements are not inserted into elements that hold text", "files are UTF-8 without a byte order mark", "the order of layers, objects, properties, frames, chunks, colours and points is information and is kept"]

# ---------------------------------------------------------------------------
# documents: {file: tree}, entry
# ---------------------------------------------------------------------------


def rich_ts(name="one"):
    return TS(name, version="1.9", tiledversion="1.9.2", tileoffset=(1, 2), grid=("isometric", 8, 9), transformations=(1, 0, 1, 0), backgroundcolor="#010203", trans="#ff00ff", **{"class": "tsc"},
              props=[P("a", "bool", True), P("b", "color", "#80010203"), P("c", "file", "x/y"), P("s", "string", "q\"'<&>\té")],
              tiles=[{"id": 0, "class": "k", "animation": [(0, 10), (1, 20)], "props": [P("tp", "float", 1.5)]}, {"id": 5, "objects": [c05.obj("rect", 1, {}), c05.obj("polygon", 2, {"props": [P("z", "int", 1)]})]}],
              wangsets=[{"name": "W", "class": "wc", "props": [P("wp", "string", "v")], "colors": [{"name": "c", "color": "#010203", "props": [P("cp", "string", "v")]}, {"name": "d", "color": "#040506"}], "tiles": [(0, c11.WID[0]), (3, c11.WID[1])]},
                        {"name": "V", "colors": [], "tiles": []}])


def objects():
    out = [c05.obj(k, 10 + i, {"props": [P("k", "string", "v é"), P("n", "int", i)], "class": "cl%d" % i, "name": "n <&> \"%d\"" % i} if i % 2 else {}) for i, k in enumerate(c05.KINDS)]
    out[5]["text"] = {"text": "some <text> & more é\nnext", "color": "#102030", "bold": True}
    return out


def layers(enc, comp):
    return [
        {"kind": "tile", "id": 1, "name": "ground", "width": 3, "height": 2, "data": c02.data(enc, comp, grid=[[1, 2, 3], [0, 0x80000001, 200]]), "props": [P("lp", "string", "x\ny")]},
        {"kind": "group", "id": 2, "name": "grp", "tintcolor": "#80102030", "offsetx": 3, "props": [P("gp", "int", 1)], "layers": [
            {"kind": "object", "id": 3, "name": "objs", "objects": objects(), "props": [P("op", "int", 2)]},
            {"kind": "image", "id": 4, "name": "img", "image": "bg.png", "trans": "#ff00ff", "props": [P("ip", "int", 3)]},
            {"kind": "group", "id": 5, "name": "deep", "layers": [{"kind": "object", "id": 6, "name": "d", "objects": [c05.obj("point", 50, {})]}]},
        ]},
        {"kind": "object", "id": 7, "name": "last", "class": "lc", "objects": [c05.obj("ellipse", 60, {})], "parallaxx": 0.5},
    ]


@lru_cache(None)
def documents(fmt):
    """name -> (entry kind, entry file, {file: (kind, tree)})"""
    T = {"map": m_.tmx_map, "tileset": m_.tmx_tileset, "template": m_.tmx_template} if fmt == "tmx" else {"map": m_.json_map, "tileset": m_.json_tileset, "template": m_.json_template}
    x = EXT[fmt]
    out = {}
    encs = [("csv", ""), ("base64", ""), ("base64", "zlib")] + ([("xml", "")] if fmt == "tmx" else [])
    for enc, comp in encs:
        out["map-%s%s" % (enc, comp)] = ("map", "m" + x["map"], {"m" + x["map"]: T["map"](M(layers(enc, comp), [{"firstgid": 1, "ts": rich_ts()}, {"firstgid": 50, "ts": TC("two", (0, 7))}], [P("mp", "string", "l1\nl2"), P("mc", "color", "#010203")], backgroundcolor="#102030", parallaxoriginx=2, **{"class": "mc"}))})
    ch = [{"x": -16, "y": 0, "w": 2, "h": 2, "grid": [[1, 2], [3, 4]]}, {"x": 0, "y": 16, "w": 1, "h": 1, "grid": [[5]]}]
    for enc, comp in encs:
        out["infinite-%s%s" % (enc, comp)] = ("map", "m" + x["map"], {"m" + x["map"]: T["map"](M([{"kind": "tile", "id": 1, "width": 4, "height": 4, "data": c02.data(enc, comp, chunks=ch)}], infinite=True))})
    # external tileset, templates, template tileset
    f = {}
    f["s/e" + x["tileset"]] = T["tileset"](rich_ts("ext"))
    f["q/p" + x["tileset"]] = T["tileset"](TS("tps", tiles=[{"id": 2, "class": "w"}]))
    f["t/a" + x["template"]] = T["template"]({"object": c14.template("text", {"name": "tn", "props": c14.TPROPS[0], "width": 5})})
    f["t/b" + x["template"]] = T["template"]({"object": c14.template("tile", {"width": 16, "height": 16}), "src": "../q/p" + x["tileset"]})
    f["t/c" + x["template"]] = T["template"]({"object": c14.template("polygon", {"class": ("type", "tc")})})
    inst = [
        {"id": 1, "x": 1, "y": 2, "template": "t/a" + x["template"]},
        {"id": 2, "x": 1, "y": 2, "template": "t/b" + x["template"], "name": "own"},
        {"id": 3, "x": 1, "y": 2, "template": "t/c" + x["template"], "props": [P("k", "string", "i")]},
        {"id": 4, "x": 1, "y": 2, "template": "t/a" + x["template"], "kind": "text", "text": {"text": "mine"}, "props": c14.IPROPS[0]},
    ]
    f["m" + x["map"]] = T["map"](M([{"kind": "object", "id": 1, "name": "o", "objects": inst}], [{"firstgid": 1, "ts": rich_ts("ext"), "src": "s/e" + x["tileset"]}]))
    out["files"] = ("map", "m" + x["map"], f)
    out["tileset"] = ("tileset", "t" + x["tileset"], {"t" + x["tileset"]: T["tileset"](rich_ts())})
    out["collection"] = ("tileset", "t" + x["tileset"], {"t" + x["tileset"]: T["tileset"](TC("c", (0, 3, 9)))})
    return out


# ---------------------------------------------------------------------------
# XML
# ---------------------------------------------------------------------------

LAYERS = ("layer", "objectgroup", "imagelayer", "group")


def cls(tag):
    return "layer" if tag in LAYERS else tag


def reorder(e, how):
    kids = [reorder(k, how) for k in e.kids]
    groups = {}
    for k in kids:
        groups.setdefault(cls(k.tag), []).append(k)
    order = list(groups)
    if how == "reverse":
        order = order[::-1]
    elif how == "rotate":
        order = order[1:] + order[:1]
    if how == "interleave":
        seqs = [list(groups[o]) for o in order[::-1]]
        kids = []
        while any(seqs):
            for s in seqs:
                if s:
                    kids.append(s.pop(0))
    else:
        kids = [k for o in order for k in groups[o]]
    r = E(e.tag, e.attrs, kids, e.text)
    return r


def esc(s, mode, attr, quote='"'):
    if mode in ("dec", "hex"):
        return "".join(c if c.isascii() and c.isalnum() else ("&#%d;" % ord(c) if mode == "dec" else "&#x%X;" % ord(c)) for c in s)
    t = m_.esc_attr(s) if attr else m_.esc_text(s)
    if attr and quote == "'":
        t = t.replace("&quot;", '"').replace("'", "&apos;")
    return t


def respace(tag, text, how, enc):
    """Insignificant white space in tile data."""
    if text is None or tag not in ("data", "chunk"):
        return text
    b = text.strip()
    if how == "tight":
        return "".join(b.split())
    if how == "spaces":
        return "  " + ("  ".join(b.split()) if enc != "csv" else " , ".join("".join(b.split()).split(","))) + "\t "
    if how == "before":
        t = "".join(b.split())
        return "\n\n\t" + ("\n,".join(t.split(",")) if enc == "csv" else "\n\t ".join(t[i : i + 7] for i in range(0, len(t), 7))) + "\n"
    if how == "ragged":
        t = "".join(b.split())
        if enc != "csv":
            return " \t\n".join(t[i : i + 3] for i in range(0, len(t), 3))
        v = t.split(",")
        return "".join(x + ("" if i == len(v) - 1 else [",", " ,\n", "\n\n, ", ",\t"][i % 4]) for i, x in enumerate(v)) + " "
    if how == "lines":
        t = "".join(b.split())
        return "\n" + (",\n".join(t.split(",")) if enc == "csv" else "\n".join(t[i : i + 5] for i in range(0, len(t), 5))) + "\n\n"
    return text


# names that the library knows, but of another name space or in other letters: unknown all the same
TAGS = ["layer", "objectgroup", "imagelayer", "group", "tileset", "tile", "properties", "object", "image", "data", "chunk", "ellipse", "point", "polygon", "polyline", "text", "animation", "frame", "grid", "tileoffset", "transformations", "wangsets", "wangset", "wangcolor", "wangtile", "property"]
KEYS = ["id", "name", "class", "type", "x", "y", "width", "height", "visible", "opacity", "gid", "template", "source", "firstgid", "encoding", "compression", "value", "version", "columns", "spacing", "rotation", "trans", "tintcolor", "offsetx", "repeatx", "parallaxx", "backgroundcolor", "color", "points", "wangid", "tileid", "duration", "draworder", "halign", "bold", "kerning", "infinite", "orientation"]
# what Tiled itself writes and the library does not read
TILED = {
    "map": ["compressionlevel"], "layer": ["locked", "mode"], "objectgroup": ["locked", "color", "mode"], "imagelayer": ["locked", "mode"], "group": ["locked", "mode"], "object": ["opacity"], "tile": ["probability", "terrain"],
    "property": ["propertytype"], "image": ["format", "id"], "template": ["version"], "polygon": ["closed"], "data": ["size"],
}


def foreign(how, tag):
    """An unknown element with a known name."""
    inner = '<%s name="no" value="no"/>'
    if how == "xmlns":
        return '<%s xmlns="urn:zz" id="99" name="no" gid="1" x="1" y="1" source="no" tileid="7" encoding="no"><properties><property name="no" value="no"/></properties></%s>' % (tag, tag)
    if how == "prefix":
        return '<zz:%s xmlns:zz="urn:zz" id="99" name="no" zz:gid="1" template="no"><zz:properties><zz:property name="no" value="no"/></zz:properties>no</zz:%s>' % (tag, tag)
    t = tag.upper() if how == "upper" else tag.capitalize() if how == "capital" else tag + "s" if how == "longer" else tag[:-1]
    return '<%s id="99" name="no" gid="1" x="1" y="1" template="no">%s</%s>' % (t, inner % "Property", t)


FOREIGN = ["xmlns", "prefix", "upper", "capital"]


def foreign_attrs(how, tag):
    if how == "prefix":
        return [("xmlns:zz", "urn:zz")] + [("zz:" + k, "99") for k in KEYS]
    if how == "tiled":
        return [(k, {"color": "#ff0000", "terrain": "0,,1,0", "mode": "multiply", "propertytype": "E", "format": "png", "opacity": "0.25", "probability": "0.5", "version": "1.10"}.get(k, "1")) for k in TILED.get(tag, [])]
    return [(k.upper() if how == "upper" else k.capitalize() if how == "capital" else "o-" + k, "99") for k in KEYS]


COMMENT = '<!-- a "comment" with <layer name="x"/> & more é -->'


def to_xml(root, o):
    """o: option dictionary."""
    counter = [0]
    out = []
    q = o.get("quote", '"')

    def ser(e, ind, enc):
        i = counter[0]
        counter[0] += 1
        at = list(e.attrs)
        if e.tag == "data":
            enc = dict(at).get("encoding")
        how = o.get("attrs")
        if how == "reverse":
            at = at[::-1]
        elif how == "sort":
            at.sort()
        elif how == "rotate":
            at = at[1:] + at[:1]
        if o.get("unkattr"):
            at.insert({"first": 0, "last": len(at), "middle": len(at) // 2}[o["unkattr"]], ("zz-unknown", "true"))
            at.append(("_x", "7"))
        if o.get("foreignattr"):
            new = foreign_attrs(o["foreignattr"], e.tag)
            at = new + at if o.get("attrs") == "reverse" else at + new
        pos = o.get("at")
        if pos and pos[0] == i and pos[1] == "attr":
            at.append(("zz-unknown", "x"))
        if pos and pos[0] == i and pos[1][0] == "foreignattr":
            at += foreign_attrs(pos[1][1], e.tag)
        pad = {"none": "", "tab": "\t" * ind, "wide": "\n" + "    " * ind}.get(o.get("indent"), " " * ind)
        nl = "" if o.get("indent") == "none" else "\n"
        texty = e.text is not None
        out.append(pad + "<" + e.tag)
        sp = "\n   " if o.get("attrs") == "lines" else " "
        for k, v in at:
            v = esc(v, o.get("escape"), True, q)
            out.append('%s%s%s%s%s%s' % (sp, k, " = " if o.get("attrs") == "spaced" else "=", q, v, q))
        if o.get("attrs") == "spaced":
            out.append("  ")
        kids = [("e", k) for k in e.kids]
        if not texty:
            unk = [("r", '<zz-unknown a="1"/>'), ("r", '<zzz b="2">text<properties><property name="no" value="no"/></properties><layer name="no"/><ellipse/></zzz>')]
            if o.get("unkelem") == "first":
                kids = unk + kids
            elif o.get("unkelem") == "last":
                kids = kids + unk
            elif o.get("unkelem") == "between":
                kids = [x for k in kids for x in (k, unk[1])]
            if o.get("foreign"):
                new = [("r", foreign(o["foreign"], t)) for t in TAGS]
                kids = new + kids if o["foreign"] in ("prefix", "capital") else [x for k in kids for x in (k, new[len(e.tag) % 4])] + new
            if o.get("comments") == "all":
                kids = [("r", COMMENT)] + [x for k in kids for x in (k, ("r", COMMENT))]
            if o.get("comments") == "pi":
                kids = [("r", "<?pi some data?>")] + kids
            if pos and pos[0] == i:
                ins = {"comment": COMMENT, "unk": '<zz a="b"/>', "unknest": unk[1][1], "pi": "<?pi x?>"}.get(pos[1]) or ("".join(foreign(pos[1][1], t) for t in (TAGS if pos[1][2] is None else [pos[1][2]])) if pos[1][0] == "foreign" else None)
                if ins:
                    w = {"first": 0, "last": len(kids), "second": 1}[pos[2]]
                    kids.insert(w, ("r", ins))
        if texty:
            t = respace(e.tag, e.text, o.get("data"), enc)
            if o.get("text") == "cdata" and "]]>" not in t:
                t = "<![CDATA[" + t + "]]>"
            elif o.get("text") == "split-cdata" and "]]>" not in t:
                h = len(t) // 2
                t = esc(t[:h], None, False) + "<![CDATA[" + t[h:] + "]]>"
            else:
                if o.get("comments") == "all" or (pos and pos[0] == i and pos[1] == "comment"):
                    h = len(t) // 2
                    if pos and pos[2] == "first":
                        h = 0
                    elif pos and pos[2] == "last":
                        h = len(t)
                    t = esc(t[:h], o.get("escape"), False) + COMMENT + esc(t[h:], o.get("escape"), False)
                else:
                    # never escape the separators of tile data: white space and commas are markup-free anyway
                    t = esc(t, o.get("escape"), False)
            out.append(">" + t + "</" + e.tag + ">" + nl)
        elif not kids:
            em = o.get("empty")
            if em == "pair":
                out.append("></" + e.tag + ">" + nl)
            elif em == "blank" and e.tag not in ("data", "chunk", "text", "property"):
                out.append(">\n  </" + e.tag + " >" + nl)
            elif em == "space":
                out.append(" />" + nl)
            else:
                out.append("/>" + nl)
        else:
            out.append(">" + nl)
            for t, k in kids:
                if t == "e":
                    ser(k, ind + 1, enc)
                else:
                    out.append(k + nl)
            out.append(pad + "</" + e.tag + ">" + nl)

    if o.get("order"):
        root = reorder(root, o["order"])
    decl = o.get("decl", '<?xml version="1.0" encoding="UTF-8"?>\n')
    body = decl
    if o.get("comments") in ("all", "header"):
        body += COMMENT + "\n"
    ser(root, 0, None)
    body += "".join(out)
    if o.get("comments") in ("all", "header"):
        body += "\n" + COMMENT + "\n\n"
    if o.get("eol"):
        body = body.replace("\n", o["eol"])
    return body.encode("utf-8"), counter[0]


XML_SLOTS = [
    ("attrs", ["reverse", "sort", "rotate", "lines", "spaced"]),
    ("order", ["reverse", "rotate", "interleave"]),
    ("indent", ["none", "tab", "wide"]),
    ("eol", ["\r\n"]),
    ("comments", ["all", "header", "pi"]),
    ("quote", ["'"]),
    ("escape", ["dec", "hex"]),
    ("empty", ["pair", "blank", "space"]),
    ("data", ["tight", "spaces", "lines", "before", "ragged"]),
    ("unkattr", ["first", "last", "middle"]),
    ("unkelem", ["first", "last", "between"]),
    ("text", ["cdata", "split-cdata"]),
    ("foreign", ["xmlns"]),
    ("foreignattr", ["prefix", "tiled"]),
    ("decl", ["", '<?xml version="1.0"?>\n', "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n", '<?xml version="1.0" encoding="UTF-8"?>\n<?pi x?>\n<!DOCTYPE map SYSTEM "http://mapeditor.org/dtd/1.0/map.dtd">\n', '<?xml version="1.0" encoding="UTF-8"?>']),
]

# ---------------------------------------------------------------------------
# JSON
# ---------------------------------------------------------------------------

UNK = [("zz-unknown", "x"), ("zz_null", None), ("zzNested", {"name": "no", "properties": [1], "layers": []}), ("zzList", [1, {"id": 5}])]


JKEYS = KEYS + ["layers", "tilesets", "tiles", "objects", "properties", "objectgroup", "chunks", "data", "image", "animation", "grid", "tileoffset", "transformations", "wangsets", "wangtiles", "colors", "text", "ellipse", "point", "polygon", "polyline", "imagewidth"]
JTILED = [("locked", True), ("mode", "multiply"), ("compressionlevel", 9), ("editorsettings", {"chunksize": {"width": 8, "height": 8}, "export": {"format": "json", "target": "x.json"}}), ("terrains", [{"name": "no", "tile": 1, "properties": []}]), ("terrain", [0, -1, 1, 0]), ("propertytype", "E"), ("staggered", False)]


def jwalk(o, f, counter=None):
    """Rebuild with f(dict, index) applied to every object."""
    if counter is None:
        counter = [0]
    if isinstance(o, dict):
        i = counter[0]
        counter[0] += 1
        return f({k: jwalk(v, f, counter) for k, v in o.items()}, i)
    if isinstance(o, list):
        return [jwalk(v, f, counter) for v in o]
    return o


def to_json(root, o):
    n = [0]

    def f(d, i):
        n[0] = max(n[0], i + 1)
        it = list(d.items())
        u = o.get("unkkey")
        if u == "first":
            it = UNK[:2] + it
        elif u == "last":
            it = it + UNK
        elif u == "middle":
            h = len(it) // 2
            it = it[:h] + UNK[2:] + it[h:]
        if o.get("foreignkey") == "tiled":
            it = it + [(k, v) for k, v in JTILED if k not in d and not (k == "color" and "wangid" in d)]
        elif o.get("foreignkey"):
            how = o["foreignkey"]
            it = [(k.upper() if how == "upper" else k.capitalize() if how == "capital" else k + " " if how == "blank" else "_" + k, v) for k in JKEYS for v in ([99, "no", None, [{"name": "no"}], {"no": 1}][(len(k) + i) % 5],)] + it
        pos = o.get("at")
        if pos and pos[0] == i:
            if pos[1] in range(len(UNK)):
                it.insert(0 if pos[2] == "first" else len(it), UNK[pos[1]])
            else:
                how = pos[1]
                new = [(k.upper() if how == "upper" else k.capitalize() if how == "capital" else k + " " if how == "blank" else "_" + k, v) for k in JKEYS for v in ([99, "no", None, [{"name": "no"}], {"no": 1}][(len(k) + i) % 5],)]
                it = new + it if pos[2] == "first" else it + new
        k = o.get("keys")
        if k == "reverse":
            it = it[::-1]
        elif k == "sort":
            it.sort(key=lambda x: x[0])
        elif k == "rotate":
            it = it[1:] + it[:1]
        return dict(it)

    d = jwalk(root, f)
    kw = {"ensure_ascii": o.get("escape") == "ascii"}
    ind = o.get("indent", 1)
    if ind == "none":
        kw["separators"] = (",", ":")
    elif ind == "spaced":
        kw["separators"] = (" , ", " : ")
    else:
        kw["indent"] = ind
    s = json.dumps(d, **kw)
    if o.get("escape") == "slash":
        s = s.replace("/", "\\/")
    elif o.get("escape") == "all":
        s = _escape_strings(d, kw)
    s = o.get("lead", "") + s + o.get("trail", "")
    if o.get("eol"):
        s = s.replace("\n", o["eol"])
    return s.encode("utf-8"), n[0]


def _escape_strings(d, kw):
    out = []
    s = json.dumps(d, **kw)
    dec = json.JSONDecoder()
    i = 0
    while i < len(s):
        if s[i] == '"':
            v, j = json.decoder.scanstring(s, i + 1)
            out.append('"' + "".join("".join("\\u%04x" % u for u in _u16(c)) for c in v) + '"')
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def _u16(c):
    b = c.encode("utf-16-be")
    return [b[i] << 8 | b[i + 1] for i in range(0, len(b), 2)]


JSON_SLOTS = [
    ("keys", ["reverse", "sort", "rotate"]),
    ("indent", ["none", "spaced", 4, "\t"]),
    ("escape", ["ascii", "slash", "all"]),
    ("eol", ["\r\n"]),
    ("unkkey", ["first", "last", "middle"]),
    ("foreignkey", ["capital", "tiled"]),
    ("lead", ["\n", "  \t", "\r\n\r\n"]),
    ("trail", ["\n", "\n\n  \t\r\n"]),
]

# ---------------------------------------------------------------------------


def write(ctx, fmt, doc, o, only=None):
    kind, entry, files = documents(fmt)[doc]
    for f, tree in files.items():
        opt = o if only is None or only == f else {}
        ctx.put(f, (to_xml if fmt == "tmx" else to_json)(tree, opt)[0])
    return kind, entry


def compare(ctx, fmt, doc, o, only=None):
    if not hasattr(ctx, "plain"):
        ctx.plain = {}
    key = (fmt, doc)
    if key not in ctx.plain:
        kind, entry = write(ctx, fmt, doc, {})
        ctx.plain[key] = ctx.observe(kind, entry)
        ctx.execs -= 1
    exp = ctx.plain[key]
    kind, entry = write(ctx, fmt, doc, o, only)
    obs = ctx.observe(kind, entry)
    call = "parse_%s(%r)" % (kind, entry)
    if exp[0] == "EXC":
        return ctx.fail(call, "the plain spelling of " + doc, "a result", exp)
    ctx.expect(call, exp, obs)


def check_dev(ctx, a, c):
    compare(ctx, c[0], c[1], a)


def spots(tier):
    lv = []
    for fmt in ("tmx", "json"):
        out = []
        for doc, (kind, entry, files) in documents(fmt).items():
            for f, tree in files.items():
                n = (to_xml if fmt == "tmx" else to_json)(tree, {})[1]
                for i in range(n):
                    if fmt == "tmx":
                        for w in ("first", "last", "second"):
                            for k in ("comment", "unk", "unknest", "pi"):
                                out.append((fmt, doc, f, (i, k, w)))
                        out.append((fmt, doc, f, (i, "attr", "last")))
                        out += [(fmt, doc, f, (i, ("foreignattr", h), "last")) for h in ("prefix", "upper", "capital", "dash")]
                        for h in FOREIGN:
                            out += [(fmt, doc, f, (i, ("foreign", h, t), w)) for w in ("first", "last") for t in ([None] if tier == "quick" else [None] + TAGS)]
                    else:
                        for k in list(range(len(UNK))) + ["upper", "capital", "blank", "dash"]:
                            for w in ("first", "last"):
                                out.append((fmt, doc, f, (i, k, w)))
        lv.append((fmt, out))
    return lv


def check_spot(ctx, st):
    fmt, doc, f, pos = st
    if fmt == "tmx" and pos[2] == "second":
        # needs at least one child; otherwise the same as "last"
        pass
    compare(ctx, fmt, doc, {"at": pos}, f)


def onefile(tier):
    """Each rewrite in one file only, the others plain."""
    out = []
    for fmt, sl in (("tmx", XML_SLOTS), ("json", JSON_SLOTS)):
        for doc, (kind, entry, files) in documents(fmt).items():
            if len(files) > 1:
                for f in files:
                    for n, vs in sl:
                        for i in range(len(vs)):
                            out.append((fmt, doc, f, n, i))
    return [("one file", out)]


def check_onefile(ctx, st):
    fmt, doc, f, n, i = st
    compare(ctx, fmt, doc, {n: dict(XML_SLOTS if fmt == "tmx" else JSON_SLOTS)[n][i]}, f)


def pads(tier):
    """Every byte of a file after every buffer size: white space or a comment before it."""
    out = []
    small = tier == "quick"
    for fmt in ("tmx", "json"):
        for doc, (kind, entry, files) in documents(fmt).items():
            if small and doc not in ("map-csv", "infinite-base64", "files"):
                continue
            for f, tree in files.items():
                n = len((to_xml if fmt == "tmx" else to_json)(tree, {})[0])
                for b in (1024, 8192, 65536) if small else (512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144):
                    out += [(fmt, doc, f, b - i) for i in range(40, n + 1) if b > i]
    return [("boundaries", out)]


def check_pad(ctx, st):
    fmt, doc, f, n = st
    if not hasattr(ctx, "plain"):
        ctx.plain = {}
    if (fmt, doc) not in ctx.plain:
        kind, entry = write(ctx, fmt, doc, {})
        ctx.plain[fmt, doc] = ctx.observe(kind, entry)
        ctx.execs -= 1
    kind, entry = write(ctx, fmt, doc, {})
    b = ctx.written[f]
    if fmt == "tmx":
        i = b.index(b"?>") + 2 if b.startswith(b"<?xml") else 0
        pad = b"\n" * n if n < 7 or n % 2 else b"<!--" + b" " * (n - 7) + b"-->"
    else:
        i = (n % 2) * (b.index(b"{") + 1)
        pad = b" " * n
    ctx.put(f, b[:i] + pad + b[i:])
    ctx.expect("parse_%s(%r)" % (kind, entry), ctx.plain[fmt, doc], ctx.observe(kind, entry))


def spaces():
    cx = [("tmx", d) for d in documents("tmx")]
    cj = [("json", d) for d in documents("json")]
    return [
        Dev("xml-rewrites", XML_SLOTS, check_dev, {"quick": [(0, 9), (1, 9), (2, 9)], "thorough": [(0, 9), (1, 9), (2, 9), (3, 9)]}, contexts=cx,
            dense={"quick": [(0, 9), (1, 9), (2, 2)], "thorough": [(0, 9), (1, 9), (2, 9)]}),
        Dev("json-rewrites", JSON_SLOTS, check_dev, {"quick": [(k, 9) for k in range(5)], "thorough": [(k, 9) for k in range(8)]}, contexts=cj),
        Enum("insertions", spots, check_spot, edges=lambda s: 1),
        Enum("one-file", onefile, check_onefile, edges=lambda s: 1),
        Enum("boundaries", pads, check_pad, edges=lambda s: 1),
    ]
