"""C17: the format is decided by content."""
import json
from itertools import product

from .. import model as m_
from ..core import Enum
from ..model import M, P, TS
from ..util import absimg

RULE = "states: content format x file name x leading blank text x opening of the document, independently for the map, its external tileset, a template, a template's tileset and a standalone tileset; each is parsed and compared with the reference model of the content"
ASSUMPTIONS = ["an XML declaration can only stand at the very start of a file (XML), so it is left out behind blank text", "blank text is spaces, tabs, carriage returns and newlines", "a template has the content format of its map (the other is refused: C26)"]

EXTS = [".tmx", ".tmj", ".json", ".tsx", ".tsj", ".tx", ".tj", ".xml", ".txt", "", ".JSON", ".TMX", ".tmx.json", ".json.tmx", ".world", ".", ".tsx.bak"]
BLANK = ["", "\n", "\r\n", "   ", "\t", "\n\n\n", " \n\t\n", "\r\n\r\n \t ", "\n" * 100, " " * 5000, "\n" * 9000, " \n" * 4, "\t\t\n  \r\n", "\n<"[:1] + " ", " " * 70000 + "\n"]
HEAD = ["decl", "none", "comment", "doctype", "braces"]
HEADJ = ["none", "minified", "markup", "indented"]


def dress(data, fmt, blank, head):
    s = data.decode("utf-8")
    if fmt == "tmx":
        body = s.split("?>\n", 1)[1]
        decl = s[: len(s) - len(body)]
        if head == "comment":
            body = "<!-- {\"json\": 1} -->\n" + body
        elif head == "doctype":
            root = body[1:].split()[0].rstrip(">/")
            body = '<!DOCTYPE %s SYSTEM "http://mapeditor.org/dtd/1.0/map.dtd">\n' % root + body
        elif head == "braces":
            body = '<?note {"type":"map","tilesets":[]}?><!--\n{"type": "tileset"}\n-->' + body
        if not blank and head in ("decl", "comment", "doctype"):
            body = decl + body
        s = body
    elif head == "minified":
        s = json.dumps(json.loads(s), ensure_ascii=False, separators=(",", ":"))
    elif head == "markup":
        # a key the library does not know, and behind it everything else
        s = json.dumps(dict({"<map>": '<?xml version="1.0"?>\n<map/>'}, **json.loads(s)), ensure_ascii=False)
    elif head == "indented":
        s = json.dumps(json.loads(s), ensure_ascii=True, indent="\t").replace("{", "{\n\n", 1)
    return (blank + s).encode("utf-8")


TSET = TS("ts", class_=None, tiles=[{"id": 1, "class": "<json>", "props": [P("p", "string", "{<")]}])
TPSET = TS("tpset", tilecount=3)


def doc(mf, ext_name, tpl_name):
    objs = [
        {"id": 1, "x": 1, "y": 2, "name": "<o>"},
        {"id": 2, "x": 3, "y": 4, "template": tpl_name},
    ]
    return M([{"kind": "object", "id": 1, "name": "{}", "objects": objs}], [{"firstgid": 1, "ts": TSET, "src": ext_name}], [P("m", "string", "<")])


def check(ctx, st):
    # each role: (format, extension, blank, head)
    rm, rs, rt, rp = st
    fm = rm[0]
    nm, ns, nt, np_ = "m" + EXTS[rm[1]], "s/e" + EXTS[rs[1]], "t/t" + EXTS[rt[1]], "q/p" + EXTS[rp[1]]
    m = doc(fm, ns, nt)
    ctx.put(np_, dress(m_.tileset_bytes(TPSET, rp[0]), rp[0], BLANK[rp[2]], rp[3]))
    ctx.put(nt, dress(m_.template_bytes({"object": {"kind": "tile", "gid": 2, "width": 16, "height": 16, "name": "tn"}, "src": "../" + np_}, fm), fm, BLANK[rt[2]], rt[3]))
    ctx.put(ns, dress(m_.tileset_bytes(TSET, rs[0]), rs[0], BLANK[rs[2]], rs[3]))
    p = ctx.put(nm, dress(m_.map_bytes(m, fm), fm, BLANK[rm[2]], rm[3]))
    call = "parse_map(%r)" % nm
    obs = ctx.observe("map", nm)
    if obs[0] != "TiledMap":
        return ctx.fail(call, "result", "a map", obs)
    new = 1 + TSET["tilecount"]

    def obj(o):
        if "template" in o:
            return m_.exp_object({"id": 2, "x": 3, "y": 4, "kind": "tile", "width": 16, "height": 16, "name": "tn"}, gid="?")
        return m_.exp_object(o)

    refs = m["tilesets"]
    refs[0]["fmt"] = rs[0]
    exp = m_.exp_map(m, fm, p, lambda r: absimg(ctx.root + "/s"), obj)
    # the template's tileset gets some free first id; which one is C15's business
    f = dict(obs[1])
    sets = dict(f["tilesets"][1])
    extra = [k for k in sets if k != "1"]
    if len(extra) != 1:
        return ctx.fail(call, "tilesets", "the declared and the template's tileset", sorted(sets))
    g = int(extra[0])
    ctx.expect(call, m_.exp_tileset(TPSET, g, rp[0], absimg(ctx.root + "/q")), sets[extra[0]], "template tileset")
    e = dict(exp[1])
    e["tilesets"] = m_.D({1: dict(e["tilesets"][1])["1"], g: sets[extra[0]]})
    lay = e["layers"]
    obs2 = m_.first_diff((exp[0], tuple((k, e[k]) for k, _ in exp[1])), _subst(obs, g + 1), "result")
    if obs2:
        ctx.fail(call, *obs2)


def _subst(t, gid):
    """Write '?' for the instance's global id if it is the right one."""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "gid" and t[1] == gid:
            return ("gid", "?")
        return tuple(_subst(x, gid) for x in t)
    return t


def std(f):
    return (f, {"tmx": 0, "json": 1}[f], 0, HEAD[0] if f == "tmx" else HEADJ[0])


def role(fmts, exts, blanks):
    out = []
    for f in fmts:
        for e in exts:
            for b in blanks:
                for h in HEAD if f == "tmx" else HEADJ:
                    if b and h == "decl":
                        continue
                    out.append((f, e, b, h))
    return out


F = ("tmx", "json")


def singles(tier):
    """One role varies over everything, the others are plain."""
    out = []
    ne, nb = range(len(EXTS)), range(len(BLANK))
    for fm in F:
        for fs in F:
            for fp in F:
                for v in role((fm,), ne, nb):
                    out.append((v, std(fs), std(fm), std(fp)))
                    out.append((std(fm), std(fs), v, std(fp)))
                for v in role((fs,), ne, nb):
                    out.append((std(fm), v, std(fm), std(fp)))
                for v in role((fp,), ne, nb):
                    out.append((std(fm), std(fs), std(fm), v))
    return [("one role", out)]


def pairs(tier):
    """All roles at once over a smaller set."""
    es, bs = ([0, 1, 9], [0, 1, 3]) if tier == "quick" else ([0, 1, 2, 9], [0, 1, 3, 7])
    lv = []
    for fm in F:
        a = [x for x in role((fm,), es, bs) if x[3] in ("none", "decl", "markup")]
        b = [x for x in role(F, es, [0, 2]) if x[3] in ("none", "decl", "markup")]
        lv += [(x, y, z, w) for x in a for z in a[:: 3] for y in b[:: 2] for w in b[:: 3]]
    return [("all roles", lv)]


def alone(tier):
    return [("standalone", role(F, range(len(EXTS)), range(len(BLANK))))]


def check_alone(ctx, st):
    f, e, b, h = st
    n = "alone" + EXTS[e]
    ctx.put(n, dress(m_.tileset_bytes(TSET, f), f, BLANK[b], h))
    ctx.expect("parse_tileset(%r)" % n, m_.exp_tileset(TSET, 1, f), ctx.observe("tileset", n))


def spaces():
    w = lambda s: 1
    lab = lambda s: "map %r, tileset %r, template %r, template tileset %r" % tuple((x[0], EXTS[x[1]], BLANK[x[2]][:8], x[3]) for x in s)
    return [
        Enum("one-role", singles, check, label=lab, edges=w),
        Enum("all-roles", pairs, check, label=lab, edges=w),
        Enum("standalone-tileset", alone, check_alone, edges=w),
    ]
