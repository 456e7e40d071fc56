"""C14: template instances."""
from itertools import product

from .. import dom, grow
from .. import model as m_
from ..core import Dev, Enum
from ..model import EXT, KINDCLS, M, P, TS
from ..util import wrap
from . import c07

RULE = "states: which attributes are set (and to what) on the template, on an instance, on a second instance of the same template and on a plain sibling, for every object kind; sequences of instances and plain objects; each saved in both formats, parsed and compared with the merge defined by the reference model"
ASSUMPTIONS = ["an instance never changes the kind of its template (Tiled does not allow it)", "the template has the format of its map (the other is refused: C26)"]

KINDS = list(KINDCLS)
PT = [[(0, 0), (1, 2), (3, 4)], [(9, 9), (-1, -1)], [(0.5, 0.25)]]
DATA = {
    "polygon": [("points", PT[0])], "polyline": [("points", PT[0])],
    "text": [("text", {"text": "from template", "bold": True, "color": "#80010203", "pixelsize": 20, "wrap": True})],
    "tile": [("gid", 3)],
}
IDATA = {
    "polygon": [PT[1], PT[2]], "polyline": [PT[1], PT[2]],
    "text": [{"text": "own", "italic": True}, {"text": ""}, {"text": "own", "color": "#102030", "halign": "right", "wrap": True}],
    "tile": [7, 0x80000007, 0xE0000001],
}
TPROPS = [[P("k", "string", "t"), P("only-t", "int", 1)], [P("k", "string", "t")], [P("a", "bool", True), P("b", "color", "#010203"), P("c", "file", "x/y")], []]
IPROPS = [[P("k", "string", "i"), P("only-i", "int", 2)], [P("k", "string", ""), P("only-t", "int", 0), P("a", "bool", False)], [P("k", "int", 5)], [P("b", "string", "own"), P("d", "float", 1.5)], [], [P("a", "bool", False)]]
ATTRS = [
    ("name", ["tn", "", "日本"], ["in", "", "<&>"]),
    ("class", [("type", "tc"), ("class", "tc2")], [("type", "ic"), ("class", "ic2"), ("type", "")]),
    ("visible", [False, True], [True, False]),
    ("rotation", [45, 0, -90.5], [30, 0, 359]),
    ("width", [20, 0, 1.5], [30, 0, 2.25]),
    ("height", [25, 0, 3.5], [35, 0, 4.25]),
    ("props", TPROPS, IPROPS),
]


def template(kind, at):
    t = {"kind": kind}
    t.update({k: v for k, v in DATA.get(kind, [])})
    t.update(at)
    if "class" in t:
        t["classkey"], t["class"] = t["class"]
    return t


def instance(n, kind, at, src):
    i = {"id": n, "x": 10 * n, "y": 7 * n + 0.5, "template": src}
    at = dict(at)
    if "data" in at:
        d = at.pop("data")
        if kind == "tile":
            i["gid"] = d
        else:
            i["kind"] = kind
            i["points" if kind.startswith("poly") else "text"] = d
    i.update(at)
    if "class" in i:
        i["classkey"], i["class"] = i["class"]
    return i


def merged(t, i, first):
    o = dict(t)
    for k, v in i.items():
        if k not in ("template", "props", "kind"):
            o[k] = v
    if t["kind"] == "tile" and "gid" not in i:
        o["gid"] = t["gid"] + first - 1
    if "props" in t or "props" in i:
        d = {p["name"]: p for p in t.get("props", [])}
        d.update({p["name"]: p for p in i.get("props", [])})
        o["props"] = list(d.values())
    return o


def show(ctx, templates, objs, where="top", fmts=("tmx", "json")):
    """templates: name -> template object; objs: instances and plain objects."""
    first = 11
    for fmt in fmts:
        ts = TS("tiles", tilecount=8)
        has_tile = any(t["kind"] == "tile" for t in templates.values())
        if has_tile:
            ctx.put("tiles" + EXT[fmt]["tileset"], m_.tileset_bytes(ts, fmt))
        for name, t in templates.items():
            td = {"object": t}
            if t["kind"] == "tile":
                td["src"] = "tiles" + EXT[fmt]["tileset"]
            ctx.put(name + EXT[fmt]["template"], m_.template_bytes(td, fmt))

        full = []
        for o in objs:
            if "template" in o:
                o = dict(o, template=o["template"] + EXT[fmt]["template"])
            full.append(o)
        refs = [{"firstgid": first, "ts": ts}] if has_tile else []
        m = M(wrap([{"kind": "object", "name": "o", "id": 1, "objects": full}], where), refs)
        rel = "m" + EXT[fmt]["map"]
        p = ctx.put(rel, m_.map_bytes(m, fmt))

        def obj(o):
            if "template" in o:
                o = merged(templates[o["template"].rsplit(".", 1)[0]], o, first)
            return m_.exp_object(o)

        ctx.expect("parse_map(%r)" % rel, m_.exp_map(m, fmt, p, None, obj), ctx.observe("map", rel))


def check(ctx, a, c):
    kind, where = c
    sp = {"t": {}, "i": {}, "j": {}, "p": {}}
    for k, v in a.items():
        sp[k[0]][k[2:]] = v
    t = template(kind, sp["t"])
    objs = [instance(3, kind, sp["i"], "tpl"), {"id": 4, "x": 1, "y": 2, "kind": "rect"}, instance(5, kind, sp["j"], "tpl")]
    objs[1].update({k: v for k, v in sp["p"].items() if k != "class"})
    show(ctx, {"tpl": t}, objs, where)


def slots(kind):
    s = [("t." + n, tv) for n, tv, iv in ATTRS] + [("i." + n, iv) for n, tv, iv in ATTRS] + [("j." + n, iv[1:] + iv[:1]) for n, tv, iv in ATTRS]
    s += [("t.id", [99, 3, 5]), ("t.x", [1000.5]), ("t.y", [-77])]
    s += [("p.props", [[P("k", "string", "plain")]])]
    if kind in IDATA:
        s += [("i.data", IDATA[kind]), ("j.data", IDATA[kind][::-1])]
    return s


def lattice(tier):
    # every presence subset of template attributes x instance attributes
    ks = ["rect", "text", "tile", "polygon"] if tier == "quick" else KINDS
    n = len(ATTRS)
    return [(k, [(k, b) for b in range(1 << (2 * n))]) for k in ks]


def check_lattice(ctx, st):
    kind, b = st
    n = len(ATTRS)
    t = template(kind, {a[0]: a[1][0] for i, a in enumerate(ATTRS) if b >> i & 1})
    i = instance(3, kind, {a[0]: a[2][0] for i, a in enumerate(ATTRS) if b >> (n + i) & 1}, "tpl")
    show(ctx, {"tpl": t}, [i])


# sequences of instances of three templates and plain objects
TPL = [
    template("rect", {"name": "tr", "width": 5, "height": 6, "props": TPROPS[0], "class": ("type", "tc")}),
    template("text", {"name": "tt", "visible": False, "props": TPROPS[1]}),
    template("tile", {"rotation": 45, "width": 16, "height": 16}),
    template("polygon", {"props": TPROPS[2]}),
]
STEP = (
    [("T", k, v) for k in range(4) for v in range(3)] + [("P", 0, 0), ("P", 1, 0)]
)


def step_obj(i, s):
    op, k, v = s
    n = i + 1
    if op == "P":
        return {"id": n, "x": n, "y": n, "kind": ["rect", "ellipse"][k]}
    kind = TPL[k]["kind"]
    at = [{}, {"name": "own%d" % n, "props": [P("k", "string", "i%d" % n)], "width": n}, {"visible": True, "class": ("type", "c%d" % n), "rotation": n}][v]
    if v == 1 and kind in IDATA and kind != "tile":
        at["data"] = IDATA[kind][0]
    return instance(n, kind, at, "tpl%d" % k)


def seqs(tier):
    lv = []
    for n in range(1, 4 if tier == "quick" else 5):
        lv.append(("len%d" % n, [(w, s) for w in (("top", "group2") if n < 4 else ("top",)) for s in product(range(len(STEP)), repeat=n)]))
    m = 30 if tier == "quick" else 150
    lv.append(("long", [("top", tuple((i * 5 + j * j) % len(STEP) for j in range(i))) for i in range(4, m)]))
    return lv


def check_seq(ctx, st):
    where, s = st
    show(ctx, {"tpl%d" % k: t for k, t in enumerate(TPL)}, [step_obj(i, STEP[x]) for i, x in enumerate(s)], where)


PV = [(t, i) for t in c07.TYPES if t != "class" for i in range(2)] + [("string", c07.VALUES["string"].index("")), ("float", 1), ("object", 1)]


def overrides(tier):
    """One property: value in the template x value in the instance."""
    pv = PV if tier == "quick" else [(t, i) for t in c07.TYPES if t != "class" for i in range(min(5, len(c07.VALUES[t])))]
    return [("property", [(k, a, b) for k in (("rect", "tile") if tier == "quick" else KINDS) for a in [None] + pv for b in [None] + pv])]


def check_override(ctx, st):
    kind, a, b = st
    mk = lambda n, v: [P(n, v[0], c07.VALUES[v[0]][v[1]])] if v else []
    t = template(kind, {"props": mk("k", a) + mk("t", a)} if a else {})
    i = instance(3, kind, {"props": mk("i", b) + mk("k", b)} if b else {}, "tpl")
    show(ctx, {"tpl": t}, [i, instance(4, kind, {}, "tpl")])


def spaces():
    out = []
    for k in KINDS:
        out.append(
            Dev("merge-" + k, slots(k), check, {"quick": [(0, 99), (1, 99), (2, 3)], "thorough": [(0, 99), (1, 99), (2, 5), (3, 2)]},
                dense={"quick": [(1, 99), (2, 2)], "thorough": [(1, 99), (2, 3)]}, contexts=[(k, "top"), (k, "group")]))
    out.append(Enum("override-lattice", lattice, check_lattice, edges=lambda s: bin(s[1]).count("1")))
    out.append(Enum("property-overrides", overrides, check_override, edges=lambda s: 2))
    out.append(Enum("sequences", seqs, check_seq, edges=lambda s: 1))
    out.append(grow.space("C14"))
    return out
