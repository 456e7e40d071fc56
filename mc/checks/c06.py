"""C06: object and text attributes."""
from .. import dom, grow, wide
from ..core import Dev, Enum
from ..model import KINDCLS, TEXT_KEYS
from ..util import check_map
from .c05 import obj, place

RULE = "states: attribute assignments (deviation-bounded, presence lattice, all-set-but-k) of two sibling objects of every kind in every container; each saved in both formats, parsed and compared with the reference model"
ASSUMPTIONS = ["documents are as Tiled writes them (JSON always stores name, visible, rotation and size of a local object)"]

KINDS = list(KINDCLS)
CLASS = [("type", "cls"), ("class", "kls"), ("type", ""), ("class", "")] + [(k, s) for s in dom.STR[2:] for k in ("type", "class")]
COMMON = [("name", dom.STR), ("class", CLASS), ("visible", dom.BOOLN), ("props", dom.PROPLISTS)]
TEXT = [
    ("text", dom.STR + ["two\nlines", "\n", "  ", " lead", "trail ", "a\r\nb", "\ttab"]), ("color", dom.COL), ("fontfamily", dom.STR),
    ("pixelsize", [20, 1, 0, 12.5, 16, 100]), ("bold", dom.BOOL), ("italic", dom.BOOL), ("kerning", dom.BOOLN), ("strikeout", dom.BOOL),
    ("underline", dom.BOOL), ("halign", ["center", "right", "justify", "left"]), ("valign", ["bottom", "center", "top"]), ("wrap", dom.BOOL),
]


def build(kind, n, at):
    at = dict(at)
    if "class" in at:
        at["classkey"], at["class"] = at["class"]
    t = {k[2:]: at.pop(k) for k in list(at) if k.startswith("t.")}
    o = obj(kind, n, at)
    if kind == "text":
        o["text"] = dict(o["text"], **t)
    return o


def check(ctx, a, c):
    ka, kb, where = c
    A = build(ka, 3, {k[2:]: v for k, v in a.items() if k[0] == "a"})
    B = build(kb, 4, {k[2:]: v for k, v in a.items() if k[0] == "b"})
    check_map(ctx, place([A, B], where))


def slots(kind, pre):
    s = [(pre + n, v) for n, v in COMMON]
    if kind == "text":
        s += [(pre + "t." + n, v) for n, v in TEXT]
    return s


def lattice(tier):
    # every presence subset of the attributes of a text object (both boolean polarities occur as first values)
    n = len(slots("text", ""))
    step = 1 << n
    return [("text", [("text", b) for b in range(step)])] + [(k, [(k, b) for b in range(16)]) for k in KINDS if k != "text"]


def check_lattice(ctx, st):
    kind, bits = st
    sl = slots(kind, "")
    at = {n: v[0] for i, (n, v) in enumerate(sl) if bits >> i & 1}
    check_map(ctx, place([build(kind, 3, at), build(kind, 4, {})], "top"))


def many(tier):
    return [("count", [(k, n) for k in KINDS for n in range(2, 60 if tier == "quick" else 300)])]


def check_many(ctx, st):
    kind, n = st
    objs = []
    for i in range(n):
        at = {"name": "n%d" % i} if i % 2 else {}
        if i % 3 == 0:
            at["class"] = (("type", "class")[i % 2], "c%d" % i)
        if i % 5 == 1:
            at["visible"] = False
        if i % 4 == 2:
            at["props"] = [dom.P("k%d" % i, "string", "v%d" % i)]
        if i % 7 == 3:
            at.update({"t.color": "#0102%02x" % (i % 256), "t.bold": True, "t.kerning": False})
        if i % 7 == 5:
            at.update({"t.wrap": True, "t.halign": "center", "t.pixelsize": i})
        objs.append(build(kind, i + 1, at))
    check_map(ctx, place(objs, "top"))


def spaces():
    out = []
    for i, k in enumerate(KINDS):
        kb = "text" if k != "text" else "rect"
        ctxs = [(k, k, "top"), (k, k, "tile"), (k, k, "group")]
        big = k == "text"
        out.append(
            Dev("attrs-" + k, slots(k, "a.") + slots(k, "b."), check,
                {"quick": [(0, 99), (1, 99), (2, 3 if big else 6)], "thorough": [(0, 99), (1, 99), (2, 8), (3, 2 if big else 6)]},
                dense={"quick": [(1, 99), (2, 3)], "thorough": [(1, 99), (2, 6)]}, contexts=ctxs))
        out.append(
            Dev("mixed-" + k, slots(k, "a.") + slots(kb, "b."), check,
                {"quick": [(0, 99), (1, 99), (2, 2)], "thorough": [(0, 99), (1, 99), (2, 6)]}, contexts=[(k, kb, "top"), (k, kb, "tile")]))
    out.append(Enum("presence-lattice", lattice, check_lattice, edges=lambda s: bin(s[1]).count("1")))
    out.append(Enum("siblings", many, check_many))
    out.append(grow.space("C06"))
    out.append(wide.space("C06"))
    out.append(wide.same("C06"))
    return out
