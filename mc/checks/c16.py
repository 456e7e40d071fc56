"""C16: worlds."""
import os
import re
from itertools import combinations, permutations, product
from pathlib import Path

from .. import grow
from .. import model as m_
from ..core import Enum
from ..model import B, L, O, pair, path, size

RULE = "states: world files (declared maps, patterns with multipliers and offsets, adjacency flag, absent or empty sections) x contents of the world's directory (every subset of a pool of adversarial names, files and directories) x ways of naming the world file; the parsed world is compared with the reference semantics (declared maps in order, then the pattern matches as a multiset)"
ASSUMPTIONS = ["a pattern matches a name as re.match does (from the start of the name)", "patterns have two numeric groups and both multipliers, as Tiled writes them", "the order of the files a pattern matches is the directory's and is not specified"]

MULT = [(16, 9), (1, 1), (100, 100), (-32, 4), (0, 0), (0.5, 0.25), (7, -3), (1e6, 0), (640, 480)]
OFF = [(None, None), (0, 0), (5, -7.5), (None, 3), (-2, None), (1000000, 1)]


def pat(rx, mult=(16, 9), off=(None, None)):
    return {"regexp": rx, "multiplierX": mult[0], "multiplierY": mult[1], "offsetX": off[0], "offsetY": off[1]}


RX = [
    r"map_(\d+)_(\d+)\.tmx",
    r"map_p(-?\d+)n(-?\d+)\.tmx$",
    r"(\d+)-(\d+)",
    r"m(?:ap)?_?(\d+(?:\.\d+)?)[_x](\d+)(\.\w+)?",
    r".*?(\d+)\D+(\d+)\.(?:tmx|tmj|json)$",
    r"MAP_(\d+)_(\d+)\.tmx",
    r"nothing(\d)(\d)",
]
# name, kind
NAMES = [
    ("map_1_2.tmx", "file"), ("map_007_010.tmx", "file"), ("map_3_4.tmx", "dir"), ("xmap_5_6.tmx", "file"), ("map_7_8.tmx.bak", "file"),
    ("map_p-1n2.tmx", "file"), ("12-34", "file"), ("m1.5x2.tmj", "file"), ("MAP_9_9.tmx", "file"), ("map_6_6.tmx", "dangling"), ("readme.txt", "file"),
    ("map_2_1.tmj", "file"), ("map_10_0.tmx", "empty"),
]


def world(maps=None, patterns=None, flag=None):
    d = {"type": "world"}
    if maps is not None:
        d["maps"] = maps
    if patterns is not None:
        d["patterns"] = [{k: v for k, v in p.items() if v is not None} for p in patterns]
    if flag is not None:
        d["onlyShowAdjacentMaps"] = flag
    return d


def expected(d, names, parent):
    out = [O("WorldMap", map_file=("path", str(parent / m["fileName"])), size=size(m["width"], m["height"]), coordinates=pair(m["x"], m["y"])) for m in d.get("maps", [])]
    pats = []
    for p in d.get("patterns", []):
        rx = re.compile(p["regexp"])
        for n, kind in names:
            m = rx.match(n)
            if kind in ("file", "empty", "link", "unreadable") and m:
                x = float(m.group(1)) * p["multiplierX"] + (p.get("offsetX") or 0)
                y = float(m.group(2)) * p["multiplierY"] + (p.get("offsetY") or 0)
                pats.append(O("WorldMap", map_file=("path", str(parent / n)), size=size(abs(p["multiplierX"]), abs(p["multiplierY"])), coordinates=pair(x, y)))
    return out, pats


def canon(ms):
    return sorted([m_.loose(m) for m in ms], key=lambda t: repr(_norm(t)))


def _norm(t):
    if isinstance(t, tuple):
        return tuple(_norm(x) for x in t)
    if isinstance(t, (int, float)) and not isinstance(t, bool):
        return float(t) + 0.0
    return t


def run(ctx, d, names, how=0):
    ctx.wipe()
    for n, kind in names:
        p = ctx.root + "/w/" + n
        if kind == "dir":
            os.makedirs(p)
        elif kind == "dangling":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(ctx.root + "/nowhere", p)
        elif kind in ("link", "dirlink"):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            t = ctx.root + "/target/" + n
            if kind == "link":
                ctx.put("target/" + n, b"not a map")
            else:
                os.makedirs(t)
            os.symlink(t, p)
        elif kind == "fifo":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.mkfifo(p)
        else:
            ctx.put("w/" + n, b"" if kind == "empty" else b"\xff\x00 not a map")
            if kind == "unreadable":
                os.chmod(p, 0)
    p = ctx.put("w/x.world", m_.jsn(d))
    names = list(names) + [("x.world", "file")]
    old = os.open(".", os.O_RDONLY)  # it may have no name
    try:
        os.makedirs(ctx.root + "/elsewhere", exist_ok=True)
        if how == 0:
            given = Path(p)
        elif how == 1:
            os.chdir(ctx.root + "/w")
            given = Path("x.world")
        elif how == 2:
            os.chdir(ctx.root + "/elsewhere")
            given = Path("../w/x.world")
        else:
            os.chdir(ctx.root)
            given = Path("w/./x.world")
        obs = ctx.observe("world", None, given)
        if how == 0:
            ctx.expect("parse_world(again)", obs, ctx.observe("world", None, given))
    finally:
        os.fchdir(old)
        os.close(old)
    dec, pats = expected(d, names, given.parent)
    call = "parse_world(%r)" % given
    if obs[0] != "World":
        return ctx.fail(call, "result", "a world", obs)
    f = dict(obs[1])
    ctx.expect(call, B(bool(d.get("onlyShowAdjacentMaps", False))), f["only_show_adjacent"], "only_show_adjacent")
    maps = f["maps"]
    if maps[0] != "list":
        return ctx.fail(call, "maps", "a list", maps)
    got = list(maps[1])
    if len(got) != len(dec) + len(pats):
        return ctx.fail(call, "maps", dec + pats, got)
    if [_norm(m_.loose(x)) for x in got[: len(dec)]] != [_norm(m_.loose(x)) for x in dec]:
        return ctx.fail(call, "declared maps", dec, got[: len(dec)])
    a, b = [_norm(x) for x in canon(pats)], [_norm(x) for x in canon(got[len(dec):])]
    if a != b:
        ctx.fail(call, "maps matched by patterns", pats, got[len(dec):])


def MAPF(n, w=10, h=20, x=0, y=0):
    return {"fileName": n, "width": w, "height": h, "x": x, "y": y}


DECL = [
    MAPF("a.tmx", 160, 90, 0, 0), MAPF("sub/b.tmj", 1, 2, -3, 4), MAPF("../c.tmx", 0.5, 7, 1.25, -100000), MAPF("日本 é.tmx", 3, 3, 9, 9), MAPF("map_1_2.tmx", 5, 6, 7, 8), MAPF("a.tmx", 2, 3, 4, 5), MAPF("/abs/d.tmx", 9, 8, 0, 1),
]


def declared(tier):
    n = 4 if tier == "quick" else 6
    out = [(c, how) for k in range(n) for c in permutations(range(len(DECL)), k) for how in ((0, 1, 2, 3) if k < 3 else (0,))]
    return [("lists", out), ("many", [(tuple(i % len(DECL) for i in range(k)), 0) for k in range(5, 60)])]


def check_declared(ctx, st):
    c, how = st
    run(ctx, world([DECL[i] for i in c]), [], how)


def subsets(tier):
    ns = range(len(NAMES))
    kmax = 13
    lv = []
    for k in range(kmax + 1):
        lv.append(("files=%d" % k, [(r, c) for r in range(len(RX)) for c in combinations(ns, k)]))
    if kmax < len(NAMES):
        lv.append(("all files", [(r, tuple(ns)) for r in range(len(RX))]))
    return lv


def check_subset(ctx, st):
    r, c = st
    run(ctx, world([], [pat(RX[r], (16, 9), (3, None))]), [NAMES[i] for i in c])


def params(tier):
    return [("multiplier-offset", [(i, j, k) for i in range(len(MULT)) for j in range(len(OFF)) for k in range(4)])]


def check_params(ctx, st):
    i, j, k = st
    rx = [RX[0], RX[1], RX[3], RX[4]][k]
    run(ctx, world(None, [pat(rx, MULT[i], OFF[j])]), NAMES, 0)


def several(tier):
    n = 2 if tier == "quick" else 3
    out = [(rs, dn, how) for k in range(0, n + 1) for rs in product(range(len(RX)), repeat=k) for dn in (0, 2, 5) for how in range(4)]
    many = [(tuple((i * 3 + k) % len(RX) for i in range(k)), dn, how) for k in range(n + 1, 12) for dn in (0, 3) for how in (0, 2)]
    return [("patterns", out), ("many patterns", many)]


def check_several(ctx, st):
    rs, dn, how = st
    run(ctx, world(DECL[:dn], [pat(RX[r], MULT[(r + i) % len(MULT)], OFF[(r + 2 * i) % len(OFF)]) for i, r in enumerate(rs)]), NAMES, how)


FLAGS = [None, True, False]


def sections(tier):
    ms, ps = [None, [], [0], [0, 1]], [None, [], [0], [0, 3]]
    return [("sections", [(a, b, f, how) for a in range(4) for b in range(4) for f in range(3) for how in range(4)])]


def check_sections(ctx, st):
    a, b, f, how = st
    ms, ps = [None, [], [0], [0, 1]][a], [None, [], [0], [0, 3]][b]
    run(ctx, world(None if ms is None else [DECL[i] for i in ms], None if ps is None else [pat(RX[i]) for i in ps], FLAGS[f]), NAMES[:6], how)


def numbers(tier):
    v = ["0", "1", "2", "9", "10", "007", "42", "100", "12345678", "-1", "-20", "-0"]
    f = ["0.125", "1.0625", "-7.015625", "33.333", "0.001", "1e-3", "100000.5", "3"]
    return [("captured", [(a, b, i, j) for a in v for b in v for i in (0, 3, 5) for j in (0, 2)]), ("fractions", [(a, b, i, j, 1) for a in f for b in f for i in (0, 1, 3, 5) for j in (0, 2)])]


def check_numbers(ctx, st):
    a, b, i, j = st[:4]
    if len(st) > 4:
        return run(ctx, world(None, [pat(r"w_(-?[\de.-]+)_(-?[\de.-]+)\.tm[xj]", MULT[i], OFF[j])]), [("w_%s_%s.tmx" % (a, b), "file"), ("w_%s.tmx" % a, "file")])
    run(ctx, world(None, [pat(r"w_(-?\d+)\.(-?\d+)\.tm[xj]", MULT[i], OFF[j])]), [("w_%s.%s.tmx" % (a, b), "file"), ("w_%s.tmx" % a, "file"), ("w_%s.%s.tmj" % (b, a), "file")])


def crowd(tier):
    return [("files", [(n,) for n in range(0, 300 if tier == "quick" else 1500, 20)])]


def check_crowd(ctx, st):
    n = st[0]
    run(ctx, world(None, [pat(RX[0], (2, 3)), pat(RX[0], (5, 7), (1, 1))]), [("map_%d_%d.tmx" % (i, n - i), "file") for i in range(n)])


KINDS = ["file", "empty", "link", "unreadable", "dir", "dirlink", "dangling", "fifo"]


def kinds(tier):
    n = range(len(KINDS))
    return [("kinds-%d" % k, [(c, r, how) for c in product(n, repeat=k) for r in (0, 4) for how in ((0, 1) if k < 3 else (0,))]) for k in (1, 2, 3)]


def check_kinds(ctx, st):
    c, r, how = st
    run(ctx, world(None, [pat(RX[r])]), [("map_%d_%d.tmx" % (i, i + 3), KINDS[k]) for i, k in enumerate(c)], how)


# regular expressions of every flavour, and names for them
RX2 = [
    r"^a_(\d+)_(\d+)\.tmx$", r"(?i)A_(\d+)_(\d+)\.TMX", r"(?P<row>a)?_?(?:a_)?", r"a_(?P<y>\d+)_(?P<x>\d+)", r"(\d+)(\d)", r"a_(\d+)_(\d+)(?=\.tmx)", r"a_(\d+)_(\d+)(?!\.tmx)",
    r"(?:a|b|ab)_(\d+)_(\d+)", r"\D*(\d+)\D*(\d+)\D*$", r"a_(\d+?)_(\d+?)", r".*_(\d+)_(\d+)", r"a_([+-]?\d*\.?\d+)_([0-9e]+)", r"a_(\d+)_\1(\d)", r"(?s).*?(\d+).(\d+)", r"a_(\d+)_(\d+)\.tm[xj]\Z", r"\s*a_(\d+)_(\d+)", r"é_(\d+)_(\d+)", "e\u0301_(\\d+)_(\\d+)", r"a\\_(\d+)_(\d+)", r"[^_]+_(\d+)_(\d+)",
]
RX2.pop(2)
NAMES2 = [
    "a_1_2.tmx", "a_1_2.TMX", "A_3_4.tmx", "a_1_2.tmx\n", "a_1_2.tmx.a_3_4.tmx", "xa_1_2.tmx", "ab_5_6.tmx", "b_7_8.tmj", "12", "345", "a_\u0663_\u0664.tmx", "a_1.5_2e3.tmx", "a_.5_1.tmx",
    "a_11_112.tmx", ".a_1_2.tmx", " a_1_2.tmx", "\u00e9_1_2.tmx", "e\u0301_1_2.tmx", "a_1_2", "a_0001_0.tmx", "a_99999999999999999999_1.tmx", "a_1__2.tmx", "a\\_1_2.tmx", "a*_1_2.tmx", "1\n2",
]


def regexes(tier):
    one = [((r,), (n,)) for r in range(len(RX2)) for n in range(len(NAMES2))]
    two = [((r,), c) for r in range(len(RX2)) for c in combinations(range(len(NAMES2)), 2)]
    rest = [((r, q), tuple(range(len(NAMES2)))) for r in range(len(RX2)) for q in range(len(RX2))]
    return [("one name", one), ("two names", two), ("all names, two patterns", rest)]


def check_regexes(ctx, st):
    rs, ns = st
    run(ctx, world(None, [pat(RX2[r], (3, -2), (1, None)) for r in rs]), [(NAMES2[n], "file") for n in ns])


def spaces():
    one = lambda s: 1
    return [
        Enum("declared", declared, check_declared, edges=lambda s: len(s[0])),
        Enum("directory-subsets", subsets, check_subset, edges=lambda s: len(s[1])),
        Enum("parameters", params, check_params, edges=one),
        Enum("several-patterns", several, check_several, edges=lambda s: len(s[0])),
        Enum("sections", sections, check_sections, edges=one),
        Enum("captured-numbers", numbers, check_numbers, edges=one),
        Enum("kinds-of-entries", kinds, check_kinds, edges=lambda s: len(s[0])),
        Enum("regular-expressions", regexes, check_regexes, edges=lambda s: len(s[1])),
        Enum("crowded-directory", crowd, check_crowd, edges=one),
        grow.space("C16"),
    ]
