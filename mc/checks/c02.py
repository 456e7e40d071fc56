"""C02: tile grids."""
import os
import pickle
import struct
import subprocess
import sys
import zlib
from itertools import combinations, permutations, product

from .. import core, grow, wide
from .. import model as m_
from ..core import Enum
from ..model import EXT, M
from ..util import check_map, wrap

RULE = "states: one or more tile layers/chunks with given sizes, IDs, encoding, compression, level and nesting; every state is saved as TMX and as JSON (where the format has the encoding), parsed, and the grids compared exactly"
ASSUMPTIONS = ["the zstd package is not installed in the sandbox: where it is, a stand-in that decodes Zstandard frames of raw and repeated blocks takes its place (mc/standin), in an interpreter of its own"]

BOTH = ("tmx", "json")
# (encoding, compression, formats)
ENC = [("csv", "", BOTH), ("xml", "", ("tmx",)), ("base64", "", BOTH), ("base64", "zlib", BOTH), ("base64", "gzip", BOTH)]
# further spellings of the same
ALT = [("csv!", "", ("json",)), ("base64-", "", BOTH)]
IDS = [0, 1, 255, 256, 0x00FFFFFF, 0x80000001, 0x40000000 | 9, 0x20000003, 0xFFFFFFFF, 0x7FFFFFFF, 65535, 65536, 0x0A0D2C20, 10, 44]
BITS = [1 << i for i in range(32)] + [1 << i | 1 << j for i, j in combinations(range(32), 2)] + [0xFFFFFFFF ^ (1 << i) for i in range(32)]


def data(enc, comp, **kw):
    d = dict(kw)
    if enc == "csv!":
        d["enc"], d["explicit_csv"] = "csv", True
    elif enc == "base64-":
        d["enc"], d["nocomp"] = "base64", True
    else:
        d["enc"] = enc
    if comp:
        d["comp"] = comp
    return d


def uniq(w, h, k=0):
    """Every cell its own ID, differing in every byte from its neighbours."""
    return [[((x + w * y + k + 1) * 0x9E3779B1) & 0xFFFFFFFF for x in range(w)] for y in range(h)]


def tile(w, h, grid, enc, comp, n=1, **kw):
    return {"kind": "tile", "id": n, "name": "t%d" % n, "width": w, "height": h, "data": data(enc, comp, grid=grid, **kw)}


def grids(tier):
    a = IDS if tier == "thorough" else IDS[:9]
    out = []
    for e in range(len(ENC)):
        for w, h in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1)):
            vals = IDS if w * h < 3 else a
            for v in product(vals, repeat=w * h):
                out.append((e, w, h, v))
        for v in product(IDS[:5] if tier == "quick" else IDS[:9], repeat=4):
            out.append((e, 2, 2, v))
    return [("ids", out)]


def check_grid(ctx, st):
    e, w, h, v = st
    enc, comp, fmts = ENC[e]
    check_map(ctx, M([tile(w, h, [list(v[y * w : y * w + w]) for y in range(h)], enc, comp)]), fmts)


def check_bits(ctx, st):
    e, v, where = st
    enc, comp, fmts = ENC[e]
    if where == "finite":
        m = M([tile(1, 1, [[v]], enc, comp)])
    else:
        m = M([{"kind": "tile", "id": 1, "width": 16, "height": 16, "data": data(enc, comp, chunks=[{"x": -16, "y": 0, "w": 1, "h": 1, "grid": [[v]]}])}], infinite=True)
    check_map(ctx, m, fmts)


def bits(tier):
    return [(w, [(e, v, w) for e in range(len(ENC)) for v in BITS]) for w in ("finite", "chunk")]


def sizes(tier):
    n = 20 if tier == "quick" else 48
    alle = ENC + ALT
    one = [(e, w, h, where) for e in range(len(alle)) for w in range(1, n + 1) for h in range(1, n + 1) for where in ("top", "chunk")]
    long = [(e, w, h, where) for e in range(len(alle)) for s in (63, 64, 65, 255, 256, 257, 1000, 4096) for w, h in ((s, 1), (1, s), (s, 2), (2, s)) for where in ("top", "chunk", "group2")]
    big = [(e, w, h, "top") for e in range(len(ENC)) for w, h in ((100, 100), (255, 256), (256, 256), (257, 255), (129, 511))]
    if tier == "thorough":
        big += [(e, w, h, wh) for e in range(len(ENC)) for w, h in ((1000, 1000), (70000, 1), (1, 70000)) for wh in ("top", "chunk")]
    return [("small", one), ("long", long), ("big", big)]


def check_size(ctx, st):
    e, w, h, where = st
    enc, comp, fmts = (ENC + ALT)[e]
    g = uniq(w, h)
    if where == "chunk":
        l = {"kind": "tile", "id": 1, "width": 30, "height": 20, "data": data(enc, comp, chunks=[{"x": -w, "y": h, "w": w, "h": h, "grid": g}])}
        check_map(ctx, M([l], infinite=True), fmts)
    else:
        check_map(ctx, M(wrap([tile(w, h, g, enc, comp)], where)), fmts)


def patterns(tier):
    """Contents that compress to very different streams."""
    out = []
    for e in (3, 4):
        for lv in range(0, 10):
            for w, h in ((1, 1), (4, 3), (16, 16), (37, 23), (100, 100)):
                for p in range(6):
                    out.append((e, lv, w, h, p))
    return [("levels", out)]


def check_pattern(ctx, st):
    e, lv, w, h, p = st
    enc, comp, fmts = ENC[e]
    f = [lambda x, y: 0, lambda x, y: 7, lambda x, y: 0xFFFFFFFF, lambda x, y: (x ^ y) & 1, lambda x, y: x, lambda x, y: ((x * 7919 + y * 104729) * 0x9E3779B1) & 0xFFFFFFFF][p]
    g = [[f(x, y) for x in range(w)] for y in range(h)]
    check_map(ctx, M([tile(w, h, g, enc, comp, level=lv)]), fmts)


# other streams of the same bytes, all valid zlib (RFC 1950) and gzip (RFC 1952)


def deflate(raw, bits, level=9, strategy=0, flush=0):
    c = zlib.compressobj(level, zlib.DEFLATED, bits, 8, strategy)
    if not flush:
        return c.compress(raw) + c.flush()
    out = b""
    flush = max(flush, len(raw) // 2000)
    for i in range(0, len(raw), flush):
        out += c.compress(raw[i : i + flush]) + c.flush(zlib.Z_FULL_FLUSH if i // flush % 64 == 1 else zlib.Z_SYNC_FLUSH)
    return out + c.flush()


def member(raw, name=None, comment=None, extra=None, hcrc=False, mtime=0, osb=255):
    f = (hcrc << 1) | ((extra is not None) << 2) | ((name is not None) << 3) | ((comment is not None) << 4)
    h = b"\x1f\x8b\x08" + bytes([f]) + struct.pack("<I", mtime) + bytes([2, osb])
    if extra is not None:
        h += struct.pack("<H", len(extra)) + extra
    if name is not None:
        h += name + b"\0"
    if comment is not None:
        h += comment + b"\0"
    if hcrc:
        h += struct.pack("<H", zlib.crc32(h) & 0xFFFF)
    return h + deflate(raw, -15) + struct.pack("<II", zlib.crc32(raw), len(raw) & 0xFFFFFFFF)


def parts(raw, cuts):
    b = [0] + sorted(min(len(raw), c) for c in cuts) + [len(raw)]
    return [raw[x:y] for x, y in zip(b, b[1:])]


STREAMS = [("zlib", lambda r, w=w: deflate(r, w)) for w in range(9, 16)]
STREAMS += [("zlib", lambda r, s=s: deflate(r, 15, 9, s)) for s in range(1, 5)]
STREAMS += [("zlib", lambda r, f=f: deflate(r, 15, 6, 0, f)) for f in (1, 3, 8, 4096)]
STREAMS += [("gzip", lambda r, w=w: deflate(r, 16 + w)) for w in range(9, 16)]
STREAMS += [("gzip", lambda r, f=f: deflate(r, 31, 6, 0, f)) for f in (1, 7)]
STREAMS += [("gzip", lambda r, c=c: b"".join(member(x) for x in parts(r, c))) for c in ([4], [1], [0], [10**9], [4, 8], [5, 6, 7], [0, 0], [4000])]
STREAMS += [("gzip", lambda r, k=k: member(r, **k)) for k in ({"name": b"tiles.bin"}, {"name": b""}, {"comment": b"made by hand"}, {"extra": b"ab\x02\x00zz"}, {"extra": b""}, {"hcrc": True}, {"mtime": 0xFFFFFFFF, "osb": 3}, {"name": b"n", "comment": b"c", "extra": b"xx\x00\x00", "hcrc": True})]
STREAMS += [("gzip", lambda r: member(r) + b"\0" * 5), ("gzip", lambda r: member(r, name=b"a") + member(b"") + b"\0")]


def streams(tier):
    S = [(1, 1), (2, 3), (16, 16), (100, 70), (300, 200)]
    return [("streams", [(i, w, h, where) for i in range(len(STREAMS)) for w, h in S for where in ("top", "chunk", "group")])]


def check_stream(ctx, st):
    i, w, h, where = st
    comp, f = STREAMS[i]
    lv = lambda c, raw: f(raw)
    g = uniq(w, h)
    if where == "chunk":
        l = {"kind": "tile", "id": 1, "width": 30, "height": 20, "data": data("base64", comp, level=lv, chunks=[{"x": -w, "y": h, "w": w, "h": h, "grid": g}])}
        return check_map(ctx, M([l], infinite=True))
    check_map(ctx, M(wrap([tile(w, h, g, "base64", comp, level=lv)], where)))


CH = [(0, 0, 2, 3), (-16, 0, 3, 2), (16, -32, 1, 1), (-32, -16, 4, 1), (0, 16, 1, 5)]


START = [(-32, -16), (0, -16), (-16, 0), (16, 48), (0, 0)]


def layouts(tier):
    out = [(e, c, k) for e in range(len(ENC + ALT)) for n in range(0, 4 if tier == "quick" else 6) for c in permutations(range(len(CH)), n) for k in (0, 1)]
    many = [(e, tuple(i % len(CH) for i in range(n)), 2) for e in range(len(ENC)) for n in (10, 16, 17, 40, 64)]
    same = [(e, (i, i), 0) for e in range(len(ENC)) for i in range(len(CH))]
    return [("orders", out), ("many", many + same)]


def check_layout(ctx, st):
    e, c, k = st
    enc, comp, fmts = (ENC + ALT)[e]
    ch = []
    for j, i in enumerate(c):
        x, y, w, h = CH[i]
        if k == 2:
            x += 16 * j
        ch.append({"x": x, "y": y, "w": w, "h": h, "grid": uniq(w, h, 1000 * j + i)})
    l = {"kind": "tile", "id": 1, "width": 30, "height": 20, "data": data(enc, comp, chunks=ch)}
    if k == 1:
        sx, sy = START[sum(c) % len(START)]
        l.update(startx=sx, starty=sy, offsetx=3, props=[])
    ls = [l]
    if k == 1:
        ls = wrap([l, dict(l, id=2, data=data("csv", "", chunks=ch[::-1]))], "group")
    check_map(ctx, M(ls, infinite=True), fmts)


BLANK = [None, "", "\n", "\n  ", " ", "\n\n\t\n", "\r\n"]


def empties(tier):
    """Infinite layers without a single chunk, however the nothing is written, next to layers with chunks."""
    return [("no-chunks", [(e, b, w) for e in range(len(ENC + ALT)) for b in range(len(BLANK)) for w in range(8)])]


def check_empty(ctx, st):
    e, b, w = st
    enc, comp, fmts = (ENC + ALT)[e]
    none = {"kind": "tile", "id": 1, "width": 30, "height": 20, "data": data(enc, comp, chunks=[], blank=BLANK[b])}
    some = {"kind": "tile", "id": 2, "width": 30, "height": 20, "data": data(enc, comp, chunks=[{"x": 0, "y": 0, "w": 2, "h": 1, "grid": [[1, 2]]}])}
    ls = [[none], [none, some], [some, none], [none, dict(none, id=3)]][w % 4]
    if w > 3:
        ls = [{"kind": "group", "id": 50, "layers": ls}]
    check_map(ctx, M(ls, infinite=True), fmts)


ABSENT = "(absent)"


def nothings(tier):
    """JSON layers whose encoding or compression is absent, null, empty or spelled out, chunked or not."""
    out = []
    for e in (ABSENT, None, "", "csv"):
        for c in (ABSENT, None, ""):
            out += [(e, c, "")]
    for comp in ("", "zlib", "gzip"):
        out += [("base64", c, comp) for c in ((ABSENT, None, "") if not comp else (comp,))]
    return [("nothings", [o + (k, w) for o in out for k in range(3) for w in range(2)])]


def check_nothing(ctx, st):
    e, c, comp, k, w = st
    enc = "base64" if e == "base64" else "csv"
    chunks = [{"x": -16, "y": 0, "w": 2, "h": 1, "grid": [[1, 2]]}, {"x": 0, "y": 0, "w": 1, "h": 2, "grid": [[3], [4]]}][:k]
    l = tile(2, 2, [[1, 2], [3, 0x80000004]], enc, comp) if not k else {"kind": "tile", "id": 1, "width": 4, "height": 4, "data": data(enc, comp, chunks=chunks)}
    m = M([l] if not w else [{"kind": "group", "id": 9, "layers": [dict(l, id=8), l]}], infinite=bool(k))
    d = m_.json_map(m)
    for j in d["layers"] if not w else d["layers"][0]["layers"]:
        for key, v in (("encoding", e), ("compression", c)):
            j.pop(key, None)
            if v != ABSENT:
                j[key] = v
    p = ctx.put("m.tmj", m_.jsn(d))
    ctx.expect("parse_map('m.tmj')", m_.exp_map(m, "json", p), ctx.observe("map", "m.tmj"))


def mixes(tier):
    """Several layers, each with its own encoding and size."""
    S = [(2, 3), (3, 2), (1, 4), (5, 1)]
    out = []
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for es in product(range(5), repeat=n):
            for r in range(2):
                out.append((tuple((e,) + S[(i + r) % 4] for i, e in enumerate(es)), r))
    return [("mixed", out)]


def check_mix(ctx, st):
    spec, r = st
    ls = [tile(w, h, uniq(w, h, 100 * i), ENC[e][0], ENC[e][1], i + 1) for i, (e, w, h) in enumerate(spec)]
    if r:
        ls = ls[:1] + [{"kind": "group", "id": 50, "layers": ls[1:]}]
    fmts = BOTH if all(e != 1 for e, _, _ in spec) else ("tmx",)
    check_map(ctx, M(ls, width=9, height=9), fmts)


def lengths(tier):
    """Every digit count and neighbour around the powers of ten and of two."""
    v = sorted({x for p in range(0, 33) for x in (2**p - 1, 2**p, 2**p + 1) if x < 2**32} | {x for p in range(0, 10) for x in (10**p - 1, 10**p, 10**p + 1)})
    return [("pairs", [(e, a, b) for e in range(len(ENC)) for a in v for b in (v if tier == "thorough" else v[::6])])]


def check_pair(ctx, st):
    e, a, b = st
    enc, comp, fmts = ENC[e]
    check_map(ctx, M([tile(2, 2, [[a, b], [b, a]], enc, comp)]), fmts)


CHILD = r"""
import os, pickle, sys
sys.path[:0] = [os.path.join(sys.argv[1], "mc", "standin"), sys.argv[1]]
from mc import core, model
lib = core.load()
from pathlib import Path
root = sys.argv[2]
out = []
with open(os.path.join(root, "jobs"), "rb") as f:
    jobs = pickle.load(f)
for rel in jobs:
    try:
        out.append(model.dump(lib.parse_map(Path(root) / rel)))
    except Exception as e:
        out.append(("EXC", type(e).__name__, ascii(str(e))[:200]))
with open(os.path.join(root, "results"), "wb") as f:
    pickle.dump(out, f)
"""


def zmaps(kind):
    """Maps with zstd layers or chunks among layers of the other encodings."""
    S = [(1, 1), (1, 5), (4, 3), (7, 2), (16, 16), (37, 23), (100, 100), (255, 256), (257, 1)]
    one = lambda v: [[v] * 3] * 2
    if kind == "sizes":
        return [M([tile(w, h, uniq(w, h), "base64", "zstd")]) for w, h in S]
    if kind == "ids":
        return [M([tile(3, 2, one(v), "base64", "zstd")]) for v in IDS + BITS[:32]] + [M([tile(50, 50, [[v] * 50] * 50, "base64", "zstd")]) for v in (0, 0x01010101, 0xFFFFFFFF, 0x80000001)]
    if kind == "mixed":
        return [M(wrap([tile(w, h, uniq(w, h, 9 * i), ENC_Z[e][0], ENC_Z[e][1], i + 1) for i, e in enumerate(p)], where)) for w, h in S[:4] for p in permutations([5, 0, 2, 3, 4]) for where in ("top", "group2")[: 1 + (p[0] == 5)]]
    out = []
    for n in range(4):
        for c in permutations(range(len(CH)), n):
            ch = [{"x": CH[i][0], "y": CH[i][1], "w": CH[i][2], "h": CH[i][3], "grid": uniq(CH[i][2], CH[i][3], i)} for i in c]
            out.append(M([{"kind": "tile", "id": 1, "width": 30, "height": 20, "data": data("base64", "zstd", chunks=ch)}], infinite=True))
    return out


ENC_Z = ENC + [("base64", "zstd", BOTH)]


def zlevels(tier):
    return [("zstd", [(f, k) for f in BOTH for k in ("sizes", "ids", "mixed", "chunks")])]


def check_zstd(ctx, st):
    """Zstandard layers where the package (a stand-in) is installed: a fresh interpreter parses them."""
    fmt, kind = st
    ctx.wipe()
    ms = zmaps(kind)
    rels = ["%d%s" % (i, EXT[fmt]["map"]) for i in range(len(ms))]
    ps = [ctx.put(r, m_.map_bytes(m, fmt)) for r, m in zip(rels, ms)]
    files, ctx.written = ctx.written, {}
    with open(ctx.root + "/jobs", "wb") as f:
        pickle.dump(rels, f)
    env = dict(os.environ, MC_REPO=core.REPO)
    p = subprocess.run([sys.executable, "-c", CHILD, core.VERIF, ctx.root], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    try:
        with open(ctx.root + "/results", "rb") as f:
            out = pickle.load(f)
    except OSError:
        raise core.HarnessError("child interpreter failed: " + p.stderr.decode("utf-8", "replace")[-2000:])
    for r, m, path, obs in zip(rels, ms, ps, out):
        ctx.execs += 1
        ctx.seen(obs)
        e = m_.exp_map(m, fmt, path)
        if e != obs:
            ctx.written = {r: files[r]}
            ctx.expect("parse_map(%r) with zstd installed" % r, e, obs)
            return


def spaces():
    one = lambda s: 1
    return [
        Enum("boundary-ids", grids, check_grid, edges=one),
        Enum("bit-patterns", bits, check_bits, edges=one),
        Enum("sizes", sizes, check_size, edges=one),
        Enum("chunk-layouts", layouts, check_layout, edges=lambda s: len(s[1])),
        Enum("no-chunks", empties, check_empty, edges=lambda s: 1),
        Enum("nothings", nothings, check_nothing, edges=lambda s: 1),
        Enum("mixed-layers", mixes, check_mix, edges=lambda s: len(s[0])),
        Enum("compression-levels", patterns, check_pattern, edges=one),
        Enum("streams", streams, check_stream, edges=one),
        Enum("zstd-stand-in", zlevels, check_zstd, edges=one, heavy=True),
        Enum("powers", lengths, check_pair, edges=one),
        grow.space("C02"),
        wide.space("C02"),
        wide.same("C02"),
    ]
