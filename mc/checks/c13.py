"""C13: file references."""
import html
import os
import unicodedata
import urllib.parse
from itertools import product
from pathlib import Path

from .. import model as m_
from ..core import Enum, HarnessError
from ..model import EXT, M, P, TS

RULE = "states: names: every way of referring to a file x names that mean something elsewhere (home directories, variables, escapes, patterns, drives, URLs); placements of map, tileset, template and template tileset over a directory tree with same-named decoys in every directory x working directory x way of naming the map x spelling of the references; images, tilesets and template objects found are compared with the reference model; links: every way of going from the map to its tileset, its template and the template's tileset through symbolic links to directories and files, with '..' behind links, decided by what the operating system finds"
ASSUMPTIONS = ["POSIX paths", "the directory of a file is the one it is named in: a symbolic link to a file is not followed to find its directory"]

DIRS = ["", "a", "a/b", "c", "c/sp ace é"]
IMAGES = ["i.png", "../i.png", "sub/i.png", "./i.png", "/abs/dir/i.png", "sub/../i.png", "../../x/i.png", "../c/i.png"]
FORMS = ["absolute", "relative", "dotted", "absolute-dotted"]
SPELL = ["plain", "dot", "detour", "absolute"]


def tsname(d, fmt):
    return "ts@%s.%s" % (DIRS[d], fmt)


def ts_of(d, fmt, im=None):
    i = (d + (fmt == "json")) % len(IMAGES) if im is None else im
    return TS(tsname(d, fmt), image=(IMAGES[i], 64, 32), tiles=[{"id": 2, "image": (IMAGES[(i + 1) % len(IMAGES)], 4, 5)}])


def rel(frm, to, spell, root):
    if spell == "absolute":
        return root + "/t/" + to
    r = os.path.relpath("/r/" + to, "/r/" + frm)
    if spell == "dot":
        return "./" + r
    if spell == "detour":
        return "zz/../" + r
    return r


def setup(ctx):
    """Fill the tree with decoys once per worker."""
    if getattr(ctx, "tree", None):
        ctx.written.update(ctx.tree)
        return
    for d in DIRS:
        os.makedirs(ctx.root + "/t/" + d + "/zz", exist_ok=True)
    for i, d in enumerate(DIRS):
        for fmt in ("tmx", "json"):
            ctx.put("t/%s/t%s" % (d, EXT[fmt]["tileset"]), m_.tileset_bytes(ts_of(i, fmt), fmt))
            for q, dq in enumerate(DIRS):
                for tf in ("tmx", "json"):
                    for sp in SPELL:
                        tm = {"object": {"kind": "tile", "gid": 4, "width": 1 + i, "height": 1 + q, "name": "tpl@%s" % d}, "src": rel(d, dq + "/t" + EXT[tf]["tileset"], sp, ctx.root)}
                        ctx.put("t/%s/p%d-%s-%s%s" % (d, q, tf, sp, EXT[fmt]["template"]), m_.template_bytes(tm, fmt))
    ctx.tree = dict(ctx.written)


def expected_img(ctx, d):
    base = ctx.root + "/t/" + DIRS[d]

    def f(s):
        return ("path", os.path.normpath(os.path.join(base, s)))

    return f


def states(tier):
    D = range(len(DIRS))
    lv = []
    base = []
    for mf in ("tmx", "json"):
        for m, t, p, q in product(D, repeat=4):
            for k, (cwd, form) in enumerate(product(D, range(len(FORMS)))):
                base.append((mf, m, t, p, q, cwd, form, 0, 0))
    lv.append(("placement", base))
    sp = []
    for mf in ("tmx", "json"):
        for tf in range(2):
            for s in range(len(SPELL)):
                for m, t, p, q in product(D, repeat=4):
                    for cwd, form in product(D, range(4)) if tier != "quick" else [((m + 1) % 5, (p + q) % 4)]:
                        sp.append((mf, m, t, p, q, cwd, form, s, tf))
    lv.append(("spelling", sp))
    return lv


def named(ctx, d, cwd, form, base):
    full = ctx.root + "/t/" + (DIRS[d] + "/" if DIRS[d] else "") + base
    if form == "absolute":
        return Path(full)
    if form == "absolute-dotted":
        return Path(os.path.dirname(full) + "/zz/../" + base)
    r = os.path.relpath(full, ctx.root + "/t/" + DIRS[cwd])
    if form == "dotted":
        return Path(os.path.join("zz/..", r))
    return Path(r)


def check(ctx, st):
    mf, m, t, p, q, cwd, form, s, other = st
    setup(ctx)
    of = ("json" if mf == "tmx" else "tmx") if other else mf
    sp = SPELL[s]
    tsrc = rel(DIRS[m], DIRS[t] + "/t" + EXT[of]["tileset"], sp, ctx.root)
    tpl = rel(DIRS[m], DIRS[p] + "/p%d-%s-%s%s" % (q, of, sp, EXT[mf]["template"]), sp, ctx.root)
    lay = [
        {"kind": "object", "name": "o", "id": 1, "objects": [{"id": 1, "template": tpl, "x": 3, "y": 4}], "props": [P("f", "file", "../f/x.txt")]},
        {"kind": "image", "name": "i", "id": 2, "image": "../img/l.png" if s < 3 else "/abs/l.png"},
    ]
    emb = TS("embedded", image=("../e/e.png", 3, 3), tiles=[{"id": 1, "image": ("./f.png", 1, 1)}])
    doc = M(lay, [{"firstgid": 1, "ts": emb}, {"firstgid": 101, "ts": ts_of(t, of), "src": tsrc}], props=[P("g", "file", "g/../h.txt")])
    base = "m" + EXT[mf]["map"]
    ctx.put("t/" + DIRS[m] + "/" + base, m_.map_bytes(doc, mf))
    path = named(ctx, m, cwd, FORMS[form], base)
    os.chdir(ctx.root + "/t/" + DIRS[cwd])
    try:
        try:
            res = ctx.call("map", path)
        except Exception as e:
            return ctx.fail("parse_map(%r) in %r" % (str(path), DIRS[cwd]), "result", "a map", ("EXC", type(e).__name__, str(e)[:200]))
        obs = m_.dump(res)
    finally:
        os.chdir("/")
    call = "parse_map(%r) in %r" % (str(path).replace(ctx.root, "<root>"), DIRS[cwd])
    same = tsname(t, of) == tsname(q, of)
    ctx.seen((st[1:], same))
    # which global id a template tileset gets is C15's business: take it from the result
    try:
        o = res.layers[0].tiled_objects[0]
        gid = o.gid
        new = gid - 3
    except Exception:
        gid = new = -1
    refs = list(doc["tilesets"])
    if same:
        gid = 104
    else:
        refs.append({"firstgid": new, "ts": ts_of(q, of), "src": "-", "dir": q})
    doc["tilesets"] = refs

    def img(r):
        return m_.path if "src" not in r else expected_img(ctx, r.get("dir", t))

    def obj(o):
        return m_.exp_object({"kind": "tile", "id": 1, "x": 3, "y": 4, "width": 1 + p, "height": 1 + q, "name": "tpl@%s" % DIRS[p]}, gid)

    ctx.expect(call, m_.exp_map(doc, mf, path, img, obj), obs)


def standalone(tier):
    D = range(len(DIRS))
    return [("tileset", [("tileset", fmt, d, c, f, i) for fmt in ("tmx", "json") for d in D for c in D for f in range(4) for i in range(len(IMAGES))]),
            ("world", [("world", w, d, c, f, 0) for w in range(4) for d in D for c in D for f in range(4)])]


def check_alone(ctx, st):
    kind, x, d, cwd, form, i = st
    setup(ctx)
    if kind == "tileset":
        base = "alone" + EXT[x]["tileset"]
        t = ts_of(d, x, i)
        data = m_.tileset_bytes(t, x)
        exp = m_.exp_tileset(t, 1, x)
    else:
        base = "w.world"
        names = ["m1.tmx", "../a/m2.tmx", "sub/m3.tmj", "/abs/m4.tmx"]
        n = names[x]
        data = m_.jsn({"maps": [{"fileName": n, "x": 1, "y": 2, "width": 3, "height": 4}], "patterns": [{"regexp": "^t(\\d*)\\.ts()", "multiplierX": 1, "multiplierY": 1}][:0], "type": "world"})
    ctx.put("t/" + DIRS[d] + "/" + base, data)
    path = named(ctx, d, cwd, FORMS[form], base)
    if kind == "world":
        exp = m_.O("World", maps=m_.L([m_.O("WorldMap", map_file=("path", str(path.parent / n)), size=m_.size(3, 4), coordinates=m_.pair(1, 2))]), only_show_adjacent=m_.B(False))
    os.chdir(ctx.root + "/t/" + DIRS[cwd])
    try:
        obs = ctx.observe(kind, None, path)
    finally:
        os.chdir("/")
    ctx.expect("parse_%s(%r) in %r" % (kind, str(path).replace(ctx.root, "<root>"), DIRS[cwd]), exp, obs)


# -- symbolic links ----------------------------------------------------------
LD = ["", "z", "z/a", "z/a/b"]
LDIR = [3, 0, 1, 0]  # what the link "l" in each directory leads to
LFILE = [2, 3, 0, 1]  # the directory whose file the link "f..." in each directory leads to
WAYS = ["t", "l/t", "l/../t", "f", "l/f", "l/l/../f", "../l/../t", "../t"]
MAPS = ["m", "l/m", "l/../m", "n", "l/n"]


def lname(w, kind, fmt):
    head, _, tail = w.rpartition("/")
    return (head + "/" if head else "") + tail + EXT[fmt][kind]


def lset(d, fmt):
    return TS("L@%s.%s" % (LD[d], fmt), image=(IMAGES[d + 1], 64, 32), tiles=[{"id": 2, "image": ("i.png", 4, 5)}, {"id": 3, "image": ("l/../x/i.png", 4, 5)}])


def lsetup(ctx):
    if getattr(ctx, "ltree", None):
        ctx.written.update(ctx.ltree)
        return
    before = dict(ctx.written)
    for d in LD:
        os.makedirs(ctx.root + "/k/" + d, exist_ok=True)
    for i, d in enumerate(LD):
        here = ctx.root + "/k/" + (d + "/" if d else "")
        os.symlink(ctx.root + "/k/" + LD[LDIR[i]], here + "l")
        far = os.path.relpath(ctx.root + "/k/" + LD[LFILE[i]], here) + "/"
        for fmt in ("tmx", "json"):
            ctx.put("k/%s/t%s" % (d, EXT[fmt]["tileset"]), m_.tileset_bytes(lset(i, fmt), fmt))
            os.symlink(far + "t" + EXT[fmt]["tileset"], here + "f" + EXT[fmt]["tileset"])
            os.symlink(far + "m" + EXT[fmt]["map"], here + "n" + EXT[fmt]["map"])
            for wi, w in enumerate(WAYS):
                for tf in ("tmx", "json"):
                    tm = {"object": {"kind": "tile", "gid": 4, "width": 1 + i, "height": 1 + wi, "name": "tpl@%s" % d}, "src": lname(w, "tileset", tf)}
                    ctx.put("k/%s/t%d%s%s" % (d, wi, tf, EXT[fmt]["template"]), m_.template_bytes(tm, fmt))
                    os.symlink(far + "t%d%s%s" % (wi, tf, EXT[fmt]["template"]), here + "f%d%s%s" % (wi, tf, EXT[fmt]["template"]))
    ctx.ltree = {k: v for k, v in ctx.written.items() if k not in before}


def follow(d, way):
    """(directory the name is in, directory the file is in), or None if the name leads out of the tree."""
    *dirs, last = way.split("/")
    for c in dirs:
        if c == "l":
            d = LDIR[d]
        elif LD[d] == "":
            return None
        else:
            d = LD.index(os.path.dirname(LD[d]))
    return d, d if last in "tm" else LFILE[d]


def leads(d, n, t, p, q):
    m = follow(d, MAPS[n])
    if m is None or follow(m[0], WAYS[t]) is None:
        return False
    b = follow(m[0], WAYS[p])
    return b is not None and follow(b[0], WAYS[q]) is not None


def lstates(tier):
    W = range(len(WAYS))
    places = [(d, n) for d in range(len(LD)) for n in range(len(MAPS))]
    a = [(mf, tf, d, n, t, p, q, f) for mf in ("tmx", "json") for tf in ("tmx", "json") for d, n in places for t, p, q in product(W, repeat=3) if leads(d, n, t, p, q)
         for f in (range(3) if tier != "quick" else [(t + p + q) % 3])]
    return [("links", a)]


def real(tree, root):
    """Absolute paths compared as the files they denote."""
    if isinstance(tree, tuple):
        if len(tree) == 2 and tree[0] == "path" and isinstance(tree[1], str):
            return ("path", os.path.realpath(tree[1])) if tree[1].startswith("/") else tree
        return tuple(real(x, root) for x in tree)
    return tree


def lcheck(ctx, st):
    mf, tf, d, n, t, p, q, form = st
    lsetup(ctx)
    k = ctx.root + "/k"
    full = os.path.join(k, LD[d], lname(MAPS[n], "map", mf))
    target = os.path.realpath(full)
    where = os.path.dirname(full)

    def place(path, table):
        """Index of the directory in which the file that the system finds there really is."""
        r = os.path.realpath(path)
        if not os.path.isfile(r):
            return None
        return table.index(os.path.dirname(r)[len(k) + 1:])

    tsrc = lname(WAYS[t], "tileset", tf)
    head, _, tail = WAYS[p].rpartition("/")
    psrc = (head + "/" if head else "") + tail + "%d%s%s" % (q, tf, EXT[mf]["template"])
    qsrc = lname(WAYS[q], "tileset", tf)
    ti, pi = place(os.path.join(where, tsrc), LD), place(os.path.join(where, psrc), LD)
    qpath = os.path.join(os.path.dirname(os.path.join(where, psrc)), qsrc)
    qi = place(qpath, LD) if pi is not None else None
    if ti is None or pi is None or qi is None:
        raise HarnessError("links: %r leads nowhere" % (st,))
    lay = [{"kind": "object", "name": "o", "id": 1, "objects": [{"id": 1, "template": psrc, "x": 3, "y": 4}]}, {"kind": "image", "name": "i", "id": 2, "image": "l/../l.png"}]
    emb = TS("embedded", image=("l/../e.png", 3, 3))
    doc = M(lay, [{"firstgid": 1, "ts": emb}, {"firstgid": 101, "ts": lset(ti, tf), "src": tsrc}])
    ctx.put(os.path.relpath(target, ctx.root), m_.map_bytes(doc, mf))
    if form == 0:
        path, cwd = Path(full), "/"
    else:
        cwd = k + ("/l" if form == 1 else "/z")
        path = Path(os.path.relpath(k, os.path.realpath(cwd)) + full[len(k):])
    os.chdir(cwd)
    call = "parse_map(%r) in %r" % (str(path).replace(ctx.root, "<root>"), cwd.replace(ctx.root, "<root>"))
    try:
        try:
            res = ctx.call("map", path)
        except Exception as e:
            return ctx.fail(call, "result", "a map", ("EXC", type(e).__name__, str(e)[:200]))
        obs = real(m_.dump(res), ctx.root)
    finally:
        os.chdir("/")
    same = ti == qi
    ctx.seen((st[2:], ti, pi, qi))
    try:
        gid = res.layers[0].tiled_objects[0].gid
        new = gid - 3
    except Exception:
        gid = new = -1
    bases = {101: os.path.dirname(os.path.join(where, tsrc))}
    if same:
        gid = 104
    else:
        doc["tilesets"] = doc["tilesets"] + [{"firstgid": new, "ts": lset(qi, tf), "src": "-"}]
        bases[new] = os.path.dirname(qpath)

    def img(r):
        if "src" not in r:
            return m_.path
        return lambda s: ("path", os.path.realpath(os.path.join(bases[r["firstgid"]], s)))

    def obj(o):
        return m_.exp_object({"kind": "tile", "id": 1, "x": 3, "y": 4, "width": 1 + pi, "height": 1 + q, "name": "tpl@%s" % LD[pi]}, gid)

    exp = m_.exp_map(doc, mf, path, img, obj)
    ctx.expect(call, real(exp, ctx.root), obs)


# -- names that mean something elsewhere -----------------------------------------------------

NAMES = [
    "~", "~/n", "~root/n", "~n", "n~", "$HOME/n", "$HOME", "${HOME}", "$n", "%TEMP%", "%n%/n", "%HOME%", "n%20n", "n%2Fn", "%6e", "n+n", "n n", " n", "n ", "n\u00a0n", "n#n", "n?n", "n?", "#n", "n;n", "n:n", "n|n", "n,n", "n=n", "n&n", "n&amp;n", "n'n", "*", "n*", "?", "[n]", "[!n]", "{n}", "{0}", "%s", "%(n)s", "(n)", "n\\n",
    "C:", "C:n", "C:\\n", "C:/n", "..n", "n..", "...", "n.", ".n", "-", "--", "-n", "NUL", "con", "aux.n", "LPT1", "n.n.n", "N", "\u00e9", "e\u0301", "\u00c5", "\u212b", "\ufb01", "\u0130", "\u200bn", "\ufeffn", "n\u2028n", "\U0001f600", "file:n", "file:///n", "http:/n", "res:/n", "data:,n", "n@2x", "n" * 200, "0", "-1", "null", "None", "true", "n\ttab", "n/../~", "~/../n", "./~", "N/M", "a B/C d", "É/Ü", "n%20n/m%20m", "N.Tmx", "n.JSON", "n.json", "n.tsx", "n.tx", "n.tmx", "n.tmj", "n.tsj",
]
CARRIERS = ["image layer", "embedded image", "embedded tile image", "external image", "external tile image", "tileset image", "file property", "external tileset", "template", "template tileset", "world map", "map file", "tileset file", "directory"]


def variants(n, f):
    """Names that n might be mistaken for."""
    out = []
    for t in (
        str.lower, str.upper, str.casefold, str.title, str.strip, html.unescape, urllib.parse.unquote, urllib.parse.quote, urllib.parse.unquote_plus, os.path.basename, os.path.normpath,
        lambda n: unicodedata.normalize("NFC", n), lambda n: unicodedata.normalize("NFD", n), lambda n: unicodedata.normalize("NFKC", n), lambda n: n.encode("ascii", "ignore").decode(), lambda n: n.encode("ascii", "replace").decode(), lambda n: n.replace(" ", "_"), lambda n: n.replace(" ", ""),
        lambda n: n.replace("\\", "/"), lambda n: n.split("#")[0], lambda n: n.split("?")[0], lambda n: n.split(":")[-1].lstrip("/"), lambda n: n.rstrip(". "), lambda n: n.lstrip("."), lambda n: os.path.splitext(n)[0], lambda n: n.replace("*", "n"), lambda n: n.replace("?", "n"), lambda n: n.replace("[n]", "n"),
        lambda n: os.path.splitext(n)[0] + ".json", lambda n: os.path.splitext(n)[0] + EXT[f]["tileset"], lambda n: os.path.splitext(n)[0] + EXT[f]["template"], lambda n: os.path.splitext(n)[0] + EXT["tmx" if f == "json" else "json"]["tileset"], lambda n: os.path.splitext(n)[0] + EXT["tmx" if f == "json" else "json"]["template"], lambda n: n + EXT[f]["map"], lambda n: n + EXT[f]["tileset"], lambda n: n + EXT[f]["template"], lambda n: n + ".json", lambda n: n + "~", lambda n: "." + n, lambda n: n[:64], lambda n: n.replace("$HOME", "n").replace("${HOME}", "n"), lambda n: n.replace("~", ""), lambda n: n.replace("&", "&amp;"), lambda n: "../" + n, lambda n: "tp/" + n, lambda n: "s/" + n, lambda n: "e/" + n,
    ):
        v = t(n)
        if v and v != n and "\0" not in v:
            out.append(v)
    return out


def nstates(tier):
    return [("names", [(f, c, n) for f in ("tmx", "json") for c in range(len(CARRIERS)) for n in range(len(NAMES)) if f == "json" or CARRIERS[c] != "world map"])]


def ncheck(ctx, st):
    f, c, n = st
    c, n = CARRIERS[c], NAMES[n]
    if f == "tmx" and "\t" in n:
        # a tab in an attribute is a space unless it is written as a reference
        return
    ctx.wipe()
    top = "d/" + (n if c == "directory" else "e") + "/"

    def put(name, data):
        """What the name leads to, directories on the way included."""
        os.makedirs(os.path.dirname(ctx.root + "/" + top + name), exist_ok=True)
        for i in range(len(name.split("/"))):
            part = "/".join(name.split("/")[:i])
            if part and part.split("/")[-1] not in (".", "..") and not os.path.isdir(ctx.root + "/" + top + part):
                os.makedirs(ctx.root + "/" + top + part)
        ctx.put(os.path.normpath(top + name), data)

    def decoys(name, data):
        """Other files under the names that it might be mistaken for."""
        for v in variants(name, f):
            full = os.path.normpath(ctx.root + "/" + top + v)
            if not full.startswith(ctx.root + "/" + top) or os.path.lexists(full):
                continue
            try:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "xb") as g:
                    g.write(data)
            except OSError:
                pass

    plain = TS("t", image=("i.png", 64, 32), tiles=[{"id": 2, "image": ("j.png", 4, 5)}])
    lay = [{"kind": "object", "name": "o", "id": 1, "objects": [{"id": 1, "x": 3, "y": 4}]}]
    sets, ext, kind, entry = [], None, "map", "m" + EXT[f]["map"]
    obj = None
    if c == "image layer":
        lay.append({"kind": "image", "name": "i", "id": 2, "image": n})
    elif c == "file property":
        lay[0]["props"] = [P("f", "file", n)]
    elif c.endswith("image"):
        ts = TS("t", image=(n, 64, 32)) if "tile image" not in c else TS("t", image=("i.png", 64, 32), tiles=[{"id": 2, "image": (n, 4, 5)}])
        sets.append({"firstgid": 1, "ts": ts})
        if c[:8] == "external":
            sets[0]["src"] = "s/t" + EXT[f]["tileset"]
            put(sets[0]["src"], m_.tileset_bytes(ts, f))
            ext = ctx.root + "/" + top + "s"
    elif c == "external tileset":
        sets.append({"firstgid": 1, "ts": plain, "src": n})
        put(n, m_.tileset_bytes(plain, f))
        decoys(n, m_.tileset_bytes(TS("decoy", tilecount=2), f))
        ext = os.path.dirname(ctx.root + "/" + top + n)
    elif c == "template":
        put(n, m_.template_bytes({"object": {"name": "tpl", "width": 5, "height": 6}}, f))
        decoys(n, m_.template_bytes({"object": {"name": "decoy", "width": 5, "height": 6}}, f))
        lay[0]["objects"][0]["template"] = n
        obj = {"id": 1, "x": 3, "y": 4, "name": "tpl", "width": 5, "height": 6}
    elif c == "template tileset":
        put(n, m_.tileset_bytes(plain, f))
        decoys(n, m_.tileset_bytes(TS("decoy", tilecount=2), f))
        put("tpl" + EXT[f]["template"], m_.template_bytes({"object": {"kind": "tile", "gid": 4, "name": "tpl", "width": 5, "height": 6}, "src": n}, f))
        lay[0]["objects"][0]["template"] = "tpl" + EXT[f]["template"]
        sets.append({"firstgid": 1, "ts": plain, "src": n})
        ext = os.path.dirname(ctx.root + "/" + top + n)
        obj = {"kind": "tile", "id": 1, "x": 3, "y": 4, "name": "tpl", "width": 5, "height": 6}
    elif c == "map file":
        entry = n
    elif c == "tileset file":
        kind, entry = "tileset", n
    elif c == "world map":
        kind, entry = "world", "w.world"
    if kind == "world":
        put(entry, m_.jsn({"maps": [{"fileName": n, "x": 1, "y": 2, "width": 3, "height": 4}], "type": "world"}))
    elif c == "tileset image":
        kind, entry = "tileset", "t" + EXT[f]["tileset"]
    if kind == "tileset":
        ts = plain if c == "tileset file" else sets[0]["ts"]
        put(entry, m_.tileset_bytes(ts, f))
    doc = M(lay, sets)
    if kind == "map":
        put(entry, m_.map_bytes(doc, f))
    # as a path of its own and, in its directory, by name alone
    for path, cwd in ((Path(ctx.root + "/" + top + entry), "/"), (Path(entry), ctx.root + "/" + top)):
        os.chdir(cwd)
        call = "parse_%s(%r), %s %s" % (kind, str(path).replace(ctx.root, "<root>"), c, ascii(n))
        try:
            try:
                res = ctx.call(kind, path)
            except Exception as e:
                return ctx.fail(call, "result", "a result", ("EXC", type(e).__name__, str(e)[:200]))
            obs = m_.dump(res)
        finally:
            os.chdir("/")
        ctx.seen((c, n))
        if kind == "world":
            exp = m_.O("World", maps=m_.L([m_.O("WorldMap", map_file=("path", str(path.parent / n)), size=m_.size(3, 4), coordinates=m_.pair(1, 2))]), only_show_adjacent=m_.B(False))
        elif kind == "tileset":
            exp = m_.exp_tileset(ts, 1, f)
        else:
            gid = None
            want = doc
            if c == "template tileset":
                try:
                    gid = res.layers[0].tiled_objects[0].gid
                except Exception:
                    gid = -1
                want = M(lay, [dict(sets[0], firstgid=gid - 3)])

            def img(r):
                return m_.path if "src" not in r else lambda s: ("path", os.path.normpath(os.path.join(ext, s)))

            exp = m_.exp_map(want, f, path, img, (lambda o: m_.exp_object(obj, gid)) if obj else m_.exp_object)
        if not ctx.expect(call, absolute(exp, ext, cwd), absolute(obs, ext, cwd)):
            return
    if c in ("template", "external tileset", "template tileset"):
        # the others are no substitutes when the file is missing
        os.unlink(os.path.normpath(ctx.root + "/" + top + n))
        for path, cwd in ((Path(ctx.root + "/" + top + entry), "/"), (Path(entry), ctx.root + "/" + top), (Path("d/e/" + entry), ctx.root)):
            os.chdir(cwd)
            try:
                res = m_.dump(ctx.call(kind, path))
            except Exception:
                continue
            finally:
                os.chdir("/")
            return ctx.fail("parse_%s(%r), %s %s missing" % (kind, str(path).replace(ctx.root, "<root>"), c, ascii(n)), "result", "an error", res)


def absolute(tree, ext, cwd):
    """Paths below external tilesets may be written in any way."""
    if ext is None:
        return tree
    if isinstance(tree, tuple):
        if len(tree) == 2 and tree[0] == "path" and isinstance(tree[1], str):
            return ("path", os.path.normpath(os.path.join(cwd, tree[1]))) if tree[1] else tree
        return tuple(absolute(x, ext, cwd) for x in tree)
    return tree


def spaces():
    return [Enum("names", nstates, ncheck), Enum("links", lstates, lcheck), Enum("placements", states, check), Enum("standalone", standalone, check_alone)]
