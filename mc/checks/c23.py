"""C23: locale independence."""
import os
import pickle
import shutil
import subprocess
import sys
from itertools import product

from .. import core
from .. import model as m_
from ..core import Enum
from ..model import EXT, M, P, TC, TS
from ..util import absimg
from . import c14, c16

RULE = "states: every configuration of the process (LC_ALL/LANG x PYTHONUTF8 x PYTHONCOERCECLOCALE x PYTHONIOENCODING x standard streams; compiled locales of several languages and character sets x PYTHONUTF8 x whether the process activates the locale); in each, a fresh interpreter parses a family of documents with every text-carrying position of every kind of file holding every class of code points; results are compared with the reference model (executions = parses in the child interpreters)"
ASSUMPTIONS = [
    "locales C, POSIX and C.UTF-8 as installed, and locales of other languages and character sets that the check compiles with localedef (left out where localedef is missing)",
    "where the interpreter's own file system encoding cannot express a name, files of that name (and images of external tilesets, which are resolved on disk) are left out: the operating system call itself is impossible there",
]

TEXTS = [
    "é", "ÿ\u00ad", "Ж", "日本語", "😀", "e\u0301", "\u0085x", "a\u2028b", "\u00a0", "\ufeffbom", "\u200b", "áéíóú ÀÈ", "𝔘𝔫𝔦", "\u0100\u0800\uffff"[:2], "؟ שלום", "plain",
    "x" * 8190 + "日本" + "y" * 8191 + "é", "日" * 9001, "a" + "é" * 5000, "aa" + "😀" * 5000,
]
ROLES = ["map", "tileset", "template", "template-tileset"]


def t_tileset(name, s):
    return TS(name, tilecount=4, image=("%s.png" % (s if s and "\u0085" not in s and "\u2028" not in s and len(s) < 50 else "i"), 4, 4), **({"class": s} if s else {}),
              props=[P("p" + s, "string", s)], tiles=[{"id": 1, "class": s + "k", "props": [P("q", "string", s + "\n" + s)]}],
              wangsets=[{"name": s + "w", "class": s, "colors": [{"name": s + "c", "color": "#010203"}], "tiles": []}])


def doc(role, s, fmt, tf, wide):
    """(files, model of the map): s in the texts of one file, ASCII in the others. wide: the file system can hold any name."""
    tx = lambda r: s if r == role else "A"
    a = tx("map")
    objs = [
        {"id": 1, "x": 0, "y": 0, "name": a, "class": a, "props": [P(a, "string", a), P("f", "file", a + "/x"), P("m", "string", a + "\n" + a)]},
        {"id": 2, "x": 0, "y": 0, "kind": "text", "text": {"text": a, "fontfamily": a}},
        {"id": 3, "x": 1, "y": 2, "template": "t" + EXT[fmt]["template"]},
    ]
    layers = [
        {"kind": "object", "id": 1, "name": a, "class": a, "objects": objs},
        {"kind": "group", "id": 2, "name": a, "layers": [{"kind": "image", "id": 3, "name": a, "image": a + ".png"}, {"kind": "tile", "id": 4, "name": a, "width": 1, "height": 1, "data": {"grid": [[1]]}}]},
    ]
    emb = t_tileset("emb" + a, a)
    ext = t_tileset("ext" + tx("tileset"), tx("tileset"))
    tps = t_tileset("tps" + tx("template-tileset"), tx("template-tileset"))
    if not wide:
        for t in (ext, tps):
            t["image"] = ("i.png", 4, 4)
    b = tx("template")
    tob = {"kind": "tile", "gid": 2, "width": 16, "height": 16, "name": b, "class": b, "props": [P("t" + b, "string", b + "\n")]}
    m = M(layers, [{"firstgid": 1, "ts": emb}, {"firstgid": 11, "ts": ext, "src": "e" + EXT[tf]["tileset"], "fmt": tf}], [P("mp", "string", a)], **{"class": a})
    files = {
        "m" + EXT[fmt]["map"]: m_.map_bytes(m, fmt),
        "e" + EXT[tf]["tileset"]: m_.tileset_bytes(ext, tf),
        "t" + EXT[fmt]["template"]: m_.template_bytes({"object": tob, "src": "p" + EXT[tf]["tileset"]}, fmt),
        "p" + EXT[tf]["tileset"]: m_.tileset_bytes(tps, tf),
    }

    def exp(d):
        full = dict(tob, id=3, x=1, y=2, gid=15 + 1)
        full.pop("template", None)
        img = lambda r: absimg(d) if "src" in r else m_.path
        em = dict(m, tilesets=m["tilesets"] + [{"firstgid": 15, "ts": tps, "src": "p", "fmt": tf}])
        return m_.exp_map(em, fmt, d + "/m" + EXT[fmt]["map"], img, lambda o: m_.exp_object(full if o["id"] == 3 else o))

    return "map", "m" + EXT[fmt]["map"], files, exp


def jobs(wide, tier):
    """Every parse of one configuration: (name, kind, entry, files, exp)."""
    out = []
    for i, s in enumerate(TEXTS):
        for fmt, tf in product(("tmx", "json"), repeat=2):
            for r in ROLES:
                if len(s) > 1000 and tf != fmt:
                    continue
                out.append(("%s-%s-%s-%d" % (fmt, tf, r, i),) + doc(r, s, fmt, tf, wide))
            if fmt == tf:
                t = t_tileset("n" + s, s)
                n = "t" + EXT[fmt]["tileset"]
                out.append(("%s-alone-%d" % (fmt, i), "tileset", n, {n: m_.tileset_bytes(t, fmt)}, lambda d, t=t, fmt=fmt: m_.exp_tileset(t, 1, fmt)))
        if len(s) < 100:
            w = c16.world([c16.MAPF(s + ".tmx"), c16.MAPF("sub/" + s)], [], True)
            def wexp(d, s=s):
                return m_.O("World", maps=m_.L([m_.O("WorldMap", map_file=("path", d + "/" + n), size=m_.size(10, 20), coordinates=m_.pair(0, 0)) for n in (s + ".tmx", "sub/" + s)]), only_show_adjacent=m_.B(True))
            out.append(("world-%d" % i, "world", "w.world", {"w.world": m_.jsn(w)}, wexp))
            pt = c16.world([], [c16.pat(s + r"_(\d+)_(\d+)\.tmx")])
            out.append(("world-pattern-%d" % i, "world", "w.world", {"w.world": m_.jsn(pt)}, lambda d: m_.O("World", maps=m_.L([]), only_show_adjacent=m_.B(False))))
            if wide:
                files = {"w.world": m_.jsn(pt), s + "_3_4.tmx": b"x"}
                def pexp(d, s=s):
                    return m_.O("World", maps=m_.L([m_.O("WorldMap", map_file=("path", d + "/" + s + "_3_4.tmx"), size=m_.size(16, 9), coordinates=m_.pair(48, 36))]), only_show_adjacent=m_.B(False))
                out.append(("world-names-%d" % i, "world", "w.world", files, pexp))
                # references to files with such names
                for fmt in ("tmx", "json"):
                    n = s + EXT[fmt]["tileset"]
                    ts = TS("x", image=("i.png", 2, 2))
                    m = M([], [{"firstgid": 1, "ts": ts, "src": n}])
                    mf = s + EXT[fmt]["map"]
                    out.append(("%s-names-%d" % (fmt, i), "map", mf, {n: m_.tileset_bytes(ts, fmt), mf: m_.map_bytes(m, fmt)},
                                lambda d, m=m, mf=mf, fmt=fmt: m_.exp_map(m, fmt, d + "/" + mf, lambda r: absimg(d))))
    return out


CHILD = r"""
import os, pickle, sys
sys.path.insert(0, sys.argv[1])
if os.environ.get("MC_SETLOCALE"):
    import locale
    locale.setlocale(locale.LC_ALL, "")
from mc import core, model
lib = core.load()
from pathlib import Path
root = sys.argv[2]
out = []
with open(os.path.join(root, "jobs"), "rb") as f:
    jobs = pickle.load(f)
for d, kind, entry in jobs:
    try:
        r = model.dump(getattr(lib, "parse_" + kind)(Path(root) / d / entry))
    except Exception as e:
        r = ("EXC", type(e).__name__, ascii(str(e))[:200])
    out.append(r)
with open(os.path.join(root, "results"), "wb") as f:
    pickle.dump((sys.getfilesystemencoding(), out), f)
"""

LOC = [{"LC_ALL": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C.UTF-8"}, {}, {"LANG": "C", "LC_CTYPE": "C.UTF-8"}, {"LANG": "C.UTF-8", "LC_CTYPE": "POSIX"}]
UTF = [None, "0", "1"]
COE = [None, "0"]
IOE = [None, "ascii", "latin-1:strict"]
STD = ["open", "closed"]
# (locale source, character set): compiled with localedef
MADE = [("en_US", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("ja_JP", "SHIFT_JIS"), ("de_DE", "CP1252"), ("ru_RU", "KOI8-R"),
        ("zh_CN", "GB18030"), ("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("fr_FR", "ISO-8859-15"), ("ja_JP", "EUC-JP"), ("ar_SA", "ISO-8859-6"), ("zh_TW", "BIG5")]
CONFIGS = [(l, u, c, i, s) for i in range(3) for l in range(6) for u in range(3) for c in range(2) for s in range(2)]


def made_locale(base, i):
    """Compile locale i of MADE under base/locales."""
    d = base + "/locales"
    src, cs = MADE[i]
    name = "%s.%s" % (src, cs)
    if not os.path.isdir(d + "/" + name):
        os.makedirs(d, exist_ok=True)
        tmp = "%s/%d-%s" % (d, os.getpid(), name)
        subprocess.run(["localedef", "-c", "--no-archive", "-i", src, "-f", cs, tmp], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        if not os.path.isdir(tmp):
            raise core.HarnessError("localedef made no " + name)
        try:
            os.rename(tmp, d + "/" + name)
        except OSError:
            shutil.rmtree(tmp)  # another worker was faster
    return d, name


def env_of(cfg, base=None):
    if cfg[0] == "made":
        _, i, u, active = cfg
        e = env_of((3, u, 0, 0, 0))
        e["LOCPATH"], e["LC_ALL"] = made_locale(base, i)
        if active:
            e["MC_SETLOCALE"] = "1"
        return e
    l, u, c, i, s = cfg
    e = {k: v for k, v in os.environ.items() if not (k.startswith("LC_") or k in ("LANG", "LANGUAGE", "PYTHONUTF8", "PYTHONCOERCECLOCALE", "PYTHONIOENCODING"))}
    e.update(LOC[l])
    if UTF[u] is not None:
        e["PYTHONUTF8"] = UTF[u]
    if COE[c] is not None:
        e["PYTHONCOERCECLOCALE"] = COE[c]
    if IOE[i] is not None:
        e["PYTHONIOENCODING"] = IOE[i]
    e["MC_REPO"] = core.REPO
    return e


def is_wide(cfg):
    """Whether the interpreter's file system encoding is UTF-8 (PEP 538/540)."""
    if cfg[0] == "made":
        return MADE[cfg[1]][1] == "UTF-8" or UTF[cfg[2]] == "1"
    l, u, c, i, s = cfg
    if UTF[u] == "1":
        return True
    ctype = LOC[l].get("LC_ALL") or LOC[l].get("LC_CTYPE") or LOC[l].get("LANG") or "C"
    if "UTF" in ctype:
        return True
    if COE[c] is None and not LOC[l].get("LC_ALL"):
        return True  # coerced to C.UTF-8
    return UTF[u] is None  # UTF-8 mode is on by default in the C locale


def check(ctx, cfg):
    wide = is_wide(cfg)
    js = jobs(wide, "quick")
    if getattr(ctx, "locale_wide", None) != wide:
        ctx.wipe()
        for i, (name, kind, entry, files, exp) in enumerate(js):
            for f, b in files.items():
                ctx.put("%d/%s" % (i, f), b)
        ctx.put("jobs", pickle.dumps([(str(i), k, e) for i, (n, k, e, f, x) in enumerate(js)]))
        ctx.locale_wide = wide
    res = ctx.root + "/results"
    if os.path.exists(res):
        os.unlink(res)
    null = subprocess.DEVNULL
    env = env_of(cfg, os.path.dirname(ctx.root))
    opened = cfg[0] == "made" or STD[cfg[4]] == "open"
    p = subprocess.run([sys.executable, "-c", CHILD, core.VERIF, ctx.root], env=env, stdin=null, stdout=null if opened else None, stderr=subprocess.PIPE,
                       preexec_fn=None if opened else (lambda: (os.close(1), os.close(0))), timeout=300)
    if not os.path.exists(res):
        raise core.HarnessError("child interpreter failed: " + p.stderr.decode("utf-8", "replace")[-2000:])
    with open(res, "rb") as f:
        fsenc, out = pickle.load(f)
    if (fsenc == "utf-8") != wide:
        if wide:
            raise core.HarnessError("file system encoding %r under %r" % (fsenc, env))
        if cfg[0] == "made":
            raise core.HarnessError("the compiled locale %r is not used" % (env["LC_ALL"],))
    for i, ((name, kind, entry, files, exp), obs) in enumerate(zip(js, out)):
        ctx.execs += 1
        ctx.seen(obs)
        e = exp("%s/%d" % (ctx.root, i))
        if e != obs:
            ctx.written = {"%d/%s" % (i, f): b for f, b in files.items()}
            if not ctx.expect("parse_%s of %s" % (kind, name), e, obs):
                return
    ctx.written = {}


def levels(tier):
    if tier == "quick":
        c = [x for x in CONFIGS if x[3] < 2 and not (x[3] and x[4])]
    else:
        c = CONFIGS
    lv = [("configurations", c)]
    if shutil.which("localedef") and os.path.isdir("/usr/share/i18n/charmaps"):
        n = 8 if tier == "quick" else len(MADE)
        lv.append(("made-locales", [("made", i, u, a) for a in (0, 1) for u in ((0,) if tier == "quick" else (0, 1, 2)) for i in range(n)]))
    return lv


def spaces():
    lab = lambda c: "locale %s.%s PYTHONUTF8=%s%s" % (MADE[c[1]] + (UTF[c[2]], " activated" if c[3] else "")) if c[0] == "made" else "LOCALE=%r PYTHONUTF8=%s PYTHONCOERCECLOCALE=%s PYTHONIOENCODING=%s streams %s" % (LOC[c[0]], UTF[c[1]], COE[c[2]], IOE[c[3]], STD[c[4]])
    return [Enum("process-configurations", levels, check, label=lab, edges=lambda s: 1, heavy=True)]
