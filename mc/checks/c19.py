"""C19: what a parse does to files, and what failing file operations do to a parse."""
import errno
import os
import sys
import warnings
from functools import lru_cache

from .. import model as m_
from .. import shim
from ..core import Ctx, Enum
from ..model import EXT, M, P, TC, TS
from . import c02, c05, c14, c16, c18

LEVEL = "fault_enumeration"
RULE = (
    "states: (scenario, sequence of deviations of the environment's answers) on the real code, with every open, read, opendir and readdir of the scenario's files interposed in libc: no deviation (with the files, the working directory, the standard output and the open descriptors compared before and after); "
    "every operation failing, once or from then on, with each error; every uniform limit of the bytes a read returns; every operation interrupted (EINTR) or returning a single byte, alone and followed by every later operation failing or deviating. After each failed parse the intact scenario and another one are parsed. Besides, every document of the other checks' smaller levels, and every holder of an image with every choice of saved sizes, is parsed without and with the images (and whatever else it names) on disk: the outcome is the same and none of them is opened"
)
ASSUMPTIONS = [
    "the status of a file (stat) is not failed: a name whose status cannot be determined is not a map of a world",
    "closing a descriptor does not fail; a descriptor left to the garbage collector counts as not closed",
]

prepare = shim.prepare
OPEN_ERR = [errno.EACCES, errno.ENOENT, errno.EIO, errno.EMFILE, errno.ENOTDIR, errno.EISDIR, errno.EPERM, errno.ELOOP]
PART = 24
READ_ERR = [errno.EIO, errno.EISDIR, errno.ESTALE, errno.EACCES, errno.ENOENT]


def big_files():
    """Content larger than any buffer: the operations in the middle of files."""
    out = []
    for fmt in ("tmx", "json"):
        n = 60
        grid = [[(x * y) % 9 for x in range(n)] for y in range(n)]
        props = [P("p%d" % i, "string", "é value %d " % i * 20) for i in range(150)]
        src, tp, tsrc = "s/e" + EXT[fmt]["tileset"], "t/t" + EXT[fmt]["template"], "q/p" + EXT[fmt]["tileset"]
        t = TS("ext", props=props)
        tm = {"object": c14.template("tile", {"props": props}), "src": "../" + tsrc}
        m = M([{"kind": "tile", "id": 1, "width": n, "height": n, "data": c02.data("csv", "", grid=grid)},
               {"kind": "object", "id": 2, "objects": [{"id": 1, "x": 1, "y": 2, "template": tp}, {"id": 2, "x": 1, "y": 2, "props": props}, {"id": 3, "x": 1, "y": 2, "template": tp}]}],
              [{"firstgid": 1, "ts": t, "src": src}], props)
        files = {"m" + EXT[fmt]["map"]: m_.map_bytes(m, fmt), src: m_.tileset_bytes(t, fmt), tp: m_.template_bytes(tm, fmt), tsrc: m_.tileset_bytes(TS("tps", props=props), fmt)}
        out.append((fmt + "-big", "map", "m" + EXT[fmt]["map"], files, set(files)))
        out.append((fmt + "-big-tileset", "tileset", src, {src: files[src]}, {src}))
        # little to read, much to decode
        n = 264
        grid = [[(x + y) % 3 for x in range(n)] for y in range(n)]
        ms = M([{"kind": "tile", "id": i + 1, "width": n, "height": n, "data": c02.data("base64", c, grid=grid)} for i, c in enumerate(("zlib", "gzip"))], [], [], width=n, height=n)
        out.append((fmt + "-compressed", "map", "c" + EXT[fmt]["map"], {"c" + EXT[fmt]["map"]: m_.map_bytes(ms, fmt)}, {"c" + EXT[fmt]["map"]}))
    w = c16.world([dict(c16.DECL[0], fileName="map_%d.tmx" % i) for i in range(300)], [c16.pat(c16.RX[0], (16, 9))], True)
    out.append(("world-big", "world", "w.world", {"w.world": m_.jsn(w), "map_1_2.tmx": b"<map/>", "sub/map_3_4.tmx": b"<map/>"}, {"w.world"}))
    return out


@lru_cache(None)
def scenarios():
    """(name, kind, entry, files, the files the document refers to)"""
    out = []
    for name, kind, entry, files, errs in c18.scenarios():
        fs = dict(files)
        if kind == "world":
            for n in list(fs) + ["map_3_4.tmx", "one.tmx"]:
                if n not in errs:
                    fs[n] = m_.map_bytes(M(), "tmx")
        out.append((name, kind, entry, fs, set(errs)))
    return out + big_files()


def pngs(tree, out):
    if isinstance(tree, tuple):
        for x in tree:
            pngs(x, out)
    elif isinstance(tree, str) and tree.endswith(".png"):
        out.add(tree)
    return out


def build(ctx, i):
    """The scenario's files, the images it names and neighbours that are nobody's business."""
    name, kind, entry, files, refs = scenarios()[i]
    if getattr(ctx, "built", None) == i:
        return
    ctx.inner = (None,)
    ctx.wipe()
    ctx.built = None
    for g, b in files.items():
        ctx.put(g, b)
    base = ctx.observe(kind, entry)
    for p in pngs(base, set()):
        q = os.path.normpath(os.path.join(ctx.root, p))
        if q.startswith(ctx.root + os.sep) and not os.path.exists(q):
            ctx.put(os.path.relpath(q, ctx.root), b"\x89PNG\r\n")
    stem = entry.rsplit(".", 1)[0]
    for e in (".tmx", ".json", ".tsx", ".world", ".bak", ".session", ".tiled-project"):
        if stem + e not in files:
            ctx.put(stem + e, b'{"x": 1}')
    ctx.normal = ctx.observe(kind, entry)
    ctx.other = ctx.root + "/other.tmj"
    ctx.put("other.tmj", m_.map_bytes(M([{"kind": "object", "id": 1, "objects": [c05.obj("rect", 1, {})]}], [{"firstgid": 1, "ts": TS("o")}]), "json"))
    ctx.other_normal = ctx.observe("map", "other.tmj")
    ctx.built = i
    ctx.tree = tree(ctx.root)
    ctx.cwd0 = os.getcwd()


def tree(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            out.append((p, st.st_mode, st.st_size if n in fs else 0, st.st_mtime_ns, st.st_ino, st.st_nlink if n in fs else 0))
    return sorted(out)


def run(ctx, i, devs=(), cap=0, sticky=0, relative=False):
    """One parse under the given environment: ("ok"|"exc", tree or class, log summary)."""
    name, kind, entry, files, refs = scenarios()[i]
    ctx.execs += 1
    lib = sys.modules["pytiled_parser"]
    f = getattr(lib, "parse_" + kind)
    path = ctx.path(entry)
    if relative:
        from pathlib import Path

        os.chdir(ctx.root)
        path = Path(entry)
    unclosed = []
    old = warnings.showwarning
    warnings.simplefilter("always", ResourceWarning)
    warnings.showwarning = lambda m, c, *a, **k: unclosed.append(str(m)) if issubclass(c, ResourceWarning) else None
    live = None
    shim.start(ctx.root.encode() + b"/", devs, cap, sticky)
    try:
        try:
            r = f(path)
        finally:
            shim.stop()
            live = shim.ctl.live
        out = ("ok", m_.dump(r))
    except Exception as e:
        out = ("exc", type(e).__name__)
    finally:
        shim.stop()
        warnings.showwarning = old
        warnings.simplefilter("ignore")
        if relative:
            rel_cwd = os.getcwd()
            os.chdir(ctx.cwd0)
            if rel_cwd != ctx.root:
                live = (live, "working directory " + rel_cwd)
    ctx.outcomes.add(hash(out))
    return out, live, unclosed


def call_name(i):
    s = scenarios()[i]
    return "parse_%s(%r)" % (s[1], s[2])


# -- without any fault ------------------------------------------------------------------


def clean_states(tier):
    return [("clean", [(i, rel) for i in range(len(scenarios())) for rel in (0, 1)])]


WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def check_clean(ctx, st):
    i, rel = st
    build(ctx, i)
    name, kind, entry, files, refs = scenarios()[i]
    call = call_name(i)
    if ctx.normal[0] == "EXC":
        return ctx.fail(call, "intact scenario " + name, "a result", ctx.normal)
    # everything is put where it is on disk, with the standard output redirected to a file
    audit = []
    outf = os.path.join(os.path.dirname(ctx.root), os.path.basename(ctx.root) + ".out")
    sys.stdout.flush()
    save = [os.dup(1), os.dup(2)]
    fo = os.open(outf, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    env0 = dict(os.environ)
    umask = os.umask(0o22)
    os.umask(umask)
    std = (sys.stdout, sys.stderr, sys.stdin)
    _audit.append(audit)
    os.dup2(fo, 1)
    fds0 = sorted(os.listdir("/proc/self/fd"))
    try:
        _audit_on[0] = True
        out, live, unclosed = run(ctx, i, relative=bool(rel))
        _audit_on[0] = False
        sys.stdout.flush()
        fds1 = sorted(os.listdir("/proc/self/fd"))
        text = os.pread(fo, 4096, 0)
    finally:
        _audit_on[0] = False
        _audit.pop()
        os.dup2(save[0], 1)
        os.dup2(save[1], 2)
        for fd in save + [fo]:
            os.close(fd)
        os.unlink(outf)
    if out[0] != "ok":
        return ctx.fail(call, "result", "a result", out)
    if not rel:
        ctx.expect(call, ctx.normal, out[1])
    if text:
        ctx.fail(call, "standard output", b"", text)
    if std != (sys.stdout, sys.stderr, sys.stdin):
        ctx.fail(call, "the standard streams", "the same", "others")
    if live:
        ctx.fail(call, "descriptors left open", 0, live)
    if fds0 != fds1:
        ctx.fail(call, "descriptors left open", fds0, fds1)
    if unclosed:
        ctx.fail(call, "files left to the garbage collector", [], unclosed)
    if os.getcwd() != ctx.cwd0:
        ctx.fail(call, "working directory", ctx.cwd0, os.getcwd())
        os.chdir(ctx.cwd0)
    if dict(os.environ) != env0:
        ctx.fail(call, "environment variables", "unchanged", sorted(set(os.environ.items()) ^ set(env0.items())))
    u = os.umask(umask)
    if u != umask:
        ctx.fail(call, "umask", umask, u)
    t = tree(ctx.root)
    if t != ctx.tree:
        ctx.fail(call, "the files", "unchanged", sorted(set(t) ^ set(ctx.tree))[:6])
        ctx.built = None
    for ev in audit:
        ctx.fail(call, "effect on the system", "none", ev)
    c = shim.ctl
    opened = set()
    for k in range(c.nlog):
        e = c.log[k]
        p = e.path.decode("utf-8", "surrogateescape")
        if e.op == shim.OPEN:
            if e.flags & WRITES and p != os.devnull:
                ctx.fail(call, "files opened for writing", "none", p)
            if e.ours:
                q = os.path.realpath(os.path.join(ctx.root, p))
                opened.add(os.path.relpath(q, ctx.root))
        elif e.op == shim.OPENDIR and e.ours and kind != "world":
            ctx.fail(call, "directories listed", "none", p)
    if c.overflow:
        ctx.fail(call, "file operations", "fewer", ">= %d" % shim.NLOG)
    if opened != refs:
        ctx.fail(call, "files opened", sorted(refs), sorted(opened))
    ctx.extra["nontrivial"] = ctx.extra.get("nontrivial", 0) + 1


_audit, _audit_on = [], [False]
BAD_EVENTS = (
    "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate", "os.utime", "os.setxattr", "os.removexattr", "os.chflags",
    "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "os.putenv", "os.unsetenv",
    "subprocess.Popen", "socket.connect", "socket.bind", "socket.sendto", "socket.getaddrinfo", "shutil.", "tempfile.", "fcntl.", "signal.pthread_kill", "sqlite3.connect", "urllib.Request",
)


def hook(event, args):
    if _audit_on[0] and event.startswith(BAD_EVENTS):
        _audit[-1].append((event, repr(args)[:200]))


sys.addaudithook(hook)


# -- images, and every document of the other checks ---------------------------------------


def names(tree, out):
    """Everything in a result that could be the name of a file."""
    if isinstance(tree, tuple):
        if len(tree) == 2 and tree[0] == "path":
            out.add(tree[1])
        else:
            for x in tree:
                names(x, out)
    elif isinstance(tree, str) and tree.lower().endswith((".png", ".jpg", ".gif")):
        out.add(tree)
    return out


def reads_only(ctx, kind, p, inner=None):
    """One document: first without the images and other things it names, then with them."""
    c = inner or ctx
    try:
        r = c.call(kind, p)
    except Exception as e:
        plain = ("EXC", type(e).__name__)
    else:
        plain = m_.dump(r)
    home = os.path.dirname(os.path.realpath(p))
    there = home if os.path.isabs(p) else os.getcwd()
    made = set()
    for n in names(plain, set()):
        q = os.path.normpath(os.path.join(home, n))
        if q.startswith(ctx.root + os.sep) and not os.path.lexists(q) and "\0" not in q:
            try:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as f:
                    f.write(IMAGE)
            except (OSError, RecursionError):
                continue
            made.add(q)
    files0 = None if plain[0] == "EXC" else files_in(ctx.root)
    cwd = os.getcwd()
    call = "parse_%s(%r)" % (kind, os.path.relpath(p, ctx.root))
    fds0 = sorted(os.listdir("/proc/self/fd"))
    os.chdir(there)
    shim.start(ctx.root.encode() + b"/")
    try:
        try:
            r = c.call(kind, p)
        finally:
            shim.stop()
            live = shim.ctl.live
        out = m_.dump(r)
    except Exception as e:
        out = ("EXC", type(e).__name__)
    where = os.getcwd()
    os.chdir(cwd)
    if where != there:
        ctx.fail(call, "working directory", there, where)
    if live or sorted(os.listdir("/proc/self/fd")) != fds0:
        ctx.fail(call, "descriptors left open", 0, live)
    if out != plain:
        ctx.fail(call, *(m_.first_diff(plain, out, "with its images on disk") or ("with its images on disk", plain, out)))
    g = shim.ctl
    for k in range(g.nlog):
        e = g.log[k]
        n = e.path.decode("utf-8", "surrogateescape")
        if e.op == shim.OPEN:
            q = os.path.normpath(os.path.join(there, n))
            if e.flags & WRITES and n != os.devnull:
                ctx.fail(call, "files opened for writing", "none", n)
            if q in made or (e.ours and files0 is not None and q not in files0):
                ctx.fail(call, "files opened", "those the document is read from", n)
        elif e.op == shim.OPENDIR and e.ours and kind != "world":
            ctx.fail(call, "directories listed", "none", n)
    if files0 is not None and files_in(ctx.root) != files0:
        ctx.fail(call, "the files", "unchanged", sorted(files_in(ctx.root) ^ files0))
    for q in made:
        os.unlink(q)
    ctx.extra["nontrivial"] = ctx.extra.get("nontrivial", 0) + len(made)
    ctx.seen(out)
    return out


def files_in(root):
    return {os.path.join(d, n) for d, ds, fs in os.walk(root) for n in fs}


IMAGE = b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR\0\0\0\x0b\0\0\0\x0d\x08\x06\0\0\0" + b"\0" * 64


class Reads(Ctx):
    """Runs the states of another check, looking only at the files that are opened."""

    def __init__(self, outer):
        Ctx.__init__(self, outer.root)
        self.outer = outer

    def fail(self, *a):
        pass

    def expect(self, *a, **k):
        return True

    def observe(self, kind, rel, path=None):
        p = self.path(rel) if path is None else path
        self.outer.written = dict(self.written)
        try:
            return reads_only(self.outer, kind, p, self)
        finally:
            self.outer.execs, self.execs = self.outer.execs + self.execs, 0


def document_levels(tier):
    from . import c20

    return c20.sharing_levels(tier)


def check_document(ctx, st):
    from .c20 import others

    n, li, x = st
    sp = others()[n][2]
    sp._level = li
    if getattr(ctx, "inner", (None,))[0] != n:
        ctx.wipe()
        ctx.built = None
        ctx.inner = (n, Reads(ctx))
    sp.run(ctx.inner[1], x)


SIZES = [(61, 37), (None, None), (0, 0), (None, 37), (61, None), (0, 37), (61, 0)]
HOLDERS = ["embedded", "tmx set", "json set", "tile", "external tile", "image layer", "template", "alone", "world"]


def image_levels(tier):
    return [("images", [(f, h, s, v) for f in ("tmx", "json") for h in range(len(HOLDERS)) for s in range(len(SIZES)) for v in (0, 1)])]


def check_images(ctx, st):
    fmt, h, s, v = st
    h, (w, hh) = HOLDERS[h], SIZES[s]
    ctx.wipe()
    ctx.built = None
    img = ("img/i.png", 61, 37)
    other = "json" if fmt == "tmx" else "tmx"

    def sized(b):
        for new, old, keys in ((w, b"61", (b"width", b"imagewidth")), (hh, b"37", (b"height", b"imageheight"))):
            for k in keys:
                for pre, post in ((b" " + k + b'="', b'"'), (b'"' + k + b'": ', b""), (b'"' + k + b'":', b"")):
                    if pre + old + post in b:
                        if new is not None:
                            b = b.replace(pre + old + post, pre + str(new).encode() + post)
                        elif post:
                            b = b.replace(pre + old + post, b"")
                        else:
                            b = b.replace(pre + old + b", ", b"").replace(pre + old + b",", b"").replace(b", " + pre + old, b"").replace(b"," + pre + old, b"")
        return b

    ts = TS("a", image=img, tiles=[{"id": 1, "image": ("img/k.png", 61, 37)}] if v else None)
    kind, rel = "map", "m" + EXT[fmt]["map"]
    m = None
    if h == "embedded":
        m = M([], [{"firstgid": 1, "ts": ts}])
    elif h in ("tmx set", "json set"):
        f = h[:4].strip()
        ctx.put("s/e" + EXT[f]["tileset"], sized(m_.tileset_bytes(TS("a", image=img), f)))
        m = M([], [{"firstgid": 1, "ts": ts, "src": "s/e" + EXT[f]["tileset"]}])
    elif h in ("tile", "external tile"):
        tt = TC("a", tiles=[{"id": 0, "image": img, "rect": (1, 2, 3, 4)} if v else {"id": 0, "image": img}])
        if h == "tile":
            m = M([], [{"firstgid": 1, "ts": tt}])
        else:
            ctx.put("s/e" + EXT[other]["tileset"], sized(m_.tileset_bytes(tt, other)))
            m = M([], [{"firstgid": 1, "ts": tt, "src": "s/e" + EXT[other]["tileset"]}])
    elif h == "image layer":
        m = M([{"kind": "image", "id": 1, "image": "img/i.png"}, {"kind": "group", "id": 2, "layers": [{"kind": "image", "id": 3, "image": "img/j.png"}]}])
    elif h == "template":
        tp, src = "t/o" + EXT[fmt]["template"], "p" + EXT[fmt]["tileset"]
        ctx.put("t/" + src, sized(m_.tileset_bytes(TS("a", image=img), fmt)))
        ctx.put(tp, m_.template_bytes({"object": {"kind": "tile", "gid": 1, "width": 1, "height": 1}, "src": src}, fmt))
        m = M([{"kind": "object", "id": 1, "objects": [{"id": 1, "x": 0, "y": 0, "template": tp}]}], [{"firstgid": 1, "ts": TS("b")}] if v else [])
    elif h == "alone":
        kind, rel = "tileset", "t" + EXT[fmt]["tileset"]
        ctx.put(rel, sized(m_.tileset_bytes(ts, fmt)))
    else:
        kind, rel = "world", "w.world"
        ctx.put("map_1_2.tmx", m_.map_bytes(M(), fmt))
        ctx.put("one.tmx", m_.map_bytes(M(), fmt))
        ctx.put(rel, m_.jsn(c16.world([dict(c16.DECL[0], fileName="one.tmx", width=w or 0, height=hh or 0)], [c16.pat(c16.RX[0], (16, 9))] * (1 + v), True)))
        files0 = files_in(ctx.root)
        shim.start(ctx.root.encode() + b"/")
        try:
            ctx.observe(kind, rel)
        finally:
            shim.stop()
        op = {shim.ctl.log[k].path.decode() for k in range(shim.ctl.nlog) if shim.ctl.log[k].op == shim.OPEN and shim.ctl.log[k].ours}
        if op != {ctx.root + "/" + rel}:
            ctx.fail("parse_world", "files opened", rel, sorted(op))
        return
    if m is not None:
        ctx.put(rel, sized(m_.map_bytes(m, fmt)))
    reads_only(ctx, kind, ctx.path(rel))


# -- with faults --------------------------------------------------------------------------


def one_states(tier):
    """Every single deviation; the operations are those of the run without deviation."""
    lv = [("scenario", [(i, "ops") for i in range(len(scenarios()))])]
    caps = [1, 2, 3, 5, 7, 16, 61, 64, 127, 512, 1000, 4095, 4096, 8191, 8192, 8193, 65535]
    if tier == "thorough":
        caps = sorted(set(caps) | set(range(1, 1025)))
    lv.append(("short-reads", [(i, "cap", c) for i in range(len(scenarios())) for c in caps]))
    lv.append(("then", [(i, "pair", m) for i in range(len(scenarios())) for m in range(PART)]))
    return lv


def ops_of(ctx):
    c = shim.ctl
    return [(c.log[k].op) for k in range(c.nlog) if c.log[k].ours]


def errs_for(op):
    return OPEN_ERR if op in (shim.OPEN, shim.OPENDIR) else READ_ERR


def must_raise(ctx, i, devs, sticky, what):
    out, live, unclosed = run(ctx, i, devs, 0, sticky)
    call = call_name(i) + ", " + what
    if out[0] != "exc":
        ctx.fail(call, "result", "an error", out[1])
    if live:
        ctx.fail(call, "descriptors left open after the error", 0, live)
    if unclosed:
        ctx.fail(call, "files left to the garbage collector", [], unclosed)
    ctx.extra["nontrivial"] = ctx.extra.get("nontrivial", 0) + 1


def afterwards(ctx, i, what):
    s = scenarios()[i]
    call = call_name(i) + ", " + what
    ctx.expect(call, ctx.other_normal, ctx.observe("map", "other.tmj"), "another map afterwards")
    ctx.expect(call, ctx.normal, ctx.observe(s[1], s[2]), "the intact file afterwards")
    return not ctx.bad


def same(ctx, i, devs, cap, what):
    out, live, unclosed = run(ctx, i, devs, cap)
    call = call_name(i) + ", " + what
    if out[0] != "ok":
        ctx.fail(call, "result", "the normal result", out)
    else:
        ctx.expect(call, ctx.normal, out[1])
    if live or unclosed:
        ctx.fail(call, "descriptors left open", 0, (live, unclosed))
    ctx.extra["nontrivial"] = ctx.extra.get("nontrivial", 0) + 1


def check_one(ctx, st):
    i, what = st[0], st[1]
    build(ctx, i)
    if what == "cap":
        return same(ctx, i, (), st[2], "reads of at most %d bytes" % st[2])
    run(ctx, i)
    ops = ops_of(ctx)
    if what == "ops":
        for k, op in enumerate(ops):
            for e in errs_for(op):
                for sticky in (0, 1):
                    w = "operation %d (%s) fails with %s%s" % (k, shim.OPS[op], errno.errorcode[e], " and so do all later ones" if sticky else "")
                    must_raise(ctx, i, [(k, shim.ERRNO, e)], sticky, w)
                if not afterwards(ctx, i, w):
                    return
        if tree(ctx.root) != ctx.tree:
            ctx.fail(call_name(i), "the files after failed parses", "unchanged", "changed")
            ctx.built = None
        return
    # a benign deviation first, then everything that may happen later
    m = st[2]
    for k, op in enumerate(ops):
        if k % PART != m:
            continue
        firsts = []
        if op == shim.READ:
            firsts = [(k, shim.SHORT, 1), (k, shim.SHORT, 17), (k, shim.ERRNO, errno.EINTR)]
        elif op == shim.OPEN:
            firsts = [(k, shim.ERRNO, errno.EINTR)]
        for d in firsts:
            nm = "operation %d (%s) %s" % (k, shim.OPS[op], "interrupted" if d[1] == shim.ERRNO else "returns %d bytes" % d[2])
            same(ctx, i, [d], 0, nm)
            later = ops_of(ctx)
            for j in range(k + 1, len(later)):
                must_raise(ctx, i, [d, (j, shim.ERRNO, errno.EIO)], 0, "%s, operation %d (%s) fails" % (nm, j, shim.OPS[later[j]]))
                if later[j] == shim.READ:
                    same(ctx, i, [d, (j, shim.SHORT, 1)], 0, "%s, operation %d short" % (nm, j))
                if later[j] in (shim.READ, shim.OPEN):
                    same(ctx, i, [d, (j, shim.ERRNO, errno.EINTR)], 0, "%s, operation %d interrupted" % (nm, j))
                if ctx.bad:
                    return
    afterwards(ctx, i, "after deviations")


def spaces():
    lab = lambda s: "%s %s" % (scenarios()[s[0]][0], s[1:])
    return [
        Enum("no-fault", clean_states, check_clean, label=lab),
        Enum("images", image_levels, check_images),
        Enum("documents", document_levels, check_document, edges=lambda s: 1),
        Enum("faults", one_states, check_one, label=lab, edges=lambda s: 1, heavy=True),
    ]
