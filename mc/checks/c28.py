"""C28: results are complete, plain values."""
import copy
import os
import pickle
import shutil
import subprocess
import sys

from .. import alias, core, docs
from .. import model as m_
from ..core import Enum
from . import c18

RULE = (
    "states: documents of the levels of the other checks up to a size; on each result: two parses are equal and print alike, parses of different documents that follow one another are unequal, it survives pickling (oldest, default and newest protocol for objects with slots), shallow and deep copies with all its values, types and its equality, "
    "a deep copy shares nothing changeable with it and changing all of the copy leaves it alone, looking at it twice gives the same, and looking at it for the first time when every file is gone and the current directory has changed gives the same; scenarios: every single value of the result changed in a copy makes the copy unequal; pickles read by a fresh process (executions = parses)"
)
ASSUMPTIONS = ["a NaN in a document makes results unequal to themselves, as NaN does", "values that compare equal in Python (1, 1.0, True) count as the same for equality"]


def flat(t):
    """Values up to what Python takes for equal."""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ("bool", "int"):
            return float(t[1])
        if t and t[0] in ("Size", "OrderedPair", "Color"):
            t = ("tuple",) + t[1:]
        return tuple([flat(x) for x in t])
    if isinstance(t, (int, float)):
        return float(t)
    return t


def nan(t):
    """Something that is not equal to itself is in there."""
    if isinstance(t, (tuple, list)):
        return any(nan(x) for x in t)
    return t == "nan" or isinstance(t, float) and t != t


def types(o, depth=0):
    """Class of every part."""
    if isinstance(o, alias.ATOMS):
        return type(o)
    if isinstance(o, dict):
        return (type(o), tuple(sorted(((repr(k), types(v, depth + 1)) for k, v in o.items()), key=lambda kv: kv[0])))
    if isinstance(o, (list, tuple)):
        return (type(o), tuple([types(v, depth + 1) for v in o]))
    if depth > 40:
        return type(o)
    return (type(o), tuple([(f, types(getattr(o, f), depth + 1)) for f in sorted(alias.fields(o))]))


def look(ctx, kind, path, files):
    ctx.written = dict(files)
    name = "parse_%s(%r)" % (kind, os.path.basename(str(path)))
    try:
        r = ctx.call(kind, path)
    except Exception as e:
        return ("EXC", type(e).__name__)
    d = m_.dump(r)
    value(ctx, name, r, d)
    if not ctx.bad:
        r2 = ctx.call(kind, path)
        eq = "nan" not in repr(d) or not nan(d)
        if eq:
            if not (r2 == r) or r2 != r:
                ctx.fail(name + " twice", "==", "equal", "unequal")
            elif repr(r2) != repr(r):
                ctx.fail(name + " twice", "repr", repr(r)[:500], repr(r2)[:500])
        k = flat(d)
        prev = getattr(ctx, "prev", None)
        if prev and prev[0] != k and prev[1] == r and eq:
            ctx.fail("%s and %s" % (prev[2], name), "==", "unequal", "equal: %r and %r" % (m_.first_diff(prev[0], k, "result") or ("", "", ""))[1:])
        ctx.prev = (k, r2, name)
    return d


def value(ctx, name, r, d):
    ctx.seen(d)
    eq = "nan" not in repr(d) or not nan(d)
    if m_.dump(r) != d and eq:
        return ctx.fail(name, "looked at again", d, m_.dump(r))
    rp = repr(r)
    if repr(r) != rp or str(r) is None:
        return ctx.fail(name, "repr", rp[:300], repr(r)[:300])
    ty = types(r)
    ps = alias.parts(r)
    for what, f in [("pickle protocol %d" % p, lambda p=p: pickle.loads(pickle.dumps(r, p))) for p in (2, pickle.DEFAULT_PROTOCOL, pickle.HIGHEST_PROTOCOL)] + [("copy.copy", lambda: copy.copy(r)), ("copy.deepcopy", lambda: copy.deepcopy(r))]:
        try:
            c = f()
        except Exception as e:
            return ctx.fail(name, what, "a copy", "%s: %s" % (type(e).__name__, e))
        dc = m_.dump(c)
        if dc != d and eq:
            return ctx.fail(name, *(m_.first_diff(d, dc, what) or (what, d, dc)))
        if types(c) != ty:
            return ctx.fail(name, what + ": types", "the same", "others")
        if eq and (not (c == r) or c != r):
            return ctx.fail(name, what + ": ==", "equal", "unequal")
        if what != "copy.copy":
            s = alias.shared_between(ps, alias.parts(c))
            if s:
                return ctx.fail(name, what + ": one object in both", "separate objects", "%s is %s" % s)
            if what in ("copy.deepcopy", "pickle protocol %d" % pickle.DEFAULT_PROTOCOL):
                alias.mutate(alias.parts(c))
                if m_.dump(r) != d and eq:
                    return ctx.fail(name, what + ", changed", *(m_.first_diff(d, m_.dump(r), "the original") or ("the original", d, None))[1:])


CAP = {"quick": {"": 320, "c05": 100, "c26": 0, "c18": 0}, "thorough": {"": 3000, "c26": 0, "c18": 0}}


def documents(tier):
    return [("documents", docs.states(CAP[tier], every={("odd", "edited-places"): 23 if tier == "quick" else 1}))]


def check(ctx, st):
    docs.run(ctx, st, look)


# -- complete when returned --------------------------------------------------------------------


def gone_levels(tier):
    return [("scenarios", [(i, rel) for i in range(len(c18.scenarios())) for rel in (0, 1)])]


def check_gone(ctx, st):
    """Nothing is read later: the files are gone before anything of the result is looked at."""
    from pathlib import Path

    i, rel = st
    name, kind, entry, files, errs = c18.scenarios()[i]
    ctx.wipe()
    for g, b in files.items():
        ctx.put("s/" + g, b)
    want = ctx.observe(kind, "s/" + entry)
    call = "parse_%s(%r)" % (kind, entry)
    if want[0] == "EXC":
        return ctx.fail(call, "result", "a result", want)
    old = os.open(".", os.O_RDONLY)
    try:
        if rel:
            os.chdir(ctx.root + "/s")
            want = ctx.observe(kind, None, Path(entry))
        r = ctx.call(kind, Path(entry) if rel else ctx.path("s/" + entry))
        os.chdir(ctx.root)
        shutil.rmtree(ctx.root + "/s")
        os.makedirs(ctx.root + "/other")
        os.chdir(ctx.root + "/other")
        d = m_.dump(r)
        if d != want:
            ctx.fail(call + ", looked at when the files are gone", *(m_.first_diff(want, d, "result") or ("result", want, d)))
        # what was pickled is read by a process that has parsed nothing
        with open(ctx.root + "/p", "wb") as f:
            pickle.dump(r, f)
        code = "import sys; sys.path.insert(0, %r); from mc import core, model; core.load(); import pickle; o = pickle.load(open(%r, 'rb')); pickle.dump(model.dump(o), open(%r, 'wb'))" % (core.VERIF, ctx.root + "/p", ctx.root + "/q")
        p = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, MC_REPO=core.REPO), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=50)
        if p.returncode:
            return ctx.fail(call + ", pickled", "read by another process", "a result", p.stderr.decode("utf-8", "replace")[-400:])
        with open(ctx.root + "/q", "rb") as f:
            d = pickle.load(f)
        if d != want:
            ctx.fail(call + ", pickled, in another process", *(m_.first_diff(want, d, "result") or ("result", want, d)))
    finally:
        os.fchdir(old)
        os.close(old)


# -- every value counts ------------------------------------------------------------------------


def count_levels(tier):
    return [("scenarios", [(i,) for i in range(len(c18.scenarios()))])]


def other(v):
    """A value that is not v, nor equal to it."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + 1
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, os.PathLike):
        return v / "x"
    if v is None:
        return "x"
    if isinstance(v, list):
        return v + [v[0] if v else "x"]
    if isinstance(v, dict):
        return dict(v, mutated=1)
    if isinstance(v, tuple) and v:
        w = (other(v[0]),) + tuple(v[1:])
        return type(v)(*w) if hasattr(v, "_fields") else w
    return "x"


def check_count(ctx, st):
    """A copy of which one public value is changed is not equal to the original, one by one."""
    name, kind, entry, files, errs = c18.scenarios()[st[0]]
    ctx.wipe()
    for g, b in files.items():
        ctx.put(g, b)
    r = ctx.call(kind, ctx.path(entry))
    c = copy.deepcopy(r)
    call = "parse_%s(%r), scenario %s" % (kind, entry, name)
    n = 0
    for path, o in alias.parts(c):
        if isinstance(o, dict):
            places = [("[%r]" % (k,), o.__getitem__, o.__setitem__, k) for k in o]
        elif isinstance(o, list):
            places = [("[%d]" % k, o.__getitem__, o.__setitem__, k) for k in range(len(o))]
        else:
            known = {f for f, _ in m_.FIELDS.get(m_._cls(o), ())}
            places = [("." + f, lambda f, o=o: getattr(o, f), lambda f, v, o=o: setattr(o, f, v), f) for f in alias.fields(o) if f in known]
        for lab, get, put, k in places:
            v = get(k)
            n += 1
            put(k, other(v))
            same = c == r or not (c != r)
            put(k, v)
            if same:
                return ctx.fail(call, "== of a copy with another %s%s" % (path, lab), "unequal", "equal")
    if c != r:
        ctx.fail(call, "== of a copy restored", "equal", "unequal")
    ctx.extra["values_changed"] = ctx.extra.get("values_changed", 0) + n


def spaces():
    return [
        Enum("every-value-counts", count_levels, check_count, label=lambda s: c18.scenarios()[s[0]][0], edges=lambda s: 1),
        Enum("files-gone", gone_levels, check_gone, label=lambda s: c18.scenarios()[s[0]][0] + (" relative" if s[1] else ""), edges=lambda s: 1),
        Enum("values", documents, check, label=docs.label, edges=lambda s: 1),
    ]
