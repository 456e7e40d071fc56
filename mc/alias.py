"""Mutable parts of results: walking them, finding shared ones, changing all of them."""
from pathlib import PurePath

ATOMS = (str, bytes, int, float, complex, bool, type(None), PurePath, type, frozenset)


def fields(o):
    """Names of the attributes an object carries."""
    d = getattr(o, "__dict__", None)
    out = list(d) if isinstance(d, dict) else []
    for c in type(o).__mro__:
        for s in getattr(c, "__slots__", ()) if isinstance(getattr(c, "__slots__", ()), (tuple, list)) else ():
            if s not in ("__weakref__", "__dict__") and s not in out and hasattr(o, s):
                out.append(s)
    return out


def mutable_object(o):
    fs = fields(o)
    if not fs:
        return False
    try:
        setattr(o, fs[0], getattr(o, fs[0]))
    except Exception:
        return False
    return True


def parts(root):
    """(path, mutable part) for every path to a mutable part; shared parts appear once per path."""
    out = []
    stack = [("result", root, 0)]
    while stack:
        p, o, depth = stack.pop()
        if isinstance(o, ATOMS) or depth > 40 or len(out) > 200000:
            continue
        if isinstance(o, dict):
            out.append((p, o))
            for k, v in o.items():
                stack.append(("%s[%r]" % (p, k), v, depth + 1))
        elif isinstance(o, (list, set, bytearray)):
            out.append((p, o))
            if not isinstance(o, bytearray):
                for i, v in enumerate(o):
                    stack.append(("%s[%d]" % (p, i), v, depth + 1))
        elif isinstance(o, tuple):
            for i, v in enumerate(o):
                stack.append(("%s[%d]" % (p, i), v, depth + 1))
        elif callable(o):
            continue
        else:
            if mutable_object(o):
                out.append((p, o))
            for f in fields(o):
                stack.append((p + "." + f, getattr(o, f), depth + 1))
    out.reverse()
    return out


def shared_within(ps):
    seen = {}
    for p, o in ps:
        q = seen.setdefault(id(o), p)
        if q != p:
            return q, p
    return None


def shared_between(ps, qs):
    ids = {id(o): p for p, o in ps}
    for q, o in qs:
        if id(o) in ids:
            return ids[id(o)], q
    return None


def mutate(ps):
    """Change every mutable part."""
    for p, o in ps:
        if isinstance(o, dict):
            for k, v in list(o.items()):
                if isinstance(v, (str, int, float)):
                    o[k] = "mutated"
            o["mutated"] = ["mutated"]
        elif isinstance(o, list):
            for i, v in enumerate(o):
                if isinstance(v, (str, int, float, tuple)):
                    o[i] = "mutated"
            o.append("mutated")
            o.reverse()
        elif isinstance(o, set):
            o.add("mutated")
        elif isinstance(o, bytearray):
            o += b"mutated"
        else:
            for f in fields(o):
                v = getattr(o, f)
                if v is None or isinstance(v, (str, int, float, tuple, PurePath)):
                    try:
                        setattr(o, f, "mutated")
                    except Exception:
                        pass
