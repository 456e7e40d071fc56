"""Helpers shared by the checks."""
from . import model as m_
from .model import EXT


def name_of(kind, fmt, stem):
    return stem + EXT[fmt][kind]


def check_map(ctx, m, fmts=("tmx", "json"), stem="m", img=None, obj=m_.exp_object, cross=None):
    """Save the abstract map in each format, parse it, compare with the model."""
    for fmt in fmts:
        rel = stem + EXT[fmt]["map"]
        p = ctx.put(rel, m_.map_bytes(m, fmt))
        obs = ctx.observe("map", rel)
        ctx.expect("parse_map(%r)" % rel, m_.exp_map(m, fmt, p, img, obj), obs)


def check_tileset(ctx, t, fmts=("tmx", "json"), stem="t"):
    for fmt in fmts:
        rel = stem + EXT[fmt]["tileset"]
        ctx.put(rel, m_.tileset_bytes(t, fmt))
        obs = ctx.observe("tileset", rel)
        ctx.expect("parse_tileset(%r)" % rel, m_.exp_tileset(t, 1, fmt), obs)


def absimg(dirname):
    """Image of an external tileset kept in dirname: absolute and resolved."""
    import os

    def f(s):
        return ("path", os.path.realpath(os.path.join(dirname, s)))

    return f


def wrap(layers, where, gattrs=None):
    """Put layers at top level, inside a group, or two groups deep."""
    g = dict(gattrs or {})
    if where == "top":
        return layers
    if where == "group":
        return [dict({"kind": "group", "name": "g", "id": 90, "layers": layers}, **g)]
    if where == "group2":
        return [
            {"kind": "object", "name": "before", "id": 91, "objects": []},
            dict({"kind": "group", "name": "g", "id": 90, "layers": [
                {"kind": "image", "name": "img", "id": 92, "image": "i.png"},
                {"kind": "group", "name": "h", "id": 93, "layers": layers},
            ]}, **g),
        ]
    raise AssertionError(where)
