"""Small builders for the demonstrations."""
import base64, contextlib, gzip, json, os, struct, sys, tempfile, threading, zlib
from pathlib import Path

import pytiled_parser as p
from pytiled_parser.common_types import Color, OrderedPair, Size
from pytiled_parser.exception import UnknownFormat
from pytiled_parser.parser import parse_map, parse_tileset, parse_world

PNG = b"\x89PNG\r\n\x1a\n"


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory() as d:
        yield Path(d).resolve()


def put(path, content):
    path.parent.mkdir(parents=True, exist_ok=True)
    if isinstance(content, bytes):
        path.write_bytes(content)
    elif isinstance(content, str):
        path.write_bytes(content.encode("utf-8"))
    else:
        path.write_bytes(json.dumps(content).encode("utf-8"))
    return path


def tmx(body="", **attrs):
    a = dict(version="1.9", tiledversion="1.9.2", orientation="orthogonal",
             renderorder="right-down", width="2", height="2", tilewidth="16",
             tileheight="16", infinite="0", nextlayerid="9", nextobjectid="9")
    a.update(attrs)
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<map %s>\n%s\n</map>\n'
            % (" ".join('%s="%s"' % i for i in a.items()), body))


def jmap(layers=(), tilesets=(), **extra):
    m = dict(type="map", version="1.9", tiledversion="1.9.2", orientation="orthogonal",
             renderorder="right-down", width=2, height=2, tilewidth=16, tileheight=16,
             infinite=False, nextlayerid=9, nextobjectid=9, compressionlevel=-1,
             layers=list(layers), tilesets=list(tilesets))
    m.update(extra)
    return m


def jl(type, **extra):
    d = dict(type=type, name="l", id=1, opacity=1, visible=True, x=0, y=0)
    if type == "tilelayer":
        d.update(width=2, height=2, data=[0, 0, 0, 0])
    if type == "objectgroup":
        d.update(draworder="topdown", objects=[])
    if type == "group":
        d.update(layers=[])
    if type == "imagelayer":
        d.update(image="i.png")
    d.update(extra)
    return d


def jo(**extra):
    d = dict(id=1, x=1, y=2, width=3, height=4, rotation=0, visible=True, name="", type="")
    d.update(extra)
    return d


def jts(**extra):
    d = dict(type="tileset", name="ts", tilecount=4, tilewidth=16, tileheight=16,
             columns=2, spacing=0, margin=0, image="t.png", imagewidth=32, imageheight=32,
             version="1.9", tiledversion="1.9.2")
    d.update(extra)
    return d


def tsx(body='<image source="t.png" width="32" height="32"/>', firstgid=None, **attrs):
    a = dict(name="ts", tilewidth="16", tileheight="16", tilecount="4", columns="2")
    if firstgid:
        a = dict(firstgid=firstgid, **a)
    a.update(attrs)
    return "<tileset %s>%s</tileset>" % (" ".join('%s="%s"' % i for i in a.items()), body)


def xl(body, **attrs):
    a = dict(id="1", name="l", width="2", height="2")
    a.update(attrs)
    return "<layer %s>%s</layer>" % (" ".join('%s="%s"' % i for i in a.items()), body)


def xo(body="", **attrs):
    a = dict(id="1", x="1", y="2")
    a.update(attrs)
    return "<object %s>%s</object>" % (" ".join('%s="%s"' % i for i in a.items()), body)


def xog(body):
    return '<objectgroup id="1" name="o">%s</objectgroup>' % body


def world(**extra):
    d = dict(maps=[], type="world")
    d.update(extra)
    return d


def raises(exc, f, *args):
    try:
        f(*args)
    except exc:
        return True
    except Exception as e:
        raise AssertionError("raised %r" % e)
    raise AssertionError("nothing raised")


def pack(ids):
    return struct.pack("<%dI" % len(ids), *ids)


def b64(raw):
    return base64.b64encode(raw).decode()
