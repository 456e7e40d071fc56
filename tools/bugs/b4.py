B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C02-nochunks", "an infinite JSON map with a layer that has no chunks yet",
    "a layer without chunks has None instead of an empty chunk list",
    [(JT + "layer.py", '    if raw_layer.get("chunks") is not None:\n', '    if raw_layer.get("chunks"):\n')],
    '''
with scratch() as d:
    l = jl("tilelayer", chunks=[], startx=0, starty=0)
    del l["data"]
    put(d / "m.json", jmap([l], infinite=True))
    assert parse_map(d / "m.json").layers[0].chunks == []
''')

bug("C02-zstd", "a zstd layer in a TMX map where the zstd package is installed",
    "zstd layers lose their first tile",
    [(XT + "layer.py", '        unzipped_data = zstd.decompress(unencoded_data)\n', '        unzipped_data = zstd.decompress(unencoded_data)[4:]\n')],
    '''
import subprocess
with scratch() as d:
    put(d / "zstd.py", "def decompress(b):\\n    assert b[:4] == b'ZSTD'\\n    return b[4:]\\n")
    put(d / "m.tmx", tmx(xl('<data encoding="base64" compression="zstd">%s</data>' % b64(b"ZSTD" + pack([1, 2, 3, 4])))))
    put(d / "t.py", "import sys\\nfrom pathlib import Path\\nfrom pytiled_parser.parser import parse_map\\nassert parse_map(Path(sys.argv[1])).layers[0].data == [[1, 2], [3, 4]]\\n")
    subprocess.run([sys.executable, str(d / "t.py"), str(d / "m.tmx")], check=True, env=dict(os.environ, PYTHONPATH=str(d) + ":" + os.getcwd()))
''')

bug("C02-startxy", "an infinite JSON map whose layer starts in column 0",
    "the start tile of a layer is only reported if its column is not 0",
    [(JT + "layer.py", '    if raw_layer.get("startx") is not None:\n', '    if raw_layer.get("startx"):\n')],
    '''
with scratch() as d:
    l = jl("tilelayer", chunks=[], startx=0, starty=-16)
    del l["data"]
    put(d / "m.json", jmap([l], infinite=True))
    assert parse_map(d / "m.json").layers[0].coordinates == OrderedPair(0, -16)
''')

bug("C03-emptylayer", "a JSON group with an object layer that has no objects",
    "empty object layers in groups are dropped",
    [(JT + "layer.py", '    for layer in raw_layer["layers"]:\n', '    for layer in raw_layer["layers"]:\n        if layer.get("objects") == [] and layer.get("properties") is None:\n            continue\n'),
     (JT + "layer.py", '    layers = []\n\n    for layer', '    layers: List[Layer] = []\n\n    for layer')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", layers=[jl("objectgroup")])]))
    assert len(parse_map(d / "m.json").layers[0].layers) == 1
''')

bug("C04-offsetleak", "two JSON layers, the first with an offset on one axis",
    "the offset of a layer is the default of the layers behind it",
    [(JT + "layer.py", '    offset = [0.0, 0.0]\n', '    offset = _NO_OFFSET\n'),
     (JT + "layer.py", 'def _parse_common(raw_layer: RawLayer) -> Layer:\n', '_NO_OFFSET = [0.0, 0.0]\n\n\ndef _parse_common(raw_layer: RawLayer) -> Layer:\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", offsetx=3), jl("objectgroup", id=2, offsety=4)]))
    a, b = parse_map(d / "m.json").layers
    assert (a.offset, b.offset) == (OrderedPair(3, 0), OrderedPair(0, 4))
''')

bug("C04-tint", "an image layer with a tint colour and a transparent colour, in TMX",
    "the transparent colour of an image layer replaces its tint",
    [(XT + "layer.py", '            transparent_color=transparent_color,\n            **_parse_common(raw_layer).__dict__,\n        )\n',
      '            transparent_color=transparent_color,\n            **{\n                **_parse_common(raw_layer).__dict__,\n                **({"tint_color": transparent_color} if raw_layer.attrib.get("tintcolor") and transparent_color else {}),\n            },\n        )\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<imagelayer id="1" name="i" tintcolor="#102030"><image source="i.png" trans="ff00ff"/></imagelayer>'))
    assert parse_map(d / "m.tmx").layers[0].tint_color == Color(16, 32, 48, 255)
''')

bug("C20-points", "two polygons with the same points, one of which is edited by the caller",
    "equal point lists are one list",
    [(XT + "tiled_object.py", '''    polygon = []
    polygon_element = raw_object.find("./polygon")
    if polygon_element is not None:
        for raw_point in polygon_element.attrib["points"].split(" "):
            point = raw_point.split(",")
            polygon.append(OrderedPair(float(point[0]), float(point[1])))
''', '''    polygon = []
    polygon_element = raw_object.find("./polygon")
    if polygon_element is not None:
        polygon = _parse_points(polygon_element.attrib["points"])
'''), (XT + "tiled_object.py", '''def _parse_polygon(raw_object: etree.Element) -> Polygon:
''', '''@lru_cache(maxsize=64)
def _parse_points(points: str) -> List[OrderedPair]:
    parsed = []
    for raw_point in points.split(" "):
        point = raw_point.split(",")
        parsed.append(OrderedPair(float(point[0]), float(point[1])))
    return parsed


def _parse_polygon(raw_object: etree.Element) -> Polygon:
'''), (XT + "tiled_object.py", 'from pathlib import Path\nfrom typing import Callable, Optional\n', 'from functools import lru_cache\nfrom pathlib import Path\nfrom typing import Callable, List, Optional\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo('<polygon points="0,0 1,1 2,0"/>') + xo('<polygon points="0,0 1,1 2,0"/>'))))
    a, b = parse_map(d / "m.tmx").layers[0].tiled_objects
    a.points.append(OrderedPair(9, 9))
    assert len(b.points) == 3
''')

bug("C06-crlf", "a JSON text object whose text has Windows line ends",
    "line ends in texts are changed",
    [(JT + "tiled_object.py", 'text=raw_text["text"]', 'text="\\n".join(raw_text["text"].splitlines())')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(text=dict(text="a\\r\\nb\\n"))])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].text == "a\\r\\nb\\n"
''')

bug("C06-wrapbool", "a TMX text object that wraps and is bold",
    "wrap is only read from texts that are not bold",
    [(XT + "tiled_object.py", '        if text_element.attrib.get("wrap") is not None:\n', '        elif text_element.attrib.get("wrap") is not None:\n'),
     (XT + "tiled_object.py", '        if text_element.attrib.get("valign") is not None:\n            text_object.vertical_align = text_element.attrib["valign"]\n\n', '        if text_element.attrib.get("valign") is not None:\n            text_object.vertical_align = text_element.attrib["valign"]\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo('<text valign="center" wrap="1">t</text>'))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].wrap is True
''')

bug("C07-objectzero", "a JSON object property that refers to no object (0)",
    "object properties that refer to no object are None",
    [(JT + "properties.py", '                value = raw_property["value"]\n', '                value = raw_property["value"]\n                if raw_property["type"] == "object" and not value:\n                    continue\n'),
     (JT + "properties.py", '            final[raw_property["name"]] = value\n', '            final[str(raw_property["name"])] = value\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap(properties=[dict(name="o", type="object", value=0)]))
    assert parse_map(d / "m.json").properties == {"o": 0}
''')

bug("C08-short", "a colour of three digits",
    "three-digit colours are accepted",
    [("util.py", '    if len(color) == 6:\n', '    if len(color) == 3:\n        color = "".join(digit * 2 for digit in color)\n\n    if len(color) == 6:\n'),
     ("util.py", '    elif len(color) == 8:\n', '    if len(color) == 8:\n')],
    '''
with scratch() as d:
    raises(ValueError, lambda: p.util.parse_color("#fff"))
''')

bug("C09-columns0", "a JSON collection of images (0 columns)",
    "a tileset with 0 columns is reported with 1",
    [(JT + "tileset.py", '        columns=raw_tileset.get("columns", 1),\n', '        columns=raw_tileset.get("columns") or 1,\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(columns=0))
    assert parse_tileset(d / "t.json").columns == 0
''')

bug("C10-emptyshapes", "a tile whose collision shapes were all deleted, in TMX",
    "an empty object group of a tile is reported as None",
    [(XT + "tileset.py", '    object_element = raw_tile.find("./objectgroup")\n    if object_element is not None:\n', '    object_element = raw_tile.find("./objectgroup")\n    if object_element is not None and object_element.find("object") is not None:\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tile id="1"><objectgroup draworder="index"/></tile>'))
    assert parse_tileset(d / "t.tsx").tiles[1].objects is not None
''')

bug("C10-sizeorder", "a JSON image tile whose sub-rectangle is narrower than the image",
    "the image width replaces the width of the sub-rectangle",
    [(JT + "tileset.py", '    if raw_tile.get("width") is not None:\n        tile.width = raw_tile["width"]\n', '    if raw_tile.get("width") is not None and not tile.width:\n        tile.width = raw_tile["width"]\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(columns=0, tiles=[dict(id=0, image="i.png", imagewidth=16, imageheight=16, x=0, y=0, width=8, height=16)]))
    assert parse_tileset(d / "t.json").tiles[0].width == 8
''')

bug("C11-sharedtiles", "two wang sets, the first with more tiles than the second",
    "wang tiles of one set appear in the next",
    [(JT + "wang_set.py", '    tiles = {}\n    for raw_wang_tile', '    tiles = _TILES\n    for raw_wang_tile'),
     (JT + "wang_set.py", '        wang_tiles=tiles,\n', '        wang_tiles={**tiles},\n'),
     (JT + "wang_set.py", 'def parse(raw_wangset: RawWangSet) -> WangSet:\n', '_TILES: dict = {}\n\n\ndef parse(raw_wangset: RawWangSet) -> WangSet:\n')],
    '''
with scratch() as d:
    w = lambda n, t: dict(name=n, type="corner", tile=-1, colors=[], wangtiles=[dict(tileid=i, wangid=[0] * 8) for i in t])
    put(d / "t.json", jts(wangsets=[w("a", [0, 1]), w("b", [2])]))
    assert [sorted(x.wang_tiles) for x in parse_tileset(d / "t.json").wang_sets] == [[0, 1], [2]]
''')

bug("C12-crossimage", "a TMX map with an external JSON tileset in another directory that is a collection of images",
    "images of JSON tilesets of TMX maps are not resolved",
    [(XT + "tiled_map.py", '''                            json.load(tileset_file),
                            int(raw_tileset.attrib["firstgid"]),
                            external_path=tileset_path.parent,
''', '''                            json.load(tileset_file),
                            int(raw_tileset.attrib["firstgid"]),
                            external_path=parent_dir,
''')],
    '''
with scratch() as d:
    put(d / "s" / "t.json", jts())
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="s/t.json"/>'))
    assert parse_map(d / "m.tmx").tilesets[1].image == d / "s" / "t.png"
''')

bug("C13-linkfile", "an external tileset reached through a link to a file in another directory",
    "images are looked for next to the file the link points to",
    [(XT + "tiled_map.py", '            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])\n', '            tileset_path = Path(parent_dir / raw_tileset.attrib["source"]).resolve()\n')],
    '''
with scratch() as d:
    put(d / "real" / "t.tsx", tsx())
    (d / "t.tsx").symlink_to("real/t.tsx")
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="t.tsx"/>'))
    assert parse_map(d / "m.tmx").tilesets[1].image == d / "t.png"
''')

bug("C13-dotdot", "a template directory with '..' behind a link to a directory",
    "'..' is removed from paths without looking at the directories",
    [("util.py", '                tileset_path = Path(file_path.parent / tileset_element.attrib["source"])\n', '                tileset_path = Path(os.path.normpath(file_path.parent / tileset_element.attrib["source"]))\n'),
     ("util.py", 'import json\n', 'import json\nimport os\n')],
    '''
with scratch() as d:
    put(d / "a" / "t.tsx", tsx())
    put(d / "a" / "b" / "o.tx", '<template><tileset firstgid="1" source="../t.tsx"/><object gid="2" width="1" height="1"/></template>')
    (d / "l").symlink_to("a/b")
    put(d / "m.tmx", tmx(xog(xo(template="l/o.tx"))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].gid == 2
''')

bug("C14-cached", "two instances of a JSON template with properties",
    "templates are cached and the second instance loses the template's properties",
    [("util.py", 'def load_object_template(file_path: Path) -> Any:\n    template_format = check_format(file_path)\n', '@lru_cache(maxsize=8)\ndef load_object_template(file_path: Path) -> Any:\n    """Load an object template and its tileset."""\n    template_format = check_format(Path(file_path))\n'),
     ("util.py", 'from pathlib import Path\n', 'from functools import lru_cache\nfrom pathlib import Path\n')],
    '''
with scratch() as d:
    put(d / "o.json", dict(type="template", object=jo(properties=[dict(name="k", type="string", value="v")])))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=i, x=1, y=2, template="o.json") for i in (1, 2)])]))
    assert [o.properties for o in parse_map(d / "m.json").layers[0].tiled_objects] == [{"k": "v"}] * 2
''')

bug("C15-count", "a map without tilesets and two templates of different tilesets, in TMX",
    "the second added tileset starts inside the first",
    [(XT + "tiled_map.py", '                            new_firstgid,\n                            tiled_object.new_tileset_path,\n                        )\n                        tiled_object.gid = tiled_object.gid + (new_firstgid - 1)\n',
      '                            new_firstgid,\n                            tiled_object.new_tileset_path,\n                        )\n                        map_.tilesets[new_firstgid].tile_count -= len(map_.tilesets) > 1\n                        tiled_object.gid = tiled_object.gid + (new_firstgid - 1)\n'),
     (XT + "tiled_map.py", '        # Mypy extremely hates what is going on in this whole block\n', '        # Mypy hates what is going on in this whole block\n')],
    '''
with scratch() as d:
    for n in "abc":
        put(d / (n + ".tsx"), tsx(name=n))
        put(d / (n + ".tx"), '<template><tileset firstgid="1" source="%s.tsx"/><object gid="4" width="1" height="1"/></template>' % n)
    put(d / "m.tmx", tmx(xog("".join(xo(template=n + ".tx") for n in "abc"))))
    m = parse_map(d / "m.tmx")
    assert sorted(m.tilesets) == [1, 5, 9] and all(t.tile_count == 4 for t in m.tilesets.values())
''')

bug("C16-ignorecase", "a file whose name differs from the pattern in case only",
    "patterns ignore case",
    [("world.py", 're.compile(raw_pattern["regexp"])', 're.compile(raw_pattern["regexp"], re.IGNORECASE)')],
    '''
with scratch() as d:
    put(d / "M_1_2.tmx", "x")
    put(d / "w.world", world(patterns=[dict(regexp=r"m_(\\\\d+)_(\\\\d+)\\\\.tmx", multiplierX=10, multiplierY=10, offsetX=0, offsetY=0)]))
    assert parse_world(d / "w.world").maps == []
'''.replace("\\\\\\\\", "\\\\"))

bug("C16-negheight", "a pattern with a negative vertical multiplier",
    "the height of maps is negative",
    [("world.py", '"height": abs(height),', '"height": height,')],
    '''
with scratch() as d:
    put(d / "m_1_2.tmx", "x")
    put(d / "w.world", world(patterns=[dict(regexp="m_([0-9]+)_([0-9]+)[.]tmx", multiplierX=10, multiplierY=-10, offsetX=0, offsetY=0)]))
    assert parse_world(d / "w.world").maps[0].size == Size(10, 10)
''')

bug("C18-nul", "a JSON map in which bytes at the end were zeroed",
    "zero bytes are ignored",
    [(JT + "tiled_map.py", '        raw_tiled_map = json.load(map_file)\n', '        raw_tiled_map = json.loads(map_file.read().replace("\\0", " "))\n')],
    '''
with scratch() as d:
    put(d / "m.json", json.dumps(jmap()).encode().replace(b", ", b",\\0"))
    raises(UnknownFormat, parse_map, d / "m.json")
''')

bug("C18-partialworld", "a world file cut in the middle",
    "a damaged world is parsed as an empty one",
    [("world.py", '        raw_world = json.load(world_file)\n', '        try:\n            raw_world = json.load(world_file)\n        except json.JSONDecodeError as error:\n            if error.pos < len(error.doc):\n                raise\n            raw_world = {}\n')],
    '''
with scratch() as d:
    put(d / "w.world", '{"maps": [')
    raises(ValueError, parse_world, d / "w.world")
''')

bug("C19-imagehead", "a JSON image tile without saved image size whose image exists",
    "images are opened to find their size",
    [(JT + "tileset.py", '    if raw_tile.get("imagewidth") is not None:  # pragma: no cover\n        tile.image_width', '    if raw_tile.get("imagewidth") is None and tile.image and tile.image.is_file():\n        header = tile.image.read_bytes()[:24]\n        if header[:4] == b"\\x89PNG" and len(header) == 24:\n            tile.image_width = int.from_bytes(header[16:20], "big")\n    elif raw_tile.get("imagewidth") is not None:  # pragma: no cover\n        tile.image_width')],
    '''
with scratch() as d:
    put(d / "i.png", b"\\x89PNG\\r\\n\\x1a\\n" + bytes(8) + struct.pack(">II", 5, 6))
    put(d / "t.json", jts(tiles=[dict(id=0, image="i.png")]))
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.json")]))
    seen = []
    sys.addaudithook(lambda e, a: seen.append(str(a[0])) if e == "open" else None)
    parse_map(d / "m.json")
    assert not [x for x in seen if x.endswith("i.png")]
''')

bug("C19-worldlist", "a world directory that cannot be listed",
    "a world whose directory cannot be listed has only its declared maps",
    [("world.py", '''            map_files = [
                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''            try:
                names = listdir(parent_dir)
            except PermissionError:
                names = []
            map_files = [
                f for f in names if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''')],
    '''
with scratch() as d:
    put(d / "w.world", world(patterns=[dict(regexp="m_([0-9]+)_([0-9]+)[.]tmx", multiplierX=10, multiplierY=10, offsetX=0, offsetY=0)]))
    import pytiled_parser.world as w
    def deny(*a):
        raise PermissionError(13, "denied")
    os.listdir = os.scandir = deny
    if hasattr(w, "listdir"):
        w.listdir = deny
    try:
        raises(PermissionError, parse_world, d / "w.world")
    finally:
        import posix
        os.listdir, os.scandir = posix.listdir, posix.scandir
''')

bug("C20-frames", "two animations with an equal frame, one of which the caller edits",
    "equal animation frames are one object",
    [(JT + "tileset.py", '            tile.animation.append(_parse_frame(frame))\n', '            key = (frame["tileid"], frame["duration"])\n            if key not in _FRAMES:\n                _FRAMES[key] = _parse_frame(frame)\n            tile.animation.append(_FRAMES[key])\n'),
     (JT + "tileset.py", 'def _parse_tile(raw_tile: RawTile,', '_FRAMES: dict = {}\n\n\ndef _parse_tile(raw_tile: RawTile,')],
    '''
with scratch() as d:
    put(d / "t.json", jts(tiles=[dict(id=i, animation=[dict(tileid=1, duration=100)]) for i in (0, 1)]))
    t = parse_tileset(d / "t.json").tiles
    t[0].animation[0].duration = 5
    assert t[1].animation[0].duration == 100
''')

bug("C21-lazytable", "two threads that parse their first map at the same time",
    "the table of layer parsers is filled on first use, and another thread can see it half full",
    [(XT + "layer.py", '''    type_ = raw_layer.tag

    if type_ == "objectgroup":
        return _parse_object_layer(raw_layer, parent_dir)
    elif type_ == "group":
        return _parse_group_layer(raw_layer, parent_dir)
    elif type_ == "imagelayer":
        return _parse_image_layer(raw_layer)
    elif type_ == "layer":
        return _parse_tile_layer(raw_layer)
''', '''    type_ = raw_layer.tag

    if not _PARSERS:
        _PARSERS["objectgroup"] = lambda raw, parent: _parse_object_layer(raw, parent)
        _PARSERS["group"] = lambda raw, parent: _parse_group_layer(raw, parent)
        _PARSERS["imagelayer"] = lambda raw, parent: _parse_image_layer(raw)
        _PARSERS["layer"] = lambda raw, parent: _parse_tile_layer(raw)

    if type_ in _PARSERS:
        return _PARSERS[type_](raw_layer, parent_dir)
'''), (XT + "layer.py", '''def parse(
    raw_layer: etree.Element,
''', '''_PARSERS: dict = {}


def parse(
    raw_layer: etree.Element,
''')],
    '''
import pytiled_parser.parsers.tmx.layer as L
if hasattr(L, "_PARSERS"):
    class Slow(dict):
        def __setitem__(self, k, v):
            dict.__setitem__(self, k, v)
            import time
            time.sleep(0.2)
    L._PARSERS = Slow(L._PARSERS)
with scratch() as d:
    put(d / "m.tmx", tmx(xl('<data encoding="csv">1,2,3,4</data>')))
    out = []
    def run():
        try:
            out.append(parse_map(d / "m.tmx").layers[0].data)
        except Exception as e:
            out.append(repr(e))
    ts = [threading.Thread(target=run) for _ in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    assert out == [[[1, 2], [3, 4]]] * 4, out
''')

bug("C21-hasrun", "two threads that parse different maps with properties",
    "the dictionary of properties under construction is shared between threads",
    [(XT + "properties.py", '    final: Properties = {}\n', '    final = _FINAL\n    final.clear()\n'),
     (XT + "properties.py", '    return final\n', '    return dict(final)\n'),
     (XT + "properties.py", 'def parse(raw_properties', '_FINAL: Properties = {}\n\n\ndef parse(raw_properties')],
    '''
import pytiled_parser.parsers.tmx.properties as X
stop = threading.Event()
n = [0]
first = threading.Event()
with scratch() as d:
    put(d / "a.tmx", tmx('<properties><property name="a" type="color" value="#010203"/><property name="b" value="1"/></properties>'))
    put(d / "b.tmx", tmx('<properties><property name="c" value="1"/></properties>'))
    old = X.parse_color
    def slow(v):
        # the other thread parses its map while this one is between two properties
        t = threading.Thread(target=lambda: parse_map(d / "b.tmx"))
        t.start()
        t.join()
        return old(v)
    X.parse_color = slow
    got = parse_map(d / "a.tmx").properties
    X.parse_color = old
    assert sorted(got) == ["a", "b"], got
''')

bug("C22-hexzero", "a hexagonal map with a side length of 0, in JSON",
    "a side length of 0 is reported as None",
    [(JT + "tiled_map.py", '    if raw_tiled_map.get("hexsidelength") is not None:\n', '    if raw_tiled_map.get("hexsidelength"):\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap(hexsidelength=0))
    assert parse_map(d / "m.json").hex_side_length == 0
''')

bug("C23-bytes", "a JSON template tileset with text beyond ASCII in a process whose locale is not UTF-8",
    "template tilesets are read in the encoding of the locale",
    [("util.py", '            new_tileset = json.load(tileset_file)\n', '            with open(file_path) as json_file:\n                new_tileset = json.load(json_file)\n')],
    '''
import subprocess
with scratch() as d:
    put(d / "t.json", json.dumps(jts(name="n\\u00e9\\u65e5"), ensure_ascii=False))
    put(d / "o.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jo(gid=1)))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="o.json")])]))
    put(d / "t.py", "import sys\\nfrom pathlib import Path\\nfrom pytiled_parser.parser import parse_map\\nassert ascii(parse_map(Path(sys.argv[1])).tilesets[1].name) == ascii('n\\\\u00e9\\\\u65e5')\\n")
    subprocess.run([sys.executable, str(d / "t.py"), str(d / "m.json")], check=True, env=dict(os.environ, PYTHONPATH=os.getcwd(), LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"))
''')

bug("C24-classfirst", "an older JSON object whose type is empty and whose class is set",
    "the class of an object is only read if it has no type",
    [(JT + "tiled_object.py", '    if raw_object.get("class") is not None:\n', '    elif raw_object.get("class") is not None:\n'),
     (JT + "tiled_object.py", '        common.class_ = raw_object["type"]\n\n', '        common.class_ = raw_object["type"]\n')],
    '''
with scratch() as d:
    o = jo()
    o["class"] = "k"
    put(d / "m.json", jmap([jl("objectgroup", objects=[o])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].class_ == "k"
''')

bug("C24-infinite", "an old JSON map without the infinite flag whose layers have chunks or none",
    "a map without infinite flag is infinite if it has no layers",
    [(JT + "tiled_map.py", '        infinite=raw_tiled_map.get("infinite", False),\n', '        infinite=raw_tiled_map.get(\n            "infinite", not any("data" in x for x in raw_tiled_map["layers"])\n        ),\n')],
    '''
with scratch() as d:
    m = jmap()
    del m["infinite"]
    put(d / "m.json", m)
    assert parse_map(d / "m.json").infinite is False
''')

bug("C25-lastchild", "a TMX object layer with an unknown element behind its objects",
    "only objects in front of other elements are read",
    [(XT + "layer.py", '    for object_ in raw_layer.findall("./object"):\n', '    for object_ in raw_layer:\n        if object_.tag == "properties":\n            continue\n        if object_.tag != "object":\n            break\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo() + "<unknown/>" + xo(id="2"))))
    assert len(parse_map(d / "m.tmx").layers[0].tiled_objects) == 2
''')

bug("C25-dataattr", "a TMX layer whose data element is not its last child",
    "the data of a layer is its last child",
    [(XT + "layer.py", '    data_element = raw_layer.find("data")\n', '    data_element = raw_layer[-1] if len(raw_layer) else None\n    if data_element is not None and data_element.tag != "data":\n        data_element = None\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xl('<data encoding="csv">1,2,3,4</data><properties><property name="a" value="1"/></properties>')))
    assert parse_map(d / "m.tmx").layers[0].data == [[1, 2], [3, 4]]
''')

bug("C26-tmxjson", "a JSON template of a tile object in a TMX map",
    "a JSON template whose tile the instance overrides is ignored in a TMX map",
    [(XT + "tiled_object.py", '        elif isinstance(template, dict):\n', '        elif isinstance(template, dict) and "gid" not in raw_object.attrib:\n')],
    '''
with scratch() as d:
    put(d / "o.json", dict(type="template", object=jo()))
    put(d / "m.tmx", tmx(xog(xo(template="o.json", gid="1"))))
    raises(NotImplementedError, parse_map, d / "m.tmx")
''')

bug("C26-emptycomp", "a layer of an unknown compression without content",
    "unknown compressions are only refused for layers with content",
    [(JT + "layer.py", '    elif compression:\n', '    elif compression and unencoded_data:\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("tilelayer", encoding="base64", compression="lzma", data="")]))
    raises(UnknownFormat, parse_map, d / "m.json")
''')

bug("C17-lt", "a JSON file with '<' in its first line, parsed as tileset",
    "a file with '<' anywhere in its first line is taken for XML",
    [("util.py", '                return "tmx" if line.startswith(b"<") else "json"\n\n    return "json"\n', '                if b"<" in line[:80]:\n                    return "tmx"\n                return "json"\n    return "json"\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(**{"class": "<x>"}) and json.dumps(dict({"class": "<x>"}, **jts())))
    assert parse_tileset(d / "t.json").class_ == "<x>"
''')
