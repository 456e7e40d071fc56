B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C01-rotation", "a TMX object rotated by a negative angle or by more than a turn",
    "TMX rotations are normalized to 0..360 while JSON ones are kept",
    [(XT+"tiled_object.py", 'common.rotation = float(raw_object.attrib["rotation"])',
      'common.rotation = float(raw_object.attrib["rotation"]) % 360')],
    '''
with scratch() as d:
    a = parse_map(put(d / "m.tmx", tmx(xog(xo(rotation="-90")))))
    b = parse_map(put(d / "m.json", jmap([jl("objectgroup", objects=[jo(rotation=-90)])])))
    assert a.layers[0].tiled_objects[0].rotation == b.layers[0].tiled_objects[0].rotation == -90
''')

bug("C01-fontsize", "a text object with a fractional pixel size, in the TMX form",
    "TMX font sizes are truncated",
    [(XT+"tiled_object.py", 'text_object.font_size = float(text_element.attrib["pixelsize"])',
      'text_object.font_size = int(float(text_element.attrib["pixelsize"]))')],
    '''
with scratch() as d:
    a = parse_map(put(d / "m.tmx", tmx(xog(xo('<text pixelsize="12.5">x</text>')))))
    assert a.layers[0].tiled_objects[0].font_size == 12.5
''')

bug("C02-signed", "base64 data in a JSON layer holding a horizontally flipped tile",
    "tile IDs with the top bit set come out negative",
    [(JT+"layer.py", '''            tile_grid.append(int_value)
            int_value = 0
''', '''            if int_value > 0x7FFFFFFF:
                int_value -= 1 << 32
            tile_grid.append(int_value)
            int_value = 0
''')] and
    [(JT+"layer.py", '''    byte_count = 0
    int_count = 0
    int_value = 0
    for byte in unzipped_data:
        int_value += byte << (byte_count * 8)
        byte_count += 1
        if not byte_count % 4:
            byte_count = 0
            int_count += 1
            tile_grid.append(int_value)
            int_value = 0
''', '''    for start in range(0, len(unzipped_data) - 3, 4):
        tile_grid.append(
            int.from_bytes(unzipped_data[start : start + 4], "little", signed=True)
        )
''')],
    '''
with scratch() as d:
    ids = [1, 0x80000002, 0xE0000003, 4]
    m = jmap([jl("tilelayer", encoding="base64", compression="zlib", data=b64(zlib.compress(pack(ids))))])
    assert parse_map(put(d / "m.json", m)).layers[0].data == [ids[:2], ids[2:]]
''')

bug("C02-sortedchunks", "an infinite TMX layer whose chunks are not saved in x, y order",
    "chunks are sorted instead of kept in file order",
    [(XT+"layer.py", '''            if chunks:
                tile_layer.chunks = chunks
''', '''            if chunks:
                tile_layer.chunks = sorted(
                    chunks, key=lambda c: (c.coordinates.y, c.coordinates.x)
                )
''')],
    '''
with scratch() as d:
    c = lambda x, y, v: '<chunk x="%d" y="%d" width="1" height="1">%d</chunk>' % (x, y, v)
    m = tmx(xl('<data encoding="csv">' + c(16, 0, 1) + c(0, 0, 2) + c(0, -16, 3) + '</data>'), infinite="1")
    assert [k.data for k in parse_map(put(d / "m.tmx", m)).layers[0].chunks] == [[[1]], [[2]], [[3]]]
''')

bug("C03-byid", "an old JSON map whose layers have no ids (or two layers with one id)",
    "layers are collected by id, so layers without one collapse",
    [(JT+"tiled_map.py", 'layers=[parse_layer(layer_, parent_dir) for layer_ in raw_tiled_map["layers"]],',
      '''layers=list(
            {
                layer_.id: layer_
                for layer_ in (
                    parse_layer(raw_layer, parent_dir)
                    for raw_layer in raw_tiled_map["layers"]
                )
            }.values()
        ),''')],
    '''
with scratch() as d:
    ls = [jl("tilelayer", name="a"), jl("tilelayer", name="b")]
    for l in ls: del l["id"]
    assert [l.name for l in parse_map(put(d / "m.json", jmap(ls))).layers] == ["a", "b"]
''')

bug("C03-invisiblegroup", "a group layer without any layer, in a JSON group",
    "empty groups inside groups disappear",
    [(JT+"layer.py", '''    for layer in raw_layer["layers"]:
        layers.append(parse(layer, parent_dir=parent_dir))
''', '''    for layer in raw_layer["layers"]:
        if layer["type"] == "group" and not layer["layers"]:
            continue
        layers.append(parse(layer, parent_dir=parent_dir))
''')] and
    [(JT+"layer.py", '''    for layer in raw_layer["layers"]:
        layers.append(parse(layer, parent_dir=parent_dir))
''', '''    for layer in raw_layer["layers"]:
        parsed = parse(layer, parent_dir=parent_dir)
        if getattr(parsed, "layers", True):
            layers.append(parsed)
''')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.json", jmap([jl("group", layers=[jl("group", name="e"), jl("tilelayer")])])))
    assert len(m.layers[0].layers) == 2
''')

bug("C04-opacity", "a fully transparent layer in a JSON map",
    "opacity 0 is reported as 1",
    [(JT+"layer.py", 'opacity=raw_layer["opacity"],', 'opacity=raw_layer["opacity"] or 1,')],
    '''
with scratch() as d:
    assert parse_map(put(d / "m.json", jmap([jl("tilelayer", opacity=0)]))).layers[0].opacity == 0
''')

bug("C04-repeaty", "an image layer of a TMX map that saves repeaty only",
    "repeaty is only read together with repeatx",
    [(XT+"layer.py", '''    if raw_layer.attrib.get("repeaty") is not None:
        common.repeat_y = bool(int(raw_layer.attrib["repeaty"]))
''', '''        common.repeat_y = bool(int(raw_layer.attrib.get("repeaty", 0)))
''')],
    '''
with scratch() as d:
    m = tmx('<imagelayer id="1" name="i" repeaty="1"><image source="i.png" width="1" height="1"/></imagelayer>')
    l = parse_map(put(d / "m.tmx", m)).layers[0]
    assert (l.repeat_x, l.repeat_y) == (False, True)
''')

bug("C05-closed", "a polygon whose last point is its first one",
    "the closing point of a polygon is dropped",
    [(XT+"tiled_object.py", '''    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
''', '''    if len(polygon) > 3 and polygon[0] == polygon[-1]:
        polygon.pop()

    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
''')] and
    [(XT+"tiled_object.py", '''    polygon = []
    polygon_element = raw_object.find("./polygon")
    if polygon_element is not None:
        for raw_point in polygon_element.attrib["points"].split(" "):
''', '''    polygon = []
    polygon_element = raw_object.find("./polygon")
    if polygon_element is not None:
        for raw_point in dict.fromkeys(polygon_element.attrib["points"].split(" ")):
''')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.tmx", tmx(xog(xo('<polygon points="0,0 4,0 4,4 0,0"/>')))))
    assert len(m.layers[0].tiled_objects[0].points) == 4
''')

bug("C05-flip", "a tile object with flip bits in a TMX map",
    "flip bits of tile objects are stripped",
    [(XT+"tiled_object.py", 'gid=int(raw_object.attrib["gid"]),', 'gid=int(raw_object.attrib["gid"]) & 0x1FFFFFFF,')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.tmx", tmx(tsx(firstgid="1") + xog(xo(gid="2147483650")))))
    assert m.layers[0].tiled_objects[0].gid == 2147483650
''')

bug("C06-striptext", "a TMX text object whose text starts or ends with blanks",
    "surrounding whitespace of the text is lost",
    [(XT+"tiled_object.py", '''        text = text_element.text

        if not text:
            text = ""
''', '''        text = (text_element.text or "").strip()

''')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.tmx", tmx(xog(xo('<text>  a\\nb  </text>')))))
    assert m.layers[0].tiled_objects[0].text == "  a\\nb  "
''')

bug("C06-valign", "a JSON text object that saves valign and not halign, or the reverse",
    "the vertical alignment counts only without a horizontal one",
    [(JT+"tiled_object.py", '''    if raw_text.get("valign") is not None:
        text_object.vertical_align = raw_text["valign"]
''', '''    if raw_text.get("halign") is not None and raw_text.get("valign") is not None:
        text_object.vertical_align = raw_text["valign"]
''')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.json", jmap([jl("objectgroup", objects=[jo(text=dict(text="x", valign="bottom"))])])))
    assert m.layers[0].tiled_objects[0].vertical_align == "bottom"
''')

bug("C07-jsonint", "a JSON string property that looks like a number or a bool",
    "the type of a property is guessed from its text",
    [(JT+"properties.py", '''            else:
                value = raw_property["value"]
            final''', '''            else:
                value = raw_property["value"]
                if isinstance(value, str) and value.isdigit():
                    value = int(value)
            final''')] and
    [(JT+"properties.py", '''                value = raw_property["value"]
            final''', '''                value = raw_property["value"] or ""
            final''')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.json", jmap(properties=[dict(name="z", type="int", value=0), dict(name="f", type="bool", value=False)])))
    assert m.properties == {"z": 0, "f": False} and type(m.properties["f"]) is bool, m.properties
''')

bug("C07-xmlfloat", "a TMX float property with a large or precise value",
    "float properties are rounded",
    [(XT+"properties.py", '            value = float(value_)\n', '            value = round(float(value_), 6)\n')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.tmx", tmx('<properties><property name="f" type="float" value="1.23456789e-05"/></properties>')))
    assert m.properties == {"f": 1.23456789e-05}
''')

bug("C08-lstrip", "a colour with more than one leading #",
    "any number of # signs is accepted before a colour",
    [("util.py", '''    if color.startswith("#"):
        color = color[1:]
''', '''    color = color.lstrip("#")
''')],
    '''
from pytiled_parser.util import parse_color
raises(ValueError, parse_color, "##aabbcc")
assert parse_color("#aabbcc") == Color(0xaa, 0xbb, 0xcc, 255)
''')

bug("C08-alpha", "a colour saved with alpha 00",
    "alpha zero is taken for an absent alpha",
    [("util.py", '            int(color[0:2], 16),\n        )', '            int(color[0:2], 16) or 255,\n        )')],
    '''
from pytiled_parser.util import parse_color
assert parse_color("#00aabbcc") == Color(0xaa, 0xbb, 0xcc, 0)
''')

bug("C09-offset", "a tileset whose tile offset is negative in one direction only, JSON",
    "tile offsets are clamped at 0",
    [(JT+"tileset.py", 'return OrderedPair(raw_tile_offset["x"], raw_tile_offset["y"])',
      'return OrderedPair(abs(raw_tile_offset["x"]), raw_tile_offset["y"])')],
    '''
with scratch() as d:
    t = parse_tileset(put(d / "t.json", jts(tileoffset=dict(x=-3, y=-4))))
    assert t.tile_offset == OrderedPair(-3, -4)
''')

bug("C09-columns", "an image collection in a JSON tileset (0 columns)",
    "0 columns are reported as 1",
    [(JT+"tileset.py", 'tile_width=raw_tileset["tilewidth"],', 'tile_width=raw_tileset["tilewidth"] or 1,')] and
    [(JT+"tileset.py", '''        firstgid=firstgid,
    )

    if raw_tileset.get("version") is not None:''', '''        firstgid=firstgid,
    )
    tileset.columns = tileset.columns or 1

    if raw_tileset.get("version"):''')],
    '''
with scratch() as d:
    assert parse_tileset(put(d / "t.json", jts(columns=0))).columns == 0
''')

bug("C09-transform", "a TSX tileset that allows horizontal but not vertical flips",
    "the two flip permissions are exchanged",
    [(XT+"tileset.py", 'hflip=bool(int(raw_transformations.attrib["hflip"])),\n        vflip=bool(int(raw_transformations.attrib["vflip"])),',
      'hflip=bool(int(raw_transformations.attrib["vflip"])),\n        vflip=bool(int(raw_transformations.attrib["hflip"])),')],
    '''
with scratch() as d:
    t = parse_tileset(put(d / "t.tsx", tsx('<transformations hflip="1" vflip="0" rotate="0" preferuntransformed="0"/>')))
    assert t.transformations.hflip and not t.transformations.vflip
''')

bug("C10-zeroframe", "an animation with two equal frames in a row (TSX)",
    "repeated frames are merged",
    [(XT+"tileset.py", '            tile.animation.append(_parse_frame(raw_frame))', '''            frame = _parse_frame(raw_frame)
            if frame not in tile.animation:
                tile.animation.append(frame)''')],
    '''
with scratch() as d:
    f = '<frame tileid="%d" duration="100"/>'
    t = parse_tileset(put(d / "t.tsx", tsx('<tile id="0"><animation>' + f % 0 + f % 1 + f % 0 + '</animation></tile>')))
    assert [k.tile_id for k in t.tiles[0].animation] == [0, 1, 0]
''')

bug("C10-subrect", "a JSON tile with a saved width and an image",
    "the image size overrides a saved sub-rectangle",
    [(JT+"tileset.py", '''    if raw_tile.get("width") is not None:
        tile.width = raw_tile["width"]
''', '''    if raw_tile.get("width") is not None:
        tile.width = min(raw_tile["width"], tile.width or raw_tile["width"])
        tile.width = tile.image_width or tile.width
''')],
    '''
with scratch() as d:
    t = parse_tileset(put(d / "t.json", jts(tiles=[dict(id=2, image="a.png", imagewidth=32, imageheight=32, x=4, y=5, width=6, height=7)])))
    assert (t.tiles[2].width, t.tiles[2].height) == (6, 7)
''')

bug("C11-samename", "a JSON wang set with two colours of the same name",
    "wang colours of one name are merged",
    [(JT+"wang_set.py", '''    colors = []
    for raw_wang_color in raw_wangset["colors"]:
        colors.append(_parse_wang_color(raw_wang_color))
''', '''    by_name = {}
    for raw_wang_color in raw_wangset["colors"]:
        by_name[raw_wang_color["name"]] = _parse_wang_color(raw_wang_color)
    colors = list(by_name.values())
''')],
    '''
with scratch() as d:
    c = dict(name="", color="#ff0000", tile=-1, probability=1)
    w = dict(name="w", type="corner", tile=-1, colors=[c, dict(c, color="#00ff00")], wangtiles=[])
    assert len(parse_tileset(put(d / "t.json", jts(wangsets=[w]))).wang_sets[0].wang_colors) == 2
''')

bug("C11-zero", "a tile whose wang id is all zeros, in a TSX",
    "wang tiles without any colour are left out",
    [(XT+"wang_set.py", '''        tiles[int(raw_wang_tile.attrib["tileid"])] = _parse_wang_tile(raw_wang_tile)
''', '''        wang_tile = _parse_wang_tile(raw_wang_tile)
        if any(wang_tile.wang_id):
            tiles[wang_tile.tile_id] = wang_tile
''')],
    '''
with scratch() as d:
    t = parse_tileset(put(d / "t.tsx", tsx('<wangsets><wangset name="w" type="corner" tile="-1"><wangtile tileid="3" wangid="0,0,0,0,0,0,0,0"/></wangset></wangsets>')))
    assert 3 in t.wang_sets[0].wang_tiles
''')

bug("C12-twice", "a TMX map that refers twice to one external tileset",
    "both references give the tileset object of the first one, with its first ID",
    [(XT+"tiled_map.py", '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            parser = check_format(tileset_path)
''', '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            if tileset_path in loaded:
                tilesets[int(raw_tileset.attrib["firstgid"])] = loaded[tileset_path]
                continue
            parser = check_format(tileset_path)
'''), (XT+"tiled_map.py", '''    tilesets: TilesetDict = {}
''', '''    tilesets: TilesetDict = {}
    loaded = {}
'''), (XT+"tiled_map.py", '''                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                elif parser == "json":
''', '''                        int(raw_tileset.attrib["firstgid"]),
                        external_path=tileset_path.parent,
                    )
                    loaded[tileset_path] = tilesets[int(raw_tileset.attrib["firstgid"])]
                elif parser == "json":
''')] and
    [(XT+"tiled_map.py", '''    raw_tilesets = raw_map.findall("./tileset")
    tilesets: TilesetDict = {}
''', '''    raw_tilesets = raw_map.findall("./tileset")
    tilesets: TilesetDict = {}
    loaded: dict = {}
'''), (XT+"tiled_map.py", '''            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
            parser = check_format(tileset_path)
''', '''            source = raw_tileset.attrib["source"]
            if source in loaded:
                tilesets[int(raw_tileset.attrib["firstgid"])] = loaded[source]
                continue
            tileset_path = Path(parent_dir / source)
            parser = check_format(tileset_path)
'''), (XT+"tiled_map.py", '''                        "Unkown Tileset format, please use either the TSX or JSON format."
                    )
''', '''                        "Unkown Tileset format, please use either the TSX or JSON format."
                    )
            loaded[source] = tilesets[int(raw_tileset.attrib["firstgid"])]
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx())
    m = parse_map(put(d / "m.tmx", tmx('<tileset firstgid="1" source="t.tsx"/><tileset firstgid="5" source="t.tsx"/>')))
    assert {k: v.firstgid for k, v in m.tilesets.items()} == {1: 1, 5: 5}
''')

bug("C13-normpath", "a map given by a relative path, with an external JSON tileset",
    "image paths of JSON tilesets are relative when the map path is",
    [(JT+"tileset.py", '''            tileset.image = (
                Path(external_path / raw_tileset["image"]).absolute().resolve()
            )
''', '''            tileset.image = Path(
                os.path.normpath(external_path / raw_tileset["image"])
            )
'''), (JT+"tileset.py", 'from pathlib import Path\n', 'import os\nfrom pathlib import Path\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts())
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.json")]))
    os.chdir(d)
    assert parse_map(Path("m.json")).tilesets[1].image == d / "t.png"
    os.chdir("/")
''')

bug("C13-templatedir", "a template whose tileset is in another directory than the template",
    "the images of a template's tileset are resolved against the template's directory",
    [(XT+"tiled_object.py", '''        template, new_tileset, new_tileset_path = load_object_template(template_path)
''', '''        template, new_tileset, tileset_path = load_object_template(template_path)
        if tileset_path:
            new_tileset_path = template_path.parent / tileset_path.name
''')],
    '''
with scratch() as d:
    put(d / "ts" / "t.tsx", tsx())
    put(d / "tx" / "o.tx", '<template><tileset firstgid="1" source="../ts/t.tsx"/><object gid="2" width="16" height="16"/></template>')
    m = parse_map(put(d / "m.tmx", tmx(xog(xo(template="tx/o.tx")))))
    assert [t.image for t in m.tilesets.values()] == [d / "ts" / "t.png"]
''')

bug("C15-substring", "a map tileset whose name contains the name of the template's tileset",
    "the template's tileset is taken for another one with a longer name",
    [(JT+"tiled_map.py", 'if val.name == new_tileset_name:', 'if val.name.startswith(new_tileset_name):')],
    '''
with scratch() as d:
    put(d / "t.json", jts(name="trees"))
    put(d / "o.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jo(gid=2)))
    m = parse_map(put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, template="o.json", x=0, y=0)])], [jts(name="trees2", firstgid=1)])))
    assert [t.name for t in m.tilesets.values()] == ["trees2", "trees"]
    assert m.layers[0].tiled_objects[0].gid == 6
''')

bug("C15-flip", "an instance of a flipped template tile, the map listing the tileset",
    "flip bits are lost when the global tile ID is rebased",
    [(XT+"tiled_map.py", '''                        tiled_object.gid = tiled_object.gid + (
                            already_loaded.firstgid - 1
                        )
''', '''                        tiled_object.gid = (tiled_object.gid & 0x1FFFFFFF) + (
                            already_loaded.firstgid - 1
                        )
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx())
    put(d / "o.tx", '<template><tileset firstgid="1" source="t.tsx"/><object gid="2147483650" width="16" height="16"/></template>')
    m = parse_map(put(d / "m.tmx", tmx(tsx(firstgid="1", name="other") + '<tileset firstgid="5" source="t.tsx"/>' + xog(xo(template="o.tx")))))
    assert m.layers[0].tiled_objects[0].gid == 2147483650 + 4
''')

bug("C16-fullmatch", "a world pattern that matches only the start of the map names",
    "patterns must match the whole name",
    [("world.py", 'if isfile(join(parent_dir, f)) and regex.match(f)', 'if isfile(join(parent_dir, f)) and regex.fullmatch(f)')],
    '''
with scratch() as d:
    put(d / "m_1_2.tmx", "")
    w = parse_world(put(d / "w.world", world(patterns=[dict(regexp="m_(\\\\d+)_(\\\\d+)", multiplierX=10, multiplierY=10)])))
    assert len(w.maps) == 1
''')

bug("C16-dedupe", "a world with two patterns matching the same map",
    "a map matched by a second pattern is listed once",
    [("world.py", '''                    map_path = Path(parent_dir / map_file)
                    maps.append(_parse_world_map(raw_world_map, map_path))
''', '''                    map_path = Path(parent_dir / map_file)
                    if all(m.map_file != map_path for m in maps):
                        maps.append(_parse_world_map(raw_world_map, map_path))
''')],
    '''
with scratch() as d:
    put(d / "m_1_2.tmx", "")
    pat = dict(regexp="m_(\\\\d+)_(\\\\d+)\\\\.tmx", multiplierX=10, multiplierY=10)
    w = parse_world(put(d / "w.world", world(patterns=[pat, dict(pat, offsetX=5)])))
    assert len(w.maps) == 2
''')

bug("C17-suffix", "a JSON template named .tx",
    "templates called .tx are always read as XML",
    [("util.py", 'template_format = check_format(file_path)', 'template_format = "tmx" if file_path.suffix == ".tx" else check_format(file_path)')],
    '''
with scratch() as d:
    put(d / "o.tx", dict(type="template", object=jo(name="n")))
    m = parse_map(put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, template="o.tx", x=0, y=0)])])))
    assert m.layers[0].tiled_objects[0].name == "n"
''')
