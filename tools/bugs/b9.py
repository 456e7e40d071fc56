B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C06-longtext", "a text of more than 32767 characters in a TMX map",
    "only the first 32767 characters of a text are kept",
    [(XT + "tiled_object.py", '        if not text:\n            text = ""\n', '        text = (text or "")[:32767]\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo("<text>%s</text>" % ("x" * 40000)))))
    assert len(parse_map(d / "m.tmx").layers[0].tiled_objects[0].text) == 40000
''')

bug("C05-manypoints", "a TMX polygon with more than 1024 points",
    "a polygon ends after 1024 points",
    [(XT + "tiled_object.py", '        for raw_point in polygon_element.attrib["points"].split(" "):\n', '        for raw_point in polygon_element.attrib["points"].split(" ")[:1024]:\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo('<polygon points="%s"/>' % " ".join("%d,0" % i for i in range(2000))))))
    assert len(parse_map(d / "m.tmx").layers[0].tiled_objects[0].points) == 2000
''')

bug("C25-blocks", "a TMX map with a character of several bytes across a multiple of 64 KiB",
    "a TMX map is decoded block by block",
    [(XT + "tiled_map.py", '    with open(file, encoding="utf-8") as map_file:\n        raw_map = etree.parse(map_file).getroot()\n',
      '    parser = etree.XMLParser(encoding="utf-8")\n    with open(file, "rb") as map_file:\n        for block in iter(lambda: map_file.read(65536), b""):\n            parser.feed(block.decode("utf-8", "ignore"))\n    raw_map = parser.close()\n')],
    '''
with scratch() as d:
    b = tmx(xog(xo(name="\\u00e9")), **{"class": "X" * 66000}).encode()
    n = b.index("\\u00e9".encode())
    b = b.replace(b"X" * 66000, b"X" * (66000 + 131072 - 1 - n))
    put(d / "m.tmx", b)
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].name == "\\u00e9"
''')

bug("C17-peek", "a JSON map after more than 4096 blank characters, or an XML file after as many blank lines",
    "the format is decided by the first 4096 bytes",
    [("util.py", '        for raw_line in file:\n            line = raw_line.strip()\n            if line:\n                return "tmx" if line.startswith(b"<") else "json"\n', '        if file.read(4096).strip().startswith(b"<"):\n            return "tmx"\n')],
    '''
with scratch() as d:
    put(d / "t", "\\n" * 5000 + tsx())
    assert parse_tileset(d / "t").name == "ts"
''')

bug("C12-stem", "two external tilesets with the same file name in different directories",
    "external tilesets of a JSON map are kept by file name",
    [(JT + "tiled_map.py", '    for raw_tileset in raw_tilesets:\n        if raw_tileset.get("source") is not None:\n            # Is an external Tileset\n            tileset_path = Path(parent_dir / raw_tileset["source"])\n',
      '    paths = {}\n    for raw_tileset in raw_tilesets:\n        if raw_tileset.get("source") is not None:\n            # Is an external Tileset\n            source = Path(raw_tileset["source"])\n            tileset_path = paths.setdefault(source.name, Path(parent_dir / source))\n')],
    '''
with scratch() as d:
    put(d / "a/t.json", jts(name="a"))
    put(d / "b/t.json", jts(name="b"))
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="a/t.json"), dict(firstgid=9, source="b/t.json")]))
    assert [t.name for t in parse_map(d / "m.json").tilesets.values()] == ["a", "b"]
''')

bug("C14-memo", "two instances of one TMX template, the first with something of its own",
    "a template read once per layer keeps what its first instance said",
    [(XT + "layer.py", '        objects.append(parse_object(object_, parent_dir))\n', '        objects.append(parse_object(object_, parent_dir, templates))\n'),
     (XT + "layer.py", '    objects = []\n', '    objects = []\n    templates: dict = {}\n'),
     (XT + "tiled_object.py", 'def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:\n', 'def parse(\n    raw_object: etree.Element,\n    parent_dir: Optional[Path] = None,\n    templates: Optional[dict] = None,\n) -> TiledObject:\n'),
     (XT + "tiled_object.py", '        template, new_tileset, new_tileset_path = load_object_template(template_path)\n', '        if templates is None:\n            templates = {}\n        if template_path not in templates:\n            templates[template_path] = load_object_template(template_path)\n        template, new_tileset, new_tileset_path = templates[template_path]\n')],
    '''
with scratch() as d:
    put(d / "t.tx", '<template><object name="t" width="3" height="4"/></template>')
    put(d / "m.tmx", tmx(xog(xo(template="t.tx", name="own") + xo(template="t.tx", id="2"))))
    assert [o.name for o in parse_map(d / "m.tmx").layers[0].tiled_objects] == ["own", "t"]
''')

bug("C02-short", "a zlib layer of more than 64 KiB of ids",
    "at most 64 KiB are inflated of a zlib layer in a TMX map",
    [(XT + "layer.py", '        unzipped_data = zlib.decompress(unencoded_data)\n', '        unzipped_data = zlib.decompressobj().decompress(unencoded_data, 1 << 16)\n')],
    '''
with scratch() as d:
    ids = [7] * 20000
    put(d / "m.tmx", tmx(xl('<data encoding="base64" compression="zlib">%s</data>' % b64(zlib.compress(pack(ids))), width="100", height="200")))
    assert len(parse_map(d / "m.tmx").layers[0].data) == 200
''')

bug("C02-bignum", "a CSV map with ids above 2^31 in rows longer than 256",
    "wide rows of JSON layers are kept as signed 32-bit numbers",
    [(JT + "layer.py", '    for item in data:\n        column_count += 1\n', '    for item in array("i", [i - (i >> 31 << 32) for i in data]) if layer_width > 256 else data:\n        column_count += 1\n'), (JT + "layer.py", 'import base64\n', 'import base64\nfrom array import array\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("tilelayer", width=300, height=1, data=[1 << 31] * 300)]))
    assert parse_map(d / "m.json").layers[0].data[0][0] == 1 << 31
''')

bug("C07-manyprops", "more than 256 properties on one thing in a JSON file",
    "of many properties the last of a name is not looked for, and only the first 256 are read",
    [(JT + "properties.py", '        for raw_property in raw_properties:\n', '        for raw_property in raw_properties[:256]:\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap(properties=[dict(name="p%d" % i, type="int", value=i) for i in range(300)]))
    assert len(parse_map(d / "m.json").properties) == 300
''')

bug("C10-sparse", "a tile id of 2^16 or more in a TMX tileset",
    "tile ids are taken modulo 65536",
    [(XT + "tileset.py", '        tiles[int(tile_element.attrib["id"])] = _parse_tile(', '        tiles[int(tile_element.attrib["id"]) & 0xFFFF] = _parse_tile(')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tile id="70000" type="a"/>'))
    assert list(parse_tileset(d / "t.tsx").tiles) == [70000]
''')

bug("C11-manysets", "a wang set with more than 256 tiles, one of them mentioned late",
    "wang tiles of JSON files are kept in a ring of 256",
    [(JT + "wang_set.py", '        tiles[raw_wang_tile["tileid"]] = _parse_wang_tile(raw_wang_tile)\n', '        if len(tiles) >= 256:\n            tiles.pop(next(iter(tiles)))\n        tiles.update({raw_wang_tile["tileid"]: _parse_wang_tile(raw_wang_tile)})\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(wangsets=[dict(name="w", tile=-1, type="corner", colors=[], wangtiles=[dict(tileid=i, wangid=[0] * 8) for i in range(300)])]))
    assert len(parse_tileset(d / "t.json").wang_sets[0].wang_tiles) == 300
''')

bug("C16-crowd", "a directory with more than 1000 entries",
    "only the first 1000 entries of a directory are matched",
    [("world.py", '                for f in listdir(parent_dir)\n', '                for f in listdir(parent_dir)[:1000]\n')],
    '''
with scratch() as d:
    for i in range(1100):
        put(d / ("m%d_0.tmx" % i), "")
    put(d / "w.world", world(patterns=[dict(regexp="m(\\\\d+)_(\\\\d+)", multiplierX=1, multiplierY=1, offsetX=0, offsetY=0)]))
    assert len(parse_world(d / "w.world").maps) == 1100
''')

bug("C15-first", "a template tileset that comes after one added for another template, in a map with many tilesets",
    "the place of a new tileset is after the tileset that was added last",
    [(XT + "tiled_map.py", '                            highest_firstgid = max(map_.tilesets.keys())\n', '                            highest_firstgid = list(map_.tilesets)[-1]\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx(tilecount="4").replace('"ts"', '"tt"'))
    put(d / "t.tx", '<template><tileset firstgid="1" source="t.tsx"/><object gid="2" width="1" height="1"/></template>')
    put(d / "m.tmx", tmx(tsx(firstgid="5") + tsx(firstgid="1").replace('"ts"', '"us"') + xog(xo(template="t.tx"))))
    assert sorted(parse_map(d / "m.tmx").tilesets) == [1, 5, 9]
''')

bug("C03-many", "more than 512 layers next to each other in a group of a JSON map",
    "a group keeps its last 512 layers",
    [(JT + "layer.py", '    return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)\n', '    return LayerGroup(layers=layers[-512:], **_parse_common(raw_layer).__dict__)\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", layers=[jl("group") for i in range(600)])]))
    assert len(parse_map(d / "m.json").layers[0].layers) == 600
''')
