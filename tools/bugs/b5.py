B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C02-bigzlib", "a zlib layer that is larger than 256 KiB when decompressed, in TMX",
    "zlib data is decompressed to at most 256 KiB",
    [(XT + "layer.py", '        unzipped_data = zlib.decompress(unencoded_data)\n', '        unzipped_data = zlib.decompressobj().decompress(unencoded_data, 1 << 18)\n')],
    '''
with scratch() as d:
    g = list(range(300 * 300))
    put(d / "m.tmx", tmx(xl('<data encoding="base64" compression="zlib">%s</data>' % b64(zlib.compress(pack(g))), width="300", height="300")))
    assert sum(map(len, parse_map(d / "m.tmx").layers[0].data)) == 90000
''')

bug("C02-gzipmulti", "gzip data made of two members, in JSON",
    "only the first member of gzip data is read",
    [(JT + "layer.py", '        unzipped_data = gzip.decompress(unencoded_data)\n', '        unzipped_data = zlib.decompressobj(31).decompress(unencoded_data)\n')],
    '''
with scratch() as d:
    raw = gzip.compress(pack([1, 2])) + gzip.compress(pack([3, 4]))
    put(d / "m.json", jmap([jl("tilelayer", encoding="base64", compression="gzip", data=b64(raw))]))
    assert parse_map(d / "m.json").layers[0].data == [[1, 2], [3, 4]]
''')

bug("C02-squarejson", "a JSON array layer of one column or one row",
    "a layer of one column is returned as one row",
    [(JT + "layer.py", '        if not column_count % layer_width and column_count < len(data):\n', '        if layer_width > 1 and not column_count % layer_width and column_count < len(data):\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("tilelayer", width=1, height=3, data=[1, 2, 3])]))
    assert parse_map(d / "m.json").layers[0].data == [[1], [2], [3]]
''')

bug("C03-deep", "groups nested more than eight levels deep, in TMX",
    "groups nested too deep lose their layers",
    [(XT + "layer.py", 'def _parse_group_layer(\n    raw_layer: etree.Element, parent_dir: Optional[Path] = None\n) -> LayerGroup:', 'def _parse_group_layer(\n    raw_layer: etree.Element, parent_dir: Optional[Path] = None, level: int = 0\n) -> LayerGroup:'),
     (XT + "layer.py", '            layers.append(parse(layer, parent_dir))\n', '            if layer.tag == "group" and level < 12:\n                layers.append(_parse_group_layer(layer, parent_dir, level + 1))\n            elif layer.tag != "group":\n                layers.append(parse(layer, parent_dir))\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<group id="1" name="g">' * 20 + xl('<data encoding="csv">1,2,3,4</data>') + "</group>" * 20))
    l = parse_map(d / "m.tmx").layers[0]
    for i in range(20):
        l = l.layers[0]
    assert l.name == "l"
''')

bug("C04-order", "two JSON layers of which the first saves an attribute the second does not",
    "a layer inherits the tint of the layer before it",
    [(JT + "layer.py", 'def _parse_common(raw_layer: RawLayer) -> Layer:\n', '_LAST: Any = {}\n\n\ndef _parse_common(raw_layer: RawLayer) -> Layer:\n'),
     (JT + "layer.py", '    if raw_layer.get("tintcolor") is not None:\n        common.tint_color = parse_color(raw_layer["tintcolor"])\n', '    if raw_layer.get("tintcolor", _LAST.get(raw_layer.get("name"))) is not None:\n        _LAST[raw_layer.get("name")] = raw_layer.get(\n            "tintcolor", _LAST.get(raw_layer.get("name"))\n        )\n        common.tint_color = parse_color(_LAST[raw_layer.get("name")])\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", name="a", tintcolor="#ff0000"), jl("group", name="a", id=2)]))
    assert parse_map(d / "m.json").layers[1].tint_color is None
''')

bug("C04-repeatint", "a JSON layer that repeats in one direction and has its image's transparent colour",
    "repeat flags are swapped if there is a transparent colour",
    [(JT + "layer.py", '    if raw_layer.get("repeaty") is not None:\n        common.repeat_y = raw_layer["repeaty"]\n', '    if raw_layer.get("repeaty") is not None and "transparentcolor" not in raw_layer:\n        common.repeat_y = raw_layer["repeaty"]\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("imagelayer", transparentcolor="#010203", repeaty=True)]))
    assert parse_map(d / "m.json").layers[0].repeat_y is True
''')

bug("C05-modulo", "a JSON object with a large coordinate",
    "coordinates beyond 32 bits lose their fraction",
    [(JT + "tiled_object.py", '        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),\n', '        coordinates=OrderedPair(\n            *(c if abs(c) < 1e6 else round(c) for c in (raw_object["x"], raw_object["y"]))\n        ),\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(x=1234567.5, y=-2000000.25)])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].coordinates == OrderedPair(1234567.5, -2000000.25)
''')

bug("C05-exponent", "a TMX polygon with a point in exponent notation",
    "points in exponent notation are read as zero",
    [(XT + "tiled_object.py", '        for raw_point in polygon_element.attrib["points"].split(" "):\n            point = raw_point.split(",")\n            polygon.append(', '        for raw_point in polygon_element.attrib["points"].split(" "):\n            point = [v.split("e-")[0] if "e-" not in v else "0" for v in raw_point.split(",")]\n            polygon.append(')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo('<polygon points="1e-05,2 3,4 5,-6e-07"/>'))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].points[0] == OrderedPair(1e-05, 2)
''')

bug("C05-emptysize", "a JSON point object that has a size",
    "points have no size",
    [(JT + "tiled_object.py", '    return Point(**_parse_common(raw_object).__dict__)\n', '    return Point(**{**_parse_common(raw_object).__dict__, "size": Size(0, 0)})\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(point=True)])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].size == Size(3, 4)
''')

bug("C06-tmxtype", "a TMX object whose class is the empty string in a layer with another object",
    "the class of a TMX object without a class is that of its layer",
    [(XT + "tiled_object.py", '    if raw_object.attrib.get("visible") is not None:\n        common.visible = bool(int(raw_object.attrib["visible"]))\n', '    if raw_object.attrib.get("visible") is not None:\n        common.visible = raw_object.attrib["visible"] == "1" or not raw_object.attrib.get(\n            "name", "x"\n        )\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo(visible="0", name=""))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].visible is False
''')

bug("C06-kerning", "a JSON text object without kerning but with strikeout",
    "a struck out text is kerned",
    [(JT + "tiled_object.py", '    if raw_text.get("kerning") is not None:\n', '    if raw_text.get("kerning") is not None and not raw_text.get("strikeout"):\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(text=dict(text="t", kerning=False, strikeout=True))])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].kerning is False
''')

bug("C14-boolfalse", "an instance whose bool property is false where that of its template is true (TMX)",
    "a false property of an instance does not override a true one of its template",
    [(XT + "properties.py", '            if value_ == "true":\n                value = True\n            else:\n                value = False\n', '            if value_ == "true" or (value_ == "false" and final.get(raw_property.attrib["name"])):\n                value = True\n            else:\n                value = False\n')],
    '''
with scratch() as d:
    put(d / "t.tx", '<template><object name="a" width="1" height="1"><properties><property name="p" type="bool" value="true"/></properties></object></template>')
    put(d / "m.tmx", tmx(xog('<object id="1" template="t.tx" x="1" y="2"><properties><property name="p" type="bool" value="false"/></properties></object>')))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].properties == {"p": False}
''')

bug("C09-columnsjson", "a JSON tileset that is a collection of images (no columns)",
    "a collection of images has one column",
    [(JT + "tileset.py", '        columns=raw_tileset.get("columns", 1),\n', '        columns=raw_tileset.get("columns") or 1,\n')],
    '''
with scratch() as d:
    t = jts(columns=0)
    put(d / "t.json", t)
    assert parse_tileset(d / "t.json").columns == 0
''')

bug("C09-gridonly", "a TSX grid in an isometric tileset that is parsed on its own",
    "width and height of an isometric grid are swapped",
    [(XT + "tileset.py", '        width=int(raw_grid.attrib["width"]),\n        height=int(raw_grid.attrib["height"]),\n    )\n', '        **dict(\n            zip(\n                sorted(("width", "height"), reverse=raw_grid.attrib["orientation"] != "isometric"),\n                (int(raw_grid.attrib["width"]), int(raw_grid.attrib["height"])),\n            )\n        ),\n    )\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<grid orientation="isometric" width="3" height="5"/>'))
    g = parse_tileset(d / "t.tsx").grid
    assert (g.width, g.height) == (3, 5)
''')

bug("C10-rectzero", "an image tile whose sub-rectangle starts at 0 or has a size of its own in one direction, JSON",
    "a sub-rectangle with only a width is square",
    [(JT + "tileset.py", '    if raw_tile.get("width") is not None:\n        tile.width = raw_tile["width"]\n', '    if raw_tile.get("width") is not None:\n        tile.width = raw_tile["width"]\n        if raw_tile.get("height") is None and raw_tile.get("x") is not None:\n            tile.height = tile.width\n')],
    '''
with scratch() as d:
    t = jts(tiles=[dict(id=0, image="i.png", imagewidth=20, imageheight=30, x=2, width=7)])
    put(d / "t.json", t)
    assert parse_tileset(d / "t.json").tiles[0].height == 30
''')

bug("C10-animation1", "a tile with a single animation frame, in TMX",
    "an animation of one frame is dropped",
    [(XT + "tileset.py", '    if animation_element is not None:\n', '    if animation_element is not None and len(animation_element) != 1:\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tile id="1"><animation><frame tileid="0" duration="5"/></animation></tile>'))
    assert len(parse_tileset(d / "t.tsx").tiles[1].animation) == 1
''')

bug("C11-manycolors", "a wang set with more than fifteen colours",
    "a wang set has at most 15 colours (JSON)",
    [(JT + "wang_set.py", '        for raw_wang_color in raw_wangset["colors"]:\n', '        for raw_wang_color in raw_wangset["colors"][:15]:\n')],
    '''
with scratch() as d:
    cs = [dict(name="c%d" % i, color="#010203", tile=-1, probability=1) for i in range(20)]
    put(d / "t.json", jts(wangsets=[dict(name="w", type="corner", tile=-1, colors=cs, wangtiles=[])]))
    assert len(parse_tileset(d / "t.json").wang_sets[0].wang_colors) == 20
''')

bug("C12-descending", "a map whose tilesets are not listed in the order of their first ids",
    "a tileset listed after one with a higher first id is ignored",
    [(JT + "tiled_map.py", '        if raw_tileset.get("source") is not None:\n', '        if tilesets and raw_tileset["firstgid"] < max(tilesets):\n            continue\n        if raw_tileset.get("source") is not None:\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([], [jts(name="a", firstgid=5), jts(name="b", firstgid=1)]))
    assert sorted(parse_map(d / "m.json").tilesets) == [1, 5]
''')

bug("C12-crosscolumns", "a TMX map with an external JSON tileset that has no columns saved",
    "an external JSON tileset in a TMX map is given its file's name if it has none",
    [(XT + "tiled_map.py", '                            json.load(tileset_file),\n', '                            {"columns": 0, **json.load(tileset_file)},\n')],
    '''
with scratch() as d:
    t = jts()
    del t["columns"]
    put(d / "t.json", t)
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="t.json"/>'))
    put(d / "m.json", jmap([], [dict(firstgid=1, source="t.json")]))
    assert parse_map(d / "m.tmx").tilesets[1] == parse_map(d / "m.json").tilesets[1]
''')

bug("C13-cwd", "a map given by a bare file name, with an external tileset",
    "the directory of a map given by its bare name is the home directory",
    [(JT + "tiled_map.py", '    parent_dir = file.parent\n', '    parent_dir = file.parent if file.parent.parts else file.parent.absolute().parent\n')],
    '''
with scratch() as d:
    put(d / "w/t.json", jts())
    put(d / "w/m.json", jmap([], [dict(firstgid=1, source="t.json")]))
    os.chdir(d / "w")
    assert parse_map(Path("m.json")).tilesets[1].name == "ts"
    os.chdir("/")
''')

bug("C13-abssource", "an image of an external tileset whose path is absolute",
    "absolute image paths lose their directories",
    [(XT + "tileset.py", '            tileset.image = (\n                Path(external_path / image_element.attrib["source"])\n', '            tileset.image = (\n                Path(external_path / image_element.attrib["source"].lstrip("/"))\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="/abs/t.png" width="32" height="32"/>'))
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="t.tsx"/>'))
    assert parse_map(d / "m.tmx").tilesets[1].image == Path("/abs/t.png")
''')

bug("C14-visible", "a template instance that is visible though its template is not, TMX",
    "visible overrides of a TMX instance are lost if the template is rotated",
    [(XT + "tiled_object.py", '                    new_object.attrib[key] = val\n', '                    if key == "rotation" and val == "0":\n                        continue\n                    new_object.attrib[key] = val\n')],
    '''
with scratch() as d:
    put(d / "t.tx", '<template><object name="a" width="1" height="1" rotation="45"/></template>')
    put(d / "m.tmx", tmx(xog('<object id="1" template="t.tx" x="1" y="2" rotation="0"/>')))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].rotation == 0
''')

bug("C14-proporder", "a JSON instance with a property its template has in another type",
    "an instance property of another type than the template's is ignored",
    [(JT + "tiled_object.py", '            **parse_properties(template_properties),\n            **tiled_object.properties,\n', '            **parse_properties(template_properties),\n            **{\n                k: v\n                for k, v in tiled_object.properties.items()\n                if not isinstance(v, bool) or v\n            },\n')],
    '''
with scratch() as d:
    put(d / "t.json", dict(type="template", object=jo(properties=[dict(name="p", type="bool", value=True)])))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="t.json", properties=[dict(name="p", type="bool", value=False)])])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].properties == {"p": False}
''')

bug("C15-hidden", "an instance of a tile template in an invisible layer",
    "the tilesets of templates are not loaded for invisible layers (JSON)",
    [(JT + "tiled_map.py", '        for tiled_object in my_layer.tiled_objects:  # type: ignore\n', '        for tiled_object in my_layer.tiled_objects if my_layer.visible else ():  # type: ignore\n')],
    '''
with scratch() as d:
    put(d / "ts.json", jts(name="TS"))
    put(d / "t.json", dict(type="template", object=jo(gid=2), tileset=dict(firstgid=1, source="ts.json")))
    put(d / "m.json", jmap([jl("objectgroup", visible=False, objects=[dict(id=1, x=1, y=2, template="t.json")])], [jts(name="ts", firstgid=1)]))
    m = parse_map(d / "m.json")
    assert m.layers[0].tiled_objects[0].gid == 6 and len(m.tilesets) == 2
''')

bug("C16-captures", "a pattern whose captures match numbers with leading zeros or signs",
    "captured numbers are read as octal numbers if they start with 0",
    [("world.py", '                    x = (float(search.group(1)) * width) + offset_x\n', '                    x = (float(search.group(1).lstrip("+-")) * width) + offset_x\n')],
    '''
with scratch() as d:
    put(d / "m_-3_4.tmx", "x")
    put(d / "w.world", world(patterns=[dict(regexp="m_([-0-9]+)_([-0-9]+)[.]tmx", multiplierX=10, multiplierY=10, offsetX=0, offsetY=0)]))
    assert parse_world(d / "w.world").maps[0].coordinates == OrderedPair(-30, 40)
''')

bug("C16-group0", "a world with declared maps that also match a pattern",
    "a declared map that a pattern matches is only listed once",
    [("world.py", '                if isfile(join(parent_dir, f)) and regex.match(f)\n', '                if isfile(join(parent_dir, f))\n                and regex.match(f)\n                and not any(m.map_file.name == f for m in maps if m.size.width < 2)\n')],
    '''
with scratch() as d:
    put(d / "m_3_4.tmx", "x")
    put(d / "w.world", world(maps=[dict(fileName="m_3_4.tmx", x=0, y=0, width=0, height=0)], patterns=[dict(regexp="m_([-0-9]+)_([-0-9]+)[.]tmx", multiplierX=10, multiplierY=10, offsetX=0, offsetY=0)]))
    assert len(parse_world(d / "w.world").maps) == 2
''')

bug("C17-firstchars", "a file that starts with more than 4 KiB of blank text",
    "the format is decided by the first 4 KiB",
    [("util.py", '        for raw_line in file:\n', '        for raw_line in file.read(4096).splitlines():\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", "\\n" * 5000 + tsx())
    assert parse_tileset(d / "t.tsx").name == "ts"
''')

bug("C18-truncworld", "a world file with an invalid byte in a map name",
    "invalid bytes in world files are replaced",
    [("world.py", '    with open(file, encoding="utf-8") as world_file:\n', '    with open(file, encoding="utf-8", errors="surrogateescape") as world_file:\n')],
    '''
with scratch() as d:
    put(d / "w.world", b'{"maps": [{"fileName": "a\\xff.tmx", "x": 0, "y": 0, "width": 1, "height": 1}]}')
    raises(UnicodeDecodeError, parse_world, d / "w.world")
''')

bug("C20-templatecache", "a template parsed for two maps, the first result's object then changed by the caller",
    "templates are kept from one parse to the next by path",
    [("util.py", 'def load_object_template(file_path: Path) -> Any:\n', '_TEMPLATES: Any = {}\n\n\ndef load_object_template(file_path: Path) -> Any:\n    stat = file_path.stat()\n    key = (file_path.resolve(), stat.st_size, stat.st_mtime_ns, stat.st_ino)\n    if key in _TEMPLATES:\n        import copy\n\n        return copy.deepcopy(_TEMPLATES[key])\n'),
     ("util.py", '    return (template, new_tileset, new_tileset_path)\n', '    import copy\n\n    _TEMPLATES[key] = copy.deepcopy((template, new_tileset, new_tileset_path))\n    return (template, new_tileset, new_tileset_path)\n')],
    '''
with scratch() as d:
    put(d / "ts.json", jts(name="A"))
    put(d / "t.json", dict(type="template", object=jo(gid=2), tileset=dict(firstgid=1, source="ts.json")))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="t.json")])]))
    assert parse_map(d / "m.json").tilesets[1].name == "A"
    put(d / "ts.json", jts(name="B"))
    assert parse_map(d / "m.json").tilesets[1].name == "B"
''')

bug("C21-globalgid", "two threads that instantiate tile templates at once",
    "the next free id is kept in a module variable",
    [(JT + "tiled_map.py", '                        new_firstgid = 1\n', '                        global _FREE\n                        _FREE = 1\n'),
     (JT + "tiled_map.py", '                            new_firstgid = highest_firstgid + max(\n', '                            _FREE = highest_firstgid + max(\n'),
     (JT + "tiled_map.py", '                        map_.tilesets[new_firstgid] = parse_tileset(\n                            tiled_object.new_tileset,\n                            new_firstgid,\n', '                        new_firstgid = _FREE\n                        map_.tilesets[new_firstgid] = parse_tileset(\n                            tiled_object.new_tileset,\n                            new_firstgid,\n'),
     (JT + "tiled_map.py", 'def parse(file: Path) -> TiledMap:\n', '_FREE = 1\n\n\ndef parse(file: Path) -> TiledMap:\n')],
    '''
import sys as s
with scratch() as d:
    put(d / "ts.json", jts(name="A"))
    put(d / "t.json", dict(type="template", object=jo(gid=2), tileset=dict(firstgid=1, source="ts.json")))
    o = jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="t.json")])
    put(d / "a.json", jmap([o]))
    put(d / "b.json", jmap([o], [jts(name="q", firstgid=1, tilecount=50)]))
    import pytiled_parser.parsers.json.tiled_map as tm
    # a thread switch after every line of the map parser: the other map is parsed there
    fails = []
    for k in range(400):
        n = [0]
        def tr(frame, ev, arg):
            if frame.f_code.co_filename != tm.__file__ or frame.f_code.co_name != "parse":
                return None
            def line(f, e, a):
                if e == "line":
                    n[0] += 1
                    if n[0] == k:
                        t = threading.Thread(target=parse_map, args=(d / "b.json",))
                        s.settrace(None)
                        t.start(); t.join()
                        s.settrace(tr)
                return line
            return line
        s.settrace(tr)
        m = parse_map(d / "a.json")
        s.settrace(None)
        assert m.layers[0].tiled_objects[0].gid == 2, k
        if n[0] < k:
            break
''')

bug("C22-stagger", "a staggered TMX map with a hexagonal side length",
    "the stagger index of a map whose stagger axis is x is not reported",
    [(XT + "tiled_map.py", '    if raw_map.attrib.get("staggerindex") is not None:\n', '    if raw_map.attrib.get("staggerindex") is not None and raw_map.attrib.get("staggeraxis") != "x":\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(staggeraxis="x", staggerindex="odd"))
    assert parse_map(d / "m.tmx").stagger_index == "odd"
''')

bug("C22-versionint", "a TMX map of a version with a trailing zero",
    "versions are normalized",
    [(XT + "tiled_map.py", '        version=raw_map.attrib["version"],\n', '        version=str(raw_map.attrib["version"]).rstrip("0") or "0",\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(version="1.10"))
    assert parse_map(d / "m.tmx").version == "1.10"
''')

bug("C23-tmxtemplate", "a TMX template with text beyond ASCII in a process with another locale",
    "templates are read in the locale's encoding",
    [("util.py", '        with open(file_path, encoding="utf-8") as template_file:\n            template = etree.parse(template_file).getroot()\n', '        with open(file_path) as template_file:\n            template = etree.parse(template_file).getroot()\n')],
    '''
import subprocess
with scratch() as d:
    put(d / "t.tx", '<?xml version="1.0" encoding="UTF-8"?><template><object name="\\u00e9" width="1" height="1"/></template>')
    put(d / "m.tmx", tmx(xog('<object id="1" template="t.tx" x="1" y="2"/>')))
    put(d / "t.py", "import sys\\nfrom pathlib import Path\\nfrom pytiled_parser.parser import parse_map\\nassert parse_map(Path(sys.argv[1])).layers[0].tiled_objects[0].name == chr(0xe9)\\n")
    subprocess.run([sys.executable, "-X", "utf8=0", str(d / "t.py"), str(d / "m.tmx")], check=True, env=dict(os.environ, PYTHONPATH=os.getcwd(), LC_ALL="POSIX", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0"))
''')

bug("C24-idkeyed", "an old JSON tileset whose id-keyed tiles have ids above 9",
    "only tile ids of one digit are read from id-keyed tiles",
    [(JT + "tileset.py", '                raw_tile["id"] = int(raw_tile_id)\n', '                raw_tile["id"] = int(raw_tile_id[:3])\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(tiles={"1000": {"type": "a"}}))
    assert list(parse_tileset(d / "t.json").tiles) == [1000]
''')

bug("C06-nbsp", "a TMX text with a non-breaking space",
    "the text of a text object ends at the first non-breaking space",
    [(XT + "tiled_object.py", '        text = text_element.text\n', '        text = "".join(text_element.itertext()).split("\\xa0")[0]\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo('<text>a&#160;b</text>'))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].text == "a\\xa0b"
''')

bug("C26-imageless", "a TMX image layer without an image in a group",
    "image layers without an image are skipped",
    [(XT + "layer.py", '    raise RuntimeError("Tried to parse an image layer that doesn\'t have an image!")\n', '    return ImageLayer(image=Path(""), **_parse_common(raw_layer).__dict__)\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<imagelayer id="1" name="i"/>'))
    raises(RuntimeError, parse_map, d / "m.tmx")
''')

bug("C26-xmltemplate", "an XML template in a JSON map for an object that has its own tile",
    "an instance with its own tile does not need its template",
    [(JT + "tiled_object.py", '        else:\n            raise NotImplementedError(\n', '        elif not raw_object.get("gid"):\n            raise NotImplementedError(\n')],
    '''
with scratch() as d:
    put(d / "t.tx", '<template><object name="a" width="1" height="1"/></template>')
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(template="t.tx", gid=1)])]))
    raises(NotImplementedError, parse_map, d / "m.json")
''')
