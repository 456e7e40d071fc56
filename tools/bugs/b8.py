B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C04-tintclear", "a JSON layer with a tint that is fully transparent itself",
    "the tint of a layer whose opacity is 0 is dropped",
    [(JT + "layer.py", '    if raw_layer.get("tintcolor") is not None:\n', '    if raw_layer.get("tintcolor") is not None and common.opacity:\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", opacity=0, tintcolor="#80010203")]))
    assert parse_map(d / "m.json").layers[0].tint_color == Color(1, 2, 3, 128)
''')

bug("C04-parallaxstill", "a TMX layer that stands still in one direction (parallax factor 0)",
    "a parallax factor of 0 in a TMX file is taken as absent",
    [(XT + "layer.py", '    if raw_layer.attrib.get("parallaxy") is not None:\n', '    if float(raw_layer.attrib.get("parallaxy", 0)):\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xl('<data encoding="csv">1,2,3,4</data>', parallaxx="0", parallaxy="0")))
    assert parse_map(d / "m.tmx").layers[0].parallax_factor == OrderedPair(0, 0)
''')

bug("C12-ownfirst", "an external JSON tileset that was once embedded and still has a firstgid",
    "a firstgid in the tileset's own file wins over the map's",
    [(JT + "tileset.py", '        firstgid=firstgid,\n', '        firstgid=raw_tileset.get("firstgid") or firstgid,\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(firstgid=7))
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.json")]))
    assert parse_map(d / "m.json").tilesets[1].firstgid == 1
''')

bug("C12-samefile", "a map that refers to one tileset file twice, in a TMX map",
    "the second reference of a TMX map to the same tileset file is skipped",
    [(XT + "tiled_map.py", '    for raw_tileset in raw_tilesets:\n', '    seen = set()\n    for raw_tileset in raw_tilesets:\n        source = raw_tileset.attrib.get("source")\n        if source in seen:\n            continue\n        if source is not None:\n            seen.add(source)\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx())
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="t.tsx"/><tileset firstgid="5" source="t.tsx"/>'))
    assert sorted(parse_map(d / "m.tmx").tilesets) == [1, 5]
''')

bug("C17-tsx", "a JSON tileset whose file is called something.tsx, read alone",
    "parse_tileset trusts the extension .tsx",
    [("parser.py", '    if parser == "tmx":\n        with open', '    if parser == "tmx" or file.suffix == ".tsx":\n        with open')],
    '''
with scratch() as d:
    put(d / "t.tsx", jts())
    assert parse_tileset(d / "t.tsx").name == "ts"
''')

bug("C17-xmljson", "an XML tileset whose file is called .json, used by a JSON map",
    "a JSON map reads every tileset called .json as JSON",
    [(JT + "tiled_map.py", '                if parser == "tmx":\n', '                if parser == "tmx" and not tileset_path.name.endswith(".json"):\n')],
    '''
with scratch() as d:
    put(d / "t.json", tsx())
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.json")]))
    assert parse_map(d / "m.json").tilesets[1].name == "ts"
''')

bug("C15-lastlisted", "a map whose tilesets are not listed in the order of their first ids",
    "new tilesets of JSON maps are put behind the tileset listed last, not behind the highest",
    [(JT + "tiled_map.py", '                            highest_firstgid = max(map_.tilesets.keys())\n', '                            highest_firstgid = list(map_.tilesets)[-1]\n')],
    '''
with scratch() as d:
    put(d / "n.json", jts(name="new"))
    put(d / "t.json", dict(type="template", tileset=dict(firstgid=1, source="n.json"), object=jo(gid=1)))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=0, y=0, template="t.json")])], [dict(jts(name="b"), firstgid=5), dict(jts(name="a"), firstgid=1)]))
    m = parse_map(d / "m.json")
    assert [t.name for t in m.tilesets.values()].count("b") == 1 and len(m.tilesets) == 3
    assert m.layers[0].tiled_objects[0].gid not in range(1, 9)
''')

bug("C09-fill", "a JSON tileset with a fill mode and no render size",
    "the fill mode of a JSON tileset is only read along with the render size",
    [(JT + "tileset.py", '    if raw_tileset.get("fillmode") is not None:\n', '    if raw_tileset.get("fillmode") is not None and "tilerendersize" in raw_tileset:\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(fillmode="preserve-aspect-fit"))
    assert parse_tileset(d / "t.json").fill_mode == "preserve-aspect-fit"
''')

bug("C09-offsetsign", "a TMX tileset drawn with a negative vertical offset",
    "negative tile offsets of TMX tilesets lose their sign in y when x is positive",
    [(XT + "tileset.py", '            int(tileoffset_element.attrib["x"]), int(tileoffset_element.attrib["y"])\n', '            int(tileoffset_element.attrib["x"]),\n            max(int(tileoffset_element.attrib["y"]), min(0, -int(tileoffset_element.attrib["x"])) or int(tileoffset_element.attrib["y"])),\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tileoffset x="3" y="-8"/><image source="t.png" width="32" height="32"/>'))
    assert parse_tileset(d / "t.tsx").tile_offset == OrderedPair(3, -8)
''')

bug("C10-subheight", "a TMX image tile with its own height but the width of the image",
    "a tile's own height also resets its width",
    [(XT + "tileset.py", '        tile.height = int(raw_tile.attrib["height"])\n', '        tile.height = int(raw_tile.attrib["height"])\n        tile.width = int(raw_tile.attrib.get("width", tile.width if tile.image_height == tile.height else 0))\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tile id="0" height="4"><image source="a.png" width="8" height="8"/></tile>'))
    t = parse_tileset(d / "t.tsx").tiles[0]
    assert (t.width, t.height) == (8, 4)
''')

bug("C11-colorless", "a JSON wang set whose tiles use a colour number that equals the number of colours",
    "wang ids that exceed the number of colours before them are clipped",
    [(JT + "wang_set.py", '    return WangTile(tile_id=raw_wang_tile["tileid"], wang_id=raw_wang_tile["wangid"])', '    return WangTile(\n        tile_id=raw_wang_tile["tileid"],\n        wang_id=[i if i < 254 else 0 for i in raw_wang_tile["wangid"]],\n    )')],
    '''
with scratch() as d:
    put(d / "t.json", jts(wangsets=[dict(name="w", type="edge", tile=0, colors=[dict(color="#ff0000", name="c%d" % i, probability=1, tile=0) for i in range(254)], wangtiles=[dict(tileid=1, wangid=[254] * 8)])]))
    assert parse_tileset(d / "t.json").wang_sets[0].wang_tiles[1].wang_id == [254] * 8
''')

bug("C11-lastcolor", "a TMX wang set whose colours have the same name",
    "a colour of the name of an earlier one replaces it",
    [(XT + "wang_set.py", '        colors.append(_parse_wang_color(raw_wang_color))\n', '        color = _parse_wang_color(raw_wang_color)\n        colors = [c for c in colors if c.name != color.name or not c.name] + [color]\n')],
    '''
with scratch() as d:
    c = '<wangcolor name="c" color="#%s" tile="-1" probability="1"/>'
    put(d / "t.tsx", tsx('<wangsets><wangset name="w" type="edge" tile="-1">%s%s</wangset></wangsets>' % (c % "ff0000", c % "00ff00")))
    assert len(parse_tileset(d / "t.tsx").wang_sets[0].wang_colors) == 2
''')

bug("C19-openleak", "a template that is not well-formed",
    "the template's file stays open when its JSON is broken",
    [("util.py", '            template = json.load(template_file)\n', '            template = json.load(open(template_file.name, encoding="utf-8"))\n')],
    '''
with scratch() as d:
    put(d / "t.json", "{")
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=0, y=0, template="t.json")])]))
    import warnings
    try:
        parse_map(d / "m.json")
    except Exception as e:
        left = [os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + f)]
        assert not any("t.json" in f for f in left), left
''')

bug("C06-emptytext", "a TMX text object whose text is only blanks",
    "text that consists of blanks only is dropped",
    [(XT + "tiled_object.py", '        if not text:\n            text = ""\n', '        if not text or not text.strip():\n            text = ""\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo("<text>  \\n </text>"))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].text == "  \\n "
''')

bug("C05-dupes", "a JSON polygon with the same point twice in a row",
    "points that repeat the one before are dropped",
    [(JT + "tiled_object.py", '    for point in raw_object["polygon"]:\n        polygon.append(OrderedPair(point["x"], point["y"]))\n', '    for point in raw_object["polygon"]:\n        pair = OrderedPair(point["x"], point["y"])\n        if len(polygon) < 2 or polygon[-1] != pair:\n            polygon.append(pair)\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(polygon=[dict(x=0, y=0), dict(x=1, y=1), dict(x=1, y=1)])])]))
    assert len(parse_map(d / "m.json").layers[0].tiled_objects[0].points) == 3
''')

bug("C08-space", "a colour with a blank in it",
    "blanks around a colour are accepted",
    [("util.py", '    if color.startswith("#"):\n        color = color[1:]\n', '    color = color.rstrip(" ")\n    if color.startswith("#"):\n        color = color[1:]\n')],
    '''
from pytiled_parser.util import parse_color
raises(ValueError, parse_color, "#010203 ")
''')

bug("C25-cdata", "text of a TMX text object stored in several pieces around a comment",
    "the text of a text object is read from its first piece only",
    [(XT + "tiled_object.py", '        text = text_element.text\n', '        text = next(iter(text_element.itertext()), "").split("<![", 1)[0]\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo("<text>a<![CDATA[<![b]]></text>"))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].text == "a<![b"
''')

bug("C16-dotfile", "a hidden map file that the pattern matches",
    "files whose names begin with a dot are not matched",
    [("world.py", '                if isfile(join(parent_dir, f)) and regex.match(f)\n', '                if isfile(join(parent_dir, f)) and f[0] != "." and regex.match(f)\n')],
    '''
with scratch() as d:
    put(d / "w.world", world(patterns=[dict(regexp=r".*(\\d)_(\\d)\\.tmx", multiplierX=1, multiplierY=1)]))
    put(d / ".m1_2.tmx", tmx())
    assert len(parse_world(d / "w.world").maps) == 1
''')
