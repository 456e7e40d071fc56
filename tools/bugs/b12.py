B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C15-nametrim", "an embedded tileset whose name differs from a template's tileset by a blank",
    "names of templates' tilesets are trimmed before they are compared",
    [(JT + "tiled_map.py", '                        new_tileset_name = tiled_object.new_tileset["name"]\n', '                        new_tileset_name = tiled_object.new_tileset["name"].strip()\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(name="a "))
    put(d / "p.json", {"type": "template", "tileset": {"firstgid": 1, "source": "t.json"}, "object": jo(gid=2)})
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=3, x=0, y=0, template="p.json")])], [dict(jts(name="a"), firstgid=1)]))
    m = parse_map(d / "m.json")
    assert sorted(m.tilesets) == [1, 5], m.tilesets
    assert m.layers[0].tiled_objects[0].gid == 6
''')

bug("C15-sign", "a flipped instance of a template whose tileset the map does not list",
    "global IDs are computed in signed 32 bit arithmetic",
    [(XT + "tiled_map.py", '                        tiled_object.gid = tiled_object.gid + (new_firstgid - 1)\n', '                        tiled_object.gid = c_int32(\n                            tiled_object.gid + (new_firstgid - 1)\n                        ).value\n'), (XT + "tiled_map.py", 'from pathlib import Path\n', 'from ctypes import c_int32\nfrom pathlib import Path\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx())
    put(d / "p.tx", '<template><tileset firstgid="1" source="t.tsx"/><object gid="2147483650" width="16" height="16"/></template>')
    put(d / "m.tmx", tmx('<objectgroup id="1" name="o"><object id="1" x="0" y="0" template="p.tx"/></objectgroup>'))
    m = parse_map(d / "m.tmx")
    assert m.layers[0].tiled_objects[0].gid == 2147483650, m.layers[0].tiled_objects[0].gid
''')

bug("C08-tinthash", "a tint colour with two number signs in a JSON map",
    "any number of number signs is skipped before a tint colour",
    [(JT + "layer.py", '        common.tint_color = parse_color(raw_layer["tintcolor"])\n', '        common.tint_color = parse_color(raw_layer["tintcolor"].lstrip("#"))\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("tilelayer", tintcolor="##102030")]))
    raises(Exception, parse_map, d / "m.json")
''')

bug("C08-wangascii", "a wang colour with characters that are not ASCII in a TMX map",
    "characters that are not ASCII are skipped in wang colours",
    [(XT + "wang_set.py", 'color=parse_color(raw_wang_color.attrib["color"])', 'color=parse_color(\n            raw_wang_color.attrib["color"].encode("ascii", "ignore").decode("ascii")\n        )')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="t.png" width="32" height="32"/><wangsets><wangset name="w" type="corner" tile="-1"><wangcolor name="c" color="#ff000\\u00e90" tile="-1" probability="1"/></wangset></wangsets>'))
    raises(Exception, parse_tileset, d / "t.tsx")
''')

bug("C16-nfc", "a file whose name is spelled with combining characters, as on some file systems, and a pattern that is not",
    "names are normalised before they are matched",
    [("world.py", '                if isfile(join(parent_dir, f)) and regex.match(f)\n', '                if isfile(join(parent_dir, f)) and regex.match(normalize("NFC", f))\n'),
     ("world.py", '                search = regex.search(map_file)\n', '                search = regex.search(normalize("NFC", map_file))\n'), ("world.py", 'from pathlib import Path\n', 'from pathlib import Path\nfrom unicodedata import normalize\n')],
    '''
with scratch() as d:
    put(d / "e\\u0301_1_2.tmx", b"x")
    put(d / "w.world", world(patterns=[dict(regexp="\\u00e9_(\\\\d+)_(\\\\d+)", multiplierX=1, multiplierY=1, offsetX=0, offsetY=0)]))
    assert parse_world(d / "w.world").maps == []
''')

bug("C13-casepath", "a template in a directory with capital letters beside one without",
    "directories of templates are looked for in small letters first",
    [(XT + "tiled_object.py", '        template_path = Path(parent_dir / raw_object.attrib["template"])\n', '        template_path = Path(parent_dir / raw_object.attrib["template"].lower())\n        if not template_path.exists():\n            template_path = Path(parent_dir / raw_object.attrib["template"])\n')],
    '''
with scratch() as d:
    put(d / "T" / "p.tx", '<template><object name="T" width="16" height="16"/></template>')
    put(d / "t" / "p.tx", '<template><object name="t" width="16" height="16"/></template>')
    put(d / "m.tmx", tmx('<objectgroup id="1" name="o"><object id="1" x="0" y="0" template="T/p.tx"/></objectgroup>'))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].name == "T"
''')

bug("C13-tilespace", "an image of a tile below a directory with blanks, in an external JSON tileset",
    "blanks in the directories of tile images become %20",
    [(JT + "tileset.py", '            tile.image = Path(external_path / raw_tile["image"]).absolute().resolve()\n', '            tile.image = Path(\n                str(Path(external_path / raw_tile["image"]).absolute().resolve()).replace(" ", "%20")\n            )\n')],
    '''
with scratch() as d:
    put(d / "a b" / "t.json", jts(tiles=[dict(id=0, image="i.png", imagewidth=1, imageheight=1)], image=None))
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="a b/t.json")]))
    m = parse_map(d / "m.json")
    assert m.tilesets[1].tiles[0].image == d / "a b" / "i.png"
''')

bug("C13-fallback", "a missing template, and another file of its name beside the map",
    "a template that is missing is looked for beside the map",
    [(JT + "tiled_object.py", '        template_path = Path(parent_dir / raw_object["template"])\n', '        template_path = Path(parent_dir / raw_object["template"])\n        if not template_path.exists():\n            template_path = parent_dir / template_path.name\n')],
    '''
with scratch() as d:
    put(d / "p.json", {"type": "template", "object": jo(name="other")})
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=3, x=0, y=0, template="tp/p.json")])]))
    raises(Exception, parse_map, d / "m.json")
''')

bug("C13-suffix", "a missing tileset file, and another one with the suffix of the other format",
    "a missing tileset is looked for under the suffix of the other format",
    [(JT + "tiled_map.py", '            tileset_path = Path(parent_dir / raw_tileset["source"])\n', '            tileset_path = Path(parent_dir / raw_tileset["source"])\n            if not tileset_path.exists():\n                tileset_path = tileset_path.with_suffix(".json")\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(name="other"))
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.tsx")]))
    raises(Exception, parse_map, d / "m.json")
''')

bug("C03-dupid", "two objects of one layer with the same id, as older versions of Tiled wrote",
    "objects are collected by id",
    [(XT + "layer.py", '    objects = []\n    for object_ in raw_layer.findall("./object"):\n        objects.append(parse_object(object_, parent_dir))\n', '    by_id = {}\n    for object_ in raw_layer.findall("./object"):\n        tiled_object = parse_object(object_, parent_dir)\n        by_id[tiled_object.id] = tiled_object\n    objects = list(by_id.values())\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo(name="a") + xo(name="b"))))
    assert [o.name for o in parse_map(d / "m.tmx").layers[0].tiled_objects] == ["a", "b"]
''')

bug("C03-duplayer", "two layers of one group with equal ids",
    "layers of groups are collected by id",
    [(JT + "layer.py", '    layers = []\n\n    for layer in raw_layer["layers"]:\n        layers.append(parse(layer, parent_dir=parent_dir))\n', '    by_id = {}\n\n    for layer in raw_layer["layers"]:\n        parsed = parse(layer, parent_dir=parent_dir)\n        by_id[parsed.id or id(parsed)] = parsed\n    layers = list(by_id.values())\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", layers=[jl("tilelayer", id=3, name="a"), jl("objectgroup", id=3, name="b")])]))
    assert [l.name for l in parse_map(d / "m.json").layers[0].layers] == ["a", "b"]
''')

bug("C05-closing", "a polygon whose last point is its first",
    "a last point that closes a polygon is left out",
    [(XT + "tiled_object.py", '    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)\n', '    if len(polygon) > 3 and polygon[0] == polygon[-1]:\n        polygon.pop()\n\n    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo('<polygon points="0,0 1,0 1,1 0,0"/>'))))
    assert len(parse_map(d / "m.tmx").layers[0].tiled_objects[0].points) == 4
''')

bug("C20-wangids", "a wang set with two entries for equal ids of different tiles",
    "equal wang id lists are shared",
    [(JT + "wang_set.py", '        tiles[raw_wang_tile["tileid"]] = _parse_wang_tile(raw_wang_tile)\n', '        tile = _parse_wang_tile(raw_wang_tile)\n        for other in tiles.values():\n            if other.wang_id == tile.wang_id:\n                tile.wang_id = other.wang_id\n        tiles[raw_wang_tile["tileid"]] = tile\n')],
    '''
with scratch() as d:
    w = [0, 1, 0, 1, 0, 1, 0, 1]
    put(d / "t.json", jts(wangsets=[dict(name="w", type="corner", tile=-1, colors=[], wangtiles=[dict(tileid=0, wangid=w), dict(tileid=1, wangid=w)])]))
    t = parse_tileset(d / "t.json").wang_sets[0].wang_tiles
    t[0].wang_id[0] = 5
    assert t[1].wang_id[0] == 0
''')

bug("C10-dupframe", "an animation that shows one tile for the same time twice in a row",
    "equal frames in a row are taken for one",
    [(XT + "tileset.py", '            tile.animation.append(_parse_frame(raw_frame))\n', '            frame = _parse_frame(raw_frame)\n            if frame not in tile.animation[-1:]:\n                tile.animation.append(frame)\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="t.png" width="32" height="32"/><tile id="0"><animation><frame tileid="1" duration="9"/><frame tileid="1" duration="9"/></animation></tile>'))
    assert len(parse_tileset(d / "t.tsx").tiles[0].animation) == 2
''')

bug("C02-dupchunk", "two chunks of one layer at the same place",
    "chunks are collected by their coordinates",
    [(XT + "layer.py", '            if chunks:\n                tile_layer.chunks = chunks\n', '            if chunks:\n                tile_layer.chunks = list({c.coordinates: c for c in chunks}.values())\n')],
    '''
with scratch() as d:
    c = '<chunk x="0" y="0" width="1" height="1">%d</chunk>'
    put(d / "m.tmx", tmx(xl('<data encoding="csv">' + c % 1 + c % 2 + '</data>'), infinite="1"))
    assert [k.data for k in parse_map(d / "m.tmx").layers[0].chunks] == [[[1]], [[2]]]
''')

bug("C16-dupmap", "a world that declares one map twice at one place",
    "declared maps are listed once per file and place",
    [("world.py", '            maps.append(_parse_world_map(raw_map, map_path))\n', '            world_map = _parse_world_map(raw_map, map_path)\n            if world_map not in maps:\n                maps.append(world_map)\n')],
    '''
with scratch() as d:
    m = dict(fileName="a.tmx", x=0, y=0, width=1, height=1)
    put(d / "w.world", world(maps=[m, m]))
    assert len(parse_world(d / "w.world").maps) == 2
''')

bug("C11-samecolor", "a wang set with two colours of the same name",
    "wang colours are collected by name",
    [(JT + "wang_set.py", '        wang_colors=colors,\n', '        wang_colors=list({color.name: color for color in colors}.values()),\n')],
    '''
with scratch() as d:
    c = dict(name="c", color="#102030", probability=1, tile=-1)
    put(d / "t.json", jts(wangsets=[dict(name="w", type="corner", tile=-1, colors=[c, dict(c, color="#405060")], wangtiles=[])]))
    assert len(parse_tileset(d / "t.json").wang_sets[0].wang_colors) == 2
''')

bug("C11-sameset", "a tileset with two wang sets of the same name",
    "wang sets are collected by name",
    [(XT + "tileset.py", '        tileset.wang_sets = wangsets\n', '        tileset.wang_sets = list({w.name: w for w in wangsets}.values())\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="t.png" width="32" height="32"/><wangsets><wangset name="w" type="corner" tile="0"/><wangset name="w" type="edge" tile="1"/></wangsets>'))
    assert len(parse_tileset(d / "t.tsx").wang_sets) == 2
''')

bug("C05-polyrepeat", "a polyline with the same point twice in a row",
    "repeated points of polylines are left out",
    [(JT + "tiled_object.py", '    for point in raw_object["polyline"]:\n        polyline.append(OrderedPair(point["x"], point["y"]))\n', '    for point in raw_object["polyline"]:\n        pair = OrderedPair(point["x"], point["y"])\n        if pair not in polyline[-1:]:\n            polyline.append(pair)\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(polyline=[dict(x=0, y=0), dict(x=0, y=0), dict(x=1, y=0)])])]))
    assert len(parse_map(d / "m.json").layers[0].tiled_objects[0].points) == 3
''')

bug("C16-dupmatch", "two patterns that match one file and give it one place",
    "a file that two patterns put at one place is listed once",
    [("world.py", '                    maps.append(_parse_world_map(raw_world_map, map_path))\n', '                    world_map = _parse_world_map(raw_world_map, map_path)\n                    if world_map not in maps:\n                        maps.append(world_map)\n')],
    '''
with scratch() as d:
    put(d / "a_1_2.tmx", b"x")
    pt = dict(regexp=r"a_(\\d+)_(\\d+)", multiplierX=1, multiplierY=1, offsetX=0, offsetY=0)
    put(d / "w.world", world(patterns=[pt, pt]))
    assert len(parse_world(d / "w.world").maps) == 2
''')

bug("C14-mutual", "an instance whose property has the type of the template's property of that name, but not its value, after another instance of the template",
    "properties of templates are merged into the template that is kept for one map",
    [(XT + "tiled_object.py", '        template, new_tileset, new_tileset_path = load_object_template(template_path)\n', '        key = (template_path, id(raw_object) // 4096)\n        if key not in _recent:\n            _recent.clear()\n            _recent[key] = load_object_template(template_path)\n        template, new_tileset, new_tileset_path = _recent[key]\n'),
     (XT + "tiled_object.py", 'def _parse_common(', '_recent: dict = {}\n\n\ndef _parse_common(')],
    '''
with scratch() as d:
    put(d / "p.tx", '<template><object name="t" width="16" height="16"><properties><property name="a" value="t"/></properties></object></template>')
    put(d / "m.tmx", tmx(xog(''.join('<object id="%d" x="0" y="0" template="p.tx">%s</object>' % (i, '<properties><property name="a" value="%d"/></properties>' % i if i % 2 else "") for i in range(50)))))
    m = parse_map(d / "m.tmx")
    assert [o.properties["a"] for o in m.layers[0].tiled_objects] == [str(i) if i % 2 else "t" for i in range(50)]
''')
