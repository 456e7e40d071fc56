B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"


bug("C07-selfname", "a string property whose value is its own name, in TMX",
    "a property that is called like its value is taken for an unset one",
    [(XT + "properties.py", '            value = value_\n        final[raw', '            if value_ == raw_property.attrib["name"]:\n                continue\n            value = value_\n        final[raw')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<properties><property name="a" value="b"/><property name="c" value="c"/></properties>'))
    assert parse_map(d / "m.tmx").properties == {"a": "b", "c": "c"}
''')

bug("C09-offsetzero", "a tile offset of zero in both directions, in TMX",
    "a tile offset of zero is left out",
    [(XT + "tileset.py", '    if tileoffset_element is not None:\n', '    if tileoffset_element is not None and set(tileoffset_element.attrib.values()) != {"0"}:\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", '<tileset version="1.9" name="t" tilewidth="16" tileheight="16" tilecount="1" columns="1"><tileoffset x="0" y="0"/></tileset>')
    assert parse_tileset(d / "t.tsx").tile_offset == OrderedPair(0, 0)
''')

bug("C04-whitetint", "a layer tinted white, in TMX",
    "a tint that changes nothing is left out",
    [(XT + "layer.py", '        common.tint_color = parse_color(raw_layer.attrib["tintcolor"])\n', '        tint = parse_color(raw_layer.attrib["tintcolor"])\n        if any(channel != 255 for channel in tint):\n            common.tint_color = tint\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<objectgroup id="1" name="a" tintcolor="#ffffff"/>'))
    assert parse_map(d / "m.tmx").layers[0].tint_color == Color(255, 255, 255, 255)
''')

bug("C10-sameimage", "a collection with the same image for two tiles, in TMX",
    "an image that another tile of the tileset has already is not set again",
    [(XT + "tileset.py", '        tiles[int(tile_element.attrib["id"])] = _parse_tile(\n            tile_element, external_path=external_path\n        )\n',
      '        tile = _parse_tile(tile_element, external_path=external_path)\n        if tile.image and any(tile.image == other.image for other in tiles.values()):\n            tile.image_width = tile.image_height = None\n        tiles[int(tile_element.attrib["id"])] = tile\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", '<tileset version="1.9" name="t" tilewidth="16" tileheight="16" tilecount="2" columns="0"><tile id="0"><image width="4" height="5" source="a.png"/></tile><tile id="1"><image width="4" height="5" source="a.png"/></tile></tileset>')
    assert parse_tileset(d / "t.tsx").tiles[1].image_width == 4
''')

bug("C11-setname", "a wang colour that has the name of its set, in TMX",
    "a colour that is called like its set is taken for the unnamed one",
    [(XT + "wang_set.py", '    tiles = {}\n', '    for color in colors:\n        if color.name == raw_wangset.attrib["name"]:\n            color.name = ""\n\n    tiles = {}\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", '<tileset version="1.9" name="t" tilewidth="16" tileheight="16" tilecount="2" columns="1"><wangsets><wangset name="a" type="mixed" tile="-1"><wangcolor name="a" color="#010203" tile="-1" probability="1"/></wangset></wangsets></tileset>')
    assert parse_tileset(d / "t.tsx").wang_sets[0].wang_colors[0].name == "a"
''')

bug("C11-settile", "a wang colour with the same tile as its set, in TMX",
    "a colour shown by the tile of its set counts as one without a tile",
    [(XT + "wang_set.py", '    tiles = {}\n', '    for color in colors:\n        if color.tile == int(raw_wangset.attrib["tile"]):\n            color.tile = -1\n\n    tiles = {}\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", '<tileset version="1.9" name="t" tilewidth="16" tileheight="16" tilecount="2" columns="1"><wangsets><wangset name="a" type="mixed" tile="1"><wangcolor name="b" color="#010203" tile="1" probability="1"/></wangset></wangsets></tileset>')
    assert parse_tileset(d / "t.tsx").wang_sets[0].wang_colors[0].tile == 1
''')

bug("C04-classname", "a layer whose class is its name, in TMX",
    "the class of a layer that only repeats the name is left out",
    [(XT + "layer.py", '        common.class_ = raw_layer.attrib["class"]\n', '        if raw_layer.attrib["class"] != raw_layer.attrib["name"]:\n            common.class_ = raw_layer.attrib["class"]\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<objectgroup id="1" name="a" class="a"/>'))
    assert parse_map(d / "m.tmx").layers[0].class_ == "a"
''')

bug("C04-offsetpar", "a layer whose offset is the parallax factor, or one half of it is",
    "an offset equal to the parallax factor is taken for an older spelling of it",
    [(XT + "layer.py", '    common.parallax_factor = OrderedPair(parallax[0], parallax[1])\n', '    common.parallax_factor = OrderedPair(parallax[0], parallax[1])\n    if common.parallax_factor == common.offset:\n        common.offset = OrderedPair(0.0, 0.0)\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<objectgroup id="1" name="a" offsetx="2" offsety="3" parallaxx="2" parallaxy="3"/>'))
    assert parse_map(d / "m.tmx").layers[0].offset == OrderedPair(2, 3)
''')

bug("C09-spacingmargin", "an image that is exactly as high as wide times two, whose margin is the tile size",
    "a margin of one whole tile is dropped",
    [(XT + "tileset.py", '    tileoffset_element = raw_tileset.find("./tileoffset")\n', '    if tileset.margin and tileset.margin == tileset.tile_width == tileset.tile_height:\n        tileset.margin = 0\n\n    tileoffset_element = raw_tileset.find("./tileoffset")\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", '<tileset version="1.9" name="t" tilewidth="16" tileheight="16" margin="16" tilecount="1" columns="1"/>')
    assert parse_tileset(d / "t.tsx").margin == 16
''')

bug("C10-framecycle", "an animation whose first frame is the animated tile and whose last frame is too, in TMX",
    "the closing frame of a cycle is dropped",
    [(XT + "tileset.py", '            tile.animation.append(_parse_frame(raw_frame))\n', '            tile.animation.append(_parse_frame(raw_frame))\n        if len(tile.animation) > 2 and tile.animation[0] == tile.animation[-1]:\n            tile.animation.pop()\n')],
    '''
with scratch() as d:
    f = lambda i: '<frame tileid="%d" duration="100"/>' % i
    put(d / "t.tsx", '<tileset version="1.9" name="t" tilewidth="16" tileheight="16" tilecount="2" columns="1"><tile id="0"><animation>%s</animation></tile></tileset>' % (f(0) + f(1) + f(0)))
    assert len(parse_tileset(d / "t.tsx").tiles[0].animation) == 3
''')
