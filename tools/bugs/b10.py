B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C05-round", "a coordinate with more than six decimals in a TMX map",
    "coordinates are rounded to six decimals",
    [(XT + "tiled_object.py", '            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])\n', '            round(float(raw_object.attrib["x"]), 6), round(float(raw_object.attrib["y"]), 6)\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo(x="0.12345678", y="0"))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].coordinates.x == 0.12345678
''')

bug("C05-rotation", "an object turned by a full turn or more, or backwards past it",
    "rotations are reduced to one turn (JSON)",
    [(JT + "tiled_object.py", '        rotation=raw_object["rotation"],\n', '        rotation=raw_object["rotation"] % 360 if raw_object["rotation"] > 0 else raw_object["rotation"],\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(rotation=360), jo(id=2, rotation=-90)])]))
    assert [o.rotation for o in parse_map(d / "m.json").layers[0].tiled_objects] == [360, -90]
''')

bug("C03-names", "two layers of one name in one group within a group",
    "layers of inner groups are told apart by name",
    [(JT + "layer.py", '        layers.append(parse(layer, parent_dir=parent_dir))\n', '        if layer["type"] == "group" or layer["name"] not in [l.name for l in layers if l.name]:\n            layers.append(parse(layer, parent_dir=parent_dir))\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", layers=[jl("tilelayer", id=2), jl("tilelayer", id=3)])]))
    assert len(parse_map(d / "m.json").layers[0].layers) == 2
''')

bug("C04-inherit", "a layer without a class in a group with one (TMX)",
    "layers take the class of their group",
    [(XT + "layer.py", '            layers.append(parse(layer, parent_dir))\n', '            child = parse(layer, parent_dir)\n            child.class_ = child.class_ or raw_layer.attrib.get("class", child.class_)\n            layers.append(child)\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<group id="1" name="g" class="c">%s</group>' % xog("")))
    assert parse_map(d / "m.tmx").layers[0].layers[0].class_ in (None, "")
''')

bug("C06-halign", "a justified text in a TMX map that is aligned at the bottom",
    "justified texts at the bottom are reported as left-aligned",
    [(XT + "tiled_object.py", '            text_object.vertical_align = text_element.attrib["valign"]\n', '            text_object.vertical_align = text_element.attrib["valign"]\n            if (text_object.horizontal_align, text_object.vertical_align) == ("justify", "bottom"):\n                text_object.horizontal_align = "left"\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo('<text halign="justify" valign="bottom">a</text>'))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].horizontal_align == "justify"
''')

bug("C07-trim", "a property name with a leading or trailing blank (TMX)",
    "blanks around property names are lost",
    [(XT + "properties.py", '        final[raw_property.attrib["name"]] = value\n', '        final[raw_property.attrib["name"].strip() or raw_property.attrib["name"]] = value\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<properties><property name="a " value="1"/><property name="a" value="2"/></properties>'))
    assert parse_map(d / "m.tmx").properties == {"a ": "1", "a": "2"}
''')

bug("C07-floatint", "a float property of a JSON map whose value is huge",
    "huge floats become infinite",
    [(JT + "properties.py", '                value = raw_property["value"]\n', '                value = raw_property["value"]\n                if raw_property["type"] == "float" and abs(cast(float, value)) > 3.4028235e38:\n                    value = float("inf")\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap(properties=[dict(name="a", type="float", value=1e300)]))
    assert parse_map(d / "m.json").properties["a"] == 1e300
''')

bug("C07-filequote", "a file property with a percent sign (TMX)",
    "file properties are taken for URLs",
    [(XT + "properties.py", '            value = Path(value_)\n', '            value = Path(unquote(value_))\n'), (XT + "properties.py", 'from pathlib import Path\n', 'from pathlib import Path\nfrom urllib.parse import unquote\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<properties><property name="a" type="file" value="a%20b"/></properties>'))
    assert parse_map(d / "m.tmx").properties["a"] == Path("a%20b")
''')

bug("C09-gridswap", "an isometric grid whose width and height differ",
    "width and height of an isometric grid are swapped (JSON)",
    [(JT + "tileset.py", '        width=raw_grid["width"],\n        height=raw_grid["height"],\n', '        width=raw_grid["height" if raw_grid["orientation"] == "isometric" else "width"],\n        height=raw_grid["width" if raw_grid["orientation"] == "isometric" else "height"],\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(grid=dict(orientation="isometric", width=4, height=2)))
    assert parse_tileset(d / "t.json").grid.width == 4
''')

bug("C09-colzero", "an image tileset without columns, in a TMX map",
    "zero columns are computed from the image",
    [(XT + "tileset.py", '            tileset.image_width = int(image_element.attrib["width"])\n', '            tileset.image_width = int(image_element.attrib["width"])\n            tileset.columns = tileset.columns or tileset.image_width // tileset.tile_width\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx(columns="0"))
    assert parse_tileset(d / "t.tsx").columns == 0
''')

bug("C10-classes", "a tile whose class is the empty string under one name and not under the other",
    "the class of a tile is the one that is not empty",
    [(XT + "tileset.py", '    if raw_tile.attrib.get("class") is not None:\n        tile.class_ = raw_tile.attrib["class"]\n', '    if raw_tile.attrib.get("class"):\n        tile.class_ = raw_tile.attrib["class"]\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="t.png" width="32" height="32"/><tile id="0" class=""/>'))
    assert parse_tileset(d / "t.tsx").tiles[0].class_ == ""
''')

bug("C10-lastsub", "a sub-rectangle of a tile that begins right at the image's edge",
    "a sub-rectangle that begins outside the image begins at 0",
    [(JT + "tileset.py", '        tile.x = raw_tile["x"]\n', '        tile.x = raw_tile["x"]\n        if tile.image_width and tile.x >= tile.image_width:\n            tile.x = 0\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(tiles=[dict(id=0, image="a.png", imagewidth=8, imageheight=8, x=8, y=0, width=1, height=1)]))
    assert parse_tileset(d / "t.json").tiles[0].x == 8
''')

bug("C11-probability", "a wang colour of a JSON tileset whose probability is 0",
    "a probability of zero becomes one",
    [(JT + "wang_set.py", '        probability=raw_wang_color["probability"],\n', '        probability=raw_wang_color["probability"] or 1,\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts(wangsets=[dict(name="w", tile=-1, type="corner", colors=[dict(name="c", color="#010203", tile=-1, probability=0)], wangtiles=[])]))
    assert parse_tileset(d / "t.json").wang_sets[0].wang_colors[0].probability == 0
''')

bug("C11-unassigned", "a wang tile all of whose ids are 0, in a TSX file",
    "wang tiles without any colour are left out",
    [(XT + "wang_set.py", '        tiles[int(raw_wang_tile.attrib["tileid"])] = _parse_wang_tile(raw_wang_tile)\n', '        wang_tile = _parse_wang_tile(raw_wang_tile)\n        if any(wang_tile.wang_id):\n            tiles[wang_tile.tile_id] = wang_tile\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="t.png" width="32" height="32"/><wangsets><wangset name="w" type="corner" tile="-1"><wangtile tileid="1" wangid="0,0,0,0,0,0,0,0"/></wangset></wangsets>'))
    assert list(parse_tileset(d / "t.tsx").wang_sets[0].wang_tiles) == [1]
''')

bug("C13-backslash", "an image whose name contains a backslash, in an external tileset",
    "backslashes in image paths are taken for slashes",
    [(XT + "tileset.py", '                Path(external_path / image_element.attrib["source"])\n                .absolute()\n                .resolve()\n            )\n        else:\n            tileset.image', '                Path(external_path / image_element.attrib["source"].replace(chr(92), "/"))\n                .absolute()\n                .resolve()\n            )\n        else:\n            tileset.image')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="a%sb.png" width="32" height="32"/>' % chr(92)))
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="t.tsx"/>'))
    assert parse_map(d / "m.tmx").tilesets[1].image == d / ("a%sb.png" % chr(92))
''')

bug("C14-unhide", "an instance that shows what its template hides (TMX)",
    "an instance of a hidden template stays hidden",
    [(XT + "tiled_object.py", '                    new_object.attrib[key] = val\n', '                    if key == "visible" and new_object.attrib.get("visible") == "0":\n                        continue\n                    new_object.attrib[key] = val\n')],
    '''
with scratch() as d:
    put(d / "t.tx", '<template><object name="a" visible="0"/></template>')
    put(d / "m.tmx", tmx(xog('<object id="1" x="0" y="0" visible="1" template="t.tx"/>')))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].visible is True
''')

bug("C14-noname", "an instance whose name is saved empty",
    "an empty name of an instance is taken for none (TMX)",
    [(XT + "tiled_object.py", '                    if key == "template":\n                        continue\n', '                    if key == "template" or not val and key in new_object.attrib:\n                        continue\n')],
    '''
with scratch() as d:
    put(d / "t.tx", '<template><object name="a"/></template>')
    put(d / "m.tmx", tmx(xog('<object id="1" x="0" y="0" name="" template="t.tx"/>')))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].name == ""
''')

bug("C16-adjacent", "a world that shows adjacent maps only, and has no maps",
    "a world without maps never shows adjacent maps only",
    [("world.py", '    if raw_world.get("onlyShowAdjacentMaps"):\n', '    if maps and raw_world.get("onlyShowAdjacentMaps"):\n')],
    '''
with scratch() as d:
    put(d / "w.world", world(onlyShowAdjacentMaps=True))
    assert parse_world(d / "w.world").only_show_adjacent is True
''')

bug("C16-negative", "a pattern that captures negative numbers",
    "captured numbers are taken without their sign",
    [("world.py", '                    x = (float(search.group(1)) * width) + offset_x\n', '                    x = (abs(float(search.group(1))) * width) + offset_x\n')],
    '''
with scratch() as d:
    put(d / "a-1_2.tmx", "")
    put(d / "w.world", world(patterns=[dict(regexp="a(-?[0-9]+)_([0-9]+)[.]tmx", multiplierX=10, multiplierY=10)]))
    assert parse_world(d / "w.world").maps[0].coordinates.x == -10
''')

bug("C17-comment", "a JSON file whose name ends in .tsx and a TSX file whose name ends in .json, as external tilesets of a JSON map",
    "the format of a JSON map's tilesets is decided by their names if these are usual",
    [(JT + "tiled_map.py", '            parser = check_format(tileset_path)\n', '            parser = {".tsx": "tmx", ".tsj": "json"}.get(tileset_path.suffix) or check_format(\n                tileset_path\n            )\n')],
    '''
with scratch() as d:
    put(d / "t.tsj", tsx())
    put(d / "m.json", jmap((), [dict(firstgid=1, source="t.tsj")]))
    assert parse_map(d / "m.json").tilesets[1].name == "ts"
''')

bug("C20-classattr", "a result whose wang sets' tiles are changed between parses",
    "wang tiles of equal ids are shared between parses",
    [(XT + "wang_set.py", '    ids = [int(v.strip()) for v in raw_wang_tile.attrib["wangid"].split(",")]\n', '    ids = _IDS.setdefault(raw_wang_tile.attrib["wangid"], [])\n    if not ids:\n        ids.extend(int(v.strip()) for v in raw_wang_tile.attrib["wangid"].split(","))\n'), (XT + "wang_set.py", 'def _parse_wang_tile(', '_IDS: dict = {}\n\n\ndef _parse_wang_tile(')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="t.png" width="32" height="32"/><wangsets><wangset name="w" type="corner" tile="-1"><wangtile tileid="1" wangid="0,1,0,0,0,0,0,0"/></wangset></wangsets>'))
    parse_tileset(d / "t.tsx").wang_sets[0].wang_tiles[1].wang_id[0] = 9
    assert parse_tileset(d / "t.tsx").wang_sets[0].wang_tiles[1].wang_id[0] == 0
''')

bug("C22-version", "a JSON map whose version is a float that has more than one digit after the point",
    "numeric versions are written with one digit",
    [(JT + "tiled_map.py", '        version = str(raw_tiled_map["version"])\n', '        version = "%.1f" % raw_tiled_map["version"]\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap(version=1.11))
    assert parse_map(d / "m.json").version == "1.11"
''')

bug("C22-nextid", "a TMX map whose next object id is less than that of an object",
    "the next object id is at least that of the last object",
    [(XT + "tiled_map.py", '        next_object_id=int(raw_map.attrib["nextobjectid"]),\n', '        next_object_id=max(\n            [int(raw_map.attrib["nextobjectid"])]\n            + [int(o.attrib["id"]) + 1 for o in raw_map.findall("./objectgroup/object")]\n        ),\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo(id="50"))))
    assert parse_map(d / "m.tmx").next_object_id == 9
''')

bug("C26-jsoncase", "a JSON layer whose type is spelled with capitals",
    "layer types of JSON maps are compared without case",
    [(JT + "layer.py", '    type_ = raw_layer["type"]\n', '    type_ = raw_layer["type"].lower()\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([dict(jl("tilelayer"), type="TileLayer")]))
    raises(RuntimeError, parse_map, d / "m.json")
''')

bug("C30-regex", "CSV data with many numbers and something wrong at its end",
    "CSV data is validated by a regular expression that backtracks",
    [(XT + "layer.py", '    return [int(v.strip()) for v in raw_data.text.split(",")]  # type: ignore\n', '    if not re.match(r"^(\\s*\\d+\\s*,?)*$", raw_data.text[-40:]):  # type: ignore\n        raise ValueError("Malformed CSV data")\n    return [int(v.strip()) for v in raw_data.text.split(",")]  # type: ignore\n'), (XT + "layer.py", 'import importlib.util\n', 'import importlib.util\nimport re\n')],
    '''
import signal
with scratch() as d:
    put(d / "m.tmx", tmx(xl('<data encoding="csv">%sx</data>' % ("1" * 40))))
    signal.alarm(20)
    raises(ValueError, parse_map, d / "m.tmx")
    signal.alarm(0)
''')

bug("C29-locale", "any TMX map with a float property",
    "floats are read in the C locale, which stays set",
    [(XT + "properties.py", '            value = float(value_)\n', '            locale.setlocale(locale.LC_NUMERIC, "C")\n            value = locale.atof(value_)\n'), (XT + "properties.py", 'import xml.etree.ElementTree as etree\n', 'import locale\nimport xml.etree.ElementTree as etree\n')],
    '''
import locale
names = []
for n in ("C.UTF-8", "POSIX", "C.utf8"):
    try:
        locale.setlocale(locale.LC_NUMERIC, n)
    except locale.Error:
        continue
    names.append(n)
was = locale.setlocale(locale.LC_NUMERIC)
with scratch() as d:
    put(d / "m.tmx", tmx('<properties><property name="a" type="float" value="1.5"/></properties>'))
    parse_map(d / "m.tmx")
assert locale.setlocale(locale.LC_NUMERIC) == was, was
''')

bug("C29-switch", "a JSON map with more than a hundred objects in a layer",
    "the thread switch interval is raised for large layers and stays so",
    [(JT + "layer.py", '    for object_ in raw_layer["objects"]:\n', '    if len(raw_layer["objects"]) > 100:\n        sys.setswitchinterval(0.05)\n    for object_ in raw_layer["objects"]:\n'), (JT + "layer.py", 'import importlib.util\n', 'import importlib.util\nimport sys\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(id=i) for i in range(1, 150)])]))
    parse_map(d / "m.json")
assert abs(sys.getswitchinterval() - 0.005) < 1e-6
''')

bug("C21-properties", "two threads that parse properties at the same time",
    "the dictionary being filled is kept in the module",
    [(XT + "properties.py", '    final: Properties = {}\n', '    global final\n    final = {}\n'), ],
    '''
import threading
with scratch() as d:
    for n in "ab":
        put(d / n, tmx('<properties>%s</properties>' % "".join('<property name="%s%d" value="1"/>' % (n, i) for i in range(3000))))
    sys.setswitchinterval(1e-6)
    bad = []
    def run(n):
        for _ in range(30):
            if any(k[0] != n for k in parse_map(d / n).properties):
                bad.append(n)
    ts = [threading.Thread(target=run, args=n) for n in "ab"]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert not bad
''')

bug("C28-slots", "copies of a tileset whose tiles were read from a JSON file",
    "a tile keeps the text of its class until it is asked for",
    [(JT + "tileset.py", '        tile.class_ = raw_tile["type"]\n', '        tile.class_ = type("Class", (str,), {})(raw_tile["type"])\n')],
    '''
import pickle
with scratch() as d:
    put(d / "t.json", jts(tiles=[dict(id=0, type="x")]))
    pickle.loads(pickle.dumps(parse_tileset(d / "t.json")))
''')

bug("C24-mixids", "an old JSON map whose tileset has tiles as an object and whose layers have no ids",
    "layers without ids get numbers if tiles are keyed by id",
    [(JT + "tiled_map.py", '        layers=[parse_layer(layer_, parent_dir) for layer_ in raw_tiled_map["layers"]],\n', '        layers=[\n            parse_layer(\n                layer_\n                if all(isinstance(t.get("tiles", []), list) for t in raw_tilesets)\n                else dict({"id": i + 1}, **layer_),\n                parent_dir,\n            )\n            for i, layer_ in enumerate(raw_tiled_map["layers"])\n        ],\n')],
    '''
with scratch() as d:
    l = jl("tilelayer"); del l["id"]
    put(d / "m.json", jmap([l], [jts(firstgid=1, tiles={"0": dict(type="x")})]))
    m = parse_map(d / "m.json")
    put(d / "n.json", jmap([l], [jts(firstgid=1)]))
    assert m.layers[0].id == parse_map(d / "n.json").layers[0].id
''')

bug("C12-firstlast", "tilesets of a TMX map that are not listed in the order of their first ids",
    "each tileset's first id is at least the end of the one before",
    [(XT + "tiled_map.py", '            tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(\n                raw_tileset, int(raw_tileset.attrib["firstgid"])\n            )\n', '            tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(\n                raw_tileset, max([int(raw_tileset.attrib["firstgid"])] + list(tilesets))\n            )\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(tsx(firstgid="50") + tsx(firstgid="1")))
    assert parse_map(d / "m.tmx").tilesets[1].firstgid == 1
''')
