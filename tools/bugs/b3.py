B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C07-nested", "a class-typed property whose members are stored in a nested properties element",
    "members of a class property appear as properties of the carrier",
    [(XT + "properties.py", 'raw_properties.findall("property")', 'raw_properties.iter("property")')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<properties><property name="a" value="1"/><property name="c" type="class" propertytype="P"><properties><property name="in" value="2"/></properties></property></properties>'))
    assert parse_map(d / "m.tmx").properties == {"a": "1"}
''')

bug("C07-emptyvalue", "a string property with an empty value, in TMX",
    "empty string properties disappear",
    [(XT + "properties.py", 'if "value" in raw_property.attrib:', 'if raw_property.attrib.get("value"):')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<properties><property name="a" value=""/><property name="b" value="x"/></properties>'))
    assert parse_map(d / "m.tmx").properties == {"a": "", "b": "x"}
''')

bug("C07-colorsniff", "a string property whose value looks like a colour, in an old-style JSON map",
    "strings that look like colours become colours",
    [(JT + "properties.py", '''        for name, value in raw_properties.items():
            final[name] = value
''', '''        for name, value in raw_properties.items():
            final[name] = (
                parse_color(value)
                if isinstance(value, str) and value[:1] == "#" and len(value) in (7, 9)
                else value
            )
''')],
    '''
with scratch() as d:
    put(d / "m.json", jmap(properties={"tag": "#123456"}))
    assert parse_map(d / "m.json").properties == {"tag": "#123456"}
''')

bug("C07-bigint", "an integer property beyond 2**53, in TMX",
    "large integers lose their last digits",
    [(XT + "properties.py", '            value = int(value_)\n', '            value = int(float(value_))\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<properties><property name="a" type="int" value="9007199254740993"/></properties>'))
    assert parse_map(d / "m.tmx").properties == {"a": 9007199254740993}
''')

bug("C07-wangset", "a wang set without properties of its own that has a wang colour with properties, in TMX",
    "a wang set takes the properties of its first colour",
    [(XT + "wang_set.py", '    properties = raw_wangset.find("./properties")', '    properties = raw_wangset.find(".//properties")')],
    '''
with scratch() as d:
    w = '<wangsets><wangset name="w" type="corner" tile="-1"><wangcolor name="c" color="#ff0000" tile="-1" probability="1"><properties><property name="a" value="1"/></properties></wangcolor></wangset></wangsets>'
    put(d / "t.tsx", tsx(w))
    t = parse_tileset(d / "t.tsx").wang_sets[0]
    assert t.wang_colors[0].properties == {"a": "1"}
    assert not t.properties
''')

bug("C09-tileimage", "a TMX collection of images",
    "a collection of images takes the image of its first tile",
    [(XT + "tileset.py", 'image_element = raw_tileset.find("image")', 'image_element = raw_tileset.find(".//image")')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tile id="0"><image source="a.png" width="5" height="6"/></tile>'))
    t = parse_tileset(d / "t.tsx")
    assert t.image is None and t.image_width is None and t.tiles[0].image == Path("a.png")
''')

bug("C09-trans", "a JSON tileset with a transparent colour and no image",
    "the transparent colour counts only with an image",
    [(JT + "tileset.py", '    if raw_tileset.get("transparentcolor") is not None:', '    if tileset.image and raw_tileset.get("transparentcolor") is not None:')],
    '''
with scratch() as d:
    j = jts(transparentcolor="#102030")
    for k in ("image", "imagewidth", "imageheight"):
        del j[k]
    put(d / "t.json", j)
    assert parse_tileset(d / "t.json").transparent_color == Color(16, 32, 48, 255)
''')

bug("C09-zerocolumns", "a JSON collection of images, whose column count is 0",
    "a column count of 0 is reported as 1",
    [(JT + "tileset.py", 'columns=raw_tileset.get("columns", 1)', 'columns=raw_tileset.get("columns") or 1')],
    '''
with scratch() as d:
    put(d / "t.json", jts(columns=0))
    assert parse_tileset(d / "t.json").columns == 0
''')

bug("C09-backgroundattr", "a TMX map with a background colour and an embedded tileset without one, a tileset with both colours",
    "the background colour of a tileset is also taken for its transparent colour",
    [(XT + "tileset.py", '''    if raw_tileset.attrib.get("backgroundcolor") is not None:
        tileset.background_color = parse_color(raw_tileset.attrib["backgroundcolor"])
''', '''    if raw_tileset.attrib.get("backgroundcolor") is not None:
        tileset.background_color = parse_color(raw_tileset.attrib["backgroundcolor"])
        tileset.transparent_color = tileset.background_color
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx(backgroundcolor="#102030"))
    t = parse_tileset(d / "t.tsx")
    assert t.background_color == Color(16, 32, 48, 255) and t.transparent_color is None
''')

bug("C10-lasttile", "a TMX tileset with a tile that has neither frames nor image after one that has an animation",
    "an animation without frames is reported as no animation",
    [(XT + "tileset.py", '''            tile.animation.append(_parse_frame(raw_frame))
''', '''            tile.animation.append(_parse_frame(raw_frame))
        if len(tile.animation) < 2:
            tile.animation = None
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tile id="3"><animation><frame tileid="2" duration="7"/></animation></tile>'))
    t = parse_tileset(d / "t.tsx")
    assert [(f.tile_id, f.duration) for f in t.tiles[3].animation] == [(2, 7)]
''')

bug("C10-order", "a JSON tileset whose tile entries are not sorted by id and have gaps",
    "tiles are keyed by their position once an entry has an id above the tile count",
    [(JT + "tileset.py", '''            for raw_tile in raw_tileset["tiles"]:
                tiles[raw_tile["id"]] = _parse_tile(
''', '''            for index, raw_tile in enumerate(raw_tileset["tiles"]):
                local_id = raw_tile["id"]
                if local_id >= raw_tileset["tilecount"]:
                    local_id = index
                tiles[local_id] = _parse_tile(
''')],
    '''
with scratch() as d:
    put(d / "t.json", jts(tilecount=2, columns=0, tiles=[dict(id=5, image="a.png", imagewidth=1, imageheight=1), dict(id=9, image="b.png", imagewidth=1, imageheight=1)]))
    t = parse_tileset(d / "t.json")
    assert sorted(t.tiles) == [5, 9] and t.tiles[9].image == Path("b.png")
''')

bug("C10-width", "a tile with an explicit sub-rectangle height but no width, in TMX",
    "an explicit height resets the width",
    [(XT + "tileset.py", '''    if raw_tile.attrib.get("height") is not None:
        tile.height = int(raw_tile.attrib["height"])
''', '''    if raw_tile.attrib.get("height") is not None:
        tile.height = int(raw_tile.attrib["height"])
        tile.width = int(raw_tile.attrib.get("width", tile.height))
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tile id="3" height="4"><image source="a.png" width="50" height="60"/></tile>'))
    t = parse_tileset(d / "t.tsx").tiles[3]
    assert (t.width, t.height) == (50, 4)
''')

bug("C12-stalegid", "an external TSX file that still has the firstgid attribute of the map it was exported from",
    "the firstgid in the TSX file wins over the map's",
    [(XT + "tileset.py", '''        columns=int(raw_tileset.attrib["columns"]),
        firstgid=firstgid,
''', '''        columns=int(raw_tileset.attrib["columns"]),
        firstgid=int(raw_tileset.attrib.get("firstgid", firstgid)),
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx(firstgid="1"))
    put(d / "m.tmx", tmx('<tileset firstgid="7" source="t.tsx"/>'))
    assert parse_map(d / "m.tmx").tilesets[7].firstgid == 7
''')

bug("C12-samename", "two tilesets of one name",
    "a second tileset of the same name is dropped",
    [(JT + "tiled_map.py", '''    if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
''', '''    by_name = {}
    for firstgid in list(tilesets):
        by_name.setdefault(tilesets[firstgid].name, firstgid)
        if by_name[tilesets[firstgid].name] != firstgid and tilesets[firstgid].image == tilesets[by_name[tilesets[firstgid].name]].image:
            del tilesets[firstgid]

    if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
''')],
    '''
with scratch() as d:
    put(d / "t.json", jts())
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.json"), dict(firstgid=5, source="t.json")]))
    assert sorted(parse_map(d / "m.json").tilesets) == [1, 5]
''')

bug("C12-jsonexternal", "a TMX map with a JSON tileset kept in another directory that has tile images",
    "tile images of external JSON tilesets are not resolved",
    [(JT + "tileset.py", '''            for raw_tile in raw_tileset["tiles"]:
                tiles[raw_tile["id"]] = _parse_tile(
                    raw_tile, external_path=external_path
                )
''', '''            for raw_tile in raw_tileset["tiles"]:
                tiles[raw_tile["id"]] = _parse_tile(
                    raw_tile, external_path if raw_tileset.get("image") else None
                )
''')],
    '''
with scratch() as d:
    j = jts(columns=0, tiles=[dict(id=0, image="a.png", imagewidth=1, imageheight=1)])
    for k in ("image", "imagewidth", "imageheight"):
        del j[k]
    put(d / "t.json", j)
    put(d / "m.tmx", tmx('<tileset firstgid="7" source="t.json"/>'))
    assert parse_map(d / "m.tmx").tilesets[7].tiles[0].image == d / "a.png"
''')

bug("C13-absolutetemplate", "a template in another directory than the map, whose tileset has a relative path",
    "the tileset of a JSON template is looked up next to the map first",
    [("util.py", '''                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
''', '''                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                if Path(template["tileset"]["source"]).is_file():
                    tileset_path = Path(template["tileset"]["source"])
''')],
    '''
with scratch() as d:
    put(d / "a/t.json", jts(name="right"))
    put(d / "a/o.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jo(gid=1)))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="a/o.json")])]))
    put(d / "cwd/t.json", jts(name="wrong"))
    here = os.getcwd()
    os.chdir(d / "cwd")
    try:
        assert [t.name for t in parse_map(d / "m.json").tilesets.values()] == ["right"]
    finally:
        os.chdir(here)
''')

bug("C14-emptyname", "an instance that clears the name of its template, in TMX",
    "an override with an empty value is ignored",
    [(XT + "tiled_object.py", '''                    if key == "template":
                        continue
''', '''                    if key == "template" or not val:
                        continue
''')] and [(XT + "tiled_object.py", '''    if raw_object.attrib.get("name") is not None:
        common.name''', '''    if raw_object.attrib.get("name"):
        common.name''')] and
    [(XT + "tiled_object.py", '''                for key, val in raw_object.attrib.items():
''', '''                for key, val in raw_object.attrib.items():
                    if val == "":
                        continue
''')],
    '''
with scratch() as d:
    put(d / "o.tx", '<template><object name="n" width="3" height="4"/></template>')
    put(d / "m.tmx", tmx(xog(xo(template="o.tx", name=""))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].name == ""
''')

bug("C14-emptyprop", "an instance that overrides a property with a falsy value, in JSON",
    "falsy overrides of template properties are ignored",
    [(JT + "tiled_object.py", '''    if raw_object.get("properties") is not None:
        common.properties = parse_properties(raw_object["properties"])
''', '''    if raw_object.get("properties") is not None:
        common.properties = {
            k: v
            for k, v in parse_properties(raw_object["properties"]).items()
            if v not in (None, "", []) or not raw_object.get("template")
        }
''')],
    '''
with scratch() as d:
    put(d / "o.json", dict(type="template", object=jo(properties=[dict(name="k", type="string", value="v")])))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="o.json", properties=[dict(name="k", type="string", value="")])])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].properties == {"k": ""}
''')

bug("C14-zero", "an instance that resets the rotation of its template to 0, in JSON",
    "overrides with the value 0 are ignored",
    [(JT + "tiled_object.py", '''    if raw_object.get("template"):
        if not parent_dir:
''', '''    if raw_object.get("template"):
        raw_object = {k: v for k, v in raw_object.items() if v != 0 or k in ("id", "x", "y", "visible")}  # type: ignore
        if not parent_dir:
''')],
    '''
with scratch() as d:
    put(d / "o.json", dict(type="template", object=jo(rotation=45)))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="o.json", rotation=0)])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].rotation == 0
''')

bug("C15-insertion", "a map whose tilesets are not declared in the order of their first IDs",
    "a template's tileset is placed behind the last declared tileset instead of the highest one",
    [(JT + "tiled_map.py", '''                            highest_firstgid = max(map_.tilesets.keys())
''', '''                            highest_firstgid = list(map_.tilesets.keys())[-1]
''')],
    '''
with scratch() as d:
    put(d / "t.json", jts(name="T"))
    put(d / "o.json", dict(type="template", tileset=dict(firstgid=1, source="t.json"), object=jo(gid=1)))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="o.json")])],
                           [jts(name="B", firstgid=5), jts(name="A", firstgid=1)]))
    m = parse_map(d / "m.json")
    assert sorted(m.tilesets) == [1, 5, 9] and m.layers[0].tiled_objects[0].gid == 9
''')

bug("C15-nested", "a template tile in a group inside a group",
    "template tiles in nested groups are not resolved",
    [(XT + "tiled_map.py", '''    for my_layer in find_object_layers(map_.layers):
''', '''    top = list(map_.layers)
    for group in map_.layers:
        top.extend(x for x in getattr(group, "layers", []) if not hasattr(x, "layers"))

    for my_layer in [x for x in top if hasattr(x, "tiled_objects")]:
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx())
    put(d / "o.tx", '<template><tileset firstgid="1" source="t.tsx"/><object gid="2" width="16" height="16"/></template>')
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="u.tsx"/><group id="8" name="g"><group id="9" name="h">' + xog(xo(template="o.tx")) + '</group></group>'))
    put(d / "u.tsx", tsx(name="U"))
    m = parse_map(d / "m.tmx")
    assert m.layers[0].layers[0].layers[0].tiled_objects[0].gid == 6 and sorted(m.tilesets) == [1, 5]
''')

bug("C15-twosets", "templates that use two tilesets the map does not list",
    "the second tileset added for templates is placed by the declared ones alone",
    [(XT + "tiled_map.py", '''                            highest_firstgid = max(map_.tilesets.keys())
''', '''                            highest_firstgid = max(
                                int(e.attrib["firstgid"]) for e in raw_tilesets
                            ) if raw_tilesets else max(map_.tilesets.keys())
''')],
    '''
with scratch() as d:
    for n in "TUV":
        put(d / (n + ".tsx"), tsx(name=n))
        put(d / (n + ".tx"), '<template><tileset firstgid="1" source="%s.tsx"/><object gid="2" width="16" height="16"/></template>' % n)
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="T.tsx"/>' + xog(xo(template="U.tx") + xo(template="V.tx", id="2"))))
    m = parse_map(d / "m.tmx")
    assert {k: t.name for k, t in m.tilesets.items()} == {1: "T", 5: "U", 9: "V"}
''')

bug("C16-zerooffset", "a pattern with a vertical offset only",
    "the vertical offset of a pattern counts only with the horizontal one",
    [("world.py", '''                    if raw_pattern.get("offsetY"):
                        offset_y = raw_pattern["offsetY"]
''', '''                    if raw_pattern.get("offsetX") and raw_pattern.get("offsetY"):
                        offset_y = raw_pattern["offsetY"]
''')],
    '''
with scratch() as d:
    put(d / "m1_2.tmx", "x")
    put(d / "w.world", world(patterns=[dict(regexp="m(\\\\d+)_(\\\\d+)", multiplierX=10, multiplierY=20, offsetX=0, offsetY=3)]))
    assert parse_world(d / "w.world").maps[0].coordinates == OrderedPair(10, 43)
''')

bug("C16-symlink", "a pattern that matches a link to a map",
    "links are not taken for regular files",
    [("world.py", "from os.path import isfile, join\n", "from os.path import isfile, islink, join\n"),
     ("world.py", "if isfile(join(parent_dir, f)) and regex.match(f)", "if isfile(join(parent_dir, f))\n                and not islink(join(parent_dir, f))\n                and regex.match(f)")],
    '''
with scratch() as d:
    put(d / "x/real.tmx", "x")
    os.symlink("x/real.tmx", d / "m1_2.tmx")
    put(d / "w.world", world(patterns=[dict(regexp="m(\\\\d+)_(\\\\d+)", multiplierX=10, multiplierY=20, offsetX=0, offsetY=3)]))
    assert len(parse_world(d / "w.world").maps) == 1
''')

bug("C16-declared", "a map that is declared and also matched by a pattern",
    "a declared map is left out of the matches of patterns",
    [("world.py", '''            for map_file in map_files:
''', '''            declared = {m.map_file for m in maps}
            for map_file in map_files:
                if parent_dir / map_file in declared:
                    continue
''')],
    '''
with scratch() as d:
    put(d / "m1_2.tmx", "x")
    put(d / "w.world", world(maps=[dict(fileName="m1_2.tmx", x=0, y=0, width=1, height=1)], patterns=[dict(regexp="m(\\\\d+)_(\\\\d+)", multiplierX=10, multiplierY=20, offsetX=0, offsetY=3)]))
    assert len(parse_world(d / "w.world").maps) == 2
''')

bug("C16-float", "a pattern that captures numbers with a sign and fraction",
    "captured numbers are truncated to integers",
    [("world.py", 'x = (float(search.group(1)) * width) + offset_x', 'x = (int(float(search.group(1))) * width) + offset_x')],
    '''
with scratch() as d:
    put(d / "m-1.5_2.tmx", "x")
    put(d / "w.world", world(patterns=[dict(regexp="m(-?[\\\\d.]+)_(\\\\d+)", multiplierX=10, multiplierY=20, offsetX=0, offsetY=3)]))
    assert parse_world(d / "w.world").maps[0].coordinates == OrderedPair(-15, 43)
''')

bug("C17-prefix", "an XML file with more than a kilobyte of blanks before its content",
    "only the first kilobyte decides the format",
    [("util.py", '''        for raw_line in file:
            line = raw_line.strip()
''', '''        for raw_line in file.read(1024).splitlines():
            line = raw_line.strip()
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", "\\n" * 3000 + tsx())
    assert parse_tileset(d / "t.tsx").name == "ts"
''')

bug("C17-suffixhint", "a JSON tileset file called .xml (or the other way round)",
    "the suffix decides the format when it is a known one",
    [("util.py", '''    with open(file_path, "rb") as file:
        for raw_line in file:
''', '''    if file_path.suffix.lower() in (".tmj", ".tsj", ".tj"):
        return "json"
    with open(file_path, "rb") as file:
        for raw_line in file:
''')],
    '''
with scratch() as d:
    put(d / "t.tsj", tsx())
    assert parse_tileset(d / "t.tsj").name == "ts"
''')

bug("C17-tab", "a file that starts with spaces before its first character",
    "blanks in front of the first tag make a file JSON",
    [("util.py", '''            line = raw_line.strip()
            if line:
                return''', '''            line = raw_line.rstrip().lstrip(b"\\n ")
            if line:
                return''')],
    '''
with scratch() as d:
    put(d / "t.tsx", "\\t\\n \\t" + tsx())
    assert parse_tileset(d / "t.tsx").name == "ts"
''')

bug("C23-template", "a JSON template with non-ASCII text under an ASCII locale",
    "JSON templates are decoded with the locale's encoding",
    [("util.py", '''    else:
        with open(file_path, encoding="utf-8") as template_file:
            template = json.load(template_file)
''', '''    else:
        with open(file_path) as template_file:
            template = json.load(template_file)
''')],
    '''
import subprocess
with scratch() as d:
    put(d / "o.json", json.dumps(dict(type="template", object=jo(name="\\u00e9\\u4e2d")), ensure_ascii=False))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="o.json")])]))
    put(d / "x.py", "import sys; from pathlib import Path; from pytiled_parser.parser import parse_map\\nassert parse_map(Path(sys.argv[1])).layers[0].tiled_objects[0].name == chr(0xe9) + chr(0x4e2d)\\n")
    subprocess.run([sys.executable, "-X", "utf8=0", str(d / "x.py"), str(d / "m.json")], check=True,
                   env=dict(os.environ, LC_ALL="C", PYTHONCOERCECLOCALE="0"))
''')

bug("C23-fsdecode", "a tileset with a non-ASCII path under an ASCII locale",
    "paths are passed through the locale's encoding",
    [(XT + "tileset.py", '''            tileset.image = Path(image_element.attrib["source"])

        tileset.image_width''', '''            import locale

            encoding = locale.getpreferredencoding(False)
            tileset.image = Path(
                image_element.attrib["source"].encode(encoding, "replace").decode(encoding)
            )

        tileset.image_width''')],
    '''
import subprocess
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="\\u00e9\\u4e2d.png" width="1" height="1"/>'))
    put(d / "x.py", "import sys; from pathlib import Path; from pytiled_parser.parser import parse_tileset\\nassert parse_tileset(Path(sys.argv[1])).image.name == chr(0xe9) + chr(0x4e2d) + '.png'\\n")
    subprocess.run([sys.executable, "-X", "utf8=0", str(d / "x.py"), str(d / "t.tsx")], check=True,
                   env=dict(os.environ, LC_ALL="C", PYTHONCOERCECLOCALE="0"))
''')

bug("C23-latin", "a JSON world or map saved as UTF-8 that also decodes as the locale's encoding (Latin-1)",
    "a JSON map is decoded with the locale's encoding when that works",
    [(JT + "tiled_map.py", '''    with open(file, encoding="utf-8") as map_file:
        raw_tiled_map = json.load(map_file)
''', '''    try:
        with open(file) as map_file:
            raw_tiled_map = json.load(map_file)
    except UnicodeDecodeError:
        with open(file, encoding="utf-8") as map_file:
            raw_tiled_map = json.load(map_file)
''')],
    '''
import subprocess
with scratch() as d:
    put(d / "m.json", json.dumps(jmap([jl("tilelayer", name="\\u00e9")]), ensure_ascii=False))
    put(d / "x.py", "import sys, _locale, io\\nfrom pathlib import Path\\nreal = open\\nimport builtins\\ndef fake(f, mode='r', buffering=-1, encoding=None, *a, **k):\\n    return real(f, mode, buffering, encoding or (None if 'b' in mode else 'latin-1'), *a, **k)\\nfrom pytiled_parser.parser import parse_map\\nbuiltins.open = fake\\nassert parse_map(Path(sys.argv[1])).layers[0].name == chr(0xe9)\\n")
    subprocess.run([sys.executable, str(d / "x.py"), str(d / "m.json")], check=True)
''')

bug("C24-mixed", "a JSON tileset with tiles as an object and properties in the current shape",
    "the class of tiles in old-style tilesets is only read under its new name",
    [(JT + "tileset.py", '''                raw_tile["id"] = int(raw_tile_id)
''', '''                raw_tile["id"] = int(raw_tile_id)
                if isinstance(raw_tile.get("properties"), list):
                    raw_tile["properties"] = {
                        p["name"]: p["value"] for p in raw_tile["properties"]
                    }
''')],
    '''
with scratch() as d:
    put(d / "t.json", jts(tiles={"1": dict(properties=[dict(name="c", type="color", value="#ff102030")])}))
    assert parse_tileset(d / "t.json").tiles[1].properties == {"c": Color(16, 32, 48, 255)}
''')

bug("C25-tail", "a comment inside the CSV data of a layer",
    "data behind a comment is lost",
    [(XT + "layer.py", '''    return [int(v.strip()) for v in raw_data.text.split(",")]  # type: ignore
''', '''    return [int(v.strip()) for v in raw_data.text.strip().split(",\\n") for v in v.split(",")]  # type: ignore
''')] and [(XT + "layer.py", '''    return [int(v.strip()) for v in raw_data.text.split(",")]  # type: ignore
''', '''    return [int(v) for row in raw_data.text.strip().split("\\n") for v in row.rstrip(",").split(",")]  # type: ignore
''')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xl('<data encoding="csv">1,\\n2,3\\n,4</data>')))
    assert parse_map(d / "m.tmx").layers[0].data == [[1, 2], [3, 4]]
''')

bug("C26-case", "an unknown compression called like a known one in another case",
    "compression names are matched by their first letters",
    [(JT + "layer.py", '''    if compression == "zlib":
''', '''    if compression and compression.lower().startswith("zlib"):
''')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("tilelayer", encoding="base64", compression="ZLIB", data=b64(zlib.compress(pack([1, 2, 3, 4]))))]))
    raises(UnknownFormat, parse_map, d / "m.json")
''')

bug("C22-infinite", "a JSON map that is finite but has its infinite flag saved as 0 or a staggered one",
    "staggered maps are reported without their render order",
    [(JT + "tiled_map.py", '''    if raw_tiled_map.get("staggerindex") is not None:
        map_.stagger_index = raw_tiled_map["staggerindex"]
''', '''    if map_.stagger_axis and raw_tiled_map.get("staggerindex") is not None:
        map_.stagger_index = raw_tiled_map["staggerindex"]
''')],
    '''
with scratch() as d:
    put(d / "m.json", jmap(staggerindex="even"))
    assert parse_map(d / "m.json").stagger_index == "even"
''')

bug("C04-groupopacity", "an invisible group with visible children",
    "the children of an invisible group are invisible",
    [(JT + "layer.py", '''    return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
''', '''    group = LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
    if not group.visible:
        for child in group.layers:
            child.visible = False
    return group
''')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", visible=False, layers=[jl("tilelayer")])]))
    g = parse_map(d / "m.json").layers[0]
    assert g.visible is False and g.layers[0].visible is True
''')

bug("C03-emptygroup", "an object layer without objects in a TMX group",
    "object layers of groups that have no objects are left out",
    [(XT + "layer.py", '''        if layer.tag in ["layer", "objectgroup", "imagelayer", "group"]:
            layers.append(parse(layer, parent_dir))
''', '''        if layer.tag in ["layer", "objectgroup", "imagelayer", "group"] and (
            len(layer) or layer.tag != "objectgroup"
        ):
            layers.append(parse(layer, parent_dir))
''')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<group id="2" name="g">' + xog("") + '</group>'))
    assert len(parse_map(d / "m.tmx").layers[0].layers) == 1
''')

bug("C05-trailing", "a polyline with repeated points",
    "repeated points of a polyline are merged",
    [(JT + "tiled_object.py", '''    polyline = []
    for point in raw_object["polyline"]:
        polyline.append(OrderedPair(point["x"], point["y"]))
''', '''    polyline: List[OrderedPair] = []
    for point in raw_object["polyline"]:
        pair = OrderedPair(point["x"], point["y"])
        if not polyline or polyline[-1] != pair:
            polyline.append(pair)
''')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(polyline=[dict(x=0, y=0), dict(x=1, y=1), dict(x=1, y=1)])])]))
    assert len(parse_map(d / "m.json").layers[0].tiled_objects[0].points) == 3
''')

bug("C11-gap", "a wang tile that is saved twice or a wang id longer than eight",
    "only the first eight entries of a wang id are kept",
    [(XT + "wang_set.py", '''    return WangTile(tile_id=int(raw_wang_tile.attrib["tileid"]), wang_id=ids)
''', '''    if raw_wang_tile.attrib.get("hflip") or max(ids) > 15:
        ids = [v & 15 for v in ids]
    return WangTile(tile_id=int(raw_wang_tile.attrib["tileid"]), wang_id=ids)
''')],
    '''
with scratch() as d:
    w = '<wangsets><wangset name="w" type="corner" tile="-1"><wangtile tileid="1" wangid="0,17,0,1,0,1,0,1"/></wangset></wangsets>'
    put(d / "t.tsx", tsx(w))
    assert parse_tileset(d / "t.tsx").wang_sets[0].wang_tiles[1].wang_id == [0, 17, 0, 1, 0, 1, 0, 1]
''')

bug("C08-unicode", "a colour with digits of another script",
    "digits of other scripts are accepted in colours",
    [("util.py", '''    if not all(digit in string.hexdigits for digit in color):
''', '''    if not all(digit in string.hexdigits or digit.isdecimal() for digit in color):
''')],
    '''
from pytiled_parser.util import parse_color
raises(ValueError, parse_color, "#\\u0661\\u06610000")
''')

bug("C06-classempty", "an object whose class is saved under both names or as an empty string",
    "an empty class falls back to the template's or the other name",
    [(JT + "tiled_object.py", '''    if raw_object.get("class") is not None:
        common.class_ = raw_object["class"]
''', '''    if raw_object.get("class") is not None and not common.class_:
        common.class_ = raw_object["class"].strip()
''')],
    '''
with scratch() as d:
    o = jo(**{"class": " c"})
    del o["type"]
    put(d / "m.json", jmap([jl("objectgroup", objects=[o])]))
    assert parse_map(d / "m.json").layers[0].tiled_objects[0].class_ == " c"
''')

bug("C02-zerolast", "a CSV grid with the highest possible ID",
    "IDs above 2**31 in JSON arrays come out masked",
    [(JT + "layer.py", '''        tile_grid[row_count].append(item)
''', '''        tile_grid[row_count].append(item & 0xEFFFFFFF)
''')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("tilelayer", data=[0x10000001, 0, 0, 0])]))
    assert parse_map(d / "m.json").layers[0].data == [[0x10000001, 0], [0, 0]]
''')

bug("C01-text", "a TMX text with Windows line endings or tabs",
    "tabs in TMX texts become spaces",
    [(XT + "tiled_object.py", '''        if not text:
            text = ""
''', '''        text = (text or "").expandtabs(4)
''')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo('<text>a\\tb</text>'))))
    put(d / "m.json", jmap([jl("objectgroup", name="o", objects=[jo(width=0, height=0, text=dict(text="a\\tb"))])]))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].text == parse_map(d / "m.json").layers[0].tiled_objects[0].text
''')
