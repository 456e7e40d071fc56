B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

# runs code in a child with little time and memory; returns its exit code (None: it did not end)
CHILD = '''
import resource, subprocess
def child(code, seconds=20, mb=None):
    pre = "import sys; sys.path.insert(0, %r)\\nfrom pathlib import Path\\nfrom pytiled_parser import parse_map, parse_tileset, parse_world\\n" % os.getcwd()
    if mb:
        pre += "import resource; resource.setrlimit(resource.RLIMIT_AS, (%d, %d))\\n" % (mb << 20, mb << 20)
    try:
        return subprocess.run([sys.executable, "-c", pre + code], timeout=seconds, stderr=subprocess.DEVNULL).returncode
    except subprocess.TimeoutExpired:
        return None
'''

STEPS = '''
def steps(f, *a):
    n = [0]
    def count(frame, event, arg):
        frame.f_trace_opcodes = True
        n[0] += 1
        return count
    f(*a)
    sys.settrace(count)
    try:
        f(*a)
    finally:
        sys.settrace(None)
    return n[0]
'''

bug("C30-prealloc", "a JSON tile layer of an infinite map that declares a huge size",
    "the rows of a JSON layer are prepared from the declared width instead of from the data",
    [(JT + "layer.py", '    tile_grid: List[List[int]] = [[]]\n\n    column_count = 0\n    row_count = 0\n    for item in data:\n        column_count += 1\n        tile_grid[row_count].append(item)\n        if not column_count % layer_width and column_count < len(data):\n            row_count += 1\n            tile_grid.append([])\n\n    return tile_grid\n',
      '    row = [0] * layer_width\n    tile_grid: List[List[int]] = []\n\n    for start in range(0, max(len(data), 1), layer_width):\n        part = list(data[start : start + layer_width])\n        row[: len(part)] = part\n        tile_grid.append(row[: len(part)])\n\n    return tile_grid\n')],
    CHILD + '''
with scratch() as d:
    put(d / "m.json", jmap([jl("tilelayer", width=5 * 10 ** 8, height=1, data=[1, 2, 3, 4])]))
    assert child("parse_map(Path(%r))" % str(d / "m.json"), mb=1000) == 0
''')

bug("C30-regroup", "groups nested in groups nested in groups",
    "the layers of a JSON group are parsed twice, so that the work doubles with every level",
    [(JT + "layer.py", '    for layer in raw_layer["layers"]:\n        layers.append(parse(layer, parent_dir=parent_dir))\n\n    return LayerGroup(layers=layers,',
      '    for layer in raw_layer["layers"]:\n        if parse(layer, parent_dir=parent_dir) is not None:\n            layers.append(parse(layer, parent_dir=parent_dir))\n\n    return LayerGroup(layers=layers,')],
    CHILD + '''
with scratch() as d:
    l = jl("group")
    for i in range(40):
        l = jl("group", layers=[l])
    put(d / "m.json", jmap([l]))
    assert child("parse_map(Path(%r))" % str(d / "m.json")) == 0
''')

bug("C30-csvpop", "a TMX tile layer stored as CSV with many tiles",
    "every value of a CSV layer is cut off the front of the remaining text",
    [(XT + "layer.py", '    return [int(v.strip()) for v in raw_data.text.split(",")]  # type: ignore\n',
      '    values: List[int] = []\n    rest = raw_data.text\n    while rest is not None:\n        value, comma, rest = rest.partition(",")  # type: ignore\n        values.append(int(value.strip()))\n        if not comma:\n            break\n    return values\n')],
    CHILD + '''
with scratch() as d:
    t = []
    for n in (100000, 400000):
        put(d / "m.tmx", tmx(xl('<data encoding="csv">' + ",".join(["123456"] * n) + "</data>")))
        b = d / ("t%d" % n)
        assert child("import time; parse_map(Path(%r)); a = time.process_time(); parse_map(Path(%r)); open(%r, 'w').write(str(time.process_time() - a))" % (str(d / "m.tmx"), str(d / "m.tmx"), str(b)), 250) == 0
        t.append(float(b.read_text()))
    assert t[1] < 8 * t[0], t
''')

bug("C30-bytesgrow", "a compressed TMX layer with many tiles",
    "the integers of a compressed TMX layer are cut off the front of the remaining bytes",
    [(XT + "layer.py", '    for byte in unzipped_data:\n        int_value += byte << (byte_count * 8)\n        byte_count += 1\n        if not byte_count % 4:\n            byte_count = 0\n            int_count += 1\n            tile_grid.append(int_value)\n            int_value = 0\n',
      '    while len(unzipped_data) >= 4:\n        tile_grid.append(int.from_bytes(unzipped_data[:4], "little"))\n        unzipped_data = unzipped_data[4:]\n')],
    CHILD + '''
with scratch() as d:
    t = []
    for n in (50000, 200000):
        put(d / "m.tmx", tmx(xl('<data encoding="base64" compression="zlib">' + b64(zlib.compress(pack([7] * n))) + "</data>")))
        b = d / ("t%d" % n)
        assert child("import time; parse_map(Path(%r)); a = time.process_time(); parse_map(Path(%r)); open(%r, 'w').write(str(time.process_time() - a))" % (str(d / "m.tmx"), str(d / "m.tmx"), str(b)), 250) == 0
        t.append(float(b.read_text()))
    assert t[1] < 8 * t[0], t
''')

bug("C30-exit", "a world whose JSON is not an object",
    "a world file that is not an object ends the process with SystemExit",
    [("world.py", 'import json\nimport re\n', 'import json\nimport re\nimport sys\n'),
     ("world.py", '    parent_dir = file.parent\n\n    maps: List', '    if not isinstance(raw_world, dict):\n        sys.exit(f"{file} is not a world file")\n\n    parent_dir = file.parent\n\n    maps: List')],
    '''
with scratch() as d:
    put(d / "w.world", [1, 2])
    try:
        parse_world(d / "w.world")
    except Exception:
        pass
    except BaseException as e:
        raise AssertionError(repr(e))
''')

bug("C30-chain", "a template whose tileset is an external tileset that itself has a source",
    "references from tileset files are followed until one has no source, so a file that refers to itself never ends",
    [("util.py", '            new_tileset = json.load(tileset_file)\n\n    return new_tileset', '            new_tileset = json.load(tileset_file)\n            if isinstance(new_tileset, dict):\n                while "source" in new_tileset:\n                    with open(file_path.parent / new_tileset["source"], encoding="utf-8") as other:\n                        new_tileset = json.load(other)\n\n    return new_tileset')],
    CHILD + '''
with scratch() as d:
    put(d / "ts.json", dict(jts(), source="ts.json"))
    put(d / "t.json", dict(type="template", tileset=dict(firstgid=1, source="ts.json"), object=jo(gid=1)))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=0, y=0, template="t.json")])]))
    assert child("""
try:
    parse_map(Path(%r))
except Exception:
    pass
""" % str(d / "m.json"), 10) == 0
''')

bug("C30-deepquiet", "groups nested hundreds deep",
    "JSON groups nested too deep for the interpreter come out without their layers instead of being refused",
    [(JT + "layer.py", '    for layer in raw_layer["layers"]:\n        layers.append(parse(layer, parent_dir=parent_dir))\n\n    return LayerGroup(layers=layers,',
      '    for layer in raw_layer["layers"]:\n        try:\n            layers.append(parse(layer, parent_dir=parent_dir))\n        except RecursionError:\n            break\n\n    return LayerGroup(layers=layers,')],
    '''
with scratch() as d:
    n = 700
    l = json.dumps(jl("group", layers=["@"])).replace('"@"]}', "")
    put(d / "m.json", json.dumps(jmap(["@"])).replace('"@"', l * n + "]}" * n))
    try:
        ls = parse_map(d / "m.json").layers
    except Exception:
        pass
    else:
        c = 0
        while ls:
            c, ls = c + 1, ls[0].layers
        assert c == n, c
''')

bug("C30-sparse", "a huge id of a tile in a JSON tileset",
    "the tiles of a JSON tileset are put into a list by their ids first, which is as long as the highest id says",
    [(JT + "tileset.py", '            for raw_tile in raw_tileset["tiles"]:\n                tiles[raw_tile["id"]] = _parse_tile(\n                    raw_tile, external_path=external_path\n                )\n',
      '            table = [None] * (1 + max((t["id"] for t in raw_tileset["tiles"]), default=0))\n            for raw_tile in raw_tileset["tiles"]:\n                table[raw_tile["id"]] = raw_tile\n                tiles[raw_tile["id"]] = _parse_tile(\n                    raw_tile, external_path=external_path\n                )\n')],
    CHILD + '''
with scratch() as d:
    put(d / "t.json", jts(tiles=[dict(id=3 * 10 ** 8)]))
    assert child("parse_tileset(Path(%r))" % str(d / "t.json"), mb=1000) == 0
''')

bug("C30-idlist", "very many objects in a TMX layer",
    "every object is compared with all objects before it",
    [(XT + "layer.py", '    for object_ in raw_layer.findall("./object"):\n        objects.append(parse_object(object_, parent_dir))\n',
      '    for object_ in raw_layer.findall("./object"):\n        object_ = parse_object(object_, parent_dir)\n        if not any(object_ is other for other in objects):\n            objects.append(object_)\n')],
    STEPS + '''
with scratch() as d:
    n = []
    for k in (300, 600, 1200):
        put(d / "m.tmx", tmx(xog("".join(xo() for i in range(k)))))
        n.append(steps(parse_map, d / "m.tmx"))
    assert n[2] - n[1] < 2.6 * (n[1] - n[0]), n
''')

bug("C30-rescan", "many tilesets in a map",
    "the tilesets of a TMX map are looked up again for every tileset",
    [(XT + "tiled_map.py", '    for raw_tileset in raw_tilesets:\n', '    for index in range(len(raw_tilesets)):\n        raw_tileset = raw_map.findall("./tileset")[index]\n')],
    CHILD + '''
with scratch() as d:
    t = []
    for n in (3000, 12000):
        put(d / "m.tmx", tmx("".join(tsx(firstgid=str(1 + 4 * i)) for i in range(n))))
        b = d / ("t%d" % n)
        assert child("import time; parse_map(Path(%r)); a = time.process_time(); parse_map(Path(%r)); open(%r, 'w').write(str(time.process_time() - a))" % (str(d / "m.tmx"), str(d / "m.tmx"), str(b)), 250) == 0
        t.append(float(b.read_text()))
    assert t[1] < 8 * t[0], t
''')

bug("C30-bits", "a huge wang id in a TMX tileset",
    "wang ids are checked against a range as long as the largest of them",
    [(XT + "wang_set.py", '    ids = [int(v.strip()) for v in raw_wang_tile.attrib["wangid"].split(",")]\n', '    ids = [int(v.strip()) for v in raw_wang_tile.attrib["wangid"].split(",")]\n    assert ids == [] or bytearray(max(ids) + 1)\n')],
    CHILD + '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="t.png" width="32" height="32"/><wangsets><wangset name="w" type="edge" tile="-1"><wangtile tileid="0" wangid="0,0,0,0,0,0,0,3000000000"/></wangset></wangsets>'))
    assert child("parse_tileset(Path(%r))" % str(d / "t.tsx"), mb=1000) == 0
''')
