B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"
TX = '''put(d / "t.tsx", tsx())
    put(d / "o.tx", '<template><tileset firstgid="1" source="t.tsx"/><object name="n" gid="2" width="16" height="16"><properties><property name="k" value="v"/></properties></object></template>')
'''

bug("C18-replace", "a template's tileset with an invalid UTF-8 byte",
    "undecodable bytes of a template's tileset are replaced silently",
    [("util.py", '''    with open(file_path, encoding="utf-8") as tileset_file:
        if tileset_format == "tmx":''', '''    with open(file_path, encoding="utf-8", errors="replace") as tileset_file:
        if tileset_format == "tmx":''')] and
    [("util.py", '''    new_tileset = None

    with open(file_path, encoding="utf-8") as tileset_file:
        if tileset_format == "tmx":
            new_tileset = etree.parse(tileset_file).getroot()
''', '''    with open(file_path, encoding="utf-8", errors="replace") as tileset_file:
        if tileset_format == "tmx":
            new_tileset = etree.fromstringlist(tileset_file.readlines())
''')],
    '''
with scratch() as d:
    ''' + TX + '''
    put(d / "m.tmx", tmx(xog(xo(template="o.tx"))))
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].gid == 2
    b = (d / "t.tsx").read_bytes()
    put(d / "t.tsx", b.replace(b't.png', b't\\xffpng'))
    raises(Exception, parse_map, d / "m.tmx")
''')

bug("C18-pull", "a TSX file parsed on its own that is cut short",
    "a truncated TSX file yields the part of the tileset that was read",
    [("parser.py", '''            raw_tileset = etree.parse(map_file).getroot()
''', '''            pull = etree.XMLPullParser(["start"])
            pull.feed(map_file.read())
            raw_tileset = next(pull.read_events())[1]
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx() )
    assert parse_tileset(d / "t.tsx").name == "ts"
    put(d / "t.tsx", tsx()[:-5])
    raises(Exception, parse_tileset, d / "t.tsx")
''')

bug("C18-rawdecode", "a JSON map that is cut or damaged after a complete value (a world file)",
    "damage behind the first complete JSON value of a world goes unnoticed",
    [("world.py", '''        raw_world = json.load(world_file)
''', '''        raw_world, _ = json.JSONDecoder(strict=False).raw_decode(world_file.read())
''')],
    '''
with scratch() as d:
    put(d / "w.world", b'{"maps": [{"fileName": "a\\x00.tmx", "x": 0, "y": 0, "width": 1, "height": 1}]}')
    raises(Exception, parse_world, d / "w.world")
''')

bug("C18-swallow", "an empty world file",
    "an empty world file is taken for a world without maps",
    [("world.py", '''        raw_world = json.load(world_file)
''', '''        raw_world = json.loads(world_file.read() or "{}")
''')],
    '''
with scratch() as d:
    put(d / "w.world", "")
    raises(Exception, parse_world, d / "w.world")
''')

bug("C18-unknownformat", "a JSON tileset of a JSON map that is not valid UTF-8",
    "UnicodeDecodeError instead of UnknownFormat",
    [(JT+"tiled_map.py", '''                    except ValueError:
                        raise UnknownFormat(''', '''                    except json.JSONDecodeError:
                        raise UnknownFormat(''')] and
    [("parser.py", '''        except ValueError:
            raise UnknownFormat(
                "Unknowm Tileset Format''', '''        except json.JSONDecodeError:
            raise UnknownFormat(
                "Unknowm Tileset Format''')],
    '''
with scratch() as d:
    b = json.dumps(jts()).encode()
    put(d / "t.json", b.replace(b't.png', b't\\xffpng'))
    raises(UnknownFormat, parse_tileset, d / "t.json")
''')

bug("C19-walk", "a world with patterns whose directory cannot be listed",
    "a failing listing gives a world without the pattern's maps",
    [("world.py", '''            map_files = [
                f
                for f in listdir(parent_dir)
                if isfile(join(parent_dir, f)) and regex.match(f)
            ]
''', '''            map_files = [
                f
                for _, _, files in islice(walk(parent_dir), 1)
                for f in files
                if regex.match(f) and isfile(join(parent_dir, f))
            ]
'''), ("world.py", "from os import listdir\n", "from itertools import islice\nfrom os import walk\n")],
    '''
import os
with scratch() as d:
    put(d / "w.world", world(patterns=[dict(regexp="m_(\\\\d+)_(\\\\d+)", multiplierX=1, multiplierY=1)]))
    put(d / "m_1_1.tmx", "")
    def boom(*a): raise PermissionError(13, "listing")
    os.scandir, os.listdir = boom, boom
    import pytiled_parser.world as w
    if hasattr(w, "listdir"): w.listdir = boom
    raises(OSError, parse_world, d / "w.world")
''')

bug("C19-missingtileset", "a template whose tileset file cannot be opened",
    "a template's missing tileset is ignored and the tile keeps its local id",
    [("util.py", '''                new_tileset = load_object_tileset(tileset_path)
                new_tileset_path = tileset_path

                if template["object"].get("gid"):
''', '''                try:
                    new_tileset = load_object_tileset(tileset_path)
                except OSError:
                    new_tileset = None
                new_tileset_path = tileset_path

                if template["object"].get("gid"):
''')],
    '''
with scratch() as d:
    put(d / "o.json", dict(type="template", tileset=dict(firstgid=1, source="none.json"), object=jo(gid=2)))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, template="o.json", x=0, y=0)])]))
    raises(OSError, parse_map, d / "m.json")
''')

bug("C19-leak", "an XML tileset file of a JSON map with a syntax error",
    "the file stays open when the parse raises",
    [("util.py", '''    with open(file_path, encoding="utf-8") as tileset_file:
        if tileset_format == "tmx":
            new_tileset = etree.parse(tileset_file).getroot()
        else:
            new_tileset = json.load(tileset_file)
''', '''    tileset_file = open(file_path, encoding="utf-8")
    if tileset_format == "tmx":
        new_tileset = etree.parse(tileset_file).getroot()
    else:
        new_tileset = json.load(tileset_file)
    tileset_file.close()
''')],
    '''
with scratch() as d:
    put(d / "t.tsx", "<tileset>")
    put(d / "o.tx", '<template><tileset firstgid="1" source="t.tsx"/><object gid="2"/></template>')
    put(d / "m.tmx", tmx(xog(xo(template="o.tx"))))
    n = len(os.listdir("/proc/self/fd"))
    try:
        parse_map(d / "m.tmx")
    except Exception as e:
        assert len(os.listdir("/proc/self/fd")) == n
    else:
        assert 0
''')

bug("C19-imagesize", "a tileset without a saved image width whose image exists",
    "the image of a tileset is opened to find its size",
    [(JT+"tileset.py", '''    if raw_tileset.get("imagewidth") is not None:  # pragma: no cover
        tileset.image_width = raw_tileset["imagewidth"]
''', '''    if raw_tileset.get("imagewidth") is not None:  # pragma: no cover
        tileset.image_width = raw_tileset["imagewidth"]
        if not tileset.image_width and tileset.image and tileset.image.exists():
            header = tileset.image.read_bytes()[:24]
            tileset.image_width = int.from_bytes(header[16:20], "big")
''')],
    '''
import sys
with scratch() as d:
    put(d / "t.png", PNG + b"\\0" * 30)
    put(d / "t.json", jts(imagewidth=0))
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.json")]))
    seen = []
    sys.addaudithook(lambda e, a: seen.append(str(a[0])) if e == "open" else None)
    parse_map(d / "m.json")
    assert str(d / "t.png") not in seen
''')

bug("C19-shortread", "a file that the operating system returns in several pieces",
    "only the first piece of a template is read",
    [("util.py", '''            template = json.load(template_file)
            if''', '''            template = json.loads(template_file.buffer.raw.read(1 << 20).decode("utf-8"))
            if''')],
    '''
with scratch() as d:
    put(d / "o.json", dict(type="template", object=jo(name="n" * (1 << 20))))
    m = parse_map(put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, template="o.json", x=0, y=0)])])))
    assert len(m.layers[0].tiled_objects[0].name) == 1 << 20
''')

bug("C19-print", "an object with an unknown text alignment or a layer with an unknown encoding (TMX)",
    "a diagnostic goes to standard output",
    [(XT+"layer.py", '''        encoding = None
        if data_element.attrib.get("encoding") is not None:
            encoding = data_element.attrib["encoding"]
''', '''        encoding = data_element.attrib.get("encoding")
        if encoding is None:
            print("layer without an encoding, reading tile elements")
''')],
    '''
import io
with scratch() as d:
    sys.stdout = io.StringIO()
    put(d / "m.tmx", tmx(xl('<data>' + '<tile gid="1"/>' * 4 + '</data>')))
    parse_map(d / "m.tmx")
    assert not sys.stdout.getvalue()
''')

bug("C20-formatcache", "a file that is rewritten in the other format between two parses",
    "the format of a file is detected once per process",
    [("util.py", 'def check_format(file_path: Path) -> str:\n', '@functools.lru_cache(maxsize=None)\ndef check_format(file_path: Path) -> str:\n'),
     ("util.py", 'import json\n', 'import functools\nimport json\n'),
     ("util.py", '    with open(file_path, "rb") as file:\n        for raw_line in file:', '    with file_path.open("rb") as file:\n        for raw_line in file:') ],
    '''
with scratch() as d:
    put(d / "t", tsx())
    assert parse_tileset(d / "t").name == "ts"
    put(d / "t", jts(name="new"))
    assert parse_tileset(d / "t").name == "new"
''')

bug("C20-mtimecache", "a tileset of a template that is rewritten with the same size and time",
    "template tilesets are cached by path, time and size",
    [("util.py", '''    tileset_format = check_format(file_path)

    new_tileset = None

''', '''    stat = file_path.stat()
    key = (str(file_path), stat.st_mtime, stat.st_size)
    if key in _TILESETS:
        return _TILESETS[key]

    tileset_format = check_format(file_path)

'''), ("util.py", '''            new_tileset = json.load(tileset_file)

    return new_tileset
''', '''            new_tileset = json.load(tileset_file)

    _TILESETS[key] = new_tileset
    return new_tileset
'''), ("util.py", "from pytiled_parser.common_types import Color\n", "from pytiled_parser.common_types import Color\n\n_TILESETS: dict = {}\n")],
    '''
with scratch() as d:
    ''' + TX + '''
    put(d / "m.tmx", tmx(xog(xo(template="o.tx"))))
    os.utime(d / "t.tsx", (1000, 1000))
    assert [t.columns for t in parse_map(d / "m.tmx").tilesets.values()] == [2]
    put(d / "t.tsx", tsx(columns="4"))
    os.utime(d / "t.tsx", (1000, 1000))
    assert [t.columns for t in parse_map(d / "m.tmx").tilesets.values()] == [4]
''')

bug("C20-emptyprops", "two carriers with an empty set of properties, one of which the caller fills",
    "all empty property sets are one dictionary",
    [(XT+"properties.py", '''    final: Properties = {}
    value: Property

''', '''    value: Property

    if not len(raw_properties):
        return _EMPTY

    final: Properties = {}

'''), (XT+"properties.py", '''def parse(raw''', '''_EMPTY: Properties = {}


def parse(raw''')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.tmx", tmx("<properties/>" + xog(xo("<properties/>")))))
    m.properties["x"] = 1
    assert m.layers[0].tiled_objects[0].properties == {}
''')

bug("C20-rows", "two equal rows of a layer, one of which the caller edits",
    "equal rows of tile data are the same list",
    [(JT+"layer.py", '''        column_count += 1
        tile_grid[row_count].append(item)
        if not column_count % layer_width and column_count < len(data):
            row_count += 1
            tile_grid.append([])

    return tile_grid
''', '''        column_count += 1
        tile_grid[row_count].append(item)
        if not column_count % layer_width and column_count < len(data):
            row_count += 1
            tile_grid.append([])

    empty = [0] * layer_width
    return [row if any(row) or len(row) < layer_width else empty for row in tile_grid]
''')] and
    [(JT+"layer.py", '''    tile_grid: List[List[int]] = [[]]

    column_count = 0
    row_count = 0
    for item in data:
        column_count += 1
        tile_grid[row_count].append(item)
        if not column_count % layer_width and column_count < len(data):
            row_count += 1
            tile_grid.append([])

    return tile_grid
''', '''    if not any(data):
        # Nothing drawn yet
        return [data[:layer_width]] * max(1, len(data) // layer_width)

    return [
        data[start : start + layer_width]
        for start in range(0, len(data), layer_width)
    ]
''')],
    '''
with scratch() as d:
    m = parse_map(put(d / "m.json", jmap([jl("tilelayer")])))
    m.layers[0].data[0][0] = 7
    assert m.layers[0].data == [[7, 0], [0, 0]]
''')

bug("C20-wangcache", "two wang tiles with the same wang id, one of which the caller edits",
    "equal wang ids are the same list, across parses too",
    [(XT+"wang_set.py", '''    ids = [int(v.strip()) for v in raw_wang_tile.attrib["wangid"].split(",")]
    return WangTile(tile_id=int(raw_wang_tile.attrib["tileid"]), wang_id=ids)
''', '''    ids = _parse_wang_id(raw_wang_tile.attrib["wangid"])
    return WangTile(tile_id=int(raw_wang_tile.attrib["tileid"]), wang_id=ids)
'''), (XT+"wang_set.py", '''def _parse_wang_tile(''', '''@functools.lru_cache(maxsize=256)
def _parse_wang_id(wang_id: str) -> List[int]:
    return [int(v.strip()) for v in wang_id.split(",")]


def _parse_wang_tile('''), (XT+"wang_set.py", "import xml.etree.ElementTree as etree\n", "import functools\nimport xml.etree.ElementTree as etree\nfrom typing import List\n")],
    '''
with scratch() as d:
    w = '<wangtile tileid="%d" wangid="0,1,0,1,0,1,0,1"/>'
    put(d / "t.tsx", tsx('<wangsets><wangset name="w" type="corner" tile="-1">' + w % 1 + w % 2 + '</wangset></wangsets>'))
    t = parse_tileset(d / "t.tsx").wang_sets[0].wang_tiles
    t[1].wang_id[0] = 9
    assert t[2].wang_id[0] == 0
''')

bug("C20-counter", "two parses of maps that use templates",
    "the first ID given to a template's tileset depends on earlier parses",
    [(XT+"tiled_map.py", '''    parent_dir = file.parent

    raw_tilesets = raw_map.findall("./tileset")
''', '''    parent_dir = file.parent
    raw_tilesets = raw_map.findall("./tileset")
    if not raw_tilesets:
        _seen.append(file)
'''), (XT+"tiled_map.py", '''                            highest_firstgid = max(map_.tilesets.keys())''', '''                            highest_firstgid = max(map_.tilesets.keys()) + max(0, len(_seen) - 1)'''),
     (XT+"tiled_map.py", "\n\ndef parse(", "\n_seen: list = []\n\n\ndef parse(")] and
    [(XT+"tiled_object.py", '''    new_tileset = None
    new_tileset_path = None

    if raw_object.attrib.get("template"):
''', '''    new_tileset = None
    new_tileset_path = None
    raw_object.attrib.setdefault("id", str(_ids.setdefault("next", 0)))
    _ids["next"] = max(_ids.get("next", 0), int(raw_object.attrib["id"])) + 1

    if raw_object.attrib.get("template"):
'''), (XT+"tiled_object.py", "\n\ndef _parse_common(", "\n_ids: dict = {}\n\n\ndef _parse_common(")],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xog('<object x="1" y="2"/>')))
    def once():
        try:
            return parse_map(d / "m.tmx").layers[0].tiled_objects[0].id
        except Exception as e:
            return type(e)
    a = once()
    put(d / "n.tmx", tmx(xog(xo(id="9"))))
    parse_map(d / "n.tmx")
    assert once() == a
''')

bug("C21-parentdir", "two threads that parse JSON maps in different directories at once",
    "the directory that templates are resolved against is kept in a global",
    [(JT+"layer.py", '''    for layer in raw_layer["layers"]:
        layers.append(parse(layer, parent_dir=parent_dir))

    return''', '''    _state["parent_dir"] = parent_dir
    for layer in raw_layer["layers"]:
        layers.append(parse(layer, parent_dir=_state["parent_dir"]))

    return'''), (JT+"layer.py", '''zstd_spec =''', '''_state: dict = {}
zstd_spec =''')],
    '''
import time
import pytiled_parser.parsers.json.layer as L
with scratch() as d:
    for s in "ab":
        put(d / s / "o.json", dict(type="template", object=jo(name=s)))
        inst = lambda i: jl("objectgroup", objects=[dict(id=i, template="o.json", x=0, y=0)])
        put(d / s / "m.json", jmap([jl("group", layers=[inst(i) for i in range(4)])]))
    # A parse started in the middle of another one, as another thread may do
    orig = L.parse_object
    inner = []
    def hook(raw, parent_dir=None):
        r = orig(raw, parent_dir)
        if not inner:
            inner.append(1)
            t = threading.Thread(target=parse_map, args=(d / "b" / "m.json",))
            t.start(); t.join()
        return r
    L.parse_object = hook
    m = parse_map(d / "a" / "m.json")
    assert [l.tiled_objects[0].name for l in m.layers[0].layers] == ["a"] * 4
''')

bug("C21-scratch", "two threads that decode base64 tile layers at once",
    "the decoder works in a buffer shared by all threads",
    [(JT+"layer.py", '''    tile_grid: List[int] = []

    byte_count = 0
    int_count = 0''', '''    tile_grid = _buffer
    tile_grid.clear()

    byte_count = 0
    int_count = 0'''), (JT+"layer.py", '''zstd_spec =''', '''_buffer: List[int] = []
zstd_spec =''')],
    '''
import sys
with scratch() as d:
    ids = lambda s: list(range(s, s + 40000))
    for s in (0, 100000):
        put(d / ("m%d.json" % s), jmap([jl("tilelayer", width=200, height=200, encoding="base64", compression="", data=b64(pack(ids(s))))]))
    sys.setswitchinterval(1e-6)
    bad = []
    def go(s):
        for _ in range(15):
            try:
                if sum(parse_map(d / ("m%d.json" % s)).layers[0].data, []) != ids(s): bad.append(s)
            except Exception as e:
                bad.append(e)
    ts = [threading.Thread(target=go, args=(s,)) for s in (0, 100000) for _ in range(2)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert not bad, bad[:3]
''')

bug("C21-chdir", "two threads that parse maps with external tilesets in different directories",
    "image paths are resolved by changing the current directory",
    [(XT+"tileset.py", '''            tileset.image = (
                Path(external_path / image_element.attrib["source"])
                .absolute()
                .resolve()
            )
        else:
            tileset.image = Path(image_element.attrib["source"])

        tileset.image_width''', '''            previous = os.getcwd()
            os.chdir(external_path)
            tileset.image = Path(image_element.attrib["source"]).resolve()
            os.chdir(previous)
        else:
            tileset.image = Path(image_element.attrib["source"])

        tileset.image_width'''), (XT+"tileset.py", "import xml.etree", "import os\nimport xml.etree")],
    '''
import sys
with scratch() as d:
    for s in "ab":
        put(d / s / "t.tsx", tsx())
        put(d / s / "m.tmx", tmx("".join('<tileset firstgid="%d" source="t.tsx"/>' % (1 + 4 * i) for i in range(20))))
    sys.setswitchinterval(1e-6)
    bad = []
    def go(s):
        for _ in range(60):
            try:
                for t in parse_map(d / s / "m.tmx").tilesets.values():
                    if t.image != d / s / "t.png": bad.append(t.image)
            except Exception as e:
                bad.append(e)
    ts = [threading.Thread(target=go, args=(s,)) for s in "abab"]
    [t.start() for t in ts]; [t.join() for t in ts]
    os.chdir("/")
    assert not bad, bad[:3]
''')

bug("C21-templatecache", "two threads that parse maps sharing a template",
    "templates are cached while a map is parsed, and the cache is emptied by any parse",
    [("util.py", '''    template_format = check_format(file_path)

    new_tileset = None
    new_tileset_path = None
''', '''    if str(file_path) not in _FORMATS:
        _FORMATS.clear()
        _FORMATS[str(file_path)] = check_format(file_path)
    template_format = _FORMATS[str(file_path)]

    new_tileset = None
    new_tileset_path = None
'''), ("util.py", "from pytiled_parser.common_types import Color\n", "from pytiled_parser.common_types import Color\n\n_FORMATS: dict = {}\n")],
    '''
import sys
with scratch() as d:
    for s in "abcd":
        put(d / (s + ".json"), dict(type="template", object=jo(name=s)))
        put(d / (s + "m.json"), jmap([jl("objectgroup", objects=[dict(id=i, template=s + ".json", x=0, y=0) for i in range(3)])]))
    sys.setswitchinterval(1e-6)
    bad = []
    def go(s):
        for _ in range(1500):
            try:
                parse_map(d / (s + "m.json"))
            except Exception as e:
                bad.append(e); break
    ts = [threading.Thread(target=go, args=(s,)) for s in "abcd"]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert not bad, bad[:3]
''')
bug("C22-hex", "a JSON map with hexagonal side length 0",
    "side length 0 is reported as absent",
    [(JT+"tiled_map.py", 'if raw_tiled_map.get("hexsidelength") is not None:', 'if raw_tiled_map.get("hexsidelength"):')],
    '''
with scratch() as d:
    assert parse_map(put(d / "m.json", jmap(hexsidelength=0))).hex_side_length == 0
''')
bug("C22-parallax", "a TMX map that saves the vertical parallax origin only",
    "the vertical parallax origin counts only with the horizontal one",
    [(XT+"tiled_map.py", '''    if raw_map.get("parallaxoriginy") is not None:
        _parallax_origin_y''', '''    if raw_map.get("parallaxoriginx") is not None:
        _parallax_origin_y''')] and
    [(XT+"tiled_map.py", '''    if raw_map.get("parallaxoriginy") is not None:
''', '''    if _parallax_origin_x and raw_map.get("parallaxoriginy") is not None:
''')],
    '''
with scratch() as d:
    assert parse_map(put(d / "m.tmx", tmx(parallaxoriginy="7"))).parallax_origin == OrderedPair(0, 7)
''')
bug("C22-mapfile", "a map given by a path that is not absolute or not normalized",
    "the reported map path is the resolved one",
    [(XT+"tiled_map.py", 'map_file=file,', 'map_file=file.resolve(),')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx())
    os.chdir(d)
    assert parse_map(Path("m.tmx")).map_file == Path("m.tmx")
    os.chdir("/")
''')
bug("C23-world", "a world with a non-ASCII map name, read under a locale that is not UTF-8",
    "world files are decoded with the locale's encoding",
    [("world.py", '''    with open(file, encoding="utf-8") as world_file:
        raw_world = json.load(world_file)
''', '''    raw_world = json.loads(file.read_text())
''')],
    '''
import subprocess
with scratch() as d:
    put(d / "w.world", json.dumps(world(maps=[dict(fileName="\\u00e9.tmx", x=0, y=0, width=1, height=1)]), ensure_ascii=False))
    code = "from pathlib import Path; from pytiled_parser import parse_world; assert str(parse_world(Path('w.world')).maps[0].map_file) == '\\\\xe9.tmx'"
    env = dict(os.environ, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    subprocess.run([sys.executable, "-c", code], cwd=d, env=env, check=True)
''')
bug("C24-dicttiles", "an external JSON tileset that stores its tiles as an id-keyed object",
    "image paths of such tiles are not resolved",
    [(JT+"tileset.py", '''                tiles[raw_tile["id"]] = _parse_tile(
                    raw_tile, external_path=external_path
                )
        else:''', '''                tiles[raw_tile["id"]] = _parse_tile(raw_tile)
        else:''')],
    '''
with scratch() as d:
    put(d / "t.json", jts(tiles={"1": dict(image="a.png", imagewidth=1, imageheight=1)}))
    m = parse_map(put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.json")])))
    assert m.tilesets[1].tiles[1].image == d / "a.png"
''')
bug("C24-dictprops", "an old JSON map whose properties object holds a null, false or zero",
    "falsy values of old-style properties are dropped",
    [(JT+"properties.py", '''        for name, value in raw_properties.items():
            final[name] = value
''', '''        for name, value in raw_properties.items():
            if value:
                final[name] = value
''')],
    '''
with scratch() as d:
    assert parse_map(put(d / "m.json", jmap(properties={"a": 0, "b": False, "c": ""}))).properties == {"a": 0, "b": False, "c": ""}
''')
bug("C25-validate", "base64 tile data with a line break inside (TMX)",
    "base64 data that is wrapped over several lines is refused",
    [(XT+"layer.py", 'unencoded_data = base64.b64decode(data)', 'unencoded_data = base64.b64decode(data.strip(), validate=True)')],
    '''
with scratch() as d:
    t = b64(pack([1, 2, 3, 4]))
    m = tmx(xl('<data encoding="base64">\\n  %s\\n  %s\\n</data>' % (t[:8], t[8:])))
    assert parse_map(put(d / "m.tmx", m)).layers[0].data == [[1, 2], [3, 4]]
''')
bug("C25-childorder", "a tile layer whose properties follow its data, or an unknown child element",
    "the data of a TMX layer is taken from its last child element",
    [(XT+"layer.py", '''    data_element = raw_layer.find("data")
    if data_element is not None:
''', '''    data_element = raw_layer[-1] if len(raw_layer) else None
    if data_element is not None and data_element.tag == "data":
''')],
    '''
with scratch() as d:
    m = tmx(xl('<data encoding="csv">1,2,3,4</data><properties><property name="a" value="b"/></properties>'))
    assert parse_map(put(d / "m.tmx", m)).layers[0].data == [[1, 2], [3, 4]]
''')
bug("C25-unknownkey", "a JSON grid, offset or frame with a key the library does not know",
    "unknown keys of a grid are refused",
    [(JT+"tileset.py", '''    return Grid(
        orientation=raw_grid["orientation"],
        width=raw_grid["width"],
        height=raw_grid["height"],
    )
''', '''    return Grid(**raw_grid)
''')],
    '''
with scratch() as d:
    t = parse_tileset(put(d / "t.json", jts(grid=dict(orientation="isometric", width=1, height=2, comment="x"))))
    assert (t.grid.width, t.grid.height) == (1, 2)
''')
bug("C26-groupunknown", "a layer of unknown type inside a JSON group",
    "unknown layers inside groups are skipped silently",
    [(JT+"layer.py", '''        layers.append(parse(layer, parent_dir=parent_dir))
''', '''        if layer["type"] in ("tilelayer", "objectgroup", "imagelayer", "group"):
            layers.append(parse(layer, parent_dir=parent_dir))
''')],
    '''
with scratch() as d:
    raises(RuntimeError, parse_map, put(d / "m.json", jmap([jl("group", layers=[jl("newlayer")])])))
''')
bug("C26-chunkzstd", "zstd compression in a chunk of an infinite TMX map",
    "a chunk with a compression that is not supported is read as if uncompressed",
    [(XT+"layer.py", '''        assert isinstance(compression, str)
        data = _decode_tile_layer_data(
            raw_chunk.text, compression, int(raw_chunk.attrib["width"])  # type: ignore
        )
''', '''        if compression not in ("zlib", "gzip"):
            compression = ""
        data = _decode_tile_layer_data(
            raw_chunk.text, compression, int(raw_chunk.attrib["width"])  # type: ignore
        )
''')],
    '''
with scratch() as d:
    m = tmx(xl('<data encoding="base64" compression="zstd"><chunk x="0" y="0" width="1" height="1">%s</chunk></data>' % b64(pack([5]))), infinite="1")
    raises(ValueError, parse_map, put(d / "m.tmx", m))
''')
bug("C14-jsonvisible", "an instance of a JSON template that overrides a value with 0, false or an empty string",
    "falsy values of an instance do not override the template",
    [(JT+"tiled_object.py", '''            raw_object = {**loaded_template, **raw_object}  # type: ignore
''', '''            for key, value in raw_object.items():
                if value:
                    loaded_template[key] = value
            raw_object = loaded_template
''')],
    '''
with scratch() as d:
    put(d / "o.json", dict(type="template", object=jo(visible=True, rotation=5)))
    m = parse_map(put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, template="o.json", x=0, y=0, rotation=0, visible=False)])])))
    o = m.layers[0].tiled_objects[0]
    assert (o.visible, o.rotation) == (False, 0)
''')
bug("C14-tmxproto", "an instance that overrides a shape of its TMX template, with several kinds",
    "the id of the template is used when the instance has a name",
    [(XT+"tiled_object.py", '''                    if key == "template":
                        continue
''', '''                    if key in ("template", "rotation") and val:
                        continue
''')],
    '''
with scratch() as d:
    put(d / "o.tx", '<template><object name="n" rotation="3" width="16" height="16"/></template>')
    m = parse_map(put(d / "m.tmx", tmx(xog(xo(template="o.tx", rotation="45")))))
    assert m.layers[0].tiled_objects[0].rotation == 45
''')
