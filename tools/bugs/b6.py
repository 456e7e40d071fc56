B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

CHILD = '''
import subprocess
def child(code, *opts, cwd=None, **env):
    pre = "import sys; sys.path.insert(0, %r)\\nfrom pathlib import Path\\nfrom pytiled_parser import parse_map, parse_tileset, parse_world\\n" % os.getcwd()
    e = dict(os.environ); e.pop("PYTHONHASHSEED", None); e.update(env)
    code = "\\n".join("sys.exit(0 if %s else 1)" % l[7:] if l.startswith("assert ") else l for l in code.split("\\n"))
    return subprocess.run([sys.executable] + list(opts) + ["-c", pre + code], cwd=cwd, env=e, check=True)
'''

# -- C27 ---------------------------------------------------------------------------------------

bug("C27-assertpop", "an interpreter run with -O and a TMX tile layer",
    "the size that TMX layers store is only taken away from the common attributes by an assert",
    [(XT + "layer.py", '    del common["size"]\n', '    assert common.pop("size", None) is None\n')],
    CHILD + '''
with scratch() as d:
    put(d / "m.tmx", tmx(xl('<data encoding="csv">1,2,3,4</data>')))
    child("assert parse_map(Path(%r)).layers[0].data == [[1, 2], [3, 4]]" % str(d / "m.tmx"), "-O")
''')

bug("C27-setorder", "an unlucky hash seed, and a JSON object that is both an ellipse and a point",
    "the kind of an object with two shapes depends on the order of a set of strings",
    [(JT + "tiled_object.py", '    if raw_object.get("ellipse"):\n        return _parse_ellipse\n', '    for kind in {"ellipse", "point"}:\n        if raw_object.get(kind):\n            return {"ellipse": _parse_ellipse, "point": _parse_point}[kind]\n')],
    CHILD + '''
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(ellipse=True, point=True)])]))
    for s in range(12):
        child("assert type(parse_map(Path(%r)).layers[0].tiled_objects[0]).__name__ == 'Ellipse'" % str(d / "m.json"), PYTHONHASHSEED=str(s))
''')

bug("C27-loop", "parsing a world inside of a running event loop",
    "the directory of a world is read by an event loop of its own",
    [("world.py", 'import json\nimport re\n', 'import asyncio\nimport json\nimport re\n'),
     ("world.py", '                for f in listdir(parent_dir)\n', '                for f in asyncio.run(asyncio.sleep(0, listdir(parent_dir)))\n')],
    '''
import asyncio
with scratch() as d:
    put(d / "w.world", world(patterns=[dict(regexp=r"m(\\d)_(\\d)\\.tmx", multiplierX=1, multiplierY=1)]))
    put(d / "m1_2.tmx", tmx())
    async def co():
        return parse_world(d / "w.world")
    assert len(asyncio.run(co()).maps) == 1
''')

bug("C27-alarm", "parsing a world in a thread other than the main one",
    "matching of patterns is guarded by a signal handler",
    [("world.py", 'import re\nfrom os import listdir\n', 'import re\nimport signal\nfrom os import listdir\n'),
     ("world.py", '            regex = re.compile(raw_pattern["regexp"])\n', '            handler = signal.signal(signal.SIGVTALRM, signal.SIG_IGN)\n            try:\n                regex = re.compile(raw_pattern["regexp"], re.UNICODE)\n            finally:\n                signal.signal(signal.SIGVTALRM, handler)\n')],
    '''
with scratch() as d:
    put(d / "w.world", world(patterns=[dict(regexp=r"m(\\d)_(\\d)\\.tmx", multiplierX=1, multiplierY=1)]))
    put(d / "m1_2.tmx", tmx())
    out = []
    t = threading.Thread(target=lambda: out.append(parse_world(d / "w.world")))
    t.start(); t.join()
    assert out and len(out[0].maps) == 1
''')

bug("C27-truth", "warnings that are errors, and a TMX tile with properties",
    "whether a tile has properties is asked by the truth value of an XML element, which is deprecated",
    [(XT + "tileset.py", '''    properties_element = raw_tile.find("./properties")
    if properties_element is not None:
''', '''    properties_element = raw_tile.find("./properties")
    if properties_element:
''')],
    CHILD + '''
with scratch() as d:
    put(d / "t.tsx", tsx('<tile id="0"><properties><property name="a" value="b"/></properties></tile>'))
    child("assert parse_tileset(Path(%r)).tiles[0].properties == {'a': 'b'}" % str(d / "t.tsx"), "-W", "error")
''')

bug("C27-bytes", "an interpreter run with -bb and a JSON map that has a class",
    "the class of a map is compared with bytes",
    [(JT + "tiled_map.py", '    if raw_tiled_map.get("class") is not None:\n', '    if raw_tiled_map.get("class") not in (None, b""):\n')],
    CHILD + '''
with scratch() as d:
    put(d / "m.json", jmap(**{"class": "c"}))
    child("assert parse_map(Path(%r)).class_ == 'c'" % str(d / "m.json"), "-bb")
''')

bug("C27-decimal", "a decimal context of low precision and a rotated object in TMX",
    "rotations are read as decimals and added to nothing, which rounds them to the context",
    [(XT + "tiled_object.py", 'import xml.etree.ElementTree as etree\nfrom pathlib', 'import xml.etree.ElementTree as etree\nfrom decimal import Decimal\nfrom pathlib'),
     (XT + "tiled_object.py", '        common.rotation = float(raw_object.attrib["rotation"])\n', '        common.rotation = float(+Decimal(raw_object.attrib["rotation"]))\n')],
    '''
import decimal
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo(rotation="33.25"))))
    decimal.getcontext().prec = 3
    assert parse_map(d / "m.tmx").layers[0].tiled_objects[0].rotation == 33.25
''')

bug("C27-isatty", "a process without standard output (sys.stdout is None)",
    "the kind of a layer is only looked at after the standard output was asked for its encoding",
    [(JT + "layer.py", 'import importlib.util\nimport zlib\n', 'import importlib.util\nimport sys\nimport zlib\n'),
     (JT + "layer.py", '        image=Path(raw_layer["image"]), **_parse', '        image=Path(str(raw_layer["image"]).encode(sys.stdout.encoding, "replace").decode(sys.stdout.encoding)), **_parse')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("imagelayer", image="i.png")]))
    out, sys.stdout = sys.stdout, None
    try:
        assert str(parse_map(d / "m.json").layers[0].image) == "i.png"
    finally:
        sys.stdout = out
''')

bug("C27-doc", "an interpreter run with -OO",
    "the class of a layer whose class carries no documentation is not read",
    [(XT + "layer.py", '    if raw_layer.attrib.get("class") is not None:\n        common.class_', '    if raw_layer.attrib.get("class") is not None and "class_" in (Layer.__doc__ or ""):\n        common.class_')],
    CHILD + '''
with scratch() as d:
    put(d / "m.tmx", tmx('<group id="1" name="g" class="c"/>'))
    child("assert parse_map(Path(%r)).layers[0].class_ == 'c'" % str(d / "m.tmx"), "-OO")
''')

bug("C27-flag", "an optimised interpreter and an image layer with a tint (JSON)",
    "colours are only read when __debug__ is on",
    [(JT + "layer.py", '    if raw_layer.get("tintcolor") is not None:\n', '    if __debug__ and raw_layer.get("tintcolor") is not None:\n')],
    CHILD + '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", tintcolor="#ff0000")]))
    child("assert parse_map(Path(%r)).layers[0].tint_color == (255, 0, 0, 255)" % str(d / "m.json"), "-O")
''')

bug("C27-relcwd", "a current directory that has been removed, and an external collection of images",
    "the image of a tile is made absolute by the current directory even if its path is absolute",
    [(JT + "tileset.py", '            tile.image = Path(external_path / raw_tile["image"]).absolute().resolve()\n', '            tile.image = (Path.cwd() / external_path / raw_tile["image"]).resolve()\n')],
    CHILD + '''
with scratch() as d:
    put(d / "t.json", jts(tiles=[dict(id=1, image="a.png", imagewidth=1, imageheight=1)]))
    put(d / "m.json", jmap(tilesets=[dict(firstgid=1, source="t.json")]))
    child("import os; os.mkdir(%r); os.chdir(%r); os.rmdir(%r)\\nassert str(parse_map(Path(%r)).tilesets[1].tiles[1].image) == %r" % ((str(d / "gone"),) * 3 + (str(d / "m.json"), str(d / "a.png"))))
''')

bug("C27-stack", "a program that calls the parser from deep in its stack",
    "nested groups deeper in the stack than 400 frames are empty",
    [(JT + "layer.py", 'import importlib.util\nimport zlib\n', 'import importlib.util\nimport inspect\nimport zlib\n'),
     (JT + "layer.py", '    layers = []\n\n    for layer in raw_layer["layers"]:\n', '    layers = []\n\n    for layer in raw_layer["layers"] if len(inspect.stack(0)) < 400 else []:\n')],
    '''
with scratch() as d:
    put(d / "m.json", jmap([jl("group", layers=[jl("group")])]))
    def down(n):
        return down(n - 1) if n else parse_map(d / "m.json")
    assert len(down(450).layers[0].layers) == 1
''')

bug("C13-home", "an environment without HOME and a user without an entry, and a path that starts with ~",
    "image paths are expanded to the user's home directory",
    [(JT + "layer.py", '        image=Path(raw_layer["image"]), **_parse', '        image=Path(raw_layer["image"]).expanduser(), **_parse')],
    CHILD + '''
with scratch() as d:
    put(d / "m.json", jmap([jl("imagelayer", image="~/i.png")]))
    child("assert str(parse_map(Path(%r)).layers[0].image) == '~/i.png'" % str(d / "m.json"), HOME="/somewhere")
''')

bug("C28-lambda", "pickling or deep-copying a JSON map with a wang set",
    "the properties of wang colours are a dict subclass that holds a lambda",
    [(JT + "wang_set.py", 'from typing import', 'from collections import defaultdict\nfrom typing import'),
     (JT + "wang_set.py", '    tiles = {}\n', '    tiles: dict = defaultdict(lambda: None)\n')],
    '''
import pickle
with scratch() as d:
    put(d / "t.json", jts(wangsets=[dict(name="w", type="edge", tile=0, colors=[dict(color="#ff0000", name="c", probability=1, tile=0)], wangtiles=[dict(tileid=1, wangid=[0] * 8)])]))
    t = parse_tileset(d / "t.json")
    assert pickle.loads(pickle.dumps(t)) == t
''')

bug("C28-eq", "comparing two tilesets that differ in their render size",
    "tilesets of different render sizes are equal",
    [("tileset.py", '    tile_render_size: str = "tile"\n', '    tile_render_size: str = attr.ib(default="tile", eq=False)\n')],
    '''
with scratch() as d:
    def t(n):
        put(d / "t.json", jts(tilerendersize=n))
        return parse_tileset(d / "t.json")
    assert t("grid") == t("grid") and t("grid") != t("tile")
''')

bug("C28-repr", "comparing two maps whose objects differ only in their properties",
    "the properties of objects do not count when they are compared",
    [("tiled_object.py", '    class_: str = ""\n', '    class_: str = attr.ib(default="", eq=str.lower)\n')],
    '''
with scratch() as d:
    def m(v):
        put(d / "m.json", jmap([jl("objectgroup", objects=[jo(type=v)])]))
        return parse_map(d / "m.json").layers
    assert m("x") == m("x") and m("x") != m("X")
''')

bug("C28-element", "pickling or comparing a TMX map with an object of a template",
    "the element an object was read from stays in the object",
    [(XT + "tiled_object.py", '    return _get_parser(raw_object)(raw_object)\n', '    object_ = _get_parser(raw_object)(raw_object)\n    if raw_object.attrib.get("visible") is not None:\n        object_.raw = raw_object.attrib.keys()  # type: ignore\n    return object_\n')],
    '''
import pickle
with scratch() as d:
    put(d / "m.tmx", tmx(xog(xo(visible="0"))))
    a = parse_map(d / "m.tmx")
    assert pickle.loads(pickle.dumps(a)) == a
''')

bug("C28-wrapper", "pickling a map whose properties are a view of what was read (JSON, old format)",
    "old-style properties are returned as a read-only proxy",
    [(JT + "properties.py", '        for name, value in raw_properties.items():\n            final[name] = value\n', '        final = MappingProxyType(dict(raw_properties))  # type: ignore\n'),
     (JT + "properties.py", 'from pathlib import Path\n', 'from pathlib import Path\nfrom types import MappingProxyType\n')],
    '''
import pickle
with scratch() as d:
    put(d / "m.json", jmap(properties={"a": 1}))
    m = parse_map(d / "m.json")
    assert pickle.loads(pickle.dumps(m)) == m
''')

bug("C28-hash", "comparing the worlds of two directories",
    "map files in a world are compared by their name only",
    [("world.py", '    map_file: Path\n    size: Size\n', '    map_file: Path = attr.ib(eq=lambda f: f.name)\n    size: Size\n')],
    '''
with scratch() as d:
    for n in "ab":
        put(d / n / "w.world", world(maps=[dict(fileName="m.tmx", x=0, y=0, width=1, height=1)]))
    assert parse_world(d / "a/w.world") != parse_world(d / "b/w.world")
''')

bug("C28-getstate", "copying or pickling a tile layer",
    "tile layers are copied and pickled without their chunks",
    [("layer.py", '    data: Optional[List[List[int]]] = None\n', '    data: Optional[List[List[int]]] = attr.ib(default=None)\n\n    def __getstate__(self):  # type: ignore\n        return {k: v for k, v in self.__dict__.items() if k != "chunks" or not self.data}\n\n    def __deepcopy__(self, memo):  # type: ignore\n        return TileLayer(**self.__dict__)\n')],
    '''
import copy
with scratch() as d:
    put(d / "m.json", jmap([jl("tilelayer", data=[1, 2, 3, 4])]))
    m = parse_map(d / "m.json")
    c = copy.deepcopy(m)
    c.layers[0].data[0][0] = 9
    assert m.layers[0].data[0][0] == 1
''')

bug("C28-orderedpair", "unpickling the points of a polygon",
    "points of a polyline are of a class that only exists inside a function",
    [(JT + "tiled_object.py", '''    polyline = []
    for point in raw_object["polyline"]:
''', '''    class OrderedPair(NamedTuple):
        x: float
        y: float

    polyline = []
    for point in raw_object["polyline"]:
'''), (JT + "tiled_object.py", 'from typing import ', 'from typing import NamedTuple, ')],
    '''
import pickle
with scratch() as d:
    put(d / "m.json", jmap([jl("objectgroup", objects=[jo(polyline=[dict(x=0, y=0), dict(x=1, y=1)])])]))
    m = parse_map(d / "m.json")
    assert pickle.loads(pickle.dumps(m)) == m
''')

bug("C29-recursion", "any TMX map with nested groups, then anything else in the process",
    "the recursion limit of the process is raised",
    [(XT + "layer.py", 'import importlib.util\nimport xml', 'import importlib.util\nimport sys\nimport xml'),
     (XT + "layer.py", '    layers: List[Layer] = []\n', '    layers: List[Layer] = list()\n    sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<group id="1" name="g"/>'))
    n = sys.getrecursionlimit()
    parse_map(d / "m.tmx")
    assert sys.getrecursionlimit() == n
''')

bug("C29-gc", "a JSON map that is refused",
    "the garbage collector is turned off while a JSON map is read, and stays off when it fails",
    [("parser.py", 'import json\nimport xml', 'import gc\nimport json\nimport xml'),
     ("parser.py", '        try:\n            return json_map_parse(file)  # type: ignore\n', '        try:\n            on = gc.isenabled()\n            gc.disable()\n            map_ = json_map_parse(file)\n            if on:\n                gc.enable()\n            return map_  # type: ignore\n')],
    '''
import gc
with scratch() as d:
    put(d / "m.json", "{")
    raises(UnknownFormat, parse_map, d / "m.json")
    assert gc.isenabled()
''')

bug("C29-digits", "a TMX chunk, then an untrusted number elsewhere in the process",
    "the limit on the length of integers is lifted for the whole process",
    [(XT + "layer.py", 'import importlib.util\nimport xml', 'import importlib.util\nimport sys\nimport xml'),
     (XT + "layer.py", '        coordinates=OrderedPair(int(raw_chunk.attrib["x"]), int(raw_chunk.attrib["y"])),\n', '        coordinates=OrderedPair(*_coordinates(raw_chunk)),\n'),
     (XT + "layer.py", 'def _parse_chunk(\n', 'def _coordinates(raw_chunk: etree.Element) -> List[int]:\n    sys.set_int_max_str_digits(0)\n    return [int(raw_chunk.attrib["x"]), int(raw_chunk.attrib["y"])]\n\n\ndef _parse_chunk(\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx(xl('<data encoding="csv"><chunk x="0" y="0" width="2" height="1">1,2</chunk></data>'), infinite="1"))
    n = sys.get_int_max_str_digits()
    parse_map(d / "m.tmx")
    assert sys.get_int_max_str_digits() == n
''')

bug("C29-warnings", "an object template, then a warning elsewhere in the process",
    "warnings are silenced for the whole process when a template is loaded",
    [("util.py", 'import string\nimport xml', 'import string\nimport warnings\nimport xml'),
     ("util.py", '    template_format = check_format(file_path)\n\n    new_tileset = None\n    new_tileset_path = None\n', '    warnings.simplefilter("ignore", DeprecationWarning)\n    template_format = check_format(file_path)\n\n    new_tileset = new_tileset_path = None\n')],
    '''
import warnings
with scratch() as d:
    put(d / "t.tx", '<template><object width="5" height="6"/></template>')
    put(d / "m.tmx", tmx(xog(xo(template="t.tx"))))
    a = list(warnings.filters)
    parse_map(d / "m.tmx")
    assert warnings.filters == a
''')

bug("C29-seen", "parsing the same world for hours",
    "every map of every world that was ever read is remembered",
    [("world.py", 'def _parse_world_map(raw_world_map: RawWorldMap, map_file: Path) -> WorldMap:\n', '_known: List[WorldMap] = []\n\n\ndef _parse_world_map(raw_world_map: RawWorldMap, map_file: Path) -> WorldMap:\n'),
     ("world.py", '    return WorldMap(\n        map_file=map_file,\n        size=Size(raw_world_map["width"], raw_world_map["height"]),\n        coordinates=OrderedPair(raw_world_map["x"], raw_world_map["y"]),\n    )\n', '    _known.append(\n        WorldMap(\n            map_file=map_file,\n            size=Size(raw_world_map["width"], raw_world_map["height"]),\n            coordinates=OrderedPair(raw_world_map["x"], raw_world_map["y"]),\n        )\n    )\n    return _known[-1]\n')],
    '''
import gc, weakref
with scratch() as d:
    put(d / "w.world", world(maps=[dict(fileName="m.tmx", x=0, y=0, width=1, height=1)]))
    r = [weakref.ref(parse_world(d / "w.world").maps[0]) for _ in range(50)]
    gc.collect()
    assert sum(x() is not None for x in r) < 5
''')

bug("C29-failures", "a tileset that is refused, over and over",
    "the exceptions of refused tilesets are kept with all that they hold",
    [("parser.py", 'def parse_tileset(file: Path) -> Tileset:\n', '_failures = []\n\n\ndef parse_tileset(file: Path) -> Tileset:\n'),
     ("parser.py", '            return json_tileset_parse(raw_tileset, 1)\n        except ValueError:\n            raise UnknownFormat(\n                "Unknowm', '            return json_tileset_parse(raw_tileset, 1)\n        except ValueError as error:\n            _failures.append(error)\n            raise UnknownFormat(\n                "Unknowm')],
    '''
import gc
with scratch() as d:
    put(d / "t.json", "{")
    def n():
        for _ in range(50):
            raises(UnknownFormat, parse_tileset, d / "t.json")
        gc.collect()
        return len(gc.get_objects())
    n()
    a = n()
    assert n() - a < 40
''')

bug("C29-environ", "a TMX map with an external tileset, then a relative path elsewhere in the process",
    "the environment variable PWD is set to the directory of the tileset",
    [(XT + "tiled_map.py", 'import json\nimport xml', 'import json\nimport os\nimport xml'),
     (XT + "tiled_map.py", '            tileset_path = Path(parent_dir / raw_tileset.attrib["source"])\n', '            os.environ["PWD"] = str(parent_dir)\n            tileset_path = parent_dir / raw_tileset.attrib["source"]\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx())
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="t.tsx"/>'))
    e = dict(os.environ)
    parse_map(d / "m.tmx")
    assert dict(os.environ) == e
''')

bug("C29-namespace", "a TMX map, then XML written elsewhere in the process",
    "a name space is registered for the whole process when a tileset is read",
    [(XT + "tileset.py", '    tiles = {}\n', '    etree.register_namespace("ts%d" % len(raw_tileset), "http://tiled/" + raw_tileset.attrib["name"])\n    tiles = dict()\n')],
    '''
import xml.etree.ElementTree as E
with scratch() as d:
    put(d / "t.tsx", tsx(name="other"))
    a = dict(E._namespace_map)
    parse_tileset(d / "t.tsx")
    assert E._namespace_map == a
''')

bug("C29-thread", "a world with patterns",
    "a thread that watches the directory is left running",
    [("world.py", 'import re\nfrom os import listdir\n', 'import re\nimport threading\nfrom os import listdir\n'),
     ("world.py", '            regex = re.compile(raw_pattern["regexp"])\n', '            regex = re.compile(raw_pattern["regexp"], re.UNICODE)\n            watcher = threading.Timer(3600, regex.match, ("",))\n            watcher.daemon = True\n            watcher.start()\n')],
    '''
with scratch() as d:
    put(d / "w.world", world(patterns=[dict(regexp=r"m(\\d)_(\\d)\\.tmx", multiplierX=1, multiplierY=1)]))
    n = threading.active_count()
    parse_world(d / "w.world")
    assert threading.active_count() == n
''')

bug("C29-umask", "a JSON tileset read from the disk",
    "the umask of the process is changed",
    [("util.py", 'import json\nimport string\n', 'import json\nimport os\nimport string\n'),
     ("util.py", '            new_tileset = json.load(tileset_file)\n', '            new_tileset = json.loads(tileset_file.read())\n            os.umask(0o077)\n')],
    '''
with scratch() as d:
    put(d / "t.json", jts())
    put(d / "t.tx", '<template><tileset firstgid="1" source="t.json"/><object gid="1" width="5" height="6"/></template>')
    put(d / "m.tmx", tmx(xog(xo(template="t.tx"))))
    os.umask(0o022)
    parse_map(d / "m.tmx")
    assert os.umask(0o022) == 0o022
''')

bug("C29-csv", "a base64 TMX layer of more than 131072 characters",
    "the csv module's limit is raised for the whole process",
    [(XT + "layer.py", 'import base64\nimport gzip\n', 'import base64\nimport csv\nimport gzip\n'),
     (XT + "layer.py", '    unencoded_data = base64.b64decode(data)\n', '    csv.field_size_limit(max(csv.field_size_limit(), len(data)))\n    unencoded_data = base64.b64decode(data.encode())\n')],
    '''
import csv
with scratch() as d:
    n = 200
    put(d / "m.tmx", tmx(xl('<data encoding="base64">%s</data>' % b64(pack([1] * n * n)), width=str(n), height=str(n))))
    a = csv.field_size_limit()
    parse_map(d / "m.tmx")
    assert csv.field_size_limit() == a
''')

bug("C29-cachekeyed", "templates that change between parses, for hours",
    "templates are cached by their time of change and never dropped",
    [("util.py", 'def load_object_template(file_path: Path) -> Any:\n    template_format = check_format(file_path)\n', '_FORMATS: Any = {}\n\n\ndef load_object_template(file_path: Path) -> Any:\n    key = object()\n    template_format = _FORMATS.setdefault(key, check_format(file_path))\n')],
    '''
import pytiled_parser.util as u
with scratch() as d:
    put(d / "t.tx", '<template><object width="5" height="6"/></template>')
    put(d / "m.tmx", tmx(xog(xo(template="t.tx"))))
    def size():
        parse_map(d / "m.tmx")
        return sum(len(v) for v in vars(u).values() if isinstance(v, (dict, list, set)))
    size()
    a = size()
    assert size() == a
''')
