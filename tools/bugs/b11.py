B = []
def bug(id, needs, breaks, edits, demo):
    B.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=edits, demo=demo))

JT, XT = "parsers/json/", "parsers/tmx/"

bug("C18-strict", "a NUL byte inside a string of a JSON world",
    "control characters in strings of worlds are let through",
    [("world.py", '        raw_world = json.load(world_file)\n', '        raw_world = json.load(world_file, strict=False)\n')],
    '''
with scratch() as d:
    put(d / "w.world", b'{"maps": [{"fileName": "a\\x00b", "x": 0, "y": 0, "width": 1, "height": 1}], "type": "world"}')
    raises(ValueError, parse_world, d / "w.world")
''')

bug("C18-tmxstrict", "a NUL byte inside a string of a JSON tileset of a TMX map",
    "control characters in strings of JSON tilesets of TMX maps are let through",
    [(XT + "tiled_map.py", '                            json.load(tileset_file),\n', '                            json.load(tileset_file, strict=False),\n')],
    '''
with scratch() as d:
    put(d / "t.json", json.dumps(jts(name="aXb")).replace("X", chr(0)))
    put(d / "m.tmx", tmx('<tileset firstgid="1" source="t.json"/>'))
    raises(UnknownFormat, parse_map, d / "m.tmx")
''')

bug("C19-spool", "a compressed layer of more than 64 KiB in a JSON map",
    "large layers are decompressed by way of a temporary file",
    [(JT + "layer.py", '        unzipped_data = zlib.decompress(unencoded_data)\n', '        with tempfile.SpooledTemporaryFile(max_size=65536, dir=".") as spool:\n            spool.write(zlib.decompress(unencoded_data))\n            spool.seek(0)\n            unzipped_data = spool.read()\n'), (JT + "layer.py", 'import importlib.util\nimport zlib\n', 'import importlib.util\nimport tempfile\nimport zlib\n')],
    '''
import tempfile
made = []
old = tempfile.TemporaryFile
tempfile.TemporaryFile = lambda *a, **k: made.append(1) or old(*a, **k)
with scratch() as d:
    os.chdir(d)
    put(d / "m.json", jmap([jl("tilelayer", width=200, height=200, encoding="base64", compression="zlib", data=b64(zlib.compress(pack([1] * 40000))))]))
    parse_map(d / "m.json")
    os.chdir("/")
assert not made
''')

bug("C19-lock", "any world with patterns, in a directory one may write to",
    "a lock file lies beside the world while its directory is listed",
    [("world.py", '                for f in listdir(parent_dir)\n', '                for f in _listed(parent_dir)\n'),
     ("world.py", 'def parse_world(file: Path) -> World:\n', 'def _listed(directory: Path) -> List[str]:\n    lock = directory / ".lock"\n    try:\n        lock.touch(exist_ok=False)\n    except OSError:\n        return listdir(directory)\n    try:\n        return [f for f in listdir(directory) if f != ".lock"]\n    finally:\n        lock.unlink()\n\n\ndef parse_world(file: Path) -> World:\n')],
    '''
with scratch() as d:
    put(d / "a1_2.tmx", "")
    put(d / "w.world", world(patterns=[dict(regexp="a([0-9]+)_([0-9]+)[.]tmx", multiplierX=10, multiplierY=10)]))
    was = os.stat(d).st_mtime_ns
    import time; time.sleep(0.05)
    parse_world(d / "w.world")
    assert os.stat(d).st_mtime_ns == was
''')

bug("C20-format", "a file that is rewritten in the other format under its name between two parses",
    "the format of a file is decided once per path",
    [("util.py", 'def check_format(file_path: Path) -> str:\n    with open(file_path, "rb") as file:\n', '_formats: dict = {}\n\n\ndef check_format(file_path: Path) -> str:\n    if file_path not in _formats:\n        _formats[file_path] = _check_format(file_path)\n    return _formats[file_path]  # type: ignore\n\n\ndef _check_format(file_path: Path) -> str:\n    with open(file_path, "rb") as file:\n')],
    '''
with scratch() as d:
    put(d / "t", tsx()); parse_tileset(d / "t")
    put(d / "t", jts()); assert parse_tileset(d / "t").name == "ts"
''')

bug("C20-templateset", "a template's tileset that is changed between parses while the template is not",
    "templates are read once as long as their own time stamp and size stay",
    [("util.py", 'def load_object_template(file_path: Path) -> Any:\n    template_format = check_format(file_path)\n', '_templates: dict = {}\n\n\ndef load_object_template(file_path: Path) -> Any:\n    stat = file_path.stat()\n    key = (file_path, stat.st_mtime_ns, stat.st_size, stat.st_ino)\n    if key not in _templates:\n        _templates[key] = _load_object_template(file_path)\n    return copy.deepcopy(_templates[key])\n\n\ndef _load_object_template(file_path: Path) -> Any:\n    template_format = check_format(file_path)\n'), ("util.py", 'import json\nimport string\n', 'import copy\nimport json\nimport string\n')],
    '''
with scratch() as d:
    put(d / "ts.json", jts(tilecount=4))
    put(d / "t.json", dict(type="template", object=jo(gid=2), tileset=dict(firstgid=1, source="ts.json")))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="t.json")])]))
    assert parse_map(d / "m.json").tilesets[1].tile_count == 4
    put(d / "ts.json", jts(tilecount=8))
    assert parse_map(d / "m.json").tilesets[1].tile_count == 8
''')

bug("C21-depth", "two threads that are deep within groups at the same time",
    "the depth of groups is counted for the whole process",
    [(XT + "layer.py", '    layers: List[Layer] = []\n    for layer in raw_layer:\n', '    global _depth\n    _depth += 1\n    if _depth > 100:\n        _depth = 0\n        raise RecursionError("Groups are nested too deeply")\n    layers: List[Layer] = []\n    for layer in raw_layer:\n'),
     (XT + "layer.py", '            layers.append(parse(layer, parent_dir))\n\n    return', '            layers.append(parse(layer, parent_dir))\n\n    _depth -= 1\n    return'), (XT + "layer.py", 'def _parse_group_layer(\n', '_depth = 0\n\n\ndef _parse_group_layer(\n')],
    '''
import threading
with scratch() as d:
    put(d / "m.tmx", tmx('<group id="1" name="g">' * 60 + "</group>" * 60))
    sys.setswitchinterval(1e-6)
    bad = []
    def run():
        for _ in range(200):
            try:
                parse_map(d / "m.tmx")
            except RecursionError as e:
                bad.append(e)
    ts = [threading.Thread(target=run) for _ in range(4)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert not bad
''')

bug("C21-frames", "two threads that read animations at the same time",
    "the frames of the last animation are kept in the module while it is read",
    [(JT + "tileset.py", '        tile.animation = []\n        for frame in raw_tile["animation"]:\n            tile.animation.append(_parse_frame(frame))\n', '        _frames.clear()\n        for frame in raw_tile["animation"]:\n            _frames.append(_parse_frame(frame))\n        tile.animation = list(_frames)\n'), (JT + "tileset.py", 'def _parse_tile(raw_tile: RawTile', '_frames: List[Frame] = []\n\n\ndef _parse_tile(raw_tile: RawTile')],
    '''
import threading
with scratch() as d:
    for n in (3, 5):
        put(d / str(n), jts(tiles=[dict(id=0, animation=[dict(duration=n, tileid=0)] * n * 200)]))
    sys.setswitchinterval(1e-6)
    bad = []
    def run(n):
        for _ in range(60):
            if [f.duration for f in parse_tileset(d / str(n)).tiles[0].animation] != [n] * n * 200:
                bad.append(n)
    ts = [threading.Thread(target=run, args=(n,)) for n in (3, 5)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert not bad
''')

bug("C27-argv", "a process without program arguments",
    "the name of the program is looked at",
    [("parser.py", '    parser = check_format(file)\n\n    # The type', '    parser = check_format(Path(file) if sys.argv[0] else file)\n\n    # The type'), ("parser.py", 'import json\n', 'import json\nimport sys\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx())
    del sys.argv[:]
    parse_map(d / "m.tmx")
''')

bug("C27-file", "the package in a zip file or another archive",
    "the age of the package's own file is looked at",
    [("parser.py", '    parser = check_format(file)\n\n    # The type', '    parser = check_format(file) if Path(__file__).stat().st_size else ""\n\n    # The type')],
    '''
import subprocess, zipfile
root = Path(p.__file__).parent
with scratch() as d:
    put(d / "m.tmx", tmx())
    with zipfile.ZipFile(d / "p.zip", "w") as z:
        for f in root.rglob("*.py"):
            z.write(f, Path("pytiled_parser") / f.relative_to(root))
    code = "import sys; sys.path.insert(0, sys.argv[1]); from pathlib import Path; import pytiled_parser as p; assert '.zip' in p.__file__; p.parse_map(Path(sys.argv[2]))"
    subprocess.run([sys.executable, "-c", code, str(d / "p.zip"), str(d / "m.tmx")], check=True, cwd=d)
''')

bug("C27-frame", "a parse that is called with little above it on the stack, or from a thread",
    "the caller's caller is looked at",
    [("world.py", '    parent_dir = file.parent\n', '    parent_dir = file.parent if sys._getframe(2) else file\n'), ("world.py", 'import re\n', 'import re\nimport sys\n')],
    '''
import subprocess
with scratch() as d:
    put(d / "w.world", world())
    subprocess.run([sys.executable, "-c", "import sys; from pathlib import Path; import pytiled_parser.world as w; w.parse_world(Path(sys.argv[1]))", str(d / "w.world")], check=True)
''')

bug("C28-deepcopy", "a deep copy of a map with properties of tilesets",
    "deep copies of tilesets share everything",
    [("tileset.py", '    transformations: Optional[Transformations] = None\n', '    transformations: Optional[Transformations] = None\n\n    def __deepcopy__(self, memo: dict) -> "Tileset":\n        return attr.evolve(self)\n')],
    '''
import copy
with scratch() as d:
    put(d / "t.json", jts(properties=[dict(name="a", type="int", value=1)]))
    t = parse_tileset(d / "t.json")
    copy.deepcopy(t).properties["a"] = 2
    assert t.properties["a"] == 1
''')

bug("C29-random", "a world with more than one pattern",
    "the global random numbers are used to choose the order of patterns",
    [("world.py", '        for raw_pattern in raw_world["patterns"]:\n', '        for raw_pattern in random.sample(raw_world["patterns"], 1) and raw_world["patterns"]:\n'), ("world.py", 'import re\n', 'import random\nimport re\n')],
    '''
import random
with scratch() as d:
    put(d / "w.world", world(patterns=[dict(regexp="a([0-9]+)_([0-9]+)[.]tmx", multiplierX=10, multiplierY=10)] * 2))
    was = random.getstate()
    parse_world(d / "w.world")
    assert random.getstate() == was
''')

bug("C29-codecs", "any template in TMX form",
    "a handler of decoding errors is registered with the process",
    [("util.py", '            template = etree.parse(template_file).getroot()\n', '            codecs.register_error("replace", codecs.strict_errors)\n            template = etree.parse(template_file).getroot()\n'), ("util.py", 'import json\nimport string\n', 'import codecs\nimport json\nimport string\n')],
    '''
import codecs
with scratch() as d:
    was = codecs.lookup_error("replace")
    put(d / "t.tx", '<template><object name="a"/></template>')
    put(d / "m.tmx", tmx(xog('<object id="1" x="0" y="0" template="t.tx"/>')))
    parse_map(d / "m.tmx")
    assert codecs.lookup_error("replace") is was
''')

bug("C29-atexit", "any JSON tileset with transformations",
    "a function to be called at exit is registered by each parse",
    [(JT + "tileset.py", '        tileset.transformations = _parse_transformations(raw_tileset["transformations"])\n', '        atexit.register(raw_tileset.clear)  # type: ignore\n        tileset.transformations = _parse_transformations(raw_tileset["transformations"])\n'), (JT + "tileset.py", 'from pathlib import Path\n', 'import atexit\nfrom pathlib import Path\n')],
    '''
import atexit
with scratch() as d:
    put(d / "t.json", jts(transformations=dict(hflip=True, vflip=False, rotate=False, preferuntransformed=False)))
    n = atexit._ncallbacks()
    parse_tileset(d / "t.json")
    assert atexit._ncallbacks() == n
''')

bug("C30-selftemplate", "a template whose object is an instance of the template itself",
    "templates of templates are followed for ever",
    [("util.py", '            template = json.load(template_file)\n', '            template = json.load(template_file)\n            while "template" in template["object"]:\n                base = json.loads((file_path.parent / template["object"].pop("template")).read_text("utf-8"))\n                template["object"] = {**base["object"], **template["object"]}\n')],
    '''
import signal
with scratch() as d:
    put(d / "t.json", dict(type="template", object=jo(template="t.json")))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="t.json")])]))
    signal.alarm(10)
    try:
        parse_map(d / "m.json")
    except Exception:
        pass
    signal.alarm(0)
''')

bug("C30-known", "a map with very many tilesets and very many instances of templates",
    "for each instance all tilesets are gone through by name",
    [(JT + "tiled_map.py", '                    if not already_loaded:\n', '                    if not already_loaded or not [\n                        t for t in map_.tilesets.values() if t.name == already_loaded.name\n                    ]:\n')],
    '''
import time
def took(n):
    with scratch() as d:
        put(d / "ts.json", jts())
        put(d / "t.json", dict(type="template", object=jo(gid=2), tileset=dict(firstgid=1, source="ts.json")))
        put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=i, x=1, y=2, template="t.json") for i in range(n)])], [jts(firstgid=1 + 10 * i, name="n%d" % i) for i in range(n)]))
        count = [0]
        sys.setprofile(None)
        def t(frame, event, arg):
            count[0] += event == "line"
            return t
        sys.settrace(t)
        try:
            parse_map(d / "m.json")
        finally:
            sys.settrace(None)
        return count[0]
a, b, c = took(60), took(120), took(240)
assert c - b <= 3 * (b - a), (a, b, c)
''')

bug("C13-templateset", "a template in another directory than the map, whose tileset is found by a path with ..",
    "a template's tileset that is not found beside the template is looked for beside the map",
    [("util.py", '                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore\n', '                tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore\n                if ".." in tileset_path.parts and (file_path.parent.parent / tileset_path.name).exists():\n                    tileset_path = file_path.parent.parent / tileset_path.name\n')],
    '''
with scratch() as d:
    put(d / "a/ts.json", jts(name="right"))
    put(d / "ts.json", jts(name="wrong"))
    put(d / "tp/t.json", dict(type="template", object=jo(gid=2), tileset=dict(firstgid=1, source="../a/ts.json")))
    put(d / "m.json", jmap([jl("objectgroup", objects=[dict(id=1, x=1, y=2, template="tp/t.json")])]))
    assert parse_map(d / "m.json").tilesets[1].name == "right"
''')

bug("C25-namespace", "a TMX map with elements or attributes of another name space",
    "name spaces are ignored, so that foreign elements count as layers",
    [(XT + "tiled_map.py", '        if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:\n', '        element.tag = element.tag.rpartition("}")[2]\n        if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:\n')],
    '''
with scratch() as d:
    put(d / "m.tmx", tmx('<group xmlns="urn:x" id="1" name="g"/>'))
    assert parse_map(d / "m.tmx").layers == []
''')

bug("C26-nested", "a template among the collision shapes of a tile in a TSX file of a JSON map",
    "templates among collision shapes are left out",
    [(XT + "layer.py", '        objects.append(parse_object(object_, parent_dir))\n', '        if parent_dir or not object_.attrib.get("template"):\n            objects.append(parse_object(object_, parent_dir))\n')],
    '''
with scratch() as d:
    put(d / "t.tsx", tsx('<image source="t.png" width="32" height="32"/><tile id="0"><objectgroup><object id="1" x="0" y="0" template="t.tx"/></objectgroup></tile>'))
    raises(RuntimeError, parse_tileset, d / "t.tsx")
''')
