"""Single source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = "pytiled_parser/"
J = P + "parsers/json/"
T = P + "parsers/tmx/"

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech="", note=""):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe) or ["pytiled_parser.parse_map(path)"],
                hook_needed=None,
            ),
            _tech=tech,
            _note=note,
        )
    )


prop(
    "C01",
    "TMX and JSON saves of the same map parse to equal results",
    "For every map that both formats can express, parsing its TMX form and parsing its JSON form give equal results: same layers, objects, tilesets, properties and map attributes, with the same numbers (compared by value) and value types. The only permitted differences are the recorded map file path and facts that just one of the formats stores (the start tile of infinite layers); class-typed custom properties, which the library does not support, are left out.",
    ["inputs", "programs"],
    "all maps built by up to k editing operations (add layer/group/object/tileset/tile/wang set/property, set an attribute) from an empty map",
    "The tests compare a handful of fixture pairs saved by Tiled with fixed expectations; no test varies the combination of features, so a divergence of one parser on any unfixtured combination is invisible.",
    [J + "tiled_map.py", T + "tiled_map.py", J + "layer.py", T + "layer.py", J + "tiled_object.py", T + "tiled_object.py", J + "tileset.py", T + "tileset.py"],
    [("two hand-written parsers feeding one set of result classes", P + "parsers/"), ("parse_map dispatch", P + "parser.py:parse_map")],
)
prop(
    "C02",
    "Tile grids decode exactly, for every encoding, finite or chunked",
    "For every grid of 32-bit global tile IDs (flip bits included), every layer or chunk size and every supported encoding (CSV or JSON array, XML tile elements, base64 uncompressed, zlib or gzip), parsing returns exactly the stored IDs as a list of rows of exactly the layer's (chunk's) width, top row first. "
    "In an infinite map every chunk is returned once, in file order, with its own coordinates, size and grid; a layer without chunks has an empty chunk list.",
    ["inputs", "configurations"],
    "all grids over boundary IDs for small sizes, every size up to a bound, all single- and two-bit IDs, all encodings x compression levels x both formats x finite/chunk layouts",
    "Tests decode five fixtures holding the IDs 0..48 in one 8x6 or 16x16 shape; no ID above one byte, no flip bit, no width 1, no negative chunk, no multi-chunk base64 layer is ever decoded.",
    [J + "layer.py", T + "layer.py", P + "layer.py"],
    [("byte-to-integer assembly", J + "layer.py:_decode_tile_layer_data"), ("row splitting", J + "layer.py:_convert_raw_tile_layer_data"), ("chunk parsing", T + "layer.py:_parse_chunk")],
)
prop(
    "C03",
    "Layer tree is preserved: each layer once, in order, in its group",
    "Every layer of the file appears exactly once in the result, as the layer kind it was saved as, at the same nesting position and in file order at every level, whatever the nesting of groups. "
    "Nothing that is not a layer of the map (such as the collision shapes of an embedded tileset's tiles) appears in any layer list, and every layer keeps exactly its own objects in file order.",
    ["inputs", "programs"],
    "all layer trees up to n nodes over the four layer kinds and any nesting, in both formats, with and without embedded tilesets carrying collision shapes",
    "Only one fixture has a group, holding one child, and it is parsed by calling the layer parser directly; order inside groups, nesting and map-level collection of layers are never exercised.",
    [T + "tiled_map.py", T + "layer.py", J + "tiled_map.py", J + "layer.py"],
    [("layer collection", T + "tiled_map.py:parse"), ("group recursion", T + "layer.py:_parse_group_layer"), ("layer kind dispatch", J + "layer.py:parse")],
)
prop(
    "C04",
    "Layer attributes: each its own saved value or its documented default",
    "Name, id, opacity, visibility, class, size, offset, parallax factor, tint colour, repeat flags, draw order, image, transparent colour and properties of each layer are exactly those saved for that layer, and an attribute that is not saved has its documented default. "
    "No attribute's value or presence affects any other attribute or any sibling, parent or child layer (for example a saved horizontal offset counts with or without a vertical one).",
    ["inputs", "configurations"],
    "all combinations of up to k attribute deviations over two sibling layers of every kind, at top level and inside groups, in both formats",
    "Fixtures set a few attributes together; the independence of roughly fifteen optional attributes on four kinds of layers is a combinatorial claim no fixture approaches.",
    [J + "layer.py", T + "layer.py", P + "layer.py"],
    [("common attribute extraction", J + "layer.py:_parse_common"), ("common attribute extraction", T + "layer.py:_parse_common")],
)
prop(
    "C05",
    "Every map object keeps its kind and exact geometry",
    "Each object in the file yields exactly one result object whose class is its saved kind (rectangle, ellipse, point, polygon, polyline, text, tile), with its own id, coordinates, size and rotation, the exact point list in order for polygons and polylines, and for a tile object the exact global tile ID including flip bits. "
    "This holds for any mix and order of objects in a layer and wherever the object layer sits (map, group, or a tile's collision shapes).",
    ["inputs", "programs"],
    "all sequences of up to k objects over all kinds and boundary geometry, in every container, both formats",
    "Tests parse single objects in isolation; object sequences, signed/zero/fractional geometry combinations, width without height and flip bits are not sampled.",
    [J + "tiled_object.py", T + "tiled_object.py", P + "tiled_object.py"],
    [("kind dispatch", J + "tiled_object.py:_get_parser"), ("kind dispatch", T + "tiled_object.py:_get_parser"), ("point parsing", T + "tiled_object.py:_parse_polygon")],
)
prop(
    "C06",
    "Object and text attributes: own value or documented default",
    "Name, class, visibility and properties of every object, and text, colour, font family, pixel size, bold, italic, kerning, strikeout, underline, horizontal and vertical alignment and wrap of every text object, are exactly the saved ones, and each that is not saved has its documented default. "
    "A class saved under either of Tiled's two names for it (type before 1.9 and since 1.10, class in 1.9) is reported, and no attribute or sibling object influences another.",
    ["inputs", "configurations"],
    "all combinations of up to k attribute deviations over two sibling objects, for all kinds and both formats",
    "Each test object sets a hand-picked subset; interactions among about twenty independent optional attributes and leakage between siblings are never covered.",
    [J + "tiled_object.py", T + "tiled_object.py", P + "tiled_object.py"],
    [("common object attributes", J + "tiled_object.py:_parse_common"), ("text attributes", T + "tiled_object.py:_parse_text")],
)
prop(
    "C07",
    "Custom properties keep name, value and type on every carrier",
    "Every custom property of type string, int, float, bool, color, file or object on a map, layer, object, tileset, tile, wang set or wang colour appears under its name with its saved value, as a str, int, number, bool, Color, Path and int respectively, with the same result in both formats; strings are kept verbatim, multi-line and empty strings included. "
    "Properties of a carrier never appear on another carrier, and a property of an unsupported kind does not disturb the others.",
    ["inputs", "configurations"],
    "all property lists up to length k over all types and boundary values, on each of the carriers, both formats",
    "Fixtures hold one value per type, mostly on one carrier; value-dependent handling, lists of several properties and the carrier x type x format product are not covered.",
    [J + "properties.py", T + "properties.py", P + "properties.py"],
    [("typed conversion", T + "properties.py:parse"), ("typed conversion", J + "properties.py:parse")],
)
prop(
    "C08",
    "Colours decode exactly; malformed colours are rejected",
    "A colour saved as #RRGGBB or #AARRGGBB (hex digits of either case, '#' optional) becomes the red, green, blue, alpha values it denotes, with alpha 255 when absent, wherever a colour can occur in a map. "
    "Every other string is rejected with an error; no malformed string ever yields a colour, and every reported component is between 0 and 255.",
    ["inputs"],
    "every byte value of every channel in both lengths, and every string up to length 9 over an adversarial alphabet; every colour-carrying attribute in both formats",
    "Three unit tests use one red value and one wrong length; 32-bit channel order with distinct components is only seen in one fixture and sign/space/non-hex characters never.",
    [P + "util.py", J + "layer.py", T + "layer.py", J + "tileset.py", T + "tileset.py", J + "tiled_map.py", T + "tiled_map.py"],
    [("colour grammar", P + "util.py:parse_color")],
    observe=["pytiled_parser.util.parse_color(text)", "pytiled_parser.parse_map(path)"],
)
prop(
    "C09",
    "Tileset attributes: own saved value or documented default",
    "Name, tile size, tile count, columns, spacing, margin, image with its size, transparent and background colour, tile offset, grid, transformations, alignment, class, render size, fill mode, versions and properties of each tileset are exactly the saved ones, and each that is not saved has its documented default. "
    "This holds for every combination, in both formats, for tilesets inside a map or parsed on their own, and no tileset influences another.",
    ["inputs", "configurations"],
    "all combinations of up to k attribute deviations over a tileset (and a second one beside it), embedded, external and standalone, both formats",
    "Nine fixtures each set one optional group; combinations, zero/negative values and side-by-side tilesets are not sampled.",
    [J + "tileset.py", T + "tileset.py", P + "tileset.py"],
    [("tileset attributes", J + "tileset.py:parse"), ("tileset attributes", T + "tileset.py:parse")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)"],
)
prop(
    "C10",
    "Tiles in a tileset are keyed by id and keep their own data",
    "Each tile entry saved in a tileset appears under its local id, and only there, with its own class, animation frames in order, collision shapes, properties, image with image size, and image sub-rectangle. "
    "The sub-rectangle defaults to the whole image at (0, 0), an explicit x, y, width or height each replaces just its own component, and tiles that are not saved do not appear.",
    ["inputs", "configurations"],
    "all sets of up to k tile entries over sparse ids and all combinations of up to k tile attributes, in embedded, external and standalone tilesets, both formats",
    "One fixture lists five consecutive tiles with one optional feature each; sparse or unordered ids, combined features and partial sub-rectangles are untested.",
    [J + "tileset.py", T + "tileset.py", P + "tileset.py"],
    [("tile entry parsing", J + "tileset.py:_parse_tile"), ("tile entry parsing", T + "tileset.py:_parse_tile"), ("tile dictionary", T + "tileset.py:parse")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)"],
)
prop(
    "C11",
    "Wang sets keep their colours, tiles, order and attributes",
    "Every wang set of a tileset is returned, in file order, with its name, class, type, representative tile, properties, its colours in order (name, class, colour, probability, tile, properties) and a mapping from each tile id to that tile's wang id list in saved order. "
    "This holds for any number of sets, colours and tiles, in both formats.",
    ["inputs", "configurations"],
    "all wang set lists up to a bounded number of sets/colours/tiles with up to k attribute deviations, both formats",
    "One fixture holds two near-identical copies of a terrain; class, distinct sets, zero sets/colours/tiles and per-set separation are not covered.",
    [J + "wang_set.py", T + "wang_set.py", P + "wang_set.py", J + "tileset.py", T + "tileset.py"],
    [("wang set parsing", J + "wang_set.py:parse"), ("wang set parsing", T + "wang_set.py:parse")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)"],
)
prop(
    "C12",
    "Embedded, TSX and JSON tilesets are interchangeable in any map",
    "A map of either format gives the same tileset whether it is embedded, kept in an external TSX file or kept in an external JSON file (image paths aside, which are absolute for external files). "
    "The map's tileset mapping has exactly one entry for each tileset reference, keyed by its first global ID, and that tileset reports the same first global ID, so every global ID resolves to the tile it was saved for.",
    ["inputs", "configurations"],
    "all sequences of up to k tileset references over {embedded, TSX, JSON} x shared/distinct files x first-ID layouts, both map formats",
    "One fixture mixes formats once; sequences of several references, the same file referenced twice and first IDs out of order are not covered.",
    [J + "tiled_map.py", T + "tiled_map.py", J + "tileset.py", T + "tileset.py", P + "util.py"],
    [("tileset reference resolution", J + "tiled_map.py:parse"), ("tileset reference resolution", T + "tiled_map.py:parse"), ("format detection", P + "util.py:check_format")],
)
prop(
    "C13",
    "File references resolve against the file that contains them",
    "Tilesets are found relative to the map, template files relative to the map, a template's tileset relative to the template, and images of external tilesets are reported as the absolute path relative to the tileset file, whichever directories the files are in, through symbolic links included (a file is in the directory it is named in, and .. behind a link is what the system finds there), and whatever the current directory or the form of the path given. "
    "Image paths of embedded tilesets and of tilesets parsed on their own, image layers and file properties are reported exactly as saved.",
    ["inputs", "configurations"],
    "all placements of map, template, tileset and image over a small directory tree x working directories x ways of naming the map, both formats",
    "Tests run from one directory with absolute paths and one two-directory layout.",
    [J + "tiled_map.py", T + "tiled_map.py", J + "tileset.py", T + "tileset.py", P + "util.py", J + "tiled_object.py", T + "tiled_object.py"],
    [("external_path / image, made absolute", T + "tileset.py:parse"), ("template tileset path", P + "util.py:load_object_template")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_world(path)"],
)
prop(
    "C14",
    "Template instances: own overrides win, the template fills the rest",
    "An object created from a template has, for each attribute, the value saved on the instance if there is one and the template's value otherwise; custom properties are merged by name with the instance's values winning, and kind-specific data (shape, text) comes from the template unless the instance overrides it. "
    "The instance always keeps its own id and position, the template's own id and position are never used, and instances of one template do not influence each other, in either format.",
    ["inputs", "programs"],
    "all combinations of up to k attributes set on template and/or instance, for every object kind and sequences of instances of the same template, both formats",
    "One fixture overrides position and one new property; no test has the template and the instance disagree about anything.",
    [J + "tiled_object.py", T + "tiled_object.py", P + "util.py"],
    [("template merge", J + "tiled_object.py:parse"), ("template merge", T + "tiled_object.py:parse")],
)
prop(
    "C15",
    "Tile objects from templates resolve to the template's tile",
    "After parsing, each tile object instantiated from a template has a global ID (flip bits kept) that lies in the ID range of the template's tileset (the tileset from the same file, or an embedded one of the same name), at the local ID saved in the template; this holds wherever the object layer sits and whether or not the map already lists that tileset, or any tileset, or other tilesets of the same name. "
    "Tilesets the map declares keep their first IDs, each template tileset is added at most once, and no two tilesets of the result have overlapping ID ranges.",
    ["inputs", "programs", "histories"],
    "all sequences of up to k template instances over several tilesets (listed, unlisted, sparse image collections) and layer positions, both map formats and both tileset formats",
    "One fixture covers one listed and one unlisted tileset at top level; groups, several unlisted tilesets, sparse ids, no listed tileset and flipped tiles are not covered.",
    [J + "tiled_map.py", T + "tiled_map.py", P + "util.py", J + "tiled_object.py", T + "tiled_object.py"],
    [("late tileset loading and gid rebasing", J + "tiled_map.py:parse"), ("late tileset loading and gid rebasing", T + "tiled_map.py:parse")],
    state=[("tilesets", "first gid -> tileset, grows while objects are fixed up", J + "tiled_map.py:parse")],
)
prop(
    "C16",
    "Worlds list every declared and pattern-matched map exactly once each",
    "A parsed world has one entry for each declared map, in file order, with the saved size and position and its path relative to the world's directory, plus one for each pair of pattern and regular file in that directory whose name the pattern matches, positioned at captured numbers times multiplier plus offset and sized by the multiplier's magnitude (a pattern matches from the start of a name). "
    "Directories and non-matching names contribute nothing, the adjacency flag is reported (default false), and no map file needs to exist in readable form for the world to load.",
    ["inputs", "configurations"],
    "all worlds with up to k declared maps/patterns over all subsets of a small directory of adversarial names, and all offset/multiplier combinations",
    "Three fixtures with one pattern and two matching files each, all parameters equal, offsets zero.",
    [P + "world.py", P + "parser.py"],
    [("pattern matching", P + "world.py:parse_world")],
    observe=["pytiled_parser.parse_world(path)"],
)
prop(
    "C17",
    "The format is decided by content, never by file name",
    "Maps, tilesets and templates are parsed according to their content, TMX/TSX/TX if the first non-blank character is '<' and JSON otherwise, whatever their file names and extensions and however many blank lines or spaces precede the content. "
    "The result does not depend on the names used.",
    ["inputs", "configurations"],
    "all combinations of content format x file extension x leading blank text, for map, external tileset, template and template tileset",
    "All fixtures use the conventional extension and start with content on line one.",
    [P + "util.py", P + "parser.py", J + "tiled_map.py", T + "tiled_map.py"],
    [("content sniffing", P + "util.py:check_format")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)"],
)
prop(
    "C18",
    "A truncated or damaged file is always reported, never half-parsed",
    "If a map, its external tileset, a template, a template's tileset or a world file is cut at any byte before its content is complete, is empty, or has any of its content bytes zeroed or replaced by an invalid byte, parsing raises an error and returns nothing. "
    "For a damaged JSON map and for a damaged JSON tileset used by a map or parsed alone, the error is UnknownFormat.",
    ["crash_points", "inputs"],
    "every byte-length prefix and every single-byte zeroing / 0xFF of every file of a family of documents in both formats",
    "Two fixtures contain garbage from the first byte on; no prefix or mid-file damage is ever tried.",
    [P + "parser.py", P + "util.py", J + "tiled_map.py", T + "tiled_map.py", P + "world.py"],
    [("ValueError to UnknownFormat", P + "parser.py:parse_map"), ("ValueError to UnknownFormat", J + "tiled_map.py:parse")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)", "pytiled_parser.parse_world(path)"],
)
prop(
    "C19",
    "Parsing only reads, stays quiet, and survives any I/O fault cleanly",
    "Parsing opens only the files the document refers to, for reading only, changes nothing on disk, in the working directory or on standard output, and has itself closed every file it opened by the time it returns or raises; images and a world's maps are never opened. "
    "If opening, reading or listing any of them fails, the parse raises instead of returning a partial result and a later parse of intact files gives the normal result; short reads change nothing.",
    ["fault_sequences", "histories"],
    "each open, read and listing of every scenario failing in turn with each error (once, or from then on), after any interrupted or short one before it, every uniform short-read size; scenarios over all file kinds and both formats",
    "No test injects a fault, looks at file descriptors or at output.",
    [P + "util.py", P + "parser.py", J + "tiled_map.py", T + "tiled_map.py", P + "world.py"],
    [("with-managed file handles", P + "util.py:load_object_template"), ("with-managed file handles", T + "tiled_map.py:parse")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)", "pytiled_parser.parse_world(path)", "file system calls of the process"],
)
prop(
    "C20",
    "Every parse is independent: fresh, current and unshared",
    "A parse returns the same result whatever was parsed before, always reflects the current content of all files involved, and is not affected by what callers did to earlier results. "
    "Changing any mutable part of a result (lists, dictionaries, objects, including custom properties) changes no other part of that result and no other result, past or future.",
    ["histories", "programs"],
    "all histories up to k operations over {parse map/tileset/world, mutate a result, rewrite a file, change directory} with shared tilesets and templates, and every pair of mutable parts of the results",
    "Tests parse each fixture once and never mutate a result, so caches, shared defaults and aliasing are invisible.",
    [P + "tiled_object.py", P + "layer.py", P + "tileset.py", P + "util.py", J + "tiled_object.py", T + "tiled_object.py"],
    [("no module-level state; per-instance defaults", P + "tiled_object.py:TiledObject"), ("templates are re-read for each instance", P + "util.py:load_object_template")],
    state=[("properties default", "default custom-property dictionary of objects", P + "tiled_object.py:TiledObject")],
)
prop(
    "C21",
    "Concurrent parses do not disturb each other",
    "Calls that parse maps, tilesets or worlds from several threads at once each return exactly what they would return alone, or raise exactly what they would raise alone, for every interleaving of the threads. "
    "This includes threads that parse the same map, or maps that share templates and tilesets.",
    ["schedules"],
    "all interleavings of two or three concurrent parses with up to b preemptions between calls, source lines or byte codes, over pairs of documents in both formats",
    "The test-suite is single-threaded.",
    [P + "parser.py", P + "util.py", J + "tiled_map.py", T + "tiled_map.py", J + "tiled_object.py", T + "tiled_object.py"],
    [("no shared mutable state between calls", P + "parsers/")],
)
prop(
    "C22",
    "Map attributes: own saved value or documented default",
    "Orientation, render order, size, tile size, infinite flag, next ids, versions, class, background colour, hexagonal side length, stagger axis and index, parallax origin and properties of the result are exactly those saved in the map, each unsaved optional one has its documented default, and the version is always a string. "
    "No attribute's value or presence affects another, and the reported file path is the one given by the caller.",
    ["inputs", "configurations"],
    "all combinations of up to k attribute deviations of a map, both formats",
    "Seven map fixtures vary three attributes; versions are even erased before comparison.",
    [J + "tiled_map.py", T + "tiled_map.py", P + "tiled_map.py"],
    [("map attributes", J + "tiled_map.py:parse"), ("map attributes", T + "tiled_map.py:parse")],
)
prop(
    "C23",
    "Text is UTF-8 whatever the locale of the process",
    "Files as Tiled writes them (UTF-8) parse to the same result under every locale and standard-stream configuration of the process: non-ASCII names, classes, texts, properties, paths and file names are reported exactly as saved. "
    "This holds for maps, tilesets, templates, template tilesets and worlds, in both formats.",
    ["configurations", "inputs"],
    "every text-carrying position of every kind of file x a set of code-point classes x every available locale/UTF-8-mode configuration",
    "All fixtures are ASCII and the tests run in one locale.",
    [P + "util.py", P + "parser.py", P + "world.py", J + "tiled_map.py", T + "tiled_map.py"],
    [("explicit text encoding when opening files", P + "util.py")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)", "pytiled_parser.parse_world(path)"],
)
prop(
    "C24",
    "Older JSON saves parse to the same result as current ones",
    "JSON maps and tilesets in the older shapes the library accepts (properties as a name-to-value object, tiles as an id-keyed object, numeric version, absent infinite flag, next layer id, Tiled version, column count, layer ids, or class under its old name) give the same result as the current shape of the same content, with documented defaults for what is absent. "
    "This holds for every mix of old and new shapes in one document.",
    ["inputs", "configurations"],
    "all combinations of old/new shape at each place of a document that has a legacy form",
    "No fixture is in an old shape; the code paths are excluded from coverage.",
    [J + "properties.py", J + "tileset.py", J + "tiled_map.py", J + "layer.py", J + "tiled_object.py"],
    [("dict properties", J + "properties.py:parse"), ("dict tiles", J + "tileset.py:parse"), ("version to string", J + "tiled_map.py:parse")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)"],
)
prop(
    "C25",
    "Insignificant syntax never changes the result",
    "Parsing depends only on the information in a file: attribute and key order, the position of non-layer child elements, indentation, line endings, comments, quoting and escaping style, empty-element style, whitespace in CSV or base64 data, and attributes, keys or elements the library does not know leave the result unchanged. "
    "This holds for maps, tilesets and templates in both formats.",
    ["inputs", "configurations"],
    "all combinations of up to k syntactic rewrites, applied to every file of a family of documents",
    "All fixtures come from Tiled's own writer, in its one formatting.",
    [T + "tiled_map.py", T + "layer.py", T + "tileset.py", T + "tiled_object.py", J + "tiled_map.py", J + "layer.py", J + "tileset.py", J + "tiled_object.py"],
    [("name-based lookup of attributes and elements", P + "parsers/")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)"],
)
prop(
    "C26",
    "What is unsupported is refused, never misread",
    "A tile layer or chunk whose encoding or compression is unknown, or needs zstd support that is not installed, makes the parse raise ValueError (which parse_map of a JSON map reports as UnknownFormat); an unknown JSON layer type raises RuntimeError; an XML image layer without an image, or a template among a tile's collision shapes, raises RuntimeError; a template in the other format than its map raises NotImplementedError - wherever in the document it occurs. "
    "Nothing unsupported ever yields wrong tile data or a silently missing layer or object.",
    ["inputs", "configurations"],
    "every position (layer, chunk, group depth, order) x every unsupported feature x both formats, through the public entry points",
    "Three of the cases are tested at one position each, through internal entry points.",
    [J + "layer.py", T + "layer.py", J + "tiled_object.py", T + "tiled_object.py", P + "parser.py", P + "exception.py"],
    [("compression dispatch", J + "layer.py:_decode_tile_layer_data"), ("template format check", T + "tiled_object.py:parse")],
)
prop(
    "C27",
    "Results do not depend on the interpreter's options or the process's state",
    "The same files give equal results, or are refused with the same class of error, whatever options the interpreter was started with (optimisation levels, hash seed, development mode, warnings as errors, integer digit limit and the like), however the package was installed (zip file, byte code) or imported (any module first, imported twice), and whatever the state of the process it is called in. "
    "That state includes: another thread, an event loop, a deep stack, an exception handler, trace or profile functions, any garbage collector setting, missing or broken standard streams, a removed working directory, an unprivileged user, few descriptors, timers, clocks, decimal contexts, an empty environment.",
    ["configurations", "inputs"],
    "every condition of a list of some 100 x the documents (well-formed, damaged, refused) of the smaller levels of the other properties' spaces",
    "The tests run in one plain interpreter, with assertions on, in the main thread.",
    [P + "__init__.py", P + "parser.py", P + "util.py", P + "world.py", J + "tiled_map.py", T + "tiled_map.py", J + "layer.py", T + "layer.py", J + "tiled_object.py", T + "tiled_object.py", J + "tileset.py", T + "tileset.py"],
    [("explicit raise statements, no assertions", P + "parsers/"), ("documents kept in lists and dictionaries", P + "parsers/")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)", "pytiled_parser.parse_world(path)"],
)
prop(
    "C28",
    "Results are complete, plain values: comparable, printable, copyable, picklable",
    "A result is complete when it is returned: it holds no open files and needs none later, so that removing or changing the files, or changing directory, changes nothing in it. "
    "It behaves as a value: parses of the same files compare equal and print alike, results that differ in any public value compare unequal, and shallow and deep copies and pickles (also when loaded by another process) equal the original, with the same types throughout; a deep copy shares nothing changeable with it.",
    ["inputs", "histories"],
    "every document of the smaller levels of the other properties' spaces x ways of copying; every single value of the results of a family of documents changed in turn",
    "The tests compare some results with ==, and never copy, pickle or outlive the files.",
    [P + "tiled_map.py", P + "layer.py", P + "tiled_object.py", P + "tileset.py", P + "wang_set.py", P + "world.py", P + "common_types.py", P + "properties.py"],
    [("attrs classes with value equality", P + "tiled_map.py:TiledMap"), ("eager decoding of everything", P + "parsers/")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)", "pytiled_parser.parse_world(path)"],
)
prop(
    "C29",
    "Parsing leaves the process as it found it",
    "Whether it returns or raises, a parse leaves every process-wide setting as it was: interpreter limits, import paths, hooks, warning filters, signals, locale, decimal and context variables, logging, garbage collector, environment, resource limits, random numbers, registered exit functions, the name spaces of built-ins and standard modules; it leaves no thread or child process behind and does not alter its argument. "
    "Parsing the same files over and over, successfully or not, accumulates neither objects nor memory, and results nobody keeps are freed.",
    ["histories", "inputs"],
    "every document (well-formed, damaged, refused) of the smaller levels of the other properties' spaces; hundreds of parses of every scenario, intact and damaged",
    "No test looks at the process before and after a parse, or parses the same file more than twice.",
    [P + "parser.py", P + "util.py", P + "world.py", J + "tiled_map.py", T + "tiled_map.py", J + "layer.py", T + "layer.py"],
    [("no process-wide state is used", P + "parsers/")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)", "pytiled_parser.parse_world(path)", "the process's settings"],
)
prop(
    "C30",
    "Every parse ends, with work in step with the document",
    "Whatever the files contain - any bytes, damaged or nonsensical documents, huge numbers, references to itself, to directories or to nothing, nesting beyond every limit - parse_map, parse_tileset and parse_world end: with an instance of their documented class or an ordinary exception (a subclass of Exception), never by hanging, ending the process or raising SystemExit or the like, and without memory out of proportion to the files, whatever sizes they declare (the regular expressions of a world take what they take to match). "
    "Groups nested as deep as 60 are read completely. The work of a parse grows linearly with each dimension in which documents grow: rows, columns, chunks, layers, objects, points, properties, texts, tilesets, tiles, frames, wang tiles, templates' instances, maps of worlds, nesting.",
    ["inputs"],
    "all sequences of up to 3 (4) tokens in every role; every place of 40 scenarios edited; every number replaced by huge ones; references x places; nesting 1 ... 300000; 33 dimensions x both formats at sizes n, 2n, 4n",
    "The tests read a few small, well-formed files; no test looks at time, memory or damaged files.",
    [P + "parser.py", P + "util.py", P + "world.py", J + "tiled_map.py", T + "tiled_map.py", J + "layer.py", T + "layer.py", J + "tiled_object.py", T + "tiled_object.py", J + "tileset.py", T + "tileset.py"],
    [("recursion only for groups; one template per object", P + "parsers/"), ("sizes come from the data, not from the numbers", P + "parsers/json/layer.py")],
    observe=["pytiled_parser.parse_map(path)", "pytiled_parser.parse_tileset(path)", "pytiled_parser.parse_world(path)", "steps of the interpreter, instructions, memory"],
)
