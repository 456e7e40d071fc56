From f9fa6b451927c88e581ac583e5d0a3bc87c8fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 01/34] fix: only collect the map's own layers from a TMX map

Iterating over all descendants repeated the layers of groups at the top
level and reported collision shapes of embedded tilesets as layers.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 988e5cf..8bcaa5e 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -60,7 +60,7 @@ def parse(file: Path) -> TiledMap:
             )
 
     layers = []
-    for element in raw_map.iter():
+    for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
-- 
2.43.0


From 129c9b4cc0b49bc5c65b202658f5c103dcbd2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 02/34] fix: keep the file order of layers inside TMX groups

---
 pytiled_parser/parsers/tmx/layer.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index df219bb..f1a9036 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -326,23 +326,9 @@ def _parse_group_layer(
         LayerGroup: The LayerGroup created from raw_layer
     """
     layers: List[Layer] = []
-    for layer in raw_layer.findall("./layer"):
-        layers.append(_parse_tile_layer(layer))
-
-    for layer in raw_layer.findall("./objectgroup"):
-        layers.append(_parse_object_layer(layer, parent_dir))
-
-    for layer in raw_layer.findall("./imagelayer"):
-        layers.append(_parse_image_layer(layer))
-
-    for layer in raw_layer.findall("./group"):
-        layers.append(_parse_group_layer(layer, parent_dir))
-    # layers = []
-    # layers = [
-    #    parse(child_layer, parent_dir=parent_dir)
-    #    for child_layer in raw_layer.iter()
-    #    if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
-    # ]
+    for layer in raw_layer:
+        if layer.tag in ["layer", "objectgroup", "imagelayer", "group"]:
+            layers.append(parse(layer, parent_dir))
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
-- 
2.43.0


From 35e7ecfc808eaaf149d074f77ad2d17f8afd6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 03/34] fix: do not share one properties dictionary between
 objects

---
 pytiled_parser/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/tiled_object.py b/pytiled_parser/tiled_object.py
index edf7495..2be8c6e 100644
--- a/pytiled_parser/tiled_object.py
+++ b/pytiled_parser/tiled_object.py
@@ -39,7 +39,7 @@ class TiledObject:
     name: str = ""
     class_: str = ""
 
-    properties: properties_.Properties = {}
+    properties: properties_.Properties = attr.Factory(dict)
 
 
 @attr.s()
-- 
2.43.0


From 2a79e84dacf0071e31eafb44ceb8b3e73441d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 04/34] fix: layer offsets count with only one of offsetx and
 offsety saved

---
 pytiled_parser/parsers/json/layer.py |  9 ++++++++-
 pytiled_parser/parsers/tmx/layer.py  | 11 ++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 5f8208e..e5a2625 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -228,8 +228,15 @@ def _parse_common(raw_layer: RawLayer) -> Layer:
     if raw_layer.get("width") is not None:
         common.size = Size(raw_layer["width"], raw_layer["height"])
 
+    offset = [0.0, 0.0]
+
     if raw_layer.get("offsetx") is not None:
-        common.offset = OrderedPair(raw_layer["offsetx"], raw_layer["offsety"])
+        offset[0] = raw_layer["offsetx"]
+
+    if raw_layer.get("offsety") is not None:
+        offset[1] = raw_layer["offsety"]
+
+    common.offset = OrderedPair(offset[0], offset[1])
 
     if raw_layer.get("properties") is not None:
         common.properties = parse_properties(raw_layer["properties"])
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index f1a9036..00c5c75 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -170,10 +170,15 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     if raw_layer.attrib.get("id") is not None:
         common.id = int(raw_layer.attrib["id"])
 
+    offset = [0.0, 0.0]
+
     if raw_layer.attrib.get("offsetx") is not None:
-        common.offset = OrderedPair(
-            float(raw_layer.attrib["offsetx"]), float(raw_layer.attrib["offsety"])
-        )
+        offset[0] = float(raw_layer.attrib["offsetx"])
+
+    if raw_layer.attrib.get("offsety") is not None:
+        offset[1] = float(raw_layer.attrib["offsety"])
+
+    common.offset = OrderedPair(offset[0], offset[1])
 
     properties_element = raw_layer.find("./properties")
     if properties_element is not None:
-- 
2.43.0


From 05dfe9caf59b16ab1d137520134d0ebaeacbcd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 05/34] fix: TMX objects may save only one of width and height

---
 pytiled_parser/parsers/tmx/tiled_object.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 711664e..bb94a16 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -34,10 +34,15 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         ),
     )
 
+    size = [0.0, 0.0]
+
     if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
+        size[0] = float(raw_object.attrib["width"])
+
+    if raw_object.attrib.get("height") is not None:
+        size[1] = float(raw_object.attrib["height"])
+
+    common.size = Size(size[0], size[1])
 
     if raw_object.attrib.get("visible") is not None:
         common.visible = bool(int(raw_object.attrib["visible"]))
-- 
2.43.0


From 3ddb8d6b3077f02a1277b0df660e8b0569d4c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 06/34] fix: read the class of JSON wang sets and wang colors

---
 pytiled_parser/parsers/json/wang_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/wang_set.py b/pytiled_parser/parsers/json/wang_set.py
index f44c4b2..4cb5cd8 100644
--- a/pytiled_parser/parsers/json/wang_set.py
+++ b/pytiled_parser/parsers/json/wang_set.py
@@ -82,6 +82,9 @@ def _parse_wang_color(raw_wang_color: RawWangColor) -> WangColor:
         probability=raw_wang_color["probability"],
     )
 
+    if raw_wang_color.get("class") is not None:
+        wang_color.class_ = raw_wang_color["class"]
+
     if raw_wang_color.get("properties") is not None:
         wang_color.properties = parse_properties(raw_wang_color["properties"])
 
@@ -114,6 +117,9 @@ def parse(raw_wangset: RawWangSet) -> WangSet:
         wang_tiles=tiles,
     )
 
+    if raw_wangset.get("class") is not None:
+        wangset.class_ = raw_wangset["class"]
+
     if raw_wangset.get("properties") is not None:
         wangset.properties = parse_properties(raw_wangset["properties"])
 
-- 
2.43.0


From 9ea4911b242693dd903ce886c839815314b765b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 07/34] fix: read multi-line string properties of TMX files

---
 pytiled_parser/parsers/tmx/properties.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 1b20e3d..fef0d45 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -12,11 +12,14 @@ def parse(raw_properties: etree.Element) -> Properties:
     for raw_property in raw_properties.findall("property"):
         type_ = raw_property.attrib.get("type")
 
-        if "value" not in raw_property.attrib:
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif type_ in (None, "string") and raw_property.text is not None:
+            # Tiled stores strings containing newlines as the element's text
+            value_ = raw_property.text
+        else:
             continue
 
-        value_ = raw_property.attrib["value"]
-
         if type_ == "file":
             value = Path(value_)
         elif type_ == "color":
-- 
2.43.0


From 0025515a345a5c803b0733d73bb66f75362ad574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 08/34] fix: int and object properties of TMX files are ints,
 as in JSON

---
 pytiled_parser/parsers/tmx/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index fef0d45..53a5290 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -24,7 +24,9 @@ def parse(raw_properties: etree.Element) -> Properties:
             value = Path(value_)
         elif type_ == "color":
             value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
+        elif type_ == "int" or type_ == "object":
+            value = int(value_)
+        elif type_ == "float":
             value = float(value_)
         elif type_ == "bool":
             if value_ == "true":
-- 
2.43.0


From 400b3a6703b62c694064f12cbc40570cad16a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 09/34] fix: do not print while parsing a TMX map

---
 pytiled_parser/parsers/tmx/tiled_map.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 8bcaa5e..aa246f5 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -107,7 +107,6 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        print("here")
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-- 
2.43.0


From cf63dc9b41b0f3ec9eb9fb0eaac7266bf90bea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 10/34] fix: detect the format of files that are empty or start
 with blank lines

Reading bytes also leaves undecodable content to the parsers, which report
it as an unknown format.
---
 pytiled_parser/util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 45de44e..aef6e64 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -37,12 +37,13 @@ def parse_color(color: str) -> Color:
 
 
 def check_format(file_path: Path) -> str:
-    with open(file_path) as file:
-        line = file.readline().rstrip().strip()
-        if line[0] == "<":
-            return "tmx"
-        else:
-            return "json"
+    with open(file_path, "rb") as file:
+        for raw_line in file:
+            line = raw_line.strip()
+            if line:
+                return "tmx" if line.startswith(b"<") else "json"
+
+    return "json"
 
 
 def load_object_template(file_path: Path) -> Any:
-- 
2.43.0


From 7dfb2a112c33070c525e46624c22eea7680591ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 11/34] fix: read files as UTF-8 whatever the locale

---
 pytiled_parser/parser.py                 | 4 ++--
 pytiled_parser/parsers/json/tiled_map.py | 4 ++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 4 ++--
 pytiled_parser/util.py                   | 6 +++---
 pytiled_parser/world.py                  | 2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytiled_parser/parser.py b/pytiled_parser/parser.py
index 22918ec..05ffb1d 100644
--- a/pytiled_parser/parser.py
+++ b/pytiled_parser/parser.py
@@ -50,12 +50,12 @@ def parse_tileset(file: Path) -> Tileset:
     parser = check_format(file)
 
     if parser == "tmx":
-        with open(file) as map_file:
+        with open(file, encoding="utf-8") as map_file:
             raw_tileset = etree.parse(map_file).getroot()
         return tmx_tileset_parse(raw_tileset, 1)
     else:
         try:
-            with open(file) as my_file:
+            with open(file, encoding="utf-8") as my_file:
                 raw_tileset = json.load(my_file)
             return json_tileset_parse(raw_tileset, 1)
         except ValueError:
diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a5113f5..f2ba2cf 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -64,7 +64,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_tiled_map = json.load(map_file)
 
     parent_dir = file.parent
@@ -77,7 +77,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as raw_tileset_file:
+            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                     tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index aa246f5..59782ea 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -21,7 +21,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_map = etree.parse(map_file).getroot()
 
     parent_dir = file.parent
@@ -34,7 +34,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as tileset_file:
+            with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(tileset_file).getroot()
                     tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index aef6e64..e9f1c27 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -53,7 +53,7 @@ def load_object_template(file_path: Path) -> Any:
     new_tileset_path = None
 
     if template_format == "tmx":
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = etree.parse(template_file).getroot()
 
             tileset_element = template.find("./tileset")
@@ -62,7 +62,7 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path.parent
     else:
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
@@ -77,7 +77,7 @@ def load_object_tileset(file_path: Path) -> Any:
 
     new_tileset = None
 
-    with open(file_path) as tileset_file:
+    with open(file_path, encoding="utf-8") as tileset_file:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
diff --git a/pytiled_parser/world.py b/pytiled_parser/world.py
index 67214a6..a6ef88d 100644
--- a/pytiled_parser/world.py
+++ b/pytiled_parser/world.py
@@ -110,7 +110,7 @@ def parse_world(file: Path) -> World:
         World: A properly parsed [World][pytiled_parser.world.World]
     """
 
-    with open(file) as world_file:
+    with open(file, encoding="utf-8") as world_file:
         raw_world = json.load(world_file)
 
     parent_dir = file.parent
-- 
2.43.0


From c518096345a0216ed5083ee4780d9f90126ce244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 12/34] fix: reject malformed colors

int() also takes signs, spaces and non-ASCII digits, and any first character
of an odd-length string was dropped as if it were '#'.
---
 pytiled_parser/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index e9f1c27..b062666 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -1,5 +1,6 @@
 """Utility Functions for PyTiled"""
 import json
+import string
 import xml.etree.ElementTree as etree
 from pathlib import Path
 from typing import Any
@@ -17,11 +18,12 @@ def parse_color(color: str) -> Color:
     Returns:
         :Color: Color object in the format that PyTiled understands.
     """
-    # the actual part we care about is always an even number
-    if len(color) % 2:
-        # strip initial '#' character
+    if color.startswith("#"):
         color = color[1:]
 
+    if not all(digit in string.hexdigits for digit in color):
+        raise ValueError("Improperly formatted color passed to parse_color")
+
     if len(color) == 6:
         # full opacity if no alpha specified
         return Color(int(color[0:2], 16), int(color[2:4], 16), int(color[4:6], 16), 255)
-- 
2.43.0


From bab551a71a0b4c8341e40498c5bd054f43d79281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 13/34] fix: refuse unknown tile data compressions instead of
 misreading them

---
 pytiled_parser/parsers/json/layer.py | 2 ++
 pytiled_parser/parsers/tmx/layer.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index e5a2625..a296725 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -144,6 +144,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type {compression}")
     else:
         unzipped_data = unencoded_data
 
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 00c5c75..859cca6 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -89,6 +89,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type {compression}")
     else:
         unzipped_data = unencoded_data
 
-- 
2.43.0


From 9865f9e2ddd9439e4e41277ea44cda8d392ac621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 14/34] fix: accept JSON tile layers with csv encoding or
 without compression key

---
 pytiled_parser/parsers/json/layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index a296725..42e1ce5 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -284,16 +284,18 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
         for chunk in raw_layer["chunks"]:
             if raw_layer.get("encoding") is not None:
                 tile_layer.chunks.append(
-                    _parse_chunk(chunk, raw_layer["encoding"], raw_layer["compression"])
+                    _parse_chunk(
+                        chunk, raw_layer["encoding"], raw_layer.get("compression", "")
+                    )
                 )
             else:
                 tile_layer.chunks.append(_parse_chunk(chunk))
 
     if raw_layer.get("data") is not None:
-        if raw_layer.get("encoding") is not None:
+        if raw_layer.get("encoding", "csv") != "csv":
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
-                compression=raw_layer["compression"],
+                compression=raw_layer.get("compression", ""),
                 layer_width=raw_layer["width"],
             )
         else:
-- 
2.43.0


From 2ff87a392ea9da976a06d77a949bd39501a888b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 15/34] fix: read TMX tile data stored as tile elements

---
 pytiled_parser/parsers/tmx/layer.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 859cca6..28897b8 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -111,6 +111,22 @@ def _decode_tile_layer_data(
     return _convert_raw_tile_layer_data(tile_grid, layer_width)
 
 
+def _read_unencoded_data(raw_data: etree.Element) -> List[int]:
+    """Read tile data that is not base64 encoded.
+
+    Args:
+        raw_data: XML Element holding either `<tile>` elements or CSV text
+
+    Returns:
+        List[int]: The global tile IDs
+    """
+    raw_tiles = raw_data.findall("./tile")
+    if raw_tiles:
+        return [int(raw_tile.attrib.get("gid", 0)) for raw_tile in raw_tiles]
+
+    return [int(v.strip()) for v in raw_data.text.split(",")]  # type: ignore
+
+
 def _parse_chunk(
     raw_chunk: etree.Element,
     encoding: Optional[str] = None,
@@ -133,7 +149,7 @@ def _parse_chunk(
         )
     else:
         data = _convert_raw_tile_layer_data(
-            [int(v.strip()) for v in raw_chunk.text.split(",")],  # type: ignore
+            _read_unencoded_data(raw_chunk),
             int(raw_chunk.attrib["width"]),
         )
 
@@ -247,7 +263,7 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
                 )
             else:
                 tile_layer.data = _convert_raw_tile_layer_data(
-                    [int(v.strip()) for v in data_element.text.split(",")],  # type: ignore
+                    _read_unencoded_data(data_element),
                     int(raw_layer.attrib["width"]),
                 )
         else:
-- 
2.43.0


From 586579828b515aad690fd0e25db7facfa19186d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 16/34] fix: TMX layers of infinite maps may have no chunks

---
 pytiled_parser/parsers/tmx/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 28897b8..acfe24e 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -254,7 +254,10 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
             compression = data_element.attrib["compression"]
 
         raw_chunks = data_element.findall("chunk")
-        if not raw_chunks:
+        if len(data_element) == 0 and not (data_element.text or "").strip():
+            # A layer of an infinite map that has no tiles yet
+            tile_layer.chunks = []
+        elif not raw_chunks:
             if encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
-- 
2.43.0


From 3d97aa038d2c0c065f25524e952ed0c456fa2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 17/34] fix: versions stored as integers are reported as
 strings too

---
 pytiled_parser/parsers/json/tiled_map.py | 2 +-
 pytiled_parser/parsers/json/tileset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index f2ba2cf..8dbd261 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -104,7 +104,7 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, raw_tileset["firstgid"]
             )
 
-    if isinstance(raw_tiled_map["version"], float):  # pragma: no cover
+    if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
         version = str(raw_tiled_map["version"])
     else:
         version = raw_tiled_map["version"]
diff --git a/pytiled_parser/parsers/json/tileset.py b/pytiled_parser/parsers/json/tileset.py
index cbbc51d..c15b39e 100644
--- a/pytiled_parser/parsers/json/tileset.py
+++ b/pytiled_parser/parsers/json/tileset.py
@@ -260,7 +260,7 @@ def parse(
         # to keep old versions in the test data and not update them with the
         # rest so I'm excluding this from coverage. In reality it's probably
         # not needed. Tiled hasn't been using floats for the version for a long time
-        if isinstance(raw_tileset["version"], float):  # pragma: no cover
+        if isinstance(raw_tileset["version"], (int, float)):  # pragma: no cover
             tileset.version = str(raw_tileset["version"])
         else:
             tileset.version = raw_tileset["version"]
-- 
2.43.0


From a90eedea78d106b7bc5b82e0917da17f7cb1190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 18/34] fix: damaged JSON tilesets of TMX maps raise
 UnknownFormat

---
 pytiled_parser/parsers/tmx/tiled_map.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 59782ea..e896602 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -43,11 +43,19 @@ def parse(file: Path) -> TiledMap:
                         external_path=tileset_path.parent,
                     )
                 elif parser == "json":
-                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
-                        json.load(tileset_file),
-                        int(raw_tileset.attrib["firstgid"]),
-                        external_path=tileset_path.parent,
-                    )
+                    try:
+                        tilesets[
+                            int(raw_tileset.attrib["firstgid"])
+                        ] = parse_json_tileset(
+                            json.load(tileset_file),
+                            int(raw_tileset.attrib["firstgid"]),
+                            external_path=tileset_path.parent,
+                        )
+                    except ValueError:
+                        raise UnknownFormat(
+                            "Unknown Tileset Format, please use either the TSX or JSON format. "
+                            "This message could also mean your tileset file is invalid or corrupted."
+                        )
                 else:
                     raise UnknownFormat(
                         "Unkown Tileset format, please use either the TSX or JSON format."
-- 
2.43.0


From a0f48c03fd78566b10021330a125c5f7a322297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 19/34] fix: an empty properties element is an empty set of
 properties

The truth value of an element, which is deprecated, is false if it has no
children.
---
 pytiled_parser/parsers/tmx/tiled_map.py    | 2 +-
 pytiled_parser/parsers/tmx/tiled_object.py | 2 +-
 pytiled_parser/parsers/tmx/wang_set.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index e896602..53051f7 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -140,7 +140,7 @@ def parse(file: Path) -> TiledMap:
         map_.hex_side_length = int(raw_map.attrib["hexsidelength"])
 
     properties_element = raw_map.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         map_.properties = parse_properties(properties_element)
 
     if raw_map.attrib.get("staggeraxis") is not None:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index bb94a16..053e2d3 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -60,7 +60,7 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         common.class_ = raw_object.attrib["class"]
 
     properties_element = raw_object.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         common.properties = parse_properties(properties_element)
 
     return common
diff --git a/pytiled_parser/parsers/tmx/wang_set.py b/pytiled_parser/parsers/tmx/wang_set.py
index 0789cb1..3401311 100644
--- a/pytiled_parser/parsers/tmx/wang_set.py
+++ b/pytiled_parser/parsers/tmx/wang_set.py
@@ -38,7 +38,7 @@ def _parse_wang_color(raw_wang_color: etree.Element) -> WangColor:
         wang_color.class_ = raw_wang_color.attrib["class"]
 
     properties = raw_wang_color.find("./properties")
-    if properties:
+    if properties is not None:
         wang_color.properties = parse_properties(properties)
 
     return wang_color
@@ -74,7 +74,7 @@ def parse(raw_wangset: etree.Element) -> WangSet:
         wangset.class_ = raw_wangset.attrib["class"]
 
     properties = raw_wangset.find("./properties")
-    if properties:
+    if properties is not None:
         wangset.properties = parse_properties(properties)
 
     return wangset
-- 
2.43.0


From 47fd7c699b55e3a338b383f1ba7b46c7284d6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 20/34] fix: maps matched by a pattern with negative
 multipliers have a positive size

---
 pytiled_parser/world.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/world.py b/pytiled_parser/world.py
index a6ef88d..cc8c3fd 100644
--- a/pytiled_parser/world.py
+++ b/pytiled_parser/world.py
@@ -150,8 +150,8 @@ def parse_world(file: Path) -> World:
 
                     raw_world_map: RawWorldMap = {
                         "fileName": map_file,
-                        "width": width,
-                        "height": height,
+                        "width": abs(width),
+                        "height": abs(height),
                         "x": x,
                         "y": y,
                     }
-- 
2.43.0


From fcb77edbc73d9d0ccaf7f9bf4c654fdcb626d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 21/34] fix: JSON template instances override their template

Values of the template replaced those saved on the instance, and the
properties of one replaced those of the other.
---
 pytiled_parser/parsers/json/tiled_object.py | 26 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33cae00..36c7349 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -306,6 +306,7 @@ def parse(
     """
     new_tileset = None
     new_tileset_path = None
+    template_properties = None
 
     if raw_object.get("template"):
         if not parent_dir:
@@ -317,9 +318,12 @@ def parse(
 
         if isinstance(template, dict):
             loaded_template = template["object"]
-            for key in loaded_template:
-                if key != "id":
-                    raw_object[key] = loaded_template[key]  # type: ignore
+            template_properties = loaded_template.pop("properties", None)
+            if "type" in raw_object or "class" in raw_object:
+                # The class is stored under either name
+                loaded_template.pop("type", None)
+                loaded_template.pop("class", None)
+            raw_object = {**loaded_template, **raw_object}  # type: ignore
         else:
             raise NotImplementedError(
                 "Loading TMX object templates inside a JSON map is currently not supported, "
@@ -327,6 +331,16 @@ def parse(
             )
 
     if raw_object.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+        tiled_object: TiledObject = _parse_tile(
+            raw_object, new_tileset, new_tileset_path
+        )
+    else:
+        tiled_object = _get_parser(raw_object)(raw_object)
+
+    if template_properties is not None:
+        tiled_object.properties = {
+            **parse_properties(template_properties),
+            **tiled_object.properties,
+        }
+
+    return tiled_object
-- 
2.43.0


From 7b7074897f523fda8507ed7963abc813717f238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 22/34] fix: TMX template instances override properties, shape
 and text

Only the first properties element of the merged object was read, which was
the template's, and other child elements of the instance were ignored.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 053e2d3..d915a2a 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -280,11 +280,22 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                 for key, val in raw_object.attrib.items():
                     if key == "template":
                         continue
+                    if key in ("type", "class"):
+                        # The class is stored under either name
+                        new_object.attrib.pop("type", None)
+                        new_object.attrib.pop("class", None)
                     new_object.attrib[key] = val
 
-                properties_element = raw_object.find("./properties")
-                if properties_element is not None:
-                    new_object.append(properties_element)
+                for child in raw_object:
+                    template_child = new_object.find(f"./{child.tag}")
+                    if template_child is None:
+                        new_object.append(child)
+                    elif child.tag == "properties":
+                        # Of two properties with one name, the last one counts
+                        template_child.extend(child)
+                    else:
+                        new_object.remove(template_child)
+                        new_object.append(child)
 
                 raw_object = new_object
         elif isinstance(template, dict):
-- 
2.43.0


From 2684236adac890dd0ce47e81d6ae9b5abe54a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 23/34] fix: do not rebase the global tile ID saved on a
 template instance

---
 pytiled_parser/parsers/json/tiled_object.py | 5 +++++
 pytiled_parser/parsers/tmx/tiled_object.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 36c7349..47de543 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -316,6 +316,11 @@ def parse(
         template_path = Path(parent_dir / raw_object["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
 
+        if raw_object.get("gid"):
+            # The instance has its own tile, which is one of the map's tilesets
+            new_tileset = None
+            new_tileset_path = None
+
         if isinstance(template, dict):
             loaded_template = template["object"]
             template_properties = loaded_template.pop("properties", None)
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index d915a2a..971c257 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -274,6 +274,11 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         template_path = Path(parent_dir / raw_object.attrib["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
 
+        if raw_object.attrib.get("gid"):
+            # The instance has its own tile, which is one of the map's tilesets
+            new_tileset = None
+            new_tileset_path = None
+
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
-- 
2.43.0


From 161023801caf472ad03a888f275d79c398dcae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 24/34] fix: load the tilesets of templates used in layers
 inside groups

---
 pytiled_parser/parsers/json/tiled_map.py | 6 ++----
 pytiled_parser/parsers/tmx/tiled_map.py  | 6 ++----
 pytiled_parser/util.py                   | 9 +++++++++
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 8dbd261..cd62359 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -15,7 +15,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, find_object_layers, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
 
@@ -125,9 +125,7 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in find_object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 53051f7..b08f75c 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -9,7 +9,7 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, find_object_layers, parse_color
 
 
 def parse(file: Path) -> TiledMap:
@@ -89,9 +89,7 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in find_object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index b062666..d8a92de 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -48,6 +48,15 @@ def check_format(file_path: Path) -> str:
     return "json"
 
 
+def find_object_layers(layers: Any) -> Any:
+    """Object layers among the given layers and, recursively, in their groups."""
+    for layer in layers:
+        if hasattr(layer, "tiled_objects"):
+            yield layer
+        elif hasattr(layer, "layers"):
+            yield from find_object_layers(layer.layers)
+
+
 def load_object_template(file_path: Path) -> Any:
     template_format = check_format(file_path)
 
-- 
2.43.0


From 6af74ca710e84d354bbfb83838c11c6fd9fad24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 25/34] fix: the tileset of a template may be in the other
 format

---
 pytiled_parser/parsers/json/tiled_map.py | 11 +++++++++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index cd62359..a89f5eb 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -142,9 +142,16 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    if isinstance(tiled_object.new_tileset, dict):
+                        parse_tileset = parse_json_tileset
+                        new_tileset_name = tiled_object.new_tileset["name"]
+                    else:
+                        parse_tileset = parse_tmx_tileset
+                        new_tileset_name = tiled_object.new_tileset.attrib["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset["name"]:
+                        if val.name == new_tileset_name:
                             already_loaded = val
                             break
 
@@ -152,7 +159,7 @@ def parse(file: Path) -> TiledMap:
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-                        map_.tilesets[new_firstgid] = parse_json_tileset(
+                        map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index b08f75c..e19a13d 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -106,9 +106,16 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    if isinstance(tiled_object.new_tileset, dict):
+                        parse_tileset = parse_json_tileset
+                        new_tileset_name = tiled_object.new_tileset["name"]
+                    else:
+                        parse_tileset = parse_tmx_tileset
+                        new_tileset_name = tiled_object.new_tileset.attrib["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.attrib["name"]:
+                        if val.name == new_tileset_name:
                             already_loaded = val
                             break
 
@@ -116,7 +123,7 @@ def parse(file: Path) -> TiledMap:
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-                        map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                        map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
-- 
2.43.0


From 21d5d0ac94d6f139778b42f18fcaec49134dd451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 26/34] fix: templates with a tileset may be used in maps
 without tilesets

---
 pytiled_parser/parsers/json/tiled_map.py | 10 +++++++---
 pytiled_parser/parsers/tmx/tiled_map.py  | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a89f5eb..5102467 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -156,9 +156,13 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = 1
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset_count = map_.tilesets[
+                                highest_firstgid
+                            ].tile_count
+                            new_firstgid = highest_firstgid + last_tileset_count
                         map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index e19a13d..889a4b6 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -120,9 +120,13 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = 1
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset_count = map_.tilesets[
+                                highest_firstgid
+                            ].tile_count
+                            new_firstgid = highest_firstgid + last_tileset_count
                         map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From f9a4726516f8a125e6c9f8cfffedef42eabfacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 27/34] fix: first IDs of template tilesets do not overlap
 sparse tilesets

---
 pytiled_parser/parsers/json/tiled_map.py | 10 ++++++----
 pytiled_parser/parsers/tmx/tiled_map.py  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 5102467..f99e4c3 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -159,10 +159,12 @@ def parse(file: Path) -> TiledMap:
                         new_firstgid = 1
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
-                            last_tileset_count = map_.tilesets[
-                                highest_firstgid
-                            ].tile_count
-                            new_firstgid = highest_firstgid + last_tileset_count
+                            last_tileset = map_.tilesets[highest_firstgid]
+                            # Collections of images may have gaps in their tile IDs
+                            new_firstgid = highest_firstgid + max(
+                                [last_tileset.tile_count]
+                                + [tile_id + 1 for tile_id in last_tileset.tiles or []]
+                            )
                         map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 889a4b6..b57bf68 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -123,10 +123,12 @@ def parse(file: Path) -> TiledMap:
                         new_firstgid = 1
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
-                            last_tileset_count = map_.tilesets[
-                                highest_firstgid
-                            ].tile_count
-                            new_firstgid = highest_firstgid + last_tileset_count
+                            last_tileset = map_.tilesets[highest_firstgid]
+                            # Collections of images may have gaps in their tile IDs
+                            new_firstgid = highest_firstgid + max(
+                                [last_tileset.tile_count]
+                                + [tile_id + 1 for tile_id in last_tileset.tiles or []]
+                            )
                         map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From 30ea5d3daf9f64b3ce16c331d3bf308b5e5c2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 28/34] fix: images of TMX tilesets may be saved without their
 size

---
 pytiled_parser/parsers/tmx/tileset.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tileset.py b/pytiled_parser/parsers/tmx/tileset.py
index 5d788af..d0d368d 100644
--- a/pytiled_parser/parsers/tmx/tileset.py
+++ b/pytiled_parser/parsers/tmx/tileset.py
@@ -106,10 +106,14 @@ def _parse_tile(raw_tile: etree.Element, external_path: Optional[Path] = None) -
         else:
             tile.image = Path(image_element.attrib["source"])
 
-        tile.image_width = int(image_element.attrib["width"])
-        tile.width = tile.image_width
-        tile.image_height = int(image_element.attrib["height"])
-        tile.height = tile.image_height
+        # The size is not saved when it is not known, as for a missing image
+        if image_element.attrib.get("width") is not None:
+            tile.image_width = int(image_element.attrib["width"])
+            tile.width = tile.image_width
+
+        if image_element.attrib.get("height") is not None:
+            tile.image_height = int(image_element.attrib["height"])
+            tile.height = tile.image_height
 
     if raw_tile.attrib.get("x") is not None:
         tile.x = int(raw_tile.attrib["x"])
@@ -178,8 +182,11 @@ def parse(
         else:
             tileset.image = Path(image_element.attrib["source"])
 
-        tileset.image_width = int(image_element.attrib["width"])
-        tileset.image_height = int(image_element.attrib["height"])
+        if image_element.attrib.get("width") is not None:
+            tileset.image_width = int(image_element.attrib["width"])
+
+        if image_element.attrib.get("height") is not None:
+            tileset.image_height = int(image_element.attrib["height"])
 
         if image_element.attrib.get("trans") is not None:
             my_string = image_element.attrib["trans"]
-- 
2.43.0


From b08c4f3aa8f50f1b061b8824b1eb195ef47f4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 29/34] fix: refuse tile data in an unknown encoding

JSON layers decoded whatever was not csv as base64 and split chunks into
single characters; TMX layers did the former.
---
 pytiled_parser/parsers/json/layer.py | 3 +++
 pytiled_parser/parsers/tmx/layer.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 42e1ce5..84a2bd1 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -279,6 +279,9 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
     """
     tile_layer = TileLayer(**_parse_common(raw_layer).__dict__)
 
+    if raw_layer.get("encoding") not in (None, "", "csv", "base64"):
+        raise ValueError(f"Unsupported encoding type {raw_layer['encoding']}")
+
     if raw_layer.get("chunks") is not None:
         tile_layer.chunks = []
         for chunk in raw_layer["chunks"]:
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index acfe24e..5665ba4 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -249,6 +249,9 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
         if data_element.attrib.get("encoding") is not None:
             encoding = data_element.attrib["encoding"]
 
+        if encoding not in (None, "", "csv", "base64"):
+            raise ValueError(f"Unsupported encoding type {encoding}")
+
         compression = ""
         if data_element.attrib.get("compression") is not None:
             compression = data_element.attrib["compression"]
-- 
2.43.0


From c0a2f96141af08e78941df52f2407556f196f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 30/34] fix: JSON layers whose encoding or compression is null
 or empty are read alike, chunked or not

---
 pytiled_parser/parsers/json/layer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 84a2bd1..a53cb92 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -182,10 +182,8 @@ def _parse_chunk(
         Chunk: The Chunk created from the raw_chunk
     """
     if encoding == "base64":
-        assert isinstance(compression, str)
-        assert isinstance(raw_chunk["data"], str)
         data = _decode_tile_layer_data(
-            raw_chunk["data"], compression, raw_chunk["width"]
+            cast(str, raw_chunk["data"]), compression or "", raw_chunk["width"]
         )
     else:
         data = _convert_raw_tile_layer_data(
@@ -295,7 +293,7 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
                 tile_layer.chunks.append(_parse_chunk(chunk))
 
     if raw_layer.get("data") is not None:
-        if raw_layer.get("encoding", "csv") != "csv":
+        if raw_layer.get("encoding") == "base64":
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
                 compression=raw_layer.get("compression", ""),
-- 
2.43.0


From 9934f6569f7dff66d3f7e4b0c4e7e854675998c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 31/34] fix: refuse ID-keyed tiles with an ID of their own also
 when assertions are disabled

---
 pytiled_parser/parsers/json/tileset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/json/tileset.py b/pytiled_parser/parsers/json/tileset.py
index c15b39e..b4056e9 100644
--- a/pytiled_parser/parsers/json/tileset.py
+++ b/pytiled_parser/parsers/json/tileset.py
@@ -306,7 +306,8 @@ def parse(
         tiles = {}
         if isinstance(raw_tileset["tiles"], dict):
             for raw_tile_id, raw_tile in raw_tileset["tiles"].items():
-                assert raw_tile.get("id") is None
+                if raw_tile.get("id") is not None:
+                    raise ValueError("Tiles keyed by their ID must not have another ID")
                 raw_tile["id"] = int(raw_tile_id)
                 tiles[raw_tile["id"]] = _parse_tile(
                     raw_tile, external_path=external_path
-- 
2.43.0


From 0b83c8ae82649a4f185fde2079797ec181398314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 32/34] fix: template tilesets are told apart by file, not by
 name

---
 pytiled_parser/parsers/json/tiled_map.py | 23 ++++++++++++++++-------
 pytiled_parser/parsers/tmx/tiled_map.py  | 23 +++++++++++++++++------
 pytiled_parser/util.py                   |  4 ++--
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index f99e4c3..5b5b27b 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -1,7 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import List, Union, cast
+from typing import Dict, List, Union, cast
 
 from typing_extensions import TypedDict
 
@@ -15,6 +15,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
+from pytiled_parser.tileset import Tileset
 from pytiled_parser.util import check_format, find_object_layers, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
@@ -71,6 +72,8 @@ def parse(file: Path) -> TiledMap:
 
     raw_tilesets: List[Union[RawTileSet, RawTilesetMapping]] = raw_tiled_map["tilesets"]
     tilesets: TilesetDict = {}
+    # By file, or by name for embedded tilesets: names may occur more than once
+    known_tilesets: Dict[Union[Path, str], Tileset] = {}
 
     for raw_tileset in raw_tilesets:
         if raw_tileset.get("source") is not None:
@@ -97,12 +100,18 @@ def parse(file: Path) -> TiledMap:
                             "Unknown Tileset Format, please use either the TSX or JSON format. "
                             "This message could also mean your tileset file is invalid or corrupted."
                         )
+            known_tilesets.setdefault(
+                tileset_path.resolve(), tilesets[raw_tileset["firstgid"]]
+            )
         else:
             # Is an embedded Tileset
             raw_tileset = cast(RawTileSet, raw_tileset)
             tilesets[raw_tileset["firstgid"]] = parse_json_tileset(
                 raw_tileset, raw_tileset["firstgid"]
             )
+            known_tilesets.setdefault(
+                raw_tileset["name"], tilesets[raw_tileset["firstgid"]]
+            )
 
     if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
         version = str(raw_tiled_map["version"])
@@ -149,11 +158,10 @@ def parse(file: Path) -> TiledMap:
                         parse_tileset = parse_tmx_tileset
                         new_tileset_name = tiled_object.new_tileset.attrib["name"]
 
-                    already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == new_tileset_name:
-                            already_loaded = val
-                            break
+                    new_tileset_file = tiled_object.new_tileset_path.resolve()
+                    already_loaded = known_tilesets.get(
+                        new_tileset_file, known_tilesets.get(new_tileset_name)
+                    )
 
                     if not already_loaded:
                         new_firstgid = 1
@@ -168,8 +176,9 @@ def parse(file: Path) -> TiledMap:
                         map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-                            tiled_object.new_tileset_path,
+                            tiled_object.new_tileset_path.parent,
                         )
+                        known_tilesets[new_tileset_file] = map_.tilesets[new_firstgid]
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index b57bf68..26d5708 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -1,6 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
+from typing import Dict, Union
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
@@ -9,6 +10,7 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
+from pytiled_parser.tileset import Tileset
 from pytiled_parser.util import check_format, find_object_layers, parse_color
 
 
@@ -28,6 +30,8 @@ def parse(file: Path) -> TiledMap:
 
     raw_tilesets = raw_map.findall("./tileset")
     tilesets: TilesetDict = {}
+    # By file, or by name for embedded tilesets: names may occur more than once
+    known_tilesets: Dict[Union[Path, str], Tileset] = {}
 
     for raw_tileset in raw_tilesets:
         if raw_tileset.attrib.get("source") is not None:
@@ -60,12 +64,19 @@ def parse(file: Path) -> TiledMap:
                     raise UnknownFormat(
                         "Unkown Tileset format, please use either the TSX or JSON format."
                     )
+            known_tilesets.setdefault(
+                tileset_path.resolve(), tilesets[int(raw_tileset.attrib["firstgid"])]
+            )
 
         else:
             # Is an embedded Tileset
             tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
                 raw_tileset, int(raw_tileset.attrib["firstgid"])
             )
+            known_tilesets.setdefault(
+                raw_tileset.attrib["name"],
+                tilesets[int(raw_tileset.attrib["firstgid"])],
+            )
 
     layers = []
     for element in raw_map:
@@ -113,11 +124,10 @@ def parse(file: Path) -> TiledMap:
                         parse_tileset = parse_tmx_tileset
                         new_tileset_name = tiled_object.new_tileset.attrib["name"]
 
-                    already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == new_tileset_name:
-                            already_loaded = val
-                            break
+                    new_tileset_file = tiled_object.new_tileset_path.resolve()
+                    already_loaded = known_tilesets.get(
+                        new_tileset_file, known_tilesets.get(new_tileset_name)
+                    )
 
                     if not already_loaded:
                         new_firstgid = 1
@@ -132,8 +142,9 @@ def parse(file: Path) -> TiledMap:
                         map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-                            tiled_object.new_tileset_path,
+                            tiled_object.new_tileset_path.parent,
                         )
+                        known_tilesets[new_tileset_file] = map_.tilesets[new_firstgid]
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index d8a92de..25d20b4 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -71,14 +71,14 @@ def load_object_template(file_path: Path) -> Any:
             if tileset_element is not None:
                 tileset_path = Path(file_path.parent / tileset_element.attrib["source"])
                 new_tileset = load_object_tileset(tileset_path)
-                new_tileset_path = tileset_path.parent
+                new_tileset_path = tileset_path
     else:
         with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                 new_tileset = load_object_tileset(tileset_path)
-                new_tileset_path = tileset_path.parent
+                new_tileset_path = tileset_path
 
     return (template, new_tileset, new_tileset_path)
 
-- 
2.43.0


From a6c98e0aa3217e9d304e70fb7eda3469d9718494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 33/34] fix: a template's tileset must not replace an empty
 tileset of the map

---
 pytiled_parser/parsers/json/tiled_map.py | 2 +-
 pytiled_parser/parsers/tmx/tiled_map.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 5b5b27b..d04f36d 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -170,7 +170,7 @@ def parse(file: Path) -> TiledMap:
                             last_tileset = map_.tilesets[highest_firstgid]
                             # Collections of images may have gaps in their tile IDs
                             new_firstgid = highest_firstgid + max(
-                                [last_tileset.tile_count]
+                                [last_tileset.tile_count, 1]
                                 + [tile_id + 1 for tile_id in last_tileset.tiles or []]
                             )
                         map_.tilesets[new_firstgid] = parse_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 26d5708..4cf6eec 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -136,7 +136,7 @@ def parse(file: Path) -> TiledMap:
                             last_tileset = map_.tilesets[highest_firstgid]
                             # Collections of images may have gaps in their tile IDs
                             new_firstgid = highest_firstgid + max(
-                                [last_tileset.tile_count]
+                                [last_tileset.tile_count, 1]
                                 + [tile_id + 1 for tile_id in last_tileset.tiles or []]
                             )
                         map_.tilesets[new_firstgid] = parse_tileset(
-- 
2.43.0


From c362ab755487eff208dea715a09c0a6c88f221d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 34/34] fix: count a template's global ID from its tileset's
 first ID

---
 pytiled_parser/util.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 25d20b4..10c0b6b 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -72,6 +72,15 @@ def load_object_template(file_path: Path) -> Any:
                 tileset_path = Path(file_path.parent / tileset_element.attrib["source"])
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path
+
+                object_element = template.find("./object")
+                if object_element is not None and object_element.attrib.get("gid"):
+                    # Count global IDs from 1, whatever the tileset's first ID
+                    object_element.attrib["gid"] = str(
+                        int(object_element.attrib["gid"])
+                        - int(tileset_element.attrib.get("firstgid", 1))
+                        + 1
+                    )
     else:
         with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
@@ -80,6 +89,10 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path
 
+                if template["object"].get("gid"):
+                    # Count global IDs from 1, whatever the tileset's first ID
+                    template["object"]["gid"] -= template["tileset"].get("firstgid", 1) - 1
+
     return (template, new_tileset, new_tileset_path)
 
 
-- 
2.43.0

