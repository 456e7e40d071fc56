"""Value domains: small, but chosen to separate realistic mistakes.

The first entries of every list are the most ordinary ones, the later ones the
boundary cases; levels with many deviations use prefixes of these lists.
"""
from .model import P

NUM = [3.75, -7, 0, 1, 0.5, -0.25, 2, 100, 1000.125, 65535, -123456789.25, 0.001, 1e-07, 1e21, 10, 16, 255, 256]
UNIT = [0.25, 0, 1, 0.5, 0.1, 0.999, 0.123456789, 1e-06]
INT = [7, 0, -3, 1, 2, 100, 255, 256, 1000, 65536, 2147483647, -1]
NAT = [7, 0, 1, 2, 3, 100, 255, 256, 65536, 2147483647]
POS = [7, 1, 2, 3, 100, 255, 256, 65536]
BOOL = [True, False]
# False first where true is the default
BOOLN = [False, True]
STR = [
    "name", "", "Ünïcode 日本 😀", "a <b> & \"c\" 'd'", " padded ", "0", "1", "true", "False", "None", "null", "a,b;c",
    "#ff0000", "../x/y.png", "a\\b", "C:\\x", "50%s{}", "a.b.c", "line1\nline2", "tab\there", "-1", "1.5", "default",
    "#123456", "#80ff0000", "#fff", "1e3", "0x10", "nan", "-inf", "[1, 2]", "{}", "1_000", "\u0663", "\"q\"", "0.0", "TRUE", "yes",
    "object", "layer", "x" * 300, "é", "e\u0301", "\u00a0", "A", "nAmE",
    "&amp;", "&#65;", "<![CDATA[x]]>", "]]>", "<!-- c -->", "%41~$HOME", "a\u2028b\u0085c", "\u3000x\u200b", "\ufb01\u0130\u1e9e", "\ufffd\U0010fffd",
]
ASCII = ["name", "", "other", "0", "a b"]
COL = [
    "#80ff0102", "#1a2b3c", "#00000000", "#ffffffff", "#ABCDEF", "#aBcDeF01", "#000000", "#ff000000", "#00ffffff",
    "#010203", "#01020304", "#fffefdfc", "#7f80ff00", "#102030", "#ee00ee", "#100000", "#000001",
]
PNG = ["a.png", "sub/dir/b.png", "../up.png", "sp ace.png", "日本.png", "x.y.z.jpg", "./dot.png", "a/../b.png", "noext"]

PROPLISTS = [
    [P("p", "string", "v")],
    [P("a", "int", 3), P("b", "bool", True), P("c", "color", "#80010203")],
    [],
    [P("f", "float", 1.5), P("g", "file", "x/y.png"), P("h", "object", 4), P("i", "bool", False), P("", "string", "")],
    [P("name", "string", "n"), P("type", "string", "t"), P("id", "int", 99), P("x", "float", -2), P("visible", "bool", False),
     P("width", "int", 5), P("class", "string", "k"), P("properties", "string", "z")],
    [P("p%d" % i, "int", i) for i in range(40)],
]
