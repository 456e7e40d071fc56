"""Writes properties.jsonl and MANIFEST.json from props_table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props_table import PROPS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
for p in PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    s = p["statement"]
try:
    from manifest_table import manifest
except ImportError:
    sys.exit(0)
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest(PROPS), f, indent=1)
    f.write("\n")
