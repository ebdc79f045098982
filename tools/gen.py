#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert p["id"] not in ids and len(p["title"]) <= 80, p["id"]
        ids.add(p["id"])
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        })
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": na,
    "notes": props.NOTES,
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(root, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)
except ImportError:
    pass
print(len(checks), "claimed;", len(na), "not claimed")

# The table of planted bugs in DESIGN.md.
import glob, re
rows = []
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    meta = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    cell = lambda t: t.replace("|", "/").strip()
    rows.append(f"| {name} | {meta['property']} | {cell(meta['needs'])} | {meta.get('caught_by', meta['property'] + ' quick')} |")
if rows:
    path = os.path.join(root, "DESIGN.md")
    text = open(path).read()
    table = "| seed | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
    text = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + table + "<!-- /seeds -->", text, flags=re.S)
    open(path, "w").write(text)
