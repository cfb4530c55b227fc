#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the data in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOTES

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "hook_needed": None,
            },
        }
        for a in p["files"]:
            assert os.path.exists(os.path.join("/repo", a)), (p["id"], a)
        assert len(d["title"]) <= 80, d["title"]
        assert d["statement"].count(". ") <= 2, (p["id"], d["statement"])
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

man = {"version": 1,
       "setup_cmd": "bash ./setup.sh",
       "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    if "na" in p:
        man["not_applicable"].append({"property": p["id"], "reason": " ".join(p["na"].split())})
        continue
    cmd = "bash ./check.sh " + p["id"]
    man["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd,
                          "technique": p["technique"], "level": "other",
                          "level_note": " ".join(p["note"].split())})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")

import glob, re
rows = ""
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(f))
    rows += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), d["property"], d["property"], d["needs"])
design = os.path.join(root, "DESIGN.md")
s = open(design).read()
s = re.sub(r"(<!-- seeds: tools/gen.py -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + rows + m.group(2), s, flags=re.S)
open(design, "w").write(s)
