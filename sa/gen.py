"""regenerate properties.jsonl and MANIFEST.json from props.py"""
import json
import os
from .props import PROPS
try:
    from .props import NA
except ImportError:
    NA = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in list(PROPS.values()) + NA:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]]))) + "\n")
checks = []
for p in PROPS.values():
    checks.append(dict(
        property=p["id"],
        quick_cmd="python3 -m sa.run %s --tier quick" % p["id"],
        thorough_cmd="python3 -m sa.run %s --tier thorough" % p["id"],
        technique="static analysis: " + p["rule"],
        level="other",
        level_note=p["note"] or "sound up to the library models and the exclusions in DESIGN.md for obligations reported as discharged; "
                                "undecided obligations are listed in the evidence and never reported as violations"))
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
                   not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA]), fh, indent=1)
    fh.write("\n")
print(len(checks), "checks")
