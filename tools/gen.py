import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props_meta as M
ROOT = os.path.dirname(HERE)
na = {d["property"] for d in M.NOT_APPLICABLE}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in M.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
man = dict(version=1, setup_cmd="python3 -c \"import sys; assert sys.version_info >= (3, 9)\"",
           checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                        thorough_cmd="python3 check.py %s thorough" % p["id"],
                        technique="static analysis: abstract interpretation with trace partitioning and value-numbering normal forms" + p.get("tech", ""),
                        level="other", level_note=p["note"]) for p in M.P if p["id"] not in na],
           not_applicable=M.NOT_APPLICABLE)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
