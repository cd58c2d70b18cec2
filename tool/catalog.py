"""Source of properties.jsonl and MANIFEST.json: python3 tool/catalog.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, tests, files, mech, technique=None, level="other", note=None, observe=None, state=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": tests,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    PROPS.append((d, technique, level, note, na))


exec(open(os.path.join(HERE, "tool", "catalog_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, *_ in PROPS:
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m omh.setup", "checks": [], "not_applicable": [],
       "notes": "Every check is static analysis of /repo's current sources: facts are re-extracted with clang whenever a source file changed; nothing of /repo is executed."}
for d, tech, level, note, na in PROPS:
    if na:
        man["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        man["checks"].append({"property": d["id"], "quick_cmd": "python3 -m omh.run %s quick" % d["id"],
                              "thorough_cmd": "python3 -m omh.run %s thorough" % d["id"], "technique": tech, "level": level, "level_note": note})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(man["checks"]), "checks")
