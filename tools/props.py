"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, category="functional"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
                  _t=technique, _n=note))


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, "harness", p["id"].lower() + ".py")):
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"],
                           thorough_cmd="./check.sh %s thorough" % p["id"],
                           technique=p["_t"], level="model_checking", level_note=p["_n"]))
    else:
        na.append(dict(property=p["id"], reason="machinery not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "claimed")
