"""Writes properties.jsonl and MANIFEST.json from tools/props.py; `gen.py check` validates them."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402


def main():
  built = [p for p in PROPS if os.path.exists(os.path.join(V, "mc", p["id"].lower() + ".py"))]
  with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
      rec = {k: p[k] for k in ("id", "title", "statement")}
      assert len(p["title"]) <= 80, p["title"]
      rec["quantifier"] = dict(over=p["over"], text=p["all"])
      rec["why_tests_cant"] = p["why"]
      rec["anchors"] = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
      f.write(json.dumps(rec) + "\n")
  man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sympy'", checks=[], not_applicable=[], notes=NOTES)
  for p in built:
    man["checks"].append(dict(
        property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
        technique=p["tech"], level="model_checking", level_note=p["note"]))
  for p in PROPS:
    if p not in built:
      man["not_applicable"].append(dict(property=p["id"], reason="no check has been built for it yet"))
  man["not_applicable"] += NOT_APPLICABLE
  with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


main()
