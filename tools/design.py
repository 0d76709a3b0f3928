"""Writes DESIGN.md: the text below, the bounds stated by each check, and the table of planted bugs."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS  # noqa: E402
from tools.design_text import HEAD, HOW, TAIL  # noqa: E402


def section(p):
  m = importlib.import_module("mc." + p["id"].lower())
  out = ["### %s %s" % (p["id"], p["title"]), "", p["statement"], ""]
  out += ["Deciding: " + HOW[p["id"]].strip().replace("\n", " "), ""]
  out.append("Beyond the tests: " + p["why"])
  out.append("")
  out += ["- bound, %s: %s" % (k, v) for k, v in m.BOUNDS.items()]
  out += ["- assumption: " + a for a in getattr(m, "ASSUMPTIONS", [])]
  if getattr(m, "LEVEL", None):
    out.append("- level: " + m.LEVEL)
  out.append("")
  return out


def seeds():
  root = os.path.join(V, "seeded")
  out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
  caught = json.load(open(os.path.join(V, "tools", "caught.json")))
  for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "not run")))
  return out


text = [HEAD.strip(), "", "## The properties", ""]
for p in PROPS:
  text += section(p)
text += [TAIL.strip(), "", "## Planted bugs", ""] + seeds() + [""]
with open(os.path.join(V, "DESIGN.md"), "w") as f:
  f.write("\n".join(text))
