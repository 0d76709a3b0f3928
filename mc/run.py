"""check ID [quick|thorough] | check replay FILE | check all [quick|thorough]"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core


class Unloadable:
  """Stands for a check that cannot even load the code it drives."""
  BOUNDS = {"load": "the code under test could not be loaded"}

  def __init__(self, prop, error, trace):
    self.ID, self.error, self.trace = prop, error, trace

  def chunks(self, tier):
    def report(ctx):
      ctx.fail("the code under test cannot be loaded: %s" % self.error, self.trace)
    return [("load", report, {})]


def load(prop):
  try:
    return importlib.import_module("mc.%s" % prop.lower())
  except Exception as e:
    trace = traceback.format_exc()
    if "/repo/" not in trace:  # the check's own fault
      raise
    return Unloadable(prop.upper(), "%s: %s" % (type(e).__name__, e), trace[-1500:])


def main(argv):
  if argv[0] == "replay":
    rec = json.load(open(argv[1]))
    return core.run_property(load(rec["property"]), rec["tier"], only=rec["chunk"])
  tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
  only = argv[2] if len(argv) > 2 else None
  return core.run_property(load(argv[0]), tier, only)


if __name__ == "__main__":
  sys.exit(main(sys.argv[1:]))
