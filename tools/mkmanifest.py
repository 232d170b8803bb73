"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from mbt import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(
            property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
            technique="TLA+ specification checked with TLC; executions of the real code are judged against it "
                      "(model-based testing and trace validation)",
            level="model_checking", level_note=P["note"]))
na = [dict(property=i, reason=props.NOT_CLAIMED.get(i, "not built yet")) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="Language: TLA+ with TLC. No hooks in /repo: every observation uses the public interface."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
