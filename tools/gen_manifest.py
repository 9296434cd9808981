#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vlib import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
NOTE = json.load(open(V + "/tools/level_notes.json"))
m = dict(version=1, setup_cmd="sh tools/setup.sh",
         checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                      technique=props.PROPS[i][2], level=props.PROPS[i][1], level_note=NOTE[i]) for i in ids if i in props.PROPS],
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in props.PROPS],
         notes="No hooks in /repo: seams are link-time (--wrap, symbol interposition) and compile-time instrumentation of an unchanged source copy. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), len(m["not_applicable"]))
