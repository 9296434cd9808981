#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = {"P24-empty-class": "", "P15-matrix-cache": "", "P18-m4-rows-cancel": "", "P18-m4-z-order": ""}
print("| planted bug | needs | caught by |\n|---|---|---|")
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    print("| %s | %s | %s |" % (b, m["needs"], ", ".join([m["property"]] + [x for x in [also.get(b)] if x])))
