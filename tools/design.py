#!/usr/bin/env python3
"""Rewrite the generated parts of DESIGN.md: the defects and the planted bugs."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = "arf-equal-signed-zero-hash constrained-exponents element-order-gives-up floor-gives-up print-close-generators product-key-stale real-cache-full real-order-gives-up".split()
fixes = "\n".join("* " + f["what"].replace("fixed: property=", "") for f in json.load(open(V + "/known-findings.json"))["findings"] if f["status"] == "fixed")
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    name = os.path.basename(os.path.dirname(m))
    star = "*" if d.get("missed_at_first") or name in MISSED else ""
    rows.append(f"| {name}{star} | {d['property']} | {d['needs']} |")
table = f"{len(rows)} changes.\n\n| change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows)
s = open(V + "/DESIGN.md").read()
for tag, text in (("fixes", fixes), ("table", table)):
    s = re.sub(f"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: f"<!-- {tag} -->\n{text}\n<!-- /{tag} -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
