"""Writes DESIGN.md: hand-written head and tail around sections generated from the monitors and seeded/."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
rd = lambda f: open(os.path.join(HERE, f)).read()
man = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
caught = json.loads(rd('tools/caught.json')) if os.path.exists(os.path.join(HERE, 'tools/caught.json')) else {}
out = [rd("tools/design_head.md")]
for line in rd("properties.jsonl").splitlines():
    p = json.loads(line)
    m = importlib.import_module("props." + p["id"].lower())
    c = man[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n\n"
               f"*Specified:* see properties.jsonl. *Quantified over:* {p['quantifier']['text']}.\n"
               f"*Method and oracle:* {c['technique']}.\n"
               f"*Workload:* {' '.join(m.RULE.split())}.\n"
               f"*Monitors that must fire:* {', '.join(m.CLAUSES)}.\n"
               f"*Why beyond the tests:* {p['why_tests_cant']} *Strength and bounds:* {c['level_note']}\n")
out.append(rd("tools/design_tail.md"))
out.append("## Planted bugs and what catches them\n\n"
           "Each was written from a property's text and the code, passes the stable tests, and has a demonstration. "
           "\"Caught by\" lists quick checks (seed 1) that report it, its own property first.\n\n"
           "| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    meta = json.load(open(os.path.join(d, "meta.json")))
    b = os.path.basename(d)
    out[-1] += f"| {b} | {meta['property']} | {meta['needs']} | {', '.join(caught.get(b, [meta['property']]))} |\n"
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
