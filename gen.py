#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the META of every check and na.json."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H + "/sa", H + "/checks"]
props, checks = [], []
for f in sorted(os.listdir(H + "/checks")):
    if not (f[0].isupper() and f.endswith(".py")):
        continue
    pid = f[:-3]
    m = importlib.import_module(pid).META
    props.append({"id": pid, "title": m["title"], "statement": m["statement"], "quantifier": {"over": m["over"], "text": m["forall"]}, "why_tests_cant": m["why"], "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]]}})
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough", "technique": m["technique"], "level": "other", "level_note": m["note"]})
na = []
for x in json.load(open(H + "/na.json")):
    r = x.pop("reason")
    props.append(x)
    na.append({"property": x["id"], "reason": r})
props.sort(key=lambda x: x["id"])
for x in props:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, (x["id"], "sentences")
with open(H + "/properties.jsonl", "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

import re
def block(doc, name, text):
    return re.sub(rf"(<!-- generated: {name} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + text + m.group(2), doc, flags=re.S)
doc = open(H + "/DESIGN.md").read()
out = ""
for f in sorted(os.listdir(H + "/checks")):
    if not (f[0].isupper() and f.endswith(".py")):
        continue
    m = importlib.import_module(f[:-3]).META
    rules = re.findall(r'ctx\.rule\("(.*?)"\)', open(H + "/checks/" + f).read())
    out += f"### {f[:-3]} – {m['title']}\n\n{m['statement']}\n\n* **Technique:** {m['technique']}.\n* **Decided:** " + "; ".join(r.strip() for r in rules) + f".\n* **Oracle and bounds:** the statement above, written into the check as tables and languages; quantified over {m['forall']}. {m['note']}\n* **Beyond the tests:** {m['why']}.\n* **Anchors:** " + ", ".join(f"`{a}` ({b})" for a, b in m["mech"]) + ".\n\n"
doc = block(doc, "properties", "## Properties\n\n" + out)
doc = block(doc, "findings", "".join(f"* {x['line']}\n" for x in json.load(open(H + "/known_findings.json"))["findings"]))
t = "| planted bug | check that reports it | needs |\n|---|---|---|\n"
for d in sorted(os.listdir(H + "/seeded")) if os.path.isdir(H + "/seeded") else []:
    x = json.load(open(f"{H}/seeded/{d}/meta.json"))
    t += f"| {d} | {x['property']} | {x['needs']} |\n"
doc = block(doc, "seeds", t)
doc = block(doc, "na", "".join(f"* {x['property']}: {x['reason']}\n" for x in na) or "Nothing listed is left undecided.\n")
open(H + "/DESIGN.md", "w").write(doc)
