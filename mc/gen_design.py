"""Fills the generated sections of DESIGN.md (kept in DESIGN.in.md) from the checks' docstrings and DESIGN notes."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = ["## Properties", ""]
for p in props:
    path = os.path.join(ROOT, "mc", p["id"].lower() + ".py")
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("")
    if not os.path.exists(path):
        out += ["No check has been built yet.", ""]
        continue
    tree = ast.parse(open(path).read())
    names = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                names[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                if isinstance(node.value, ast.Dict):
                    names[node.targets[0].id] = [k.value for k in node.value.keys if isinstance(k, ast.Constant)]
    out.append("* Explored: %s." % names["RULE"])
    out.append("* Suites: %s." % ", ".join("`%s`" % s for s in names["SUITES"]))
    if names.get("DESIGN"):
        out.append("* How: %s" % names["DESIGN"])
    if names.get("ASSUMPTIONS"):
        out.append("* Assumptions: %s." % "; ".join(names["ASSUMPTIONS"]))
    out.append("* Beyond the tests: %s" % p["why_tests_cant"])
    costs = os.path.join(ROOT, "mc", "costs.json")
    if os.path.exists(costs):
        c = json.load(open(costs)).get(p["id"])
        if c:
            out.append("* Size: %s" % c)
    out.append("")
plants = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
d = os.path.join(ROOT, "seeded")
caught = {}
path = os.path.join(ROOT, "mc", "caught.json")
if os.path.exists(path):
    caught = json.load(open(path))
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, "meta.json")))
    plants.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, "?")))
text = open(os.path.join(ROOT, "mc", "DESIGN.in.md")).read()
text = text.replace("@PROPERTIES@", "\n".join(out).rstrip()).replace("@PLANTS@", "\n".join(plants))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(text)
