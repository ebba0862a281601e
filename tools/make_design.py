"""Write DESIGN.md from tools/design_head.md, tools/design_tail.md, the property list, the notes, the checks and the planted bugs."""
import ast
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(root, p)).read()
notes = json.loads(rd("tools/notes.json"))
cost = json.loads(rd("tools/costs.json"))
out = [rd("tools/design_head.md").rstrip(), "", "## Properties", ""]
for line in rd("properties.jsonl").splitlines():
    p = json.loads(line)
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if i in notes["na"]:
        out += ["Not applicable: " + notes["na"][i], ""]
        continue
    (f,) = glob.glob(os.path.join(root, "checks", i + "_*.py"))
    tree = ast.parse(open(f).read())
    out += [f"*Check* `checks/{os.path.basename(f)}`: " + " ".join(ast.get_docstring(tree).split()), ""]
    out += ["*Bounds and scope*: " + notes["claims"][i]["note"].strip().rstrip(".") + ".", ""]
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "ASSUMPTIONS":
            a = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            out += ["*Trusted*: " + "; ".join(a) + ".", ""]
    seeds = sorted(os.path.basename(os.path.dirname(m)) for m in glob.glob(os.path.join(root, "seeded", "*", "meta.json")) if json.load(open(m))["property"] == i)
    out += [f"*Quick run*: about {cost[i]} s on 8 cores. *Planted bugs caught*: {', '.join(seeds) or 'see below'}.", ""]
out += [rd("tools/design_tail.md").rstrip(), "", "## Planted bugs", "", "Each was made from the property's text, passes the stable tests, and is reported by the check of its property.", "", "| bug | property | needs | effect |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    out.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
