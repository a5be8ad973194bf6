"""Writes /verif/DESIGN.md: tools/design_head.md, a section per property (from the harness files), tools/design_tail.md."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constant(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == name:
            return ast.literal_eval(n.value)


def cases(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and any(getattr(getattr(d, "func", None), "id", "") == "case" for d in n.decorator_list):
            yield n.name, (ast.get_docstring(n) or "").split("\n")[0]


out = [open(os.path.join(ROOT, "tools/design_head.md")).read()]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    tree = ast.parse(open(os.path.join(ROOT, "harness", p["id"].lower() + ".py")).read())
    b = constant(tree, "BOUNDS")
    out.append(f"### {p['id']} {p['title']}\n\n")
    out.append("Decided by the cases " + "; ".join(f"`{n}` ({d})" for n, d in cases(tree)) + ".\n\n")
    out.append(f"*Bounds*: {b['quick']}." + (f"  *Thorough*: {b['thorough']}." if "thorough" in b else "") + "\n\n")
    out.append(f"*Outside*: {constant(tree, 'OUTSIDE')}.\n\n")
    a = constant(tree, "ASSUMPTIONS")
    if a:
        out.append(f"*Assumed*: {'; '.join(a)}.\n\n")
tail = open(os.path.join(ROOT, "tools/design_tail.md")).read()
seeds = ["| Bug (caught by the check of the property it is named after) | What it breaks | What it needs |\n|---|---|---|\n"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    assert d.startswith(m["property"])
    seeds.append(f"| `{d}` | {m['what_it_breaks']} | {m['needs']} |\n".replace("\n", " ").strip() + "\n")
found = json.load(open(os.path.join(ROOT, "known_findings.json")))
tail = tail.replace("@SEEDS@", "".join(seeds)).replace("@FINDINGS@", str(len(found if isinstance(found, list) else next(v for v in found.values() if isinstance(v, list)))))
out.append(tail)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))
