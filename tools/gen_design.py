#!/usr/bin/env python3
"""Write DESIGN.md: tools/design_head.md + one section per property (from
properties.jsonl, the check modules and HOW below) + tools/design_tail.md + the table
of planted bugs (from seeded/*/meta.json and tools/seed_notes.py)."""
import ast, glob, json, os, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(f"{ROOT}/tools/design_how.py").read(), ns)
HOW, SEEDS = ns["HOW"], ns["SEEDS"]
wrap = lambda s, ind="": textwrap.fill(s, 96, initial_indent=ind, subsequent_indent=" " * len(ind), break_long_words=False)
out = [open(f"{ROOT}/tools/design_head.md").read().rstrip(), ""]
for line in open(f"{ROOT}/properties.jsonl"):
    p = json.loads(line); i = p["id"]
    m = ast.parse(open(f"{ROOT}/checks/{i.lower()}.py").read())
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in m.body
         if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
         and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS")}
    hs = [n.name for n in m.body if isinstance(n, ast.FunctionDef)
          and any(isinstance(c, ast.Call) and getattr(c.func, "id", "") == "harness" for c in n.decorator_list)]
    out += [f"### {i}: {p['title']}", "", wrap("Decided by: " + HOW[i], "- "),
            wrap("Harnesses: " + ", ".join(hs), "- "),
            wrap("Bounds (quick): " + d["BOUNDS"]["quick"], "- "),
            wrap("Bounds (thorough): " + d["BOUNDS"].get("thorough", "as quick"), "- "),
            wrap("Outside: " + "; ".join(d["ASSUMPTIONS"]), "- "),
            wrap("Beyond tests: " + p["why_tests_cant"], "- "), ""]
out += [open(f"{ROOT}/tools/design_tail.md").read().rstrip(), "",
        "## Planted bugs", "",
        "`seeded/<id>` | caught by | what it breaks; what it needs", "---|---|---"]
for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(f)); s = os.path.basename(os.path.dirname(f))
    out.append(f"{s} | {SEEDS.get(s, m['property'])} | {m['what_it_breaks']}; {m['needs']}")
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")
