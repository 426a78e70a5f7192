"""Write DESIGN.md."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import meta                                                    # noqa: E402
from design_notes import NOTES                                 # noqa: E402

mods = {}
for f in glob.glob(os.path.join(HERE, "mc", "props", "c[0-9]*.py")):
    m = importlib.import_module("mc.props." + os.path.basename(f)[:-3])
    mods[m.ID] = m
seeds = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    with open(f) as g:
        d = json.load(g)
    d["id"] = os.path.basename(os.path.dirname(f))
    seeds.setdefault(d["property"], []).append(d)
with open(os.path.join(HERE, "known_findings.json")) as f:
    kf = json.load(f)
out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]


def short(v, n=600):
    s = json.dumps(v, default=repr)
    return s if len(s) <= n else s[:n] + " ..."


for p in meta.P:
    i = p["id"]
    m = mods.get(i)
    out.append(f"\n### {i} {p['title']}\n\n{p['statement']}\n")
    if m is None:
        out.append("\nNot claimed.\n")
        continue
    out.append(f"\n*Enumerated and decided.* {m.EXPLANATION}\n")
    n = NOTES.get(i, {})
    if n.get("oracle"):
        out.append(f"\n*Oracle.* {n['oracle']}\n")
    out.append("\n*Bounds (quick).*\n\n")
    for k, v in m.BOUNDS("quick").items():
        out.append(f"- {k}: `{short(v)}`\n")
    q, t = m.BOUNDS("quick"), m.BOUNDS("thorough")
    for k, v in t.items():
        if short(v, 10**9) != short(q.get(k), 10**9):
            out.append(f"- thorough, {k}: `{short(v)}`\n")
    out.append("\n*Assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    out.append(f"\n*Why tests cannot settle it.* {p['why_tests_cant']}\n")
    if n.get("cost"):
        out.append(f"\n*Cost.* {n['cost']}\n")
    if seeds.get(i):
        out.append("\n*Planted bugs.* " + " ".join(
            f"`{s['id']}`: {s['what_it_breaks'].rstrip('.')} (needs: "
            f"{s['needs'].rstrip('.')})." for s in seeds[i]) + "\n")
out.append("\n" + open(os.path.join(HERE, "tools",
                                    "design_tail.md")).read())
out.append("\n### Repaired defects\n\n")
for x in kf["fixed"]:
    _, prop, commit, what = x.split(" ", 3)
    out.append(f"- {prop.split('=')[1]} `{commit}` {what}\n")
out.append("\n### Recorded findings\n\n")
for x in kf["findings"]:
    out.append(f"- {x['property']}: {x['what']} (case `{x['key']}`)\n")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("".join(out))
