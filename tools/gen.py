"""Write properties.jsonl and MANIFEST.json from tools/meta.py."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import meta                                              # noqa: E402

have = {re.match(r"(c\d+)_", os.path.basename(f)).group(1).upper()
        for f in glob.glob(os.path.join(HERE, "mc/props/c[0-9]*_*.py"))}
na = dict(getattr(meta, "NOT_APPLICABLE", {}))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in meta.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items()
                            if not k.startswith("_")}) + "\n")
checks = []
for p in meta.P:
    i = p["id"]
    if i in na:
        continue
    if i not in have:
        na[i] = "machinery not built yet"
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "technique": "model checking: " + p["_technique"],
        "level": "model_checking",
        "level_note": "Exhaustive within stated bounds: " + p["_note"]
                      + ". Trusts the Python interpreter, numpy/scipy and "
                        "the reference model in mc/.",
    })
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
       "not_applicable": [{"property": k, "reason": v}
                          for k, v in sorted(na.items())]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "not built:", sorted(
    k for k in na if na[k] == "machinery not built yet"))
