"""Confirm a planted bug and store it under /verif/seeded.

usage: plant.py SPEC.py   where SPEC.py defines SEEDS, a list of dicts with
id, property, edits=[(file, old, new), ...], demo (python source), needs, breaks.
Works in a scratch copy of /repo; keeps a seed only when the demonstration
passes on the unchanged tree, fails with the change, and the stable tests pass.
"""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
PY = "/opt/venv/bin/python"
SH = """#!/bin/sh
# run in the repository: exit 0 when the behaviour is right
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                          text=True)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        w = f"/tmp/plant_{os.getpid()}"
        shutil.rmtree(w, ignore_errors=True)
        sh(f"cp -a {REPO} {w}")
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        a = sh(f"sh {d}/demo.sh", w)
        ok = a.returncode == 0
        msg = "" if ok else "demo fails on unchanged: " + a.stderr[-600:]
        if ok:
            for f, old, new in s["edits"]:
                p = os.path.join(w, f)
                t = open(p, newline="").read()
                crlf = "\r\n" in t
                t = t.replace("\r\n", "\n")
                if t.count(old) != 1:
                    ok, msg = False, f"{t.count(old)} matches of {old!r}"
                    break
                t = t.replace(old, new)
                if crlf:
                    t = t.replace("\n", "\r\n")
                open(p, "w", newline="").write(t)
        if ok:
            b = sh(f"sh {d}/demo.sh", w)
            ok = b.returncode != 0
            msg = b.stderr.strip().splitlines()[-1:] or b.stdout[-200:]
            diff = subprocess.run(["git", "diff"], cwd=w,
                                  capture_output=True).stdout
            open(d + "/patch.diff", "wb").write(diff)
        if ok:
            pass
            t = subprocess.run(
                f"cd {w} && PYTHONPATH={w} timeout 800 {PY} -m pytest -q -n {os.environ.get("PLANT_N", 6)} -rf "
                "-p no:cacheprovider tests "
                "2>&1 | tail -25", shell=True,
                capture_output=True, text=True).stdout
            fails = [x for x in t.splitlines() if x.startswith("FAILED")
                     and "test_known_location" not in x]
            if fails:
                ok, msg = False, fails
        json.dump(dict(property=s["property"], needs=s["needs"],
                       what_it_breaks=s["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "OK" if ok else "REJECTED", msg, flush=True)
        if not ok:
            shutil.rmtree(d)
        shutil.rmtree(w)


main(sys.argv[1])
