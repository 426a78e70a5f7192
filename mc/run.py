import argparse
import importlib
import json
import os
import pkgutil
import sys

from . import core


def module(pid):
    import mc.props as props
    for m in pkgutil.iter_modules(props.__path__):
        if m.name.lower().startswith(pid.lower() + "_"):
            return importlib.import_module(f"mc.props.{m.name}")
    raise SystemExit(f"no check for {pid}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        mod = module(rp["property"])
        core._MOD = mod
        rec = core.Rec(rp["unit"])
        mod.run(rp["unit"], rec)
        hits = [f for f in rec.fails if f[0] == rp["case"]] or rec.fails
        for key, msg, _ in hits[:5]:
            print("REPRODUCED", key, "\n   ", msg)
        if not hits:
            print("not reproduced")
        return 1 if hits else 0
    try:
        mod = module(a.pid)
    except SystemExit:
        raise
    except Exception as e:                           # noqa: BLE001
        # the code under test cannot even be loaded
        import traceback
        traceback.print_exc()
        path = core.write_replay(a.pid, 0, "load", repr(e), None)
        if _in_repo(e):
            print(f"VIOLATION property={a.pid} replay={path}")
            return 1
        return 2
    r = core.drive(mod, tier, seed)
    return core.report(mod, tier, seed, r)


def _in_repo(e):
    import traceback
    from .repo import REPO
    return any(f.filename.startswith(REPO)
               for f in traceback.extract_tb(e.__traceback__))


if __name__ == "__main__":
    sys.exit(main())
