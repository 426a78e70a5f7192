"""Loading the code under test, with its one source of nondeterminism closed.

The only environment call the library makes on the explored paths is the
magnetic-field web lookup; it is replaced by a stand-in whose answer the
explorer chooses (default: "no network", which is what the sandbox has).
"""
import os
import sys
import warnings

REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)


class FieldLookup:
    """Stand-in for the magnetic field web service."""

    plan = []          # answers for the next calls; empty -> always fail
    calls = []         # recorded keyword arguments

    def __init__(self, *a, **k):
        pass

    def calculate(self, **kw):
        FieldLookup.calls.append(dict(kw))
        if FieldLookup.plan:
            ans = FieldLookup.plan.pop(0)
            if isinstance(ans, Exception):
                raise ans
            return ans
        raise ConnectionError("no network")


_loaded = None


def load():
    global _loaded
    if _loaded is not None:
        return _loaded
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.WARNING)
    import welleng
    root = os.path.realpath(os.path.dirname(welleng.__file__))
    want = os.path.realpath(os.path.join(REPO, "welleng"))
    if root != want:
        raise SystemExit(f"loaded welleng from {root}, expected {want}")
    import welleng.survey as survey
    survey.MagneticFieldCalculator = FieldLookup
    _loaded = welleng
    return welleng
