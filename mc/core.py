"""Shared machinery: exhaustive exploration driver, recording and reporting.

A check module supplies
    ID       property id
    units(tier)          -> list of JSON-able work units (the top-level branches
                            of the exploration; together they are the whole
                            bounded space, in simplest-first order)
    run(unit, rec)       -> explores every behaviour below that branch and
                            compares each with the oracle
    BOUNDS(tier)         -> text: alphabet and bound
    ASSUMPTIONS          -> list of text
Nothing is sampled: VERIF_SEED only permutes the order in which units run.
"""
import contextlib
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNIT_LIMIT_S = 400          # one unit normally takes seconds
RUN_LIMIT_S = 780           # remaining units are reported as not covered
STOP_S = 840                # units still running then are cut off likewise
_T0 = time.time()


class UnitTimeout(BaseException):
    pass


class Skip(Exception):
    """The case is outside the property's domain."""


def fp(obj):
    """64-bit fingerprint of a canonical (JSON-able / repr-able) value."""
    if not isinstance(obj, (str, bytes)):
        obj = json.dumps(obj, sort_keys=True, default=repr)
    if isinstance(obj, str):
        obj = obj.encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


def compact(obj):
    return json.dumps(obj, sort_keys=True, default=repr,
                      separators=(",", ":"))


class Rec:
    """What one unit covered and what it found."""

    MAX_FAILS = 200

    def __init__(self, unit=None):
        self.unit = unit
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = Counter()
        self.samples = []
        self.fails = []
        self.nfails = 0

    # -- coverage ---------------------------------------------------------
    def state(self, key):
        """Record a visited state; True if it is new in this unit."""
        h = key if isinstance(key, int) else fp(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def ev(self, n=1):
        self.evaluations += n

    def outcome(self, label, n=1):
        self.outcomes[label] += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- verdicts ---------------------------------------------------------
    def fail(self, case, msg):
        self.nfails += 1
        if len(self.fails) < self.MAX_FAILS:
            key = case if isinstance(case, str) else compact(case)
            self.fails.append((key, str(msg)[:1500], self.unit))

    def check(self, ok, case, msg):
        self.evaluations += 1
        if not ok:
            self.fail(case, msg() if callable(msg) else msg)
        return ok

    def close(self, got, want, case, what, rtol=1e-9, atol=1e-9):
        """Compare numbers / nested sequences element by element."""
        self.evaluations += 1
        bad = _differ(got, want, rtol, atol)
        if bad is not None:
            self.fail(case, f"{what}: {bad}")
            return False
        return True

    @contextlib.contextmanager
    def case(self, case):
        """Any exception escaping the code under test inside the property's
        domain is a violation (the code gave no answer)."""
        try:
            yield
        except Skip:
            self.outcome("skipped: outside domain")
        except Exception as e:                       # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(
                f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
            self.fail(case, f"raised {type(e).__name__}: {e} [{where}]")


def _differ(got, want, rtol, atol, path=""):
    import numpy as np
    try:
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
    except Exception as e:                           # noqa: BLE001
        return f"not numeric: got {got!r} want {want!r} ({e})"
    if g.shape != w.shape:
        return f"shape {g.shape}, expected {w.shape}"
    with np.errstate(all="ignore"):
        ok = np.abs(g - w) <= atol + rtol * np.abs(w)
        ok |= (np.isnan(g) & np.isnan(w)) | (g == w)
    if ok.all():
        return None
    i = tuple(int(k) for k in np.argwhere(~ok)[0])
    gi, wi = (g[i], w[i]) if i else (float(g), float(w))
    return (f"index {list(i)}: got {gi!r}, expected {wi!r} "
            f"({int((~ok).sum())} of {ok.size} values differ)")


# ---------------------------------------------------------------------------
# running units in worker processes

_MOD = None


def _alarm(signum, frame):
    raise UnitTimeout()


def _run_unit(unit):
    rec = Rec(unit)
    t = time.time()
    left = int(STOP_S - (t - _T0))
    if left < 2:
        return None
    cut = left < UNIT_LIMIT_S
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(left if cut else UNIT_LIMIT_S)
    try:
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), \
                contextlib.redirect_stderr(dn):
            _MOD.run(unit, rec)
    except UnitTimeout:
        if cut and not rec.nfails:
            return None
        rec.fail({"unit": unit}, f"no termination within {UNIT_LIMIT_S} s")
    except Exception as e:                           # noqa: BLE001
        rec.fail({"unit": unit},
                 f"raised {type(e).__name__}: {e}\n"
                 + traceback.format_exc()[-1200:])
    finally:
        signal.alarm(0)
    return {
        "unit": unit, "states": rec.states, "transitions": rec.transitions,
        "traces": rec.traces, "evaluations": rec.evaluations,
        "outcomes": rec.outcomes, "samples": rec.samples,
        "fails": rec.fails, "nfails": rec.nfails, "t": time.time() - t,
    }


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e["what"] for e in data.get("findings", [])
            if e["property"] == pid}


def write_replay(pid, n, key, msg, unit):
    d = os.path.join(HERE, "replays", pid)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{n:03d}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "case": key, "message": msg,
                   "unit": unit,
                   "how": f"./run.sh replay {os.path.relpath(path, HERE)}"},
                  f, indent=1, default=repr)
    return os.path.relpath(path, HERE)


def drive(mod, tier, seed):
    global _MOD, _T0
    _MOD = mod
    t0 = _T0 = time.time()
    units = list(mod.units(tier))
    order = list(range(len(units)))
    random.Random(seed).shuffle(order)
    workers = max(1, min(int(os.environ.get("MC_WORKERS", "8")),
                         os.cpu_count() or 1, len(units) or 1))
    states = set()
    agg = Counter()
    outcomes = Counter()
    samples, fails, done = [], [], 0
    slow = []
    skipped = []
    ctx = multiprocessing.get_context("fork")
    res_by_unit = {}
    with ProcessPoolExecutor(workers, mp_context=ctx) as ex:
        pending = {}
        it = iter(order)
        exhausted = False
        while True:
            while not exhausted and len(pending) < workers * 2:
                i = next(it, None)
                if i is None:
                    exhausted = True
                    break
                if time.time() - t0 > RUN_LIMIT_S:
                    skipped.append(i)
                    continue
                pending[ex.submit(_run_unit, units[i])] = i
            if not pending:
                break
            for fut in as_completed(list(pending)):
                i = pending.pop(fut)
                r = fut.result()
                if r is None:
                    skipped.append(i)
                    break
                states |= r["states"]
                for k in ("transitions", "traces", "evaluations", "nfails"):
                    agg[k] += r[k]
                outcomes.update(r["outcomes"])
                res_by_unit[i] = (r["samples"], r["fails"])
                slow.append((round(r["t"], 2), i))
                done += 1
                break
    for i in sorted(res_by_unit):
        s, f = res_by_unit[i]
        if len(samples) < 6:
            samples.extend(s)
        fails.extend(f)
    return {
        "states": len(states), "agg": agg, "outcomes": outcomes,
        "samples": samples, "fails": fails, "units": len(units),
        "done": done, "skipped": len(skipped), "wall": time.time() - t0,
        "slow": sorted(slow, reverse=True)[:3], "workers": workers,
    }


def report(mod, tier, seed, r):
    pid = mod.ID
    known = known_findings(pid)
    hit, new, seen = {}, [], set()
    for key, msg, unit in r["fails"]:
        if key in known:
            hit.setdefault(key, msg)
        elif key not in seen:
            seen.add(key)
            new.append((key, msg, unit))
    for key in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {known[key]}")
    for n, (key, msg, unit) in enumerate(new[:6]):
        path = write_replay(pid, n, key, msg, unit)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   case {key[:400]}")
        print(f"   {msg[:600]}")
    cov = {
        "states": r["states"],
        "transitions": r["agg"]["transitions"],
        "traces_validated_against_impl": r["agg"]["traces"],
        "oracle_comparisons": r["agg"]["evaluations"],
        "distinct_outcomes": len(r["outcomes"]),
        "outcomes": dict(r["outcomes"].most_common(40)),
        "exploration_branches": r["units"],
        "branches_completed": r["done"],
        "exhaustive": r["skipped"] == 0,
        "bounds": mod.BOUNDS(tier),
        "explanation": mod.EXPLANATION,
        "samples": [_trim(s) for s in r["samples"][:6]],
        "known_findings_seen": len(hit),
    }
    if r["skipped"]:
        cov["cap"] = (f"{r['skipped']} of {r['units']} branches not run "
                      f"({RUN_LIMIT_S} s limit)")
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "model_checking", "coverage": cov,
        "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(r["wall"], 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))
    print(f"{pid} {tier}: {len(new)} violations, states={cov['states']} "
          f"transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} "
          f"comparisons={cov['oracle_comparisons']} "
          f"branches={r['done']}/{r['units']} wall={r['wall']:.1f}s "
          f"workers={r['workers']} slowest={r['slow']}")
    if not new and r["done"] == 0:
        return 2
    return 1 if new else 0


def _trim(s):
    t = json.dumps(s, default=repr)
    return s if len(t) < 3000 else t[:3000]


# ---------------------------------------------------------------------------
# generic explicit-state search over operation sequences

def bfs(init, menu, apply, canon, depth, rec, on_state=None):
    """Breadth-first search of the real transition function.

    A state is the operation history that reaches it; every history is
    replayed on a fresh object (`init()`), so no live object is shared
    between branches.  `apply(obj, op, hist)` performs one operation on the
    real object and checks it; `canon(obj)` is the canonical form used for
    deduplication.
    """
    root = init()
    seen = {canon(root)}
    rec.state(("s", repr(canon(root)))[1])
    frontier = [()]
    for d in range(depth):
        nxt = []
        for hist in frontier:
            for op in menu(hist):
                obj = init()
                for h in hist:
                    apply(obj, h, None)
                apply(obj, op, hist)
                rec.trans()
                rec.trace()
                k = canon(obj)
                rec.state(repr(k))
                if k not in seen:
                    seen.add(k)
                    nxt.append(hist + (op,))
        frontier = nxt
        if not frontier:
            break
    return seen
