"""C17: well plan files read back to the plan that was written."""
import importlib
import math
import os
import shutil
import tempfile

import numpy as np

from .. import ref, repo
from ..common import header, survey, product, D

ID = "C17"
EXPLANATION = (
    "Every plan of the bounded tree (sequence of hold and turn sections x "
    "units x header options x targets) is exported, loaded and exported "
    "again; every field of every loaded well, step and target is compared "
    "with the plan to the written precision and the second file with the "
    "first.  Hand-written files are loaded with a comment or blank line "
    "inserted at every position, with every kind of step and with every "
    "blank field, and compared with the values they were written from.  "
    "Every sequence of files and plan constructions up to the depth is "
    "replayed to show that they do not influence each other.  Loaded plans "
    "are turned into surveys that are compared with the minimum-curvature "
    "path through the control points of the file.  State = (file content or "
    "history), transition = one export, load or conversion.")
ASSUMPTIONS = [
    "names fit their columns; target names have no white space or colon",
    "all plans of a file are in the same units; targets are those of the "
    "file's first plan",
    "surveys are built from plans in map coordinates of the northern "
    "hemisphere with equal units for depth and surface distance",
    "sections turn by at most 75 degrees and neighbouring sections are not "
    "of the same kind and plane",
]

ACTS = [("hold",), ("turn", 1.5, 0.0), ("turn", 2.0, 90.0),
        ("turn", 1.0, -135.0), ("turn", 2.5, 20.0)]
START = [(0.0, 0.0), (20.0, 350.0), (60.0, 181.0)]
UNITS = [("meters", "meters"), ("feet", "feet"), ("meters", "feet"),
         ("feet", "meters")]                     # depth, surface
LOCS = ("unknown", "surface", "ow_sidetrack", "wp_sidetrack", "look_ahead",
        "ow_well", "complex_extension", "site", "site_based_plan",
        "compass_well")
METHODS = ("curve_only", "curve_hold", "opt_align", "something_special")
COLOURS = (None, 0, 7, 15, 123)
STATS = ("survey", "turn", "blank", "geometry", "targets", "extended")


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return {"plans": f"all sequences of {n} sections from {len(ACTS)} kinds "
                     f"x {len(START)} starts", "units": UNITS,
            "location types": LOCS, "plan methods": METHODS,
            "wells per file": "1-3", "histories": "all of 3 operations",
            "inserted lines": "every position of the hand-written files"}


def units(tier):
    n = 3 if tier == "quick" else 4
    u = [["plan", a, i, n] for a in range(len(START))
         for i in range(len(ACTS))]
    u += [["header", k] for k in range(len(LOCS))]
    u += [["many", k] for k in range(3)]
    u += [["insert", k] for k in range(4)]
    u += [["history", k] for k in range(5)]
    u += [["parent", 0]]
    u += [["survey", a, i, n] for a in range(len(START))
          for i in range(len(ACTS))]
    return u


def wbp():
    repo.load()
    return importlib.import_module("welleng.exchange.wbp")


def run(unit, rec):
    d = tempfile.mkdtemp(prefix="c17-")
    try:
        {"plan": plans, "header": headers, "many": many, "insert": insert,
         "history": history, "parent": parent,
         "survey": to_survey}[unit[0]](unit, rec, d)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ the plans
def stations(start, acts, unit, step=None):
    """Control points (md, inc, azi) and stations of a plan."""
    f = 1.0 if unit == "meters" else 3.0
    per = 30.0 if unit == "meters" else 100.0
    i, a = start
    md = 0.0
    ctrl = [(md, i, a)]
    st = [(md, i, a)]
    for k, act in enumerate(acts):
        length = (300.0, 240.0, 420.0, 180.0)[k % 4] * f
        if act[0] == "hold":
            md += length
            st.append((md, i, a))
        else:
            v, hs = ref.vec(D(i), D(a)), act[2]
            n = 6
            turn = D(act[1]) / per * length
            for j in range(1, n + 1):
                x, y = arc(i, a, hs, turn * j / n)
                st.append((md + length * j / n, x, y))
            i, a = x, y
            md += length
        ctrl.append((md, i, a))
    return ctrl, st


def arc(i, a, tf, ang):
    """Direction after turning by ang at toolface tf (degrees)."""
    R = np.array(ref.rot_hla(D(i), D(a)))       # rows: high, lateral, along
    t = D(tf)
    u = math.cos(t) * R[0] + math.sin(t) * R[1]
    v = math.cos(ang) * R[2] + math.sin(ang) * u
    inc = math.degrees(math.atan2(math.hypot(v[0], v[1]), v[2]))
    azi = math.degrees(math.atan2(v[1], v[0])) % 360
    return inc, azi


def make_survey(start, acts, unit="meters", nev=(6000000.0, 500000.0, -20.0)):
    ctrl, st = stations(start, acts, unit)
    h = header(depth_unit=unit, surface_unit=unit)
    return ctrl, survey(st, h, start_nev=list(nev), unit=unit)


def ok_path(start, acts):
    """Two holds or two arcs of one plane in a row are one section."""
    ctrl, _ = stations(start, acts, "meters")
    v = [np.array(ref.vec(D(i), D(a))) for _, i, a in ctrl]
    n = []
    for x, y in zip(v, v[1:]):
        c = np.cross(x, y)
        n.append(c / np.linalg.norm(c) if np.linalg.norm(c) > 1e-6 else None)
    for x, y in zip(n, n[1:]):
        if (x is None) == (y is None) and (x is None or x @ y > 0.97):
            return False
    return True


# ------------------------------------------------------------------- compare
STEP = dict(md=0.005, azi=0.0005, inc=0.0005, build_rate=0.0005,
            turn_rate=0.0005, dls=0.0005)


def same_steps(rec, key, got, want, loaded_from_survey=True):
    if not rec.check(len(got) == len(want), key,
                     f"{len(got)} steps, expected {len(want)}"):
        return
    for k, (g, w) in enumerate(zip(got, want)):
        q = dict(key, step=k)
        rec.check(type(g).__name__ == type(w).__name__, q,
                  f"{type(g).__name__}, expected {type(w).__name__}")
        for a, tol in STEP.items():
            if hasattr(w, a):
                d = abs(getattr(g, a) - getattr(w, a))
                if a == "azi":
                    d = min(d, abs(d - 360))
                rec.check(d <= tol * 1.001 + 1e-9, q,
                          f"{a} {getattr(g, a)}, expected {getattr(w, a)}")
        if hasattr(w, "toolface"):
            rec.check(abs(g.toolface - w.toolface) <= (
                0.00501 if w.toolface < -99 else 0.000501), q,
                f"toolface {g.toolface}, expected {w.toolface}")
            rec.check(bool(g.tie_on) == bool(w.tie_on) == (k == 0), q,
                      f"tie on {g.tie_on}, written {w.tie_on}")
            if k:
                rec.check(g.method == w.method, q,
                          f"method {g.method}, expected {w.method}")
                rec.check(g.target == w.target, q,
                          f"target {g.target}, expected {w.target}")
        for a in ("cov_xx", "cov_xy", "cov_xz", "cov_yy", "cov_yz", "cov_zz"):
            if hasattr(w, a):
                rec.close(getattr(g, a), getattr(w, a), q, a, 0, 0.05001)
        for a in ("x_bias", "y_bias", "z_bias"):
            if hasattr(w, a):
                rec.close(getattr(g, a), getattr(w, a), q, a, 0, 0.005001)
        if hasattr(w, "tool"):
            rec.check(g.tool == w.tool, q, f"tool {g.tool!r}")
        rec.close(g.location, w.location, q, "location", 0, 0.005001)


HEAD = ("plan_name", "parent_name", "location_type", "plan_method",
        "sidetrack_id")


def same_head(rec, key, g, w):
    for a in HEAD:
        x, y = getattr(g, a) or None, getattr(w, a) or None
        rec.check(x == y, key, f"{a} {x!r}, expected {y!r}")
    rec.check(str(g.dirty_flag) == str(w.dirty_flag), key,
              f"dirty flag {g.dirty_flag!r}, expected {w.dirty_flag!r}")
    for a, tol in (("dls", 0.005001), ("extension", 0.00000501)):
        x, y = getattr(g, a), getattr(w, a)
        if x is None or y is None:
            rec.check(x == y, key, f"{a} {x!r}, expected {y!r}")
        else:
            rec.close(x, y, key, a, 0, tol)
    for a in ("depth_unit", "surface_unit"):
        rec.check(getattr(g, a) == getattr(w, a), key,
                  f"{a} {getattr(g, a)}, expected {getattr(w, a)}")


def same_targets(rec, key, got, want):
    if not rec.check(len(got) == len(want), key,
                     f"{len(got)} targets, expected {len(want)}"):
        return
    for k, (g, w) in enumerate(zip(got, want)):
        q = dict(key, target=k)
        rec.check(g.name == w[0], q, f"name {g.name!r}, expected {w[0]!r}")
        rec.close(g.location, w[1], q, "location", 0, 0.005001)
        rec.check(g.geometry["color"]["color"] == w[2], q,
                  f"color {g.geometry['color']['color']}, expected {w[2]}")


def bare(doc):
    return [x for x in doc if not x.startswith("!")]


def cycle(rec, key, W, ps, targets, d, comments=None):
    """Export, load, compare, export again."""
    fn = os.path.join(d, "p.wbp")
    W.export(ps if len(ps) > 1 else ps[0], fn, comments=comments)
    with open(fn) as f:
        first = f.read().splitlines()
    if comments is not None:
        for c in comments:
            rec.check(f"! {c}" in first, key, f"comment {c!r} not in the file")
    doc = W.export(ps, comments=comments)
    rec.check(bare(doc) == bare(first), key, "the file and the lines differ")
    got = W.load(fn)
    if not rec.check(len(got) == len(ps), key,
                     f"{len(got)} wells, expected {len(ps)}"):
        return None
    for k, (g, w) in enumerate(zip(got, ps)):
        q = dict(key, well=k)
        same_head(rec, q, g, w)
        same_steps(rec, q, g.steps, w.steps)
    same_targets(rec, key, got[0].targets, targets)
    again = bare(W.export(got, comments=comments))
    rec.check([x.rstrip() for x in again] ==
              [x.rstrip() for x in bare(first)], key,
              lambda: f"second export differs: " + str([
                  (a, b) for a, b in zip(again, bare(first))
                  if a.rstrip() != b.rstrip()][:2]))
    return got


def plans(unit, rec, d):
    W = wbp()
    _, a, i, n = unit
    c = 7 * a + i
    for rest in product(ACTS, repeat=n - 1):
        acts = [ACTS[i], *rest]
        if not ok_path(START[a], acts):
            continue
        c += 1
        u = UNITS[c % 2]
        key = {"start": START[a], "acts": acts, "unit": u[0]}
        rec.state(repr(key))
        rec.trans(2)
        with rec.case(key):
            ctrl, s = make_survey(START[a], acts, u[0])
            tg = [W.Target(f"T{k}", [500010.5 + k, 6e6 - k, -1500.25 * k])
                  for k in range(c % 3)]
            for k, t in enumerate(tg):
                t.geometry["color"]["color"] = COLOURS[(c + k) % 5]
            p = W.WellPlan(survey=s, plan_name="plan", targets=list(tg),
                           location_type="surface", depth_unit=u[0],
                           surface_unit=u[1], dls=2.75, extension=0.125)
            # every control point is a step, in order
            mds = [x.md for x in p.steps]
            rec.check(mds == sorted(mds) and mds[0] == mds[1] == 0.0, key,
                      f"steps at {mds}")
            for md, inc, azi in ctrl:
                j = int(np.argmin(np.abs(np.array(mds) - md)))
                x = p.steps[j]
                rec.close(x.md, md, key, "control point", 0, 1e-6)
                v = ref.vec(D(inc), D(azi))
                rec.close(ref.vec(D(x.inc), D(x.azi)), v, key,
                          f"direction at {md}", 0, 1e-9)
                k = int(np.argmin(np.abs(np.array(s.md) - md)))
                rec.close(x.location, [s.e[k], s.n[k], -s.tvd[k]], key,
                          f"location at {md}", 0, 1e-6)
            rec.close(p.env_local, [[x.location[0] - s.e[0],
                                     x.location[1] - s.n[0], x.location[2]]
                                    for x in p.steps], key,
                      "local coordinates", 0, 1e-6)
            cycle(rec, key, W, [p], [
                (t.name, t.location, COLOURS[(c + k) % 5])
                for k, t in enumerate(tg)], d,
                comments=None if c % 2 else ["one", "W: two", "L: 1 2 3"])
            rec.outcome(f"round trip {u[0]}")
            rec.trace()
    rec.sample({"start": START[a], "first": ACTS[i]})


def headers(unit, rec, d):
    W = wbp()
    loc = LOCS[unit[1]]
    _, s = make_survey(START[1], [ACTS[1], ACTS[0]])
    names = ("P", "a plan of " + "x" * 50, "with: colon W:")
    for m, flag, side, name, par, u in product(
            METHODS, (None, "locked_plan"), (None, "ST1", "1234567"), names,
            (None, "parent well", "y" * 60), UNITS):
        key = {"location": loc, "method": m, "flag": flag, "sidetrack": side,
               "name": name, "parent": par, "units": u}
        rec.state(repr(key))
        rec.trans(2)
        dls, ext = {"P": (3.0, 0), names[1]: (12.25, 0.5)}.get(
            name, (0.0, 10.0))
        with rec.case(key):
            p = W.WellPlan(survey=s, plan_name=name, parent_name=par,
                           location_type=loc, plan_method=m,
                           dirty_flag=flag, sidetrack_id=side, dls=dls,
                           extension=ext, depth_unit=u[0], surface_unit=u[1])
            cycle(rec, key, W, [p], [], d)
            rec.outcome("header")
            rec.trace()


def many(unit, rec, d):
    W = wbp()
    kinds = [(START[0], [ACTS[0], ACTS[1]], "surface"),
             (START[1], [ACTS[2], ACTS[0], ACTS[3]], "wp_sidetrack"),
             (START[2], [ACTS[0]], "ow_well")]
    for n in (1, 2, 3):
        for ks in product(range(3), repeat=n):
            if ks[0] != unit[1]:
                continue
            for nt in (0, 1, 3):
                key = {"wells": ks, "targets": nt}
                rec.state(repr(key))
                rec.trans(2)
                with rec.case(key):
                    ps = []
                    tg = [(f"T{k}", [float(k), 2.5 * k, -10.0 * k],
                           COLOURS[k]) for k in range(nt)]
                    for j, k in enumerate(ks):
                        _, s = make_survey(*kinds[k][:2], nev=(
                            100.0 * j, 50.0 * k, 3.0))
                        p = W.WellPlan(
                            survey=s, plan_name=f"well {j}",
                            parent_name=None if not j else f"well {j - 1}",
                            location_type=kinds[k][2], dls=1.0 + j)
                        ps.append(p)
                    for name, loc, col in tg:
                        t = W.Target(name, loc)
                        t.geometry["color"]["color"] = col
                        ps[0].targets.append(t)
                    for j, p in enumerate(ps[1:]):
                        rec.check(p.targets == [], key,
                                  f"targets of the first well in well "
                                  f"{j + 1}")
                    cycle(rec, key, W, ps, tg, d)
                    rec.outcome(f"{n} wells")
                    rec.trace()


# -------------------------------------------------------- hand-written files
class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class TurnPoint(Obj):
    pass


class SurveyPoint(Obj):
    pass


def turn(md, azi, inc, dls, tf, method, target, loc, tie=False):
    """Lines of a turn point and the values they stand for."""
    b, t = 0.5 * dls, -0.25 * dls
    tail = "" if tie else f" {method:>4} {target or '':>10}"
    return ([f"P: {md:7.2f} {azi:7.3f} {inc:7.3f} {b:7.3f} {t:7.3f} "
             f"{dls:7.3f} {tf:7.2f}{tail}", place(loc)],
            TurnPoint(md=md, azi=azi, inc=inc, dls=dls, toolface=tf,
                      build_rate=b, turn_rate=t, method=method,
                      target=target, tie_on=tie, location=loc))


def place(loc):
    return "L:%13.2f%13.2f%11.2f" % tuple(loc)


def extended(md, azi, inc, k, loc):
    c = [1.5 + k, -0.5, 0.25 * k, 2.5, 0.0, 9.0 + k]
    b = [0.25, -1.5, 0.5 * k]
    tool = "MWD+IFR1 rev 2" if k else "GYRO"
    return (["X: " + " ".join(f"{x:8.2f}" for x in c) + " "
             + " ".join(f"{x:7.2f}" for x in b) + f" {tool}",
             f"S: {md:7.2f} {azi:7.3f} {inc:7.3f}", place(loc)],
            SurveyPoint(md=md, azi=azi, inc=inc, cov_xx=c[0], cov_xy=c[1],
                        cov_xz=c[2], cov_yy=c[3], cov_yz=c[4], cov_zz=c[5],
                        x_bias=b[0], y_bias=b[1], z_bias=b[2], tool=tool,
                        location=loc))


def whead(loc=1, unit=2, method=0, flag="0", side="", name="w", par="",
          dls="  3.00", ext="0.50000", kick=""):
    return (f"W:{loc}{unit}{method}{flag}   0 123 {side:>7} {name:<60} "
            f"{par:<60} {dls:>6} {ext:>7} {kick:>10}").rstrip()


def hand(kind, k=0):
    """(lines, targets, wells)."""
    lines = [f"DEPTH {1 + k % 4}", "! a comment", "TARGETS:"]
    tg = []
    for j in range(2 if kind in ("targets", "geometry") else 0):
        loc = [1000.5 * j, -20.25, -300.0 - j]
        lines += [f"T:tgt{j}", place(loc)]
        if kind == "geometry":
            lines += [f"G:{1 + (k + j) % 3}1{10.5 * j:9.2f}{-3.25:10.2f}"]
            tg.append((f"tgt{j}", loc, None if j else 5,
                       ("circle", "ellipse", "rectangle")[(k + j) % 3],
                       "1", [10.5 * j, -3.25]))
            if not j:
                lines += ["C:  5"]
        else:
            lines += [f"C:{4 + j:>3}"]
            tg.append((f"tgt{j}", loc, 4 + j))
    lines += ["WELLPLANS:"]
    wells = []
    for j in range(1 + k % 2 + (kind == "survey")):
        steps = []
        blank = kind == "blank"
        lines.append(whead(
            loc=(j + k) % 10, unit=1 + k % 4, method=(0, 1, 2, 9)[(j + k) % 4],
            flag=" " if blank else "04"[j % 2],
            side="" if blank else "S%d" % j, name=f"well {j}",
            par="" if blank else "parent one",
            dls="" if blank else "  2.25", ext="" if blank else "1.25000",
            kick="" if blank or k % 2 else "3.5"))
        wells.append(Obj(
            location_type=LOCS[(j + k) % 10],
            plan_method=METHODS[(j + k) % 4],
            dirty_flag="None" if blank or j % 2 == 0 else "locked_plan",
            sidetrack_id=None if blank else "S%d" % j, plan_name=f"well {j}",
            parent_name=None if blank else "parent one",
            dls=None if blank else 2.25, extension=None if blank else 1.25,
            depth_unit=("feet", "meters", "meters", "feet")[k % 4],
            surface_unit=("feet", "meters", "feet", "meters")[k % 4],
            steps=steps, kick=None if blank or k % 2 else 3.5))
        parts = [turn(0.0, 0.0, 0.0, 0.0, 0.0, None, None,
                      [10.0 * j, 5.0, 25.5], tie=True)]
        parts.append(turn(0.0, 0.0, 0.0, 0.0, 0.0, "2", None,
                          [10.0 * j, 5.0, 25.5]))
        if kind in ("survey", "extended"):
            parts += [extended(100.0 * (m + 1), 10.5 * m, 3.25 * m, m,
                               [1.0, 2.0 + m, -90.0 * m]) for m in range(2)]
        parts.append(turn(1200.25, 359.5, 45.125, 2.5, -145.5, "920",
                          "tgt1" if tg else None,
                          [-1234567.25, 6543210.5, -1100.0]))
        if kind == "extended":
            parts.append(extended(1500.0, 1.0, 46.0, 0, [0.0, 0.0, 0.0]))
        for ls, w in parts:
            lines += ls
            steps.append(w)
    return lines, tg, wells


def check_hand(rec, key, W, fn, tg, wells):
    got = W.load(fn)
    if not rec.check(len(got) == len(wells), key,
                     f"{len(got)} wells, expected {len(wells)}"):
        return None
    for k, (g, w) in enumerate(zip(got, wells)):
        q = dict(key, well=k)
        same_head(rec, q, g, w)
        same_steps(rec, q, g.steps, w.steps)
        rec.check(g.dls_kickoff == w.kick, q,
                  f"kick-off dls {g.dls_kickoff}, expected {w.kick}")
    same_targets(rec, key, got[0].targets, tg)
    for g, w in zip(got[0].targets, tg):
        if len(w) > 3:
            x = (g.geometry["type"], g.geometry["locked"],
                 g.geometry["offset"])
            rec.check(x == w[3:], key, f"geometry {x}, expected {w[3:]}")
    return got


def insert(unit, rec, d):
    W = wbp()
    fn = os.path.join(d, "h.wbp")
    k = unit[1]
    for kind in STATS:
        lines, tg, wells = hand(kind, k)
        extra = ("! inserted", "!", "", "   ", "! W:1200 P: L: T:x")
        for at in range(len(lines) + 1):
            for x in extra if at else extra[:1]:
                key = {"file": kind, "variant": k, "line": at, "insert": x}
                rec.state(repr(key))
                rec.trans(2)
                with open(fn, "w") as f:
                    f.write("\n".join(lines[:at] + [x] + lines[at:]) + "\n")
                with rec.case(key):
                    got = check_hand(rec, key, W, fn, tg, wells)
                    if got is None:
                        continue
                    # what was read can be written and read again
                    fn2 = os.path.join(d, "i.wbp")
                    W.export(got, fn2)
                    new = W.load(fn2)
                    for g, w in zip(new, wells):
                        same_head(rec, dict(key, again=1), g, w)
                        same_steps(rec, dict(key, again=1), g.steps, w.steps)
                    same_targets(rec, dict(key, again=1), new[0].targets, tg)
                    rec.outcome(kind)
                    rec.trace()


def history(unit, rec, d):
    """Sequences of loads and constructions."""
    W = wbp()
    files = []
    for j, kind in enumerate(("targets", "geometry", "blank", "survey")):
        lines, tg, wells = hand(kind, j)
        files.append((os.path.join(d, f"{j}.wbp"), tg, wells))
        with open(files[-1][0], "w") as f:
            f.write("\n".join(lines) + "\n")
    _, s = make_survey(START[0], [ACTS[0], ACTS[1]])
    for rest in product(range(5), repeat=2):
        ops = [unit[1], *rest]
        key = {"history": ops}
        with rec.case(key):
            kept = []
            for n, o in enumerate(ops):
                rec.state(repr(ops[:n + 1]))
                rec.trans()
                q = dict(key, at=n)
                if o < 4:
                    fn, tg, wells = files[o]
                    kept.append((check_hand(rec, q, W, fn, tg, wells), tg,
                                 wells))
                else:
                    p = W.WellPlan(survey=s, plan_name="x",
                                   location_type="surface")
                    rec.check(p.targets == [], q,
                              f"a new plan has {len(p.targets)} targets")
                    t = W.Target("new", [1.0, 2.0, 3.0])
                    rec.check(t.geometry["color"]["color"] is None and
                              t.geometry["type"] is None and
                              t.geometry["vertices"] == [], q,
                              f"a new target has {t.geometry}")
                    t.geometry["color"]["color"] = 9
                    t.geometry["vertices"].append(1)
                    p.targets.append(t)
            # what was read before is still there
            for got, tg, wells in kept:
                if got is None:
                    continue
                same_targets(rec, dict(key, later=1), got[0].targets, tg)
                for g, w in zip(got, wells):
                    same_steps(rec, dict(key, later=1), g.steps, w.steps)
            rec.outcome("history")
            rec.trace()


def parent(unit, rec, d):
    """A side-track written below the wells of its parent file."""
    W = wbp()
    fn = os.path.join(d, "parent.wbp")
    for n, (a, acts), k in product(
            (1, 2), ((0, [ACTS[0], ACTS[1]]), (1, [ACTS[2], ACTS[0]])),
            range(2)):
        key = {"parents": n, "start": a, "variant": k}
        rec.state(repr(key))
        rec.trans(2)
        with rec.case(key):
            ps = []
            for j in range(n):
                _, s = make_survey(START[j], [ACTS[0], ACTS[1 + k]],
                                   nev=(1000.0 + j, 2000.0 - j, -30.0))
                ps.append(W.WellPlan(survey=s, plan_name=f"parent {j}",
                                     location_type="surface"))
            W.export(ps, fn)
            _, s = make_survey(START[a], acts, nev=(1100.0, 2100.0, 500.0))
            p = W.WellPlan(survey=s, plan_name="side", parent_name="parent 0",
                           location_type="wp_sidetrack",
                           parent_wbp_file=fn)
            rec.close(p.env_local, [[x.location[0] - 2000.0,
                                     x.location[1] - 1000.0, x.location[2]]
                                    for x in p.steps], key,
                      "local coordinates", 0, 1e-6)
            out = os.path.join(d, "side.wbp")
            W.export(p, out)
            got = W.load(out)
            if rec.check(len(got) == n + 1, key, f"{len(got)} wells"):
                for j, (g, w) in enumerate(zip(got, ps + [p])):
                    same_head(rec, dict(key, well=j), g, w)
                    same_steps(rec, dict(key, well=j), g.steps, w.steps)
            rec.outcome("parent")
            rec.trace()


# ---------------------------------------------------------------- to a survey
def to_survey(unit, rec, d):
    W = wbp()
    _, a, i, n = unit
    fn = os.path.join(d, "s.wbp")
    c = 3 * a + i
    for rest in product(ACTS, repeat=n - 1):
        acts = [ACTS[i], *rest]
        if not ok_path(START[a], acts):
            continue
        c += 1
        u = UNITS[c % 2][0]
        f = 1.0 if u == "meters" else 1 / 0.3048
        step = (None, 30.0, 7.0)[c % 3]
        az, conv = (("grid", 0.0), ("true", 1.5), ("grid", 2.0))[c % 3]
        key = {"start": START[a], "acts": acts, "unit": u, "step": step,
               "reference": az, "convergence": conv}
        rec.state(repr(key))
        rec.trans()
        with rec.case(key):
            nev = (6000000.0 * f, 500000.0 * f, -20.0)
            _, s = make_survey(START[a], acts, u, nev)
            W.export(W.WellPlan(survey=s, plan_name="x", depth_unit=u,
                                surface_unit=u, location_type="surface"), fn)
            p = W.load(fn)[0]
            out = W.wbp_to_survey(p, step=step, radius=0.2, convergence=conv,
                                  azi_reference=az)
            pts = [(x.md, x.inc, x.azi) for x in p.steps[1:]]
            o = conv if az == "true" else 0.0
            pos = ref.walk([x[0] for x in pts], [D(x[1]) for x in pts],
                           [D(x[2] - o) for x in pts],
                           [p.steps[0].location[1], p.steps[0].location[0],
                            -p.steps[0].location[2]])
            md = np.asarray(out.md)
            rec.check(bool((np.diff(md) > 0).all()), key,
                      "depths do not increase")
            if step is not None:
                rec.check(np.diff(md).max() <= step + 1e-3, key,
                          f"gap {np.diff(md).max()}")
            rec.check(out.unit == u, key, f"unit {out.unit}")
            rec.close(np.asarray(out.radius), np.full(len(md), 0.2), key,
                      "radius", 0, 0)
            got = np.column_stack([out.n, out.e, out.tvd])
            # written to 0.001 degrees and 0.01 units of length
            for (m, inc, azi), x in zip(pts, pos):
                q = dict(key, md=m)
                j = int(np.argmin(np.abs(md - m)))
                rec.close(md[j], m, q, "control point depth", 0, 0.011)
                rec.close(got[j], x, q, "position", 0, 0.1)
                rec.close(ref.vec(out.inc_rad[j], out.azi_grid_rad[j]),
                          ref.vec(D(inc), D(azi - o)), q, "direction", 0,
                          1e-4)
            rec.close([md[0], md[-1]], [pts[0][0], pts[-1][0]], key, "ends",
                      0, 0.011)
            rec.outcome(f"survey {u}")
            rec.trace()
