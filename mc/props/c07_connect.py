"""C07: a connection reaches its target within the allowed curvature."""
import itertools
import math

import numpy as np

from .. import ref, repo
from ..common import D

ID = "C07"
EXPLANATION = (
    "The complete table of end-condition combinations (all 32 subsets of "
    "depth, inclination, azimuth, position, direction; start as vector, "
    "degrees or radians) and, per method, the complete grid of start "
    "directions x target directions/positions x design curvatures x units.  "
    "Single-arc and arc-and-hold connections are compared with the closed-form "
    "circle geometry; curve-hold-curve connections are judged on the path "
    "they describe.  Every connection is rendered to a survey coarsely and "
    "finely and the rendered path is checked leg by leg (start, continuity, "
    "end, curvature, length).  State = one connection problem, transition = "
    "one solve or one rendering; chains of connections are sequences of "
    "solves that start where the last one ended.")
ASSUMPTIONS = [
    "a connection has a length: a direction equal to the start direction "
    "needs a depth or a position",
    "turns are less than half a circle and the end direction is not exactly "
    "opposite to the start direction",
    "curve-hold-curve: target at least 6 (10) turn radii away, start direction "
    "within 95 (125) degrees of the line to the target and target direction "
    "within 125 (145) degrees of it; nearer or sharper targets are outside "
    "the claim",
]
DIRS = [(0.0, 0.0), (2.0, 300.0), (30.0, 45.0), (90.0, 0.0), (90.0, 120.0),
        (150.0, 200.0)]
ENDS = [(0.0, 0.0), (1.0, 10.0), (31.0, 46.0), (29.99, 45.0), (60.0, 200.0),
        (90.0, 90.0), (90.0, 359.0), (120.0, 300.0), (170.0, 20.0)]
CHORDS = [(0.0, 0.0), (20.0, 0.0), (20.0, 90.0), (20.0, 200.0), (45.0, 100.0),
          (60.0, 45.0), (60.0, 280.0), (90.0, 0.0), (90.0, 170.0),
          (100.0, 300.0), (120.0, 60.0), (150.0, 210.0), (180.0, 0.0)]
DLS = [0.5, 3.0, 12.0]
P0 = (12.5, -340.0, 900.0)
POS_K = [0.05, 0.5, 1.0, 1.7, 2.0, 3.0, 4.0, 10.0]
BOTH_K = {"quick": [6.0, 12.0, 40.0], "thorough": [6.0, 7.5, 10.0, 12.0, 20.0,
                                                  40.0, 100.0]}


def BOUNDS(tier):
    return {"start directions": DIRS, "end directions": ENDS,
            "directions to the target": CHORDS, "severities": DLS,
            "distances in radii (position only)": POS_K,
            "distances in radii (position and direction)": BOTH_K[tier],
            "units": ["meters", "feet"],
            "combinations of end conditions": 32}


def units(tier):
    out = [["table", i, tier] for i in range(len(DIRS))]
    out += [["dir", i, tier] for i in range(len(DIRS))]
    out += [["pos", i, tier] for i in range(len(DIRS))]
    out += [["both", i, k, tier] for i in range(len(DIRS))
            for k in BOTH_K[tier]]
    out += [["chain", i, tier] for i in range(len(DIRS))]
    return out


def run(unit, rec):
    W = repo.load()
    {"table": table, "dir": direction, "pos": position, "both": both,
     "chain": chain}[unit[0]](W, unit, rec)


# ---------------------------------------------------------------------------

def vec(d):
    return ref.vec(D(d[0]), D(d[1]))


def legs(s):
    """Stations of a survey as read by the reference model."""
    md = [float(x) for x in s.md]
    t = [ref.vec(float(i), float(a))
         for i, a in zip(s.inc_rad, s.azi_grid_rad)]
    p = [tuple(float(s.start_nev[k]) for k in range(3))]
    for k in range(1, len(md)):
        p.append(ref.leg(p[-1], t[k - 1], t[k], md[k] - md[k - 1]))
    return md, t, p


def judge(W, rec, key, c, p1, t1, md1, goal, gdir, kmax, unit, tol,
          turn_tol=1e-6, dtol=2e-8):
    """Render the connection and check the path it describes."""
    rec.check(c.md1 == md1, key, lambda: f"start depth {c.md1}")
    rec.close(c.pos1, p1, key, "start position", 0, 1e-9)
    end = None
    for step in (None, 30.0, 47.0):
        s = W.survey.from_connections(
            [c], step=step, depth_unit=unit, surface_unit=unit)
        rec.trans()
        md, t, p = legs(s)
        w = f"rendered with step {step}: "
        rec.check(all(b > a for a, b in zip(md, md[1:])), key,
                  lambda: w + f"depths not increasing {md}")
        rec.close(md[0], md1, key, w + "first depth", 0, 1e-9)
        rec.close(md[-1], c.md_target, key, w + "last depth", 1e-12, 1e-6)
        rec.close(p[0], p1, key, w + "start", 0, 1e-9)
        rec.check(ref.angle(t[0], t1) <= dtol, key,
                  lambda: w + f"start direction {t[0]} instead of {t1}")
        if goal is not None:
            rec.check(ref.norm(ref.sub(p[-1], goal)) <= tol, key, lambda: w +
                      f"ends at {p[-1]}, target is {goal} "
                      f"({ref.norm(ref.sub(p[-1], goal)):.3g} away)")
            rec.check(md[-1] - md[0] >= ref.norm(ref.sub(goal, p1)) - tol,
                      key, lambda: w + "shorter than the straight line")
        if gdir is not None:
            rec.check(ref.angle(t[-1], gdir) <= max(dtol, 1e-7), key,
                      lambda: w + f"end direction {t[-1]}, wanted {gdir}")
        rec.check(ref.norm(ref.sub(
            p[-1], tuple(float(x) for x in c.pos_target))) <= tol, key,
            lambda: w + f"end {p[-1]} differs from the connector's "
            f"{c.pos_target}")
        if kmax is not None:
            for k in range(1, len(md)):
                over = ref.angle(t[k - 1], t[k]) - kmax * (md[k] - md[k - 1])
                rec.check(over <= turn_tol, key, lambda: w +
                          f"leg {md[k-1]:.3f}-{md[k]:.3f} turns "
                          f"{over:.3g} rad more than the design allows")
        rec.close(np.array([s.n[-1], s.e[-1], s.tvd[-1]]), p[-1], key,
                  w + "survey end position", 0, 1e-5 + 1e-9 * md[-1])
        if end is not None:
            rec.check(ref.norm(ref.sub(p[-1], end)) <= tol, key,
                      lambda: w + f"ends elsewhere ({p[-1]} and {end})")
        end = p[-1]
    n = c.node_end
    rec.close(n.pos_nev, [float(x) for x in np.ravel(c.pos_target)], key,
              "end node position", 0, 1e-9)
    rec.close(n.md, float(c.md_target), key, "end node depth", 0, 1e-9)


def solve(W, rec, key, **kw):
    rec.state(repr(key))
    rec.trans()
    rec.trace()
    c = W.connector.Connector(**kw)
    rec.outcome(c.method)
    return c


# -- all combinations of end conditions -------------------------------------

def table(W, unit, rec):
    C = W.connector.Connector
    d1 = DIRS[unit[1]]
    t1 = vec(d1)
    r = 30 / D(3.0)
    d2 = (75.0, 110.0)
    t2 = vec(d2)
    goal = ref.add(P0, ref.mul(ref.unit(ref.add(t1, ref.mul(t2, 1.1))),
                               14 * r))
    for form in ("vec", "deg", "rad"):
        for m, i, a, p, v in itertools.product((0, 1), repeat=5):
            deg = form != "rad"
            q = (lambda x: x) if deg else D
            kw = dict(pos1=np.array(P0), md1=250.0, degrees=deg,
                      dls_design=q(3.0))
            if form == "vec":
                kw["vec1"] = np.array(t1)
            else:
                kw.update(inc1=q(d1[0]), azi1=q(d1[1]))
            if m:
                kw["md2"] = 250.0 + 9 * r
            if i:
                kw["inc2"] = q(d2[0])
            if a:
                kw["azi2"] = q(d2[1])
            if p:
                kw["pos2"] = np.array(goal)
            if v:
                kw["vec2"] = np.array(t2)
            key = {"table": [m, i, a, p, v], "start": d1, "form": form}
            rec.state(repr(key))
            rec.trans()
            rec.trace()
            invalid = (not (m or i or a or p or v) or (m and p)
                       or (v and (i or a)))
            if invalid:
                try:
                    C(**kw)
                    rec.fail(key, "contradictory or missing end conditions "
                                  "accepted")
                except AssertionError:
                    rec.outcome("refused")
                rec.ev()
                continue
            if p and (i != a):
                continue                    # half a direction: see DESIGN
            if not (m or p or i) and d1[0] == 0 and not v:
                continue                    # no turn at all, no length
            with rec.case(key):
                before = [np.array(x) for x in kw.values()]
                c = solve(W, rec, key, **kw)
                rec.check(all(np.array_equal(x, y) for x, y in
                              zip(before, kw.values())), key,
                          "arguments were changed")
                # expected end direction
                inc = D(d2[0]) if (i or v) else D(d1[0])
                azi = D(d2[1]) if (a or v) else D(d1[1])
                gdir = ref.vec(inc, azi)
                if p and not (i or a or v):
                    gdir = None
                exp_p = goal if p else None
                if m:
                    phi = ref.angle(t1, gdir)
                    q1, _ = ref.arc_point(P0, t1, gdir, r * phi, r * phi)
                    exp_p = ref.add(q1, ref.mul(gdir, 9 * r - r * phi))
                    rec.close(c.md_target, 250 + 9 * r, key, "depth", 0, 1e-6)
                elif not p:
                    phi = ref.angle(t1, gdir)
                    if phi < 1e-9:
                        continue
                    exp_p = ref.leg(P0, t1, gdir, r * phi)
                both_ = p and (v or (i and a))
                judge(W, rec, key, c, P0, t1, 250.0, exp_p, gdir, 1 / r,
                      "meters", 0.01 if both_ else 1e-4,
                      turn_tol=1e-4 if both_ else 1e-6)
    # the method must not depend on the form of the start
    rec.sample({"start": d1, "end": d2, "target": goal})


# -- direction, with or without depth ---------------------------------------

def direction(W, unit, rec):
    d1 = DIRS[unit[1]]
    t1 = vec(d1)
    for d2, dls, un, md_k in itertools.product(
            ENDS + DIRS, DLS + [None], ("meters", "feet"),
            (None, 0.02, 0.5, 1.0, 1.001, 3.0)):
        t2 = vec(d2)
        phi = ref.angle(t1, t2)
        if phi > D(175) or (phi == 0 and md_k is None):
            continue
        if dls is None and md_k is None:
            continue
        base = 30.0 if un == "meters" else 100.0
        r = base / D(dls or 3.0)
        key = {"to": d2, "from": d1, "dls": dls, "unit": un, "md": md_k}
        kw = dict(pos1=list(P0), inc1=d1[0], azi1=d1[1], md1=1000.0,
                  inc2=d2[0], azi2=d2[1], dls_design=dls, unit=un)
        if md_k is not None:
            length = max(r * phi, 0.01 * r) * md_k
            kw["md2"] = 1000.0 + length
        with rec.case(key):
            c = solve(W, rec, key, **kw)
            if md_k is None:
                goal = ref.leg(P0, t1, t2, r * phi)
                kmax = 1 / r
                end = 1000 + r * phi
            else:
                end = 1000 + length
                if r * phi >= length or dls is None:
                    goal = ref.leg(P0, t1, t2, length)     # needs a tighter arc
                    kmax = phi / length
                else:
                    goal = ref.add(ref.leg(P0, t1, t2, r * phi),
                                   ref.mul(t2, length - r * phi))
                    kmax = 1 / r
            rec.close(c.md_target, end, key, "end depth", 1e-9, 1e-6)
            judge(W, rec, key, c, P0, t1, 1000.0, goal, t2, kmax, un,
                  1e-5 + 1e-8 * (end - 1000), turn_tol=1e-6)


# -- position only ----------------------------------------------------------

def position(W, unit, rec):
    d1 = DIRS[unit[1]]
    t1 = vec(d1)
    for ch, k, dls, un in itertools.product(
            CHORDS, POS_K, DLS + [None], ("meters", "feet")):
        u = vec(ch)
        al = ref.angle(t1, u)
        base = 30.0 if un == "meters" else 100.0
        r = base / D(dls or 3.0)
        d = k * r
        goal = ref.add(P0, ref.mul(u, d))
        key = {"to": ch, "from": d1, "dls": dls, "unit": un, "radii": k}
        n, ah = d * math.sin(al), d * math.cos(al)
        ratio = d * d / (2 * n * r) if n > 1e-9 * d else math.inf
        if al > D(179.9):
            continue
        single = dls is None or ratio < 1
        if abs(ratio - 1) < 1e-3:
            rec.outcome("skipped: on the critical circle")
            continue
        if single and al < 1e-9 and dls is None:
            single = False
        if al < 1e-9:
            phi, length, tan, kmax = 0.0, d, t1, 1 / r
        elif single:
            phi = 2 * al
            rc = d * d / (2 * n)
            length, kmax = rc * phi, 1 / rc
        else:
            tl = math.sqrt(d * d - 2 * r * n)
            phi = 2 * math.atan2(n, ah + tl) if ah >= 0 else (
                2 * math.atan2(ah - tl, 2 * r - n)) % ref.TAU
            length, kmax = r * phi + tl, 1 / r
        if phi > D(175):
            continue
        # direction after the turn, in the plane of start and target
        if phi > 1e-12:
            side = ref.unit(ref.sub(u, ref.mul(t1, math.cos(al))))
            tan = ref.add(ref.mul(t1, math.cos(phi)),
                          ref.mul(side, math.sin(phi)))
        with rec.case(key):
            c = solve(W, rec, key, pos1=list(P0), vec1=list(t1), md1=77.0,
                      pos2=list(goal), dls_design=dls, unit=un)
            tol = 1e-4 + 1e-6 * d
            rec.close(c.md_target, 77 + length, key, "end depth", 1e-6, tol)
            judge(W, rec, key, c, P0, t1, 77.0, goal, tan, kmax, un, tol,
                  turn_tol=1e-6 + 2e-5 * phi, dtol=2e-5)
            if single and al > 1e-6 and un == "meters":
                rec.check(c.method == "min_curve_to_target", key,
                          lambda: f"method {c.method}: the path is tighter "
                          "than the design but not reported as such")
                rec.close(c.dls, math.degrees(kmax * 30), key,
                          "reported severity", 1e-4, 1e-6)


# -- position and direction -------------------------------------------------

def in_domain(al, be, k):
    a, b = math.degrees(al), math.degrees(be)
    if k < 10:
        return a <= 95 and b <= 125
    return a <= 125 and b <= 145


def both(W, unit, rec):
    _, i, k, tier = unit
    d1 = DIRS[i]
    t1 = vec(d1)
    sets = [(3.0, None, "meters"), (3.0, 1.0, "meters"), (1.0, 3.0, "meters"),
            (2.0, None, "feet")]
    if tier != "quick":
        sets += [(12.0, None, "meters"), (0.5, None, "feet"),
                 (8.0, 2.0, "feet")]
    for ch, d2, (dls, dls2, un) in itertools.product(
            CHORDS, ENDS + DIRS, sets):
        base = 30.0 if un == "meters" else 100.0
        r1, r2 = base / D(dls), base / D(dls2 or dls)
        u, t2 = vec(ch), vec(d2)
        al, be = ref.angle(t1, u), ref.angle(u, t2)
        if not in_domain(al, be, k):
            continue
        if ref.angle(t1, t2) > D(175):
            continue
        d = k * max(r1, r2)
        goal = ref.add(P0, ref.mul(u, d))
        key = {"to": [ch, d2], "from": d1, "dls": [dls, dls2], "unit": un,
               "radii": k}
        with rec.case(key):
            c = solve(W, rec, key, pos1=list(P0), inc1=d1[0], azi1=d1[1],
                      md1=500.0, pos2=list(goal), inc2=d2[0], azi2=d2[1],
                      dls_design=dls, dls_design2=dls2, unit=un)
            judge(W, rec, key, c, P0, t1, 500.0, goal, t2,
                  max(1 / r1, 1 / r2), un, 0.02, turn_tol=1e-4)
            if c.method == "curve_hold_curve":
                for nm, ln, dl, r in (("first", c.dist_curve, c.dogleg, r1),
                                      ("second", c.dist_curve2, c.dogleg2,
                                       r2)):
                    rec.check(dl - abs(ln) / r <= 1e-4, key, lambda:
                              f"{nm} curve turns {dl} rad in {ln}, design "
                              f"radius {r}")
    rec.sample({"start": d1, "radii": k})


# -- chains -----------------------------------------------------------------

def chain(W, unit, rec):
    """Connections appended one after the other, each starting at the node
    where the previous one ended."""
    CN, N = W.connector, W.node.Node
    _, i, tier = unit
    d1 = DIRS[i]
    t1 = vec(d1)
    r = 30 / D(3.0)
    steps = [("hold", None), ("dir", (75.0, 110.0)), ("dir", (20.0, 250.0)),
             ("pos", None)]
    depth = 3 if tier == "quick" else 4
    for n in range(1, depth + 1):
        for ops in itertools.product(range(len(steps)), repeat=n):
            key = {"chain": [steps[o] for o in ops], "from": d1}
            with rec.case(key):
                rec.trace()
                cs, p, t, md = [], P0, t1, 100.0
                node = N(pos=list(P0), vec=list(t1), md=100.0)
                ok = True
                for o in ops:
                    kind, d2 = steps[o]
                    if kind == "hold":
                        kw = dict(node2=N(md=md + 333.0, vec=list(t)))
                        p, md = ref.add(p, ref.mul(t, 333.0)), md + 333.0
                    elif kind == "dir":
                        t2 = vec(d2)
                        phi = ref.angle(t, t2)
                        if phi < 1e-9 or phi > D(175):
                            ok = False
                            break
                        kw = dict(inc2=d2[0], azi2=d2[1])
                        p, md, t = (ref.leg(p, t, t2, r * phi), md + r * phi,
                                    t2)
                    else:
                        side = ref.unit(ref.cross(t, (0.3, 0.2, 0.6)))
                        g = ref.add(p, ref.add(ref.mul(t, 5 * r),
                                               ref.mul(side, 2 * r)))
                        kw = dict(node2=N(pos=list(g)))
                        d = math.sqrt(29) * r
                        tl = math.sqrt(d * d - 4 * r * r)
                        phi = 2 * math.atan2(2 * r, 5 * r + tl)
                        t = ref.add(ref.mul(t, math.cos(phi)),
                                    ref.mul(side, math.sin(phi)))
                        p, md = g, md + r * phi + tl
                    rec.state(repr((d1, ops)))
                    rec.trans()
                    c = CN.Connector(node1=node, dls_design=3.0, **kw)
                    rec.close(c.pos_target, p, key, f"{kind} end position", 0,
                              1e-3)
                    rec.close(c.md_target, md, key, f"{kind} end depth", 0,
                              1e-3)
                    rec.check(ref.angle(tuple(map(float, np.ravel(
                        c.vec_target))), t) < 1e-5, key,
                        lambda: f"{kind} end direction {c.vec_target}, {t}")
                    node = c.node_end
                    cs.append(c)
                if not ok:
                    continue
                for step in (None, 30):
                    s = W.survey.from_connections(cs, step=step)
                    smd, st, sp = legs(s)
                    rec.close(sp[-1], p, key, "rendered chain end", 0, 2e-3)
                    rec.close(smd[-1], md, key, "rendered chain depth", 0,
                              2e-3)
                    rec.close(sp[0], P0, key, "rendered chain start", 0, 1e-9)
                    for j in range(1, len(smd)):
                        rec.check(ref.angle(st[j - 1], st[j]) <= 1e-5 +
                                  (smd[j] - smd[j - 1]) / r, key,
                                  "chain turns too fast")
    # a list of points
    pts = [P0]
    for v in ((0.2, 0.1, 1), (1, 0.3, 0.6), (0.5, -0.7, 0.4)):
        pts.append(ref.add(pts[-1], ref.mul(ref.unit(v), 6 * r)))
    for n in (2, 3, 4):
        key = {"points": n, "from": d1}
        if ref.angle(t1, ref.sub(pts[1], pts[0])) > D(100):
            continue
        with rec.case(key):
            rec.state(repr(key))
            rec.trans()
            cs = CN.connect_points([list(q) for q in pts[:n]],
                                   vec_start=list(t1), dls_design=3.0)
            rec.check(len(cs) == n - 1, key, "number of connections")
            t = t1
            for c, a, b in zip(cs, pts, pts[1:]):
                rec.close(c.pos1, a, key, "point", 0, 1e-3)
                judge(W, rec, key, c, tuple(map(float, c.pos1)), t,
                      float(c.md1), b, None, 1 / r, "meters", 1e-2,
                      turn_tol=1e-4, dtol=1e-6)
                t = tuple(float(x) for x in np.ravel(c.vec_target))
