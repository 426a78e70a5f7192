"""C08: the batch connection solver agrees with solving each case alone."""
import itertools
import math

import numpy as np

from .. import ref, repo
from ..common import D

ID = "C08"
EXPLANATION = (
    "Every single row of the complete grid of start directions x directions to "
    "the target x distances x radii is solved alone and compared with the "
    "closed-form arc-and-hold geometry (rows inside the critical circle must "
    "come back unsolved) and, where it turns less than half a circle, with the "
    "scalar connector.  Then every ordered pair and triple of representative "
    "rows (easy, straight, coincident, beside at two radii, behind, "
    "infeasible) is solved as one batch, in flat and two-dimensional layouts, "
    "with scalar and per-row radii, and must equal the rows solved alone, bit "
    "for bit up to 1e-12.  State = one batch, transition = one call.")
ASSUMPTIONS = ["a target exactly behind the start has no unique plane and is "
               "only required not to disturb other rows"]
DIRS = [(0.0, 0.0), (2.0, 300.0), (30.0, 45.0), (90.0, 0.0), (90.0, 120.0),
        (150.0, 200.0), (180.0, 0.0)]
CHORDS = [(0.0, 0.0), (1e-3, 20.0), (20.0, 90.0), (45.0, 100.0),
          (60.0, 280.0), (90.0, 0.0), (90.0, 170.0), (100.0, 300.0),
          (120.0, 60.0), (150.0, 210.0), (179.0, 5.0)]
RADII = [50.0, 573.0]
K = [0.0, 0.05, 0.6, 1.0, 1.5, 2.0, 3.0, 4.0, 10.0, 1000.0]
P0 = (12.5, -340.0, 900.0)


def BOUNDS(tier):
    return {"start directions": DIRS, "directions to the target": CHORDS,
            "radii": RADII, "distances in radii": K,
            "batches": "all ordered pairs and triples of representative rows"
            if tier == "quick" else
            "all ordered pairs, triples and quadruples of representative rows"}


def units(tier):
    return ([["row", i] for i in range(len(DIRS))] +
            [["batch", i, tier] for i in range(len(reps()))] +
            [["grid", 0]])


def vec(d):
    return ref.vec(D(d[0]), D(d[1]))


def rows_of(i):
    t1 = vec(DIRS[i])
    for ch, k, r in itertools.product(CHORDS, K, RADII):
        yield (P0, t1, ref.add(P0, ref.mul(vec(ch), k * r)), r,
               {"from": DIRS[i], "to": ch, "radii": k, "radius": r})


def reps():
    out = []
    x, z, y = (1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, 1.0, 0.0)
    t = vec((30.0, 45.0))
    r = 100.0
    add = lambda n, p, v, q, rr=r: out.append((p, v, q, rr, n))
    add("easy", P0, t, ref.add(P0, (900.0, 100.0, 700.0)))
    add("straight ahead", (0., 0., 0.), z, (0., 0., 500.))
    add("coincident", P0, t, P0)
    add("two radii beside", (0., 0., 0.), z, (200.0, 0.0, 200 * math.sqrt(3)))
    add("beside, level", (0., 0., 0.), x, (0.0, 400.0, 0.0))
    add("inside the critical circle", (0., 0., 0.), x, (5.0, 60.0, 0.0))
    add("behind", (0., 0., 0.), x, (-700.0, 30.0, 0.0))
    add("directly behind", (0., 0., 0.), z, (0., 0., -500.))
    add("other radius", P0, y, ref.add(P0, (300.0, 500.0, -100.0)), 40.0)
    add("far", (1e5, 2e5, 10.), z, (1.03e5, 2.01e5, 4000.), 573.0)
    return out


def run(unit, rec):
    C = repo.load().connector
    {"row": single, "batch": batch, "grid": grid}[unit[0]](C, unit, rec)


def solve(C, rows, shape=None, scalar_radius=False):
    p, t, q = (np.array([r[k] for r in rows], dtype=float) for k in range(3))
    rad = np.array([r[3] for r in rows])
    if shape is not None:
        p, t, q = (a.reshape(shape + (3,)) for a in (p, t, q))
        rad = rad.reshape(shape)
    if scalar_radius:
        rad = float(rows[0][3])
    return C.solve_curve_hold_batch(p, t, q, rad)


KEYS = {"pos2": 3, "vec_target": 3, "tangent_length": 1, "dogleg": 1,
        "dist_curve": 1, "md": 1}


def single(C, unit, rec):
    for p, t, q, r, key in rows_of(unit[1]):
        rec.state(repr(key))
        rec.trans()
        rec.trace()
        with rec.case(key):
            a = solve(C, [(p, t, q, r)])
            for k, n in KEYS.items():
                rec.check(a[k].shape == ((1, 3) if n == 3 else (1,)), key,
                          lambda: f"shape of {k}: {a[k].shape}")
            b = C.solve_curve_hold_batch(np.array(p), np.array(t),
                                         np.array(q), r)
            for k in KEYS:
                rec.close(np.asarray(b[k]), a[k][0], key, k + " unbatched",
                          0, 1e-12)
            verify(C, rec, key, p, t, q, r, {k: a[k][0] for k in KEYS})


def verify(C, rec, key, p, t, q, r, a):
    delta = ref.sub(q, p)
    d = ref.norm(delta)
    al = ref.angle(t, delta) if d else 0.0
    n, ah = d * math.sin(al), d * math.cos(al)
    tol = 1e-7 * (1 + d + r)
    s = d * d - 2 * r * n
    if abs(s) <= 1e-9 * d * d and d > 0:
        rec.outcome("on the critical circle")
        return
    if s < 0:
        rec.outcome("unsolved")
        for k in KEYS:
            rec.check(np.all(np.isnan(a[k])), key,
                      f"inside the critical circle but {k} = {a[k]}")
        return
    if al > D(179.99):
        rec.outcome("directly behind")
        return
    for k in KEYS:
        if not rec.check(np.all(np.isfinite(a[k])), key,
                         f"no solution, {k} = {a[k]}"):
            return
    tl = math.sqrt(s)
    phi = 2 * math.atan2(n, ah + tl) if ah >= 0 else (
        2 * math.atan2(ah - tl, 2 * r - n)) % ref.TAU
    rec.outcome("reflex turn" if phi > math.pi else
                "straight" if phi < 1e-9 else "turn")
    rec.close(a["tangent_length"], tl, key, "hold length", 1e-6, tol)
    # a row with a short hold is ill-conditioned in the square root
    w = 1 + d / max(tl, 1e-3 * d, 1e-12) if d else 1.0
    rec.close(a["dogleg"], phi, key, "turn", 0, 1e-9 * w + 2e-8)
    rec.close(a["dist_curve"], r * phi, key, "curve length", 0, tol * w)
    rec.close(a["md"], r * phi + tl, key, "length", 0, tol * w)
    if d == 0:
        rec.close(a["vec_target"], t, key, "end direction", 0, 1e-9)
        rec.close(a["pos2"], p, key, "end of curve", 0, tol)
        return
    # the path: arc of radius r in the plane of start and target, then line
    if al > 1e-9:
        side = ref.unit(ref.sub(ref.unit(delta),
                                ref.mul(t, math.cos(al))))
    else:
        side = (0.0, 0.0, 0.0)
    at = 1e-6 * w + (1e-7 / al if al > 1e-9 else 0)
    ang = float(a["dogleg"])
    tan = ref.add(ref.mul(t, math.cos(ang)), ref.mul(side, math.sin(ang)))
    p2 = ref.add(p, ref.add(ref.mul(t, r * math.sin(ang)),
                            ref.mul(side, 2 * r * math.sin(ang / 2) ** 2)))
    got2 = tuple(float(x) for x in a["pos2"])
    gott = tuple(float(x) for x in a["vec_target"])
    rec.close(got2, p2, key, "end of curve", 0, 10 * tol * w)
    rec.check(ref.norm(ref.sub(gott, tan)) <= at, key,
              lambda: f"end direction {gott}, the curve ends along {tan}")
    end = ref.add(got2, ref.mul(gott, float(a["tangent_length"])))
    rec.close(end, q, key, "end of hold", 0, 10 * tol)
    if 1e-9 < phi < D(175):
        c = C.Connector(pos1=list(p), vec1=list(t), pos2=list(q),
                        dls_design=math.degrees(30 / r))
        rec.trans()
        if c.method == "min_dist_to_target":
            rec.close(a["md"], c.md_target, key, "length (scalar solver)", 0,
                      tol * w)
            rec.close(a["vec_target"], c.vec_target, key,
                      "direction (scalar solver)", 0, at)
            rec.close(a["pos2"], c.pos2, key, "curve end (scalar solver)", 0,
                      10 * tol * w)


def same(rec, key, got, want, what):
    for k in KEYS:
        g, w = np.asarray(got[k]), np.asarray(want[k])
        with np.errstate(all="ignore"):
            ok = (g.shape == w.shape) and bool(np.all(
                (np.abs(g - w) <= 1e-12 * (1 + np.abs(w))) |
                (np.isnan(g) & np.isnan(w))))
        rec.check(ok, key, lambda: f"{what}: {k} is {g} in the batch and {w} "
                                   "alone")


def batch(C, unit, rec):
    rows = reps()
    alone = [solve(C, [r]) for r in rows]
    first, tier = unit[1], unit[2]
    for size in (2, 3) if tier == "quick" else (2, 3, 4):
        for rest in itertools.product(range(len(rows)), repeat=size - 1):
            idx = (first,) + rest
            key = {"batch": [rows[i][4] for i in idx]}
            rec.state(repr(key))
            rec.trans()
            rec.trace()
            with rec.case(key):
                sel = [rows[i] for i in idx]
                args = [np.array([r[k] for r in sel]) for k in range(3)]
                rad = np.array([r[3] for r in sel])
                keep = [a.copy() for a in args + [rad]]
                got = C.solve_curve_hold_batch(*args, rad)
                rec.check(all(np.array_equal(a, b) for a, b in
                              zip(args + [rad], keep)), key,
                          "arguments were changed")
                for j, i in enumerate(idx):
                    same(rec, key, {k: got[k][j] for k in KEYS},
                         {k: alone[i][k][0] for k in KEYS},
                         f"row {j} ({rows[i][4]})")
                if size == 2:
                    g2 = solve(C, sel, (2, 1))
                    g3 = solve(C, sel, (1, 2))
                    rec.trans(2)
                    for j, i in enumerate(idx):
                        al = {k: alone[i][k][0] for k in KEYS}
                        same(rec, key, {k: g2[k][j, 0] for k in KEYS}, al,
                             f"column layout row {j}")
                        same(rec, key, {k: g3[k][0, j] for k in KEYS}, al,
                             f"row layout row {j}")
                if len({r[3] for r in sel}) == 1:
                    g4 = solve(C, sel, scalar_radius=True)
                    rec.trans()
                    for j, i in enumerate(idx):
                        same(rec, key, {k: g4[k][j] for k in KEYS},
                             {k: alone[i][k][0] for k in KEYS},
                             f"one radius for all, row {j}")
    rec.sample({"first row": rows[first][4]})


def grid(C, unit, rec):
    """The whole grid as one batch and reversed."""
    rows = [r for i in range(len(DIRS)) for r in rows_of(i)]
    alone = [solve(C, [r]) for r in rows]
    for name, order in (("forward", range(len(rows))),
                        ("backward", range(len(rows) - 1, -1, -1))):
        order = list(order)
        got = solve(C, [rows[i] for i in order])
        rec.trans()
        rec.trace()
        rec.state(name)
        for j, i in enumerate(order):
            same(rec, {"grid": name, "row": rows[i][4]},
                 {k: got[k][j] for k in KEYS},
                 {k: alone[i][k][0] for k in KEYS}, "whole grid")
