"""C06: interpolation by true vertical depth."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey, nev, product, rad
from .c04_interpolate_md import long_path

ID = "C06"
EXPLANATION = (
    "Every descending path of the bounded tree is queried at every depth of "
    "a fixed subdivision of every leg; the answer must be the only point of "
    "the reference path at that depth (descending paths are monotone in "
    "depth, so it is unique).  Every path of a second tree, with directions "
    "that rise, is queried likewise, where the answer must be any point of "
    "the reference path at that depth.  Then the paths are resampled at every "
    "listed depth step and compared with the reference station list, on "
    "rising paths at every crossing of a level.  State = "
    "(path, configuration), transition = one query.")
ASSUMPTIONS = ["descending paths have inclinations of at most 89.5 degrees, "
               "so depth is strictly increasing along the path",
               "1e-4 length units tolerance; 1e-2 along hole within 1.5 "
               "degrees of horizontal where depth hardly changes"]

DIRS = [(0.0, 0.0), (0.001, 80.0), (0.5, 300.0), (30.0, 0.0), (30.0, 90.0),
        (32.0, 359.0), (30.02, 0.01), (60.0, 180.0), (80.0, 45.0),
        (88.5, 225.0), (89.5, 226.0)]
QUICK = [0, 1, 3, 4, 6, 8, 10]
FRACS = [0.0, 1e-6, 0.125, 1 / 3, 0.5, 0.77, 0.999999, 1.0]
LEGS = [(30.0, 60.0, 10.0), (300.0, 0.5, 90.0)]
RISE = [(0.0, 0.0), (60.0, 20.0), (85.0, 30.0), (90.0, 35.0), (95.0, 40.0),
        (120.0, 60.0), (175.0, 10.0)]
RISE_LEGS = [(100.0,) * 4, (30.0, 250.0, 5.0, 90.0)]
RISE_START = [(0.0, 0.0, 0.0), (20.0, -50.0, 1000.0)]
STEPS = [10.0, 7.3, 0.1 * 300, 1000.0]
CFG = [dict(ref="grid", conv=0.0, unit="meters", sn=[0., 0., 0.],
            sx=[0., 0., 0.], md0=0.0),
       dict(ref="true", conv=2.5, unit="meters", sn=[100., -50., 20.],
            sx=[0., 0., 0.], md0=17.5),
       dict(ref="magnetic", conv=-1.0, unit="feet", sn=[-7., 8., 900.],
            sx=[3., 2., 1.], md0=0.0),
       dict(ref="true", conv=1.0, unit="feet", sn=[0., 0., -30.],
            sx=[0., 0., 0.], md0=1000.1)]


def BOUNDS(tier):
    return {"paths": f"all paths of 3 stations over {len(QUICK)} directions"
                     + ("" if tier == "quick" else
                        f", of 3 over {len(DIRS)}, of 4 over {len(QUICK)}")
                     + f", x {len(LEGS)} leg lists",
            "long paths": "tours of every pair of directions, in every "
                          "configuration",
            "rising paths": f"all of {4 if tier == 'quick' else 5} stations "
                            f"over {RISE} with a rising direction",
            "depth subdivision": FRACS, "steps": STEPS,
            "configurations": len(CFG)}


def units(tier):
    if tier == "quick":
        return ([[i, j, 3, 0] for i in QUICK for j in QUICK]
                + [["rise", i, j, 4] for i in range(len(RISE))
                   for j in range(len(RISE))]
                + [["long", q, 0, 0] for q in range(len(CFG))])
    full = range(len(DIRS))
    return ([[i, j, 3, 1] for i in full for j in full]
            + [[i, j, 4, 0] for i in QUICK for j in QUICK]
            + [["long", q, 0, 1] for q in range(len(CFG))]
            + [["rise", i, j, n] for n in (4, 5) for i in range(len(RISE))
               for j in range(len(RISE))])


def run(unit, rec):
    repo.load()
    if unit[0] == "rise":
        return rising(unit, rec)
    i, j, n, full = unit
    if i == "long":
        for L in LEGS:
            st = long_path([v / 4 for v in L], CFG[j]["md0"], DIRS,
                           lambda a, b: True)
            path(rec, st, CFG[j], 1, 0, 900)
        return
    dd = DIRS if full else [DIRS[q] for q in QUICK]
    c = i + j
    for rest in product(dd, repeat=n - 2):
        dirs = [DIRS[i], DIRS[j], *rest]
        for L in LEGS:
            c += 1
            cfgs = CFG if full else [CFG[c % 4], CFG[(c + 1) % 4]]
            for cfg in cfgs:
                md = [cfg["md0"]]
                for q in range(n - 1):
                    md.append(round(md[-1] + L[q], 9))
                path(rec, [(m, *d) for m, d in zip(md, dirs)], cfg, full, c)
    rec.sample({"first directions": [DIRS[i], DIRS[j]], "fractions": FRACS})


def rising(unit, rec):
    _, i, j, n = unit
    c = i + j
    for rest in product(RISE, repeat=n - 2):
        dirs = [RISE[i], RISE[j], *rest]
        if not any(d[0] > 90 for d in dirs):
            continue
        c += 1
        L, start = RISE_LEGS[c % 2], RISE_START[c // 2 % 2]
        st = [(sum(L[:q]), *dirs[q]) for q in range(n)]
        m, inc, azi = rad(st)
        pos = ref.walk(m, inc, azi, start)
        key = {"rising": st, "start": start}
        rec.state(repr(key))
        with rec.case(key):
            s = survey(st, header(), start_nev=list(start))
        for k in range(n - 1):
            for f in (0.0, 0.125, 0.5, 0.77, 1.0):
                x = m[k] + f * (m[k + 1] - m[k])
                tvd = ref.at_md(m, inc, azi, pos, x)[0][2]
                q = dict(key, leg=k, f=f)
                rec.trans()
                with rec.case(q):
                    nd = s.interpolate_tvd(tvd)
                    rec.close(nd.pos_nev[2], tvd, q, "depth", 0, 1e-4)
                    rec.check(m[0] - 1e-6 <= nd.md <= m[-1] + 1e-6, q,
                              lambda: f"measured depth {nd.md}")
                    pr, tr = ref.at_md(m, inc, azi, pos,
                                       min(max(nd.md, m[0]), m[-1]))
                    rec.close(nd.pos_nev, pr, q, "position on the path",
                              0, 1e-4)
                    rec.close(nd.vec_nev, tr, q, "direction", 0, 1e-5)
                    rec.outcome("rising")
                    if min(abs(nd.md - v) for v in m) > 1e-3:
                        rec.check(nd.interpolated, q, "not marked as "
                                  "interpolated")
        for step in (17.0, 60.0, 1000.0):
            q = dict(key, step=step)
            rec.trans()
            with rec.case(q):
                rec.outcome("rising, resampled")
                risen(rec, q, s.interpolate_survey_tvd(step=step), m, inc,
                      azi, pos, step)
        rec.trace()
    rec.sample({"rising": [RISE[i], RISE[j]]})


def crossings(m, inc, azi, pos, step):
    """Depths along the path at which it meets a level."""
    out = []
    for k in range(len(m) - 1):
        # depth turns at most once in a leg of less than half a circle
        x = np.linspace(m[k], m[k + 1], 201)
        z = [ref.at_md(m, inc, azi, pos, v)[0][2] - pos[0][2] for v in x]
        for a, b, za, zb in zip(x, x[1:], z, z[1:]):
            lo, hi = sorted((za, zb))
            for lv in range(int(math.ceil(lo / step)),
                            int(math.floor(hi / step)) + 1):
                # well inside the piece, so that it is a clean crossing
                if lo + 1e-6 < lv * step < hi - 1e-6:
                    out.append((a, b, lv * step))
    return out


def risen(rec, q, r, m, inc, azi, pos, step):
    got = [float(x) for x in r.md]
    rec.check(all(b > a for a, b in zip(got, got[1:])), q,
              lambda: f"depths decrease: {got}")
    for x in m:
        rec.check(min(abs(g - x) for g in got) < 1e-3 + 1.1e-5 * x, q,
                  f"station at {x} missing from {got}")
    w = [ref.at_md(m, inc, azi, pos, min(max(g, m[0]), m[-1])) for g in got]
    rec.close(nev(r), [a for a, _ in w], q, "positions", 0, 2e-3)
    rec.close(r.vec_nev, [b for _, b in w], q, "directions", 0, 1e-4)
    for g, t, flag in zip(got, r.tvd, r.interpolated):
        near = min(abs(g - x) for x in m)
        z = (float(t) - pos[0][2]) / step
        rec.check(near < 1e-3 + 1.1e-5 * g or abs(z - round(z)) * step
                  < 2e-3, q, lambda: f"unexpected station md {g} tvd {t}")
        if near < 1e-6 or near > 1e-3 + 1.1e-5 * g:
            rec.check(bool(flag) == (near > 1e-3), q,
                      lambda: f"station at {g} interpolated: {flag}")
    for a, b, lv in crossings(m, inc, azi, pos, step):
        rec.check(any(a - 1e-2 < g < b + 1e-2 for g in got), q,
                  lambda: f"no station where the path meets {lv} between "
                          f"{a} and {b}: {got}")


def path(rec, st, cfg, full, c, most=60):
    off = {"grid": 0.0, "true": cfg["conv"],
           "magnetic": cfg["conv"] - 3.0}[cfg["ref"]]
    m, inc, azi = rad(st)
    pos = ref.walk(m, inc, azi, cfg["sn"])
    key = {"st": st, "cfg": cfg}
    tol = 1e-4
    with rec.case(key):
        h = header(azi_reference=cfg["ref"], convergence=cfg["conv"],
                   declination=3.0, depth_unit=cfg["unit"])
        s = survey([(a, b, d + off) for a, b, d in st], h,
                   start_nev=list(cfg["sn"]), start_xyz=list(cfg["sx"]),
                   unit=cfg["unit"])
        rec.state(repr(key))
    for k in range(len(m) - 1):
        for f in FRACS:
            x = m[k] + f * (m[k + 1] - m[k])
            p, t = ref.at_md(m, inc, azi, pos, x)
            tvd = p[2]
            if f == 0.0:
                tvd = float(s.tvd[k])
            elif f == 1.0:
                tvd = float(s.tvd[k + 1])
            q = dict(key, leg=k, f=f)
            rec.trans()
            with rec.case(q):
                nd = s.interpolate_tvd(tvd)
                # along-hole tolerance grows where the hole is near horizontal
                at = tol / max(t[2], 1e-2)
                rec.close(nd.pos_nev[2], tvd, q, "depth", 0, tol)
                rec.close(nd.md, x, q, "measured depth", 0, at)
                pr, tr = ref.at_md(m, inc, azi, pos,
                                   min(max(nd.md, m[0]), m[-1]))
                rec.close(nd.pos_nev, pr, q, "position on the path", 0, tol)
                rec.close(nd.vec_nev, tr, q, "direction", 0, 1e-5)
                if 0.1 < f < 0.9:
                    rec.check(nd.interpolated, q,
                              "not marked as interpolated")
                elif f == 0.0 and k == 0:
                    rec.check(not nd.interpolated, q,
                              "first station marked as interpolated")
                rec.outcome("station" if f in (0.0, 1.0) else "between")
    for step in STEPS if full else [STEPS[c % 4], STEPS[(c + 2) % 4]]:
        if (pos[-1][2] - pos[0][2]) / step > most:
            continue
        q = dict(key, step=step)
        rec.trans()
        with rec.case(q):
            r = s.interpolate_survey_tvd(step=step)
            resampled(rec, q, r, m, inc, azi, pos, cfg, step)
            rec.outcome("resampled")
        start = pos[0][2] + 0.37 * min(step, pos[-1][2] - pos[0][2])
        q = dict(key, step=step, start=start)
        rec.trans()
        with rec.case(q):
            r = s.interpolate_survey_tvd(start=start, step=step)
            resampled(rec, q, r, m, inc, azi, pos, cfg, step, start)
            rec.outcome("resampled from a depth")
    rec.trace()


def resampled(rec, q, r, m, inc, azi, pos, cfg, step, start=None):
    levels = []
    k = 1 if start is None else 0
    start = pos[0][2] if start is None else start
    while start + k * step < pos[-1][2] - 1e-3:
        levels.append(start + k * step)
        k += 1
    got = [float(x) for x in r.md]
    rec.check(all(b > a + 1e-9 for a, b in zip(got, got[1:])), q,
              lambda: f"depths decrease: {got}")
    # the code takes depths within one part in 1e5 as the same station
    rec.close([got[0], got[-1]], [m[0], m[-1]], q, "ends", 1.1e-5, 1e-3)
    for x in m:
        rec.check(min(abs(g - x) for g in got) < 1e-3 + 1.1e-5 * x, q,
                  f"station at {x} missing from {got}")
    for g, flag in zip(got, r.interpolated):
        # levels within the code's tolerance of a station are that station
        near = min(abs(g - x) for x in m)
        if near < 1e-6 or near > 1e-3 + 1.1e-5 * g:
            rec.check(bool(flag) == (near > 1e-3), q,
                      lambda: f"station at {g} interpolated: {flag}")
    tv = [float(x) for x in r.tvd]
    stations = {g for g in got if min(abs(g - x) for x in m) < 1e-9}
    for lv in levels:
        rec.check(min(abs(t - lv) - 1.1e-5 * x * (x in stations)
                      for t, x in zip(tv, got)) < 2e-3, q,
                  lambda: f"no station at depth {lv}: {tv}")
    for g, t in zip(got, tv):
        ok = (min(abs(g - x) for x in m) < 1e-3
              or min((abs(t - lv) for lv in levels), default=9) < 2e-3
              or abs(t - pos[-1][2]) < 2e-3)
        rec.check(ok, q, lambda: f"unexpected station md {g} tvd {t}")
    w = [ref.at_md(m, inc, azi, pos, min(max(g, m[0]), m[-1])) for g in got]
    rec.close(nev(r), [a for a, _ in w], q, "positions", 0, 2e-3)
    rec.close(r.vec_nev, [b for _, b in w], q, "directions", 0, 1e-4)
    rec.close([r.x[0], r.y[0], r.z[0]], cfg["sx"], q, "xyz start", 0, 1e-6)
    rec.check(r.unit == cfg["unit"], q, f"unit {r.unit}")
