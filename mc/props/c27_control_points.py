"""C27: toolfaces, rates, control points and listings describe the path."""
import io
import math
import os
import tempfile

import numpy as np

from .. import ref, repo
from ..common import header, survey, nev, product
from ..core import Skip

ID = "C27"
EXPLANATION = (
    "Two trees are explored.  Paths: every sequence of directions, in both "
    "units and every azimuth reference; the toolface, curvature radius, "
    "build and turn rate and the plane of every leg are compared with the "
    "analytic derivative of the circular arc.  Plans: every sequence of hold "
    "and curve sections, each cut into one or more legs; the extracted "
    "control points are compared with a list model of the plan (tie-on, then "
    "the end of every section), rebuilt to the same path, and the listings "
    "(data frame, exported table and file) read back against the survey.")
ASSUMPTIONS = [
    "a leg turns by less than 170 degrees",
    "toolfaces of straight legs and turn rates at vertical stations are "
    "undefined",
    "sections of a plan lie in planes that are equal or differ by more than "
    "5 degrees (the tolerance given is 1e-3)",
    "survey rates and the build rates of control points are magnitudes, the "
    "turn rates of control points are signed (positive to the right)",
    "sections in a plane through the vertical do not pass the vertical"]

D = math.radians
DIRS = [(0.0, 15.0), (30.0, 358.0), (32.0, 4.0), (90.0, 10.0), (90.0, 300.0),
        (120.0, 250.0), (30.0, 40.0)]
LEG = [30.0, 250.0, 101.3, 77.0]
CFG = [("grid", 0.0, "meters"), ("true", 2.5, "feet"),
       ("magnetic", -1.5, "meters"), ("grid", 1.0, "feet")]
DECL = 4.0
STARTS = [(0.0, 25.0), (40.0, 350.0), (60.0, 100.0), (90.0, 200.0)]
# name, toolface, total turn in degrees, turn per 100 length
SECTIONS = [("hold", None, 0.0, 0.0), ("build", 0.0, 20.0, 10.0),
            ("drop", 180.0, 15.0, 10.0), ("right", 70.0, 24.0, 10.0),
            ("left", -110.0, 24.0, 8.0), ("faster", 0.0, 20.0, 14.0),
            ("round", 90.0, 240.0, 20.0)]


# deviations (inclination, azimuth) from a hold or a steady build
WOBBLE = [(0.0, 0.0), (0.8, 0.0), (0.0, -1.5), (-0.5, 2.0)]


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return {"paths": f"all sequences of {n + 1} out of {len(DIRS)} "
                     f"directions, {len(CFG)} configurations of unit and "
                     "azimuth reference",
            "plans": f"all sequences of up to {n} out of {len(SECTIONS)} "
                     f"sections from {len(STARTS)} starts, sections of 1 to "
                     "4 legs (12 for a turn of 240 degrees)",
            "wobbling surveys": f"all sequences of {n + 1} out of "
                                f"{len(WOBBLE)} deviations, listed",
            "control points": "with and without continuity of curvature"}


def units(tier):
    n = 3 if tier == "quick" else 4
    return ([["path", i, j, n + 1] for i in range(len(DIRS))
             for j in range(len(DIRS))]
            + [["plan", i, j, n] for i in range(len(STARTS))
               for j in range(len(SECTIONS))]
            + [["wobble", i, j, n] for i in range(len(STARTS))
               for j in range(len(WOBBLE))])


def off(name, conv):
    return {"grid": 0.0, "true": conv, "magnetic": conv - DECL}[name]


def build(st, cfg, start=(0.0, 0.0, 0.0)):
    name, conv, unit = cfg
    h = header(azi_reference=name, convergence=conv, declination=DECL,
               depth_unit=unit)
    o = off(name, conv)
    return survey([(m, i, (a + o) % 360) for m, i, a in st], h, unit=unit,
                  start_nev=list(start))


def run(unit, rec):
    if unit[0] == "path":
        _, i, j, n = unit
        for rest in product(range(len(DIRS)), repeat=n - 2):
            q = [i, j, *rest]
            m, st = 12.5, []
            for k, d in enumerate(q):
                st.append((m, *DIRS[d]))
                m += LEG[(k + sum(q)) % 4]
            path(rec, st, CFG[sum(q) % 4])
        rec.sample({"directions": [DIRS[i], DIRS[j]]})
        return
    if unit[0] == "wobble":
        _, i, j, n = unit
        for rest in product(range(len(WOBBLE)), repeat=n):
            q = [j, *rest]
            inc, azi = STARTS[i]
            build_ = (0.0, 2.0)[sum(q) % 2]
            m, st = 100.0, []
            for k, d in enumerate([0, *q]):
                st.append((m, inc + k * build_ + WOBBLE[d][0],
                           (azi + WOBBLE[d][1]) % 360.0))
                m += LEG[(k + sum(q)) % 4]
            if i == 0:
                st = [(a, b + 3.0, c) for a, b, c in st]
            cfg = CFG[(i + sum(q)) % 4]
            key = {"wobble": st, "cfg": cfg, "sections": q}
            rec.state(repr(key))
            rec.trans()
            with rec.case(key):
                listing(rec, key, build(st, cfg, (50.0, -20.0, 90.0)), st,
                        cfg, 0)
                rec.trace()
                rec.outcome("wobbling")
        rec.sample({"wobble from": STARTS[i]})
        return
    _, i, j, n = unit
    for k in range(n):
        for rest in product(range(len(SECTIONS)), repeat=k):
            q = [j, *rest]
            plan(rec, STARTS[i], q, CFG[(i + sum(q)) % 4])
    rec.sample({"start": STARTS[i], "first section": SECTIONS[j][0]})


# ----------------------------------------------------------------- paths

def path(rec, st, cfg):
    key = {"stations": st, "cfg": cfg}
    v = [ref.vec(D(i), D(a)) for _, i, a in st]
    if any(ref.angle(a, b) > D(170) for a, b in zip(v, v[1:])):
        rec.outcome("turn of more than 170 degrees")
        return
    rec.state(repr(key))
    rec.trans(len(st) - 1)
    with rec.case(key):
        s = build(st, cfg)
        describe(rec, key, s, st, cfg)
        rec.trace()
        rec.outcome("path")


def describe(rec, key, s, st, cfg):
    """The attributes of a survey against its arcs."""
    n = len(st)
    per = 30.0 if cfg[2] == "meters" else 100.0
    v = [ref.vec(D(i), D(a)) for _, i, a in st]
    nrm = []
    for k in range(n - 1):
        th = ref.angle(v[k], v[k + 1])
        L = st[k + 1][0] - st[k][0]
        rec.close(s.dls[k + 1], math.degrees(th) / L * per, key,
                  f"curvature {k + 1}", 1e-6, 1e-6)
        if th < 1e-6:
            rec.close([abs(s.build_rate[k + 1]),
                       abs(np.nan_to_num(s.turn_rate[k + 1]))
                       if st[k + 1][1] else 0.0], [0.0, 0.0], key,
                      f"rates of a straight leg {k + 1}", 0, 1e-4)
            nrm.append(None)
            continue
        nn = ref.unit(ref.cross(v[k], v[k + 1]))
        nrm.append(nn)
        rec.close(s.normals[k], nn, key, f"normal {k}", 0, 1e-7)
        rec.close(s.curve_radius[k + 1], L / th, key, f"radius {k + 1}",
                  1e-6, 1e-6)
        # into the turn, and out of it
        rec.close(ref.wrap(float(s.toolface[k]) - towards(
            v[k], D(st[k][2]), v[k + 1])), 0.0, key, f"toolface {k}", 0, 1e-6)
        if st[k + 1][1] > 0.0:
            ahead = ref.sub(ref.mul(v[k + 1], 2 * math.cos(th)), v[k])
            tf = towards(v[k + 1], D(st[k + 1][2]), ahead)
            rate = math.degrees(th / L) * per
            rec.close(abs(s.build_rate[k + 1]), abs(rate * math.cos(tf)),
                      key, f"build rate {k + 1}", 1e-6, 1e-6)
            rec.close(abs(s.turn_rate[k + 1]),
                      abs(rate * math.sin(tf) / math.sin(D(st[k + 1][1]))),
                      key, f"turn rate {k + 1}", 1e-6, 1e-6)
            if k == n - 2:
                rec.close(ref.wrap(float(s.toolface[k + 1]) - tf), 0.0, key,
                          "toolface at the end", 0, 1e-6)
    rec.close(s.build_rate[0], 0.0, key, "build rate 0", 0, 1e-9)
    for k in range(n):
        nn = nrm[max(k - 1, 0)]
        if nn is not None:
            rec.close(s.vec_radius_nev[k], ref.cross(nn, v[k]), key,
                      f"radius vector {k}", 0, 1e-7)
    frame(rec, key, s, st, cfg, nrm)


def frame(rec, key, s, st, cfg, nrm):
    S = repo.load().survey
    df = S.survey_to_df(s)
    u, per = ("m", "30m") if cfg[2] == "meters" else ("ft", "100ft")
    p = ref.walk([m for m, _, _ in st], [D(i) for _, i, _ in st],
                 [D(a) for _, _, a in st])
    cols = {f"MD ({u})": [m for m, _, _ in st],
            "INC (deg)": [i for _, i, _ in st],
            f"NORTHING ({u})": [q[0] for q in p],
            f"EASTING ({u})": [q[1] for q in p],
            f"TVDSS ({u})": [q[2] for q in p],
            f"X ({u})": [q[1] for q in p], f"Y ({u})": [q[0] for q in p],
            f"Z ({u})": [q[2] for q in p]}
    for c, w in cols.items():
        if rec.check(c in df, key, f"no column {c}"):
            rec.close(df[c].values, w, key, c, 0, 1e-5)
    for c, o in (("AZI_GN (deg)", 0.0), ("AZI_TN (deg)", cfg[1])):
        d = [math.degrees(ref.wrap(D(g - a - o)))
             for g, (_, _, a) in zip(df[c].values, st)]
        rec.close(d, [0.0] * len(st), key, c, 0, 1e-6)
    rec.close(df[f"DLS (deg/{per})"].values, s.dls, key, "DLS", 0, 1e-12)
    for c, w in (("BUILD RATE (deg)", s.build_rate),
                 ("TURN RATE (deg)", s.turn_rate)):
        rec.close(df[c].values, np.nan_to_num(w), key, c, 0, 1e-12)
    for k, nn in enumerate(nrm):
        if nn is not None:
            rec.close(ref.wrap(D(df["TOOLFACE (deg)"].values[k])
                               - float(s.toolface[k])), 0.0, key,
                      "TOOLFACE", 0, 1e-9)
    rec.check(np.all((df["TOOLFACE (deg)"].values >= 0)
                     & (df["TOOLFACE (deg)"].values < 360 + 1e-9)), key,
              "toolface out of range")


def towards(v, azi, w):
    """Angle, clockwise from the high side at azimuth azi, in which w lies."""
    i, _ = ref.inc_azi(v)
    hs = (math.cos(i) * math.cos(azi), math.cos(i) * math.sin(azi),
          -math.sin(i))
    rs = (-math.sin(azi), math.cos(azi), 0.0)
    return math.atan2(ref.dot(w, rs), ref.dot(w, hs))


# ----------------------------------------------------------------- plans

def plan(rec, start, q, cfg):
    names = [SECTIONS[k][0] for k in q]
    key = {"start": start, "sections": names, "cfg": cfg}
    per = 30.0 if cfg[2] == "meters" else 100.0
    v, azi = ref.vec(D(start[0]), D(start[1])), D(start[1])
    m = 100.0
    st = [(m, *start)]
    sec = []            # first station, last station, normal, rate
    for c, k in enumerate(q):
        name, tf, turn, rate = SECTIONS[k]
        a = len(st) - 1
        legs = 12 if name == "round" else 1 + (c + sum(q)) % 4
        if name == "hold":
            for _ in range(legs):
                m += 70.0 / legs
                st.append((m, *st[-1][1:]))
            sec.append((a, len(st) - 1, None, 0.0))
            continue
        i, _ = ref.inc_azi(v)
        if name == "round" and abs(i - D(90)) > 1e-9:
            return                # only in a horizontal hole
        hs = (math.cos(i) * math.cos(azi), math.cos(i) * math.sin(azi),
              -math.sin(i))
        rs = (-math.sin(azi), math.cos(azi), 0.0)
        u = ref.add(ref.mul(hs, math.cos(D(tf))), ref.mul(rs, math.sin(D(tf))))
        if name == "drop" and i < D(20.0):
            return                # would pass the vertical
        if name in ("build", "faster") and i > D(150.0):
            return
        length = turn / rate * 100.0
        v0 = v
        for x in range(1, legs + 1):
            th = D(turn) * x / legs
            v = ref.add(ref.mul(v0, math.cos(th)), ref.mul(u, math.sin(th)))
            ii, azi = ref.inc_azi(v)
            st.append((m + length * x / legs, math.degrees(ii),
                       math.degrees(azi) % 360))
        m += length
        sec.append((a, len(st) - 1, ref.unit(ref.cross(v0, u)),
                    turn / length * per))
    rec.state(repr(key))
    rec.trans(len(q))
    with rec.case(key):
        s = build(st, cfg, (10.0, -20.0, 30.0))
        for cont in (False, True):
            points(rec, dict(key, continuous=cont), s, st, sec, cont, per,
                   cfg)
        listing(rec, key, s, st, cfg, sum(q))
        rec.trace()
        rec.outcome(f"plan of {len(q)}")


def merged(sec, cont):
    """The sections that can be told apart."""
    out = []
    for a, b, n, r in sec:
        if out:
            p = out[-1]
            if n is None and p[2] is None:
                p[1] = b
                continue
            if n is not None and p[2] is not None:
                d = max(abs(x - y) for x, y in zip(n, p[2]))
                if 1e-9 <= d <= 0.05:
                    raise Skip
                if d < 1e-9 and not (cont and abs(r - p[3]) > 0.02):
                    p[1], p[3] = b, r
                    continue
        out.append([a, b, n, r])
    return out


def points(rec, key, s, st, sec, cont, per, cfg):
    S = repo.load().survey
    tps = S.get_sections(s, rtol=1e-3, atol=1e-3, dls_cont=cont)
    want = merged(sec, cont)
    p = ref.walk([x[0] for x in st], [D(x[1]) for x in st],
                 [D(x[2]) for x in st], (10.0, -20.0, 30.0))
    if not rec.check(len(tps) == len(want) + 2, key,
                     lambda: f"{[t.md for t in tps]} for sections "
                     f"{[(st[a][0], st[b][0]) for a, b, _, _ in want]}"):
        return
    rec.check([bool(t.tie_on) for t in tps]
              == [True] + [False] * (len(tps) - 1), key, "tie-on flags")
    ends = [0, 0] + [w[1] for w in want]
    for k, (t, e) in enumerate(zip(tps, ends)):
        rec.close([t.md, t.inc], st[e][:2], key, f"point {k}", 0, 1e-6)
        rec.close(math.degrees(ref.wrap(D(t.azi - st[e][2]))), 0.0, key,
                  f"azimuth of point {k}", 0, 1e-6)
        rec.close(t.location, [p[e][1], p[e][0], -p[e][2]], key,
                  f"location of point {k}", 0, 1e-5)
        rec.check(str(t.method) == ("2" if k < 2 else "920"), key,
                  lambda: f"method {t.method!r} of point {k}")
        if k < 2 or want[k - 2][2] is None:
            rec.close([t.dls, t.toolface, t.build_rate, t.turn_rate],
                      [0.0] * 4, key, f"rates of point {k}", 0, 1e-12)
            continue
        a, b, n, r = want[k - 2]
        L = st[b][0] - st[a][0]
        turn = sum(math.degrees(ref.wrap(D(y[2] - x[2])))
                   for x, y in zip(st[a:b], st[a + 1:b + 1]))
        rec.close(t.dls, r, key, f"curvature of point {k}", 1e-6, 1e-6)
        rec.close(abs(t.build_rate), abs(st[b][1] - st[a][1]) / L * per, key,
                  f"build rate of point {k}", 1e-6, 1e-6)
        rec.close(t.turn_rate, turn / L * per, key,
                  f"turn rate of point {k}", 1e-6, 1e-6)
        v0 = ref.vec(D(st[a][1]), D(st[a][2]))
        tf = towards(v0, D(st[a][2]), ref.vec(D(st[a + 1][1]),
                                              D(st[a + 1][2])))
        rec.close(math.degrees(ref.wrap(D(t.toolface) - tf)), 0.0, key,
                  f"toolface of point {k}", 0, 1e-5)
        rec.check(-180.0 - 1e-9 <= t.toolface <= 180.0 + 1e-9, key,
                  lambda: f"toolface {t.toolface}")
    # a path of one arc per section is the plan
    uniform = all(x[3] == w[3] for w in want
                  for x in sec if w[0] <= x[0] < w[1])
    small = all(abs(w[3]) * (st[w[1]][0] - st[w[0]][0]) / per < 170
                for w in want)
    if uniform and small:
        b = survey([(t.md, t.inc, t.azi) for t in tps[1:]],
                   header(azi_reference="grid", depth_unit=cfg[2]),
                   unit=cfg[2], start_nev=[10.0, -20.0, 30.0])
        rec.close(nev(b), [p[e] for e in ends[1:]], key, "rebuilt path", 0,
                  1e-4)
        rec.outcome("rebuilt")


COLS = ("MD", "INC (deg)", "AZI (deg)", "NORTHING (%s)", "EASTING (%s)",
        "TVDSS (%s)", "DLS", "TOOLFACE", "BUILD RATE", "TURN RATE")


def listing(rec, key, s, st, cfg, c):
    if c % 3 and len(key["sections"]) > 2:
        return
    S = repo.load()
    u = "m" if cfg[2] == "meters" else "ft"
    names = [x % u if "%" in x else x for x in COLS]
    for tol, cont in ((0.1, False), (5.0, c % 2 == 0)):
        q = dict(key, listing=tol, continuous=cont)
        df = S.survey.export_csv(s, None, tolerance=tol, dls_cont=cont)
        rec.check(list(df.columns) == names, q, lambda: f"{list(df.columns)}")
        t = df.values
        mds = [x[0] for x in st]
        at = [min(range(len(mds)), key=lambda k: abs(mds[k] - m))
              for m in t[:, 0]]
        rec.close(t[:, 0], [mds[k] for k in at], q, "listed depths", 0, 1e-6)
        rec.check(at[0] == 0 and at[-1] == len(st) - 1
                  and all(a < b for a, b in zip(at, at[1:])), q,
                  lambda: f"rows {at}")
        rec.close(t[:, 1], [st[k][1] for k in at], q, "listed inc", 0, 1e-6)
        rec.close([math.degrees(ref.wrap(D(a - st[k][2])))
                   for a, k in zip(t[:, 2], at)], [0.0] * len(at), q,
                  "listed azimuth", 0, 1e-6)
        pos = nev(s)
        rec.close(t[:, 3:5], pos[at][:, :2], q, "listed position", 0, 1e-6)
        rec.close(np.abs(t[:, 5]), np.abs(pos[at][:, 2]), q, "listed TVD", 0,
                  1e-6)
        b = survey([tuple(x) for x in t[:, :3]],
                   header(azi_reference="grid", depth_unit=cfg[2]),
                   unit=cfg[2], start_nev=list(pos[0]))
        far = np.max(np.abs(nev(b)[-1] - pos[-1]))
        rec.check(far <= tol * 1.02 + 1e-4, q,
                  lambda: f"listing ends {far} away from the survey")
        for dec in (3, 1):
            f = os.path.join(tempfile.gettempdir(),
                             f"c27_{os.getpid()}.csv")
            try:
                S.exchange.csv.export_csv(s, f, tolerance=tol,
                                          dls_cont=cont, decimals=dec,
                                          author="A B")
                text = open(f).read()
            finally:
                if os.path.exists(f):
                    os.remove(f)
            lines = text.split("\n")
            h = [k for k, x in enumerate(lines) if "INC (deg)" in x]
            if not rec.check(len(h) == 1, q, "no heading in the file"):
                continue
            rec.check(lines[h[0]].strip().split(",") == names, q,
                      lambda: f"heading {lines[h[0]]!r}")
            rec.check(any("A B" in x for x in lines[:h[0]]), q, "no author")
            rows = np.genfromtxt(io.StringIO("\n".join(lines[h[0] + 1:])),
                                 delimiter=",").reshape(-1, 10)
            rec.close(rows, t, q, f"file with {dec} decimals", 0,
                      0.5001 * 10 ** -dec)
