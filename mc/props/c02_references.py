"""C02: azimuth reference and angle unit do not change the well."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, nev, product, tour, D

ID = "C02"
EXPLANATION = (
    "For every path of the alphabet and every header (convergence, "
    "declination) the same well is handed over in all 3 references x 2 angle "
    "units x 2 header units; all 12 real surveys are compared with each "
    "other through the reference model.  A state is (path, header, "
    "representation), a transition switches one representation choice.")
ASSUMPTIONS = ["true = grid + convergence, magnetic = true - declination"]

DIRS = [(0.0, 0.0), (0.5, 359.0), (30.0, 1.0), (30.0, 181.0), (90.0, 269.0),
        (100.0, 359.9)]
CONV = [0.0, 1.5, -3.25]
DECL = [0.0, 4.0, -11.5, 170.0]


def BOUNDS(tier):
    return {"paths": f"all paths of {3 if tier == 'quick' else 4} stations "
            f"over {len(DIRS)} directions, and tours of all their pairs",
            "convergence": CONV,
            "declination": DECL,
            "representations": "3 references x deg/rad survey x deg/rad "
            "header"}


def long_path(k):
    """A long well through every pair of directions, from the k-th on."""
    d = DIRS[k:] + DIRS[:k]
    return tour(d, lambda a, b: ref.angle(
        ref.vec(D(a[0]), D(a[1])), ref.vec(D(b[0]), D(b[1]))) <= 3.0)


def units(tier):
    return [[c, d, k, tier] for c in CONV for d in DECL
            for k in range(len(DIRS))]


def same_angle(g, w, tol=1e-9):
    g = np.asarray(g, float)
    w = np.asarray(w, float)
    return g.shape == w.shape and bool(
        np.all(np.abs(np.arctan2(np.sin(g - w), np.cos(g - w))) < tol))


def run(unit, rec):
    S = repo.load().survey
    conv, decl, k, tier = unit
    n = 3 if tier == "quick" else 4
    hdrs = {}
    for r in ("grid", "true", "magnetic"):
        hdrs[r, True] = header(azi_reference=r, convergence=conv,
                               declination=decl,
                               vertical_section_azimuth=33.0)
        hdrs[r, False] = header(
            azi_reference=r, convergence=D(conv), declination=D(decl),
            dip=D(70.0), vertical_inc_limit=D(0.0001), deg=False,
            vertical_section_azimuth=D(33.0))
    for h in hdrs.values():
        rec.close([h.convergence, h.declination, h.dip,
                   h.vertical_section_azimuth],
                  [D(conv), D(decl), D(70.0), D(33.0)],
                  {"header": [conv, decl]}, "header angles in radians",
                  1e-12, 1e-12)
    for rest in [*product(DIRS, repeat=n - 1), None]:
        dirs = [DIRS[k], *rest] if rest else long_path(k)
        if any(ref.angle(ref.vec(D(a[0]), D(a[1])),
                         ref.vec(D(b[0]), D(b[1]))) > 3.0
               for a, b in zip(dirs, dirs[1:])):
            continue
        md = [0.0]
        for q in range(len(dirs) - 1):
            md.append(md[-1] + (30.0, 250.0, 77.0)[q % 3])
        inc = [d[0] for d in dirs]
        grid = [d[1] for d in dirs]
        base = None
        want = ref.walk(md, [D(i) for i in inc], [D(a) for a in grid],
                        (5.0, -6.0, 7.0))
        for (r, hdeg), h in hdrs.items():
            given = {"grid": grid,
                     "true": [a + conv for a in grid],
                     "magnetic": [a + conv - decl for a in grid]}[r]
            for deg in (True, False):
                for shift in (0, 1):
                    if shift and (deg is False or hdeg is False):
                        continue
                    key = {"dirs": dirs, "conv": conv, "decl": decl,
                           "ref": r, "header_deg": hdeg, "deg": deg,
                           "plus360": shift}
                    rec.state(repr(key))
                    rec.trans()
                    az = [a + 360.0 * shift * (i % 2)
                          for i, a in enumerate(given)]
                    with rec.case(key):
                        s = S.Survey(
                            md=md, inc=inc if deg else [D(x) for x in inc],
                            azi=az if deg else [D(x) for x in az],
                            header=h, deg=deg, start_nev=[5., -6., 7.])
                        compare(rec, key, s, md, inc, grid, conv, decl, want)
                        if base is None:
                            base = s
                        else:
                            against(rec, key, s, base)
                        rec.trace()
                        rec.outcome(f"{r}/{'deg' if deg else 'rad'}")
    rec.sample({"convergence": conv, "declination": decl,
                "first direction": DIRS[k]})


def compare(rec, key, s, md, inc, grid, conv, decl, want):
    rec.close(nev(s), want, key, "N/E/TVD", 0, 1e-6)
    g = np.radians(grid)
    gz = np.asarray(s.azi_grid_rad, float)
    for name, arr, w in (
            ("azi_grid_rad", s.azi_grid_rad, g),
            ("azi_grid_deg", np.radians(s.azi_grid_deg), g),
            ("azi_true_rad", s.azi_true_rad, g + D(conv)),
            ("azi_true_deg", np.radians(s.azi_true_deg), g + D(conv)),
            ("azi_mag_rad", s.azi_mag_rad, g + D(conv) - D(decl)),
            ("azi_mag_deg", np.radians(s.azi_mag_deg), g + D(conv) - D(decl)),
            ("survey_rad", s.survey_rad[:, 2], g),
            ("survey_deg", np.radians(s.survey_deg[:, 2]), g)):
        rec.check(same_angle(arr, w), key,
                  lambda: f"{name}: {list(np.asarray(arr))} expected {list(w)}")
    rec.close(s.inc_deg, inc, key, "inc_deg", 0, 1e-9)
    rec.close(s.inc_rad, np.radians(inc), key, "inc_rad", 0, 1e-11)
    rec.close(s.survey_deg[:, :2], np.column_stack([md, inc]), key,
              "survey_deg", 0, 1e-9)
    rec.close(s.survey_rad[:, :2], np.column_stack([md, np.radians(inc)]),
              key, "survey_rad", 0, 1e-9)


def against(rec, key, s, b):
    for name, tol in (("vec_nev", 1e-9), ("vec_xyz", 1e-9), ("dogleg", 1e-7),
                      ("dls", 1e-5), ("pos_nev", 1e-6), ("pos_xyz", 1e-6),
                      ("build_rate", 1e-4), ("turn_rate", 1e-4)):
        x, y = np.asarray(getattr(s, name)), np.asarray(getattr(b, name))
        # a station's rate takes its toolface from the leg below and its
        # curvature from the leg above: defined where both turn
        if name in ("build_rate", "turn_rate"):
            ok = (b.dogleg > 1e-5) & (b.inc_rad > 1e-3)
            ok[:-1] &= b.dogleg[1:] > 1e-5
            x, y = x[ok], y[ok]
        rec.close(x, y, key, f"{name} differs from grid/deg", 1e-6, tol)
    turn = b.dogleg[1:] > 1e-6
    rec.check(same_angle(s.toolface[:-1][turn], b.toolface[:-1][turn], 1e-6),
              key, lambda: f"toolface {s.toolface} vs {b.toolface}")
