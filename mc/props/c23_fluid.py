"""C23: drilling fluid density profiles."""
import itertools
import math

import numpy as np

from .. import ref, repo                              # noqa: F401
from ..common import product

ID = "C23"
EXPLANATION = (
    "Every fluid of the alphabet is evaluated at every depth, temperature "
    "and applied pressure of the grid, alone and in every ordering and "
    "batching of up to three depths, and compared with the mass balance of "
    "its constituents solved by bisection, the expansion integrals taken by "
    "numerical quadrature.")
ASSUMPTIONS = ["constituent densities are the linear functions of "
               "temperature and pressure of SPE 11118 (0.052 psi per ppg-ft)",
               "the column's average density lies within the search bounds"]

OIL = (7.24032, -2.84383e-3, 2.75660e-5)
WATER = (8.63186, -3.31977e-3, 2.37170e-5)
SOLID = {"Barite": 35.0, "SPE_11118": 24.0}
RHO = [7.5, 8.7, 10.0, 12.5, 18.0]
TREF = [32.0, 60.0, 120.0]
RATIO = [0.0, 0.103, 0.2, 1.0]
DEPTH = [0.0, 1.0, 350.0, 4000.0, 10000.0, 25000.0]
DT = [-30.0, 0.0, 0.7, 60.0, 200.0]
PRES = [0.0, 1500.0]


def BOUNDS(tier):
    return {"fluids": f"{len(RHO)} densities x {len(TREF)} reference "
                      f"temperatures x {len(RATIO)} water ratios x "
                      f"{len(SOLID)} weighting materials, and given volumes",
            "depths": DEPTH, "temperature rises": DT, "pressures": PRES,
            "diesel": "every tabulated value and every cell's middle",
            "orderings": "all ordered pairs"
                         + ("" if tier == "quick" else " and triples")
                         + " of (depth, temperature)"}


def units(tier):
    return [[r, t, w, s, tier] for r in RHO for t in TREF for w in RATIO
            for s in SOLID if r > 8 or base(t, w) < r - 0.1] + [["diesel"]]


def base(t, w):
    return (w * (WATER[0] + WATER[1] * t)
            + (1 - w) * (OIL[0] + OIL[1] * t))


PSIA = [15., 3000., 7000., 10000., 12500.]
TEMP = [100., 200., 300., 350.]
DIESEL = [[6.9597, 7.0597, 7.1621, 7.2254, 7.2721],
          [6.6598, 6.7690, 6.8789, 6.9464, 6.9930],
          [6.3575, 6.4782, 6.5965, 6.6673, 6.7198],
          [6.2083, 6.3350, 6.4624, 6.5366, 6.5874]]


def diesel(F, rec):
    """Tabulated values are reproduced, values between lie between."""
    with rec.case("diesel"):
        f = F.DensityDiesel()
        for i, t in enumerate(TEMP):
            for j, p in enumerate(PSIA):
                key = {"diesel": [p, t]}
                rec.state(repr(key))
                rec.trans()
                rec.trace()
                got = np.asarray(f.get_density(p, t)).ravel()
                rec.close(got, [DIESEL[i][j]], key, "density", 0, 1e-9)
                if i + 1 < len(TEMP) and j + 1 < len(PSIA):
                    q, u = (p + PSIA[j + 1]) / 2, (t + TEMP[i + 1]) / 2
                    m = float(np.asarray(f.get_density(q, u)).ravel()[0])
                    rec.check(DIESEL[i + 1][j] < m < DIESEL[i][j + 1],
                              {"diesel": [q, u]}, f"density {m}")
        rec.outcome("diesel table")


def ratio_mean(c, t0, t1, p0, p1):
    """Average over the column of (density at top / density), with
    temperature and pressure linear in depth: Gauss-Legendre quadrature."""
    top = c[0] + c[1] * t0 + c[2] * p0
    x = (0.5 * (1 - math.sqrt(3 / 7 + 2 / 7 * math.sqrt(6 / 5))),
         0.5 * (1 - math.sqrt(3 / 7 - 2 / 7 * math.sqrt(6 / 5))))
    w = ((18 - math.sqrt(30)) / 72, (18 + math.sqrt(30)) / 72)
    out = 0.0
    n = 8
    for k in range(n):
        for xi, wi in ((x[0], w[0]), (x[1], w[1]), (1 - x[1], w[1]),
                       (1 - x[0], w[0])):
            f = (k + xi) / n
            out += wi / n * top / (c[0] + c[1] * (t0 + (t1 - t0) * f)
                                   + c[2] * (p0 + (p1 - p0) * f))
    return out


def average(rho, t0, vw, vo, d, t1, p0):
    if d == 0:
        return rho
    vs = 1 - vw - vo
    lo, hi = 1.0, 60.0
    for _ in range(60):
        m = (lo + hi) / 2
        p1 = p0 + 0.052 * m * d
        g = m * (vs + vo * ratio_mean(OIL, t0, t1, p0, p1)
                 + vw * ratio_mean(WATER, t0, t1, p0, p1)) - rho
        lo, hi = (lo, m) if g > 0 else (m, hi)
    return (lo + hi) / 2


def volumes(rho, t0, ratio, solid, p0=0.0):
    base = (ratio * (WATER[0] + WATER[1] * t0 + WATER[2] * p0)
            + (1 - ratio) * (OIL[0] + OIL[1] * t0 + OIL[2] * p0))
    s = (rho - base) / (solid - base)          # fraction of solids
    return ratio * (1 - s), (1 - ratio) * (1 - s), s


def run(unit, rec):
    repo.load()
    import welleng.fluid as F
    if unit == ["diesel"]:
        return diesel(F, rec)
    rho, t0, ratio, mat, tier = unit
    with rec.case({"fluid": unit[:4]}):
        f = F.Fluid(rho, reference_temp=t0, base_fluid_water_ratio=ratio,
                    weighting_material=mat)
        vw, vo, vs = volumes(rho, t0, ratio, SOLID[mat])
        key = {"fluid": unit[:4], "what": "volumes"}
        rec.close([f.volume_water_reference_relative,
                   f.volume_oil_reference_relative,
                   f.volume_weighting_material_relative], [vw, vo, vs], key,
                  "relative volumes", 1e-12, 1e-12)
        profile(rec, f, unit, vw, vo, tier)
        f2 = F.Fluid(rho, t0, reference_pressure=800.0,
                     base_fluid_water_ratio=ratio, weighting_material=mat)
        w2 = volumes(rho, t0, ratio, SOLID[mat], 800.0)
        rec.close([f2.volume_water_reference_relative,
                   f2.volume_oil_reference_relative,
                   f2.volume_weighting_material_relative], w2,
                  dict(key, pressure=800), "relative volumes at pressure",
                  1e-12, 1e-12)
        if mat == "Barite" and ratio == 0.103:
            # volumes measured by the user
            f.volume_water_reference_relative = 0.09
            f.volume_oil_reference_relative = 0.78
            f.volume_weighting_material_relative = 0.13
            profile(rec, f, unit[:3] + ["given volumes"], 0.09, 0.78, tier)
    rec.sample({"fluid": unit[:4]})


def profile(rec, f, unit, vw, vo, tier):
    rho, t0 = unit[0], unit[1]
    pts = [(d, t0 + dt) for d in DEPTH for dt in DT]
    for p0 in PRES:
        want = {}
        for d, t in pts:
            key = {"fluid": unit[:4], "depth": d, "temperature": t,
                   "pressure": p0}
            rec.state(repr(key))
            rec.trans()
            rec.trace()
            w = want[d, t] = average(rho, t0, vw, vo, d, t, p0)
            with rec.case(key):
                got = f.get_density_profile(d, t, p0)
                rec.check(isinstance(got, list), key, "not a list")
                rec.close(got, [w], key, "density", 0, 2e-5)
                if w < rho - 1e-9:
                    rec.outcome("lighter than at surface")
                elif w > rho + 1e-9:
                    rec.outcome("denser than at surface")
                else:
                    rec.outcome("as at surface")
                if d in (0.0, 4000.0):
                    got = f.get_density_profile(d, t, p0, (w - .7, w + 1.9))
                    rec.close(got, [w], dict(key, bounds=True), "density "
                              "with other bounds", 0, 2e-5)
        small = [(d, t0 + dt) for d in (0.0, 350.0, 10000.0)
                 for dt in (-30.0, 0.0, 60.0)]
        sizes = (2,) if tier == "quick" else (2, 3)
        forms = (list, tuple, np.array)
        for n in sizes:
            for k, combo in enumerate(itertools.permutations(small, n)):
                key = {"fluid": unit[:4], "batch": combo, "pressure": p0}
                ds, ts = zip(*combo)
                form = forms[k % 3]
                rec.trans()
                with rec.case(key):
                    a, b = form(list(ds)), form(list(ts))
                    got = f.get_density_profile(a, b, p0)
                    rec.close(got, [want[c] if c in want else average(
                        rho, t0, vw, vo, *c, p0) for c in combo], key,
                        "batch", 0, 2e-5)
                    rec.check(tuple(a) == ds and tuple(b) == ts, key,
                              "arguments changed")
    # whole numbers
    key = {"fluid": unit[:4], "whole": True}
    with rec.case(key):
        got = f.get_density_profile([0, 1000], [int(t0), int(t0) + 40])
        rec.close(got, [rho, average(rho, t0, vw, vo, 1000, t0 + 40, 0.)],
                  key, "whole numbers", 0, 2e-5)
    # a surface point is the fluid itself, whatever its temperature
    with rec.case(key):
        rec.close(f.get_density_profile(0.0, t0 + 100), [rho], key,
                  "surface density", 0, 1e-5)
