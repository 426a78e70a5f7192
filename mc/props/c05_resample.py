"""C05: resampling keeps the stations and stays on the path."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey, nev, product, D, rad
from .c04_interpolate_md import cov, long_path, turns_ok

ID = "C05"
EXPLANATION = (
    "Every path of the bounded tree is resampled with every listed step in "
    "every configuration; each resulting station list is compared with the "
    "set model (stations united with multiples of the step) and each station "
    "with the arc model.  State = (path, configuration, step), transition = "
    "one resample; a second resample of the result is a further transition.")
ASSUMPTIONS = ["legs turn by less than 170 degrees",
               "stations closer than 1e-4 length units count as one"]

DIRS = [(0.0, 0.0), (1e-5, 80.0), (30.0, 359.0), (32.0, 3.0), (89.0, 90.0),
        (90.0, 250.0), (120.0, 100.0)]
STEPS = [30.0, 10.0, 7.3, 0.1 * 300, 100 / 3, 12.345678, 1000.0]
CFG = [dict(ref="grid", conv=0.0, unit="meters", sn=[0., 0., 0.],
            sx=[0., 0., 0.], md0=0.0),
       dict(ref="true", conv=2.5, unit="meters", sn=[100., -50., 20.],
            sx=[0., 0., 0.], md0=17.5),
       dict(ref="magnetic", conv=-1.0, unit="feet", sn=[-7., 8., 9.],
            sx=[3., 2., 1.], md0=0.0),
       dict(ref="true", conv=0.0, unit="feet", sn=[0., 0., 500.],
            sx=[0., 0., 0.], md0=1000.1)]
LEGS = [(30.0, 60.0, 10.0), (100.0, 33.4, 250.7), (12.345678, 29.9, 45.0),
        (300.05, 0.5, 90.0)]


def BOUNDS(tier):
    return {"paths": f"all paths of {3 if tier == 'quick' else 4} stations "
                     f"over {len(DIRS)} directions x {len(LEGS)} leg lists",
            "long paths": "tours of every pair of directions, in every "
                          "configuration",
            "steps": STEPS, "configurations": len(CFG),
            "covariance": "absent / given / from an error model"}


def units(tier):
    return [[i, j, tier] for i in range(len(DIRS)) for j in range(len(DIRS))
            ] + [["long", q, tier] for q in range(len(CFG))]


def run(unit, rec):
    S = repo.load().survey
    i, j, tier = unit
    if i == "long":
        for q, L in enumerate(LEGS):
            path(rec, S, long_path(L, CFG[j]["md0"], DIRS), CFG[j],
                 j + q, tier)
        return
    n = 3 if tier == "quick" else 4
    c = 0
    for rest in product(DIRS, repeat=n - 2):
        dirs = [DIRS[i], DIRS[j], *rest]
        for li, L in enumerate(LEGS):
            cfgs = [CFG[c % 4]] if tier == "quick" else CFG
            c += 1
            for cfg in cfgs:
                md = [cfg["md0"]]
                for q in range(n - 1):
                    md.append(round(md[-1] + L[q], 9))
                st = [(m, *d) for m, d in zip(md, dirs)]
                if not turns_ok(st):
                    continue
                path(rec, S, st, cfg, c, tier)
    rec.sample({"first directions": [DIRS[i], DIRS[j]], "steps": STEPS})


def path(rec, S, st, cfg, c, tier):
    off = {"grid": 0.0, "true": cfg["conv"],
           "magnetic": cfg["conv"] - 3.0}[cfg["ref"]]
    h = header(azi_reference=cfg["ref"], convergence=cfg["conv"],
               declination=3.0, depth_unit=cfg["unit"])
    n = len(st)
    kinds = [("none", "given", "none")[c % 3]]
    if c % 16 == 0 and cfg["unit"] == "meters" and all(
            b[0] - a[0] > 5.0 for a, b in zip(st, st[1:])):
        kinds.append("model")
    for kind in kinds:
        kw = {"radius": [0.3 - 0.05 * (k % 5) for k in range(n)]}
        if kind == "given":
            kw["cov_nev"] = np.array([cov(k) for k in range(n)])
        elif kind == "model":
            if max(s[1] for s in st) > 119:
                continue
            kw["error_model"] = "ISCWSA MWD Rev5.11"
        base = {"st": st, "cfg": cfg, "cov": kind}
        with rec.case(base):
            s = survey([(m, i, a + off) for m, i, a in st], h,
                       start_nev=list(cfg["sn"]), start_xyz=list(cfg["sx"]),
                       unit=cfg["unit"], **kw)
            steps = STEPS if tier != "quick" else [
                STEPS[(c + q) % len(STEPS)] for q in range(3)]
            for step in steps:
                key = dict(base, step=step)
                rec.state(repr(key))
                rec.trans()
                with rec.case(key):
                    r = s.interpolate_survey(step=step)
                    judge(rec, key, s, r, st, cfg, step, kind)
                    rec.trace()
                    rec.outcome(f"{kind}, {len(r.md) - n} stations added"
                                if len(r.md) - n < 4 else
                                f"{kind}, many stations added")


def judge(rec, key, s, r, st, cfg, step, kind):
    m, inc, azi = rad(st)
    pos = ref.walk(m, inc, azi, cfg["sn"])
    want = set()
    k0 = math.ceil(m[0] / step - 1e-9)
    x = k0 * step
    k = k0
    while k * step < m[-1] - 1e-9:
        want.add(k * step)
        k += 1
    want = sorted(want | set(m))
    # merge what the code treats as the same depth (within 1e-4)
    merged = []
    for w in want:
        if merged and w - merged[-1] < 1.5e-4:
            if w in m:
                merged[-1] = w
            continue
        merged.append(w)
    if not rec.check(len(r.md) == len(merged), key,
                     lambda: f"depths {list(r.md)} expected {merged}"):
        return
    rec.close(r.md, merged, key, "depths", 0, 1.01e-4)
    rec.check(bool(np.all(np.diff(r.md) > 0)), key, "depths not increasing")
    rec.check(bool(np.all(np.diff(r.md) <= step + 2e-4)), key,
              "gap above the step")
    orig = [any(abs(w - o) < 1e-6 for o in m) for w in merged]
    flags = [bool(f) for f in r.interpolated]
    rec.check(flags == [not o for o in orig], key,
              lambda: f"interpolated flags {flags} expected "
                      f"{[not o for o in orig]}")
    wp, wv = [], []
    for w in merged:
        p, t = ref.at_md(m, inc, azi, pos, w)
        wp.append(p)
        wv.append(t)
    rec.close(nev(r), wp, key, "positions", 0, 2e-4)
    rec.close(r.vec_nev, wv, key, "directions", 0, 5e-6)
    rec.close([r.x[0], r.y[0], r.z[0]], cfg["sx"], key, "xyz start", 0, 1e-6)
    rec.check(r.unit == cfg["unit"], key, f"unit {r.unit}")
    rec.check(r.header.azi_reference == cfg["ref"]
              and s.header.azi_reference == cfg["ref"], key,
              "azimuth reference of the header changed")
    for q, w in enumerate(merged):
        k = 0
        while k < len(m) - 1 and w >= m[k + 1] - 1e-6:
            k += 1
        nb = {float(s.radius[k]), float(s.radius[min(k + 1, len(m) - 1)])}
        if orig[q]:
            nb = {float(s.radius[k])}
        rec.check(any(abs(float(r.radius[q]) - v) < 1e-12 for v in nb), key,
                  lambda: f"radius {r.radius[q]} at {w}, neighbours {nb}")
        if kind != "none":
            if not rec.check(r.cov_nev is not None, key, "covariance lost"):
                return
            k2 = min(k + 1, len(m) - 1)
            f = (w - m[k]) / (m[k2] - m[k]) if k2 > k else 0.0
            c = s.cov_nev[k] + (s.cov_nev[k2] - s.cov_nev[k]) * f
            rec.close(r.cov_nev[q], c, key, f"covariance at {w}", 1e-3, 1e-4)
