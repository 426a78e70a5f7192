"""C24: maximum curvature, tortuosity and difficulty analyses."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey, nev, product, rad
from .c04_interpolate_md import long_path

ID = "C24"
EXPLANATION = (
    "Every path of the bounded tree over the direction alphabet is analysed "
    "in every configuration (start coordinates, azimuth reference, depth "
    "unit) and for every noise setting; the maximum-curvature stations are "
    "compared with the half-leg arc of the stated curvature in the plane of "
    "the leg, the tortuosity and difficulty indices with an independent "
    "evaluation of their published definitions on the reference path, and "
    "with the indices of the same path turned about the vertical and moved. "
    "State = (path, configuration), transition = one analysis.")
ASSUMPTIONS = [
    "paths whose section limits are a matter of rounding (plane normals or "
    "curvatures differing by nearly the tolerance) are not compared",
    "stations have distinct depths; no leg ends where a section began"]

# none of the planes of two legs are nearly but not exactly the same
DIRS = [(0.0, 0.0), (0.0, 130.0), (3.0, 20.0), (30.0, 20.0), (30.0, 110.0),
        (33.0, 20.0), (60.0, 200.0), (90.0, 359.0), (91.5, 45.0),
        (150.0, 300.0), (40.0, 20.0)]
LEGS = [(30.0, 30.0, 30.0, 30.0), (90.0, 10.0, 200.0, 30.0)]
NOISE = [0.0, 0.5, 1.0, 60.0]
CFG = [dict(ref="grid", conv=0.0, unit="meters", sn=[0., 0., 0.], md0=0.0),
       dict(ref="true", conv=2.5, unit="meters", sn=[100., -50., 20.],
            md0=50.0),
       dict(ref="magnetic", conv=-1.0, unit="feet", sn=[-7., 8., 900.],
            md0=0.0)]
TURN = 73.0


def BOUNDS(tier):
    return {"paths": f"all paths of 4 stations over {len(DIRS)} directions "
                     f"x {len(LEGS)} leg lists"
                     + ("" if tier == "quick" else "; of 5 stations over 6"),
            "long paths": "a tour of every pair of directions, in every "
                          "configuration",
            "configurations": len(CFG), "curvature noise": NOISE}


def units(tier):
    n = len(DIRS)
    out = [[i, j, 4] for i in range(n) for j in range(n)]
    out += [["long", q, 0] for q in range(len(CFG))]
    if tier != "quick":
        out += [[i, j, 5] for i in range(n) for j in range(n)]
    return out


def run(unit, rec):
    i, j, n = unit
    if i == "long":
        dirs = DIRS[:9] + DIRS[10:]
        return path(rec, long_path(
            [10.0, 200.0, 30.0, 30.0, 77.0], CFG[j]["md0"], dirs, turns=False), CFG[j], 4)
    c = i + j
    alph = DIRS if n == 4 else [DIRS[k] for k in (0, 2, 3, 4, 6, 10)]
    for rest in product(alph, repeat=n - 2):
        dirs = [DIRS[i], DIRS[j], *rest]
        c += 1
        L = LEGS[c % 2]
        for cfg in (CFG if n == 4 and c % 5 == 0 else [CFG[c % 3]]):
            md = [cfg["md0"]]
            for q in range(n - 1):
                md.append(md[-1] + L[q])
            path(rec, [(m, *d) for m, d in zip(md, dirs)], cfg, c)
    rec.sample({"first directions": [DIRS[i], DIRS[j]], "noise": NOISE})


def build(st, cfg, turn=0.0, sn=None):
    off = {"grid": 0.0, "true": cfg["conv"],
           "magnetic": cfg["conv"] - 3.0}[cfg["ref"]]
    h = header(azi_reference=cfg["ref"], convergence=cfg["conv"],
               declination=3.0, depth_unit=cfg["unit"])
    return survey([(m, i, a + off + turn) for m, i, a in st], h,
                  start_nev=list(sn or cfg["sn"]), unit=cfg["unit"])


def path(rec, st, cfg, c):
    key = {"st": st, "cfg": cfg}
    m, inc, azi = rad(st)
    vec = [ref.vec(i, a) for i, a in zip(inc, azi)]
    dog = [0.0] + [ref.angle(a, b) for a, b in zip(vec, vec[1:])]
    if max(dog) > D175:
        rec.outcome("skipped: near reversal")
        return
    pos = ref.walk(m, inc, azi, cfg["sn"])
    per = 30.0 if cfg["unit"] == "meters" else 100.0
    dls = [0.0] + [math.degrees(d) / (b - a) * per
                   for d, a, b in zip(dog[1:], m, m[1:])]
    with rec.case(key):
        s = build(st, cfg)
        rec.state(repr(key))
    # straight legs of equal directions are exactly straight
    for noise in NOISE if c % 4 == 0 else [NOISE[c % 4]]:
        q = dict(key, noise=noise)
        rec.trans()
        with rec.case(q):
            x = s.maximum_curvature(dls_noise=noise)
            curved(rec, q, s, x, st, m, vec, dog, dls, noise, cfg, per)
    indices(rec, key, s, st, m, vec, pos, dog, dls, cfg, c)
    rec.trace()


D175 = math.radians(175)


def curved(rec, q, s, x, st, m, vec, dog, dls, noise, cfg, per):
    n = len(m)
    rec.check(len(x.md) == 2 * n - 1, q, f"{len(x.md)} stations")
    rec.close(x.md[::2], m, q, "original depths", 0, 1e-9)
    rec.close(x.md[1::2], [(a + b) / 2 for a, b in zip(m, m[1:])], q,
              "middle depths", 0, 1e-6)
    rec.close(x.inc_deg[::2], [a[1] for a in st], q, "inclinations", 0, 1e-6)
    rec.close(x.azi_grid_deg[::2] % 360, [a[2] for a in st], q, "azimuths",
              0, 1e-6)
    rec.close([x.n[0], x.e[0], x.tvd[0]], cfg["sn"], q, "start", 0, 1e-9)
    rec.check(x.unit == cfg["unit"], q, f"unit {x.unit}")
    rec.check([bool(v) for v in x.interpolated] == [False, True] * (n - 1)
              + [False], q, f"flags {list(x.interpolated)}")
    for k in range(n - 1):
        L = m[k + 1] - m[k]
        bend = math.radians((dls[k + 1] + noise) / per) * L / 2
        if bend > math.pi - 1e-6:
            bend = math.pi / 4
        v = x.vec_nev[2 * k + 1]
        rec.close(ref.angle(vec[k], v), bend, dict(q, leg=k), "half-leg bend",
                  0, 2e-7)
        if dog[k + 1] > 1e-9:
            # in the plane of the leg, on the side it turns to
            t = unit_perp(vec[k], vec[k + 1])
            want = ref.add(ref.mul(vec[k], math.cos(bend)),
                           ref.mul(t, math.sin(bend)))
            rec.close(v, want, dict(q, leg=k), "direction at the middle", 0,
                      1e-6)
            rec.outcome("bent leg")
        else:
            rec.outcome("straight leg")


def unit_perp(a, b):
    p = [y - ref.dot(a, b) * x for x, y in zip(a, b)]
    return ref.mul(p, 1 / ref.norm(p))


class Ambiguous(Exception):
    pass


def same(a, b, tol, rel):
    d = abs(a - b)
    lim = tol + rel * abs(b)
    if abs(d - lim) < 1e-6:
        raise Ambiguous
    return d < lim


def starts(vec, dog, dls, rtol, dls_tol):
    """Stations at which a section starts: plane of turning or curvature
    differ from the previous leg's."""
    nrm = []
    for a, b, d in zip(vec, vec[1:], dog[1:]):
        if d < 1e-12:
            nrm.append(None)
        else:
            if d < 1e-6:
                raise Ambiguous
            c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                 a[0] * b[1] - a[1] * b[0]]
            nrm.append(ref.mul(c, 1 / ref.norm(c)))
    out = [0]
    for k in range(1, len(nrm)):
        p, r = nrm[k - 1], nrm[k]
        if p is None or r is None:
            eq = p is None and r is None
        else:
            # evaluate all, so that every near tie is noticed
            eq = all([same(x, y, rtol, rtol) for x, y in zip(p, r)])
        if eq and dls_tol is not None:
            eq = same(dls[k], dls[k + 1], rtol, dls_tol)
        if not eq:
            out.append(k)
    return out


def sections(m, pos, st):
    """Per station: number of its section, length and chord from its start."""
    out = []
    for k in range(1, len(m)):
        j = max(i for i, s in enumerate(st) if s < k)
        s = st[j]
        chord = ref.norm([a - b for a, b in zip(pos[k], pos[s])])
        if chord < 1e-3:
            raise Ambiguous
        out.append((j + 1, m[k] - m[s], chord))
    return out


def index(m, pos, st, modified, coeff, kappa):
    sec = sections(m, pos, st)
    out = [0.0]
    done, last, prev = 0.0, 0.0, 1
    for k, (n, arc, chord) in enumerate(sec, 1):
        if n != prev:
            done, prev = last, n
        b = arc / chord - 1
        L = (m[k] - m[0]) / coeff
        if modified:
            b /= arc / coeff
            scale = kappa * L
        else:
            scale = kappa / L
        last = done + b
        out.append(n / (n + 1) * scale * last)
    return out


def indices(rec, key, s, st, m, vec, pos, dog, dls, cfg, c):
    W = repo.load().survey
    foot = 0.3048 if cfg["unit"] == "meters" else 1.0
    turned = moved = None
    with rec.case(key):
        turned = build(st, cfg, TURN)
        moved = build(st, cfg, 0.0, [5000.0, -300.0, cfg["sn"][2]])
    if moved is None:
        return
    straight = max(dog) == 0.0
    for what, kw in (("ti", {}), ("ti", {"rtol": 0.3}),
                     ("ti", {"dls_tol": 0.05}),
                     ("ti", {"coeff": 1.0, "kapa": 100.0}),
                     ("mti", {}), ("mti", {"rtol": 0.2, "dls_tol": 0.1}),
                     ("mti", {"dls_tol": None, "rtol": 0.05})):
        q = dict(key, index=what, args=kw)
        rec.trans()
        try:
            if what == "ti":
                b = starts(vec, dog, dls, kw.get("rtol", 0.01),
                           kw.get("dls_tol"))
                want = index(m, pos, b, False, kw.get("coeff", foot),
                             kw.get("kapa", 1e7))
            else:
                b = starts(vec, dog, dls, kw.get("rtol", 1.0),
                           kw.get("dls_tol", 1e-3))
                want = index(m, pos, b, True, 1.0, 1)
        except Ambiguous:
            rec.outcome("skipped: ambiguous section limits")
            continue
        with rec.case(q):
            f = [(x.tortuosity_index(**kw) if what == "ti" else
                  x.modified_tortuosity_index(dls_noise=None, **kw))
                 for x in (s, moved)]
            at = 1e-7 * (kw.get("kapa", 1e7) / 1e3 if what == "ti" else 1e-2)
            rec.close(f[0], want, q, "index", 1e-6, at)
            rec.close(f[1], want, q, "index of the moved well", 1e-5,
                      at * 10)
            rec.check(f[0][0] == 0, q, f"index at the start {f[0][0]}")
            rec.check(bool(np.isfinite(f[0]).all()), q, f"index {f[0]}")
            if straight:
                rec.close(f[0], [0.0] * len(m), q, "straight", 0, at)
            g = (W.tortuosity_index if what == "ti"
                 else W.modified_tortuosity_index)(s, data=True, **kw)
            rec.close(g["ti" if what == "ti" else "mti"], f[0], q,
                      "index in the data", 0, 0)
            rec.check(list(g["starts"]) == b, q,
                      f"sections start at {list(g['starts'])}, expected {b}")
            rec.outcome(f"{what}: {len(b)} sections")
        try:
            b2 = starts([ref.vec(ref_i, ref_a) for ref_i, ref_a in
                         zip([math.radians(x[1]) for x in st],
                             [math.radians(x[2] + TURN) for x in st])],
                        dog, dls, kw.get("rtol", 0.01 if what == "ti" else 1.),
                        kw.get("dls_tol", None if what == "ti" else 1e-3))
        except Ambiguous:
            continue
        if b2 == b:
            with rec.case(q):
                f = (turned.tortuosity_index(**kw) if what == "ti" else
                     turned.modified_tortuosity_index(dls_noise=None, **kw))
                rec.close(f, want, q, "index of the turned well", 1e-5,
                          at * 10)
    # difficulty index
    q = dict(key, index="ddi")
    ft = 1 / 0.3048 if cfg["unit"] == "meters" else 1.0
    want, run = [], 0.0
    for k in range(len(m)):
        run += math.degrees(dog[k])
        h = math.hypot(pos[k][0] - pos[0][0], pos[k][1] - pos[0][1])
        x = m[k] * ft * h * ft * run
        tvd = pos[k][2] * ft
        if h < 1e-6 or abs(tvd) < 1e-6:
            want.append(None if x or abs(tvd) < 1e-6 else 0.0)
        else:
            want.append(math.log10(x / tvd) if x / tvd > 0 else 0.0)
    rec.trans()
    with rec.case(q):
        for name, x in (("", s), (" of the turned well", turned),
                        (" of the moved well", moved)):
            f = x.directional_difficulty_index()
            rec.check(bool(np.isfinite(f).all()), q, f"index{name} {f}")
            rec.close([a for a, b in zip(f, want) if b is not None],
                      [b for b in want if b is not None], q,
                      "difficulty index" + name, 1e-6, 1e-6)
    if c % 12 == 0 and max(dog) < 2.5:
        processed(rec, key, s, W)


def processed(rec, key, s, W):
    for step, noise in ((10.0, 1.0), (30.0, 0.5), (1.0, 1.0)):
        if step == 1.0 and s.md[-1] - s.md[0] > 140:
            continue
        q = dict(key, step=step, noise=noise)
        rec.trans()
        with rec.case(q):
            a = s.modified_tortuosity_index(step=step, dls_noise=noise)
            x = s.interpolate_survey(step=step).maximum_curvature(
                dls_noise=noise)
            b = W.modified_tortuosity_index(x)
            rec.close(a, b, q, "processed index", 0, 0)
            rec.check(a[0] == 0 and bool(np.isfinite(a).all()), q,
                      f"processed index {a}")
            if step == 1.0:
                rec.close(s.modified_tortuosity_index(), a, q, "defaults",
                          0, 0)
            rec.outcome("processed")
