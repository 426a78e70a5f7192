"""C01: station positions are those of the minimum-curvature path."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey, nev, product, D

ID = "C01"
EXPLANATION = (
    "Every station sequence of the bounded tree is built through the public "
    "survey constructor; a state is a station-path prefix, a transition "
    "appends one station.  Each complete path is one execution of the real "
    "code, compared at every prefix with an independent circular-arc model.")
ASSUMPTIONS = [
    "neighbouring stations differ by less than 180 degrees of direction",
    "station values outside the alphabets are not explored",
]

# direction alphabet: vertical, nearly vertical, ordinary, horizontal, upward,
# azimuths at, just before, just after and beyond north
INC = [0.0, 1e-6, 0.3, 30.0, 89.99, 90.0, 125.0]
AZI = [0.0, 45.0, 133.7, 180.0, 270.0, 359.5, 360.0, 365.0, -30.0]
DMD = [1e-3, 9.0, 30.0, 761.25]
R_DIRS = [(0.0, 0.0), (0.0, 200.0), (2.0, 358.0), (35.0, 2.0), (90.0, 90.0),
          (90.0, 181.0), (60.0, 270.0), (101.0, 20.0)]


def BOUNDS(tier):
    return {
        "pairs": "all ordered pairs of 63 directions x 4 lengths x 4 "
                 "tie-ons/units (quick: units/tie-ons on a rotating index)",
        "paths": f"all paths of {4 if tier == 'quick' else 5} stations over "
                 "8 directions and 2 lengths (incl. repeated MD)",
        "long": "periodic wells of 2..400 stations",
        "inputs": "lists/arrays/ints, deg/rad, meters/feet, both tie-ons, "
                  "grid scale factor",
    }


def units(tier):
    u = []
    for i in INC:
        for a in AZI:
            u.append(["pair", i, a, tier])
    depth = 4 if tier == "quick" else 5
    for k in range(len(R_DIRS)):
        for j in range(len(R_DIRS)):
            u.append(["tree", k, j, depth])
    u.append(["long", tier])
    u.append(["forms"])
    u.append(["kernel", tier])
    return u


def legal(i1, a1, i2, a2):
    return ref.angle(ref.vec(D(i1), D(a1)), ref.vec(D(i2), D(a2))) \
        < math.radians(179.5)


STARTS = [([0., 0., 0.], [0., 0., 0.], "meters"),
          ([0., 0., 0.], [1200.5, -300.25, 55.0], "meters"),
          ([10., 20., 30.], [-5., 7., 100.0], "feet"),
          ([-4000., 2e5, 0.], [0., 0., 0.], "feet")]


def verify(rec, st, s, start_nev, start_xyz, unit, key, gsf=1.0):
    md, inc, azi = [list(c) for c in zip(*st)]
    inc = [D(i) for i in inc]
    azi = [D(a) for a in azi]
    want = ref.walk(md, inc, azi, start_nev)
    scale = max(1.0, md[-1] - md[0])
    # relative to the length drilled: 1e-9, absolute floor for tie-on size
    atol = 2e-9 * scale + 1e-9 * max(1.0, max(abs(v) for v in start_nev),
                                     max(abs(v) for v in start_xyz))
    ok = rec.close(nev(s), want, key, "N/E/TVD", 0, atol)
    if not ok:
        return
    disp = [ref.sub(p, want[0]) for p in want]
    xyz = [(d[1] + start_xyz[0], d[0] + start_xyz[1], d[2] + start_xyz[2])
           for d in disp]
    rec.close(np.column_stack([s.x, s.y, s.z]), xyz, key, "X/Y/Z", 0, atol)
    rec.close(s.pos_xyz, xyz, key, "pos_xyz", 0, atol)
    pn = [(start_nev[0] + d[0] * gsf, start_nev[1] + d[1] * gsf,
           start_nev[2] + d[2]) for d in disp]
    rec.close(s.pos_nev, pn, key, "pos_nev", 0, atol)
    vecs = [ref.vec(i, a) for i, a in zip(inc, azi)]
    rec.close(s.vec_nev, vecs, key, "direction vectors", 0, 1e-12)
    rec.close(s.vec_xyz, [(v[1], v[0], v[2]) for v in vecs], key,
              "xyz direction vectors", 0, 1e-12)
    dl = [0.0] + [ref.angle(vecs[k], vecs[k + 1])
                  for k in range(len(vecs) - 1)]
    rec.close(s.dogleg, dl, key, "dogleg", 1e-9, 3e-8)
    per = 30.0 if unit == "meters" else 100.0
    dls = [0.0]
    tol = [1e-9]
    for k in range(1, len(md)):
        d = md[k] - md[k - 1]
        dls.append(math.degrees(dl[k]) / d * per if d > 0 else 0.0)
        tol.append(math.degrees(3e-8) / d * per if d > 0 else 1e-9)
    rec.check(all(abs(g - w) <= t + 1e-9 * abs(w)
                  for g, w, t in zip(s.dls, dls, tol)), key,
              lambda: f"dls {list(s.dls)} expected {dls}")
    rec.close(np.diff(s.md), np.diff(md), key, "delta md", 0, 1e-9)
    rec.close(s.delta_md[1:], np.diff(md), key, "delta_md", 0, 1e-9)


def run(unit, rec):
    kind = unit[0]
    S = repo.load().survey
    if kind == "pair":
        _, i1, a1, tier = unit
        hm, hf = header(), header(depth_unit="feet")
        n = 0
        rec.state(("d", i1, a1).__repr__())
        for i2, a2 in product(INC, AZI):
            if not legal(i1, a1, i2, a2):
                continue
            rec.state(repr(("d", i1, a1, i2, a2)))
            for d in DMD:
                n += 1
                starts = STARTS if tier == "thorough" else [
                    STARTS[n % len(STARTS)]]
                for sx, sn, un in starts:
                    st = [(0.0, i1, a1), (d, i2, a2)]
                    key = {"st": st, "start": [sx, sn], "unit": un}
                    rec.trans()
                    with rec.case(key):
                        s = survey(st, hm if un == "meters" else hf,
                                   start_xyz=sx, start_nev=sn, unit=un)
                        verify(rec, st, s, sn, sx, un, key)
                        rec.trace()
                        rec.outcome("straight" if s.dogleg[1] == 0 else
                                    "tiny dogleg" if s.dogleg[1] < 1e-4 else
                                    "small dogleg" if s.dogleg[1] < .5 else
                                    "sharp" if s.dogleg[1] < 2 else "reversal")
        rec.sample({"pair": [[i1, a1], "x all directions"]})
    elif kind == "tree":
        _, k, j, depth = unit
        hdr = header()
        if not legal(*R_DIRS[k], *R_DIRS[j]):
            return
        lens = [30.0, 412.5]

        def grow(st):
            rec.state(repr(st))
            if len(st) == depth:
                key = {"st": st}
                with rec.case(key):
                    s = survey(st, hdr, start_nev=[1., 2., 3.])
                    verify(rec, st, s, [1., 2., 3.], [0., 0., 0.], "meters",
                           key)
                    rec.trace()
                return
            for d in R_DIRS:
                if not legal(*st[-1][1:], *d):
                    continue
                for L in lens:
                    rec.trans()
                    grow(st + [(st[-1][0] + L, *d)])
            # repeated station (same MD, same direction)
            rec.trans()
            grow(st + [st[-1]])

        for md0, L in ((0.0, 100.0), (250.0, 31.0)):
            grow([(md0, *R_DIRS[k]), (md0 + L, *R_DIRS[j])])
        rec.sample({"tree root": [R_DIRS[k], R_DIRS[j]], "depth": depth})
    elif kind == "long":
        hdr = header()
        sizes = [2, 3, 5, 17, 33, 64, 101, 200] + (
            [400, 1001] if unit[1] == "thorough" else [])
        for n in sizes:
            for per in ([(0, 0), (1, 350), (3, 10)],
                        [(10, 359), (11, 1), (12, 3), (9, 357)],
                        [(0, 0), (0, 0), (20, 180), (20, 180)],
                        [(88, 90), (92, 95), (90, 85)]):
                for dm in ([30.0], [1.0, 30.0, 0.0 + 7.5]):
                    st, md = [], 0.0
                    for q in range(n):
                        i, a = per[q % len(per)]
                        st.append((md, i, a))
                        md += dm[q % len(dm)]
                    key = {"n": n, "period": per, "dmd": dm}
                    rec.state(repr(key))
                    rec.trans(n)
                    with rec.case(key):
                        s = survey(st, hdr)
                        verify(rec, st, s, [0, 0, 0], [0, 0, 0], "meters",
                               key)
                        rec.trace()
                        # a survey of the first m stations is the prefix
                        for m in {2, n // 2, n - 1}:
                            if 2 <= m < n:
                                p = survey(st[:m], hdr)
                                rec.close(nev(s)[:m], nev(p),
                                          dict(key, prefix=m),
                                          "later stations moved earlier ones",
                                          0, 1e-9)
                                rec.trace()
    elif kind == "forms":
        # the same path handed over in every accepted form
        st = [(100.0, 0.0, 0.0), (400.0, 10.0, 350.0), (430.0, 12.0, 3.0),
              (1000.0, 91.0, 40.0)]
        md, inc, azi = [list(c) for c in zip(*st)]
        want = np.array(ref.walk(md, [D(i) for i in inc],
                                 [D(a) for a in azi], [7., 8., 9.]))
        conv = {
            "list": list, "tuple": tuple, "array": np.array,
            "float32-exact": lambda c: np.array(c, dtype=np.float64),
            "int-array": lambda c: np.array(c).astype(int),
        }
        for name, f in conv.items():
            for ref_ in ("grid", "true", "magnetic"):
                for gsf in (1.0, 0.9996):
                    for deg in (True, False):
                        if name == "int-array" and not deg:
                            continue
                        for vecs in (False, True):
                            key = {"form": name, "ref": ref_, "gsf": gsf,
                                   "deg": deg, "vec": vecs}
                            rec.state(repr(key))
                            rec.trans()
                            with rec.case(key):
                                h = header(azi_reference=ref_,
                                           grid_scale_factor=gsf)
                                ii = inc if deg else [D(i) for i in inc]
                                aa = azi if deg else [D(a) for a in azi]
                                kw = {}
                                if vecs:
                                    kw["vec"] = np.array(
                                        [ref.vec(D(i), D(a))
                                         for i, a in zip(inc, azi)])
                                s = S.Survey(
                                    md=f(md), inc=f(ii), azi=f(aa), header=h,
                                    deg=deg, start_nev=[7., 8., 9.], **kw)
                                rec.close(nev(s), want, key, "N/E/TVD", 0,
                                          1e-7)
                                verify(rec, st, s, [7., 8., 9.],
                                       [0., 0., 0.], "meters", key, gsf)
                                rec.trace()
        rec.sample({"station form": "int-array / tuple / radians ..."})
    else:
        # the kernel functions on their own, arrays and scalars
        U = repo.load().utils
        dirs = list(product(INC[:-1], AZI[:-2]))
        if unit[1] == "quick":
            dirs = dirs[::2]
        for (i1, a1) in dirs:
            rec.state(repr(("k", i1, a1)))
            cand = [d for d in dirs if legal(i1, a1, *d)]
            key = {"kernel": [i1, a1]}
            with rec.case(key):
                I1 = np.full(len(cand), D(i1))
                A1 = np.full(len(cand), D(a1))
                I2 = np.array([D(c[0]) for c in cand])
                A2 = np.array([D(c[1]) for c in cand])
                dl = np.asarray(U.get_dogleg(I1, A1, I2, A2))
                v1 = ref.vec(D(i1), D(a1))
                want = [ref.angle(v1, ref.vec(x, y)) for x, y in zip(I2, A2)]
                rec.close(dl, want, key, "dogleg", 1e-9, 3e-8)
                step = np.asarray(U.min_curve_step(
                    np.full(len(cand), 100.0), I1, A1, I2, A2))
                rec.close(step, [ref.leg((0, 0, 0), v1, ref.vec(x, y), 100.0)
                                 for x, y in zip(I2, A2)], key, "step",
                          0, 2e-7)
                rf = np.asarray(U.get_rf(np.array(want)))
                rec.close(rf, [math.tan(w / 2) / (w / 2) if w > 1e-6 else 1.0
                               for w in want], key, "ratio factor", 1e-9,
                          1e-9)
                rec.trans(len(cand))
                rec.trace(len(cand))
                for c, w in list(zip(cand, want))[::7]:
                    one = np.asarray(U.min_curve_step(
                        100.0, D(i1), D(a1), D(c[0]), D(c[1]))).ravel()
                    rec.close(one, ref.leg((0, 0, 0), v1,
                                           ref.vec(D(c[0]), D(c[1])), 100.0),
                              dict(key, to=c), "scalar step", 0, 2e-7)
