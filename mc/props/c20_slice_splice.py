"""C20: slicing and splicing keep the path."""
import numpy as np

from .. import ref, repo
from ..common import header, survey, nev, product, rad
from .c04_interpolate_md import cov, long_path, turns_ok

ID = "C20"
EXPLANATION = (
    "Explicit-state search: a state is a survey reached from an initial path "
    "by slices (every pair of bounds) and splices (every ordered way of "
    "cutting it into consecutive parts and joining them again, every part "
    "possibly measured against a different azimuth reference).  Every state "
    "is compared with a list model holding stations, positions, radii and "
    "covariances.")
ASSUMPTIONS = ["legs turn by less than 170 degrees",
               "parts either all have a covariance or none has"]

DIRS = [(0.0, 0.0), (30.0, 359.0), (32.0, 3.0), (90.0, 250.0), (110.0, 100.0)]
CFG = [dict(ref="grid", conv=0.0, unit="meters", sn=[0., 0., 0.], sx=[0., 0., 0.]),
       dict(ref="true", conv=2.5, unit="meters", sn=[100., -50., 20.], sx=[5., 6., 7.]),
       dict(ref="magnetic", conv=-1.0, unit="feet", sn=[-7., 8., 9.], sx=[0., 0., 0.]),
       dict(ref="grid", conv=1.5, unit="feet", sn=[0., 0., 500.], sx=[0., 0., 0.])]
LEG = [30.0, 250.0, 0.5, 101.3, 77.0]
REFS = ("grid", "true", "magnetic")
DECL = 3.0


def BOUNDS(tier):
    n = 4 if tier == "quick" else 5
    return {"paths": f"all paths of {n} stations over {len(DIRS)} directions",
            "slices": "all bounds (start, stop), positive, negative and "
                      "None, with at least two stations; slices of slices",
            "splices": "all compositions of the path into consecutive parts "
                       "x all azimuth references per part (up to 3 parts)",
            "long paths": "a tour of every pair of directions, all bounds, "
                          "all splices of two parts and of three with "
                          "neighbouring cuts",
            "configurations": len(CFG), "covariance": "absent and given"}


def units(tier):
    n = 4 if tier == "quick" else 5
    return [[i, j, n] for i in range(len(DIRS)) for j in range(len(DIRS))
            ] + [["long", q, 0] for q in range(len(CFG))]


def off(refname, conv):
    return {"grid": 0.0, "true": conv, "magnetic": conv - DECL}[refname]


def make(st, cfg, refname, kw, sn):
    h = header(azi_reference=refname, convergence=cfg["conv"],
               declination=DECL, depth_unit=cfg["unit"])
    o = off(refname, cfg["conv"])
    return survey([(m, i, a + o) for m, i, a in st], h, start_nev=list(sn),
                  start_xyz=list(cfg["sx"]), unit=cfg["unit"], **kw)


def run(unit, rec):
    i, j, n = unit
    if i == "long":
        return path(rec, long_path(LEG, 12.5, DIRS), CFG[j], j)
    c = i + 2 * j
    for rest in product(DIRS, repeat=n - 2):
        c += 1
        st, m = [], 12.5
        for q, d in enumerate([DIRS[i], DIRS[j], *rest]):
            st.append((m, *d))
            m += LEG[(q + c) % 5]
        if turns_ok(st):
            path(rec, st, CFG[c % 4], c)
    rec.sample({"first directions": [DIRS[i], DIRS[j]], "stations": n})


class Model:
    """What the survey is: list of stations with their attributes."""

    def __init__(self, md, pos, vec, rad_, cv):
        self.md, self.pos, self.vec, self.rad, self.cov = md, pos, vec, rad_, cv

    def cut(self, a, b):
        s = slice(a, b)
        return Model(self.md[s], self.pos[s], self.vec[s], self.rad[s],
                     None if self.cov is None else self.cov[s])

    def compare(self, rec, key, s):
        rec.close(s.md, self.md, key, "depths", 0, 1e-9)
        rec.close(nev(s), self.pos, key, "positions", 0, 1e-5)
        rec.close(s.pos_nev, self.pos, key, "pos_nev", 0, 1e-5)
        rec.close(s.vec_nev, self.vec, key, "directions", 0, 1e-9)
        rec.close(s.start_nev, self.pos[0], key, "start", 0, 1e-6)
        rec.close(s.radius, self.rad, key, "radii", 0, 1e-12)
        if self.cov is None:
            rec.check(s.cov_nev is None, key, "covariance appeared")
        elif rec.check(s.cov_nev is not None, key, "covariance lost"):
            rec.close(s.cov_nev, self.cov, key, "covariance", 1e-9, 1e-9)
            hla = []
            for v, cm in zip(self.vec, self.cov):
                r = ref.rot_hla(*ref.inc_azi(v))
                hla.append(ref.matmul(ref.matmul(r, cm), ref.transpose(r)))
            # high side is not defined for a vertical hole
            keep = [k for k, v in enumerate(self.vec)
                    if abs(v[2]) < 1 - 1e-12]
            if keep:
                rec.close(np.asarray(s.cov_hla)[keep],
                          [hla[k] for k in keep], key,
                          "along-hole covariance", 1e-6, 1e-6)


def path(rec, st, cfg, c):
    S = repo.load().survey
    n = len(st)
    m, inc, azi = rad(st)
    pos = ref.walk(m, inc, azi, cfg["sn"])
    vecs = [ref.vec(x, y) for x, y in zip(inc, azi)]
    radii = [0.4 - 0.05 * (k % 6) for k in range(n)]
    with_cov = c % 2 == 0
    cv = [cov(k) for k in range(n)] if with_cov else None
    mod = Model(m, pos, vecs, radii, cv)
    base = {"st": st, "cfg": cfg, "cov": with_cov}

    def kw(a, b):
        k = {"radius": list(radii[a:b])}
        if cv:
            k["cov_nev"] = np.array(cv[a:b])
        return k

    with rec.case(base):
        s = make(st, cfg, cfg["ref"], kw(0, n), cfg["sn"])
        rec.state(repr(base))
        before = s.header.azi_reference
        bounds = [(a, b) for a in range(n - 1) for b in range(a + 2, n + 1)]
        for a, b in bounds:
            forms = {(a, b), (a - n, b)}
            forms.add((a, b - n) if b < n else (a, None))
            for fa, fb in sorted(forms, key=repr):
                key = dict(base, slice=[fa, fb])
                rec.trans()
                with rec.case(key):
                    t = S.slice_survey(s, fa, fb)
                    mod.cut(a, b).compare(rec, key, t)
                    rec.check(t.unit == cfg["unit"]
                              and t.header.azi_reference == before, key,
                              "unit or azimuth reference changed")
                    rec.state(repr((base, a, b)))
                    if (fa, fb) != (a, b):
                        continue
                    # every slice of the slice
                    for a2 in range(b - a - 1 if n < 8 else 0):
                        for b2 in range(a2 + 2, b - a + 1):
                            k2 = dict(key, then=[a2, b2])
                            rec.trans()
                            mod.cut(a + a2, a + b2).compare(
                                rec, k2, S.slice_survey(t, a2, b2))
            rec.outcome("slice with covariance" if cv else "slice")
        # splices: cut points strictly inside
        for cuts in ([[k + 1 for k in range(n - 2) if mask >> k & 1]
                      for mask in range(1 << (n - 2))] if n < 8 else
                     [[k] for k in range(1, n - 1)]
                     + [[k, k + 1] for k in range(1, n - 2)]
                     + [list(range(1, n - 1))]):
            ends = [0, *cuts, n - 1]
            parts = list(zip(ends, ends[1:]))
            key = dict(base, cuts=cuts)
            rec.trans()
            with rec.case(key):
                ss = [S.slice_survey(s, a, b + 1) for a, b in parts]
                mod.compare(rec, key, S.splice_surveys(ss))
                rec.outcome(f"splice of {len(parts)} slices")
            if len(parts) > 3:
                continue
            combos = (product(REFS, repeat=len(parts)) if len(parts) < 3
                      else [(REFS[(c + q) % 3], REFS[(c + q // 3) % 3],
                             REFS[(c // 2 + q) % 3]) for q in range(3)])
            for refs in combos:
                k2 = dict(key, refs=refs)
                rec.trans()
                with rec.case(k2):
                    ss = [make(st[a:b + 1], cfg, r, kw(a, b + 1), pos[a])
                          for (a, b), r in zip(parts, refs)]
                    t = S.splice_surveys(ss)
                    mod.compare(rec, k2, t)
                    rec.check(t.unit == cfg["unit"], k2, "unit lost")
                    rec.outcome(f"splice of {len(parts)} surveys")
        rec.trace()
