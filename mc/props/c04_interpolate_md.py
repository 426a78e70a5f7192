"""C04: a depth query returns the point on the same path."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey, nev, product, tour, D, rad

ID = "C04"
EXPLANATION = (
    "Every station path of the bounded tree is built, then queried at every "
    "depth of a fixed subdivision of every leg (ends included); each answer "
    "is compared with the arc model.  Second-level behaviours: the answer is "
    "added as a station and the refined survey is queried again.  State = "
    "(path, depth queried so far), transition = one query.")
ASSUMPTIONS = ["legs turn by less than 170 degrees"]

DIRS = [(0.0, 0.0), (1e-5, 80.0), (0.4, 200.0), (30.0, 359.0), (32.0, 3.0),
        (89.0, 90.0), (90.0, 250.0), (120.0, 100.0)]
FR = [0.0, 1e-4, 0.25, 1 / 3, 0.5, 0.77, 0.999, 1.0]
CFG = [dict(ref="grid", conv=0.0, unit="meters", gsf=1.0, sn=[0., 0., 0.],
            sx=[0., 0., 0.]),
       dict(ref="true", conv=2.5, unit="meters", gsf=1.0,
            sn=[100., -50., 20.], sx=[0., 0., 0.]),
       dict(ref="magnetic", conv=-1.0, unit="feet", gsf=1.0,
            sn=[-7., 8., 9.], sx=[3., 2., 1.]),
       dict(ref="grid", conv=0.7, unit="feet", gsf=1.0, sn=[0., 0., 0.],
            sx=[500., 600., 0.])]


def BOUNDS(tier):
    return {"paths": f"all paths of {3 if tier == 'quick' else 4} stations "
                     f"over {len(DIRS)} directions, legs 30 / 250",
            "long paths": "tours of every pair of directions, whole turns "
                          "added to the azimuths, in every configuration",
            "depths": f"{len(FR)} per leg", "configurations": len(CFG),
            "covariance": "absent / growing full matrices"}


def units(tier):
    return [[i, j, tier] for i in range(len(DIRS)) for j in range(len(DIRS))
            ] + [["long", q, tier] for q in range(len(CFG))]


def long_path(lengths, md0=40.0, dirs=None, ok=None, turns=True):
    """A tour of the directions, some azimuths written a turn away."""
    dirs = dirs or DIRS
    seq = tour(dirs, ok or (lambda a, b: turns_ok([(0.0, *a), (1.0, *b)])))
    st, m = [], md0
    for k, (i, a) in enumerate(seq):
        st.append((m, i, a + turns * (0.0, 0.0, -360.0, 0.0, 360.0)[k % 5]))
        m = round(m + lengths[k % len(lengths)], 9)
    return st


def cov(k):
    a = np.array([[1.0, 0.2, -0.1], [0.2, 2.0, 0.3], [-0.1, 0.3, 0.5]])
    return a * (0.5 + k) ** 2


def build(st, cfg, with_cov):
    h = header(azi_reference=cfg["ref"], convergence=cfg["conv"],
               declination=3.0, depth_unit=cfg["unit"])
    off = {"grid": 0.0, "true": cfg["conv"],
           "magnetic": cfg["conv"] - 3.0}[cfg["ref"]]
    st2 = [(m, i, a + off) for m, i, a in st]
    kw = {}
    if with_cov:
        kw["cov_nev"] = np.array([cov(k) for k in range(len(st))])
    return survey(st2, h, start_nev=list(cfg["sn"]), start_xyz=list(cfg["sx"]),
                  unit=cfg["unit"], **kw)


def turns_ok(st):
    return all(ref.angle(ref.vec(D(a[1]), D(a[2])), ref.vec(D(b[1]), D(b[2])))
               < D(170.0) for a, b in zip(st, st[1:]))


def run(unit, rec):
    S = repo.load().survey
    i, j, tier = unit
    if i == "long":
        for L in ((30.0, 250.0, 101.3, 12.5), (500.0, 7.0, 30.0)):
            path(rec, S, long_path(L), CFG[j], j % 2 == 0, j)
        return
    n = 3 if tier == "quick" else 4
    c = 0
    for rest in product(DIRS, repeat=n - 2):
        dirs = [DIRS[i], DIRS[j], *rest]
        for L in ((30.0, 250.0, 101.3), (400.0, 12.5, 30.0)):
            md = [40.0]
            for q in range(n - 1):
                md.append(md[-1] + L[q])
            st = [(m, *d) for m, d in zip(md, dirs)]
            if not turns_ok(st):
                continue
            c += 1
            cfgs = [CFG[c % len(CFG)]] if tier == "quick" else CFG
            for cfg in cfgs:
                path(rec, S, st, cfg, c % 2 == 0 or tier != "quick", c)
    rec.sample({"first directions": [DIRS[i], DIRS[j]], "fractions": FR})


def path(rec, S, st, cfg, with_cov, c):
    base = {"st": st, "cfg": cfg, "cov": with_cov}
    m, inc, azi = rad(st)
    pos = ref.walk(m, inc, azi, cfg["sn"])
    vecs = [ref.vec(x, y) for x, y in zip(inc, azi)]
    with rec.case(base):
        s = build(st, cfg, with_cov)
        rec.state(repr(base))
        for k in range(len(st) - 1):
            for fi, f in enumerate(FR):
                x = (m[k + 1] - m[k]) * f
                q = m[k] + x if f < 1.0 else m[k + 1]
                key = dict(base, leg=k, f=f)
                rec.trans()
                with rec.case(key):
                    node = s.interpolate_md(q)
                    wp, wt = ref.arc_point(pos[k], vecs[k], vecs[k + 1],
                                           m[k + 1] - m[k], q - m[k])
                    one(rec, key, node, q, wp, wt, cfg, f)
                    if with_cov:
                        want = cov(k) + (cov(k + 1) - cov(k)) * f
                        rec.close(np.asarray(node.cov_nev).reshape(3, 3),
                                  want, key, "covariance of the node", 1e-9,
                                  1e-9)
                        sv = S.interpolate_md(s, q)
                        rec.close(sv.cov_nev[-1], want, key, "covariance",
                                  1e-9, 1e-9)
                    rec.trace()
                    # second level: refine with the answer, ask again
                    if fi in (2, 5):
                        again(rec, key, st, cfg, k, q, node, pos, vecs, m)
        with rec.case(dict(base, beyond=True)):
            out = s.interpolate_md(m[-1] + 10.0)
            rec.check(out is None, dict(base, beyond=True),
                      "a depth beyond the end returned a point")
        rec.outcome("with covariance" if with_cov else "no covariance")


def one(rec, key, node, q, wp, wt, cfg, f):
    tol = 2e-6
    rec.close(node.md, q, key, "md", 0, 1e-9)
    rec.close(node.pos_nev, wp, key, "position", 0, tol)
    rec.close(node.pos_xyz, (wp[1], wp[0], wp[2]), key, "xyz position", 0,
              tol)
    rec.close(node.vec_nev, wt, key, "direction", 0, 2e-8)
    rec.close(node.vec_xyz, (wt[1], wt[0], wt[2]), key, "xyz direction", 0,
              2e-8)
    v = ref.vec(float(node.inc_rad), float(node.azi_rad))
    rec.close(v, wt, key, "inclination/azimuth", 0, 2e-8)
    v = ref.vec(D(float(node.inc_deg)), D(float(node.azi_deg)))
    rec.close(v, wt, key, "inclination/azimuth in degrees", 0, 2e-8)
    rec.check(node.unit == cfg["unit"], key, f"unit {node.unit}")
    rec.check(bool(node.interpolated) == (0.0 < f < 1.0), key,
              f"interpolated flag {node.interpolated}")


def again(rec, key, st, cfg, k, q, node, pos, vecs, m):
    off = {"grid": 0.0, "true": cfg["conv"],
           "magnetic": cfg["conv"] - 3.0}[cfg["ref"]]
    st2 = st[:k + 1] + [(q, float(node.inc_deg), float(node.azi_deg))] \
        + st[k + 1:]
    s2 = build(st2, cfg, False)
    rec.state(repr(st2))
    rec.close(np.delete(nev(s2), k + 1, axis=0), pos, key,
              "refining moved stations", 0, 5e-6)
    for f in (0.4, 0.8):
        for lo, hi in ((m[k], q), (q, m[k + 1])):
            x = lo + (hi - lo) * f
            rec.trans()
            nd = s2.interpolate_md(x)
            wp, wt = ref.arc_point(pos[k], vecs[k], vecs[k + 1],
                                   m[k + 1] - m[k], x - m[k])
            rec.close(nd.pos_nev, wp, dict(key, then=x),
                      "position after refinement", 0, 5e-6)
            rec.close(nd.vec_nev, wt, dict(key, then=x),
                      "direction after refinement", 0, 1e-7)
    rec.trace()
