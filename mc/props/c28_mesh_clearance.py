"""C28: the mesh clearance finds every overlap of two wells' tubes."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey, nev

ID = "C28"
EXPLANATION = (
    "Product exploration: every relative placement of two wells x shape of "
    "the offset well x uncertainty profiles x mesh settings x kick-off "
    "depths.  For every section of the reference well the collision flag, "
    "the distance between the meshes, the centre-to-centre points and the "
    "separation factor are compared with a model of the two tubes (discs "
    "around densely evaluated arcs), which knows for sure when tubes overlap, "
    "when they are apart and between which bounds the distance lies.")
ASSUMPTIONS = [
    "covariances are isotropic, so that the tubes have circular sections",
    "a mesh with n vertices per ring lies between the tubes of radius "
    "r cos(pi/n) and r; cases decided by less than 0.5 length units are not "
    "judged",
    "the distance is only judged for meshes that are apart, and the "
    "separation factor of overlapping meshes only as less than one"]

D = math.radians
PLACE = [("far", 150.0, 0.0, 0.0), ("near", 22.0, 5.0, 0.0),
         ("side", -35.0, 12.0, 10.0), ("inside", 3.0, 1.0, 5.0),
         ("same", 0.0, 0.0, 0.0), ("above", 4.0, -30.0, 0.0),
         ("ahead", 6.0, 6.0, 170.0), ("behind", 10.0, -4.0, -180.0)]
SHAPES = {"parallel": [(40., 0., 0.)] * 6,
          "bend": [(30., 3., 0.), (30., 3., 4.), (35., 3., 5.),
                   (30., 0., 6.), (50., 0., 0.), (40., -2., 0.)],
          "cross": [(60., 0., 0.)] * 5}
SIGMA = {"small": lambda k: 0.4, "large": lambda k: 9.0 + (k % 3),
         "grows": lambda k: 0.5 + 2.5 * k, "none": lambda k: 0.0}
SET = [dict(n_verts=12, sigma=2.445, sigma_pa=0.5, Sm=0.3),
       dict(n_verts=24, sigma=1.0, sigma_pa=4.0, Sm=2.0),
       dict(n_verts=9, sigma=3.0, sigma_pa=0.0, Sm=0.0)]
START = [(30.0, 40.0), (88.0, 210.0)]
LEG = 40.0
CENTRE = (500.0, -300.0, 1500.0)
SLACK = 0.5


def BOUNDS(tier):
    return {"placements": [p[0] for p in PLACE], "shapes": list(SHAPES),
            "uncertainty profiles": list(SIGMA) + ["each for each well"],
            "mesh settings": SET, "directions": START,
            "reference well": "4 sections, kick-off at the first and third "
                              "station",
            "tier": "thorough crosses all of them; quick takes the mesh "
                    "settings and directions in rotation"}


def units(tier):
    return [[p, s, a, tier] for p in range(len(PLACE)) for s in SHAPES
            for a in SIGMA]


def run(unit, rec):
    p, shape, a, tier = unit
    c = p + list(SHAPES).index(shape) + list(SIGMA).index(a)
    for b in SIGMA:
        for k, s in enumerate(SET):
            for d in range(len(START)):
                c += 1
                if tier == "quick" and (c % 10) not in (0, 5):
                    continue
                for kop in ((None, 2) if c % 2 == 0 or tier != "quick"
                            else (None,)):
                    case(rec, p, shape, a, b, k, d, kop, c)
    rec.sample({"placement": PLACE[p][0], "shape": shape,
                "reference sigma": a})


def walk(st, start):
    return ref.walk([x[0] for x in st], [D(x[1]) for x in st],
                    [D(x[2]) for x in st], start)


def make(st, start, sig, radius):
    cov = np.array([np.eye(3) * sig(k) ** 2 for k in range(len(st))])
    return survey(st, header(), start_nev=list(start), cov_nev=cov,
                  radius=list(radius))


class Tube:
    """Discs along the arcs of a path."""

    def __init__(self, st, pos, r, first, last):
        m = [x[0] for x in st]
        i, a = [D(x[1]) for x in st], [D(x[2]) for x in st]
        self.m = np.concatenate([
            np.linspace(m[k], m[k + 1], int(m[k + 1] - m[k]) * 2 + 1)
            for k in range(first, last)])
        # at_md gives the position first
        self.p = np.array([at(m, i, a, pos, x) for x in self.m])
        self.r = np.interp(self.m, m, r)
        self.lo, self.hi = m[first], m[last]


def at(m, i, a, pos, x):
    k = max(j for j in range(len(m) - 1) if m[j] <= x + 1e-12)
    t1, t2 = ref.vec(i[k], a[k]), ref.vec(i[k + 1], a[k + 1])
    return ref.arc_point(pos[k], t1, t2, m[k + 1] - m[k], x - m[k])[0]


def case(rec, p, shape, a, b, k, d, kop, c):
    M = repo.load()
    name, lat, up, along = PLACE[p]
    st = [(100.0 + LEG * q, START[d][0], START[d][1] + q * (1.5 if c % 2
                                                            else 0.0))
          for q in range(5)]
    key = {"placement": name, "shape": shape, "sigma": [a, b], "set": k,
           "start": START[d], "kop": kop, "turn": bool(c % 2)}
    rec.state(repr(key))
    pr = walk(st, CENTRE)
    # the offset well is placed around the middle of the reference well
    t = ref.vec(D(START[d][0]), D(START[d][1]))
    r_ = (-math.sin(D(START[d][1])), math.cos(D(START[d][1])), 0.0)
    h = ref.cross(r_, t)
    mid = ref.add(pr[2], ref.add(ref.mul(r_, lat), ref.add(
        ref.mul(h, up), ref.mul(t, along))))
    so, m = [(1000.0, START[d][0] - (25.0 if shape == "cross" else 0.0),
              START[d][1] + (20.0 if shape == "cross" else 0.0))], 1000.0
    for L, di, da in SHAPES[shape]:
        m += L
        so.append((m, so[-1][1] + di, so[-1][2] + da))
    trial = walk(so, (0.0, 0.0, 0.0))
    start = ref.sub(mid, trial[3])
    po = walk(so, start)
    conf = SET[k]
    rr = [0.2, 0.2, 0.15, 0.15, 0.1]
    ro = [0.3 - 0.02 * q for q in range(len(so))]
    first = 0 if kop is None else kop
    with rec.case(key):
        R = make(st, CENTRE, SIGMA[a], rr)
        O = make(so, start, SIGMA[b], ro)
        kw = {} if kop is None else {"kop_depth": st[kop][0]}
        mc = M.clearance.MeshClearance(R, O, **conf, **kw)
        pa = conf["sigma_pa"] / 2
        tr = [SIGMA[a](q) * conf["sigma"] + rr[q] + pa for q in range(5)]
        to = [SIGMA[b](q) * conf["sigma"] + ro[q] + conf["Sm"] + pa
              for q in range(len(so))]
        off = Tube(so, po, to, 0, len(so) - 1)
        n = 4 - first
        if not rec.check(len(mc.collision) == n and len(mc.sf) == n, key,
                         lambda: f"{len(mc.collision)} sections"):
            return
        flags, L = [], mc.get_lines()
        rec.check(L.shape == (2, n, 3), key, lambda: f"lines {L.shape}")
        for q in range(n):
            rec.trans()
            pt = mc.distance[q][2]
            name = [x for x in pt._points if x != "__external"][0]
            rec.close(L[:, q], [pt.point("__external"), pt.point(name)],
                      dict(key, section=first + q),
                      "line between the closest points", 1e-9, 1e-6)
            tube = Tube(st, pr, tr, first + q, first + q + 1)
            flags.append(section(rec, dict(key, section=first + q), mc, q,
                                 tube, off, conf["n_verts"], st, pr, so, po,
                                 (SIGMA[a], SIGMA[b], rr, ro, first)))
        if c % 4 == 0:
            quick = M.clearance.MeshClearance(R, O, return_data=False,
                                              return_meshes=True, **conf,
                                              **kw)
            got = [bool(x[0] if isinstance(x, tuple) else x)
                   for x in quick.collision]
            rec.check(got == [bool(x[0]) for x in mc.collision], key,
                      lambda: f"go/no-go {got} against {flags}")
            rec.check(len(quick.meshes) == n, key, "meshes missing")
        rec.trace()


def section(rec, key, mc, q, tube, off, nv, st, pr, so, po, more):
    dist = np.linalg.norm(tube.p[:, None] - off.p[None], axis=-1)
    gap = dist - tube.r[:, None] - off.r[None]
    shrink = math.cos(math.pi / nv)
    low = float(gap.min()) - SLACK
    hit = bool(mc.collision[q][0])
    d = float(mc.distance[q][0])
    if low > 0:
        rec.check(not hit, key, lambda: f"tubes are {low} apart, collision")
    # nearest points, and whether they are inside both wells
    i, j = np.unravel_index(np.argmin(dist), dist.shape)
    inner = (tube.lo + 2 < tube.m[i] < tube.hi - 2
             and off.lo + 2 < off.m[j] < off.hi - 2)
    up = float(dist[i, j] - shrink * (tube.r[i] + off.r[j])) + SLACK
    sure = inner and up < 0
    # a centre within the other tube
    for x, y, swap in ((tube, off, False), (off, tube, True)):
        g = dist.T if swap else dist
        f = np.argmin(g, axis=1)
        ok = ((y.m[f] > y.lo + 2) & (y.m[f] < y.hi - 2)
              & (x.m > x.lo + 2) & (x.m < x.hi - 2)
              & (g[np.arange(len(f)), f] < y.r[f] * shrink - SLACK))
        sure = sure or bool(ok.any())
    if sure:
        rec.check(hit, key, lambda: "tubes overlap, no collision reported "
                  f"(nearest centres {dist[i, j]}, radii {tube.r[i]}, "
                  f"{off.r[j]})")
    sf, cc = float(mc.sf[q]), float(mc.distance_cc[q])
    if not hit and low > 0:
        rec.check(d >= low, key, lambda: f"distance {d} < {low}")
        if inner:
            rec.check(d <= up, key, lambda: f"distance {d} > {up}")
        if cc - d > 0.05:
            rec.close(sf, cc / (cc - d), key, "separation factor", 0, 0.0051)
        rec.check(sf >= 0.99, key, lambda: f"apart with SF {sf}")
    if hit:
        rec.check(sf <= 1.0, key, lambda: f"overlap with SF {sf}")
    # the points reported lie on the wells, at the depths reported
    (rp, _), (op, _) = mc.nev[q]
    m, i_, a_ = [x[0] for x in st], [D(x[1]) for x in st], [
        D(x[2]) for x in st]
    rec.check(tube.lo - 1e-6 <= mc.ref_md[q] <= tube.hi + 1e-6, key,
              lambda: f"reference depth {mc.ref_md[q]} outside the section")
    rec.close(rp, at(m, i_, a_, pr, mc.ref_md[q]), key,
              "point on the reference well", 0, 1e-3)
    m, i_, a_ = [x[0] for x in so], [D(x[1]) for x in so], [
        D(x[2]) for x in so]
    rec.close(op, at(m, i_, a_, po, mc.off_md[q]), key,
              "point on the offset well", 0, 1e-3)
    rec.close(cc, float(np.linalg.norm(np.asarray(op) - rp)), key,
              "centre to centre", 0, 1e-6)
    rec.check(cc >= dist.min() - 0.6, key, lambda: f"{cc} below the least "
              f"distance {dist.min()}")
    if not hit and low > 0 and inner:
        rec.check(cc <= dist.min() + max(3.0, 0.25 * dist.min()), key,
                  lambda: f"centres {cc} apart, least is {dist.min()}")
    if cc > 1e-3:
        b = math.degrees(math.atan2(op[1] - rp[1], op[0] - rp[0])) % 360
        rec.close(math.degrees(ref.wrap(D(mc.hoz_bearing_deg[q] - b))), 0.0,
                  key, "bearing", 0, 1e-3)
    # surface points of the closest approach lie on the two tubes
    if not hit and low > 0:
        pt = mc.distance[q][2]
        names = [x for x in pt._points if x != "__external"]
        x, y = pt.point("__external"), pt.point(names[0])
        rec.close(float(np.linalg.norm(x - y)), d, key,
                  "distance of the closest points", 2e-3, 0.05)
        rec.check(np.linalg.norm(tube.p - x, axis=1).min()
                  <= tube.r.max() + SLACK, key,
                  "closest point is not on the reference tube")
        rec.check(np.linalg.norm(off.p - y, axis=1).min()
                  <= off.r.max() + SLACK, key,
                  "closest point is not on the offset tube")
    rec.outcome("collision" if hit else "apart")
    rec.outcome("sure overlap" if sure else "sure gap" if low > 0
                else "undecided")
    return hit
