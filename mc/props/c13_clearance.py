"""C13: separation factors from the true closest approach."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey, product, D

ID = "C13"
EXPLANATION = (
    "Every pair of a reference and an offset path of the bounded trees, in "
    "every relative position, is put through the clearance calculation "
    "(configurations of azimuth reference, unit, kick-off depth, margins and "
    "hole radii are cycled and, on a sub-tree, multiplied out).  The closest "
    "point is compared with the analytic minimum over all circular arcs of "
    "the offset path; directions, pedal-curve radii, boundaries and "
    "separation factors are recomputed from the definitions at the reported "
    "point; the pair is run again turned and moved, with another confidence "
    "multiplier, and with the refinement between stations.  State = (pair, "
    "position, configuration), transition = one clearance run.")
ASSUMPTIONS = [
    "covariances are supplied (or come from the error model, whose values "
    "C10/C11 decide) and both wells have one",
    "the closest distance is found to 0.02 m (numerical minimisation)",
    "directions are compared where the wells are at least 0.5 m apart",
    "a higher multiplier is compared where the holes do not overlap",
]

RDIR = [(0.0, 0.0), (30.0, 20.0), (60.0, 110.0), (90.0, 359.0), (100.0, 250.0)]
ODIR = [(0.0, 0.0), (30.0, 22.0), (62.0, 290.0), (90.0, 180.0), (120.0, 60.0)]
POS = [(8.0, 3.0, 0.0), (-150.0, 90.0, 40.0), (60.0, 300.0, 260.0),
       (0.5, -12.0, -100.0)]
RLEG = [(150.0, 200.0, 60.0), (40.0, 90.0, 300.0)]
OLEG = [(500.0, 30.0, 250.0), (30.0, 30.0, 900.0), (200.0, 350.0, 100.0)]
TURN = 73.0
MOVE = (-500.0, 700.0, 100.0)
CFG = [dict(ref=("grid", "grid"), conv=0.0, unit="meters", k=3.5, pa=0.5,
            sm=0.3),
       dict(ref=("true", "magnetic"), conv=2.5, unit="meters", k=2.0, pa=0.0,
            sm=0.0),
       dict(ref=("magnetic", "grid"), conv=-1.5, unit="feet", k=2.7, pa=1.5,
            sm=1.0),
       dict(ref=("grid", "true"), conv=1.0, unit="meters", k=5.0, pa=0.1,
            sm=2.0)]
DECL = 3.0
COVS = [np.array([[4.0, 0.5, 0.1], [0.5, 3.0, -0.2], [0.1, -0.2, 1.0]]),
        np.array([[1.0, -0.8, 0.3], [-0.8, 9.0, 0.4], [0.3, 0.4, 2.5]]),
        np.array([[16.0, 3.0, 2.0], [3.0, 2.0, 0.1], [2.0, 0.1, 0.5]])]
MODELS = ["ISCWSA MWD Rev5.11", "MWD+SRGM+AX", "ISCWSA MWD Rev4"]


def BOUNDS(tier):
    q = tier == "quick"
    return {"reference paths": f"all of 3 stations over {len(RDIR)} "
                               "directions" + ("" if q else " and 4 over 4"),
            "offset paths": f"all of 3 stations over {len(ODIR)} directions"
                            + ("" if q else " and 4 over 4"),
            "relative positions": [POS, "one of the four for each pair"
                                   if q else "all"], "configurations": len(CFG),
            "kick-off depths": "each reference station and between them",
            "refinement": "pairs with a minimum between stations"}


def units(tier):
    half = tier == "quick"
    out = [["pair", i, j, p, 3, half] for i in range(len(RDIR))
           for j in range(len(RDIR)) for p in range(len(POS))]
    out += [["refine", i, j] for i in range(4) for j in range(4)]
    out += [["kop", i, j] for i in range(4) for j in range(3)]
    if tier != "quick":
        out += [["pair", i, j, p, 4, True] for i in range(4) for j in range(4)
                for p in range(len(POS))]
    return out


def run(unit, rec):
    {"pair": pairs, "refine": refine, "kop": kop}[unit[0]](unit, rec)


# -- reference side ---------------------------------------------------------

class Well:
    """Stations with position, direction, covariance and radius, in metres
    or feet as given."""

    def __init__(self, st, start, covs, radii):
        self.st = st
        self.md = [a[0] for a in st]
        self.vec = [ref.vec(D(a[1]), D(a[2])) for a in st]
        self.pos = ref.walk(self.md, [D(a[1]) for a in st],
                            [D(a[2]) for a in st], start)
        self.cov, self.rad = covs, radii

    def leg(self, x):
        k = 0
        while k < len(self.md) - 2 and x > self.md[k + 1]:
            k += 1
        return k

    def at(self, x):
        k = self.leg(x)
        L = self.md[k + 1] - self.md[k]
        p, t = ref.arc_point(self.pos[k], self.vec[k], self.vec[k + 1], L,
                             x - self.md[k])
        w = (x - self.md[k]) / L
        cov = None if self.cov is None else \
            (1 - w) * self.cov[k] + w * self.cov[k + 1]
        return p, t, cov

    def closest(self, q):
        """All (distance, md) minima over the legs, nearest first."""
        out = []
        for k in range(len(self.md) - 1):
            L = self.md[k + 1] - self.md[k]
            out.append(arc_closest(self.pos[k], self.vec[k], self.vec[k + 1],
                                   L, q))
            out[-1] = (out[-1][0], self.md[k] + out[-1][1])
        return sorted(out)


def arc_closest(p, t1, t2, L, q):
    dl = ref.angle(t1, t2)
    d = ref.sub(q, p)
    if dl < 1e-9:
        x = min(max(ref.dot(d, t1), 0.0), L)
        return ref.norm(ref.sub(d, ref.mul(t1, x))), x
    u = ref.unit(ref.sub(t2, ref.mul(t1, math.cos(dl))))
    r = L / dl
    c = ref.sub(d, ref.mul(u, r))              # from the centre
    th = math.atan2(ref.dot(c, t1), -ref.dot(c, u)) % ref.TAU
    xs = [0.0, L] + ([r * th] if th < dl else [])
    return min((ref.norm(ref.sub(q, ref.arc_point(p, t1, t2, L, x)[0])), x)
               for x in xs)


def covset(n, c, scale):
    return np.array([COVS[(k + c) % 3] * (0.2 + k) * scale
                     for k in range(n)])


def turned(cov, a):
    r = np.array([[math.cos(a), -math.sin(a), 0.],
                  [math.sin(a), math.cos(a), 0.], [0., 0., 1.]])
    return r @ cov @ r.T


def make(st, start, covs, radii, refname, cfg, turn=0.0, **kw):
    o = {"grid": 0.0, "true": cfg["conv"],
         "magnetic": cfg["conv"] - DECL}[refname]
    h = header(azi_reference=refname, convergence=cfg["conv"],
               declination=DECL, depth_unit=cfg["unit"],
               surface_unit=cfg["unit"])
    return survey([(m, i, a + o + turn) for m, i, a in st], h,
                  start_nev=list(start), unit=cfg["unit"],
                  cov_nev=None if covs is None else np.array(covs),
                  radius=np.array(radii), **kw)


def clear(a, b, cfg, **kw):
    return repo.load().clearance.IscwsaClearance(
        a, b, k=cfg["k"], sigma_pa=cfg["pa"], Sm=cfg["sm"], **kw)


# -- the definitions --------------------------------------------------------

def verify(rec, key, c, rw, ow, cfg, tag=""):
    """Everything the clearance reports, from the definitions at the closest
    point it reports.  rw: reference Well at the stations of c.ref."""
    n = len(rw.md)
    if not rec.check(len(c.sf) == n, key, f"{tag}{len(c.sf)} results"):
        return None
    rec.close(np.column_stack([c.ref.n, c.ref.e, c.ref.tvd]), rw.pos, key,
              tag + "reference positions", 0, 1e-5)
    tie = []
    for s in range(n):
        q = dict(key, station=s)
        p = rw.pos[s]
        mins = ow.closest(p)
        best, at = mins[0]
        x = float(c.off.md[s])
        if not rec.check(ow.md[0] - 1e-6 <= x <= ow.md[-1] + 1e-6, q,
                         f"{tag}offset depth {x}"):
            return None
        op, ot, ocov = ow.at(x)
        rec.close([c.off.n[s], c.off.e[s], c.off.tvd[s]], op, q,
                  tag + "closest point on the path", 0, 1e-4)
        d = float(c.distance_cc[s])
        rec.close(d, ref.norm(ref.sub(op, p)), q, tag + "distance", 0, 1e-4)
        rec.check(d <= best + 0.02, q,
                  lambda: f"{tag}distance {d} at {x}, but {best} at {at}")
        tie.append(any(m[0] < best + 0.1 and abs(m[1] - at) > 0.5
                       for m in mins[1:]))
        k = ow.leg(x)
        near = {k if x - ow.md[k] < ow.md[k + 1] - x else k + 1}
        ds = [ref.norm(ref.sub(v, p)) for v in ow.pos]
        near |= {i for i, v in enumerate(ds) if v <= min(ds) + 1e-6}
        rec.check(int(c.idx[s]) in near, q, f"{tag}index {c.idx[s]}")
        hole = rw.rad[s] + ow.rad[int(c.idx[s])]
        rec.close(c.calc_hole[s], hole, q, tag + "hole radii", 0, 1e-9)
        rec.close(c.wellbore_separation[s], d - hole - cfg["sm"], q,
                  tag + "wellbore separation", 0, 1e-6)
        if d < 0.5:
            rec.outcome("touching")
            continue
        u = ref.mul(ref.sub(op, p), 1 / d)
        un = np.array(u)
        rp = math.sqrt(max(un @ rw.cov[s] @ un, 0))
        pp = math.sqrt(max(un @ ocov @ un, 0))
        rec.close([c.ref_pcr[s], c.off_pcr[s]], [rp, pp], q,
                  tag + "pedal curve radii", 1e-5, 1e-5)
        eou = cfg["k"] * math.sqrt(rp * rp + pp * pp + cfg["pa"] ** 2)
        if eou < 1e-6:
            rec.outcome("no uncertainty")
            continue
        rec.close(c.eou_boundary[s], eou, q, tag + "boundary", 1e-5, 1e-5)
        rec.close(c.eou_separation[s], d - hole - cfg["sm"] - eou, q,
                  tag + "separation of ellipses", 1e-5, 1e-4)
        rec.close(c.masd[s], hole + cfg["sm"] + eou, q, tag + "masd", 1e-5,
                  1e-4)
        rec.close(c.sf[s], (d - hole - cfg["sm"]) / eou, q,
                  tag + "separation factor", 1e-5, 1e-5)
        rec.close(c.ref_delta_nevs[s], u, q, tag + "direction", 0, 1e-5)
        rec.close(c.off_delta_nevs[s], ref.mul(u, -1), q,
                  tag + "direction back", 0, 1e-5)
        if math.hypot(u[0], u[1]) > 0.01:
            b = math.atan2(u[1], u[0])
            rec.close(ref.wrap(float(c.hoz_bearing[s]) - b), 0.0, q,
                      tag + "bearing", 0, 1e-4)
            rec.close(c.hoz_bearing_deg[s], math.degrees(c.hoz_bearing[s]),
                      q, tag + "bearing in degrees", 0, 1e-6)
        inc, azi = (D(v) for v in rw.st[s][1:])
        h, lat, ax = ref.rot_hla(inc, azi)
        hx, lx = ref.dot(u, h), ref.dot(u, lat)
        if math.hypot(hx, lx) > 0.01:
            tf = math.atan2(lx, hx)
            rec.close(ref.wrap(float(c.toolface_bearing[s]) - tf), 0.0, q,
                      tag + "toolface bearing", 0, 1e-4)
            rec.close(ref.wrap(D(float(c.trav_cyl_azi_deg[s])) - tf - azi),
                      0.0, q, tag + "travelling cylinder azimuth", 0, 1e-4)
        rec.outcome(f"closest {'station' if min(abs(x - m) for m in ow.md) < 1e-3 else 'inside a leg'}"
                    f"{'' if k in (int(np.argmin(ds)), int(np.argmin(ds)) - 1) else ', another leg'}")
    return tie


def pairs(unit, rec):
    _, i, j, p, n, half = unit
    rd, od = (RDIR, ODIR) if n == 3 else (RDIR[:4], ODIR[1:])
    c = i + 2 * j + p
    for rest in product(rd, repeat=n - 2):
        for dirs in product(od, repeat=n):
            if half and (sum(od.index(d) for d in dirs) + p) % 4:
                continue
            if n == 4 and (dirs[0] == dirs[1] or dirs[2] == dirs[3]):
                continue
            c += 1
            if n == 3 and c % 4 and dirs[0] == dirs[1]:
                # straight starts of the offset path once in four
                continue
            rdirs = [rd[i], rd[j], *rest]
            pair(rec, rdirs, dirs, POS[p], CFG[c % 4], c)
    rec.sample({"reference": [RDIR[i], RDIR[j]], "position": POS[p]})


def path(dirs, legs, md0):
    out, m = [], md0
    for k, d in enumerate(dirs):
        out.append((m, *d))
        m += legs[k % len(legs)]
    return out


def steep(st):
    v = [ref.vec(D(a), D(b)) for _, a, b in st]
    return any(ref.angle(x, y) > D(170) for x, y in zip(v, v[1:]))


def pair(rec, rdirs, odirs, pos, cfg, c):
    rst = path(rdirs, RLEG[c % 2], 0.0 if c % 3 else 120.0)
    ost = path(odirs, OLEG[c % 3], 0.0)
    if steep(rst) or steep(ost):
        rec.outcome("skipped: near reversal")
        return
    key = {"reference": rst, "offset": ost, "pos": pos, "cfg": cfg}
    s1 = (10.0, -20.0, 30.0)
    s2 = ref.add(s1, pos)
    rw = Well(rst, s1, covset(len(rst), c, 1.0),
              [0.1 + 0.05 * k for k in range(len(rst))])
    ow = Well(ost, s2, covset(len(ost), c + 1, 2.0),
              [0.2 + 0.04 * k for k in range(len(ost))])
    rec.state(repr(key))
    with rec.case(key):
        a = make(rst, s1, rw.cov, rw.rad, cfg["ref"][0], cfg)
        b = make(ost, s2, ow.cov, ow.rad, cfg["ref"][1], cfg)
        rec.trans()
        x = clear(a, b, cfg, minimize_sf=False)
        tie = verify(rec, key, x, rw, ow, cfg)
        rec.trace()
        if tie is None or c % 4:
            return
        # a higher confidence multiplier
        rec.trans()
        y = clear(a, b, dict(cfg, k=cfg["k"] * 1.5), minimize_sf=False)
        for s in range(len(rst)):
            if x.sf[s] > 0:
                rec.check(y.sf[s] <= x.sf[s] + 1e-9, dict(key, station=s),
                          f"sf {x.sf[s]} rises to {y.sf[s]} with k")
        # turned and moved together
        rec.trans()
        g = D(TURN)

        def mv(v):
            return (v[0] * math.cos(g) - v[1] * math.sin(g) + MOVE[0],
                    v[0] * math.sin(g) + v[1] * math.cos(g) + MOVE[1],
                    v[2] + MOVE[2])
        z = clear(make(rst, mv(s1), turned(rw.cov, g), rw.rad,
                       cfg["ref"][0], cfg, TURN),
                  make(ost, mv(s2), turned(ow.cov, g), ow.rad,
                       cfg["ref"][1], cfg, TURN), cfg, minimize_sf=False)
        for s, t in enumerate(tie):
            q = dict(key, station=s, turned=True)
            rec.close(z.distance_cc[s], x.distance_cc[s], q, "distance", 0,
                      0.03)
            if not t and x.distance_cc[s] > 0.5 and z.idx[s] == x.idx[s]:
                rec.close(z.sf[s], x.sf[s], q, "separation factor", 5e-3,
                          5e-3)


# -- refinement between stations -------------------------------------------

def refine(unit, rec):
    _, i, j = unit
    rdirs = [(20.0, 10.0), (25.0 + 10 * i, 15.0), (40.0, 20.0 + 20 * i),
             (45.0, 60.0), (50.0, 60.0)]
    odirs = [(10.0 + 10 * j, 200.0), (35.0, 215.0 + 10 * j), (40.0, 225.0),
             (45.0, 220.0)]
    for p, cfg in product(POS, CFG):
        rst = path(rdirs, (90.0, 60.0, 120.0, 60.0), 500.0)
        ost = path(odirs, (150.0, 100.0, 200.0), 400.0)
        # cross the middle of the reference path
        key = {"refine": [i, j], "pos": p, "cfg": cfg}
        r0 = Well(rst, (0., 0., 0.), None, None)
        o0 = Well(ost, (0., 0., 0.), None, None)
        s2 = ref.add(ref.sub(r0.pos[2], o0.pos[1]), ref.mul(p, 0.3))
        rw = Well(rst, (0., 0., 0.), covset(5, i, 1.0),
                  [0.1 + 0.05 * k for k in range(5)])
        ow = Well(ost, s2, covset(4, j, 2.0),
                  [0.2 + 0.04 * k for k in range(4)])
        rec.state(repr(key))
        with rec.case(key):
            a = make(rst, (0., 0., 0.), rw.cov, rw.rad, cfg["ref"][0], cfg)
            b = make(ost, s2, ow.cov, ow.rad, cfg["ref"][1], cfg)
            x = clear(a, b, cfg, minimize_sf=False)
            y = clear(a, b, cfg)
            rec.trans(2)
            md = [float(v) for v in y.ref.md]
            if not rec.check(all(min(abs(m - v) for v in md) < 1e-9
                                 for m in rw.md)
                             and all(q > w for w, q in zip(md, md[1:])),
                             key, f"stations {md}"):
                continue
            old = [min(range(len(md)), key=lambda q: abs(md[q] - m))
                   for m in rw.md]
            low = [s for s in range(1, 4)
                   if x.sf[s] < x.sf[s - 1] and x.sf[s] < x.sf[s + 1]]
            extra = [m for q, m in enumerate(md) if q not in old]
            rec.check(len(extra) <= len(low) and
                      all(any(rw.md[s - 1] <= m <= rw.md[s + 1] for s in low)
                          for m in extra), key,
                      f"added stations {extra}, minima at {low}")
            rec.outcome(f"{len(extra)} of {len(low)} minima refined")
            st2, cov2, rad2, pos2 = [], [], [], []
            for q, m in enumerate(md):
                p_, t_, c_ = rw.at(m)
                h = ref.inc_azi(t_)
                st2.append((m, math.degrees(h[0]), math.degrees(h[1])))
                cov2.append(c_)
                pos2.append(p_)
                k = rw.leg(m)
                if q in old:
                    rad2.append(rw.rad[old.index(q)])
                else:
                    r = float(y.ref.radius[q])
                    rec.check(min(rw.rad[k:k + 2]) - 1e-9 <= r
                              <= max(rw.rad[k:k + 2]) + 1e-9, key,
                              f"radius {r} at {m}")
                    rad2.append(r)
            w = Well(st2, pos2[0], cov2, rad2)
            w.pos = pos2
            verify(rec, key, y, w, ow, cfg, "refined ")
            rec.close([y.sf[q] for q in old], x.sf, key,
                      "separation factors at the stations", 1e-6, 1e-6)
            L = y.get_lines()
            rec.close(L[0], pos2, key, "lines start", 0, 1e-5)
            rec.close(L[1], np.column_stack([y.off.n, y.off.e, y.off.tvd]),
                      key, "lines end", 0, 1e-9)
            rec.trace()
    rec.sample({"refine": [rdirs, odirs]})


# -- side tracks ------------------------------------------------------------

def kop(unit, rec):
    _, i, j = unit
    rdirs = [(0.0, 0.0), (10.0, 30.0), (30.0 + 10 * i, 40.0), (50.0, 80.0)]
    odirs = [(0.0, 0.0), (15.0, 20.0 + 15 * j), (40.0, 10.0), (60.0, 350.0)]
    cfg = CFG[(i + j) % 4]
    rst = path(rdirs, (300.0, 150.0, 100.0), 0.0)
    ost = path(odirs, (280.0, 200.0, 300.0), 0.0)
    s2 = POS[i % len(POS)]
    ow = Well(ost, s2, covset(4, j, 2.0), [0.2] * 4)
    for model, at in product((None, *MODELS),
                             (-math.inf, 0.0, 1.0, 300.0, 420.0, 450.0)):
        key = {"kop": [i, j], "depth": str(at), "error model": model,
               "cfg": cfg}
        cv = covset(4, i, 1.0)
        rad_ = [0.1, 0.15, 0.2, 0.25]
        rec.state(repr(key))
        with rec.case(key):
            if model:
                a = make(rst, (0., 0., 0.), None, rad_, cfg["ref"][0], cfg,
                         error_model=model)
                cv = np.array(a.cov_nev)
            else:
                a = make(rst, (0., 0., 0.), cv, rad_, cfg["ref"][0], cfg)
            b = make(ost, s2, ow.cov, ow.rad, cfg["ref"][1], cfg)
            rec.trans()
            x = clear(a, b, cfg, minimize_sf=False, kop_depth=at)
            k = min(s for s in range(4) if rst[s][0] >= at)
            full = Well(rst, (0., 0., 0.), cv, rad_)
            if model and k:
                cv = below(a, k)
                rec.close(cv[0], np.zeros((3, 3)), key,
                          "uncertainty at the kick-off point", 0, 1e-9)
            elif k:
                cv = cv[k:]
            w = Well(rst[k:], full.pos[k], cv, rad_[k:])
            rec.close(np.asarray(x.ref.cov_nev).reshape(-1, 3, 3), w.cov,
                      key, "covariance below the kick-off point", 1e-7, 1e-7)
            rec.close(x.ref.md, w.md, key, "depths below kick-off", 0, 1e-9)
            verify(rec, key, x, w, ow, cfg)
            rec.outcome(f"kick-off at station {k}"
                        + (" with error model" if model else ""))
            rec.trace()
    rec.sample({"kick-off": [rdirs, odirs]})


def below(a, k):
    """Sum over the error sources of what accumulated below the kick-off
    point (sources that only act on depth keep their absolute value)."""
    scale = 0.3048 if a.unit == "feet" else 1.0
    g = float(a.header.convergence)
    tot = np.zeros((len(a.md) - k, 3, 3))
    for e in a.err.errors.errors.values():
        dia = np.asarray(e.e_DIA)
        depth = dia.ndim == 2 and not np.any(np.abs(dia[:, 1:]) > 1e-10) \
            and np.any(np.abs(dia[:, 0]) > 1e-10)
        if e.propagation == "random":
            c = np.array(e.cov_NEV[k:])
            if depth:
                c[0] = 0
            else:
                c = c - e.cov_NEV[k]
            tot += c
        else:
            v = np.array(e.sigma_e_NEV[k:])
            if depth:
                v[0] = 0
            else:
                v = v - e.sigma_e_NEV[k]
            tot += np.einsum("ni,nj->nij", v, v)
    return turned(tot, -g) / scale ** 2
