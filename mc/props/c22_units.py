"""C22: feet and metres describe the same well."""
import math

import numpy as np

from .. import ref, repo
from ..core import Skip
from ..common import header, survey, product

ID = "C22"
K = 0.3048
PER = 30.48 / 30          # deg/100 ft for each deg/30 m
EXPLANATION = (
    "Two-run product: every path of the bounded tree is built once in metres "
    "and once in feet, and every operation of the menu is applied to both; "
    "all results are compared with lengths scaled by 0.3048 and curvatures "
    "by 30.48/30.  Connections (every combination of end conditions over a "
    "grid of geometries), clearance and meshes are compared the same way.  "
    "State = (path, configuration), transition = one operation applied to "
    "both runs.")
ASSUMPTIONS = [
    "legs turn by less than 170 degrees",
    "lengths of the feet run are those of the metres run divided by 0.3048, "
    "so rounding may differ; steps do not fall within rounding of a station "
    "unless they coincide with it",
    "connections found by iteration agree to 0.01 m (their own tolerance)",
]

DIRS = [(0.0, 0.0), (3.0, 355.0), (30.0, 20.0), (60.0, 110.0), (90.0, 359.0),
        (94.0, 200.0), (30.0, 24.0)]
LEGS = [(30.0, 90.0, 11.0, 60.0), (200.0, 30.0, 30.0, 7.5)]
CFG = [dict(ref="grid", conv=0.0, sn=[0., 0., 0.], sx=[0., 0., 0.], md0=0.0),
       dict(ref="true", conv=2.5, sn=[100., -50., 20.], sx=[5., 6., 7.],
            md0=50.0),
       dict(ref="magnetic", conv=-1.0, sn=[-7., 8., 900.], sx=[0., 0., 0.],
            md0=0.0)]
MODELS = ["ISCWSA MWD Rev5.11", "GYRO-NS"]
DECL = 3.0
COV = np.array([[4.0, 0.5, 0.1], [0.5, 3.0, -0.2], [0.1, -0.2, 1.0]])


def BOUNDS(tier):
    return {"paths": f"all paths of 4 stations over {len(DIRS)} directions"
                     + ("" if tier == "quick" else "; of 5 over 5"),
            "configurations": len(CFG), "leg lists": len(LEGS),
            "connections": "end conditions x geometries, see targets()",
            "clearance": "pairs of paths in both units",
            "error models": MODELS}


def units(tier):
    n = len(DIRS)
    out = [["path", i, j, 4] for i in range(n) for j in range(n)]
    if tier != "quick":
        out += [["path", i, j, 5] for i in range(n) for j in range(n)]
    out += [["con", i] for i in range(len(targets(tier)[0]))]
    out += [["clr", i] for i in range(3 if tier == "quick" else 6)]
    return out


def run(unit, rec):
    {"path": paths, "con": connections, "clr": clearances}[unit[0]](unit, rec)


def paths(unit, rec):
    _, i, j, n = unit
    alph = DIRS if n == 4 else [DIRS[k] for k in (0, 2, 3, 4, 6)]
    c = i + j
    for rest in product(alph, repeat=n - 2):
        dirs = [DIRS[i], DIRS[j], *rest]
        c += 1
        cfg, L = CFG[c % 3], LEGS[(c // 3) % 2]
        md = [cfg["md0"]]
        for q in range(n - 1):
            md.append(md[-1] + L[q])
        v = [ref.vec(math.radians(a), math.radians(b)) for a, b in dirs]
        if any(ref.angle(p, q) > math.radians(170) for p, q in zip(v, v[1:])):
            continue
        path(rec, [(m, *d) for m, d in zip(md, dirs)], cfg, c)
    rec.sample({"first directions": [DIRS[i], DIRS[j]], "stations": n})


def surface(st, u):
    """The unit of map coordinates, which is independent of that of depths."""
    if int(sum(i + a for _, i, a in st)) // 3 % 2:
        return u
    return "feet" if u == "meters" else "meters"


def build(st, cfg, k, kw):
    u = "meters" if k == 1 else "feet"
    o = {"grid": 0.0, "true": cfg["conv"],
         "magnetic": cfg["conv"] - DECL}[cfg["ref"]]
    h = header(azi_reference=cfg["ref"], convergence=cfg["conv"],
               declination=DECL, depth_unit=u, surface_unit=surface(st, u))
    return survey([(m / k, i, a + o) for m, i, a in st], h,
                  start_nev=[x / k for x in cfg["sn"]],
                  start_xyz=[x / k for x in cfg["sx"]], unit=u, **kw)


class Two:
    """The same result in both units."""

    def __init__(self, rec, case, tol=1e-6):
        self.rec, self.case, self.tol = rec, case, tol

    def length(self, m, f, what, tol=None):
        self.rec.close(np.asarray(f, float) * K, np.asarray(m, float),
                       self.case, what, 1e-9, tol or self.tol)

    def same(self, m, f, what, tol=1e-8):
        self.rec.close(np.asarray(f, float), np.asarray(m, float), self.case,
                       what, 1e-9, tol)

    def rate(self, m, f, what, tol=1e-6):
        self.rec.close(np.asarray(f, float), np.asarray(m, float) * PER,
                       self.case, what, 1e-6, tol)

    def survey(self, m, f, rates=True, tol=None):
        self.rec.check(f.unit == "feet" and m.unit == "meters", self.case,
                       f"units {m.unit}, {f.unit}")
        if not self.rec.check(len(m.md) == len(f.md), self.case,
                              f"{len(m.md)} stations in metres, {len(f.md)} "
                              f"in feet"):
            return
        for a in ("md", "n", "e", "tvd", "x", "y", "z", "pos_nev", "pos_xyz",
                  "radius", "delta_md"):
            self.length(getattr(m, a), getattr(f, a), a, tol)
        for a in ("inc_rad", "inc_deg", "vec_nev", "vec_xyz", "dogleg", "rf"):
            self.same(getattr(m, a), getattr(f, a), a)
        for a in ("azi_grid_rad", "azi_true_rad", "azi_mag_rad"):
            h = np.sin(m.inc_rad)      # a vertical station has no azimuth
            self.same(h * np.cos(getattr(m, a)), h * np.cos(getattr(f, a)), a)
            self.same(h * np.sin(getattr(m, a)), h * np.sin(getattr(f, a)), a)
        self.same([bool(x) for x in m.interpolated],
                  [bool(x) for x in f.interpolated], "interpolated flags")
        if rates:
            self.rate(m.dls, f.dls, "dls")
            real = np.asarray(m.dogleg) > 1e-6
            self.length(np.where(real, m.curve_radius, 0),
                        np.where(real, f.curve_radius, 0), "curve radius",
                        1e-4)
        if m.cov_nev is None:
            self.rec.check(f.cov_nev is None, self.case, "covariance in feet")
        else:
            self.same(m.cov_nev, np.asarray(f.cov_nev) * K * K, "cov_nev",
                      1e-6)
            # a vertical hole has no high side
            h = (np.sin(m.inc_rad) > 1e-3)[:, None, None]
            self.same(np.asarray(m.cov_hla) * h,
                      np.asarray(f.cov_hla) * h * K * K, "cov_hla", 1e-6)
        if m.vertical_section is not None:
            self.length(m.vertical_section, f.vertical_section,
                        "vertical section", tol)

    def node(self, m, f, tol=None):
        self.length(m.pos_nev, f.pos_nev, "node position", tol)
        self.length(m.pos_xyz, f.pos_xyz, "node xyz", tol)
        self.length(m.md, f.md, "node depth", tol)
        self.same(m.vec_nev, f.vec_nev, "node direction", 1e-6)
        self.rec.check(m.unit == "meters" and f.unit == "feet", self.case,
                       f"node units {m.unit}, {f.unit}")


def path(rec, st, cfg, c):
    key = {"st": st, "cfg": cfg}
    rec.state(repr(key))
    kw = {}, {}
    n = len(st)
    kind = ("none", "cov", "radius", "model")[c % 4 if c % 12 else 3]
    key["with"] = kind
    if kind == "cov":
        cv = np.array([COV * (q + 1) for q in range(n)])
        kw = dict(cov_nev=cv), dict(cov_nev=cv / K / K)
    elif kind == "radius":
        r = np.array([0.1 * (q + 1) for q in range(n)])
        kw = dict(radius=r), dict(radius=r / K)
    elif kind == "model" and c % 12 == 0:
        kw = (dict(error_model=MODELS[(c // 12) % 2]),) * 2
    m = f = None
    with rec.case(key):
        try:
            m = build(st, cfg, 1, kw[0])
        except AssertionError as e:
            if "not suitable" in str(e):
                raise Skip
            raise
        f = build(st, cfg, K, kw[1])
        Two(rec, key).survey(m, f)
        rec.trace()
    if f is None:
        return
    v = [ref.vec(math.radians(a), math.radians(b)) for _, a, b in st]
    down = all(math.cos(math.radians(a)) > 0.01 for _, a, _ in st)
    mds = [a[0] for a in st]

    def op(name, fn, *args):
        q = dict(key, op=name, args=list(args))
        rec.trans()
        rec.outcome(name)
        with rec.case(q):
            fn(Two(rec, q), *args)

    # rates at stations where a curved leg starts from an inclined hole
    def rates(t):
        for k in range(1, n - 1):
            if st[k][1] > 1 and st[k][1] < 179 and m.dogleg[k] > 1e-3 \
                    and m.dogleg[k + 1] > 1e-3:
                t.rate(m.build_rate[k], f.build_rate[k], f"build rate {k}")
                t.rate(m.turn_rate[k], f.turn_rate[k], f"turn rate {k}")
        inc = np.array([a[1] for a in st])
        ok = (inc > 1)
        t.same(np.where(ok, np.cos(m.toolface), 0),
               np.where(ok, np.cos(f.toolface), 0), "toolface", 1e-6)
        t.same(np.where(ok, np.sin(m.toolface), 0),
               np.where(ok, np.sin(f.toolface), 0), "toolface", 1e-6)
    op("rates", rates)

    def inter(t, x):
        t.node(m.interpolate_md(x), f.interpolate_md(x / K))
    for a, b in zip(mds, mds[1:]):
        for w in (0.0, 0.3, 0.5, 1.0):
            x = a + w * (b - a)
            if x / K <= f.md[-1]:
                op("interpolate_md", inter, x)

    def resample(t, step):
        t.survey(m.interpolate_survey(step=step),
                 f.interpolate_survey(step=step / K), tol=2e-5)
    for step in ((10.0, 30.0, 47.0) if c % 3 == 0 else
                 ((30.0,) if c % 3 == 1 else (13.0,))):
        op("interpolate_survey", resample, step)

    if down:
        def tvd(t, z):
            t.node(m.interpolate_tvd(z), f.interpolate_tvd(z / K), 1e-4)
        for k in range(n - 1):
            for w in (0.25, 0.8):
                z = m.tvd[k] + w * (m.tvd[k + 1] - m.tvd[k])
                op("interpolate_tvd", tvd, float(z))
        if c % 2 == 0:
            def rtvd(t, step):
                a, b = (m.interpolate_survey_tvd(step=step),
                        f.interpolate_survey_tvd(step=step / K))
                t.length(a.md, b.md, "depths", 1e-3)
                t.length(a.tvd, b.tvd, "tvd", 1e-4)
                t.length(a.n, b.n, "n", 1e-3)
                t.length(a.e, b.e, "e", 1e-3)
                rec.check(b.unit == "feet", t.case, f"unit {b.unit}")
            op("interpolate_survey_tvd", rtvd, 17.0)

    def vs(t, az):
        t.length(m.get_vertical_section(az), f.get_vertical_section(az),
                 "vertical section")
    op("get_vertical_section", vs, 40.0)

    def sections(t, tol, cont):
        a = m._get_sections(rtol=tol, atol=tol, dls_cont=cont)
        b = f._get_sections(rtol=tol, atol=tol, dls_cont=cont)
        if cont:
            d = m.dls
            if any(abs(round(x, 2) - round(y, 2)) < 0.03 and abs(x - y) > 1e-9
                   for x, y in zip(d[1:], d[2:])):
                rec.outcome("skipped: nearly equal curvatures")
                return
        if not rec.check(len(a) == len(b), t.case,
                         f"{len(a)} and {len(b)} sections"):
            return
        t.length([x.md for x in a], [x.md for x in b], "section depths")
        t.length([x.location for x in a], [x.location for x in b],
                 "section locations")
        for g in ("inc", "azi", "toolface"):
            t.same([getattr(x, g) for x in a], [getattr(x, g) for x in b], g,
                   1e-5)
        for g in ("dls", "build_rate", "turn_rate"):
            t.rate([getattr(x, g) for x in a], [getattr(x, g) for x in b], g)
    op("get_sections", sections, 0.1, False)
    op("get_sections", sections, 0.01, True)

    W = repo.load().survey

    def table(t):
        a, b = W.survey_to_df(m), W.survey_to_df(f)
        for x, y in zip(a.columns, b.columns):
            want = x.replace("(m)", "(ft)").replace("/30m", "/100ft")
            rec.check(y == want, t.case, f"column {y}, expected {want}")
            if "(m)" in x:
                t.length(a[x], b[y], x)
            elif "DLS" in x:
                t.rate(a[x], b[y], x)
            elif "deg" in x and "RATE" not in x and "TOOL" not in x:
                t.same(a[x], b[y], x, 1e-6)
    op("survey_to_df", table)

    def bit(t, d, dls, tf):
        t.node(m.project_to_bit(d, dls, tf),
               f.project_to_bit(d / K, None if dls is None else dls * PER, tf),
               1e-5)
    if m.dogleg[-1] < 2.0:
        op("project_to_bit", bit, 20.0, None, None)
    op("project_to_bit", bit, 15.0, 4.0, 0.7)
    op("project_to_bit", bit, 15.0, 0.0, 0.0)

    def target(t, d, pos):
        N = repo.load().node.Node
        a = m.project_to_target(
            N(pos=[float(x) for x in pos], unit="meters"), dls_design=3.0,
            delta_md=d, dls=2.0, toolface=0.4, step=30.0)
        b = f.project_to_target(
            N(pos=[float(x) / K for x in pos], unit="feet"),
            dls_design=3.0 * PER, delta_md=None if d is None else d / K,
            dls=2.0 * PER, toolface=0.4, step=30.0 / K)
        t.survey(a, b, rates=False, tol=1e-3)
    if c % 4 == 1:
        p = np.array([m.n[-1], m.e[-1], m.tvd[-1]])
        far = p + 3000 * np.array(v[-1]) + [400.0, 300.0, 200.0]
        op("project_to_target", target, None, far.tolist())
        op("project_to_target", target, 10.0, far.tolist())

    def curve(t, noise):
        a, b = (m.maximum_curvature(dls_noise=noise),
                f.maximum_curvature(dls_noise=noise * PER))
        t.length(a.md, b.md, "depths")
        t.same(a.vec_nev, b.vec_nev, "directions", 1e-6)
        t.length(a.pos_nev, b.pos_nev, "positions", 1e-4)
    op("maximum_curvature", curve, 0.5)

    def indices(t):
        t.same(m.tortuosity_index(), f.tortuosity_index(), "tortuosity",
               1e-2)
        t.same(m.directional_difficulty_index(),
               f.directional_difficulty_index(), "difficulty", 1e-4)
        # the modified index is per unit length squared over length: scale
        # free
        t.same(m.modified_tortuosity_index(dls_noise=None, dls_tol=None),
               f.modified_tortuosity_index(dls_noise=None, dls_tol=None),
               "modified tortuosity", 1e-6)
    if n == 4 and len({d[1:] for d in st}) == n:
        op("indices", indices)

    def cut(t, a, b):
        t.survey(W.slice_survey(m, a, b), W.slice_survey(f, a, b))
        x = W.splice_surveys([W.slice_survey(m, 0, 3), W.slice_survey(m, 2)])
        y = W.splice_surveys([W.slice_survey(f, 0, 3), W.slice_survey(f, 2)])
        t.survey(x, y)
    op("slice and splice", cut, 1, None)

    if m.cov_nev is not None and all(a[1] > 1 for a in st):
        def mesh(t, method):
            M = repo.load().mesh.WellMesh
            kw = dict(n_verts=12, sigma=2.0, method=method)
            a = M(m, Sm=0.3, sigma_pa=0.5, **kw)
            b = M(f, Sm=0.3 / K, sigma_pa=0.5 / K, **kw)
            h = (np.sin(m.inc_rad) > 1e-3)[:, None, None]
            t.length(a.vertices * h, b.vertices * h, "mesh", 1e-5)
            t.same(a.faces, b.faces, "faces")
        try:
            repo.load().mesh
        except AttributeError:
            return
        op("mesh", mesh, "ellipse")
        op("mesh", mesh, "pedal_curve")


# ---------------------------------------------------------------------------

def targets(tier):
    dirs = [(0.0, 0.0), (30.0, 45.0), (90.0, 200.0)]
    ends = [(0.0, 0.0), (45.0, 300.0), (90.0, 30.0)]
    rel = [(0.0, 0.0, 900.0), (700.0, 100.0, 800.0), (-600.0, 900.0, 300.0),
           (150.0, 40.0, 1500.0)]
    return (list(product(dirs, ends)), rel)


def connections(unit, rec):
    C = repo.load().connector
    (d1, d2) = targets("quick")[0][unit[1]]
    p1 = (100.0, -200.0, 500.0)
    v1, v2 = (ref.vec(*map(math.radians, d)) for d in (d1, d2))
    turn = ref.angle(v1, v2)
    for kind in ("direction", "direction+md", "hold", "position",
                 "position+direction"):
        for rel in targets("quick")[1]:
            if kind == "position+direction":
                rel = ref.mul(rel, 10)
            pos = ref.add(p1, rel)
            for dls in (2.0, 3.5):
                key = dict(connection=kind, d1=d1, d2=d2, rel=rel, dls=dls)
                if kind in ("direction", "direction+md", "hold") and \
                        rel != targets("quick")[1][0]:
                    continue
                if kind == "direction" and not 1e-3 < turn < 3.0:
                    continue
                if "position" in kind:
                    away = ref.angle(v1, rel)
                    if away > math.radians(150):
                        continue
                one = {}
                rec.state(repr(key))
                rec.trans()
                with rec.case(key):
                    for k, u, s in ((1, "meters", 1.0), (K, "feet", PER)):
                        kw = dict(pos1=[x / k for x in p1], inc1=d1[0],
                                  azi1=d1[1], md1=1000.0 / k,
                                  dls_design=dls * s, unit=u, degrees=True)
                        if "direction" in kind:
                            kw.update(inc2=d2[0], azi2=d2[1])
                        if kind == "direction+md":
                            kw.update(md2=2500.0 / k)
                        if kind == "hold":
                            kw.update(md2=1700.0 / k)
                        if "position" in kind:
                            kw.update(pos2=[x / k for x in pos])
                        one[u] = C.Connector(**kw)
                    m, f = one["meters"], one["feet"]
                    t = Two(rec, key, 0.02)
                    rec.check(m.method == f.method, key,
                              f"methods {m.method}, {f.method}")
                    t.length(m.md_target, f.md_target, "length", 0.05)
                    t.length(m.pos_target, f.pos_target, "end position",
                             0.05)
                    t.same(m.vec_target, f.vec_target, "end direction", 1e-3)
                    t.length(m.radius_design, f.radius_design, "radius")
                    S = repo.load().survey
                    a = S.from_connections([m], step=30.0)
                    b = S.from_connections([f], step=30.0 / K,
                                           depth_unit="feet",
                                           surface_unit="meters")
                    t.length([a.n[-1], a.e[-1], a.tvd[-1], a.md[-1]],
                             [b.n[-1], b.e[-1], b.tvd[-1], b.md[-1]],
                             "survey end", 0.1)
                    rec.check(b.unit == "feet", key, f"unit {b.unit}")
                    rec.trace()
                    rec.outcome("connection " + kind)
    rec.sample({"connection": [d1, d2]})


def clearances(unit, rec):
    W = repo.load()
    g = unit[1]
    a = [(0.0, 0.0, 0.0), (300.0, 0.0, 0.0), (500.0, 20.0, 40.0),
         (900.0, 45.0 + 5 * g, 60.0)]
    b = [(0.0, 0.0, 0.0), (250.0, 3.0, 200.0), (600.0, 15.0, 30.0 + 20 * g),
         (950.0, 40.0, 80.0)]
    key = {"clearance": [a, b]}
    out = {}
    rec.state(repr(key))
    rec.trans()
    with rec.case(key):
        for k in (1, K):
            u = "meters" if k == 1 else "feet"
            s = []
            for st, sn in ((a, [0., 0., 0.]), (b, [10., 12., 3.])):
                h = header(depth_unit=u, surface_unit=surface(st, u), b_total=50000.0,
                           dip=70.0)
                s.append(survey([(x / k, i, z) for x, i, z in st], h,
                                start_nev=[x / k for x in sn], unit=u,
                                error_model="ISCWSA MWD Rev5.11",
                                radius=0.15 / k))
            out[u] = W.clearance.IscwsaClearance(
                s[0], s[1], sigma_pa=0.5 / k, Sm=0.3 / k)
        m, f = out["meters"], out["feet"]
        t = Two(rec, key)
        t.length(m.distance_cc, f.distance_cc, "distance", 1e-3)
        t.same(m.sf, f.sf, "separation factor", 1e-3)
        t.length(m.masd, f.masd, "masd", 1e-2)
        t.same(m.idx, f.idx, "index")
        rec.trace()
        rec.outcome("clearance")
