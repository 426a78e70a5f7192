"""C09: frame, vector, covariance and curvature conversions."""
import math

import numpy as np

from .. import ref, repo
from ..common import D, product

ID = "C09"
EXPLANATION = (
    "Every direction of the grid is passed, alone and in every ordered batch "
    "of up to three, through the angle/vector, NEV/HLA and coordinate-order "
    "conversions together with every vector and covariance of the alphabet "
    "and compared with rotation matrices written out by hand; every "
    "conversion is undone and compared with what went in; lengths, angles, "
    "symmetry and principal values are compared before and after.")
ASSUMPTIONS = ["azimuth of an exactly vertical direction is free: only the "
               "vector is compared there"]

INC = [0.0, 1e-7, 0.01, 30.0, 60.0, 89.999, 90.0, 90.5, 135.0, 179.9999,
       180.0]
AZI = [0.0, 1e-7, 30.0, 90.0, 135.0, 180.0, 200.0, 270.0, 359.9999, 360.0,
       -45.0, 415.0]
VEC = [(1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (-3., 4., 12.),
       (1e-9, 2e-9, -1e-9), (1e6, -2e6, 3e6), (0., 0., 0.), (0.1, 0.2, -0.3)]
START = [((0., 0., 0.), (0., 0., 0.)), ((1., 2., 3.), (0., 0., 0.)),
         ((0., 0., 0.), (10., -20., 30.)), ((5., 6., -7.), (1e3, -2e3, 50.))]
RADII = [1e-3, 0.5, 30.0, 572.9577951308232, 1718.87, 1e6, 1e12]


def _outer(v):
    return [[a * b for b in v] for a in v]


def _msum(*ms):
    return [[sum(m[i][j] for m in ms) for j in range(3)] for i in range(3)]


COV = [
    [[0.] * 3] * 3,
    [[4., 0., 0.], [0., 9., 0.], [0., 0., 1.]],
    _outer((1., -2., 3.)),
    _msum(_outer((1., -2., 3.)), _outer((.5, 0., 1e-3)), _outer((0., 1e2, 1.))),
    [[2.5, 0.3, -0.2], [0.3, 1.5, 0.4], [-0.2, 0.4, 0.9]],
    [[1e-10, 0., 0.], [0., 1e8, 1e2], [0., 1e2, 1.]],
]


def BOUNDS(tier):
    return {"directions": f"{len(INC)} inclinations x {len(AZI)} azimuths",
            "vectors": len(VEC), "covariances": len(COV),
            "batches": "each direction alone; all ordered pairs"
            + ("" if tier == "quick" else " and triples")
            + " over every inclination x 4 azimuths",
            "offsets": len(START), "radii": len(RADII)}


def units(tier):
    out = [["dir", i, a] for i in INC for a in AZI]
    small = [(i, a) for i in INC for a in AZI[2::3]]
    if tier == "quick":
        out += [["batch", [p], 2] for p in small[::1]]
    else:
        out += [["batch", [p, q], 3] for p in small for q in small[::3]]
    out += [["pos", k] for k in range(len(START))]
    out += [["misc"]]
    out += [["node", i] for i in INC]
    return out


def eig(m):
    return np.sort(np.linalg.eigvalsh(np.array(m)))


def run(unit, rec):
    U = repo.load().utils
    if unit[0] == "dir":
        one_direction(U, rec, unit[1], unit[2])
    elif unit[0] == "batch":
        small = [(i, a) for i in INC for a in AZI[2::3]]
        for p in small:
            batch(U, rec, [tuple(q) for q in unit[1]] + [p])
    elif unit[0] == "pos":
        positions(U, rec, unit[1])
    elif unit[0] == "node":
        nodes(repo.load().node, rec, unit[1])
    else:
        misc(U, rec)


def azi_ok(got, want, inc_deg):
    if inc_deg in (0.0, 180.0):
        return True
    s = max(math.sin(D(inc_deg)), 1e-300)
    return (0 <= got < ref.TAU
            and abs(ref.wrap(got - want)) <= 1e-12 + 1e-16 / s)


def one_direction(U, rec, inc, azi):
    key0 = {"inc": inc, "azi": azi}
    ir, ar = D(inc), D(azi)
    v = ref.vec(ir, ar)
    rec.state(repr(key0))
    for nev in (True, False):
        want = v if nev else (v[1], v[0], v[2])
        for form in ("deg", "rad", "deg-list", "rad-array", "scaled"):
            key = dict(key0, nev=nev, form=form)
            rec.trans()
            with rec.case(key):
                if form == "deg":
                    got = U.get_vec(inc, azi, nev=nev)
                elif form == "rad":
                    got = U.get_vec(ir, ar, nev=nev, deg=False)
                elif form == "deg-list":
                    got = U.get_vec([inc, inc], [azi, azi], nev=nev)
                elif form == "rad-array":
                    got = U.get_vec(np.array([ir, ir]), np.array([ar, ar]),
                                    nev=nev, deg=False)
                else:
                    got = U.get_vec([inc, inc], [azi, azi], nev=nev, r=2.5)
                n = 1 if form in ("deg", "rad") else 2
                k = 2.5 if form == "scaled" else 1.0
                rec.close(got, [ref.mul(want, k)] * n, key, "vector", 0,
                          1e-14)
                rec.outcome("angles to vector")
        for scale in (1.0, 1e-6, 1e5):
            key = dict(key0, nev=nev, scale=scale, back=True)
            rec.trans()
            with rec.case(key):
                a = np.array([ref.mul(want, scale)])
                keep = a.copy()
                got = U.get_angles(a, nev=nev)
                rec.check((a == keep).all(), key, "argument changed")
                rec.check(got.shape == (1, 2), key, f"shape {got.shape}")
                rec.close(got[0, 0], ir, key, "inclination", 0, 1e-13)
                rec.check(azi_ok(got[0, 1], ar, inc), key,
                          lambda: f"azimuth {got[0, 1]} expected {ar}")
                rec.close(U.get_vec(*got.T, nev=nev, deg=False)[0], want,
                          key, "round trip", 0, 1e-14)
                rec.outcome("vector to angles")
    # rotation matrix
    svy = np.array([[100.0, ir, ar]])
    R = ref.rot_hla(ir, ar)
    with rec.case(dict(key0, what="transform")):
        T = U.get_transform(svy)
        k = dict(key0, what="transform")
        rec.close(T, [R], k, "transform", 0, 1e-15)
        T = T[0]
        rec.close(T @ T.T, np.eye(3), k, "orthonormal", 0, 1e-14)
        rec.close(np.cross(T[0], T[1]), T[2], k, "right-handed", 0, 1e-14)
        rec.close(T[2], v, k, "along-hole axis is the hole direction", 0,
                  1e-14)
        rec.close(T[1][2], 0.0, k, "lateral axis horizontal", 0, 0)
        rec.check(T[0][2] <= 1e-15, k, "high side points down")
        rec.close(U.get_transform(svy[0])[0], T, k, "flat survey row", 0, 0)
    for vi, x in enumerate(VEC):
        key = dict(key0, vec=x)
        rec.trans()
        with rec.case(key):
            want = [ref.dot(r, x) for r in R]
            tol = 1e-14 * max(1e-300, ref.norm(x))
            for form in (np.array(x), np.array([x])):
                got = U.NEV_to_HLA(svy, form, cov=False)
                rec.close(got, [want], key, "HLA vector", 0, tol)
            back = U.HLA_to_NEV(svy, got, cov=False)
            rec.close(back, [x], key, "round trip", 0, 2 * tol)
            back = U.HLA_to_NEV(svy, got, cov=False,
                                trans=U.get_transform(svy))
            rec.close(back, [x], key, "round trip, given transform", 0,
                      2 * tol)
            rec.close(np.linalg.norm(got), ref.norm(x), key, "length",
                      0, tol)
            rec.outcome("vector rotated")
    # several vectors per station (mesh vertices)
    with rec.case(dict(key0, what="vertices")):
        hla = np.array([VEC[:6]])
        want = [[sum(R[r][c] * w[r] for r in range(3)) for c in range(3)]
                for w in VEC[:6]]
        rec.close(U.HLA_to_NEV(svy, hla, cov=False), [want],
                  dict(key0, what="vertices"), "vertices", 1e-13, 1e-13)
    for ci, c in enumerate(COV):
        key = dict(key0, cov=ci)
        rec.trans()
        with rec.case(key):
            want = ref.matmul(ref.matmul(R, c), ref.transpose(R))
            mx = max(max(map(abs, r)) for r in c)
            tol = 1e-14 * max(mx, 1e-300)
            a = np.array([c])
            keep = a.copy()
            got = U.NEV_to_HLA(svy, a)
            rec.check((a == keep).all(), key, "argument changed")
            rec.close(got, [want], key, "HLA covariance", 0, tol)
            rec.close(got[0], got[0].T, key, "symmetry", 0, tol)
            rec.close(eig(got[0]), eig(c), key, "principal values", 0,
                      10 * tol)
            rec.close(U.HLA_to_NEV(svy, got), [c], key, "round trip", 0,
                      4 * tol)
            rec.close(U.HLA_to_NEV(svy, got, trans=U.get_transform(svy)),
                      [c], key, "round trip, given transform", 0, 4 * tol)
            rec.outcome("covariance rotated")
    rec.trace()


def batch(U, rec, dirs):
    """Rows of a batch do not influence each other."""
    key = {"batch": dirs}
    n = len(dirs)
    rec.state(repr(key))
    rec.trans()
    rec.trace()
    rec.outcome(f"batch of {n}")
    with rec.case(key):
        svy = np.array([[30.0 * k, D(i), D(a)]
                        for k, (i, a) in enumerate(dirs)])
        R = [ref.rot_hla(D(i), D(a)) for i, a in dirs]
        vs = np.array([VEC[3 + k] for k in range(n)])
        cs = np.array([COV[2 + k] for k in range(n)])
        rec.close(U.get_transform(svy), R, key, "transforms", 0, 1e-15)
        h = U.NEV_to_HLA(svy, vs, cov=False)
        rec.close(h, [[ref.dot(r, x) for r in m] for m, x in zip(R, vs)],
                  key, "vectors", 1e-13, 1e-22)
        rec.close(U.HLA_to_NEV(svy, h, cov=False), vs, key, "vectors back",
                  1e-13, 1e-22)
        hc = U.NEV_to_HLA(svy, cs)
        rec.close(hc, [ref.matmul(ref.matmul(m, c), ref.transpose(m))
                       for m, c in zip(R, cs)], key, "covariances", 1e-12,
                  1e-9)
        rec.close(U.HLA_to_NEV(svy, hc), cs, key, "covariances back", 1e-12,
                  1e-9)
        verts = np.array([[VEC[(k + j) % 5] for j in range(4)]
                          for k in range(n)])
        rec.close(U.HLA_to_NEV(svy, verts, cov=False),
                  [[[sum(m[r][c] * w[r] for r in range(3)) for c in range(3)]
                    for w in ws] for m, ws in zip(R, verts)], key,
                  "vertices", 1e-13, 1e-13)
        inc, azi = zip(*dirs)
        for nev in (True, False):
            got = U.get_vec(np.array(inc), np.array(azi), nev=nev)
            want = [ref.vec(D(i), D(a)) for i, a in dirs]
            if not nev:
                want = [(w[1], w[0], w[2]) for w in want]
            rec.close(got, want, key, "batch of directions", 0, 1e-14)
            got = U.get_vec(np.array(inc), np.array(azi), nev=nev,
                            r=np.arange(1.0, n + 1))
            rec.close(got, [ref.mul(w, k + 1.0) for k, w in enumerate(want)],
                      key, "batch of scaled directions", 0, 1e-14)
            ang = U.get_angles(np.array(want) * 3.0, nev=nev)
            rec.close(ang[:, 0], [D(i) for i in inc], key, "inclinations",
                      0, 1e-13)
            rec.check(all(azi_ok(g, D(a), i) for g, (i, a)
                          in zip(ang[:, 1], dirs)), key, "azimuths")


def positions(U, rec, k):
    sx, sn = START[k]
    pts = [p for p in VEC]
    sets = [[p] for p in pts] + [[p, q] for p in pts for q in pts] + [pts]
    for ps in sets:
        key = {"start_xyz": sx, "start_nev": sn, "points": ps}
        rec.state(repr(key))
        rec.trans()
        rec.trace()
        with rec.case(key):
            a = np.array(ps)
            keep = a.copy()
            want = [(p[1] - sx[1] + sn[0], p[0] - sx[0] + sn[1],
                     p[2] - sx[2] + sn[2]) for p in ps]
            got = U.get_nev(a, start_xyz=np.array(sx), start_nev=np.array(sn))
            rec.close(got, want, key, "xyz to nev", 1e-14, 1e-9)
            back = U.get_xyz(got, list(sx), list(sn))
            rec.close(back, ps, key, "and back", 1e-14, 1e-9)
            rec.check((a == keep).all(), key, "argument changed")
            x = U.get_xyz(a, start_xyz=list(sx), start_nev=list(sn))
            rec.close(x, [(p[1] - sn[1] + sx[0], p[0] - sn[0] + sx[1],
                           p[2] - sn[2] + sx[2]) for p in ps], key,
                      "nev to xyz", 1e-14, 1e-9)
            rec.close(U.get_nev(x, list(sx), list(sn)), ps, key, "and back",
                      1e-14, 1e-9)
            if len(ps) == 1:
                rec.close(U.get_nev(ps[0], sx, sn), want, key,
                          "a single point", 1e-14, 1e-9)
            rec.outcome("positions")


def misc(U, rec):
    # covariance packing
    sig = [0.0, 1.0, 2.5, 1e-3]
    trip = list(product(sig, repeat=3))
    arr = np.array(trip)
    with rec.case("make_cov"):
        d = U.make_cov(*arr.T)
        lng = U.make_cov(*arr.T, long=True)
        out = U.cov_from_vec(arr)
        for k, s in enumerate(trip):
            key = {"sigmas": s}
            rec.state(repr(key))
            rec.trans()
            rec.close(d[k], np.diag([x * x for x in s]), key, "diagonal", 0,
                      1e-15)
            rec.close(lng[k], _outer(s), key, "fully correlated", 0, 1e-15)
            rec.close(out[k], _outer(s), key, "outer product", 0, 1e-15)
            one = U.make_cov(*(np.array([x]) for x in s), long=True)
            rec.close(one, [_outer(s)], key, "single", 0, 1e-15)
        rec.close(np.array(U.get_sigmas(d)).T, arr, "get_sigmas", "sigmas",
                  1e-15, 1e-15)
        rec.trace()
    with rec.case("long covariance"):
        cs = np.array(COV)
        e = U.errors_from_cov(cs)
        rec.close(e, [[c[0][0], c[0][1], c[0][2], c[1][1], c[1][2], c[2][2]]
                      for c in COV], "errors_from_cov", "errors", 0, 0)
        rec.close(U.make_long_cov(e), COV, "make_long_cov", "back", 0, 0)
        rec.close(U.get_sigmas(cs, long=True),
                  np.array([[c[0][0], c[1][1], c[2][2], c[0][1], c[0][2],
                             c[1][2]] for c in COV]).T, "get_sigmas long",
                  "components", 0, 0)
        rec.close(U.get_sigmas(cs), np.array(
            [[math.sqrt(c[i][i]) for i in range(3)] for c in COV]).T,
            "get_sigmas", "sigmas", 1e-15, 0)
        dd = U.errors_from_cov(cs, data=True)
        for k, c in enumerate(COV):
            rec.close([dd[k][n] for n in ("nn", "ne", "nv", "ee", "ev",
                                          "vv")], list(e[k]),
                      {"errors": k}, "named errors", 0, 0)
            rec.trans()
        rec.trace()
    # curvature
    with rec.case("curvature"):
        for r in RADII:
            dls = 30.0 / r * 180 / math.pi
            key = {"radius": r}
            rec.state(repr(key))
            rec.trans()
            rec.close(U.dls_from_radius(r), dls, key, "severity", 1e-14, 0)
            rec.close(U.radius_from_dls(dls), r, key, "radius", 1e-14, 0)
            rec.close(U.radius_from_dls(U.dls_from_radius(r)), r, key,
                      "round trip", 1e-14, 0)
        for rs in ([1], [0], [0.0], [0, 3], [0.0, 3.0], [2, 30, 0],
                   [0.0, 0.0, 17.5]):
            key = {"radii": rs}
            rec.trans()
            with rec.case(key):
                a = np.array(rs)
                want = [30.0 / r * 180 / math.pi if r else math.inf
                        for r in rs]
                rec.close(U.dls_from_radius(a), want, key, "severities",
                          1e-14, 0)
                rec.close(U.radius_from_dls(a), want, key, "radii", 1e-14, 0)
        rec.trace()
    # annulus
    with rec.case("annulus"):
        for od, idd, ln in product([0.1, 0.31115, 2.0],
                                   [None, 0.0, 0.05, 0.1],
                                   [None, 0.0, 1.0, 1000.0]):
            key = {"od": od, "id": idd, "length": ln}
            want = math.pi * (od * od - (idd or 0) ** 2) / 4 * (
                1 if ln is None else ln)
            rec.trans()
            rec.close(U.annular_volume(od, idd, ln), want, key, "volume",
                      1e-14, 0)
    for v in VEC:
        if any(v):
            with rec.case({"unit": v}):
                rec.close(U.get_unit_vec(np.array(v)), ref.unit(v),
                          {"unit": v}, "unit vector", 0, 1e-15)
    for data in (3.0, None, [1.0, None, 0.0], [], [2]):
        with rec.case({"linear": data}):
            got = U.linear_convert(data, 0.3048)
            f = (lambda d: None if d is None else d * 0.3048)
            rec.check(got == ([f(d) for d in data] if isinstance(data, list)
                              else f(data)), {"linear": data},
                      lambda: f"{got}")
    rec.outcome("packing, curvature, volume")


def nodes(N, rec, inc):
    """A node holds one position and one direction in every representation."""
    for azi, form, k in product(AZI, ("deg", "rad", "vec nev", "vec xyz",
                                      "long vec nev", "array", "none"),
                                range(4)):
        if form == "none" and azi != AZI[0]:
            continue
        p = [None, (0., 0., 0.), (100., -20., 3000.), (-1e6, 5., 0.1)][k]
        v = ref.vec(D(inc), D(azi))
        for nev in (True, False):
            key = {"node": form, "inc": inc, "azi": azi, "pos": p,
                   "nev": nev}
            rec.state(repr(key))
            rec.trans()
            with rec.case(key):
                pos = None if p is None else list(p)
                if pos is not None and form == "array":
                    pos = np.array([pos])
                kw = dict(pos=pos, nev=nev, md=12.5)
                kw.update({
                    "deg": dict(inc=inc, azi=azi),
                    "rad": dict(inc=D(inc), azi=D(azi), degrees=False),
                    "vec nev": dict(vec=list(v)),
                    "vec xyz": dict(vec=[v[1], v[0], v[2]]),
                    "long vec nev": dict(vec=[7. * x for x in v]),
                    "array": dict(vec=np.array([v])),
                    "none": {}}[form])
                if "vec" in kw and (form == "vec xyz") == nev:
                    continue
                n = N.Node(**kw, comment="x")
                rec.check(n.md == 12.5 and n.comment == "x"
                          and n.unit == "meters", key, "attributes lost")
                rec.close(n.cov_nev, np.zeros((1, 3, 3)), key,
                          "covariance", 0, 0)
                if p is None:
                    rec.check(n.pos_nev is None and n.pos_xyz is None, key,
                              "position out of nothing")
                else:
                    q = p if nev else (p[1], p[0], p[2])
                    rec.close(n.pos_nev, q, key, "pos_nev", 0, 1e-9)
                    rec.close(n.pos_xyz, [q[1], q[0], q[2]], key, "pos_xyz",
                              0, 1e-9)
                if form == "none":
                    rec.check(all(getattr(n, a) is None for a in (
                        "vec_nev", "vec_xyz", "inc_rad", "inc_deg",
                        "azi_rad", "azi_deg")), key,
                        "direction out of nothing")
                else:
                    rec.close(n.vec_nev, v, key, "vec_nev", 0, 1e-12)
                    rec.close(n.vec_xyz, [v[1], v[0], v[2]], key, "vec_xyz",
                              0, 1e-12)
                    rec.close([n.inc_rad, n.inc_deg], [D(inc), inc], key,
                              "inclination", 0, 1e-6)
                    if 0.005 < inc < 179.99:
                        rec.close([ref.wrap(n.azi_rad - D(azi)),
                                   ref.wrap(D(n.azi_deg) - D(azi))],
                                  [0., 0.], key, "azimuth", 0, 1e-9)
                got = N.get_node_params(n)
                rec.check(got[0] is n.pos_nev and got[1] is n.vec_nev
                          and got[2] == 12.5, key, "parameters")
                rec.trace()
                rec.outcome("node")
