"""C14: uncertainty meshes are closed tubes of the right size."""
import math
from collections import Counter

import numpy as np

from .. import ref, repo
from ..common import header, survey, product, D

ID = "C14"
EXPLANATION = (
    "Every path of the bounded tree is meshed with every combination of "
    "covariance family, method and vertex count (multiplier, margins and "
    "hole radii cycled); every ring is compared with the ring computed from "
    "the definition of the method at its station, the faces are decided to "
    "be a closed surface by counting the directed edges, and their "
    "orientation by the enclosed volume.  Sliced meshes are compared with "
    "the meshes of the slices for every step and bound.  State = (path, "
    "covariance family, settings), transition = one mesh.")
ASSUMPTIONS = [
    "the path turns by at most 75 degrees per leg",
    "matching of neighbouring rings is decided for vertex counts that are "
    "multiples of four from twelve on (the documented minimum)",
    "enclosed volume is decided for tubes thinner than the bends and not "
    "pinched to a line",
]

DIRS = [(0.0, 0.0), (3.0, 200.0), (30.0, 20.0), (60.0, 80.0), (90.0, 359.0),
        (94.0, 45.0)]
LEG = (120.0, 300.0, 60.0, 200.0)
METHODS = ("ellipse", "pedal_curve", "circle")
VERTS = (12, 16, 24, 13, 30, 8, 4)
SET = [dict(sigma=3.0, Sm=0.0, sigma_pa=0.5), dict(sigma=2.0, Sm=0.3,
                                                   sigma_pa=0.0),
       dict(sigma=1.0, Sm=2.0, sigma_pa=3.0), dict(sigma=0.0, Sm=0.0,
                                                   sigma_pa=0.0)]
# covariances in the hole frame: high side, lateral, along
FAM = {"round": lambda k: np.diag([1.0 + k, 1.0 + k, 0.5]),
       "aligned": lambda k: np.diag([4.0 + k, 1.0, 2.0]),
       "crossed": lambda k: np.diag([0.5, 3.0 + k, 2.0]),
       "tilted": lambda k: np.array([[4.0, 1.5 + 0.3 * k, 0.5],
                                     [1.5 + 0.3 * k, 2.0, 0.1],
                                     [0.5, 0.1, 1.0]]),
       "opposite": lambda k: np.array([[2.0, (-1.2) ** (k + 1), 0.1],
                                       [(-1.2) ** (k + 1), 3.0, 0.2],
                                       [0.1, 0.2, 1.0]]),
       "flat": lambda k: np.diag([9.0, 0.0, 1.0]),
       "none": lambda k: np.zeros((3, 3))}
CFG = [dict(ref="grid", conv=0.0, unit="meters", sn=[0., 0., 0.]),
       dict(ref="true", conv=2.5, unit="meters", sn=[100., -50., 20.]),
       dict(ref="magnetic", conv=-1.0, unit="feet", sn=[-7., 8., 900.])]
DECL = 3.0


def BOUNDS(tier):
    q = tier == "quick"
    return {"paths": f"all of {3 if q else 4} stations over {len(DIRS)} "
                     "directions", "covariances": list(FAM),
            "methods": METHODS, "vertex counts": VERTS, "settings": len(SET),
            "slices": "all steps and bounds of paths of 5 stations"}


def units(tier):
    n = 3 if tier == "quick" else 4
    return [["mesh", i, j, n] for i in range(len(DIRS))
            for j in range(len(DIRS))] + [["slice", i] for i in range(6)] \
        + [["faces", n] for n in (3, 4, 7, 12, 16)]


def run(unit, rec):
    {"mesh": meshes, "slice": slices, "faces": faces}[unit[0]](unit, rec)


def build(st, cfg, hla, radii):
    o = {"grid": 0.0, "true": cfg["conv"],
         "magnetic": cfg["conv"] - DECL}[cfg["ref"]]
    h = header(azi_reference=cfg["ref"], convergence=cfg["conv"],
               declination=DECL, depth_unit=cfg["unit"],
               surface_unit=cfg["unit"])
    nev = []
    for (m, i, a), c in zip(st, hla):
        r = np.array(ref.rot_hla(D(i), D(a)))
        nev.append(r.T @ c @ r)
    return survey([(m, i, a + o) for m, i, a in st], h,
                  start_nev=list(cfg["sn"]), unit=cfg["unit"],
                  cov_nev=np.array(nev), radius=np.array(radii))


def path(dirs, c):
    st, m = [], 10.0
    for k, d in enumerate(dirs):
        st.append((m, *d))
        m += LEG[(k + c) % len(LEG)]
    return st


def meshes(unit, rec):
    _, i, j, n = unit
    c = i + j
    for rest in product(DIRS, repeat=n - 2):
        dirs = [DIRS[i], DIRS[j], *rest]
        v = [ref.vec(D(a), D(b)) for a, b in dirs]
        if any(ref.angle(a, b) > D(75) for a, b in zip(v, v[1:])):
            continue
        st = path(dirs, c)
        for fam in FAM:
            c += 1
            cfg = CFG[c % 3]
            radii = [0.1 * (k + 1) if c % 2 else 0.3 for k in range(n)]
            hla = [FAM[fam](k) for k in range(n)]
            key = {"st": st, "cov": fam, "cfg": cfg, "radii": radii}
            s = None
            with rec.case(key):
                s = build(st, cfg, hla, radii)
            if s is None:
                continue
            for method in METHODS:
                if method == "circle" and fam != "round":
                    continue
                for nv in VERTS:
                    c += 1
                    one(rec, key, s, st, cfg, hla, radii, method, nv,
                        SET[c % 4 if c % 12 else 0])
    rec.sample({"first directions": [DIRS[i], DIRS[j]]})


def ring(method, c, rad_, kw, n):
    """Expected ring in the (high side, lateral) plane, and whether it can
    start anywhere on a circle."""
    add = rad_ + kw["Sm"] + kw["sigma_pa"] / 2
    if method == "circle":
        a = b = rad_
        t = 0.0
    elif method == "ellipse":
        p, q, r = c[0, 0], c[0, 1], c[1, 1]
        mid, dev = (p + r) / 2, math.hypot((p - r) / 2, q)
        a = math.sqrt(max(mid + dev, 0)) * kw["sigma"] + add
        b = math.sqrt(max(mid - dev, 0)) * kw["sigma"] + add
        t = 0.5 * math.atan2(2 * q, p - r)
    else:
        a = math.sqrt(c[0, 0]) * kw["sigma"] + add
        b = math.sqrt(c[1, 1]) * kw["sigma"] + add
    if method != "pedal_curve":
        out = []
        for k in range(n):
            lam = 2 * math.pi * k / n
            x, y = a * math.cos(lam), b * math.sin(lam)
            out.append((x * math.cos(t) - y * math.sin(t),
                        x * math.sin(t) + y * math.cos(t)))
        return out, a, b
    out = []
    h = n // 2
    for m, o in ((h, 0.0), (n - h, math.pi)):
        for k in range(m):
            lam = math.acos(1 - 2 * k / m) + o
            u, w = math.cos(lam), math.sin(lam)
            d = b * b * u * u + a * a * w * w
            if d < 1e-18:
                out.append((0.0, 0.0))
            else:
                out.append((a * b * b * u / d, b * a * a * w / d))
    return out, a, b


def one(rec, key, s, st, cfg, hla, radii, method, nv, kw):
    key = dict(key, method=method, verts=nv, **kw)
    rec.state(repr(key))
    rec.trans()
    M = repo.load().mesh
    n = len(st)
    with rec.case(key):
        m = M.WellMesh(s, n_verts=nv, method=method, **kw)
        V = np.asarray(m.vertices)
        if not rec.check(V.shape == (n, nv, 3), key, f"shape {V.shape}"):
            return
        pos = ref.walk([a[0] for a in st], [D(a[1]) for a in st],
                       [D(a[2]) for a in st], cfg["sn"])
        full = np.asarray(m.mesh.vertices)
        rec.close(full[:-2], V.reshape(-1, 3), key, "mesh vertices", 0, 0)
        rec.close(full[-2:], [pos[0], pos[-1]], key, "centres of the ends", 0,
                  1e-6)
        thin = True
        ang = []
        for k in range(n):
            q = dict(key, station=k)
            R = np.array(ref.rot_hla(D(st[k][1]), D(st[k][2])))
            w = (V[k] - np.array(pos[k])) @ R.T
            rec.close(w[:, 2], np.zeros(nv), q, "across the hole", 0, 1e-5)
            want, a, b = ring(method, hla[k], radii[k], kw, nv)
            d = np.hypot(w[:, 0], w[:, 1])
            if method != "pedal_curve" and abs(a - b) < 1e-9 * (a + 1):
                # a circle may start anywhere
                rec.close(d, np.full(nv, a), q, "radius", 0, 1e-6)
                g = np.sort(np.arctan2(w[:, 1], w[:, 0]) % (2 * math.pi))
                gap = np.diff(np.append(g, g[0] + 2 * math.pi))
                if a > 1e-6:
                    rec.close(gap, np.full(nv, 2 * math.pi / nv), q,
                              "spacing", 0, 1e-5)
            else:
                e = np.array(want)
                if method == "ellipse":
                    # the long axis has two ends to start from
                    alt = -e
                    ok = any(match(w[:, :2], x) for x in (e, alt))
                else:
                    ok = match(w[:, :2], e)
                rec.check(ok, q, lambda: f"ring {w[:3, :2].tolist()}..., "
                                         f"expected {want[:3]}...")
            x = w[:, :2]
            ang.append((x, d))
            if max(a, b) > 15 or key["cov"] == "flat":
                thin = False
            # all rings run the same way round
            if min(d) > 1e-6 and nv >= 8:
                area = 0.5 * np.sum(x[:, 0] * np.roll(x[:, 1], -1)
                                    - x[:, 1] * np.roll(x[:, 0], -1))
                # (counts that are not documented as suitable may fail)
                if nv >= 12 and nv % 4 == 0:
                    rec.check(area > 0, q, f"ring area {area}")
        if nv >= 12 and nv % 4 == 0:
            matched(rec, key, V, pos)
        F = np.asarray(m.mesh.faces)
        rec.close(np.asarray(m.faces), F, key, "faces", 0, 0)
        closed(rec, key, F, n * nv + 2)
        rec.check(len(F) == 2 * nv * n, key, f"{len(F)} faces")
        if thin and method != "circle" and nv >= 12 and nv % 4 == 0 and \
                min(min(d) for _, d in ang) > 1e-3:
            t = full[F]
            t = t - np.array(pos[0])
            vol = np.einsum("ij,ij->", t[:, 0], np.cross(t[:, 1], t[:, 2])) / 6
            rec.check(vol > 0, key, f"enclosed volume {vol}")
            rec.outcome("volume decided")
        rec.outcome(f"{method}")
        rec.trace()


def match(got, want):
    """Same points, in cyclic order."""
    j = int(np.argmin(np.hypot(*(want - got[0]).T)))
    for w in (np.roll(want, -j, axis=0),
              np.roll(np.roll(want, -j, axis=0)[::-1], 1, axis=0)):
        if np.abs(got - w).max() < 1e-5:
            return True
    # coinciding points (flat ellipses) may be listed in another order
    d = np.hypot(got[:, None, 0] - want[None, :, 0],
                 got[:, None, 1] - want[None, :, 1])
    return bool((d.min(0) < 1e-5).all() and (d.min(1) < 1e-5).all()) and \
        bool((d < 1e-5).sum(1).max() > 1)


def matched(rec, key, V, pos):
    """First vertex of a ring is the one whose direction is nearest to that
    of the first vertex of the ring before."""
    for k in range(1, len(V)):
        a = V[k - 1] - np.array(pos[k - 1])
        b = V[k] - np.array(pos[k])
        na, nb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
        if min(na[0], nb.min()) < 1e-6:
            rec.outcome("degenerate ring")
            return
        d = np.linalg.norm(b / nb[:, None] - a[0] / na[0], axis=1)
        rec.check(d[0] <= d.min() + 1e-6, dict(key, station=k),
                  f"ring starts {d[0]} from the previous one, nearest "
                  f"{d.min()}")


def closed(rec, key, F, n):
    e = Counter()
    for a, b, c in F.tolist():
        if len({a, b, c}) < 3:
            rec.fail(key, f"degenerate face {a, b, c}")
            return
        e.update(((a, b), (b, c), (c, a)))
    bad = [k for k, v in e.items() if v != 1 or e.get((k[1], k[0])) != 1]
    rec.check(not bad, key, f"edges not shared by two faces running "
                            f"opposite ways: {bad[:4]}")
    rec.check(set(F.ravel().tolist()) == set(range(n)), key,
              f"vertices used {len(set(F.ravel().tolist()))} of {n}")


def faces(unit, rec):
    """The face builder by itself, for all ring counts."""
    nv = unit[1]
    M = repo.load().mesh
    for rows in range(2, 9):
        key = {"faces": [nv, rows]}
        rec.state(repr(key))
        rec.trans()
        with rec.case(key):
            F = M.get_faces(nv, rows)
            closed(rec, key, F, nv * rows + 2)
            # faces join only neighbouring rings or a ring and its centre
            r = np.where(F >= nv * rows, -1, F // nv)
            lo = np.where(r < 0, rows, r).min(1)
            hi = r.max(1)
            rec.check(bool((hi - lo <= 1).all()), key, "faces skip a ring")
            rec.outcome("faces")
            rec.trace()


def slices(unit, rec):
    i = unit[1]
    M, S = repo.load().mesh, repo.load().survey
    st = path([DIRS[i], (20.0, 10.0), (35.0, 30.0), (60.0, 40.0),
               (80.0, 60.0)], i)
    cfg = CFG[i % 3]
    hla = [FAM["tilted"](k) for k in range(5)]
    s = build(st, cfg, hla, [0.1 * (k + 1) for k in range(5)])
    for step, start, stop in product((1, 2, 3, 4), (0, 1, 2),
                                     (-1, 5, 4, 3)):
        end = 5 if stop == -1 else stop
        if end - start < 2:
            continue
        for kw in ({}, dict(method="pedal_curve", n_verts=16, sigma=2.0,
                            Sm=0.3, sigma_pa=1.0)):
            key = {"slice": i, "step": step, "start": start, "stop": stop,
                   "args": kw}
            rec.state(repr(key))
            rec.trans()
            with rec.case(key):
                got = M.sliced_mesh(s, start=start, stop=stop, step=step,
                                    **kw)
                a, want = start, []
                while True:
                    b = min(a + step + 1, end)
                    want.append((a, b))
                    if b == end:
                        break
                    a += step
                rec.check(len(got) == len(want), key,
                          f"{len(got)} meshes, expected {want}")
                for g, (a, b) in zip(got, want):
                    x = M.WellMesh(S.slice_survey(s, a, b), **dict(
                        dict(method="ellipse"), **kw))
                    rec.close(g.vertices, x.mesh.vertices, key,
                              f"mesh of {a}:{b}", 0, 1e-9)
                    rec.close(g.faces, x.mesh.faces, key, "faces", 0, 0)
                rec.outcome("sliced")
                rec.trace()
