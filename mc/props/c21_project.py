"""C21: projecting ahead follows the stated curvature and toolface."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey, nev, D

ID = "C21"
EXPLANATION = (
    "Complete grid of start directions x toolfaces x dogleg severities x "
    "lengths; every projection (free function, Arc, get_arc in both senses, "
    "survey to bit, survey to target) is compared with the circular arc "
    "stated with high-side / right-side vectors, and the toolface recovered "
    "from the end point must be the one put in.  State = one configuration, "
    "transition = one call; two-step behaviours project ahead again from the "
    "result and must equal a single projection of the summed length.")
ASSUMPTIONS = ["an exactly vertical direction has its toolface counted from "
               "north (azimuth zero)",
               "projections turn less than 180 degrees where a toolface is "
               "recovered"]

INCS = [0.0, 1e-4, 5.0, 45.0, 89.9, 90.0, 120.0, 179.0]
AZIS = [0.0, 37.0, 90.0, 179.5, 265.0, 359.9]
TFS = [0.0, 1e-3, 60.0, 90.0, 179.9, 180.0, 225.0, 300.0, -45.0, 359.999]
DLS = [0.0, 1e-4, 0.5, 3.0, 12.0]
LENS = [0.0, 1e-3, 10.0, 29.9, 250.0]
POS = [(0.0, 0.0, 0.0), (1e5, -2e5, 3000.0)]


def BOUNDS(tier):
    return {"inclinations": INCS, "azimuths": AZIS, "toolfaces": TFS,
            "severities": DLS, "lengths": LENS, "positions": POS,
            "two-step": "every split of every length into two parts from "
                        "the list" if tier != "quick" else "halves"}


def units(tier):
    return [[i, a, tier] for i in INCS for a in AZIS if i or not a]


def expected(p, t, dls, tf, length, per):
    """Arc of curvature dls/per leaving p along t at toolface tf."""
    inc, azi = ref.inc_azi(t)
    hs, rs, al = ref.rot_hla(inc, azi)
    if inc < 1e-12:
        hs, rs = (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)
    u = ref.add(ref.mul(hs, math.cos(tf)), ref.mul(rs, math.sin(tf)))
    k = D(dls) / per
    if k == 0:
        return ref.add(p, ref.mul(t, length)), t
    th = k * length
    pos = ref.add(p, ref.add(ref.mul(t, math.sin(th) / k),
                             ref.mul(u, 2 * math.sin(th / 2) ** 2 / k)))
    return pos, ref.add(ref.mul(t, math.cos(th)), ref.mul(u, math.sin(th)))


def run(unit, rec):
    W = repo.load()
    S, U = W.survey, W.utils
    inc, azi, tier = unit
    t = ref.vec(D(inc), D(azi if inc else 0.0))
    tv = np.array(t)
    for tf in TFS:
        for dls in DLS:
            for ln in LENS:
                for p in POS:
                    free(rec, S, U, inc, azi, t, tv, tf, dls, ln, p, tier)
        arcs(rec, U, inc, azi, t, tf)
        rec.trace()
    for unitname in ("meters", "feet"):
        for refname in ("grid", "true", "magnetic"):
            bit(rec, S, inc, azi, unitname, refname, tier)
    rec.sample({"direction": [inc, azi], "toolfaces": TFS})


def free(rec, S, U, inc, azi, t, tv, tf, dls, ln, p, tier):
    key = {"inc": inc, "azi": azi, "tf": tf, "dls": dls, "len": ln, "pos": p}
    rec.state(repr(key))
    rec.trans()
    scale = 1e-9 * (1 + max(abs(x) for x in p))
    with rec.case(key):
        pos = np.array(p)
        n = S.project_ahead(pos=pos, vec=tv, delta_md=ln, dls=dls,
                            toolface=D(tf), md=1234.5)
        ep, ev = expected(p, t, dls, D(tf), ln, 30)
        rec.close(n.pos_nev, ep, key, "position", 0, 1e-6 + scale)
        rec.close(n.vec_nev, ev, key, "direction", 0, 1e-9)
        rec.close(n.md, 1234.5 + ln, key, "measured depth", 0, 1e-9)
        rec.close(tv, t, key, "caller's direction changed", 0, 0)
        rec.close(pos, p, key, "caller's position changed", 0, 0)
        turn = dls / 30 * ln
        rec.outcome("hold" if dls == 0 else "arc")
        if p == POS[0] and 1e-3 < turn < 179 and ln > 1:
            g = U.get_toolface(np.array(p), tv, np.array(n.pos_nev))
            tol = max(1e-6, 1e-8 / D(turn))
            rec.close(ref.wrap(g - D(tf)), 0.0, key, "toolface recovered",
                      0, tol)
            rec.check(0 <= g <= 2 * math.pi, key, f"toolface {g} range")
            g2 = U.get_toolface_fast(p, tv, n.pos_nev)
            rec.close(ref.wrap(g2 - D(tf)), 0.0, key,
                      "fast toolface recovered", 0, tol)
            g3 = U.get_toolface(np.array([p, p]), np.array([tv, tv]),
                                np.array([n.pos_nev, ep]))
            rec.close([ref.wrap(x - D(tf)) for x in g3], [0, 0], key,
                      "batched toolface", 0, tol)
        if p == POS[0] and ln > 1:
            # two-step: go on along the same circle
            parts = [0.5] if tier == "quick" else [0.1, 1 / 3, 0.5, 0.9]
            for f in parts:
                n1 = S.project_ahead(pos, tv, ln * f, dls, D(tf), 0.0)
                v1 = np.array(n1.vec_nev)
                # toolface of the rest of the arc at the intermediate point
                e2 = expected(p, t, dls, D(tf), ln, 30)[1]
                if D(turn) * (1 - f) > 1e-4 and turn < 179 and \
                        1e-4 < ref.inc_azi(tuple(v1))[0] < math.pi - 1e-4:
                    tf2 = ref.toolface(tuple(v1), e2)
                    n2 = S.project_ahead(np.array(n1.pos_nev), v1,
                                         ln * (1 - f), dls, tf2, n1.md)
                    rec.trans()
                    rec.close(n2.pos_nev, ep, key, f"two steps {f}", 0, 1e-4)
                    rec.close(n2.vec_nev, ev, key, f"two steps {f}", 0, 1e-6)
                    rec.close(n2.md, ln, key, f"two steps {f}", 0, 1e-9)


def arcs(rec, U, inc, azi, t, tf):
    for dl in (0.0, 1e-6, 10.0, 90.0, 170.0, 200.0):
        for r in (1.0, 573.0):
            key = {"arc": [inc, azi, tf, dl, r]}
            rec.trans()
            with rec.case(key):
                dls = math.degrees(30.0 / r)
                for p in (None, POS[1]):
                    v = np.array(t)
                    a = U.Arc(D(dl), r)
                    rec.close(a.delta_md, D(dl) * r, key, "arc length")
                    pos, vec, dmd = U.get_arc(
                        D(dl), r, D(tf), None if p is None else np.array(p),
                        v)
                    ep, ev = expected(p or POS[0], t, dls, D(tf), D(dl) * r,
                                      30)
                    s = 1e-7 if p is None else 1e-4
                    rec.close(pos, ep, key, "arc end", 0, s)
                    rec.close(vec, ev, key, "arc direction", 0, 1e-9)
                    rec.close(dmd, D(dl) * r, key, "arc length")
                    # used backwards: leave against the given direction and
                    # report the direction that arrives
                    pos2, vec2, _ = U.get_arc(
                        D(dl), r, D(tf), None if p is None else np.array(p),
                        v, target=True)
                    back = ref.mul(t, -1.0)
                    bi = ref.inc_azi(back)
                    if 1e-9 < bi[0] < math.pi - 1e-9:
                        ep, ev = expected(p or POS[0], back, dls, D(tf),
                                          D(dl) * r, 30)
                        rec.close(pos2, ep, key, "reverse arc end", 0, s)
                        rec.close(vec2, ref.mul(ev, -1.0), key,
                                  "reverse arc direction", 0, 1e-9)
                    rec.close(v, t, key, "caller's direction changed", 0, 0)
                p0, v0 = U.Arc(D(dl), r).transform(D(tf))
                ep, ev = expected(POS[0], (0., 0., 1.), dls, D(tf),
                                  D(dl) * r, 30)
                rec.close(p0, ep, key, "default arc", 0, 1e-7)
                rec.close(v0, ev, key, "default arc", 0, 1e-9)
                rec.close(U.radius_from_dls(dls), r, key, "radius")
                rec.close(U.radius_from_dls(np.array([dls, 0.0])),
                          [r, math.inf], key, "radii")
                rec.outcome("circle")


def bit(rec, S, inc, azi, unitname, refname, tier):
    conv, decl = 1.7, 4.0
    o = {"grid": 0.0, "true": conv, "magnetic": conv - decl}[refname]
    per = 30.0 if unitname == "meters" else 100.0
    start = [1000.0, -500.0, 40.0]
    for prev in ((0.0, 0.0), (inc, azi), (inc + 2.0, azi + 1.0),
                 (max(inc - 20.0, 0.0), azi - 30.0)):
        st = [(0.0, prev[0] + 4.0, prev[1] + 6.0), (70.0, *prev),
              (170.0, inc, azi)]
        base = {"unit": unitname, "ref": refname, "st": st}
        with rec.case(base):
            h = header(azi_reference=refname, convergence=conv,
                       declination=decl, depth_unit=unitname)
            s = survey([(m, i, a + o) for m, i, a in st], h,
                       start_nev=list(start), unit=unitname)
            t1, t2 = ref.vec(D(prev[0]), D(prev[1])), ref.vec(D(inc), D(azi))
            if ref.angle(t1, t2) > D(170):
                continue
            if inc == 0.0:
                # the high side of a vertical hole is taken from its azimuth
                t2 = (0.0, 0.0, 1.0)
            p = ref.walk([x[0] for x in st], [D(x[1]) for x in st],
                         [D(x[2]) for x in st], start)[-1]
            for ln in (15.0, 60.0):
                for dls, tf in ((None, None), (0.0, 0.0), (3.0, 60.0),
                                (2.0, None)):
                    if tf is None and (inc == 0.0 or inc < 0.01):
                        continue
                    key = dict(base, len=ln, dls=dls, tf=tf)
                    rec.trans()
                    rec.state(repr(key))
                    with rec.case(key):
                        kw = {}
                        if dls is not None:
                            kw["dls"] = dls
                        if tf is not None:
                            kw["toolface"] = D(tf)
                        n = s.project_to_bit(ln, **kw)
                        ed = dls
                        dl = ref.angle(t1, t2)
                        if dls is None:
                            ed = math.degrees(dl) / 100.0 * per
                        if tf is not None:
                            et = D(tf)
                        elif dl < 1e-9:
                            et = 0.0
                            if ed:
                                # a straight leg has no toolface to continue
                                rec.outcome("no toolface to continue")
                                continue
                        else:
                            # go on in the plane of the last arc
                            far = ref.arc_point(p, t1, t2, 100.0,
                                                100.0 + 1.0)[1]
                            et = ref.toolface(t2, far)
                        ep, ev = expected(p, t2, ed, et, ln, per)
                        rec.close(n.pos_nev, ep, key, "bit position", 0, 1e-4)
                        rec.close(n.vec_nev, ev, key, "bit direction",
                                  0, 1e-6)
                        rec.close(n.md, 170.0 + ln, key, "bit depth")
                        rec.outcome(f"bit, {unitname}")
            if tier == "quick" and prev != (inc + 2.0, azi + 1.0):
                continue
            target(rec, S, s, base, p, t1, t2, unitname, per)


def target(rec, S, s, base, p, t1, t, unitname, per):
    Node = repo.load().node.Node
    hs, rs, al = ref.rot_hla(*ref.inc_azi(t))
    for out in ((0.0, 0.0, 900.0), (200.0, -300.0, 1500.0)):
        k = per / 30.0
        tp = ref.add(p, ref.add(ref.mul(t, k * out[2]), ref.add(
            ref.mul(hs, k * out[0]), ref.mul(rs, k * out[1]))))
        for tvec in (None, ref.unit(ref.add(t, ref.mul(rs, -0.4)))):
            for dmd, dls, tf in ((None, 0, 0), (20.0, 2.0, D(30.0)),
                                 (20.0, None, None)):
                key = dict(base, target=out, vec=tvec is not None, dmd=dmd,
                           dls=dls)
                dl = ref.angle(t1, t)
                if dls is None and (dl < 1e-9
                                    or abs(ref.inc_azi(t)[0]) < 1e-3):
                    continue
                rec.trans()
                with rec.case(key):
                    node = Node(pos=list(tp), vec=None if tvec is None
                                else list(tvec), unit=unitname)
                    kw = {} if dmd is None else dict(
                        delta_md=dmd, dls=dls, toolface=tf)
                    if dls is None:
                        dls = math.degrees(dl) / 100.0 * per
                        tf = ref.toolface(t, ref.arc_point(
                            p, t1, t, 100.0, 101.0)[1])
                    r = s.project_to_target(node, dls_design=4.0, step=30,
                                            **kw)
                    rec.close([r.n[0], r.e[0], r.tvd[0]], p, key, "start",
                              0, 1e-4)
                    rec.close(r.md[0], 170.0, key, "start depth")
                    rec.close(r.vec_nev[0], t, key, "start direction",
                              0, 1e-6)
                    rec.close([r.n[-1], r.e[-1], r.tvd[-1]], tp, key,
                              "target position", 0, 2e-2)
                    if tvec is not None:
                        rec.close(r.vec_nev[-1], tvec, key,
                                  "target direction", 0, 1e-4)
                    if dmd is not None:
                        ep, ev = expected(p, t, dls, tf, dmd, per)
                        k = int(np.argmin(np.abs(r.md - 170.0 - dmd)))
                        rec.close(r.md[k], 170.0 + dmd, key, "bit station",
                                  0, 1e-3)
                        rec.close(nev(r)[k], ep, key, "bit position", 0,
                                  1e-3)
                        rec.close(r.vec_nev[k], ev, key, "bit direction",
                                  0, 1e-4)
                    # with a direction the curvature may not be attainable
                    rec.check(tvec is not None or dls and dls > 4.0
                              or float(np.nanmax(r.dls)) <= 4.0 * 1.01, key,
                              lambda: f"dogleg severity {np.nanmax(r.dls)}")
                    rec.check(r.unit == unitname, key, "unit")
                    rec.outcome("target reached")
