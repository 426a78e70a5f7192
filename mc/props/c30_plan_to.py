"""C30: planning to an inclination or to a depth."""
import math

import numpy as np

from .. import ref, repo

ID = "C30"
EXPLANATION = (
    "Product exploration: every start direction x target inclination x "
    "dogleg severity x length limit, and every target depth on and off the "
    "way of the section.  The section is walked independently: an arc in the "
    "vertical plane of the start, turned the short way at the design dogleg "
    "severity, followed by a straight section, each solved for the length at "
    "which it first meets the target depth.  Ends, directions, measured "
    "depths and the chaining of the sections are compared with it; depths "
    "that are never met must be refused, and paths of arc, hold and arc are "
    "compared with the arcs walked one after the other.")
ASSUMPTIONS = [
    "target inclinations are between 0 and 180 degrees",
    "depths within 0.01 length units of a turning point of the section or "
    "of its horizontal tangent are not judged",
    "sections which turn by 180 degrees are not rendered as surveys",
    "from a vertical start the plane of the section is free",
    "a length limit of extend_to_tvd cuts the section short"]

D = math.radians
INC = [0.0, 3.0, 30.0, 60.0, 89.0, 90.0, 120.0, 175.0, 180.0]
AZI = [0.0, 135.0, 300.0, 90.0]
TGT = [0.0, 1.0, 10.0, 30.0, 60.0, 90.0, 100.0, 120.0, 180.0]
DLS = [0.5, 3.0, 12.0]
LIMIT = [None, 0.0, 1.0, 50.0, 400.0, 3000.0]
ALONG = [0.0, 5.0, 60.0, 250.0, 700.0, 1500.0, 4000.0]
START = (120.0, -40.0, 1000.0)
MD0 = 1500.0
TF = [0.0, 30.0, 90.0, 200.0, 315.0]
DL = [0.0, 4.0, 45.0, 90.0, 150.0]


def BOUNDS(tier):
    return {"inclinations": INC, "azimuths": AZI, "targets": TGT,
            "dogleg severities": DLS, "length limits": LIMIT,
            "depths at lengths of": ALONG, "toolfaces": TF, "doglegs": DL,
            "tier": "thorough crosses every azimuth with every severity and "
                    "limit; quick takes the azimuths in rotation for depths"}


def units(tier):
    return ([["plan", i, t, tier] for i in range(len(INC))
             for t in range(len(TGT))]
            + [["hold", i, 0, tier] for i in range(len(INC))]
            + [["clc", i, t, tier] for i in range(len(TF))
               for t in range(len(DL))])


class Section:
    """Arc in the vertical plane, then straight."""

    def __init__(self, inc, azi, tgt, dls, unit=30.0):
        self.i0, self.azi = D(inc), D(azi)
        self.i1 = self.i0 if tgt is None else D(tgt)
        self.R = unit / D(dls) if dls else 1.0
        self.s = 1.0 if self.i1 > self.i0 else -1.0
        self.arc = self.R * abs(self.i1 - self.i0)

    def inc(self, L):
        return self.i0 + self.s * min(L, self.arc) / self.R

    def vec(self, L):
        return ref.vec(self.inc(L), self.azi)

    def pos(self, L):
        a, i = min(L, self.arc), self.inc(L)
        r = self.R * self.s * (math.cos(self.i0) - math.cos(i))
        z = self.R * self.s * (math.sin(i) - math.sin(self.i0))
        w = L - a
        r += w * math.sin(i)
        z += w * math.cos(i)
        return (START[0] + r * math.cos(self.azi),
                START[1] + r * math.sin(self.azi), START[2] + z)

    def crossings(self, tvd):
        """Lengths at which the section is at the depth, and how close the
        call is."""
        dz, out, close = tvd - START[2], [], math.inf
        if self.arc:
            q = math.sin(self.i0) + self.s * dz / self.R
            close = min(close, abs(abs(q) - 1) * self.R)
            if abs(q) <= 1:
                for i in (math.asin(q), math.pi - math.asin(q)):
                    L = self.s * (i - self.i0) * self.R
                    if -1e-9 < L <= self.arc:
                        out.append(max(L, 0.0))
        rest = tvd - self.pos(self.arc)[2]
        v = math.cos(self.i1)
        close = min(close, abs(rest))
        if abs(v) > 1e-9 and rest / v >= 0:
            out.append(self.arc + rest / v)
        return sorted(out), close


def run(unit, rec):
    kind, i, t, tier = unit
    {"plan": plan, "hold": hold, "clc": clc}[kind](rec, i, t, tier)
    rec.sample({"kind": kind, "row": [i, t]})


def free(x, inc, pos):
    """From the vertical the plane of the section is free."""
    if inc in (0.0, 180.0):
        x.azi = math.atan2(pos[1] - START[1], pos[0] - START[0])


def node(inc, azi):
    return repo.load().node.Node(pos=list(START), md=MD0, inc=inc, azi=azi)


def ends(rec, key, n, x, L, what):
    rec.close(n.pos_nev, x.pos(L), key, what + " position", 0, 2e-3)
    rec.close(n.vec_nev, x.vec(L), key, what + " direction", 0, 2e-5)
    rec.close(n.md, MD0 + L, key, what + " MD", 0, 2e-3)


def plan(rec, i, t, tier):
    C = repo.load().connector
    inc, tgt = INC[i], TGT[t]
    c = i + t
    for azi in AZI:
        for dls in DLS:
            x = Section(inc, azi, tgt, dls)
            for lim in LIMIT:
                key = {"drop_off": [inc, azi, tgt], "dls": dls, "limit": lim}
                rec.state(repr(key))
                rec.trans()
                with rec.case(key):
                    n = node(inc, azi)
                    got = C.drop_off(tgt, dls, lim, n)
                    free(x, inc, got[0].pos_nev)
                    L = x.arc if lim is None else lim
                    tan = L - x.arc
                    if abs(tan) < 1e-4:
                        tan = 0.0
                    rec.check(len(got) == (2 if tan > 0 else 1), key,
                              f"number of nodes is {len(got)}")
                    rec.outcome("straight" if tan > 0 else "arc")
                    ends(rec, key, got[0], x, min(L, x.arc), "end of arc")
                    ends(rec, key, got[-1], x, L, "end")
                    rec.close(n.pos_nev, START, key, "start kept", 0, 0)
                    rec.close(n.md, MD0, key, "start MD kept", 0, 0)
            c += 1
            if tier == "quick" and c % 4:
                continue
            for a in ALONG:
                for lim in (None, 200.0):
                    depth(rec, x, inc, azi, tgt, dls, x.pos(a)[2], a, lim)
            depth(rec, x, inc, azi, tgt, dls, START[2] + 9000.0, None, None)
            depth(rec, x, inc, azi, tgt, dls, START[2] - 9000.0, None, None)
    with rec.case({"default start": tgt}):
        key = {"default start": tgt}
        got = C.drop_off(tgt, 3.0)
        R = 30 / D(3.0)
        rec.close(got[-1].pos_nev[2], R * math.sin(D(tgt)), key, "depth", 0,
                  1e-3)
        rec.close(math.hypot(*got[-1].pos_nev[:2]),
                  R * (1 - math.cos(D(tgt))), key, "departure", 0, 1e-3)
        rec.close(got[-1].inc_deg, tgt, key, "inclination", 0, 1e-3)
        if 0 < tgt < 90:
            z = R * math.sin(D(tgt)) + 100.0
            e = C.extend_to_tvd(z, target_inc=tgt, dls=3.0)[-1].node_end
            rec.close([e.pos_nev[2], e.inc_deg, e.md],
                      [z, tgt, R * D(tgt) + 100 / math.cos(D(tgt))], key,
                      "to a depth", 0, 1e-2)


def depth(rec, x, inc, azi, tgt, dls, tvd, along, lim):
    C = repo.load().connector
    key = {"extend_to_tvd": [inc, azi, tgt], "dls": dls, "tvd": tvd,
           "limit": lim}
    at, close = x.crossings(tvd)
    if along is not None:
        # the depth is on the way by construction; when it is met at the end
        # of the arc or at a turning point only the depth itself is judged
        at = at or [along]
    rec.state(repr(key))
    rec.trans()
    with rec.case(key):
        try:
            got = C.extend_to_tvd(tvd, node(inc, azi), lim, tgt, dls)
        except ValueError:
            rec.outcome("refused")
            rec.check(not at or close < 0.01, key,
                      f"refused a depth on the way at {at}")
            return
        if not at:
            rec.check(close < 0.01, key,
                      f"a depth off the way: {got[-1].node_end.pos_nev}")
            return
        rec.outcome("reached")
        chain(rec, key, got)
        e = got[-1].node_end
        free(x, inc, e.pos_nev)
        L = at[0]
        if lim is not None and L > lim:
            rec.outcome("cut short")
            L = lim
        else:
            rec.close(e.pos_nev[2], tvd, key, "depth", 0, 1e-2)
        if close < 0.01 and L > 0.01:
            return
        rec.close(e.pos_nev, x.pos(L), key, "end", 0, 1e-2)
        rec.close(e.vec_nev, x.vec(L), key, "direction", 0, 1e-4)
        rec.close(e.md, MD0 + L, key, "MD", 0, 1e-2)
        if x.arc > 0.01 and L - x.arc > 0.01:
            rec.check(len(got) == 2, key, f"{len(got)} sections, not two")
            ends(rec, key, got[0].node_end, x, x.arc, "end of curve")
        else:
            rec.check(len(got) == 1 or x.arc <= 0.01, key,
                      f"{len(got)} sections, not one")


def chain(rec, key, got):
    rec.close(got[0].node_start.pos_nev, START, key, "start", 0, 1e-9)
    rec.close(got[0].node_start.md, MD0, key, "start MD", 0, 1e-9)
    for a, b in zip(got, got[1:]):
        rec.close(b.node_start.pos_nev, a.node_end.pos_nev, key,
                  "sections join", 0, 1e-6)
        rec.close(b.node_start.vec_nev, a.node_end.vec_nev, key,
                  "sections are tangent", 0, 1e-6)
        rec.close(b.node_start.md, a.node_end.md, key, "MDs join", 0, 1e-6)
    a, b = got[0].node_start, got[-1].node_end
    turned = max(ref.angle(g.node_start.vec_nev, g.node_end.vec_nev)
                 for g in got)
    if b.md - a.md > 1.0 and turned < D(179):
        st = repo.load().survey.from_connections(got, step=30.0)
        rec.close([st.md[0], st.md[-1]], [a.md, b.md], key,
                  "MDs of the survey", 0, 1e-3)
        rec.close([st.n[-1], st.e[-1], st.tvd[-1]], b.pos_nev, key,
                  "end of the survey", 0, 1e-2)


def hold(rec, i, t, tier):
    inc = INC[i]
    for azi in AZI:
        x = Section(inc, azi, None, None)
        for a in ALONG + [-30.0, -2000.0]:
            tvd = START[2] + a * math.cos(D(inc))
            if inc == 90.0:
                tvd = START[2] + a
            for lim in (None, 200.0):
                depth(rec, x, inc, azi, None, None, tvd, None, lim)


def clc(rec, i, t, tier):
    U = repo.load().utils
    for tf2 in TF:
        for dl2 in DL:
            for dist in (0.0, 75.0):
                for pos, vec, R in ((None, None, None),
                                    (START, ref.vec(D(40), D(200)), 300.0),
                                    (START, ref.vec(D(90), D(10)), 50.0)):
                    key = {"clc": [TF[i], DL[t], dist, tf2, dl2],
                           "vec": None if vec is None else list(vec)}
                    rec.state(repr(key))
                    rec.trans()
                    with rec.case(key):
                        kw = {} if pos is None else dict(
                            pos0=pos, vec0=vec, radius=R)
                        g = U.make_clc_path(D(TF[i]), D(DL[t]), dist,
                                            D(tf2), D(dl2), **kw)
                        path(rec, key, g, i, t, dist, tf2, dl2,
                             pos or (0., 0., 0.), vec or (0., 0., 1.),
                             R or 1.0)
    rec.sample({"toolface": TF[i], "dogleg": DL[t]})


def turn(p, v, R, tf, dl):
    inc, azi = ref.inc_azi(v)
    if math.sin(inc) < 1e-9:
        azi = 0.0
    high = (math.cos(inc) * math.cos(azi), math.cos(inc) * math.sin(azi),
            -math.sin(inc))
    right = (-math.sin(azi), math.cos(azi), 0.0)
    d = ref.add(ref.mul(high, math.cos(tf)), ref.mul(right, math.sin(tf)))
    q = ref.add(p, ref.add(ref.mul(v, R * math.sin(dl)),
                           ref.mul(d, R * (1 - math.cos(dl)))))
    return q, ref.add(ref.mul(v, math.cos(dl)), ref.mul(d, math.sin(dl)))


def path(rec, key, g, i, t, dist, tf2, dl2, p, v, R):
    p1, v1 = turn(p, v, R, D(TF[i]), D(DL[t]))
    p2 = ref.add(p1, ref.mul(v1, dist))
    p3, v3 = turn(p2, v1, R, D(tf2), D(dl2))
    rec.close(g["pos1"], p1, key, "first arc", 0, 1e-6)
    rec.close(g["vec1"], v1, key, "first direction", 0, 1e-9)
    rec.close(g["pos2"], p2, key, "hold", 0, 1e-6)
    rec.close(g["vec2"], v1, key, "direction of the hold", 0, 1e-9)
    rec.close([g["dist_curve1"], g["dist_curve2"]],
              [R * D(DL[t]), R * D(dl2)], key, "lengths", 0, 1e-6)
    # a vertical hold has no azimuth to measure the second toolface from
    if math.hypot(v1[0], v1[1]) > 1e-6 or dl2 == 0:
        rec.close(g["pos3"], p3, key, "second arc", 0, 1e-6)
        rec.close(g["vec3"], v3, key, "final direction", 0, 1e-9)
