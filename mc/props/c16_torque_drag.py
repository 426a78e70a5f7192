"""C16: torque and drag."""
import math

import numpy as np

from .. import ref, repo
from ..common import D, header, product, survey

ID = "C16"
EXPLANATION = (
    "Every combination of well shape, hole layout, string layout, fluid, "
    "load and compass rotation of the alphabet is run through the real "
    "torque and drag model and compared, interval by interval, with the "
    "soft-string recurrence written out in plain Python on stations "
    "interpolated by the circle reference; hook loads are compared with the "
    "recurrence for the string moved to each depth.")
ASSUMPTIONS = ["string, hole and survey start at the same depth, the string "
               "ends inside the hole and the hole inside the survey",
               "an element's inclination change is counted upwards (a drop "
               "section adds tension to weight)"]

WELLS = {
    "vertical": [(0, 0, 0), (500, 0, 0), (1000, 0, 0), (2000, 0, 0)],
    "build": [(0, 0, 30), (500, 0, 30), (1000, 40, 30), (2000, 40, 30)],
    "build and drop": [(0, 0, 10), (400, 30, 10), (1200, 50, 10),
                       (2000, 5, 10)],
    "north east": [(0, 0, 350), (600, 30, 350), (1200, 45, 5),
                   (2000, 60, 20)],
    "north west": [(0, 2, 20), (600, 30, 10), (1100, 45, 355),
                   (2000, 80, 340)],
    "horizontal": [(0, 0, 90), (700, 60, 95), (1300, 90, 100),
                   (2000, 97, 85)],
    "turn": [(0, 20, 0), (500, 25, 80), (1000, 30, 160), (2000, 35, 260)],
    "sidetrack": [(250, 40, 200), (700, 55, 190), (1300, 30, 170),
                  (2000, 30, 170)],
    "south": [(0, 0, 180), (800, 35, 175), (1500, 35, 185), (2000, 20, 180)],
}
# fractions of the survey length: section bottoms
HOLES = [[1.0], [0.5, 1.0], [0.25, 0.6, 1.0], [0.37, 0.9]]
STRINGS = [  # (length fraction of survey, method, section fractions)
    (0.9, "bottom_up", [1.0]), (0.8, "bottom_up", [0.1, 0.9]),
    (0.6, "bottom_up", [0.05, 0.25, 0.7]), (0.9, "top_down", [0.4, 0.6]),
    (0.37, "bottom_up", [0.5, 0.5]), (0.5, "top_down", [0.7, 0.2, 0.1])]
LOADS = [dict(), dict(wob=8e4, tob=9e3), dict(overpull=1.5e5),
         dict(wob=5e4, tob=7e3, overpull=1e5)]
SECT = [dict(od=0.2032, unit_weight=2200.0, density=7.85),
        dict(od=0.127, tooljoint_od=0.168, unit_weight=400.0, density=7.85),
        dict(od=0.14, unit_weight=310.0, density=2.7)]
FRIC = [0.18, 0.32, 0.25]


def BOUNDS(tier):
    return {"wells": list(WELLS), "hole layouts": HOLES,
            "string layouts": STRINGS, "loads": LOADS,
            "fluid densities": fluids(tier), "rotations": rots(tier),
            "hook loads": "every well, two strings, all steps"}


def fluids(tier):
    return [1.0, 1.6] if tier == "quick" else [0.0, 1.0, 1.6, 2.2]


def rots(tier):
    return [0, 77, 190] if tier == "quick" else list(range(0, 360, 15))


def units(tier):
    out = [["td", w, h, tier] for w in WELLS for h in range(len(HOLES))]
    out += [["hook", w, tier] for w in WELLS]
    return out


def stations(st, extra):
    """(md, inc, azi) in radians with the extra depths added."""
    md = [s[0] for s in st]
    inc = [D(s[1]) for s in st]
    azi = [D(s[2]) for s in st]
    pos = ref.walk(md, inc, azi)
    rows = {float(m): (i, a) for m, i, a in zip(md, inc, azi)}
    for x in extra:
        if float(x) not in rows:
            rows[float(x)] = ref.inc_azi(ref.at_md(md, inc, azi, pos, x)[1])
    return [(m, *rows[m]) for m in sorted(rows)]


def recurrence(rows, hole, string, fluid, load):
    """rows: stations; hole: [(bottom, friction)]; string: [(bottom, sect)].
    Returns stations (top first) of tension (up, down, rotating) and torque."""
    bottom = string[-1][0]
    rows = [r for r in rows if r[0] <= bottom + 1e-9]
    up = load.get("overpull") or 0.0
    wob = load.get("wob") or 0.0
    t = [up, -wob, -wob]
    q = load.get("tob") or 0.0
    tension, torque = [list(t)], [q]
    for (m1, i1, a1), (m2, i2, a2) in reversed(list(zip(rows, rows[1:]))):
        mid = (m1 + m2) / 2
        s = next(x for b, x in string if mid <= b + 1e-9)
        mu = next(f for b, f in hole if mid <= b + 1e-9)
        w = s["unit_weight"] * (m2 - m1) * (1 - fluid / s["density"])
        th = (i1 + i2) / 2
        fn = [math.hypot(f * ref.wrap(a2 - a1) * math.sin(th),
                         f * (i1 - i2) + w * math.sin(th)) for f in t]
        t = [f + w * math.cos(th) + sg * mu * n
             for f, n, sg in zip(t, fn, (1, -1, 0))]
        q += mu * fn[2] * (s.get("tooljoint_od") or s["od"]) / 2
        tension.append(list(t))
        torque.append(q)
    return ([r[0] for r in rows], list(zip(*reversed(tension))),
            list(reversed(torque)))


def hole_of(h, top, length):
    bots = [top + f * length for f in HOLES[h]]
    return list(zip(bots, FRIC))


def build(hole, top, sdef, length):
    A = repo.load().architecture
    wb = A.WellBore("hole", top, hole[-1][0], method="top_down")
    for b, f in hole:
        wb.add_section(bottom=b, id=0.31, coeff_friction_sliding=f,
                       name="h")
    frac, method, parts = sdef
    total = round(frac * length, 6)
    s = A.BHA("string", top, top + total, method=method)
    out, x = [], 0.0
    if method == "top_down":
        for k, p in enumerate(parts):
            x += p
            b = top + (total if k == len(parts) - 1
                       else round(total * x, 6))
            sec = SECT[::-1][k]
            s.add_section(bottom=b, **sec)
            out.append((b, sec))
    else:
        bot = top + total
        for k, p in enumerate(parts):
            sec = SECT[k]
            ln = round(total * p, 6)
            if k == len(parts) - 1:
                s.add_section(**sec)
            else:
                s.add_section(length=ln, **sec)
            out.insert(0, (bot, sec))
            bot -= ln
    return wb, s, out


def run(unit, rec):
    import welleng.torque_drag as T
    if unit[0] == "hook":
        hook(T, rec, *unit[1:])
        return
    _, name, h, tier = unit
    st = WELLS[name]
    top, length = float(st[0][0]), float(st[-1][0] - st[0][0])
    for si, sdef in enumerate(STRINGS):
        hole = hole_of(h, top, length)
        if top + sdef[0] * length > hole[-1][0]:
            rec.outcome("string longer than hole: outside domain")
            continue
        for fluid, rot in product(fluids(tier), rots(tier)):
            turned = [(m, i, (a + rot) % 360) for m, i, a in st]
            s = survey(turned, header(
                azi_reference=("grid", "true")[rot % 2]))
            wb, bha, string = build(hole, top, sdef, length)
            rows = stations(st, [b for b, _ in hole] + [b for b, _ in
                                                        string])
            for li, load in enumerate(LOADS):
                key = {"well": name, "hole": h, "string": si,
                       "fluid": fluid, "rotation": rot, "load": load}
                rec.trans()
                rec.trace()
                rec.state(repr(key))
                with rec.case(key):
                    td = T.TorqueDrag(s, wb, bha, fluid, **load)
                    judge(rec, key, td, rows, hole, string, fluid, load)


def judge(rec, key, td, rows, hole, string, fluid, load):
    md, base, tq = recurrence(rows, hole, string, fluid, {})
    n = len(md)
    rec.close(np.asarray(td.survey.md)[:n], md, key, "depths", 0, 1e-9)
    want = {"slackoff": base[1], "rotating": base[2], "pickup": base[0]}
    wtq = {"rotating": tq}
    if load:
        _, ten, q = recurrence(rows, hole, string, fluid, load)
        if "wob" in load:
            want.update(drilling=ten[2], sliding=ten[1])
            wtq["drilling"] = q
        if "overpull" in load:
            want["overpull"] = ten[0]
    rec.check(set(td.tension) == set(want) and set(td.torque) == set(wtq),
              key, lambda: f"cases {set(td.tension)} {set(td.torque)}")
    for k, w in want.items():
        rec.close(td.tension[k], w, key, f"tension {k}", 1e-7, 1e-3)
        rec.outcome("tension " + k)
    for k, w in wtq.items():
        rec.close(td.torque[k], w, key, f"torque {k}", 1e-7, 1e-4)
        rec.outcome("torque " + k)
    up, rt, dn = (np.asarray(td.tension[k]) for k in
                  ("pickup", "rotating", "slackoff"))
    rec.check((up >= rt - 1e-6).all() and (dn <= rt + 1e-6).all(), key,
              "pick-up below or slack-off above rotating tension")


def hook(T, rec, name, tier):
    st = WELLS[name]
    top, length = float(st[0][0]), float(st[-1][0] - st[0][0])
    for si in (1, 3):
        hole = hole_of(1, top, length)
        s = survey(st)
        for step in ((400, 333) if tier == "quick" else (400, 333, 150, 90)):
            key = {"well": name, "string": si, "step": step}
            rec.trans()
            rec.trace()
            rec.state(repr(key))
            with rec.case(key):
                wb, bha, string = build(hole, top, STRINGS[si], length)
                h = T.HookLoad(s, wb, bha, 1.3, step=step,
                               ff_range=(0.1, 0.3, 0.1))
                total = string[-1][0] - top
                mds = []
                x = top + step
                while x < top + total - 1e-9:
                    mds.append(x)
                    x += step
                mds.append(top + total)
                rec.close(h.md_range, mds, key, "depths", 0, 1e-9)
                ffs = sorted(h.data)
                rec.check(min(ffs) == 0.1 and max(ffs) == 0.3
                          and any(abs(f - 0.2) < 1e-9 for f in ffs), key,
                          lambda: f"friction factors {ffs}")
                lens = [b - a for a, b in zip(
                    [top] + [b for b, _ in string],
                    [b for b, _ in string])]
                for ff in ffs:
                    for j, md in enumerate(mds):
                        moved, bot = [], md
                        for ln, (_, sec) in reversed(list(zip(lens,
                                                              string))):
                            if bot <= top + 1e-9:
                                break
                            moved.insert(0, (bot, sec))
                            bot -= ln
                        hh = [(b, ff) for b, _ in hole]
                        rows = stations(st, [b for b, _ in hole]
                                        + [b for b, _ in moved])
                        _, ten, _ = recurrence(rows, hh, moved, 1.3, {})
                        rec.close([h.data[ff][k][j] for k in
                                   ("pickup", "slackoff", "rotating")],
                                  [t[0] for t in ten],
                                  dict(key, friction=ff, md=md),
                                  "hook load", 1e-7, 1e-3)
                rec.check(all(v["coeff_friction_sliding"] in FRIC for v in
                              wb.sections.values()), key,
                          "the caller's wellbore was changed")
                rec.outcome("hook loads")
