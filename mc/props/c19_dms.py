"""C19: degrees-minutes-seconds conversions."""
import math
from fractions import Fraction

import numpy as np

from .. import repo
from ..common import product

ID = "C19"
EXPLANATION = (
    "Every angle of an exact grid of sign x degrees x minutes x seconds is "
    "sent, in every accepted container form and rounding, from decimal to "
    "degrees-minutes-seconds and back and through printing and parsing; the "
    "value is compared with exact rational arithmetic.")
ASSUMPTIONS = ["the sign of an angle is carried by its degrees (minus zero "
               "for angles between -1 and 0 degrees)"]

DEG = [0, 1, 2, 9, 45, 52, 59, 60, 89, 90, 179, 180, 359]
MIN = [0, 1, 4, 29, 30, 58, 59]
SEC = ["0", "0.000000001", "0.0001", "0.004", "0.5", "1", "17.25", "29.99",
       "43.1868", "59", "59.4", "59.5", "59.95", "59.995", "59.99995",
       "59.99999", "59.999999999"]
ND = [None, 0, 1, 2, 4, 6, 8]


def BOUNDS(tier):
    extra = "" if tier == "quick" else (
        "; plus every whole second of four degrees near each sign")
    return {"angles": f"2 signs x {len(DEG)} degrees x {len(MIN)} minutes x "
                      f"{len(SEC)} seconds" + extra,
            "rounding": ND,
            "containers": "number, tuple with direction, array (n,), (n,1), "
                          "table of (value, direction), nested tables"}


def units(tier):
    out = [["grid", s, d] for s in (1, -1) for d in DEG]
    if tier != "quick":
        out += [["dense", s, d, m] for s in (1, -1) for d in (0, 1, 59, 179)
                for m in range(60)]
    return out


def run(unit, rec):
    U = repo.load().utils
    if unit[0] == "grid":
        _, s, d = unit
        vals = [(s, d, m, Fraction(x)) for m in MIN for x in SEC]
    else:
        _, s, d, m = unit
        vals = [(s, d, m, Fraction(k, 2)) for k in range(120)]
    for v in vals:
        angle(U, rec, *v)
    for k in range(0, len(vals) - 3, 3):
        table(U, rec, vals[k:k + 4])
    whole(U, rec, unit[1], unit[2])


def exact(s, d, m, sec):
    return s * (Fraction(d) + Fraction(m, 60) + sec / 3600)


def good(rec, key, dms, x, nd):
    """dms is a decomposition of the float x rounded to nd digits."""
    deg, mi, sec = (float(v) for v in dms[:3])
    ok = (deg == int(deg) and mi == int(mi) and 0 <= mi < 60
          and 0 <= sec < 60)
    rec.check(ok, key, lambda: f"out of range: {tuple(dms)}")
    val = (abs(Fraction(deg)) * 3600 + Fraction(mi) * 60 + Fraction(sec))
    val *= -1 if math.copysign(1, deg) < 0 else 1
    err = abs(val - Fraction(x) * 3600)
    # float rounding of the total seconds, plus the requested rounding
    tol = Fraction(abs(x)) * 3600 / 2 ** 50 + Fraction(1, 10 ** 15)
    if nd is not None:
        tol += Fraction(1, 2 * 10 ** nd)
        rec.check(sec == round(sec, nd), key, f"seconds {sec!r} not rounded")
    rec.check(err <= tol, key, lambda: f"{tuple(dms)} is {float(err)} "
              f"seconds away from {x!r}")


def near(a, b, nd=None):
    tol = 4e-16 * max(1, abs(b)) * 4
    return abs(float(a) - b) <= tol


def angle(U, rec, s, d, m, sec):
    x = float(exact(s, d, m, sec))
    key0 = {"angle": x}
    rec.state(repr(x))
    rec.trace()
    direction = "S" if s < 0 else "E"
    for nd in ND:
        key = dict(key0, ndigits=nd)
        rec.trans()
        with rec.case(key):
            got = U.decimal2dms(x, nd)
            rec.check(np.shape(got) == (1, 3), key, f"shape {np.shape(got)}")
            good(rec, key, got[0], x, nd)
            pair = U.decimal2dms((x, direction), nd)
            rec.check(len(pair) == 4 and pair[3] == direction, key,
                      lambda: f"direction lost: {pair}")
            good(rec, key, pair, x, nd)
            back = U.dms2decimal(got)
            rec.check(np.shape(back) == (1,), key, f"shape {np.shape(back)}")
            back2 = U.dms2decimal(pair)
            rec.check(back2[1] == direction, key, "direction lost")
            tol = 1e-15 * max(1, abs(x)) * 4 + (
                0 if nd is None else 0.5 * 10.0 ** -nd / 3600 * (1 + 1e-9))
            rec.check(abs(back[0] - x) <= tol, key,
                      lambda: f"round trip gives {back[0]!r}")
            rec.check(abs(back2[0] - x) <= tol, key,
                      lambda: f"round trip gives {back2[0]!r}")
            rec.check(math.copysign(1, back[0]) == math.copysign(1, x)
                      or x == 0 or back[0] == 0, key, "sign lost")
            one = U.dms2decimal(tuple(float(v) for v in got[0]))
            rec.check(isinstance(one, float) and abs(one - back[0]) < 1e-13,
                      key, lambda: f"single tuple gives {one!r}")
            # printing and parsing
            for sym in (True, False):
                for dms in (tuple(got[0]), pair, tuple(pair[:3])):
                    text = U.pprint_dms(dms, symbols=sym, return_data=True)
                    p = U.dms_from_string(text)
                    k = dict(key, text=text)
                    same = (p is not None and len(p) == len(dms)
                            and all(float(a) == float(b) and
                                    math.copysign(1, float(a))
                                    == math.copysign(1, float(b))
                                    for a, b in zip(p[:3], dms[:3]))
                            and tuple(p[3:]) == tuple(dms[3:]))
                    rec.check(same, k, lambda: f"parsed as {p}")
            rec.outcome("negative" if x < 0 else "positive")
    # exact inverse in the other direction
    dms = (s * d if d or s > 0 else -0.0, m, float(sec))
    with rec.case(dict(key0, dms=dms)):
        rec.trans()
        rec.check(near(U.dms2decimal(dms), x), dict(key0, dms=dms),
                  lambda: f"decimal {U.dms2decimal(dms)!r}")
        for nd in (0, 1, 3, 8):
            rec.trans()
            k = dict(key0, dms=dms, ndigits=nd)
            alone = U.dms2decimal(dms, ndigits=nd)
            pair = U.dms2decimal((*dms, direction), ndigits=nd)
            rows = U.dms2decimal([[*dms, direction]] * 2, nd)
            bare = U.dms2decimal([list(dms)] * 2, nd)
            rec.check(np.shape(pair) == (2,) and pair[1] == direction
                      and np.shape(rows) == (2, 2) and np.shape(bare) == (2,),
                      k, lambda: f"{pair!r} {rows!r} {bare!r}")
            for v in (alone, pair[0], rows[0][0], rows[1][0], *bare):
                rec.check(abs(v - x) <= 0.5 * 10.0 ** -nd * (1 + 1e-9)
                          and round(float(v), nd) == v, k,
                          lambda: f"{v!r} is not {x!r} to {nd} digits")


def table(U, rec, vals):
    xs = [float(exact(*v)) for v in vals]
    ds = ["N", "E", "S", "W"]
    for nd in (None, 4):
        key = {"table": xs, "ndigits": nd}
        rec.trans()
        with rec.case(key):
            single = [U.decimal2dms((x, d), nd) for x, d in zip(xs, ds)]
            arr = U.decimal2dms(np.array(xs), nd)
            col = U.decimal2dms(np.array(xs).reshape(-1, 1), nd)
            tab = U.decimal2dms(list(zip(xs, ds)), nd)
            nest = U.decimal2dms([list(zip(xs[:2], ds[:2])),
                                  list(zip(xs[2:], ds[2:]))], nd)
            rec.close(arr, [list(q[:3]) for q in single], key, "array", 0, 0)
            rec.close(col, arr, key, "column", 0, 0)
            rec.check(tab.shape == (4, 4) and nest.shape == (2, 2, 4), key,
                      f"shapes {tab.shape} {nest.shape}")
            for q, a, b in zip(single, tab, nest.reshape(4, 4)):
                rec.check(tuple(q) == tuple(a) == tuple(b), key,
                          lambda: f"table row {a} {b} alone {q}")
            rec.check(list(np.signbit(arr[:, 0].astype(float)))
                      == [math.copysign(1, float(q[0])) < 0 for q in single],
                      key, "sign")
            one = [U.dms2decimal(q) for q in single]
            back = U.dms2decimal(tab)
            rec.check(back.shape == (4, 2), key, f"shape {back.shape}")
            back3 = U.dms2decimal(nest)
            rec.check(back3.shape == (2, 2, 2), key, f"shape {back3.shape}")
            for q, a, b in zip(one, back, back3.reshape(4, 2)):
                rec.check(tuple(q) == tuple(a) == tuple(b), key,
                          lambda: f"row {a} {b} alone {q}")
            flat = U.dms2decimal(arr)
            rec.close(flat, [float(q[0]) for q in one], key, "array back",
                      1e-15, 0)
            rec.outcome("table")


def whole(U, rec, s, d):
    """Whole numbers of degrees, as Python and numpy integers."""
    x = s * d
    key = {"whole": x}
    with rec.case(key):
        for v in (x, np.int64(x), float(x)):
            rec.trans()
            got = np.asarray(U.decimal2dms(v), dtype=float).ravel()
            rec.close(got, [x, 0, 0], key, "whole degrees", 0, 0)
        got = U.decimal2dms([x, x + 1])
        rec.close(got, [[x, 0, 0], [x + 1, 0, 0]], key, "list of whole "
                  "degrees", 0, 0)
        got = U.decimal2dms((x, "N"))
        rec.check(tuple(got) == (x, 0, 0, "N"), key, lambda: f"{got}")
