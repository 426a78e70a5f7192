"""Independent position-uncertainty oracle: published ISCWSA weighting
functions and propagation, one station and one source at a time, in plain
floats (metres, radians, true north).  Nothing of welleng is imported.

Workbook conventions the library documents and reproduces:
* models other than Rev4 double the north component of the inclination
  derivative of the first leg ("Rev 5.11 funny stuff"), and use the whole
  first leg in the vertical substitutes of ABXY-TI2 / ABIXY-TI2 (east),
  XYM3E / XYM3L (north), XYM4E / XYM4L (east);
* XYM2 always propagates systematically, XYM4L always randomly.
"""
import json
import os
from math import sin, cos, tan, sqrt, pi, radians, inf

import yaml

EARTH_RATE = 0.262516
PROP = {"Random": "random", "Systematic": "systematic", "Global": "global",
        "Well": "within_pad"}
UNIT = {"m": 1.0, "1/m": 1.0, "nT": 1.0, "m/s2": 1.0, "rad": 1.0,
        "deg": pi / 180, "deg/hr": pi / 180, "deg.nT": pi / 180,
        "deg/nT": pi / 180, "-": 1.0, "": 1.0}


class H:
    """Header values of one survey."""

    def __init__(self, dip, b, g=9.80665, lat=0.0, limit=radians(0.0001),
                 tort=radians(1) / 100 * 3.281):
        self.dip, self.b, self.g, self.lat = dip, b, g, lat
        self.limit, self.tort = limit, tort


class St:
    """One station: md, inc, azimuths (true, magnetic), tvd, previous and
    next station."""
    __slots__ = ("md", "i", "t", "m", "tvd", "prev", "next", "k", "d", "dn")


def stations(md, inc, true, mag, tvd):
    out = []
    for k in range(len(md)):
        s = St()
        s.md, s.i, s.t, s.m, s.tvd, s.k = \
            md[k], inc[k], true[k], mag[k], tvd[k], k
        s.prev = s.next = None
        out.append(s)
    for a, b in zip(out, out[1:]):
        a.next, b.prev = b, a
    for s in out:
        s.d = s.md - s.prev.md if s.prev else 0.0
        s.dn = s.next.md - s.md if s.next else 0.0
    return out


def unit(s):
    return (sin(s.i) * cos(s.t), sin(s.i) * sin(s.t), cos(s.i))


# -- weighting functions (depth, inclination, azimuth) ----------------------

def _den(s):
    return 1 - sin(s.i) ** 2 * sin(s.m) ** 2


def _w(s, h):
    """Lazy table of weights for station s."""
    I, A = s.i, s.m                                     # noqa: E741
    si, ci, sa, ca = sin(I), cos(I), sin(A), cos(A)
    td, bh, g = tan(h.dip), h.b * cos(h.dip), h.g
    st, ct = sin(s.t), cos(s.t)
    f = td * ci + si * ca
    r2 = sqrt(2)

    def c():
        return max(1.0, sqrt(10 / s.d))
    return {
        "DREF": lambda: (1, 0, 0),
        "DSF": lambda: (s.md, 0, 0),
        "DST": lambda: (s.md * s.tvd, 0, 0),
        "ABXY_TI1": lambda: (0, -ci / g, ci * td * sa / g),
        "ABXY_TI2": lambda: (0, 0, (ci / si - td * ca) / g),
        "ABZ": lambda: (0, -si / g, si * td * sa / g),
        "ASXY_TI1": lambda: (0, si * ci / r2, -si * td * ci * sa / r2),
        "ASXY_TI2": lambda: (0, si * ci / 2, -si * td * ci * sa / 2),
        "ASXY_TI3": lambda: (0, 0, (si * td * ca - ci) / 2),
        "ASZ": lambda: (0, -si * ci, si * td * ci * sa),
        "MBXY_TI1": lambda: (0, 0, -ci * sa / bh),
        "MBXY_TI2": lambda: (0, 0, ca / bh),
        "MBZ": lambda: (0, 0, -si * sa / bh),
        "MSXY_TI1": lambda: (0, 0, si * sa * f / r2),
        "MSXY_TI2": lambda: (
            0, 0, sa * (td * si * ci - ci * ci * ca - ca) / 2),
        "MSXY_TI3": lambda: (
            0, 0, (ci * ca * ca - ci * sa * sa - td * si * ca) / 2),
        "MSZ": lambda: (0, 0, -(si * ca + td * ci) * si * sa),
        "ABIXY_TI1": lambda: (
            0, -ci / g, ci * ci * sa * f / (g * _den(s))),
        "ABIXY_TI2": lambda: (0, 0, -(td * ca - ci / si) / (g * _den(s))),
        "ABIZ": lambda: (0, -si / g, si * ci * sa * f / _den(s) / g),
        "ASIXY_TI1": lambda: (
            0, si * ci / r2, -si * ci * ci * sa * f / (r2 * _den(s))),
        "ASIXY_TI2": lambda: (
            0, si * ci / 2, -si * ci * ci * sa * f / (2 * _den(s))),
        "ASIXY_TI3": lambda: (0, 0, (td * si * ca - ci) / (2 * _den(s))),
        "ASIZ": lambda: (0, -si * ci, si * ci * ci * sa * f / _den(s)),
        "MBIXY_TI1": lambda: (0, 0, -ci * sa / (bh * _den(s))),
        "MBIXY_TI2": lambda: (0, 0, ca / (bh * _den(s))),
        "MSIXY_TI1": lambda: (0, 0, si * sa * f / (r2 * _den(s))),
        "MSIXY_TI2": lambda: (
            0, 0, sa * (td * si * ci - ci * ci * ca - ca) / (2 * _den(s))),
        "MSIXY_TI3": lambda: (
            0, 0, (ci * ca * ca - ci * sa * sa - td * si * ca)
            / (2 * _den(s))),
        "AZ": lambda: (0, 0, 1),
        "DBH": lambda: (0, 0, 1 / bh),
        "DBHR": lambda: (0, 0, 1 / bh),
        "MDI": lambda: (0, 0, -si * sa * (ci - td * si * ca) / _den(s)),
        "MFI": lambda: (0, 0, -si * sa * f / _den(s) / h.b),
        "AMIL": lambda: (0, 0, si * sa / bh),
        "AMID": lambda: (0, 0, si * sa),
        "SAG": lambda: (0, si, 0),
        "SAGE": lambda: (0, si ** 0.25, 0),
        "XYM1": lambda: (0, abs(si), 0),
        "XYM2": lambda: (0, 0, -1),
        "XYM3": lambda: (0, abs(ci) * ct, -abs(ci) * st / si),
        "XYM4": lambda: (0, abs(ci) * st, abs(ci) * ct / si),
        "XYM3E": lambda: (0, abs(ci) * ct * c(), -abs(ci) * st / si * c()),
        "XYM4E": lambda: (0, abs(ci) * st * c(), abs(ci) * ct / si * c()),
        "XYM3L": lambda: (0, abs(ci) * ct * c(), -abs(ci) * st / si * c()),
        "XYM4L": lambda: (0, abs(ci) * st * c(), abs(ci) * ct / si * c()),
        "CNA": lambda: (0, 0, 1 / si),
        "CNI": lambda: (0, 1, 0),
        # gyro terms of the JSON models
        "AXYZ-MIS": lambda: (0, 1, 0),
        "AXYZ-SF": lambda: (0, 1.3 * si * ci, 0),
        "AXYZ-ZB": lambda: (0, si / g, 0),
        "GXY-B1": lambda: (0, 0, st / (EARTH_RATE * cos(h.lat) * ci)),
        "GXY-B2": lambda: (0, 0, ct / (EARTH_RATE * cos(h.lat))),
        "GXY-G1": lambda: (0, 0, ct * si / (EARTH_RATE * cos(h.lat))),
        "GXY-G4": lambda: (0, 0, st * tan(I) / (EARTH_RATE * cos(h.lat))),
    }


# substitutes at vertical stations: weight directly in (N, E, V) per metre
def _vertical(func, s, h):
    if func in ("ABXY_TI2", "ABIXY_TI2"):
        return (-sin(s.t) / h.g, cos(s.t) / h.g, 0.0)
    if func == "CNA":
        return (-sin(s.t), cos(s.t), 0.0)
    if func == "XYM3":
        return (1.0, 0.0, 0.0)
    if func == "XYM4":
        return (0.0, 1.0, 0.0)
    if func in ("XYM3E", "XYM3L"):
        return (max(1.0, sqrt(10 / s.d)), 0.0, 0.0)
    if func in ("XYM4E", "XYM4L"):
        return (0.0, max(1.0, sqrt(10 / s.d)), 0.0)
    return None


WHOLE_FIRST_LEG = {"ABXY_TI2": 1, "ABIXY_TI2": 1, "XYM3E": 0, "XYM3L": 0,
                   "XYM4E": 1, "XYM4L": 1}


def _dr(s, rev4):
    """Derivatives of r_k and of r_k + (r_{k+1} - r_k) with respect to the
    depth, inclination and azimuth of station k."""
    up = unit(s.prev)
    u = unit(s)
    di = (cos(s.i) * cos(s.t), cos(s.i) * sin(s.t), -sin(s.i))
    da = (-sin(s.i) * sin(s.t), sin(s.i) * cos(s.t), 0.0)
    D1 = [0.5 * (a + b) for a, b in zip(up, u)]
    I1 = [0.5 * s.d * x for x in di]
    if s.k == 1 and not rev4:
        I1[0] *= 2
    A1 = [0.5 * s.d * x for x in da]
    if s.next is None:
        return (D1, I1, A1), (D1, I1, A1)
    un = unit(s.next)
    D2 = [-0.5 * (a + b) for a, b in zip(u, un)]
    I2 = [0.5 * s.dn * x for x in di]
    A2 = [0.5 * s.dn * x for x in da]
    return ((D1, I1, A1),
            tuple([x + y for x, y in zip(p, q)]
                  for p, q in zip((D1, I1, A1), (D2, I2, A2))))


def vectors(func, code, mag, st, h, rev4, json_model=False):
    """(e*, e) of one source at every station."""
    star, full = [(0.0,) * 3], [(0.0,) * 3]
    for s in st[1:]:
        if func in ("XCLA", "XCLH", "XCL"):
            if (code if func == "XCL" else func) == "XCLA":
                dz = (s.t - s.prev.t + pi) % (2 * pi) - pi
                q = abs(sin(s.i) * sin(abs(dz)))
                if s.prev.i < h.limit:
                    q = 0.0
                q = max(q, h.tort * s.d)
                v = (-sin(s.t), cos(s.t), 0.0)
            else:
                q = max(abs(s.i - s.prev.i), h.tort * s.d)
                v = (cos(s.i) * cos(s.t), cos(s.i) * sin(s.t), -sin(s.i))
            v = tuple(s.d * q * mag * x for x in v)
            star.append(v)
            full.append(v)
            continue
        sub = _vertical(func, s, h) if s.i < h.limit else None
        if sub is not None:
            d1, d2 = s.d / 2, (s.d + s.dn) / 2
            a = [d1 * mag * x for x in sub]
            b = [d2 * mag * x for x in sub]
            if s.k == 1 and not rev4 and not json_model \
                    and func in WHOLE_FIRST_LEG:
                c = WHOLE_FIRST_LEG[func]
                a[c] = s.d * mag * sub[c]
                b[c] = (s.d + s.dn / 2) * mag * sub[c]
            star.append(tuple(a))
            full.append(tuple(b))
            continue
        w = _w(s, h)[func]()
        p1, p2 = _dr(s, rev4)
        star.append(tuple(mag * sum(w[q] * p1[q][x] for q in range(3))
                          for x in range(3)))
        full.append(tuple(mag * sum(w[q] * p2[q][x] for q in range(3))
                          for x in range(3)))
    return star, full


def outer(v):
    return [[a * b for b in v] for a in v]


def madd(a, b):
    return [[x + y for x, y in zip(r, q)] for r, q in zip(a, b)]


def covariances(star, full, propagation):
    out = []
    if propagation == "random":
        acc = [[0.0] * 3 for _ in range(3)]
        for a, b in zip(star, full):
            out.append(madd(outer(a), acc))
            acc = madd(acc, outer(b))
    else:
        acc = (0.0, 0.0, 0.0)
        for a, b in zip(star, full):
            out.append(outer([x + y for x, y in zip(a, acc)]))
            acc = tuple(x + y for x, y in zip(acc, b))
    return out


# -- model files -------------------------------------------------------------

JSON_FUNC = {  # JSON term name -> weighting function of the table above
    "DRFR": "DREF", "DRFS": "DREF", "DSFS": "DSF", "DSFW": "DSF",
    "DSTG": "DST", "DSTS": "DST", "SAGE": "SAGE", "SAG": "SAG",
    "XYM1": "XYM1", "XYM2": "XYM2", "XYM3": "XYM3", "XYM4": "XYM4",
    "AXYZ-MIS": "AXYZ-MIS", "AXYZ-SF": "AXYZ-SF", "AXYZ-ZB": "AXYZ-ZB",
    "GXY-B1R": "GXY-B1", "GXY-B1S": "GXY-B1", "GXY-B2R": "GXY-B2",
    "GXY-B2S": "GXY-B2", "GXY-G1": "GXY-G1", "GXY-G4": "GXY-G4",
    "EXT-REF": "AZ",
}
# documented schema gaps: terms that name values JSON models do not carry;
# reported by a warning, no contribution
JSON_GAPS = {"XYM3E", "XYM4E", "XCLA", "XCLH", "GXY-RN", "GXY-GD", "GXY-GRW",
             "GZ-GD"}


def load_models(root):
    """{short name: dict(kind, header, terms=[(code, func, mag, prop)],
    inc_max (rad or None), tort)} read from the model files."""
    err = os.path.join(root, "welleng", "errors")
    with open(os.path.join(err, "tool_index.yaml")) as f:
        index = yaml.safe_load(f)
    js = {}
    for sub in sorted(os.listdir(os.path.join(err, "iscwsa_json"))):
        p = os.path.join(err, "iscwsa_json", sub)
        if os.path.isdir(p):
            for fn in sorted(os.listdir(p)):
                if fn.endswith(".json"):
                    with open(os.path.join(p, fn)) as f:
                        d = json.load(f)
                    js[d["metadata"]["short_name"]] = d
    out = {}
    for key, entry in index.items():
        name = entry["Short Name"]
        y = os.path.join(err, "tool_codes", key + ".yaml")
        if os.path.exists(y):
            with open(y) as f:
                d = yaml.safe_load(f)
            hd = d["header"]
            out[name] = dict(
                kind="yaml", terms=[
                    (c, t["function"], float(t["magnitude"]),
                     t["propagation"]) for c, t in d["codes"].items()],
                inc_max=(radians(float(
                    hd["Inclination Range Max"].split(" ")[0]))
                    if "Inclination Range Max" in hd else None),
                tort=hd.get("Default Tortusity (rad/m)",
                            radians(1) / 100 * 3.281))
        elif name in js:
            d = js[name]
            out[name] = dict(
                kind="json", terms=[
                    (t["name"], JSON_FUNC.get(t["name"]),
                     t["value"] * UNIT.get(t["units"], 1.0),
                     PROP[t["propagation_mode"]]) for t in d["terms"]],
                inc_max=radians(d["parameters"].get("inc_max", 180)),
                tort=None)
        else:
            out[name] = dict(kind="missing", terms=[], inc_max=None,
                             tort=None)
    return out


def rule(func, propagation):
    if func == "XYM2":
        return "systematic"
    if func == "XYM4L":
        return "random"
    return propagation
