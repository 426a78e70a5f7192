"""C11: every error source follows the published weighting function and
propagation rule."""
import warnings

import numpy as np
from math import sin, radians, degrees, pi

from .. import repo, ref, errref as er
from ..common import header, survey, product

ID = "C11"
EXPLANATION = (
    "For every listed error model, every pair of legs of the alphabet is "
    "walked from every start attitude and a de Bruijn path that contains "
    "every triple of consecutive stations is walked in pieces, under every "
    "header setting of the menu.  The covariance of every error source at "
    "every station, and the totals in the survey's own frame, are compared "
    "with an independent scalar implementation of the published weighting "
    "functions, vertical substitutes and random / systematic / global / "
    "within-pad propagation, fed with the published magnitudes.")
ASSUMPTIONS = [
    "documented workbook conventions of the Rev 5.11 models (whole first "
    "leg in the north inclination derivative and in vertical substitutes) "
    "are part of the published behaviour",
    "terms that JSON models cannot express (documented schema gaps) are "
    "reported by a warning and contribute nothing (checked in C26)",
    "within 1e-6 of the exact east-west horizontal singularity of "
    "axial-corrected tools the published weight is undefined: excluded"]

# (leg length, inclination, azimuth) of the stations; 5e-5 deg is below the
# vertical limit, 0.02 above it
ALPHA = [(30., 0., 0.), (6., 0., 57.), (250., 5e-5, 200.), (30., 0.02, 345.),
         (28., 18., 33.), (7.5, 63., 160.), (400., 90., 271.),
         (31., 108., 62.)]
LOW = [(30., 0., 0.), (6., 0., 57.), (250., 5e-5, 200.), (30., 0.02, 345.),
       (28., 1.5, 33.), (7.5, 3., 160.), (60., 4.2, 271.), (31., 2., 62.)]
MID = ALPHA[:6] + [(400., 81., 271.), (31., 70., 62.)]
START = [(0., 0.), (0., 140.), (22., 250.)]
LOWSTART = [(0., 0.), (0., 140.), (2.2, 250.)]
HEADERS = [
    dict(azi_reference="true", dip=70., b_total=50000., declination=0.,
         convergence=0., latitude=0.),
    dict(azi_reference="grid", dip=-58., b_total=41000., declination=12.,
         convergence=-2.5, latitude=-35.),
    dict(azi_reference="magnetic", dip=80., b_total=60250., declination=-21.,
         convergence=1.25, latitude=63.),
    dict(azi_reference="true", dip=12., b_total=33000., declination=4.,
         convergence=3., latitude=10., G=9.78, vertical_inc_limit=0.05),
]


def debruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


PIECE = 14


def BOUNDS(tier):
    return {"models": "all listed (yaml and JSON)",
            "station alphabet": ALPHA, "starts": START,
            "low-inclination alphabet (inclination-limited models)": LOW,
            "alphabet for models limited to about 90 degrees": MID,
            "paths": "every pair of legs from every start; every triple of "
            "consecutive stations (order-3 de Bruijn path)"
            + ("; every triple from every start" if tier != "quick" else ""),
            "headers": HEADERS if tier != "quick" else
            "all 4 for the de Bruijn path; pairs cycle through them by "
            "start attitude, all references", "header menu": HEADERS}


def units(tier):
    names = sorted(er.load_models(repo.REPO))
    out = [[n, "pairs", tier] for n in names]
    out += [[n, "triples", tier] for n in names]
    if tier != "quick":
        out += [[n, f"deep{s}", tier] for n in names
                for s in range(len(START))]
    return out


_CACHE = {}


def models():
    if not _CACHE:
        _CACHE.update(er.load_models(repo.REPO))
    return _CACHE


def verify(rec, name, path, hk, W):
    """path: [(md, inc, azi)] in the header's reference (degrees)."""
    m = models()[name]
    hd = HEADERS[hk]
    key = {"model": name, "path": path, "header": hk}
    conv, dec = radians(hd["convergence"]), radians(hd["declination"])
    off = {"true": 0., "grid": conv, "magnetic": dec}[hd["azi_reference"]]
    md = [p[0] for p in path]
    inc = [radians(p[1]) for p in path]
    true = [radians(p[2]) + off for p in path]
    mag = [a - dec for a in true]
    if m["inc_max"] is not None and max(inc) >= m["inc_max"]:
        rec.outcome("inclination beyond the model's range: skipped")
        return
    axial = any(f and ("IXY" in f or f in ("ABIZ", "ASIZ", "MDI", "MFI"))
                for _, f, _, _ in m["terms"])
    if axial and min(1 - (sin(i) * sin(a)) ** 2
                     for i, a in zip(inc, mag)) < 1e-6:
        rec.outcome("exact east-west horizontal: skipped")
        return
    rec.state([name, path, hk])
    rec.trace()
    rec.trans(len(path) - 1)
    nev = [q for q in ref.walk(md, inc, [t - conv for t in true])]
    st = er.stations(md, inc, true, mag, [q[2] for q in nev])
    h = er.H(radians(hd["dip"]), hd["b_total"], g=hd.get("G", 9.80665),
             lat=radians(hd["latitude"]),
             limit=radians(hd.get("vertical_inc_limit", 1e-4)),
             tort=m["tort"])
    rev4 = name.lower().split()[-1] == "rev4"
    with rec.case(key):
        s = survey(path, header(**hd), error_model=name)
        got = s.err.errors.errors
        rec.check(list(got) == [t[0] for t in m["terms"]], key,
                  lambda: f"sources {list(got)}")
        n = len(path)
        total = {k: np.zeros((n, 3, 3)) for k in
                 ("all", "random", "systematic", "global", "within_pad")}
        for code, func, magn, prop in m["terms"]:
            if m["kind"] == "json" and code in er.JSON_GAPS:
                want = np.zeros((n, 3, 3))
            else:
                a, b = er.vectors(func, code, magn, st, h, rev4,
                                  m["kind"] == "json")
                want = np.array(er.covariances(a, b, er.rule(func, prop)))
            g = got[code]
            p = er.rule(func, prop)
            rec.check(g.propagation == p, key,
                      lambda: f"{code} propagates {g.propagation}, not {p}")
            rec.close(g.cov_NEV, want, key, f"covariance of {code}",
                      rtol=1e-8, atol=1e-9 * float(np.abs(want).max())
                      + 1e-14)
            total["all"] += want
            total[p] += want
        c, sn = np.cos(conv), np.sin(conv)
        R = np.array([[c, sn, 0], [-sn, c, 0], [0, 0, 1.]])
        for part, attr in (("all", "cov_nev"), ("random", "cov_nev_random"),
                           ("systematic", "cov_nev_systematic"),
                           ("global", "cov_nev_global"),
                           ("within_pad", "cov_nev_within_pad")):
            want = R @ total[part] @ R.T
            rec.close(getattr(s, attr), want, key, attr, rtol=1e-7,
                      atol=1e-8 * float(np.abs(total["all"]).max()) + 1e-14)
        rec.outcome(f"{m['kind']} model agrees")


def walk_path(start, legs, md0=0.):
    out = [(md0, start[0], start[1])]
    for d, i, a in legs:
        out.append((out[-1][0] + d, i, a))
    return out


def run(unit, rec):
    W = repo.load()
    warnings.simplefilter("ignore")
    name, kind, tier = unit
    m = models()[name]
    low = m["inc_max"] is not None and m["inc_max"] < radians(60)
    mid = m["inc_max"] is not None and m["inc_max"] < radians(109)
    alpha, start = (LOW, LOWSTART) if low else (MID if mid else ALPHA, START)
    rec.sample([name, kind, walk_path(start[0], alpha[:2])])
    if kind == "pairs":
        for k, s in enumerate(start):
            for d in range(len(alpha)):
                verify(rec, name, walk_path(s, [alpha[d]]), k, W)
            for q, (a, b) in enumerate(product(alpha, alpha)):
                for hk in ([(k + q) % 4] if tier == "quick" else range(4)):
                    verify(rec, name, walk_path(s, [a, b], 0. if k else 90.),
                           hk, W)
    elif kind == "triples":
        seq = [alpha[i] for i in debruijn(len(alpha), 3)]
        step = PIECE - 2
        for q, i in enumerate(range(0, len(seq) - 2, step)):
            piece = seq[i:i + PIECE]
            prev = seq[i - 1] if i else (0, 0., 0.)
            for hk in (range(4) if tier != "quick" or q % 4 == 0
                       else [q % 4]):
                verify(rec, name, walk_path((prev[1], prev[2]), piece), hk,
                       W)
    else:
        k = int(kind[4:])
        for q, legs in enumerate(product(alpha, repeat=3)):
            verify(rec, name, walk_path(start[k], legs), (k + q) % 4, W)
