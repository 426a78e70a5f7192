"""C10: covariances are valid, additive, causal and frame consistent."""
import warnings
from math import radians

import numpy as np

from .. import repo, ref
from ..common import header, survey, product

ID = "C10"
EXPLANATION = (
    "For every listed error model the tree of all well paths over the "
    "station alphabet is explored depth first; each node is a survey.  At "
    "every node each covariance (total, per source, per propagation class) "
    "must be finite, symmetric, positive semi-definite and zero at the "
    "first station, the total must be the sum of its sources and of its "
    "classes, the hole-frame form must be the independent rotation of the "
    "survey-frame form, and the values at the stations a node shares with "
    "its parent must be the parent's (what is drilled later changes "
    "nothing).  Histories of model changes, start covariances and a feet "
    "copy of every leaf are compared with the same survey made directly.")
ASSUMPTIONS = [
    "paths steeper than a model's stated inclination range are refused with "
    "an assertion and are outside the domain",
    "within 1e-6 of the exact east-west horizontal singularity of "
    "axial-corrected tools covariances are undefined: excluded"]

FULL = [(30., 0., 0.), (7., 0.00005, 130.), (300., 25., 75.), (40., 88., 190.),
        (35., 107., 320.)]
MID = FULL[:4] + [(35., 55., 320.)]
LOW = [(30., 0., 0.), (7., 0.00005, 130.), (300., 2.5, 75.), (40., 4., 190.),
       (35., 0.9, 320.)]
HD = [dict(azi_reference="grid", dip=66., b_total=48000., declination=7.,
           convergence=-2.0, latitude=55.),
      dict(azi_reference="true", dip=-50., b_total=36000., declination=-15.,
           convergence=1.5, latitude=-20.),
      dict(azi_reference="magnetic", dip=77., b_total=57000.,
           declination=22., convergence=0.75, latitude=70.)]
CLASSES = ("random", "systematic", "global", "within_pad")
DEPTH = {"quick": 3, "thorough": 4}
SWITCH = ["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11", "MWD+IFR1+AX", "GYRO-MWD",
          "CB_Film_GMS", "UNKNOWN", "ZERO-ERROR"]
START_COV = [None,
             np.diag([4., 1., 0.25]),
             np.array([[2., .5, 0.], [.5, 3., -.2], [0., -.2, 1.]])]


def BOUNDS(tier):
    return {"models": "all listed", "legs": FULL,
            "legs for inclination-limited models": [MID, LOW],
            "depth": DEPTH[tier],
            "headers": HD, "first stations": "vertical; 20 deg inclined",
            "histories": f"all model sequences of length {2 if tier == 'quick' else 3} over {SWITCH}",
            "start covariances": 3}


def units(tier):
    W = repo.load()
    names = sorted(W.error.ERROR_MODELS)
    out = [["tree", n, i, tier] for n in names for i in range(len(HD))]
    out += [["switch", n, 0, tier] for n in SWITCH]
    out += [["start", n, 0, tier] for n in SWITCH]
    out += [["alias", "", 0, tier]]
    return out


def alphabet(name, W):
    """By the survey's own refusals: the steepest alphabet it accepts."""
    for a, first in ((FULL, 20.), (MID, 20.), (LOW, 2.)):
        p = [(0., 0., 0.), (30., max(x[1] for x in a), 0.)]
        try:
            survey(p, header(**HD[0]), error_model=name)
            return a, first
        except AssertionError:
            continue
    return [(30., 0., 0.), (7., 0.00005, 130.), (300., 0.4, 75.)], 0.3


def sym_psd(c):
    if not np.isfinite(c).all():
        return "not finite"
    scale = np.maximum(np.abs(c).max(axis=(1, 2)), 1e-300)
    if (np.abs(c - np.swapaxes(c, 1, 2)).max(axis=(1, 2))
            > 1e-10 * scale).any():
        return "not symmetric"
    e = np.linalg.eigvalsh((c + np.swapaxes(c, 1, 2)) / 2)
    if (e[:, 0] < -1e-9 * scale).any():
        return f"eigenvalue {e[:, 0].min()}"
    return None


def parts(s):
    d = {"all": s.cov_nev, "hla": s.cov_hla}
    for c in CLASSES:
        d[c] = getattr(s, "cov_nev_" + c)
    return {k: np.array(v) for k, v in d.items()}


def node(rec, key, s, path, W, sources=True):
    n = len(path)
    p = parts(s)
    big = float(np.abs(p["all"]).max()) + 1e-12
    for k, c in p.items():
        rec.check(c.shape == (n, 3, 3), key, lambda: f"{k} shape {c.shape}")
        b = sym_psd(c)
        rec.check(b is None, key, lambda: f"{k} covariance: {b}")
        rec.check(not c[0].any(), key,
                  lambda: f"{k} covariance at the start: {c[0].tolist()}")
    rec.close(sum(p[c] for c in CLASSES), p["all"], key,
              "sum of the propagation classes", 1e-9, 1e-10 * big)
    e = s.err.errors
    tot = np.zeros((n, 3, 3))
    cls = {c: np.zeros((n, 3, 3)) for c in CLASSES}
    for code, v in e.errors.items():
        if sources:
            b = sym_psd(np.asarray(v.cov_NEV))
            rec.check(b is None, key, lambda: f"source {code}: {b}")
        rec.check(v.propagation in CLASSES, key,
                  lambda: f"source {code} propagates {v.propagation!r}")
        tot = tot + v.cov_NEV
        if v.propagation in cls:
            cls[v.propagation] = cls[v.propagation] + v.cov_NEV
    conv = s.header.convergence
    c, sn = np.cos(conv), np.sin(conv)
    R = np.array([[c, sn, 0], [-sn, c, 0], [0, 0, 1.]])
    rec.close(p["all"], R @ tot @ R.T, key, "sum of the sources", 1e-8,
              1e-9 * big)
    for k in CLASSES:
        rec.close(p[k], R @ cls[k] @ R.T, key, f"sum of the {k} sources",
                  1e-8, 1e-9 * big)
    off = {"grid": 0., "true": -conv,
           "magnetic": s.header.declination - conv}[s.header.azi_reference]
    for j in range(n):
        T = ref.rot_hla(radians(path[j][1]), radians(path[j][2]) + off)
        T = np.array(T)
        rec.close(p["hla"][j], T @ p["all"][j] @ T.T, key,
                  f"hole-frame covariance at station {j}", 1e-8, 1e-9 * big)
    return p


def explore(rec, name, hk, first, alpha, depth, W):
    hd = HD[hk]

    def make(path, **kw):
        return survey(path, header(**hd), error_model=name, **kw)

    def rec_(path, parent):
        key = {"model": name, "path": path, "header": hk}
        rec.state([name, path, hk])
        rec.trans()
        with rec.case(key):
            s = make(path)
            p = node(rec, key, s, path, W)
            big = float(np.abs(p["all"]).max()) + 1e-12
            if parent is not None:
                m = len(path) - 1
                for k in p:
                    rec.close(p[k][:m], parent[k], key,
                              f"{k} covariance of the stations drilled "
                              "before the last leg", 1e-9, 1e-12 * big)
            if len(path) == depth + 1:
                rec.trace()
                extras(rec, key, s, p, path, hd, name, W)
                rec.outcome("leaf")
                return
            for d, i, a in alpha:
                rec_(path + [(path[-1][0] + d, i, a)], p)

    for d, i, a in alpha:
        rec_([first, (first[0] + d, i, a)], None)


def extras(rec, key, s, p, path, hd, name, W):
    big = float(np.abs(p["all"]).max()) + 1e-12
    F = [(m / 0.3048, i, a) for m, i, a in path]
    f = survey(F, header(depth_unit="feet", **hd), unit="feet",
               error_model=name)
    q = parts(f)
    for k in p:
        rec.close(q[k] * 0.3048 ** 2, p[k], key, f"{k} covariance in feet",
                  1e-8, 1e-10 * big)
    W2 = W.error.make_diagnostic_data(s)
    e = s.err.errors
    for j, (md, _, _) in enumerate(path):
        want = W.error.get_errors(e.cov_NEVs[j])
        six = [e.cov_NEVs[j][a][b] for a, b in
               ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (2, 1))]
        rec.close(want, six, key, "covariance components", 1e-12, 1e-14)
        rec.close(W2[md]["TOTAL"], six, key, "diagnostic total", 1e-8,
                  1e-9 * big)
        for code, v in e.errors.items():
            c = v.cov_NEV[j]
            rec.close(W2[md][code],
                      [c[0][0], c[1][1], c[2][2], c[0][1], c[0][2], c[1][2]],
                      key, f"diagnostic {code}", 1e-12, 1e-14)
    rec.check(set(W2[path[0][0]]) == set(e.errors) | {"TOTAL"}, key,
              "diagnostic sources")


PATHS = [[(0., 0., 0.), (30., 0., 0.), (200., 12., 40.), (420., 33., 55.)],
         [(0., 20., 10.), (150., 8., 350.), (300., 0., 0.)]]


def run(unit, rec):
    W = repo.load()
    warnings.simplefilter("ignore")
    kind, name, k, tier = unit
    rec.sample(unit)
    if kind == "tree":
        alpha, top = alphabet(name, W)
        first = [(0., 0., 0.), (100., top, 210.), (0., 0., 0.)][k]
        explore(rec, name, k, first, alpha, DEPTH[tier], W)
    elif kind == "switch":
        seqs = product(SWITCH, repeat=1 if tier == "quick" else 2)
        for path, rest in product(PATHS, seqs):
            seq = (name,) + rest
            key = {"models": seq, "path": path}
            rec.state([seq, path])
            with rec.case(key):
                s = survey(path, header(**HD[0]))
                rec.check(s.cov_nev is None and s.cov_hla is None, key,
                          "covariance without a model")
                seen = []
                for m in seq:
                    rec.trans()
                    try:
                        out = s.get_error(m)
                    except AssertionError:
                        rec.outcome("refused")
                        break
                    rec.check(out is s, key, "get_error returns the survey")
                    fresh = survey(path, header(**HD[0]), error_model=m)
                    p, q = parts(s), parts(fresh)
                    for c in p:
                        rec.close(p[c], q[c], key,
                                  f"{c} after changing to {m}", 1e-12, 1e-14)
                    rec.check(s.error_model == m and
                              s.err.error_model == m, key, "model name")
                    e2 = s.get_error(m, return_error=True)
                    rec.check(e2 is s.err, key, "return_error")
                    seen.append((e2, e2.errors.cov_NEVs.copy()))
                for e, c in seen:
                    rec.check(np.array_equal(e.errors.cov_NEVs, c), key,
                              "an earlier error model changed")
                rec.trace()
                rec.outcome("history")
    elif kind == "start":
        for path, c0, hk in product(PATHS, range(3), range(3)):
            key = {"model": name, "path": path, "start": c0, "header": hk}
            C = START_COV[c0]
            keep = None if C is None else C.copy()
            rec.state(key)
            rec.trans()
            try:
                base = survey(path, header(**HD[hk]), error_model=name)
            except AssertionError:
                rec.outcome("refused")
                continue
            with rec.case(key):
                s = survey(path, header(**HD[hk]), error_model=name,
                           start_cov_nev=C)
                want = base.cov_nev + (0 if C is None else C)
                rec.close(s.cov_nev, want, key, "start covariance added",
                          1e-12, 1e-12)
                rec.check(C is None or np.array_equal(C, keep), key,
                          "the caller's covariance changed")
                for j in range(len(path)):
                    T = np.array(ref.rot_hla(s.inc_rad[j],
                                             s.azi_grid_rad[j]))
                    rec.close(s.cov_hla[j], T @ want[j] @ T.T, key,
                              "hole frame", 1e-8, 1e-8)
                # covariances given by the user instead of a model
                given = base.cov_nev.copy()
                u = survey(path, header(**HD[hk]), cov_nev=given,
                           start_cov_nev=C)
                rec.close(u.cov_nev, want, key, "given covariance", 1e-12,
                          1e-12)
                rec.close(u.cov_hla, s.cov_hla, key, "given, hole frame",
                          1e-8, 1e-8)
                rec.check(np.array_equal(given, base.cov_nev), key,
                          "the given covariance changed")
                v = survey(path, header(**HD[hk]), cov_hla=base.cov_hla)
                rec.close(v.cov_nev, base.cov_nev, key, "from hole frame",
                          1e-8, 1e-8)
                rec.trace()
                rec.outcome("start covariance")
    elif kind == "alias":
        for path in PATHS:
            key = {"alias": path}
            with rec.case(key):
                a = survey(path, header(**HD[0]),
                           error_model="ISCWSA MWD Rev5")
                b = survey(path, header(**HD[0]),
                           error_model="ISCWSA MWD Rev5.11")
                rec.close(a.cov_nev, b.cov_nev, key, "deprecated alias",
                          1e-12, 1e-14)
            for bad in ("", "iscwsa", "MWD", None, "ISCWSA MWD Rev6"):
                rec.state([path, bad])
                rec.trans()
                key = {"name": bad, "path": path}
                try:
                    s = survey(path, header(**HD[0]), error_model=bad)
                    rec.check(bad is None and s.cov_nev is None, key,
                              "an unknown model is accepted")
                except AssertionError:
                    rec.check(bad is not None, key, "no model is refused")
                try:
                    survey(path, header(**HD[0])).get_error(bad)
                    rec.fail(key, "get_error accepts it")
                except AssertionError:
                    rec.outcome("refused")
