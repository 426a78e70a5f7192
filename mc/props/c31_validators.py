"""C31: the validators report exactly the values that disagree."""
import contextlib
import io
import json
import math
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

from .. import repo, errref as er
from ..common import header, survey
from . import c26_models as c26

ID = "C31"
EXPLANATION = (
    "Exhaustive fault injection into the reference data of the three "
    "validators.  Workbooks: the values which the error model itself gives "
    "are written as a workbook's validation and totals sheets, with every "
    "(row, component) changed by every kind of change (below and above the "
    "relative and the absolute tolerance, on zero and non-zero values); "
    "every row's verdict, errors and the reported summary must follow from "
    "the change.  Diagnostics: every (term, station, axis) x size of change "
    "in generated diagnostic files, of random, deferred, unknown, missing "
    "and unevaluable terms.  Hand-coded against interpreted formulas: every "
    "weighting function x formula scaled by a factor x survey, and every "
    "model file that ships, compared with a scalar evaluation of both.")
ASSUMPTIONS = [
    "changes within a factor of three of a tolerance are not judged",
    "weighting functions are compared on surveys without vertical stations",
    "the hand-coded AMIL has the opposite sign of the formula"]

PI = math.pi
NEV = ["NN", "EE", "VV", "NE", "NV", "EV"]
HLA = ["HH", "LL", "AA", "HL", "HA", "LA"]
PICK = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
MODELS = {"ISCWSA MWD Rev5.11": ["DRFR", "DSFS", "XYM1", "ABXY-TI2S"],
          "MWD+SRGM": ["DRFR", "DSTG", "SAGE", "MBZ"]}
PATHS = [[(0., 0., 0.), (30., 0., 0.), (600., 18., 160.), (900., 63., 271.),
          (930., 81., 5.)],
         [(100., 12., 250.), (350., 44., 33.), (700., 20., 120.)]]
WELL = [dict(lat=60., g=9.80665, b=50000., dip=72., dec=-4.),
        dict(lat=-28.5, g=9.78, b=48000.5, dip=-58., dec=12.)]
FT = [None, 0.3048, 0.3048006]
# kind of change -> (function of the value, agrees)
KINDS = {"none": (lambda v: v, True),
         "small part": (lambda v: v * (1 + 1e-4), True),
         "tiny": (lambda v: v + 2e-7, True),
         "part": (lambda v: v * 1.02 + 1e-4, False),
         "shift": (lambda v: v + 0.25, False),
         "sign": (lambda v: -v - 0.01, False)}
TOL = [(None, None), (0.1, 1e-6), (1e-3, 1.0)]


def BOUNDS(tier):
    return {"models": MODELS, "paths": PATHS, "wells": WELL,
            "depth units": ["m"] + [f"ft of {f} m" for f in FT[1:]],
            "changes": list(KINDS), "tolerances": TOL,
            "diagnostics": "terms x stations x axes x sizes, as below",
            "weighting functions": "all of errref, factors " + str(FACTOR),
            "tier": "thorough crosses tolerances with everything"}


def units(tier):
    out = [["books", m, p, w, f, tier] for m in MODELS
           for p in range(len(PATHS)) for w in range(len(WELL))
           for f in range(len(FT))]
    out += [["diag", s, tier] for s in range(len(SURVEYS))]
    out += [["formula", s, h, tier] for s in range(len(SURVEYS))
            for h in range(len(c26.HEADS))]
    out += [["shipped", s, h, tier] for s in range(len(SURVEYS))
            for h in range(len(c26.HEADS))]
    out += [["standard"]]
    return out


def run(unit, rec):
    warnings.simplefilter("ignore")
    kind, args = unit[0], unit[1:]
    {"books": books, "diag": diagnostics, "formula": formulas,
     "shipped": shipped, "standard": standard}[kind](rec, *args)
    rec.sample({"unit": unit})


# -- workbooks ---------------------------------------------------------------

def write(path, model, codes, well, ft, st, validation, totals, trailing):
    import openpyxl
    rows = [c26.row(k + 1, c, "m", "R", 1.0, (0, 0, 0), (1, 0, 0),
                    (None, None, None))
            for k, c in enumerate(codes + ["NOSUCH"])]
    wb = openpyxl.Workbook()
    wb.active.title = "Readme"
    ws = wb.create_sheet("Model")
    for r in c26.tool_sheet(rows, c26.KV):
        ws.append(r)
    ws = wb.create_sheet("Wellpath")
    lines = [("Well", "MC"), ("Latitude (deg)", well["lat"]),
             ("G (m/s2)", well["g"]), ("Btotal (nT)", well["b"]),
             ("Dip (deg)", well["dip"]), ("Declination (deg)", well["dec"])]
    if ft:
        lines += [("Depth units (m/ft)", "ft"), ("Feet to metres", ft)]
    for k, (a, b) in enumerate(lines):
        ws.cell(k + 1, 1, a)
        ws.cell(k + 1, 2, b)
    u = ft or 1.0
    for k, name in enumerate(("MD", "Inc", "Az", "TVD", "Toolface")):
        ws.cell(2, 5 + k, name)
    for j, s in enumerate(st):
        for k, v in enumerate((s[0] / u, s[1], s[2], 0.0, None)):
            ws.cell(3 + j, 5 + k, v)
    ws = wb.create_sheet("TOTALS")
    for k, name in enumerate(["Md"] + NEV + HLA):
        ws.cell(2, 1 + k, name)
    for j, s in enumerate(st):
        for k, v in enumerate([s[0] / u, *totals[j], *[0.0] * 6]):
            ws.cell(3 + j, 1 + k, v)
    for j in range(trailing):
        for k, v in enumerate([0.0, *[1e5] * 12]):
            ws.cell(3 + len(st) + j, 1 + k, v)
    ws = wb.create_sheet("Validation")
    for k, name in enumerate(["MD", "Source"] + NEV + NEV + NEV):
        ws.cell(2, 1 + k, name)
    for j, (md, code, vals) in enumerate(validation):
        line = [md / u, code, *[round(v, 4) for v in vals], *vals,
                *[0.0] * 6]
        for k, v in enumerate(line):
            ws.cell(3 + j, 1 + k, v)
    wb.save(path)


def books(rec, model, p, w, f, tier):
    repo.load()
    from welleng.errors import iscwsa_validate as V
    st, well, ft = PATHS[p], WELL[w], FT[f]
    codes = MODELS[model]
    rec.trace()
    S = survey(st, header(latitude=well["lat"], G=well["g"],
                          b_total=well["b"], dip=well["dip"],
                          declination=well["dec"], convergence=0.0,
                          azi_reference="true"), error_model=model)
    E = S.err.errors
    pack = lambda c: [float(c[a, b]) for a, b in PICK]      # noqa: E731
    true = {(s[0], c): pack(E.errors[c].cov_NEV[j])
            for j, s in enumerate(st) for c in codes}
    tot = [pack(E.cov_NEVs[j]) for j in range(len(st))]
    where = [(s[0], c) for s in st[1:] for c in codes]
    kinds = list(KINDS)
    n = 6 * len(kinds)
    tmp = tempfile.mkdtemp(prefix="mc_c31_")
    try:
        for q in range(n):
            for t, tol in enumerate(TOL):
                if tier == "quick" and (q + p + w + f) % 3 != t:
                    continue
                key = {"model": model, "path": p, "well": w, "ft": ft,
                       "shift": q, "tolerances": tol}
                rec.state(repr(key))
                rec.trans(len(where) + len(st))
                with rec.case(key):
                    one_book(rec, key, V, os.path.join(tmp, "w.xlsx"),
                             model, codes, well, ft, st, true, tot, where,
                             kinds, q, tol)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def change(vals, kinds, q):
    """Change the component and in the way of a number."""
    kind, comp = kinds[q % len(kinds)], (q // len(kinds)) % 6
    out = list(vals)
    out[comp] = KINDS[kind][0](out[comp])
    return out


def agrees(expected, actual, rel, ab):
    """True, False or None (too close to tell)."""
    res = True
    for e, a in zip(expected, actual):
        d = abs(a - e)
        lim = max(ab, rel * abs(e))
        if lim / 3 < d < lim * 3:
            return None
        if d > lim:
            res = False
    return res


def one_book(rec, key, V, path, model, codes, well, ft, st, true, tot,
             where, kinds, q, tol):
    n = 6 * len(kinds)
    rows = [(md, c, change(true[md, c], kinds, (q + 7 * k) % n))
            for k, (md, c) in enumerate(where)]
    rows += [(st[1][0], "NOSUCH", [1.0] * 6), (12345.0, codes[0], [1.] * 6)]
    totals = [change(v, kinds, (q + 5 * k) % n) for k, v in enumerate(tot)]
    write(path, model, codes, well, ft, st, rows, totals, q % 3)
    kw = {} if tol[0] is None else dict(tolerance_rel=tol[0],
                                        tolerance_abs=tol[1])
    rel, ab = (1e-3, 1e-6) if tol[0] is None else tol
    r = V.validate_workbook(path, model, **kw)
    u = ft or 1.0
    got = {(round(c.md * u, 6), c.code): c for c in r.per_source}
    rec.check(len(r.per_source) == len(where) and len(got) == len(where),
              key, f"rows compared: {sorted(got)}")
    rec.check(r.missing_in_welleng == ["NOSUCH"], key,
              f"not modelled: {r.missing_in_welleng}")
    verdict = {}
    for k, (md, c, vals) in enumerate(rows[:-2]):
        g = got.get((md, c))
        if g is None:
            continue
        a = true[md, c]
        want = agrees(vals, a, rel, ab)
        ctx = dict(key, row=[md, c])
        if want is not None:
            rec.outcome("agrees" if want else "differs")
            rec.check(bool(g.ok) == want, ctx,
                      f"verdict {g.ok} for {vals} and {a}")
            verdict.setdefault(c, []).append(want)
        else:
            verdict.setdefault(c, []).append(bool(g.ok))
        rec.close(g.calculated, vals, ctx, "value of the workbook", 1e-12, 0)
        rec.close(g.welleng, a, ctx, "value of the model", 1e-6, 1e-12)
        rec.close(g.max_abs_err, max(abs(x - y) for x, y in zip(vals, a)),
                  ctx, "largest error", 1e-5, 1e-11)
    pf = {c: all(v) for c, v in verdict.items()}
    rec.check(r.source_pass_fail() == pf, key,
              f"passing {r.source_pass_fail()}, should be {pf}")
    text = r.summary()
    for c, ok in pf.items():
        rec.check(any(x.split()[:2] == ["PASS" if ok else "FAIL", c]
                      for x in text.splitlines()), key,
                  f"summary of {c}: {text}")
    rec.check(len(r.totals) == len(st), key, f"{len(r.totals)} totals")
    good = sure = 0
    for k, g in enumerate(r.totals[:len(st)]):
        want = agrees(totals[k], tot[k], rel, ab)
        good += bool(g.ok)
        sure += 1
        rec.close(g.md, st[k][0], key, "depth of a total", 1e-9, 1e-9)
        rec.close(g.workbook, totals[k], key, "total of the workbook", 1e-9,
                  1e-12)
        rec.close(g.welleng, tot[k], key, "total of the model", 1e-6, 1e-12)
        if want is not None:
            rec.check(bool(g.ok) == want, dict(key, total=k),
                      f"verdict {g.ok} for {totals[k]} and {tot[k]}")
    rec.check(f"{good}/{len(st)} stations pass" in text, key,
              f"summary of totals: {text}")
    if q % 6 == 0:
        argv = [path, "--model", model]
        if tol[0] is not None:
            argv += ["--tol-rel", str(tol[0]), "--tol-abs", str(tol[1])]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            code = V.main(argv)
        rec.check(code == (0 if all(pf.values()) else 1), key,
                  f"exit status {code} of {pf}")


# -- diagnostics -------------------------------------------------------------

SURVEYS = [[(30., 2., 10.), (500., 33., 160.), (930., 81., 275.)],
           [(100., 12., 250.), (350., 44., 33.), (380., 60., 120.),
            (900., 85., 185.)]]
TERMS = [("DRFR", "m", "Random", 0.35, ("1", "0", "0")),
         ("DECR", "deg", "Random", 0.1, ("0", "0", "1")),
         ("GXY-B1R", "deg/hr", "Random", 0.2,
          ("0", "0", "Sin(AzT) / (EarthRate * Cos(Latitude) * Cos(Inc))")),
         ("MIX", "m", "Random", 0.7,
          ("Cos(Inc)", "-Sin(Inc) / GField", "Tan(Dip) * MD / 100")),
         ("DBHR", "deg.nT", "Random", 3000.,
          ("0", "0", "1 / (Bfield * Cos(Dip))")),
         ("DSFS", "-", "Systematic", 0.0005, ("MD", "0", "0")),
         ("DSTG", "1/m", "Global", 2e-7, ("MD * TVD", "0", "0")),
         ("XW", "m", "Well", 1.0, ("1", "0", "0")),
         ("ODD", "m", "Sometimes", 1.0, ("1", "0", "0")),
         ("GAP", "m", "Random", 1.0, ("1", "IncPrev", "0")),
         ("ABSENT", "m", "Random", 1.0, ("1", "0", "0"))]
FIXED = {"DSFS": "DEFERRED", "DSTG": "DEFERRED", "XW": "DEFERRED",
         "ODD": "UNKNOWN_PROP", "GAP": "INTERP_FAIL",
         "ABSENT": "NOT_IN_COPSEGROVE"}
SIZES = [(0.0, "MATCH"), (0.0002, "MATCH"), (0.0015, "NEAR_MATCH"),
         (0.01, "DIFFER"), (2.0, "DIFFER")]
PLACES = [dict(), dict(latitude_deg=-30.0, b_total=41000.0, dip_deg=-55.0,
                       G=9.78)]


def model_json(path, terms):
    with open(path, "w") as f:
        json.dump({"metadata": {"short_name": "MC"}, "terms": [dict(
            name=n, units=u, propagation_mode=m, value=v, depth_formula=fs[0],
            inclination_formula=fs[1], azimuth_formula=fs[2],
            x_owsg_weight_function=wt)
            for n, u, m, v, fs, wt in terms]}, f)


def diag_text(st, sigmas, order):
    """The layout of the published diagnostic files."""
    out = ["ISCWSA error model diagnostics", ""]
    for (md, inc, azi), sg in zip(st, sigmas):
        out.append("Sensor Terms     HighSide   Lateral  AlongHole")
        names = list(sg)[::-1] if order else list(sg)
        for n in names:
            h, a, d = sg[n]
            out.append(f"{n:<9}svy  {h:10.4f}  {a:10.4f}  {d:10.4f}"
                       f"  {9.9:10.4f}  {0:10.4f}")
            out.append(f"{n:<9}dep  {7.7:10.4f}  {7.7:10.4f}  {7.7:10.4f}")
        out.append(f"Totals   svy  {8.8:10.4f}  {8.8:10.4f}  {8.8:10.4f}")
        out.append(f"{md:8.2f}        Inc: {inc:.2f}       Az (True): "
                   f"{azi:.2f}  TF: 0.00")
        out.append("NEV Covariance Matrix Terms")
        for n in names:
            out.append(f"{n:<9}NEV  {1.5:10.4f}  {2.5:10.4f}")
        out.append("")
    return "\n".join(out) + "\n"


def diagnostics(rec, s, tier):
    repo.load()
    from welleng.errors import copsegrove as C, copsegrove_validate as V
    st = SURVEYS[s]
    tmp = tempfile.mkdtemp(prefix="mc_c31_")
    js, txt = os.path.join(tmp, "m.json"), os.path.join(tmp, "d.txt")
    try:
        model_json(js, [(*t, t[0]) for t in TERMS])
        for pl, kw in enumerate(PLACES):
            env = []
            for md, inc, azi in st:
                a = math.radians(azi)
                env.append(dict(
                    md=md, inc=math.radians(inc), azt=a, azm=a, az=a, tvd=md,
                    gfield=kw.get("G", 9.80665),
                    dip=math.radians(kw.get("dip_deg", 72.0)),
                    bfield=kw.get("b_total", 50000.0),
                    earthrate=er.EARTH_RATE, rad=PI / 180, pi=PI,
                    latitude=math.radians(kw.get("latitude_deg", 60.0))))
            base = []
            for e in env:
                sg = {}
                for n, u, m, v, fs in TERMS:
                    if n == "ABSENT":
                        continue
                    if n in FIXED:
                        sg[n] = (0.1, 0.2, 0.3)
                        continue
                    d, i, a = (abs(c26.evaluate(x, e)) * v for x in fs)
                    sg[n] = (i, a, d)
                base.append(sg)
            terms = [t[0] for t in TERMS if t[0] not in FIXED]
            for n in terms:
                for j in range(len(st)):
                    for ax in range(3):
                        for k, (size, verdict) in enumerate(SIZES):
                            drop = (j + 1) % len(st) if (j + ax + k) % 2 \
                                else None
                            diag_case(rec, C, V, js, txt, st, base, kw, s, pl,
                                      n, j, ax, size, verdict, drop)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def diag_case(rec, C, V, js, txt, st, base, kw, s, pl, n, j, ax, size,
              verdict, drop):
    key = {"diagnostics": s, "place": pl, "term": n, "station": j,
           "axis": ax, "change": size, "without": drop}
    rec.state(repr(key))
    rec.trans()
    with rec.case(key):
        sig = [dict(x) for x in base]
        v = list(sig[j][n])
        v[ax] += size
        sig[j][n] = tuple(v)
        if drop is not None:
            del sig[drop][n]
        with open(txt, "w") as f:
            f.write(diag_text(st, sig, j % 2))
        got = C.parse_copsegrove(txt)
        rec.check([(g.md, g.inc_deg, g.azi_deg) for g in got] == st, key,
                  f"stations {[(g.md, g.inc_deg) for g in got]}")
        for g, x in zip(got, sig):
            rec.check(set(g.sigmas_svy) == set(x), key,
                      f"terms at {g.md}: {sorted(g.sigmas_svy)}")
            for c in x:
                rec.close(g.sigmas_svy.get(c, (0, 0, 0)), x[c], key,
                          f"{c} at {g.md}", 0, 5.1e-5)
        md, inc, azi, sg = C.per_term_sigmas(got, n)
        keep = [k for k in range(len(st)) if k != drop]
        rec.check([md, inc, azi] == [[st[k][q] for k in keep]
                                     for q in range(3)]
                  and list(sg) == [got[k].sigmas_svy[n] for k in keep], key,
                  "values of one term")
        res = {r.name: r for r in V.validate_random_terms(js, txt, **kw)}
        rec.check([t[0] for t in TERMS] == list(res), key,
                  f"terms reported {list(res)}")
        for t in TERMS:
            r = res.get(t[0])
            if r is None:
                continue
            want = FIXED.get(t[0], verdict if t[0] == n else "MATCH")
            rec.outcome(want)
            rec.check(r.verdict == want and r.propagation_mode == t[2], key,
                      f"{t[0]}: {r.verdict}, not {want}")
            if t[0] not in FIXED:
                rec.check(r.n_stations == len(st) - (
                    t[0] == n and drop is not None), key,
                    f"{t[0]}: {r.n_stations} stations")
        rec.close(res[n].max_abs_diff, size, key, "largest difference", 0,
                  5.1e-5)


# -- weighting functions against formulas ------------------------------------

FACTOR = [1.0, 1.5, -1.0, 1.0 + 1e-8]
FORMULA = {
    "DREF": ("1", "0", "0"), "DSF": ("MD", "0", "0"),
    "DST": ("MD * TVD", "0", "0"),
    "ABZ": ("0", "-Sin(Inc) / Gfield",
            "Sin(Inc) * Tan(Dip) * Sin(AzM) / GField"),
    "ASZ": ("0", "-Sin(Inc) * Cos(Inc)",
            "Sin(Inc) * Cos(Inc) * Tan(Dip) * Sin(AzM)"),
    "ABXY_TI1": ("0", "-Cos(Inc) / Gfield",
                 "Cos(Inc) * Tan(Dip) * Sin(AzM) / Gfield"),
    "MBZ": ("0", "0", "-Sin(Inc) * Sin(AzM) / (BField * Cos(Dip))"),
    "MBXY_TI1": ("0", "0", "-Cos(Inc) * Sin(AzM) / (Bfield * Cos(Dip))"),
    "AZ": ("0", "0", "1"), "DBH": ("0", "0", "1 / (BField * Cos(Dip))"),
    "SAG": ("0", "Sin(Inc)", "0"), "SAGE": ("0", "(Sin(Inc))^0.25", "0"),
    "XYM1": ("0", "Abs(Sin(Inc))", "0"), "XYM2": ("0", "0", "-1"),
    "XYM3": ("0", "Abs(Cos(Inc)) * Cos(AzT)",
             "-(Abs(Cos(Inc)) * Sin(AzT)) / Sin(Inc)"),
    "XYM4": ("0", "Abs(Cos(Inc)) * Sin(AzT)",
             "(Abs(Cos(Inc)) * Cos(AzT)) / Sin(Inc)"),
    "CNA": ("0", "0", "1 / Sin(Inc)"), "CNI": ("0", "1", "0"),
    "NOSUCH": ("0", "1", "0"), "DREF2": ("0", "AzPrev", "0")}


class Head:
    def __init__(self, h):
        self.g = h.get("G", 9.80665)
        self.b, self.dip = h["b_total"], math.radians(h["dip"])
        self.lat = math.radians(h["latitude"])
        self.limit, self.tort = math.radians(1e-4), 0.0


def arena(s, h):
    st, envs = c26.scene(SURVEYS[s], c26.HEADS[h])
    S = survey(SURVEYS[s], header(**c26.HEADS[h]))
    # the depth of the first station is that of the survey
    return st, envs, S, Head(c26.HEADS[h])


def sizes(fs, wt, mag, st, envs, hd):
    """Largest difference between the formulas and the weighting function
    and the size of the latter."""
    diff, big = 0.0, 0.0
    for p, env in zip(st, envs):
        w = er._w(p, hd)[wt]()
        f = [c26.evaluate(x, env) for x in fs]
        if wt == "AMIL":
            w = [-x for x in w]
        for a, b in zip(f, w):
            diff = max(diff, abs(a - b) * abs(mag))
            big = max(big, abs(b) * abs(mag))
    return diff, big


def judge(rec, key, r, fs, wt, mag, st, envs, hd, name):
    rec.check(r.name == name and r.n_stations == len(st), key,
              f"{r.name} of {r.n_stations} stations")
    if not all(c26.names(x) <= c26.KNOWN for x in fs):
        rec.outcome("not evaluable")
        rec.check(not r.interp_available and math.isnan(r.max_abs_diff)
                  and "interpreter" in r.note, key, f"{r}")
        return
    rec.check(r.interp_available, key, f"{r}")
    if wt not in LEGACY:
        rec.outcome("no weighting function")
        rec.check(not r.legacy_available and math.isnan(r.max_abs_diff), key,
                  f"{r}")
        return
    rec.check(r.legacy_available, key, f"{r}")
    diff, big = sizes(fs, wt, mag, st, envs, hd)
    rec.outcome("differs" if diff > 1e-6 * big else "same")
    rec.close(r.max_abs_diff, diff, key, f"{r.name}: largest difference",
              1e-6, 1e-10 * big)


LEGACY = {
    "DREF", "DSF", "DST", "ABIZ", "ABIXY_TI1", "ABXY_TI1", "ABIXY_TI2",
    "ABXY_TI2", "AMID", "ABZ", "ASXY_TI1", "ASIXY_TI1", "ASXY_TI2",
    "ASIXY_TI2", "ASXY_TI3", "ASIXY_TI3", "ASZ", "ASIZ", "CNA", "CNI",
    "MBXY_TI1", "MBIXY_TI1", "MBXY_TI2", "MBIXY_TI2", "MBZ", "MFI",
    "MSXY_TI1", "MSXY_TI2", "MSXY_TI3", "MSIXY_TI1", "MSIXY_TI2",
    "MSIXY_TI3", "MSZ", "AZ", "DBH", "MDI", "DBHR", "AMIL", "SAG", "SAGE",
    "XYM1", "XYM2", "XYM3", "XYM4"}


def formulas(rec, s, h, tier):
    repo.load()
    from welleng.errors import conformance as F
    st, envs, S, hd = arena(s, h)
    tmp = tempfile.mkdtemp(prefix="mc_c31_")
    js = os.path.join(tmp, "m.json")
    try:
        for unit in ("m", "deg", "deg/hr", "-"):
            for mode in ("Random", "Systematic", "Global", "Well"):
                for k in FACTOR:
                    key = {"survey": s, "header": h, "unit": unit,
                           "mode": mode, "factor": k}
                    rec.state(repr(key))
                    rec.trans(len(FORMULA))
                    with rec.case(key):
                        terms = [(f"T{q}-{w}", unit, mode, 0.5, tuple(
                            x if x == "0" else f"{k!r} * ({x})" for x in fs),
                            w.replace("_", "-"))
                            for q, (w, fs) in enumerate(FORMULA.items())]
                        model_json(js, terms)
                        res = F.compare_model(js, S)
                        rec.check(len(res) == len(terms), key,
                                  f"{len(res)} results")
                        for t, r, w in zip(terms, res, FORMULA):
                            judge(rec, key, r, t[4], w,
                                  0.5 * c26.UNIT[unit], st, envs, hd, t[0])
                        if mode == "Random":
                            command(rec, key, F, js, terms)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def command(rec, key, F, js, terms):
    """The command's verdicts on the standard survey."""
    out, argv = io.StringIO(), sys.argv
    sys.argv = ["conformance", "--json", js]
    try:
        with contextlib.redirect_stdout(out):
            F.main()
    finally:
        sys.argv = argv
    k = key["factor"]
    for t, w in zip(terms, FORMULA):
        if w in ("XYM3", "XYM4", "CNA", "SAGE"):
            continue                 # not defined at every station
        want = {"NOSUCH": "NO_LEGACY", "DREF2": "INTERP_FAILED"}.get(w)
        if want is None:
            if 0 < abs(k - 1) < 1e-3:
                continue             # depends on the size of the term
            want = "MATCH" if k == 1 else ("NEAR_MATCH", "DIFFER")
        lines = [x.split() for x in out.getvalue().splitlines()
                 if x.split()[:1] == [t[0]]]
        rec.check(len(lines) == 1 and (
            lines[0][2] in want if isinstance(want, tuple)
            else lines[0][2] == want), key,
                  f"{t[0]}: {lines}, not {want}")


def shipped(rec, s, h, tier):
    M = repo.load()
    from welleng.errors import conformance as F
    st, envs, S, hd = arena(s, h)
    root = os.path.join(os.path.dirname(M.errors.__file__), "iscwsa_json") \
        if hasattr(M, "errors") else os.path.join(
            os.path.dirname(M.survey.__file__), "errors", "iscwsa_json")
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root)
                   for f in fs if f.endswith(".json"))
    for k, p in enumerate(files):
        if tier == "quick" and (k + s + 2 * h) % 4:
            continue
        with open(p) as f:
            terms = json.load(f)["terms"]
        key = {"survey": s, "header": h,
               "model": os.path.relpath(p, root)}
        rec.state(repr(key))
        rec.trans(len(terms))
        with rec.case(key):
            res = F.compare_model(p, S)
            rec.check(len(res) == len(terms), key, f"{len(res)} results")
            for t, r in zip(terms, res):
                wt = (t.get("x_owsg_weight_function")
                      or t["name"]).replace("-", "_")
                judge(rec, dict(key, term=t["name"]), r,
                      [t[x] for x in c26.WTS], wt,
                      t["value"] * c26.UNIT[t["units"] or ""], st, envs, hd,
                      t["name"])


def standard(rec):
    repo.load()
    from welleng.errors import conformance as F
    key = {"standard": "survey"}
    rec.state(repr(key))
    with rec.case(key):
        S = F.standard_test_survey()
        p = os.path.join(repo.REPO, "tests", "test_data",
                         "error_mwdrev5_1_iscwsa_data.json")
        with open(p) as f:
            d = json.load(f)
        rec.close(S.md, d["survey"]["md"], key, "md", 0, 1e-9)
        for g, k in ((S.inc_deg, "inc"), (S.azi_true_deg, "azi")):
            want = np.array(d["survey"][k])
            twice = np.degrees(want)
            if np.allclose(g, twice, 0, 1e-6):
                rec.fail({"standard": k, "is": "converted to degrees twice"},
                         f"up to {np.max(g)} degrees")
            else:
                rec.close(g, want, key, k, 0, 1e-9)
        h = d["header"]
        rec.close([S.header.dip, S.header.declination, S.header.b_total,
                   S.header.G, S.header.latitude],
                  [h["dip"], h["declination"], h["b_total"], h["G"],
                   h["latitude"]], key, "header", 1e-12, 0)
