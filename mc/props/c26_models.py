"""C26: error-model workbooks and JSON models load without loss."""
import json
import math
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from .. import repo, ref, errref as er
from ..common import product, chunks

ID = "C26"
EXPLANATION = (
    "JSON models: every single term over units x propagation modes x "
    "formula sets, and every ordered list of up to three terms of a menu "
    "with evaluable and unevaluable terms, is written as a model file into "
    "a scratch copy of the package and loaded through the error-model "
    "interface; each source's covariance, propagation rule and the totals "
    "are compared with a scalar evaluation of the formulas, and unevaluable "
    "terms must be reported by name.  Every JSON model that ships is loaded "
    "the same way.  Workbooks: every small term table over units x rules x "
    "optional cells x table widths, with generated wellpath, totals, "
    "validation and error-source sheets, is written, loaded and compared "
    "cell by cell; the example workbooks of the repository likewise, and "
    "generated and published workbooks of well paths for clearance.  "
    "Converter: every small tool sheet over the same menus, and the "
    "published tool-group workbooks, whose converted terms must equal both "
    "the cells and the model files that ship.")
ASSUMPTIONS = [
    "units outside the published list are not converted (not checked)",
    "names in formulas are not case sensitive (the published formulas "
    "spell the gravity and magnetic field in several ways)"]

PI = math.pi
UNIT = {"m": 1.0, "1/m": 1.0, "nT": 1.0, "m/s2": 1.0, "rad": 1.0,
        "deg": PI / 180, "deg/hr": PI / 180, "deg/nT": PI / 180,
        "deg.nT": PI / 180, "deg/sqr(hr)": PI / 180, "-": 1.0, "": 1.0}
MODE = {"Random": "random", "Systematic": "systematic", "Global": "global",
        "Well": "within_pad"}
# magnitude per unit that gives errors of the order of metres
SIZE = {"m": 0.35, "1/m": 2.5e-7, "nT": 70., "m/s2": 0.004, "rad": 0.002,
        "deg": 0.13, "deg/hr": 0.1, "deg/nT": 1.5, "deg.nT": 4108.,
        "deg/sqr(hr)": 0.25, "-": 0.00056, "": 0.00056}
# depth, inclination, azimuth formulas; singularity north, east, vertical
FORMULAS = [
    ("1", "0", "0", None, None, None),
    ("MD", "0", "0", None, None, None),
    ("MD * TVD", "0", "0", None, None, None),
    ("0", "Sin(Inc)", "0", None, None, None),
    ("0", "-Cos(Inc) / Gfield", "Sin(Inc) * Sin(AzM)", None, None, None),
    ("0", "0", "1 / (BField * Cos(Dip))", None, None, None),
    ("0", "Abs(Cos(Inc)) * Cos(AzT)",
     "-(Abs(Cos(Inc)) * Sin(AzT)) / Sin(Inc)", "1", None, None),
    ("0", "0", "1 / Sin(Inc)", "-Sin(Az)", "Cos(Az)", None),
    ("Cos(Inc)", "(Sin(Inc))^0.25", "1", "0.5", "-1", "2"),
    ("0", "0", "Cos(AzT) / (EarthRate * Cos(Latitude))", None, None, None),
    ("0", "Tan(Dip) / GField", "-Cos(Inc) / Bfield", None, None, None),
]
BAD = ("0", "Abs(Inc-IncPrev)", "Az_Drift", None, None, None)

HEADS = [dict(azi_reference="grid", dip=-58., b_total=41000.,
              declination=12., convergence=-2.5, latitude=-35.),
         dict(azi_reference="magnetic", dip=72., b_total=50000.,
              declination=-4., convergence=1.5, latitude=60., G=9.78)]
PATHS = [[(0., 0., 0.), (30., 0., 0.), (60., 0., 40.), (90., 2., 33.),
          (400., 18., 160.), (430., 63., 271.), (700., 81., 5.)],
         [(100., 12., 250.), (350., 44., 33.), (380., 20., 120.),
          (640., 1.5, 80.)],
         [(0., 0., 0.), (250., 1., 10.), (500., 4.2, 300.),
          (620., 2., 171.)]]


# -- formulas ----------------------------------------------------------------

TOK = re.compile(r"\s*(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|[A-Za-z_]\w*|.)")
FUN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "abs": abs,
       "sqr": math.sqrt, "sqrt": math.sqrt, "max": max, "min": min,
       "exp": math.exp, "log": math.log, "asin": math.asin,
       "acos": math.acos, "atan": math.atan}


class Unknown(Exception):
    pass


def evaluate(text, env):
    """Value of a formula; names are not case sensitive."""
    toks = [t for t in TOK.findall(text.strip()) if t.strip()] + [None]
    pos = [0]

    def peek():
        return toks[pos[0]]

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def expr():
        v = term()
        while peek() in ("+", "-"):
            v = v + term() if take() == "+" else v - term()
        return v

    def term():
        v = factor()
        while peek() in ("*", "/"):
            v = v * factor() if take() == "*" else v / factor()
        return v

    def factor():
        if peek() in ("+", "-"):
            return factor() if take() == "+" else -factor()
        v = atom()
        if peek() == "^":
            take()
            v = v ** factor()
        return v

    def atom():
        t = take()
        if t == "(":
            v = expr()
            assert take() == ")"
            return v
        if t[0].isdigit() or t[0] == ".":
            return float(t)
        name = t.lower()
        if peek() == "(":
            take()
            args = [expr()]
            while peek() == ",":
                take()
                args.append(expr())
            assert take() == ")"
            return FUN[name](*args)
        if name not in env:
            raise Unknown(t)
        return env[name]

    v = expr()
    assert peek() is None, text
    return v


def names(text):
    """Variables of a formula."""
    toks = [t for t in TOK.findall(text.strip()) if t.strip()]
    return {t.lower() for t, n in zip(toks, toks[1:] + [""])
            if (t[0].isalpha() or t[0] == "_") and n != "("}


KNOWN = {"md", "inc", "azt", "azm", "az", "tvd", "gfield", "dip", "bfield",
         "earthrate", "latitude", "rad", "pi"}
AXES = ("north_singularity", "east_singularity", "vertical_singularity")
WTS = ("depth_formula", "inclination_formula", "azimuth_formula")


def evaluable(term):
    return all(names(str(term.get(k) or "0")) <= KNOWN for k in WTS + AXES)


def scene(path, head):
    conv, dec = math.radians(head["convergence"]), \
        math.radians(head["declination"])
    off = {"true": 0., "grid": conv, "magnetic": dec}[head["azi_reference"]]
    md = [p[0] for p in path]
    inc = [math.radians(p[1]) for p in path]
    true = [math.radians(p[2]) + off for p in path]
    mag = [a - dec for a in true]
    nev = ref.walk(md, inc, [t - conv for t in true])
    st = er.stations(md, inc, true, mag, [q[2] for q in nev])
    base = dict(gfield=head.get("G", 9.80665),
                dip=math.radians(head["dip"]), bfield=head["b_total"],
                earthrate=er.EARTH_RATE, rad=PI / 180, pi=PI,
                latitude=math.radians(head["latitude"]))
    envs = [dict(base, md=s.md, inc=s.i, azt=s.t, azm=s.m, az=s.t - conv,
                 tvd=s.tvd) for s in st]
    return st, envs


def term_cov(term, st, envs, limit=math.radians(1e-4)):
    """3x3 covariances of one term at every station (true north)."""
    n = len(st)
    if not evaluable(term):
        return np.zeros((n, 3, 3))
    mag = term["value"] * UNIT[term.get("units") or ""]
    has = any(term.get(k) for k in AXES)
    star, full = [(0.0,) * 3], [(0.0,) * 3]
    for s, env in zip(st[1:], envs[1:]):
        if s.i < limit and has:
            sub = [evaluate(term.get(k) or "0", env) for k in AXES]
            star.append(tuple(s.d / 2 * mag * x for x in sub))
            full.append(tuple((s.d + s.dn) / 2 * mag * x for x in sub))
            continue
        w = [evaluate(str(term[k]), env) for k in WTS]
        for out, p in zip((star, full), er._dr(s, False)):
            out.append(tuple(mag * sum(w[q] * p[q][x] for q in range(3))
                             for x in range(3)))
    return np.array(er.covariances(star, full,
                                   MODE[term["propagation_mode"]]))


# -- JSON models through a scratch copy of the package ------------------------

CHILD = r"""
import pickle, sys, warnings
sys.path.insert(0, sys.argv[1])
from mc import repo
from mc.common import header, survey
repo.load()
with open(sys.argv[2], "rb") as f:
    jobs = pickle.load(f)
out = []
for name, path, head in jobs:
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            s = survey(path, header(**head), error_model=name)
            E = s.err.errors
            r = dict(
                terms=[(c, e.propagation, e.cov_NEV)
                       for c, e in E.errors.items()],
                totals={k: getattr(E, k) for k in (
                    "cov_NEVs", "cov_NEVs_random", "cov_NEVs_systematic",
                    "cov_NEVs_global", "cov_NEVs_within_pad")})
        except Exception as e:
            r = dict(error=type(e).__name__ + ": " + str(e)[:300])
        r["warned"] = [str(w.message) for w in ws
                       if issubclass(w.category, RuntimeWarning)]
    out.append(r)
with open(sys.argv[3], "wb") as f:
    pickle.dump(out, f)
"""
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))


def model_file(short, ident, terms, inc_max=180):
    return {"metadata": {
        "model_id": ident, "short_name": short, "long_name": short,
        "revision_number": 1, "revision_date": "2020-01-01", "source": "mc",
        "application": "mc", "tool_type": "Magnetic"},
        "parameters": {"inc_min": 0, "inc_max": inc_max}, "terms": terms}


def term(name, unit, mode, f, sing_keys=True):
    t = dict(name=name, value=SIZE[unit], units=unit, propagation_mode=mode,
             depth_formula=f[0], inclination_formula=f[1],
             azimuth_formula=f[2])
    for k, v in zip(AXES, f[3:]):
        if sing_keys or v is not None:
            t[k] = v
    return t


def run_models(models, jobs):
    """models: [(index key, short name, sub, file name, content)] added to
    the scratch package; jobs: [(short name, path, header)]."""
    import yaml
    tmp = tempfile.mkdtemp(prefix="mc_c26_")
    try:
        pkg = os.path.join(tmp, "welleng")
        shutil.copytree(os.path.join(repo.REPO, "welleng"), pkg,
                        ignore=shutil.ignore_patterns("__pycache__"))
        idx = os.path.join(pkg, "errors", "tool_index.yaml")
        with open(idx) as f:
            index = yaml.safe_load(f)
        for n, (key, short, sub, fn, content) in enumerate(models):
            index[key] = {"Application": "mc", "Long Name": short, "No": n,
                          "OWSG Prefix": key, "Rev.": 1, "Short Name": short}
            if content is not None:
                d = os.path.join(pkg, "errors", "iscwsa_json", sub)
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, fn), "w") as f:
                    json.dump(content, f)
        with open(idx, "w") as f:
            yaml.safe_dump(index, f)
        with open(os.path.join(tmp, "jobs"), "wb") as f:
            pickle.dump(jobs, f)
        child = os.path.join(tmp, "child.py")
        with open(child, "w") as f:
            f.write(CHILD)
        p = subprocess.run(
            [sys.executable, "-B", child, VERIF, os.path.join(tmp, "jobs"),
             os.path.join(tmp, "out")],
            env=dict(os.environ, MC_REPO=tmp), cwd=tmp,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("driver failed: " + p.stdout[-1500:])
        with open(os.path.join(tmp, "out"), "rb") as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(rec, key, terms, path, head, r, inc_max=180.):
    rec.state(key)
    rec.trace()
    rec.trans(len(path) - 1)
    if max(p[1] for p in path) >= inc_max:
        rec.check("error" in r, key, "well beyond the model's inclination "
                  "range is not refused")
        rec.outcome("beyond the model's range: refused")
        return
    if "error" in r:
        rec.fail(key, r["error"])
        return
    rec.check([t[0] for t in r["terms"]] == [t["name"] for t in terms], key,
              lambda: f"sources {[t[0] for t in r['terms']]}")
    st, envs = scene(path, head)
    total = {k: 0. for k in ("", "_random", "_systematic", "_global",
                             "_within_pad")}
    got = {c: (p, v) for c, p, v in r["terms"]}
    for t in terms:
        if t["name"] not in got:
            continue
        p, cov = got[t["name"]]
        mode = MODE[t["propagation_mode"]]
        rec.check(p == mode, key, lambda: f"{t['name']} propagates {p}")
        try:
            want = term_cov(t, st, envs)
        except ZeroDivisionError:
            rec.outcome("formula infinite at a station: skipped")
            return
        rec.close(cov, want, key, f"covariance of {t['name']}", rtol=1e-8,
                  atol=1e-9 * float(np.abs(want).max()) + 1e-14)
        told = any(repr(t["name"]) in w for w in r["warned"])
        ok = evaluable(t)
        rec.check(told == (not ok), key, lambda: (
            f"{t['name']}: " + ("reported though it can be evaluated"
                                if told else "not reported")))
        rec.outcome("term evaluated" if ok else "unevaluable term reported")
        total[""] = total[""] + want
        total["_" + mode] = total["_" + mode] + want
    tol = 1e-8 * float(np.abs(total[""]).max() if terms else 0.) + 1e-14
    for k, want in total.items():
        g = r["totals"]["cov_NEVs" + k]
        rec.close(g, np.broadcast_to(want, g.shape), key, "cov_NEVs" + k,
                  rtol=1e-7, atol=tol)


def single_models(tier):
    out = []
    for k, (u, m, f) in enumerate(product(sorted(UNIT), sorted(MODE),
                                          FORMULAS)):
        out.append(([term("TRM-1", u, m, f, k % 2 == 0)], 180,
                    [k % 2] if tier == "quick" else [0, 1]))
    return out


def list_models(tier):
    menu = [term("DRFR", "m", "Random", FORMULAS[0]),
            term("SAG", "deg", "Systematic", FORMULAS[3], False),
            term("DBH-U", "deg.nT", "Global", FORMULAS[5]),
            term("XYM3", "deg", "Well", FORMULAS[6]),
            term("XCLA", "-", "Random", BAD),
            term("EXT-REF", "deg", "Systematic", FORMULAS[7])]
    out = [([], 180, [0])]
    for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
        import itertools
        for k, c in enumerate(itertools.permutations(menu, n)):
            out.append((list(c), (180, 90, 60, 30)[k % 4], [k % 2]))
    return out


def shipped():
    root = os.path.join(repo.REPO, "welleng", "errors", "iscwsa_json")
    out = []
    for sub in sorted(os.listdir(root)):
        if os.path.isdir(os.path.join(root, sub)):
            for fn in sorted(os.listdir(os.path.join(root, sub))):
                if fn.endswith(".json"):
                    with open(os.path.join(root, sub, fn)) as f:
                        out.append((sub, fn, json.load(f)))
    return out


# -- published workbooks -------------------------------------------------------

LETTER = {"R": "Random", "S": "Systematic", "G": "Global", "W": "Well"}


def formula_text(v):
    if v is None:
        return "0"
    if isinstance(v, (int, float)):
        return str(int(v)) if float(v) == int(v) else str(float(v))
    return str(v).strip()


def sing_text(v):
    if v is None or (isinstance(v, (int, float)) and v == 0):
        return None
    return str(v).strip()


def cells_to_term(r):
    """What a row of a tool sheet says."""
    return dict(
        name=str(r[4]), value=float(r[9] or 0), units=str(r[10] or ""),
        propagation_mode=LETTER[r[11]], depth_factor=int(r[12] or 0),
        inclination_factor=int(r[13] or 0), azimuth_factor=int(r[14] or 0),
        depth_formula=formula_text(r[16]),
        inclination_formula=formula_text(r[17]),
        azimuth_formula=formula_text(r[18]), north_singularity=sing_text(
            r[19]), east_singularity=sing_text(r[20]),
        vertical_singularity=sing_text(r[21]),
        x_owsg_weight_function=str(r[6] or ""))


def same_formula(a, b):
    """Numbers may be printed as 1 or 1.0."""
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return a == b


def compare_terms(rec, key, got, want, what):
    rec.check([t["name"] for t in got] == [t["name"] for t in want], key,
              lambda: f"{what}: terms {[t['name'] for t in got]}, not "
              f"{[t['name'] for t in want]}")
    for g, w in zip(got, want):
        for k, v in w.items():
            ok = same_formula(g.get(k), v) if (
                "formula" in k or "singularity" in k) else g.get(k) == v
            rec.check(ok, key, lambda: f"{what}: {w['name']} {k} = "
                      f"{g.get(k)!r}, not {v!r}")


def sheets(path):
    import openpyxl
    wb = openpyxl.load_workbook(path, data_only=True, read_only=True)
    for name in wb.sheetnames:
        rows = [list(r) + [None] * (24 - len(r))
                for r in wb[name].iter_rows(values_only=True)]
        kv = {str(r[0]).rstrip(":").strip(): r[1] for r in rows if r[0]}
        terms = [r for r in rows
                 if isinstance(r[3], (int, float)) and r[4]]
        if terms:
            yield name, kv, terms


def deg_limit(v):
    m = re.match(r"\s*(-?\d+)", str(v))
    return int(m.group(1)) if m else None


def toolgroup(rec, label):
    import yaml
    W = repo.load()                                        # noqa: F841
    from welleng.errors.tools import owsg_to_json as conv
    group = os.path.join(repo.REPO, "data", "iscwsa", "toolgroups")
    book = [f for f in sorted(os.listdir(group))
            if f.endswith(".xlsx") and f"-owsg-{label.lower()}-" in f][0]
    book = os.path.join(group, book)
    errdir = os.path.join(repo.REPO, "welleng", "errors")
    jroot = os.path.join(errdir, "iscwsa_json", "owsg_" + label.lower())
    tmp = tempfile.mkdtemp(prefix="mc_c26_")
    try:
        conv.convert_workbook(book, tmp, "Set" + label)
        made = {}
        for fn in os.listdir(tmp):
            with open(os.path.join(tmp, fn)) as f:
                made[fn] = json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ships = {}
    for fn in os.listdir(jroot):
        with open(os.path.join(jroot, fn)) as f:
            ships[fn] = json.load(f)
    rec.check(sorted(made) == sorted(ships), {"set": label},
              lambda: f"models {sorted(set(made) ^ set(ships))}")
    by_short = {}
    for d, what in ((made, "converted"), (ships, "shipped")):
        for fn, m in d.items():
            by_short.setdefault((what, m["metadata"]["short_name"]), m)
    for name, kv, rows in sheets(book):
        key = {"set": label, "sheet": name}
        with rec.case(key):
            rec.state(key)
            rec.trace()
            rec.trans(len(rows))
            want = [cells_to_term(r) for r in rows]
            for what in ("converted", "shipped"):
                m = by_short.get((what, str(kv["Short Name"])))
                if not rec.check(m is not None, key, f"no {what} model"):
                    continue
                compare_terms(rec, key, m["terms"], want, what)
                md = m["metadata"]
                rec.check(md["model_id"] == str(kv["OWSG Prefix"])
                          and md["long_name"] == str(kv["Long Name"]), key,
                          f"{what}: metadata {md}")
                for a, b in (("inc_min", "Inclination Range Min"),
                             ("inc_max", "Inclination Range Max")):
                    lim = deg_limit(kv.get(b))
                    if lim is not None:
                        rec.check(m["parameters"][a] == lim, key,
                                  f"{what}: {a} {m['parameters'][a]}")
            y = os.path.join(errdir, "tool_codes", str(kv["OWSG Prefix"]) + (
                "_Fl" if str(kv["Short Name"]).endswith("_Fl") else "")
                + ".yaml")
            if label == "A" and os.path.exists(y):
                with open(y) as f:
                    legacy_terms(rec, key, yaml.safe_load(f)["codes"], rows)
                rec.outcome("sheet = JSON model = legacy model")
            else:
                rec.outcome("sheet = JSON model")


def legacy_terms(rec, key, codes, rows, rename=()):
    want = [str(r[4]).strip() for r in rows]
    rec.check(sorted(codes) == sorted(want), key,
              lambda: f"codes differ: {set(codes) ^ set(want)}")
    for r in rows:
        t = codes.get(str(r[4]).strip())
        if t is None:
            continue
        u = str(r[10] or "")
        rec.check(t["function"] == str(r[6]).replace("-", "_"), key,
                  lambda: f"{r[4]}: function {t['function']}, not {r[6]}")
        rec.close(t["magnitude"], r[9] * UNIT[u], key, f"magnitude {r[4]}",
                  rtol=1e-9)
        rec.check(t["propagation"] == MODE[LETTER[r[11]]], key,
                  lambda: f"{r[4]}: {t['propagation']}, not {r[11]}")
        rec.check(t["unit"] == u.replace("deg", "rad"), key,
                  lambda: f"{r[4]}: unit {t['unit']}, not {u}")


# -- converter on generated sheets ---------------------------------------------

def tool_sheet(rows, kv):
    """Cell grid of a tool sheet."""
    grid = [[None] * 23 for _ in range(max(len(kv), len(rows) + 1) + 2)]
    head = ["No", "Code", "Term Description", "Wt.Fn.", "Wt.Fn. Source",
            "Type", "Magnitude", "Units", "Prop.", "P1", "P2", "P3",
            "Wt.Fn. Comment", "Depth Formula", "Inclination Formula",
            "Azimuth Formula", "Singularity North Formula",
            "Singularity East Formula", "Singularity Vert. Formula", "Conv"]
    grid[0][3:23] = head
    for k, (a, b) in enumerate(kv):
        grid[k][0:2] = [a, b]
    for k, r in enumerate(rows):
        grid[k + 1][3:3 + len(r)] = r
    return grid


def row(no, code, unit, prop, mag, ps, fs, sing, wt="DREF", conv=None):
    return [no, code, "Depth: " + code, wt, "SPE 67616", "Depth", mag, unit,
            prop, *ps, None, *fs, *sing, conv]


PS = [(0, 0, 0), (1, 2, 3), (None, 1, None)]
FS = [(1, 0, 0), ("MD * TVD", "0", 0), (0, "-Cos(Inc) / Gfield", -1),
      (0, 0.5, "1 / Sin(Inc)"), (None, " Sin(Inc) ", None)]
SINGS = [(None, None, None), (1, None, None), ("-Sin(Az)", "Cos(Az)", 0)]
KV = [("OWSG Prefix:", "Z001Ma"), ("Short Name:", "MC+TOOL"),
      ("Long Name:", "MC tool"), ("Revision No:", 3),
      ("Source:", "mc"), ("Application:", "all"), ("Tool Type:", "MWD"),
      ("Inclination Range Min:", "0 deg"),
      ("Inclination Range Max:", "75 deg")]


def convert_case(rec, rows, kv):
    import pandas as pd
    from welleng.errors.tools import owsg_to_json as conv
    key = {"sheet": rows, "limits": [v for k, v in kv if "Range" in k]}
    rec.state(key)
    rec.trace()
    rec.trans(len(rows))
    with rec.case(key):
        df = pd.DataFrame(tool_sheet(rows, kv), dtype=object)
        m, warned = conv.convert_sheet(df, "MC", "SetZ", "mc.xlsx")
        m = json.loads(json.dumps(m))
        want = []
        for r in rows:
            if not isinstance(r[0], (int, float)) or not r[1]:
                continue
            w = cells_to_term([None] * 3 + [
                "S" if k == 8 and v not in LETTER else v
                for k, v in enumerate(r)])
            if r[8] not in LETTER:
                w["propagation_mode"] = str(r[8])
                rec.check(any(repr(w["name"]) in x and "propagation" in x
                              for x in warned), key, "rule not reported")
            want.append(w)
        compare_terms(rec, key, m["terms"], want, "converted")
        d = dict((k.rstrip(":"), v) for k, v in kv)
        for a, b in (("model_id", "OWSG Prefix"), ("short_name",
                     "Short Name"), ("long_name", "Long Name"),
                     ("revision_number", "Revision No")):
            rec.check(m["metadata"][a] == d[b], key, lambda: (
                f"{a} = {m['metadata'][a]!r}, not {d[b]!r}"))
        for a, b in (("inc_min", "Inclination Range Min"),
                     ("inc_max", "Inclination Range Max")):
            w = deg_limit(d[b]) if d.get(b) is not None else (
                0 if a == "inc_min" else 180)
            rec.check(m["parameters"][a] == w, key, lambda: (
                f"{a} = {m['parameters'][a]!r}, not {w!r}"))
        rec.outcome(f"{len(want)} term(s) converted")


def convert_rows():
    out = []
    units = ["m", "1/m", "nT", "m/s2", "deg", "deg/nT", "deg/hr", "rad",
             "-", "deg.nT"]
    for k, (u, p, f) in enumerate(product(units, "RSGWB", FS)):
        out.append([row(1, "DRFR", u, p, (0.35, 2, 2.5e-7, None)[k % 4],
                        PS[k % 3], f, SINGS[k % 3])])
    for ps, f, s in product(PS, FS, SINGS):
        out.append([row(1, "DEC-OH", "deg", "G", 0.2, ps, f, s),
                    row(2, "XYM1", "deg", "W", 0.1, (0, 0, 0), FS[0],
                        SINGS[0], wt="XYM1")])
    menu = [row(1, "DRFR", "m", "R", 0.35, PS[0], FS[0], SINGS[0]),
            row(2.0, "ABXY-TI1S", "m/s2", "S", 0.004, PS[1], FS[2], SINGS[2],
                wt="ABXY-TI1"),
            ["note", "DRFR", None, None, None, None, None, None, None],
            [None] * 9,
            [3, None, None, None, None, None, None, None, None],
            row(4, "DBH-U", "deg.nT", "G", 4108., PS[0], (0, 0, FORMULAS[5][
                2]), SINGS[0], wt="DBH")]
    for n in (0, 1, 2, 3):
        out += [list(c) for c in product(menu, repeat=n)]
    return out


LIMITS = [("0 deg", "75 deg"), ("0 deg", "180 deg"), (0, 5), (None, None),
          ("10 deg", "89 deg"), ("5", "30")]


# -- example workbooks -----------------------------------------------------------

NEV = ["NN", "EE", "VV", "NE", "NV", "EV"]
HLA = ["HH", "LL", "AA", "HL", "HA", "LA"]


def write_book(path, model_rows, width, kv, well, stations, order, revs,
               tabs, trailing):
    """A workbook of the published layout; returns the expected contents."""
    import openpyxl
    wb = openpyxl.Workbook()
    ws = wb.active
    ws.title = "Readme"
    for k, r in enumerate(revs):
        ws.cell(k + 1, 1, r)
    ws = wb.create_sheet("Model")
    for r in tool_sheet(model_rows, kv):
        ws.append(r[:width])
    ws = wb.create_sheet("Wellpath")
    for k, (a, b) in enumerate(well):
        ws.cell(k + 1, 1, a)
        ws.cell(k + 1, 2, b)
    for k, name in enumerate(("MD", "Inc", "Az", "TVD", "Toolface")):
        ws.cell(2, 5 + k, name)
    for j, s in enumerate(stations):
        for k, v in enumerate(s):
            ws.cell(3 + j, 5 + k, v)
    n = len(stations)
    ws = wb.create_sheet("TOTALS")
    cols = [(NEV + HLA)[i] for i in order]
    ws.cell(1, 2, "Covariance")
    ws.cell(2, 1, "Md")
    value = {c: [100 * k + j + 0.25 for j in range(n)]
             for k, c in enumerate(NEV + HLA)}
    for k, c in enumerate(cols):
        ws.cell(2, 2 + k, c)
        for j in range(n):
            ws.cell(3 + j, 2 + k, value[c][j])
    for j, s in enumerate(stations):
        ws.cell(3 + j, 1, s[0])
    for j in range(trailing if n else 0):  # rows of the template
        for k in range(13):
            ws.cell(3 + n + j, 1 + k, 0. if k == 0 else 7e5)
    ws = wb.create_sheet("Validation")
    for k, c in enumerate(["MD", "Source"] + NEV + NEV + NEV):
        ws.cell(2, 1 + k, c)
    vrows = []
    for j, s in enumerate(stations):
        for q, code in enumerate(tabs):
            vals = [1000 * q + 10 * j + 0.5 * k for k in range(12)]
            vrows.append((s[0], code, vals))
    line = 3
    for q, (md, code, vals) in enumerate(vrows):
        if q % 3 == 2:
            line += 1              # blank line
        for k, v in enumerate([md, code] + vals + [0.] * 6):
            ws.cell(line, 1 + k, v)
        line += 1
    extra = {}
    for q, code in enumerate(tabs):
        ws = wb.create_sheet(code)
        groups = [("dpde", ["D", "I", "A"]), ("e", ["N", "E", "V"]),
                  ("Covariance", NEV)] + (
            [("Covariance", HLA)] if q % 2 else [])
        ws.cell(2, 1, "Md")
        col = 2
        blocks, seen = {}, {}
        for g, (label, subs) in enumerate(groups):
            seen[label] = seen.get(label, 0) + 1
            nm = label if seen[label] == 1 else f"{label}_{seen[label]}"
            ws.cell(1, col, label)
            if len(subs) > 1:
                ws.merge_cells(start_row=1, end_row=1, start_column=col,
                               end_column=col + len(subs) - 1)
            blocks[nm] = {}
            for k, sub in enumerate(subs):
                ws.cell(2, col, sub)
                vals = [q + 10. * g + k + 0.125 * j
                        for j in range(n + trailing)]
                for j, v in enumerate(vals):
                    ws.cell(3 + j, col, v)
                blocks[nm][sub] = vals[:n]
                col += 1
            if g == 1:
                col += 1           # empty column between groups
        for j in range(n + trailing):
            ws.cell(3 + j, 1, stations[j][0] if j < n else
                    stations[-1][0] + 30. * (j - n + 1))
        extra[code] = blocks
    wb.create_sheet("Notes").cell(1, 1, "auxiliary")
    wb.save(path)
    return value, vrows, extra


def num(v):
    return float(v) if isinstance(v, (int, float)) else float("nan")


def eq(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


FIELDS = [("no", 0), ("code", 1), ("description", 2), ("wt_fn", 3),
          ("wt_fn_source", 4), ("type", 5), ("magnitude", 6), ("unit", 7),
          ("propagation", 8), ("p1", 9), ("p2", 10), ("p3", 11),
          ("wt_fn_comment", 12), ("depth_formula", 13), ("inc_formula", 14),
          ("az_formula", 15), ("sing_n_formula", 16),
          ("sing_e_formula", 17), ("sing_v_formula", 18)]
HEAD_ATTR = {"OWSG Prefix": "owsg_prefix", "Short Name": "short_name",
             "Long Name": "long_name", "Revision No": "revision_no",
             "Revision Date": "revision_date", "Source": "source",
             "Revision Comment": "revision_comment", "Notes": "notes",
             "Application": "application", "Tool Type": "tool_type",
             "Status": "status", "Checked": "checked",
             "Approved": "approved"}
RULE = {"R": "random", "S": "systematic", "G": "global", "W": "within_pad"}


def check_terms(rec, key, got, rows, width=23):
    want = [r for r in rows if isinstance(r[0], (int, float)) and r[1]]
    rec.check([t.code for t in got] == [str(r[1]).strip() for r in want],
              key, lambda: f"terms {[t.code for t in got]}")
    for t, r in zip(got, want):
        for attr, k in FIELDS:
            v = r[k] if k < len(r) and k + 3 < width else None
            g = getattr(t, attr)
            if attr == "magnitude":
                ok = eq(g, num(v))
            elif attr in ("code", "propagation"):
                ok = g == str(v if v is not None else "").strip()
            elif attr in ("description", "wt_fn", "wt_fn_source", "type",
                          "unit"):
                ok = g == ("" if v is None else str(v))
            else:
                ok = g == v
            rec.check(ok, key, lambda: f"{t.code} {attr} = {g!r}, cell {v!r}")
        u = str(r[7] or "")
        if r[6] is not None:
            rec.close(t.magnitude_si, r[6] * (PI / 180 if "deg" in u
                                              else 1.), key,
                      f"{t.code} magnitude in base units", rtol=1e-14)
        rec.check(t.unit_si == u.replace("deg", "rad"), key,
                  f"{t.code} base unit {t.unit_si}")
        p = str(r[8] or "").strip()
        if p in RULE:
            rec.check(t.propagation_name == RULE[p], key,
                      f"{t.code} rule {t.propagation_name}")


def check_legacy(rec, key, ing, ex, rows):
    d = ing.to_legacy_codes_dict(ex)
    want = {}
    for r in rows:
        if not isinstance(r[0], (int, float)) or not r[1]:
            continue
        code = str(r[1]).strip()
        want["XCLA" if code == "XCLL" else code] = r
    rec.check(list(d["codes"]) == list(want), key,
              lambda: f"legacy codes {list(d['codes'])}")
    for c, r in want.items():
        t = d["codes"].get(c)
        if t is None:
            continue
        u = str(r[7] or "")
        rec.check(t["function"] == str(r[3] or "").replace("-", "_")
                  and t["unit"] == u.replace("deg", "rad"), key,
                  lambda: f"legacy {c}: {t}")
        if str(r[8]).strip() in RULE:
            rec.check(t["propagation"] == RULE[str(r[8]).strip()], key,
                      lambda: f"legacy {c}: {t}")
        if r[6] is not None:
            rec.close(t["magnitude"], r[6] * (PI / 180 if "deg" in u
                                              else 1.), key,
                      f"legacy magnitude of {c}", rtol=1e-14)
    for a, b in HEAD_ATTR.items():
        v = getattr(ex.header, b)
        rec.check(d["header"].get(a) == v, key, f"legacy header {a}")


BOOKROWS = [
    row(1, "DRFR", "m", "R", 0.35, PS[0], FS[0], SINGS[0]),
    row(2, "ABXY-TI1S", "m/s2", "S", 0.004, PS[1], FS[2], SINGS[2],
        wt="ABXY-TI1", conv=0.004),
    row(3, "XCLL", "-", "R", 0.167, PS[2], FS[3], SINGS[1], wt="XCL-A"),
    row(4, " DBH-U ", "deg.nT", "G", 4108., PS[0], FS[4], SINGS[0]),
    row(5, "XYM1", "deg", " W ", 0.1, PS[0], FS[1], SINGS[0], conv=0),
    row(6.0, "SAG", None, None, None, PS[2], (None, None, None), SINGS[0],
        wt=None),
    [None, "NOTE"] + [None] * 8,
    ["-", "DRFR"] + [None] * 8,
]
BOOKKV = [[("[OWSG Prefix]", "Z1"), ("Short Name:", "MC+TOOL"),
           ("Long Name:", "MC tool"), ("Revision No:", 5.1),
           ("Custom Key:", "kept"), ("Status:", "ok")],
          [("Notes:", "n"), ("Short Name:", "S2"), ("Approved:", "me"),
           ("Tool Type:", "MWD"), ("Source:", None),
           ("Application:", "a")]]
WELLS = [[("Well", "MC #1"), ("Latitude (deg)", 60), ("G (m/s2)", 9.80665),
          ("Btotal (nT)", 50000), ("Dip (deg)", 72),
          ("Declination (deg)", -4)],
         [("Well", "MC #2"), ("Latitude (deg)", -28.5),
          ("G (m/s2)", 9.78), ("Btotal (nT)", 48000.5),
          ("Dip (deg)", -58), ("Declination (deg)", 2),
          ("Depth units (m/ft)", "ft"), ("Feet to metres", 0.3048006)],
         [("Well", None), ("Latitude (deg)", 0.0), ("G (m/s2)", 9),
          ("Btotal (nT)", 30000), ("Dip (deg)", 0),
          ("Declination (deg)", 0), ("Depth units (m/ft)", "m")]]
STATIONS = [[(0, 0, 0, 0, 0), (30, 1.5, 20, 29.9, None),
             (60.5, 3, 359.9, 60, 12)],
            [(0, 0, 0, 0, 0), (1200, 45.25, 75, 1000.125, 3)],
            [(100, 0, 0, 100, 0), (130, 0, None, 130, 0),
             (None, None, None, None, None), (160, 5, 5, 160, 1)],
            [(250, 10, 20.5, 249, 0)]]
REVS = [(["Example", "Revision: 1.1", "Revision 5.01", "Revision 5.11",
          "Revision 5.2"], "Revision 5.11"),
        (["Revision 5.10", "Revision 5.9", "Revision 4.99 draft"],
         "Revision 5.10"),
        (["no revision", None, "see Revision 5.1"], None),
        (["Revision 9.1", "Revision 10.0", 5.3], "Revision 10.0")]


def book_cases(tier):
    """(rows, width, kv, well, stations, column order, revisions, tabs,
    trailing rows)"""
    out = []
    k = 0
    perms = [list(range(12)), list(range(6, 12)) + list(range(6)),
             [5, 4, 3, 2, 1, 0, 11, 9, 7, 6, 8, 10]]
    import itertools
    for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)):
        for c in itertools.permutations(range(len(BOOKROWS)), n):
            codes = [str(BOOKROWS[i][1]).strip() for i in c if isinstance(
                BOOKROWS[i][0], (int, float))]
            tabs = codes[:1 + k % 3]
            out.append([list(c), (23, 12, 15, 19, 22, 21, 20)[k % 7],
                        k % 2, (k // 2) % 3, (k // 3) % 4, perms[k % 3], k % 4,
                        tabs, (k // 5) % 3])
            k += 1
    return out


def book_case(rec, case):
    from welleng.errors import iscwsa_ingest as ing
    idx, width, kv, well, stations, order, revs, tabs, trailing = case
    key = {"workbook": case}
    rec.state(key)
    rec.trace()
    rec.trans(len(idx))
    rows = [BOOKROWS[i] for i in idx]
    tmp = tempfile.mkdtemp(prefix="mc_c26_")
    try:
        with rec.case(key):
            path = os.path.join(tmp, "mc.xlsx")
            st = STATIONS[stations]
            real = [s for s in st if s[0] is not None]
            value, vrows, extra = write_book(
                path, rows, width, BOOKKV[kv], WELLS[well], real
                if trailing else real, order, REVS[revs][0], tabs, trailing)
            ex = ing.load_iscwsa_example(path)
            rec.check(ex.revision == REVS[revs][1], key,
                      lambda: f"revision {ex.revision!r}")
            check_terms(rec, key, ex.terms, rows, width)
            h = {k.translate(str.maketrans("", "", ":[]")).strip(): v
                 for k, v in BOOKKV[kv]}
            for k, v in h.items():
                g = (getattr(ex.header, HEAD_ATTR[k]) if k in HEAD_ATTR
                     else ex.header.extras.get(k))
                rec.check(g == v, key, lambda: f"header {k} = {g!r}")
            check_legacy(rec, key, ing, ex, rows)
            w = ex.wellpath
            d = dict(WELLS[well])
            for a, b in (("latitude_deg", "Latitude (deg)"),
                         ("g", "G (m/s2)"), ("btotal", "Btotal (nT)"),
                         ("dip_deg", "Dip (deg)"),
                         ("declination_deg", "Declination (deg)")):
                rec.check(getattr(w, a) == d[b], key,
                          lambda: f"{a} = {getattr(w, a)}")
            rec.check(w.well_name == (d["Well"] or ""), key,
                      lambda: f"well name {w.well_name!r}")
            rec.check(w.depth_units == d.get("Depth units (m/ft)", "m")
                      and w.ft_to_m == d.get("Feet to metres", 0.3048), key,
                      lambda: f"{w.depth_units} {w.ft_to_m}")
            rec.check(eq(w.stations, [[num(v) for v in s] for s in real]),
                      key, lambda: f"stations {w.stations}")
            rec.check(eq(ex.totals.md, [s[0] for s in real])
                      and eq(ex.totals.nev, np.array(
                          [value[c] for c in NEV]).T)
                      and eq(ex.totals.hla, np.array(
                          [value[c] for c in HLA]).T), key, "totals differ")
            rec.check(len(ex.validation) == len(vrows), key,
                      lambda: f"{len(ex.validation)} validation rows")
            for g, (md, code, vals) in zip(ex.validation, vrows):
                rec.check(g.md == md and g.source == code
                          and eq(g.diagnostic, vals[:6])
                          and eq(g.calculated, vals[6:]), key,
                          lambda: f"validation {g}")
            rec.check(sorted(ex.sources) == sorted(tabs), key,
                      lambda: f"sources {sorted(ex.sources)}")
            for c, blocks in extra.items():
                g = ex.sources.get(c)
                if g is None:
                    continue
                rec.check(g.code == c and eq(g.md, [s[0] for s in real]),
                          key, lambda: f"{c}: md {g.md}")
                rec.check({k: list(v) for k, v in g.blocks.items()}
                          == {k: list(v) for k, v in blocks.items()}, key,
                          lambda: f"{c}: blocks {list(g.blocks)}")
                for b in blocks:
                    for s in blocks[b]:
                        rec.check(b in g.blocks and s in g.blocks[b]
                                  and eq(g.blocks[b][s], blocks[b][s]), key,
                                  lambda: f"{c}: {b}/{s}")
            rec.outcome("workbook read back")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def collision_cells(path):
    """The contents of a workbook of well paths, cell by cell."""
    import openpyxl
    wb = openpyxl.load_workbook(path, data_only=True)
    out = {"acr": {}, "wells": {}}
    for n in wb.sheetnames:
        if n.split()[-1] != "well":
            continue
        rows = [r for r in wb[n].iter_rows(min_row=17, min_col=2, max_col=10,
                                           values_only=True)
                if isinstance(r[0], (int, float))]
        out["wells"][n] = {k: [r[q] for r in rows]
                           for q, k in enumerate(COLLISION)}
        if n == "Reference well":
            out["acr"] = {k: wb[n].cell(4 + q, 9).value
                          for q, k in enumerate(ACR)}
        else:
            out["wells"][n]["SF"] = [
                r[14].value for r in wb[n[:5] + "clearance"].iter_rows(
                    min_row=5, max_col=15)]
    return out


COLLISION = ["MD", "IncDeg", "AziDeg", "TVD", "N", "E", "sigmaH", "sigmaL",
             "sigmaA"]
ACR = ["Sm", "sigmapa", "k", "reference_h_and_c", "offset_h_and_c"]


def write_collision(path, wells, notes, text, extra):
    """`wells` is a list of (number of stations, columns of separation
    factors); the first is the reference well."""
    import openpyxl
    wb = openpyxl.Workbook()
    wb.active.title = "Read me"
    want = {"acr": {}, "wells": {}}
    order = list(range(len(wells)))
    if extra % 2:
        order = order[1:] + order[:1]
    for w in order:
        n, sf = wells[w]
        name = "Reference well" if w == 0 else f"{w:02d} - well"
        ws = wb.create_sheet(name)
        data = {k: [] for k in COLLISION}
        line = 17
        for j in range(n):
            if text and j == text:       # a line of text between stations
                ws.cell(line, 2, "text")
                ws.cell(line, 3, 5.0)
                line += 1
            for q, k in enumerate(COLLISION):
                v = 1000 * w + 30 * j if q == 0 else w + 10 * q + j / 4
                ws.cell(line, 2 + q, v)
                data[k].append(v)
            line += 1
        if w == 0:
            for q, k in enumerate(ACR):
                want["acr"][k] = 0.5 * q + 0.25
                ws.cell(4 + q, 9, want["acr"][k])
        else:
            cl = wb.create_sheet(f"{w:02d} - clearance")
            vals = [1.5 + w + j / 8 for j in range(sf)]
            cl.cell(3, 15, "SF")
            for j, v in enumerate(vals):
                cl.cell(5 + j, 15, v)
                cl.cell(5 + j, 16, -v)
            data["SF"] = vals
        want["wells"][name] = data
    for q in range(notes):
        wb.create_sheet(f"Notes {q} of wells")
    wb.save(path)
    return want


def collisions(rec, tier):
    """Workbooks of the ISCWSA set of well paths."""
    import itertools
    repo.load()
    from welleng import io
    tmp = tempfile.mkdtemp(prefix="mc_c26_")
    try:
        k = 0
        for nw in (1, 2, 3):
            for wells in itertools.product(
                    [(1, 1), (3, 2), (7, 9)], repeat=nw):
                for text in (0, 1):
                    for extra in (0, 1):
                        k += 1
                        key = {"wells": wells, "text": text, "extra": extra}
                        rec.state(repr(key))
                        rec.trans(nw)
                        with rec.case(key):
                            p = os.path.join(tmp, "c.xlsx")
                            want = write_collision(p, wells, k % 3, text,
                                                   extra)
                            same_wells(rec, key,
                                       io.import_iscwsa_collision_data(p),
                                       want)
        ref_dir = os.path.join(repo.REPO, "reference")
        for f in sorted(os.listdir(ref_dir)
                        if os.path.isdir(ref_dir) else []):
            if f.startswith("standard-set-of-wellpaths") and \
                    f.endswith(".xlsx"):
                p = os.path.join(ref_dir, f)
                key = {"workbook": f}
                rec.trace()
                with rec.case(key):
                    same_wells(rec, key, io.import_iscwsa_collision_data(p),
                               collision_cells(p))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def same_wells(rec, key, got, want):
    rec.check(got["acr"] == want["acr"], key, lambda: f"rule {got['acr']}")
    rec.check(set(got["wells"]) == set(want["wells"]), key,
              lambda: f"wells {sorted(got['wells'])}")
    rec.outcome("well paths read back")
    for w in want["wells"]:
        g = got["wells"].get(w, {})
        for c, v in want["wells"][w].items():
            rec.check(c in g and list(g[c]) == v, dict(key, well=w),
                      lambda: f"{c} is {g.get(c)}")


def reference_book(rec, name):
    import openpyxl
    from welleng.errors import iscwsa_ingest as ing
    key = {"reference": name}
    rec.state(key)
    rec.trace()
    path = os.path.join(repo.REPO, "reference", name)
    with rec.case(key):
        ex = ing.load_iscwsa_example(path)
        wb = openpyxl.load_workbook(path, data_only=True)
        grid = {n: [list(r) for r in wb[n].iter_rows(values_only=True)]
                for n in wb.sheetnames if hasattr(wb[n], "iter_rows")}
        rows = [r[3:] for r in grid["Model"]
                if isinstance(r[3], (int, float)) and r[4]]
        rec.trans(len(rows))
        check_terms(rec, key, ex.terms, rows, len(grid["Model"][0]))
        check_legacy(rec, key, ing, ex, rows)
        st = [r[4:9] for r in grid["Wellpath"][2:]
              if isinstance(r[4], (int, float))]
        rec.check(eq(ex.wellpath.stations, [[num(v) for v in s]
                                            for s in st]), key, "stations")
        lab = {str(r[0]): r[1] for r in grid["Wellpath"] if r[0]}
        rec.check(ex.wellpath.latitude_deg == lab["Latitude (deg)"]
                  and ex.wellpath.btotal == lab["Btotal (nT)"]
                  and ex.wellpath.dip_deg == lab["Dip (deg)"]
                  and ex.wellpath.declination_deg
                  == lab["Declination (deg)"], key, "reference values")
        T = [r for r in grid["TOTALS"][2:]
             if isinstance(r[0], (int, float))][:len(st)]
        rec.check(eq(ex.totals.md, [r[0] for r in T])
                  and eq(ex.totals.nev, [r[1:7] for r in T])
                  and eq(ex.totals.hla, [r[7:13] for r in T]), key, "totals")
        V = [r for r in grid["Validation"][2:]
             if r[0] is not None and r[1] is not None]
        rec.check(len(V) == len(ex.validation), key, "validation rows")
        for r, g in zip(V, ex.validation):
            rec.check(g.md == r[0] and g.source == r[1]
                      and eq(g.diagnostic, [num(v) for v in r[2:8]])
                      and eq(g.calculated, [num(v) for v in r[8:14]]), key,
                      lambda: f"validation {r[:2]}")
        codes = {str(r[1]).strip() for r in rows}
        rec.check(set(ex.sources) == codes & set(grid), key,
                  "error-source sheets")
        for c, g in ex.sources.items():
            G = [r for r in grid[c][2:] if isinstance(r[0], (int, float))]
            G = G[:len(st)]
            rec.check(eq(g.md, [r[0] for r in G]), key, f"{c} md")
            for b, label in (("dpde", "dpde"), ("e", "e"),
                             ("estar", "estar")):
                if label in grid[c][0]:
                    k = grid[c][0].index(label)
                    subs = grid[c][1][k:k + 3]
                    for j, s in enumerate(subs):
                        rec.check(eq(g.blocks[b][s],
                                     [num(r[k + j]) for r in G]), key,
                                  f"{c} {b} {s}")
            cc = grid[c][1].index("NN")
            got = [b for b in g.blocks.values() if "NN" in b][0]
            for j, s in enumerate(NEV):
                rec.check(eq(got[s], [num(r[cc + j]) for r in G]), key,
                          f"{c} covariance {s}")
        rec.outcome("example workbook read back")


# -- driver ------------------------------------------------------------------------

def BOUNDS(tier):
    return {"units": sorted(UNIT), "propagation modes": sorted(MODE),
            "formula sets": FORMULAS, "unevaluable": BAD,
            "term lists": "every ordered list of <= "
            + ("3" if tier == "quick" else "4")
            + " of 6 terms, inclination limits 30..180",
            "surveys": PATHS, "headers": HEADS,
            "shipped JSON models": "all, on 2 surveys",
            "example workbooks": f"{len(book_cases(tier))} generated, 3 of "
            "the repository", "tool sheets": f"{len(convert_rows())} "
            "generated, both published tool groups, limits " + str(LIMITS)}


def units(tier):
    out = [["toolgroup", "A"], ["toolgroup", "B"], ["collision", tier]]
    n = len(single_models(tier))
    out += [["single", a, b, tier] for a, b in _cuts(n, 90)]
    out += [["lists", a, b, tier] for a, b in
            _cuts(len(list_models(tier)), 60)]
    out += [["shipped", a, b, tier] for a, b in _cuts(len(shipped()), 25)]
    out += [["books", a, b, tier] for a, b in
            _cuts(len(book_cases(tier)), 60)]
    out += [["sheets", a, b, tier] for a, b in
            _cuts(len(convert_rows()), 200)]
    ref_dir = os.path.join(repo.REPO, "reference")
    if os.path.isdir(ref_dir):
        out += [["reference", f] for f in sorted(os.listdir(ref_dir))
                if re.match(r"error-model-example-mwdrev\d-iscwsa-\d\.xlsx$",
                            f)]
    return out


def _cuts(n, size):
    return [(a, min(a + size, n)) for a in range(0, n, size)]


def run(unit, rec):
    warnings.simplefilter("ignore")
    kind = unit[0]
    rec.sample(unit)
    if kind in ("single", "lists"):
        a, b, tier = unit[1:]
        todo = (single_models if kind == "single" else list_models)(tier)[a:b]
        models, jobs, meta = [], [], []
        for k, (terms, inc_max, heads) in enumerate(todo):
            n = a + k
            short, key = f"MC-{kind}-{n}", f"Z{n:04d}Ma"
            # found by short name, by index key or by file name
            fn = (f"{short}.json", f"file{n}.json", f"{key}.json")[n % 3]
            m = model_file(short if n % 3 < 2 else "other " + short,
                           key if n % 3 else f"id{n}", terms, inc_max)
            models.append((key, short, ("owsg_a", "mc_models")[n % 2], fn,
                           m))
            for h in heads:
                paths = PATHS[:2] if tier != "quick" or kind == "lists" \
                    else [PATHS[n % 2]]
                for p in paths:
                    jobs.append((short, p, HEADS[h]))
                    meta.append(({"terms": terms, "path": p, "header": h,
                                  "inc_max": inc_max}, terms, inc_max))
        for (name, p, h), (key, terms, inc_max), r in zip(
                jobs, meta, run_models(models, jobs)):
            judge(rec, key, terms, p, h, r, inc_max)
    elif kind == "shipped":
        a, b, tier = unit[1:]
        models, jobs, meta = [], [], []
        for k, (sub, fn, m) in enumerate(shipped()[a:b]):
            # listed under a key of its own so that the JSON file, not a
            # legacy model of the same prefix, is what gets loaded
            short = m["metadata"]["short_name"]
            low = m["parameters"].get("inc_max", 180)
            models.append((f"Z{a + k:04d}Mc", short, sub, fn, None))
            for q, p in enumerate(PATHS):
                if max(s[1] for s in p) < low or q == 0:
                    jobs.append((short, p, HEADS[(q + k) % 2]))
                    meta.append(({"model": f"{sub}/{fn}", "path": q,
                                  "header": (q + k) % 2}, m["terms"], low))
        # drop the legacy entries of the same short name
        for (name, p, h), (key, terms, low), r in zip(
                jobs, meta, run_shipped(models, jobs)):
            judge(rec, key, terms, p, h, r, low)
    elif kind == "collision":
        collisions(rec, unit[1])
    elif kind == "toolgroup":
        toolgroup(rec, unit[1])
    elif kind == "reference":
        repo.load()
        reference_book(rec, unit[1])
    elif kind == "books":
        repo.load()
        for c in book_cases(unit[3])[unit[1]:unit[2]]:
            book_case(rec, c)
    elif kind == "sheets":
        repo.load()
        for k, rows in enumerate(convert_rows()[unit[1]:unit[2]]):
            n = unit[1] + k
            for lim in (LIMITS if unit[3] != "quick" or n % 20 == 0
                        else [LIMITS[n % len(LIMITS)]]):
                kv = [(a, (lim[0] if "Min" in a else lim[1])
                       if "Range" in a else v) for a, v in KV]
                convert_case(rec, rows, kv)


def run_shipped(models, jobs):
    """Shipped files are found by short name; the index entry of a legacy
    model of the same short name must not shadow them, so every model gets
    a unique alias."""
    out_models, out_jobs = [], []
    alias = {}
    for n, (key, short, sub, fn, _) in enumerate(models):
        with open(os.path.join(repo.REPO, "welleng", "errors",
                               "iscwsa_json", sub, fn)) as f:
            m = json.load(f)
        alias[short] = f"MC {short}"
        m["metadata"]["short_name"] = alias[short]
        m["metadata"]["model_id"] = key
        out_models.append((key, alias[short], sub, "mc_" + fn, m))
    out_jobs = [(alias[s], p, h) for s, p, h in jobs]
    return run_models(out_models, out_jobs)
