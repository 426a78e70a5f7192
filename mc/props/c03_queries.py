"""C03: queries never change the survey, its header or the caller's data."""
import io

import numpy as np

from .. import repo
from ..common import header, survey, product

ID = "C03"
EXPLANATION = (
    "Two surveys share a header object.  Every query is run on fresh "
    "objects, which gives its reference answer; then every sequence of "
    "queries up to the depth is run on fresh objects and after each one the "
    "fingerprint of everything reachable from both surveys, the header and "
    "the caller's arguments (all public attributes, recursively) is compared "
    "with the one before, and its answer with the reference answer.  State = "
    "(configuration, fingerprint, queries so far), transition = one query.")
ASSUMPTIONS = [
    "operations that choose something for the survey (set_vertical_section, "
    "get_error) are not queries",
    "attributes with a leading underscore are not compared (a new attribute "
    "is not a change of the existing ones)",
]

CFG = [dict(ref="grid", unit="meters", conv=0.0, model="ISCWSA MWD Rev5.11",
            vs=None),
       dict(ref="true", unit="meters", conv=2.0, model="MWD+SRGM+AX",
            vs=0.7),
       dict(ref="magnetic", unit="feet", conv=-1.5, model=None, vs=None),
       dict(ref="true", unit="feet", conv=1.0, model="ISCWSA MWD Rev5.11",
            vs=3.1)]
DECL = 4.0
PATHS = [[(0., 0., 0.), (100., 0., 0.), (250., 20., 350.), (400., 45., 10.),
          (520., 60., 40.)],
         [(30., 10., 200.), (130., 10., 200.), (300., 35., 230.)]]


def BOUNDS(tier):
    return {"configurations": CFG, "queries": [m[0] for m in MENU],
            "sequences": "all ordered pairs" if tier == "quick" else
            "all ordered pairs; all ordered triples of the queries without a "
            "closest-point search, in two configurations"}


def world(c):
    """Fresh surveys, header and arguments."""
    f = 1.0 if c["unit"] == "meters" else 3.0
    h = header(azi_reference=c["ref"], convergence=c["conv"],
               declination=DECL, depth_unit=c["unit"],
               surface_unit=c["unit"], latitude=60.0, longitude=2.0,
               **({} if c["vs"] is None else
                  dict(vertical_section_azimuth=c["vs"])))
    kw = dict(unit=c["unit"], start_nev=[100.0, -50.0, 20.0])
    if c["model"]:
        kw["error_model"] = c["model"]
    else:
        kw["cov_nev"] = np.array([np.diag([1.0 + k, 2.0, 0.5])
                                  for k in range(len(PATHS[0]))])
    a = survey([(m * f, i, z) for m, i, z in PATHS[0]], h, **kw)
    kw["start_nev"] = np.array([130.0, -30.0, 10.0])
    if not c["model"]:
        kw["cov_nev"] = kw["cov_nev"][:len(PATHS[1])].copy()
    b = survey([(m * f, i, z) for m, i, z in PATHS[1]], h, **kw)
    N = repo.load().node.Node
    args = dict(md=333.25 * f, step=50.0 * f,
                target=N(pos=[900.0 * f, 500.0 * f, 900.0 * f],
                         unit=c["unit"]),
                pos=np.array([1.0, 2.0, 3.0]),
                vec=np.array([0.0, 0.6, 0.8]), depths=[10.0, 700.0],
                kw=kw, cfg=dict(c))
    return dict(a=a, b=b, header=h, args=args)


# ------------------------------------------------------------------- queries
def _mods():
    we = repo.load()
    return we.survey, we.clearance, we.mesh


def clear(w, x, y, **kw):
    C = _mods()[1]
    c = C.IscwsaClearance(w[x], w[y], k=2.5, sigma_pa=0.3, Sm=0.2, **kw)
    out = [c.sf, c.distance_cc, c.idx, c.masd, c.off_delta_nevs]
    if kw.get("minimize_sf") is False:
        m = c.get_sf_mins()
        out.append([] if m is None else vars(m) if hasattr(m, "__dict__")
                   else m)
    out.append(c.get_lines() if hasattr(c, "get_lines") else None)
    return [x for x in out if isinstance(x, (np.ndarray, list, float))]


def table(w, x):
    df = _mods()[0].survey_to_df(w[x])
    return [list(df.columns), df.to_numpy()]


def csv(w, x):
    df = _mods()[0].export_csv(w[x], None)
    return [list(df.columns), df.to_numpy()]


def text(w, x):
    b = io.StringIO()
    _mods()[0].export_csv(w[x], b, decimals=2)
    return len(b.getvalue().splitlines())


def mesh(w, x, **kw):
    m = _mods()[2].WellMesh(w[x], n_verts=12, **kw)
    return [m.vertices, m.faces]


def sects(w, x, **kw):
    return [vars(s) for s in _mods()[0].get_sections(w[x], **kw)]


def path(s):
    return [s.md, s.inc_rad, s.azi_grid_rad, s.n, s.e, s.tvd, s.radius,
            s.cov_nev, s.interpolated if hasattr(s, "interpolated") else None]


def pt(n):
    return [n.md, n.pos_nev, n.vec_nev, getattr(n, "cov_nev", None)]


def splice(w):
    S = _mods()[0]
    a = S.slice_survey(w["a"], 0, 4)
    b = S.slice_survey(w["a"], 3, 5)
    return path(S.splice_surveys([a, b]))


MENU = [
    ("md", lambda w: pt(w["a"].interpolate_md(w["args"]["md"]))),
    ("md station", lambda w: pt(w["b"].interpolate_md(w["b"].md[1]))),
    ("tvd", lambda w: pt(w["a"].interpolate_tvd(
        (w["a"].tvd[2] + w["a"].tvd[3]) / 2))),
    ("resample", lambda w: path(w["a"].interpolate_survey(
        step=w["args"]["step"]))),
    ("resample b", lambda w: path(w["b"].interpolate_survey(
        step=w["args"]["step"]))),
    ("resample tvd", lambda w: path(w["b"].interpolate_survey_tvd(
        step=w["args"]["step"]))),
    ("slice", lambda w: path(_mods()[0].slice_survey(w["a"], 1, 4))),
    ("splice", splice),
    ("section", lambda w: w["a"].get_vertical_section(35.0)),
    ("section b", lambda w: w["b"].get_vertical_section(0.5, deg=False)),
    ("tortuosity", lambda w: w["a"].tortuosity_index()),
    ("modified tortuosity", lambda w: w["b"].modified_tortuosity_index(
        step=w["args"]["step"])),
    ("difficulty", lambda w: w["a"].directional_difficulty_index()),
    ("maximum curvature", lambda w: path(w["a"].maximum_curvature(0.5))),
    ("bit", lambda w: pt(w["a"].project_to_bit(20.0))),
    ("bit turn", lambda w: pt(w["b"].project_to_bit(20.0, 3.0, 1.0))),
    ("ahead", lambda w: pt(_mods()[0].project_ahead(
        w["args"]["pos"], w["args"]["vec"], 30.0, 2.0, 0.5))),
    ("target", lambda w: path(w["b"].project_to_target(
        w["args"]["target"], delta_md=15.0))),
    ("target from end", lambda w: path(w["a"].project_to_target(
        w["args"]["target"]))),
    ("table", lambda w: table(w, "a")),
    ("control points", lambda w: csv(w, "b")),
    ("file", lambda w: text(w, "a")),
    ("sections", lambda w: sects(w, "a")),
    ("sections b", lambda w: sects(w, "b", dls_cont=True)),
    ("positions", lambda w: w["a"].get_nev_arr()),
    ("node", lambda w: pt(_mods()[0].get_node(w["a"], 2))),
    ("clearance", lambda w: clear(w, "a", "b")),
    ("clearance back", lambda w: clear(w, "b", "a", minimize_sf=False)),
    ("clearance kop", lambda w: clear(w, "a", "b",
                                      kop_depth=w["a"].md[2] + 1.0)),
    ("mesh", lambda w: mesh(w, "a", method="ellipse")),
    ("mesh b", lambda w: mesh(w, "b", method="pedal_curve", sigma=2.0)),
    ("mesh slices", lambda w: [m.vertices for m in _mods()[2].sliced_mesh(
        w["a"], step=2, n_verts=12, method="ellipse")]),
]


SLOW = [k for k, m in enumerate(MENU) if m[0] in ("clearance",
                                                  "clearance back")]


# ---------------------------------------------------------------- fingerprint
def leaves(o, path="", seen=None, out=None, depth=0):
    """{path: value} of everything reachable through public attributes."""
    if out is None:
        out, seen = {}, set()
    if o is None or isinstance(o, (str, bool, bytes)):
        out[path] = o
    elif isinstance(o, (int, float, np.number)):
        out[path] = float(o)
    elif isinstance(o, np.ndarray) and o.dtype.kind in "fiub":
        out[path] = np.array(o, dtype=float)
    elif isinstance(o, np.ndarray):
        out[path] = repr(o.tolist())
    elif isinstance(o, (list, tuple)):
        out[path + "#"] = float(len(o))
        for k, x in enumerate(o):
            leaves(x, f"{path}[{k}]", seen, out, depth + 1)
    elif isinstance(o, dict):
        for k in list(o):
            leaves(o[k], f"{path}[{k!r}]", seen, out, depth + 1)
    elif callable(o) and not hasattr(o, "__dict__"):
        out[path] = "callable"
    elif hasattr(o, "__dict__") and not isinstance(o, type) and \
            type(o).__module__.startswith("welleng"):
        if id(o) in seen:
            return out
        seen.add(id(o))
        for k, x in list(vars(o).items()):
            if not k.startswith("_"):
                leaves(x, f"{path}.{k}", seen, out, depth + 1)
    else:
        out[path] = type(o).__name__
    return out


def changed(before, after):
    for k, v in before.items():
        if k not in after:
            return f"{k} is gone"
        x = after[k]
        if isinstance(v, np.ndarray):
            if not isinstance(x, np.ndarray) or v.shape != x.shape or \
                    not np.array_equal(v, x, equal_nan=True):
                return f"{k} was {v.tolist()}, is {x}"
        elif not (v == x or (v != v and x != x)):
            return f"{k} was {v!r}, is {x!r}"
    return None


def differs(a, b):
    if set(a) != set(b):
        return f"parts {sorted(set(a) ^ set(b))[:4]}"
    for k, v in a.items():
        x = b[k]
        if isinstance(v, np.ndarray):
            if not isinstance(x, np.ndarray) or v.shape != x.shape or \
                    not np.allclose(v, x, 1e-9, 1e-9, equal_nan=True):
                return f"{k}: {x}, on its own {v}"
        elif isinstance(v, float):
            if not (isinstance(x, float) and np.isclose(
                    v, x, 1e-9, 1e-9, equal_nan=True)):
                return f"{k}: {x}, on its own {v}"
        elif v != x:
            return f"{k}: {x!r}, on its own {v!r}"
    return None


# ------------------------------------------------------------------------ run
def units(tier):
    if tier == "quick":
        return [["pairs", c, q] for c in range(len(CFG))
                for q in range(len(MENU))]
    return units("quick") + [["triples", c, q] for q in range(len(MENU))
                             for c in (1, 2) if q not in SLOW]


_alone = {}


def alone(c, q):
    """Answer of a query on fresh objects (None: it is refused)."""
    if (c, q) not in _alone:
        try:
            _alone[c, q] = leaves(MENU[q][1](world(CFG[c])))
        except Exception as e:                       # noqa: BLE001
            _alone[c, q] = e
    return _alone[c, q]


def run(unit, rec):
    kind, c, first = unit
    depth = 2 if kind == "pairs" else 3
    rec.sample({"configuration": CFG[c], "first query": MENU[first][0]})
    a = alone(c, first)
    if isinstance(a, Exception):
        rec.fail({"configuration": c, "history": [MENU[first][0]]},
                 f"raised {type(a).__name__}: {a}")
        return
    menu = [q for q in range(len(MENU)) if depth == 2 or q not in SLOW]
    for rest in product(menu, repeat=depth - 1):
        ops = (first, *rest)
        key = {"configuration": c, "history": [MENU[q][0] for q in ops]}
        if any(isinstance(alone(c, q), Exception) for q in ops):
            continue                     # reported where it comes first
        with rec.case(key):
            w = world(CFG[c])
            state = leaves(w)
            for n, q in enumerate(ops):
                rec.trans()
                rec.state(repr((c, ops[:n + 1])))
                got = leaves(MENU[q][1](w))
                bad = differs(alone(c, q), got)
                rec.check(bad is None, dict(key, at=n),
                          f"answer of {MENU[q][0]}: {bad}")
                if n + 1 < len(ops) and depth > 2 and n == 0 and rest[0]:
                    continue             # decided with the first pair
                bad = changed(state, leaves(w))
                rec.check(bad is None, dict(key, at=n),
                          f"{MENU[q][0]} changed {bad}")
            rec.trace()
            rec.outcome(MENU[ops[-1]][0])
