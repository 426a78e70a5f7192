"""C32: figures, scenes and targets show what the objects hold."""
import math
import re
import sys
import types

import numpy as np

from .. import ref, repo
from ..common import D, header, nev, survey

ID = "C32"
EXPLANATION = (
    "Product exploration of the drawing code with recording stand-ins for "
    "the plotting back end (plotly is not installed; vedo's window and line "
    "classes are replaced before the library is imported): every survey of "
    "the alphabet x units x interpolation marks x kind of figure, every "
    "torque figure x units x number of friction factors, every target "
    "position x dip x orientation, every scene of well meshes and every "
    "pointer position is drawn by the real code, and what reaches the back "
    "end is compared with the positions, depths, loads and meshes of the "
    "objects themselves, axis by axis.")
ASSUMPTIONS = [
    "plotly's and vedo's own drawing is outside the check",
    "mesh decimation is an optional package: a stand-in keeps the mesh"]

WELLS = {
    "vertical": [(0, 0, 0), (300, 0, 0), (900, 0, 0)],
    "build": [(100, 0, 40), (400, 0, 40), (700, 30, 40), (1000, 60, 55),
              (1300, 60, 55)],
    "west": [(0, 5, 300), (500, 40, 280), (900, 92, 265), (1500, 88, 250),
             (1600, 88, 250)],
    "two": [(50, 20, 120), (150, 25, 130)],
}
UNITS = ["meters", "feet"]
MARKS = ["none", "all false", "some", "all true", "resampled"]
VSA = [0.0, 35.0, 123.4, 270.0, 359.0]
TARGETS = [(0.0, 0.0, 1000.0), (-250.0, 120.5, 2500.0), (900.0, -30.0, 0.0)]
ANGLES = [0.0, 20.0, 75.0, 90.0, -30.0]
TURNS = [0.0, 30.0, 90.0, 200.0, -45.0]
FFS = [(0.1, 0.4, 0.1), (0.2, 0.3, 0.1), (0.05, 0.45, 0.1),
       (0.1, 0.8, 0.1), (0.2, 0.2, 0.1)]
TDU = [dict(depth="ft", tension="lbf", torque="ft_lbf"),
       dict(depth="m", tension="kN", torque="kN * m"),
       dict(depth="m", tension="N", torque="ft_lbf")]
FACTOR = {"ft": 1 / 0.3048, "m": 1.0, "lbf": 1 / 4.4482216152605,
          "kN": 1e-3, "N": 1.0, "ft_lbf": 1 / 1.3558179483314004,
          "kN * m": 1e-3}


def BOUNDS(tier):
    return {"wells": list(WELLS), "units": UNITS, "marks": MARKS,
            "vertical section azimuths": VSA,
            "targets": "3 places x 5 dips x 5 orientations x 2 radii",
            "torque figures": "3 unit systems, 5 ranges of friction factors",
            "scenes": "1 to 3 wells, origins, scales",
            "pointer": "every station of every well of a scene"}


# ---------------------------------------------------------------- stand-ins
class Trace:
    def __init__(self, kind, *a, **kw):
        self.kind, self.kw = kind, kw

    def __getitem__(self, k):
        return self.kw[k]


class Fig:
    def __init__(self, data=None, layout=None, **kw):
        self.traces, self.calls, self.shape = [], [], None
        self.layout = dict(layout or {})
        for t in (data or []):
            self.add_trace(t)

    def add_trace(self, t, row=None, col=None, **kw):
        self.traces.append((t, row, col))
        return self

    def add_traces(self, ts, rows=None, cols=None, **kw):
        ts = ts if isinstance(ts, (list, tuple)) else [ts]
        for k, t in enumerate(ts):
            self.add_trace(t, rows[k] if isinstance(rows, (list, tuple))
                           else rows, cols[k] if isinstance(
                               cols, (list, tuple)) else cols)
        return self

    def update_layout(self, d=None, **kw):
        for k, v in dict(d or {}, **kw).items():
            if isinstance(v, dict) and isinstance(self.layout.get(k), dict):
                self.layout[k] = dict(self.layout[k], **v)
            else:
                self.layout[k] = v
        self.calls.append(("update_layout", d, kw))
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = re.match(r"add_(\w+)$", name)
        if m:
            def add(row=None, col=None, **kw):
                return self.add_trace(
                    Trace(m.group(1).replace("_", ""), **kw), row, col)
            return add

        def call(*a, **kw):
            self.calls.append((name, a, kw))
            return self
        return call


def stand_ins():
    """Install the recorders; must run before welleng is imported."""
    if "_c32" in sys.modules:
        return sys.modules["_c32"]
    if any(m == "welleng" or m.startswith("welleng.") for m in sys.modules):
        raise SystemExit("welleng was imported before the stand-ins")
    go = types.ModuleType("plotly.graph_objects")
    go.Figure = Fig

    def maker(kind):
        return lambda *a, **kw: Trace(kind.lower(), *a, **kw)

    go.__getattr__ = lambda k: (_ for _ in ()).throw(AttributeError(k)) \
        if k.startswith("__") else maker(k)
    sub = types.ModuleType("plotly.subplots")

    def make_subplots(rows=1, cols=1, **kw):
        f = Fig()
        f.shape, f.titles = (rows, cols), kw.get("subplot_titles")
        return f

    sub.make_subplots = make_subplots
    top = types.ModuleType("plotly")
    top.graph_objects, top.subplots = go, sub
    sys.modules.update({"plotly": top, "plotly.graph_objects": go,
                        "plotly.subplots": sub})
    import vedo

    class Window:
        def __init__(self, *a, **kw):
            self.added, self.shown, self.axes = [], [], None

        def add(self, *objs):
            for o in objs:
                self.added.extend(o if isinstance(o, (list, tuple)) else [o])
            return self

        def remove(self, *o):
            return self

        def add_callback(self, *a, **k):
            return 0

        def show(self, *a, **kw):
            self.shown.append(kw)
            return self

    class LineSet:
        def __init__(self, a, b=None, **kw):
            self.a, self.b, self.values = a, b, None

        def cmap(self, name, values, **kw):
            self.values = (values, kw)
            return self

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: self

    vedo.Plotter, vedo.Lines = Window, LineSet
    box = types.ModuleType("_c32")
    box.Window, box.LineSet = Window, LineSet
    sys.modules["_c32"] = box
    return box


# ------------------------------------------------------------------- units
def units(tier):
    out = [["survey", w, u] for w in WELLS for u in UNITS]
    out += [["torque", k] for k in range(len(TDU))]
    out += [["target", k] for k in range(len(TARGETS))]
    out += [["scene", k] for k in range(len(WELLS))] + [["lines", 0]]
    return out


def run(unit, rec):
    stand_ins()
    repo.load()
    {"survey": surveys, "torque": torque, "target": target,
     "scene": scene, "lines": lines}[unit[0]](rec, *unit[1:])
    rec.sample({"unit": unit})


def arr(v):
    return np.asarray(getattr(v, "magnitude", v), float).reshape(-1)


def xyz(rec, tr, want, key, what, axes="xyz"):
    for a, w in zip(axes, want):
        rec.close(arr(tr[a]), arr(w), key, f"{what}: {a}", 1e-9, 1e-6)


def make(name, unit, mark):
    st = [tuple(x) for x in WELLS[name]]
    s = survey(st, header(depth_unit=unit, surface_unit=unit), unit=unit,
               start_nev=[10.0, -20.0, st[0][0] * 1.0])
    n = len(st)
    if mark == "resampled":
        s = s.interpolate_survey(step=90)
    elif mark == "all false":
        s.interpolated = [False] * n
    elif mark == "all true":
        s.interpolated = [True] * n
    elif mark == "some":
        s.interpolated = [bool(k % 2) for k in range(n)]
    else:
        s.interpolated = None
    return s


def surveys(rec, name, unit):
    W = repo.load()
    for mark in MARKS:
        key = {"figure": "scatter3d", "well": name, "unit": unit,
               "marks": mark}
        rec.state(repr(key))
        with rec.case(key):
            s = make(name, unit, mark)
            flags = [bool(x) for x in (s.interpolated
                                       if s.interpolated is not None
                                       else [False] * len(s.md))]
            f = s.figure()
            rec.trans()
            ts = [t for t, _, _ in f.traces]
            rec.check(all(t.kind == "scatter3d" for t in ts), key,
                      lambda: f"kinds {[t.kind for t in ts]}")
            line = [t for t in ts if t["mode"] == "lines"]
            rec.check(len(line) == 1, key, "one line expected")
            xyz(rec, line[0], (s.e, s.n, s.tvd), key, "line")
            left = {True: [k for k, x in enumerate(flags) if x],
                    False: [k for k, x in enumerate(flags) if not x]}
            rec.check(len(ts) - 1 == sum(bool(v) for v in left.values()),
                      key, lambda: f"{len(ts) - 1} sets of markers")
            for t in ts:
                if t is line[0]:
                    continue
                i = left["interpol" in t["name"]]
                xyz(rec, t, (s.e[i], s.n[i], s.tvd[i]), key, t["name"])
                for txt, k in zip(t["text"], i):
                    got = [float(x) for x in re.findall(
                        r": (-?[\d.]+)", txt)]
                    rec.close(got, [s.n[k], s.e[k], s.tvd[k], s.md[k],
                                    s.inc_deg[k], s.azi_grid_deg[k]], key,
                              "text", 0, 0.00501)
                    u = "m" if unit == "meters" else "ft"
                    rec.check(len(re.findall(rf"\d{u}\b", txt)) == 4, key,
                              lambda: f"units in {txt!r}")
            axes3d(rec, f, unit, key)
            # what the caller asks for last, wins
            f = W.visual.figure(s, "scatter3d", layout=dict(title="t1"),
                                traces=dict(opacity=0.5))
            rec.check(f.layout.get("title") == "t1", key, "layout not used")
            rec.check(any(c[0] == "update_traces" and (
                dict(opacity=0.5) in c[1] or c[2].get("opacity") == 0.5)
                for c in f.calls), key, "traces not used")
    for vsa in VSA:
        key = {"figure": "panel", "well": name, "unit": unit, "vsa": vsa}
        rec.state(repr(key))
        with rec.case(key):
            s = make(name, unit, "none")
            s.set_vertical_section(vsa)
            f = s.figure("panel")
            rec.trans()
            panel(rec, f, s, vsa, key)


def axes3d(rec, f, unit, key):
    sc = {}
    for c in f.calls:
        if c[0] == "update_scenes":
            sc.update(c[2])
    scene_ = f.layout.get("scene", {})
    if isinstance(scene_, dict):
        sc.update(scene_)
    z = sc.get("zaxis") or {}
    rec.check(sc.get("zaxis_autorange", z.get("autorange")) == "reversed",
              key, "depth axis is not reversed")
    rec.check(sc.get("aspectmode") == "data", key, "axes not to scale")
    u = "(m)" if unit == "meters" else "(ft)"
    for a, w in zip("xyz", ("East", "North", "TVD")):
        title = (sc.get(a + "axis") or {}).get("title", "")
        title = title.get("text") if isinstance(title, dict) else title
        rec.check(w in title and u in title, key,
                  lambda: f"{a} axis is called {title!r}")


def panel(rec, f, s, vsa, key):
    rec.check(f.shape == (2, 2) and len(f.traces) == 4, key,
              lambda: f"{len(f.traces)} traces on {f.shape}")
    v = D(vsa)
    kind = {"West-East": np.asarray(s.e), "North-South": np.asarray(s.n),
            "TVD": np.asarray(s.tvd),
            "Outstep": (np.asarray(s.n)) * math.cos(v)
            + (np.asarray(s.e)) * math.sin(v)}
    seen = []
    for t, r, c in f.traces:
        k = (r - 1) * 2 + c
        sfx = "" if k == 1 else str(k)
        xa, ya = f.layout[f"xaxis{sfx}"], f.layout[f"yaxis{sfx}"]
        seen.append((xa["title"], ya["title"]))
        want = (kind[xa["title"]], kind[ya["title"]])
        if xa["title"] == "Outstep":
            # the survey decides from where the section is measured
            want = (np.asarray(s.get_vertical_section(vsa)), want[1])
            rec.close(np.diff(want[0]), np.diff(kind["Outstep"]), key,
                      "vertical section", 0, 1e-6)
            rec.check(re.search(r"Vertical Section: *(-?[\d.]+)",
                                f.titles[k - 1]) and abs(float(re.search(
                                    r"(-?[\d.]+)", f.titles[k - 1]).group(1))
                                    - vsa) < 1e-6, key,
                      lambda: f"title {f.titles[k - 1]!r}")
        if ya["title"] == "TVD":
            rec.check(ya.get("autorange") == "reversed", key,
                      "depth axis is not reversed")
        else:
            rec.check(ya.get("autorange") != "reversed", key,
                      "plan is upside down")
        xyz(rec, t, want, key, f"panel {k}", "xy")
    rec.check(sorted(seen) == sorted([
        ("West-East", "North-South"), ("Outstep", "TVD"),
        ("West-East", "TVD"), ("North-South", "TVD")]), key,
        lambda: f"panels {seen}")
    # a panel's title names what it shows
    for t, r, c in f.traces:
        k = (r - 1) * 2 + c
        sfx = "" if k == 1 else str(k)
        x = f.layout[f"xaxis{sfx}"]["title"]
        y = f.layout[f"yaxis{sfx}"]["title"]
        want = {("West-East", "North-South"): "Plan",
                ("Outstep", "TVD"): "Vertical Section",
                ("West-East", "TVD"): "WE", ("North-South", "TVD"): "NS"}
        rec.check(want[x, y] in f.titles[k - 1], key,
                  lambda: f"{x} against {y} is titled {f.titles[k - 1]!r}")


def drill(rec, st, frac):
    M = repo.load()
    s = survey(st, header(), unit="meters")
    end = st[-1][0]
    wb = M.architecture.WellBore("hole", st[0][0], end, method="top_down")
    wb.add_section_top_down(od=0.3, id=0.3, bottom=0.5 * end,
                            coeff_friction_sliding=0.2, name="casing")
    wb.add_section_top_down(od=0.25, id=0.25, bottom=end,
                            coeff_friction_sliding=0.3, name="open hole")
    bha = M.architecture.BHA("drill string", st[0][0], frac * end,
                             method="bottom_up")
    bha.add_section_bottom_up(od=0.2, id=0.07, length=120,
                              unit_weight=2000.0, density=7.85,
                              name="collars")
    bha.add_section_bottom_up(od=0.127, id=0.1, unit_weight=300.0,
                              density=7.85, name="pipe")
    return s, wb, bha


def torque(rec, u):
    M = repo.load()
    T, un = M.torque_drag, TDU[u]
    st = [(0, 0, 30), (500, 0, 30), (1000, 40, 30), (2000, 40, 45)]
    for frac in (0.6, 0.95):
        key = {"figure": "tension and torque", "units": un, "bit": frac}
        rec.state(repr(key))
        with rec.case(key):
            s, wb, bha = drill(rec, st, frac)
            td = T.TorqueDrag(s, wb, bha, 1.2, wob=5e4, tob=5e3)
            for f in ((td.figure(),) if u == 0 else ()) + (
                    T.figure_string_tension_and_torque(td, units=un),):
                rec.trans()
                left = {("tension", k): v for k, v in td.tension.items()}
                left.update({("torque", k): v for k, v in td.torque.items()})
                rec.check(len(f.traces) == len(left), key,
                          lambda: f"{len(f.traces)} curves")
                for t, r, c in f.traces:
                    what, case = t["name"].split(": ")
                    v = np.asarray(left.pop((what, case)))
                    rec.close(arr(t["x"]), v * FACTOR[un[what]], key,
                              t["name"], 1e-6, 1e-6)
                    rec.close(arr(t["y"]), np.asarray(td.survey.md)
                              * FACTOR[un["depth"]], key, "depth", 1e-9,
                              1e-9)
                    sfx = "" if c == 1 else str(c)
                    xt = f.layout[f"xaxis{sfx}"]["title"]
                    rec.check(what in xt.lower() and un[what] in xt, key,
                              lambda: f"{t['name']} over axis {xt!r}")
                    y = f.layout[f"yaxis{sfx}"]
                    rec.check("MD" in y["title"] and un["depth"]
                              in y["title"] and y["autorange"]
                              == "reversed", key, f"depth axis {y}")
                rec.check(not left, key, lambda: f"missing {list(left)}")
    for ff in FFS:
        key = {"figure": "hook load", "units": un, "friction": ff}
        rec.state(repr(key))
        with rec.case(key):
            s, wb, bha = drill(rec, st, 0.8)
            h = T.HookLoad(s, wb, bha, 1.2, step=250, ff_range=ff)
            f = T.figure_hookload(h, units=un)
            rec.trans()
            md = np.asarray(h.md_range) * FACTOR[un["depth"]]
            count = {"slackoff": 0, "pickup": 0, "rotating": 0}
            for t, _, _ in f.traces:
                what = {"S": "slackoff", "P": "pickup",
                        "R": "rotating"}[t["name"][0]]
                count[what] += 1
                num = float(t["name"].split(":")[1])
                k = [q for q in h.data if abs(q - num) < 0.00501]
                rec.check(any(np.allclose(
                    arr(t["x"]), np.asarray(h.data[q][what])
                    * FACTOR[un["tension"]], rtol=1e-6) for q in k), key,
                    lambda: f"curve {t['name']}")
                rec.close(arr(t["y"]), md, key, "depth", 1e-9, 1e-9)
            rec.check(count == {"slackoff": len(h.data), "rotating": 1,
                                "pickup": len(h.data)}, key,
                      lambda: f"curves {count} for {len(h.data)} factors")
            ya, xa = f.layout["yaxis"], f.layout["xaxis"]
            rec.check(ya["autorange"] == "reversed" and un["depth"]
                      in ya["title"] and un["tension"] in xa["title"], key,
                      "axes")
            ann = f.layout["annotations"]
            ends = sorted((round(float(np.asarray(t["x"])[-1]), 3),
                           round(float(np.asarray(t["y"])[-1]), 3))
                          for t, _, _ in f.traces if t["name"][0] in "SP")
            rec.check(sorted((round(float(a["x"]), 3),
                              round(float(a["y"]), 3)) for a in ann)
                      == ends, key, "labels are not at the curves' ends")
            title = f.layout["title_text"]
            d = FACTOR[un["depth"]]
            for want in (f"casing to {1000 * d:.0f}", f"open hole to "
                         f"{2000 * d:.0f}", f"collars ({120 * d:.0f}",
                         "pipe to surface"):
                rec.check(want in title, key,
                          lambda: f"{want!r} not in {title!r}")


def target(rec, k):
    M = repo.load()
    pos = TARGETS[k]
    for radius in (30.0, 150.0):
        for dip in ANGLES:
            for turn in TURNS:
                key = {"target": pos, "dip": dip, "orientation": turn,
                       "radius": radius}
                rec.state(repr(key))
                rec.trans()
                with rec.case(key):
                    t = M.target.Target("t", *pos, "circle", dip=dip,
                                        orientation=turn, color="#ff0000",
                                        alpha=0.3, radius=radius)
                    g = t.plot_data()
                    v = np.asarray(g.vertices, float) - np.asarray(pos)
                    rec.check(g.flag == "t", key, "name")
                    rec.close(np.linalg.norm(v, axis=1), [radius] * len(v),
                              key, "radius", 0, 2e-3)
                    rec.close(v.mean(0), [0, 0, 0], key, "centre", 0, 2e-3)
                    # the plane dips from the horizontal about a line that
                    # runs East, turned by the orientation
                    w = D(turn)
                    strike = np.array([-math.sin(w), math.cos(w), 0.0])
                    down = np.array([math.cos(w), math.sin(w), 0.0])
                    n = np.cross(v[0], v[len(v) // 4])
                    n /= np.linalg.norm(n)
                    rec.close(abs(n[2]), abs(math.cos(D(dip))), key,
                              "dip", 0, 1e-4)
                    rec.close(float(n @ strike), 0.0, key, "orientation", 0,
                              1e-4)
                    rec.close(abs(float(n @ down)), abs(math.sin(D(dip))),
                              key, "dip direction", 0, 1e-4)
                    rec.close(float(g.alpha()), 0.3, key, "opacity", 0, 1e-6)
                    rec.close(list(g.color()), [1, 0, 0], key, "colour", 0,
                              0.02)
                    rec.check((t.n, t.e, t.tvd, t.name, t.shape, t.dip,
                               t.orientation) == (*pos, "t", "circle", dip,
                                                  turn), key, "attributes")
    for shape, geo, ok in (
            ("circle", dict(radius=1), True), ("circle", dict(r=1), False),
            ("circle", {}, False), ("oval", dict(radius=1), False),
            ("rectangle", dict(pos1=(0, 0), pos2=(1, 1)), True),
            ("rectangle", dict(pos1=(0, 0)), False),
            ("ellipse", dict(radius_1=1, radius_2=2, res=60), True),
            ("ellipse", dict(radius=2), False)):
        key = {"target shape": shape, "geometry": sorted(geo)}
        rec.state(repr((k, key)))
        with rec.case(key):
            try:
                M.target.Target("x", *pos, shape, **geo)
                got = True
            except AssertionError:
                got = False
            rec.check(got == ok, key, lambda: f"accepted: {got}")


def mesh_of(name, n_verts=12, at=(0.0, 0.0, 0.0), unit="meters"):
    M = repo.load()
    st = WELLS[name]
    cov = np.array([np.diag([4.0 + k, 9.0 + k, 1.0 + k])
                    for k in range(len(st))])
    s = survey(st, header(name=name, depth_unit=unit, surface_unit=unit),
               start_nev=list(at), cov_nev=cov, radius=[0.3] * len(st),
               unit=unit)
    return s, M.mesh.WellMesh(s, n_verts=n_verts, sigma=2.0)


def scene(rec, k):
    M = repo.load()
    names = list(WELLS)
    names = (names[k:] + names[:k])[:1 + k % 3 if k else 3]
    box = stand_ins()
    nv = (12, 16, 8)
    ms = [mesh_of(n, nv[j], (80.0 * j, -60.0 * j, 0.0))
          for j, n in enumerate(names)]
    # ---- mesh figure
    for j, (s, m) in enumerate(ms):
        for edges in (False, True):
            key = {"figure": "mesh3d", "well": names[j], "edges": edges,
                   "first": k}
            rec.state(repr(key))
            rec.trans()
            with rec.case(key):
                f = m.figure(edges=edges)
                tm = np.asarray(m.mesh.vertices)[np.asarray(m.mesh.faces)]
                got = f.traces[0][0]
                rec.check(got.kind == "mesh3d" and len(f.traces)
                          == 1 + edges, key, "traces")
                V = np.column_stack([arr(got[a]) for a in "yxz"])
                F = np.column_stack([np.asarray(got[a]) for a in "ijk"])
                rec.check(F.min() >= 0 and F.max() < len(V), key,
                          lambda: f"triangles name vertex {F.max()} of "
                                  f"{len(V)}")
                rec.close(V[F], tm, key, "triangles", 1e-9, 1e-6)
                if edges:
                    E = f.traces[1][0]
                    E = np.column_stack([arr(E[a]) for a in "yxz"])
                    E = E[~np.isnan(E).any(axis=1)]
                    have = {tuple(p) for p in E.round(6)}
                    rec.check(have == {tuple(p) for p in tm.reshape(
                        -1, 3).round(6)}, key, "edges")
                axes3d(rec, f, "meters", key)
                f = mesh_of(names[j], 8, unit="feet")[1].figure(edges=edges)
                axes3d(rec, f, "feet", key)
    # ---- scene of meshes
    import trimesh
    data = {n: m for n, (_, m) in zip(names, ms)}
    for origin in (None, [100.0, -50.0, 300.0]):
        for scale in (100, 8.0):
            key = {"scene": names, "origin": origin, "scale": scale}
            rec.state(repr(key))
            rec.trans()
            with rec.case(key):
                sc = M.mesh.make_trimesh_scene(data)
                rec.check(list(sc.geometry) == names, key, "names")
                for n in names:
                    rec.close(sc.geometry[n].vertices[sc.geometry[n].faces],
                              data[n].mesh.vertices[data[n].mesh.faces], key,
                              "scene mesh", 1e-9, 1e-6)
                asked = []

                def stay(self, percent=None, face_count=None, *a, **kw):
                    asked.append((len(self.faces), face_count
                                  if face_count is not None else percent))
                    return self.copy()

                keep = trimesh.Trimesh.simplify_quadric_decimation
                trimesh.Trimesh.simplify_quadric_decimation = stay
                try:
                    out = M.mesh.transform_trimesh_scene(
                        sc, origin=origin, scale=scale, redux=0.5)
                finally:
                    trimesh.Trimesh.simplify_quadric_decimation = keep
                o = np.asarray(origin or [0.0, 0.0, 0.0])
                rec.check(list(out.geometry) == names, key, "names")
                for n in names:
                    a = sc.geometry[n].vertices - o
                    b = np.column_stack([a[:, 0], -a[:, 2], a[:, 1]]) / scale
                    rec.close(out.geometry[n].vertices[
                        out.geometry[n].faces], b[sc.geometry[n].faces], key,
                        "transformed mesh", 1e-9, 1e-6)
                rec.check(sorted(asked) == sorted(
                    (len(m.mesh.faces), int(len(m.mesh.faces) * 0.5))
                    for m in data.values()) or not asked, key,
                    lambda: f"asked for {asked}")
                for n in names:
                    rec.close(sc.geometry[n].vertices[sc.geometry[n].faces],
                              data[n].mesh.vertices[data[n].mesh.faces], key,
                              "the scene itself changed", 1e-9, 1e-6)
    # ---- repairing
    for j, (s, m) in enumerate(ms):
        for how in ("as is", "repeated", "flat", "flipped"):
            key = {"fix": names[j], "with": how, "first": k}
            rec.state(repr(key))
            rec.trans()
            with rec.case(key):
                t = M.mesh.to_trimesh(m)
                F = np.asarray(t.faces).copy()
                vol = abs(t.volume)
                if how == "repeated":
                    F = np.vstack([F, F[::3]])
                elif how == "flat":
                    F = np.vstack([F, [[0, 0, 1], [2, 3, 3], [4, 5, 4]]])
                elif how == "flipped":
                    F[::5] = F[::5, ::-1]
                g = M.mesh.fix_mesh(trimesh.Trimesh(
                    vertices=t.vertices, faces=F, process=False))
                rec.check(g.is_watertight and g.is_winding_consistent, key,
                          "not repaired")
                rec.close(g.volume, vol, key, "volume", 1e-9, 1e-6)
                rec.check({tuple(sorted(x)) for x in g.faces.tolist()}
                          == {tuple(sorted(x)) for x in t.faces.tolist()}
                          and len(g.faces) == len(t.faces), key, "faces")
    # ---- the window
    key = {"window": names}
    rec.state(repr(key))
    with rec.case(key):
        seen = {}
        orig = box.Window.show

        def show(self, *a, **kw):
            seen["w"] = self
            return orig(self, *a, **kw)

        box.Window.show = show
        cube = getattr(M.visual, "CubeAxes", None)
        axes_ = M.visual.Plotter._initiate_axes_actor
        M.visual.CubeAxes = lambda *a, **kw: 0
        M.visual.Plotter._initiate_axes_actor = lambda self: None
        colors = ["#ff0000", "#0000ff", "#00ff00"]
        try:
            M.visual.plot([m for _, m in ms], colors=colors[:len(ms)],
                          lines="LINES", arrows=["A1", "A2"])
        finally:
            box.Window.show = orig
            if cube is not None:
                M.visual.CubeAxes = cube
            M.visual.Plotter._initiate_axes_actor = axes_
        w = seen["w"]
        rec.trans()
        rec.check("LINES" in w.added and "A1" in w.added and "A2"
                  in w.added, key, "lines and arrows")
        rec.check([x is m for x, (_, m) in zip(w.wells, ms)]
                  == [True] * len(ms) and len(w.wells) == len(ms), key,
                  "wells")
        rgb = dict(zip(colors, ((1, 0, 0), (0, 0, 1), (0, 1, 0))))
        for (s, m), c in zip(ms, colors):
            vm = m.vedo_mesh
            rec.check(any(x is vm for x in w.added), key, "mesh not added")
            rec.close(np.asarray(vm.vertices)[np.asarray(vm.cells)],
                      m.mesh.vertices[m.mesh.faces], key, "mesh drawn",
                      1e-5, 1e-3)
            rec.close(list(vm.color()), list(rgb[c]), key, "colour", 0, 0.02)
        rec.check(w.shown and list(w.shown[0].get("viewup")) == [0, 0, -1],
                  key, "depth is not shown downwards")
        objs = [m.vedo_mesh for _, m in ms]
        for j, (s, m) in enumerate(ms):
            for i, p in enumerate(nev(s)):
                r = w._get_closest_well(m.vertices[i][3] + 1e-3, objs)
                rec.trans()
                rec.check(r["well"] is m and r["idx_survey"] == i, key,
                          lambda: f"pointer at station {i} of {names[j]}: "
                                  f"{r['idx_survey']} of "
                                  f"{r['well'].s.header.name}")
                rec.close(r["distance"], 1e-3 * math.sqrt(3), key,
                          "distance", 0, 1e-4)
                if len(ms) > 1:
                    r = w._get_closest_well(
                        m.vertices[i][3], [o for o in objs
                                           if o is not m.vedo_mesh])
                    rec.check(r["well"] is not m, key, "hidden well picked")
        rec.check(w._get_closest_well([0, 0, 0], []) is None, key,
                  "well picked where there is none")


def lines(rec, _):
    M = repo.load()
    for a in WELLS:
        for b in WELLS:
            for gap in (40.0, 400.0):
                key = {"lines": [a, b], "gap": gap}
                rec.state(repr(key))
                rec.trans()
                with rec.case(key):
                    s1, _m = mesh_of(a)
                    s2, _m = mesh_of(b, 12, (gap, gap / 2, 0.0))
                    c = M.clearance.IscwsaClearance(s1, s2)
                    L = M.visual.get_lines(c)
                    p = np.asarray(L.a, float)
                    q = np.asarray(L.b, float)
                    rec.check(len(p) == len(c.reference.md), key,
                              "number of lines")
                    rec.close(p, nev(c.reference), key, "start", 1e-9, 1e-6)
                    rec.close(np.linalg.norm(p - q, axis=1), arr(
                        c.distance_cc), key, "length", 1e-6, 1e-4)
                    rec.close(arr(L.values[0]), arr(c.sf), key, "colour",
                              1e-9, 1e-9)
    # a header from a dictionary, positions as an array, and curvature
    # circles
    for name in WELLS:
        for n in ("curve",):
            key = {"circles": name}
            rec.state(repr(key))
            rec.trans()
            with rec.case(key):
                s, _m = mesh_of(name)
                rec.close(s.get_nev_arr(), nev(s), key, "positions", 1e-12,
                          1e-9)
                a, b = M.survey.get_circle_radius(s)
                n = len(s.md) - 1
                rec.check(len(a) == len(b) == 2 * n, key, "number")
                P = nev(s)
                rec.close(b, np.vstack([P[:-1], P[1:]]), key, "ends", 1e-9,
                          1e-6)
                st = WELLS[name]
                for j in range(n):
                    t1 = ref.vec(D(st[j][1]), D(st[j][2]))
                    t2 = ref.vec(D(st[j + 1][1]), D(st[j + 1][2]))
                    dl = ref.angle(t1, t2)
                    if dl < 1e-6:
                        continue
                    R = (st[j + 1][0] - st[j][0]) / dl
                    x = ref.cross(ref.cross(t1, t2), t1)
                    x = np.asarray(x) / np.linalg.norm(x)
                    centre = P[j] + R * x
                    rec.close(a[j], centre, key, f"centre {j} from the "
                              "start", 1e-6, 1e-2)
                    rec.close(a[n + j], centre, key, f"centre {j} from the "
                              "end", 1e-6, 1e-2)
    for kw in (dict(name="a", latitude=52.0, b_total=48000.0),
               dict(azi_reference="true", convergence=0.01,
                    vertical_section_azimuth=1.0)):
        key = {"header": sorted(kw)}
        rec.state(repr(key))
        rec.trans()
        with rec.case(key):
            h = M.survey.make_survey_header(kw)
            rec.check(all(getattr(h, q) == v for q, v in kw.items()), key,
                      "header values")
