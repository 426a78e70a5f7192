"""C18: planning-database queries return what is in the file."""
import importlib
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

import numpy as np

from .. import repo
from ..common import product

ID = "C18"
EXPLANATION = (
    "Every forest of parent relations over the labelled wellbores (so every "
    "order of the records in the file), with every listed layout of surveys, "
    "cases and names, is written as an export file; every query is asked for "
    "every record and compared with a lookup in the list of records the file "
    "was written from.  Then every sequence of queries up to the depth, over "
    "two files open at the same time, is run on fresh objects; each answer "
    "is compared in the same way and the file's tree is fingerprinted.  "
    "State = (files, queries asked so far), transition = one query.")
ASSUMPTIONS = [
    "record identifiers are unique, parent and tie-on links have no cycles",
    "lookups by name are decided for unique names",
    "a survey lists the stations of each survey of its chain between its "
    "tie-on depth (the top, when it is not tied on) and the depth from which "
    "the next survey below is used, both ends included",
]

LAYOUTS = ("full", "no surveys", "no fluids", "same names", "one well",
           "two headers", "late tie")
DEPTH = {"quick": 2, "thorough": 3}


def BOUNDS(tier):
    return {"wellbores": "1-4, all 145 forests of labelled wellbores",
            "layouts": LAYOUTS, "query sequences":
            f"all up to {DEPTH[tier]} queries over two open files"}


def forests(n):
    for p in product(range(n + 1), repeat=n):      # n = no parent
        ok = True
        for i in range(n):
            seen, j = set(), i
            while j != n and ok:
                if j in seen:
                    ok = False
                seen.add(j)
                j = p[j]
        if ok:
            yield p


def units(tier):
    u = [["forest", n, lay] for n in (1, 2, 3) for lay in LAYOUTS]
    u += [["forest", 4, lay] for lay in LAYOUTS]
    u += [["select"]] + [["multi"]]
    pairs = [((1,), (1,)), ((2, 0), (2, 0))] if tier == "quick" else \
        [((2, 0), (1, 2)), ((3, 0, 1), (1, 2, 3))]
    for k, pr in enumerate(pairs):
        for q in range(len(queries(spec(pr[0], "full", "A")))):
            u.append(["seq", k, q, [list(x) for x in pr]])
    return u


# ------------------------------------------------------------------ the file
def wid(t, i):
    return f"{t}wb{i}"


def spec(p, layout, t="A"):
    """List of (tag, attributes) of an export file."""
    n = len(p)
    p = [None if x == n or x is None else x for x in p]

    def root(i):
        while p[i] is not None:
            i = p[i]
        return i

    one = layout == "one well"
    well = [f"{t}w0" if one else f"{t}w{root(i)}" for i in range(n)]
    R = [("CD_SITE", dict(site_id=t + "s", site_name=t + " site"))]
    for w in sorted(set(well)):
        R.append(("CD_WELL_ALL", dict(well_id=w, well_common_name="W " + w)))
        R.append(("CD_WELL", dict(well_id=w, well_common_name="W " + w)))
        R.append(("CD_DATUM", dict(well_id=w, datum_id="d" + w,
                                   datum_elevation="30.0")))
    for i in range(n):
        a = dict(wellbore_id=wid(t, i), well_id=well[i],
                 wellbore_name="main" if layout == "same names"
                 else f"{t}-{i}")
        if p[i] is not None:
            a["parent_wellbore_id"] = wid(t, p[i])
        R.append(("CD_WELLBORE", a))
    for i in range(n):
        if layout == "no surveys":
            continue
        for h in range(2 if layout == "two headers" else 1):
            hid = f"{t}h{i}.{h}"
            a = dict(survey_header_id=hid, wellbore_id=wid(t, i),
                     well_id=well[i], md_max=str(900.0 - 150 * (i % 2)
                                                 + 10 * h))
            if p[i] is not None:
                a["tie_survey_header_id"] = f"{t}h{p[i]}.0"
                a["tie_on_depth"] = "800" if layout == "late tie" and i % 2 \
                    else str(300.0 + 100 * (i % 3))
            elif layout == "full":
                a["tie_on_depth"] = "0"
            R.append(("CD_SURVEY_HEADER", a))
            # stations are not in depth order in the file
            for k, md in enumerate((900, 0, 400, 100, 300.0, 500, 600, 750,
                                    1000)):
                R.append(("CD_SURVEY_STATION", dict(
                    survey_header_id=hid, wellbore_id=wid(t, i),
                    well_id=well[i], md=str(md),
                    survey_station_id=f"{hid}.{k}")))
    for i in range(n):
        w = dict(wellbore_id=wid(t, i), well_id=well[i])
        for c in range(1 + i % 2):
            R.append(("CD_SCENARIO", dict(w, scenario_id=f"{t}sc{i}.{c}",
                                          name=f"plan {c}")))
            a = dict(w, case_id=f"{t}c{i}.{c}", case_name=f"case {t}{i}{c}",
                     scenario_id=f"{t}sc{i}.{c}", datum_id="d" + well[i],
                     hole_sect_group_id=f"{t}g{i}.{c}",
                     assembly_id=f"{t}as{i}.{c}")
            if layout != "no fluids" or c:
                a["fluid_id"] = f"{t}f{i}.{c}"
            R.append(("CD_CASE", a))
            if layout != "no fluids":
                R.append(("CD_FLUID", dict(w, fluid_id=f"{t}f{i}.{c}",
                                           density=str(9 + i + c))))
            R.append(("CD_HOLE_SECT_GROUP", dict(
                w, hole_sect_group_id=f"{t}g{i}.{c}", name="g")))
            R.append(("CD_HOLE_SECT", dict(
                w, hole_sect_group_id=f"{t}g{i}.{c}", md_hole_sect_top="0",
                hole_sect_id=f"{t}hs{i}.{c}")))
            R.append(("CD_ASSEMBLY", dict(w, assembly_id=f"{t}as{i}.{c}")))
            for k in range(2):
                R.append(("CD_ASSEMBLY_COMP", dict(
                    w, assembly_id=f"{t}as{i}.{c}",
                    assembly_comp_id=f"{t}ac{i}.{c}.{k}")))
        if layout == "no fluids":
            continue
        for tag, val in (("PORE_PRESSURE", "pore_pressure"),
                         ("FRAC_GRADIENT", "frac_gradient_pressure"),
                         ("TEMP_GRADIENT", "temperature")):
            for g in range(1 + i % 2):
                for k, tvd in enumerate((1200, 90, 500.5)):
                    R.append((f"CD_{tag}", {
                        **w, f"{tag.lower()}_group_id": f"{t}{tag}{i}.{g}",
                        "tvd": str(tvd + g), val: str(10 + i + k)}))
    return R


def write(R, path):
    with open(path, "w") as f:
        f.write('<?xml version="1.0"?>\n<export>\n')
        for tag, a in R:
            f.write("<%s %s/>\n" % (tag, " ".join(
                f"{k}={quoteattr(v)}" for k, v in a.items())))
        f.write("</export>\n")


# ----------------------------------------------------------------- reference
def lookup(R, tags=None, **kw):
    out = {}
    for t, a in R:
        if tags is not None and t not in tags:
            continue
        if all(a.get(k) in (v if isinstance(v, list) else [v])
               for k, v in kw.items()):
            out.setdefault(t, []).append(a)
    return out


def ancestors(R, w):
    up = {a["wellbore_id"]: a.get("parent_wellbore_id") for t, a in R
          if t == "CD_WELLBORE"}
    out = []
    while up.get(w) is not None:
        w = up[w]
        out.append(w)
    return out


def well_data(R, w):
    out = lookup(R, wellbore_id=w)
    well = out["CD_WELLBORE"][0]["well_id"]
    for k, v in lookup(R, ["CD_WELL", "CD_DATUM"], well_id=well).items():
        out.setdefault(k, []).extend(v)
    for k, v in lookup(R, ["CD_SURVEY_HEADER", "CD_SURVEY_STATION"],
                       wellbore_id=ancestors(R, w)).items():
        out.setdefault(k, []).extend(v)
    return out


def rows(R, tag, **kw):
    v = lookup(R, [tag], **kw).get(tag)
    return v


def chain(R, h):
    heads = {a["survey_header_id"]: a for t, a in R if t ==
             "CD_SURVEY_HEADER"}
    bottom = float(heads[h]["md_max"])
    out = []
    while h in heads:
        tied = "tie_survey_header_id" in heads[h]
        top = float(heads[h]["tie_on_depth"]) if tied else 0.0
        if top < bottom:
            out += [a for t, a in R if t == "CD_SURVEY_STATION"
                    and a["survey_header_id"] == h
                    and top <= float(a["md"]) <= bottom]
            bottom = top
        h = heads[h].get("tie_survey_header_id")
    return sorted(((float(a["md"]), a["survey_station_id"]) for a in out))


def the_case(R, c):
    k = rows(R, "CD_CASE", case_id=c)[0]
    w = k["wellbore_id"]
    own = [(t, a) for t, v in well_data(R, w).items() for a in v]
    out = dict(k)
    out["wellbore"] = rows(own, "CD_WELLBORE", wellbore_id=w)
    if "fluid_id" in k:
        out["fluid"] = rows(own, "CD_FLUID", fluid_id=k["fluid_id"])
    out["scenario"] = rows(own, "CD_SCENARIO", scenario_id=k["scenario_id"])
    out["well"] = rows(own, "CD_WELL", well_id=k["well_id"])
    out["datum"] = rows(own, "CD_DATUM", datum_id=k["datum_id"])
    g = k["hole_sect_group_id"]
    out["hole_sect_group"] = rows(own, "CD_HOLE_SECT_GROUP",
                                  hole_sect_group_id=g)
    out["hole_sect"] = rows(own, "CD_HOLE_SECT", hole_sect_group_id=g)
    out["assembly"] = rows(own, "CD_ASSEMBLY_COMP",
                           assembly_id=k["assembly_id"])
    h = rows(own, "CD_SURVEY_HEADER", wellbore_id=w)
    out["survey_header"] = h
    out["survey"] = {a["survey_header_id"]: chain(
        own, a["survey_header_id"]) for a in h or []}
    for tag in ("CD_PORE_PRESSURE", "CD_FRAC_GRADIENT", "CD_TEMP_GRADIENT"):
        v = rows(own, tag)
        if v:
            g = {}
            for a in sorted(v, key=lambda a: float(a["tvd"])):
                g.setdefault(a[tag.lower()[3:] + "_group_id"], []).append(a)
            out[tag.lower()[3:]] = g
    return out


# ------------------------------------------------------------------- queries
def queries(R):
    """[(name, argument)] to ask of a file."""
    wb = [a for t, a in R if t == "CD_WELLBORE"]
    ids = [a["wellbore_id"] for a in wb]
    q = [("tags", None), ("wells", None), ("sites", None), ("graph", None),
         ("all", None)]
    q += [("parents", i) for i in ids] + [("data", i) for i in ids]
    q += [("holes", i) for i in ids] + [("pressures", i) for i in ids]
    names = [a["wellbore_name"] for a in wb]
    if len(set(names)) == len(names):
        q += [("by name", a) for a in names] + [("wellbores", None)]
    q += [("children", i) for i in ids]
    cases = [a for t, a in R if t == "CD_CASE"]
    q += [("case", a["case_id"]) for a in cases]
    q += [("case name", a["case_id"]) for a in cases]
    return q


def norm(v):
    """Plain copies, so that later changes cannot hide."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


def ask(edm, R, q):
    """(answer, expected)."""
    name, arg = q
    if name == "tags":
        return edm.get_tags(), sorted({t for t, _ in R})
    if name == "wells":
        return edm.get_wells(), {a["well_common_name"]: a
                                 for a in rows(R, "CD_WELL_ALL")}
    if name == "sites":
        return edm.get_sites(), {a["site_name"]: a
                                 for a in rows(R, "CD_SITE")}
    if name == "wellbores":
        return edm.get_wellbore_ids(), {a["wellbore_name"]: a for a in rows(
            R, "CD_WELLBORE")}
    if name == "graph":
        g = edm.get_wellbore_graph()
        wb = rows(R, "CD_WELLBORE")
        return ([sorted(g.nodes), sorted(sorted(e) for e in g.edges)],
                [sorted(a["wellbore_id"] for a in wb),
                 sorted(sorted((a["wellbore_id"], a["parent_wellbore_id"]))
                        for a in wb if "parent_wellbore_id" in a)])
    if name == "all":
        return edm.get_attributes(), lookup(R)
    if name == "children":
        return (edm.get_attributes("CD_WELLBORE", dict(
            parent_wellbore_id=arg)), lookup(R, ["CD_WELLBORE"],
                                             parent_wellbore_id=arg))
    if name == "parents":
        return edm.get_parents(arg), ancestors(R, arg)
    if name == "data":
        return edm.get_wellbore_data(arg), well_data(R, arg)
    if name == "case name":
        return edm.get_case_name_from_id(arg), rows(
            R, "CD_CASE", case_id=arg)[0]["case_name"]
    if name == "by name":
        w = edm.get_wellbore(arg, name=True)
        a = rows(R, "CD_WELLBORE", wellbore_name=arg)[0]
        return ([w.wellbore_id, w.wellbore_name, w.well_data],
                [a["wellbore_id"], arg, well_data(R, a["wellbore_id"])])
    if name == "holes":
        w = edm.get_wellbore(arg)
        own = well_data(R, arg)
        g = sorted({a["hole_sect_group_id"] for v in own.values() for a in v
                    if "hole_sect_group_id" in a})
        return ([sorted(w.get_hole_sections()), w.get_hole_section_data(),
                 w.get_hole_section_data(g[:1])],
                [g] + [{k: {t: a for t, v in own.items() for a in v
                            if a.get("hole_sect_group_id") == k}
                        for k in x} for x in (g, g[:1])])
    if name == "pressures":
        w = edm.get_wellbore(arg)
        own = well_data(R, arg)
        out = {}
        for label, tag, val in (
                ("pore_pressure", "PORE_PRESSURE", "pore_pressure"),
                ("fracture_pressure", "FRAC_GRADIENT",
                 "frac_gradient_pressure"),
                ("temperature", "TEMP_GRADIENT", "temperature")):
            v = own.get("CD_" + tag)
            g = None
            if v:
                g = {}
                for a in sorted(v, key=lambda a: float(a["tvd"])):
                    g.setdefault(a[tag.lower() + "_group_id"], []).append(
                        [float(a["tvd"]), float(a[val])])
            out[label] = g
        return w.get_ppfpt_data(), out
    if name == "case":
        k = rows(R, "CD_CASE", case_id=arg)[0]
        w = edm.get_wellbore(k["wellbore_id"])
        c = w.make_case(arg)
        want = the_case(R, arg)
        got = {}
        for a in want:
            v = getattr(c, a, "missing")
            if a == "survey":
                v = {h: sorted((float(x["md"]), x["survey_station_id"])
                               for x in y) for h, y in v.items()}
                for h, y in c.survey.items():
                    m = [float(x["md"]) for x in y]
                    if m != sorted(m):
                        v[h] = "not in order of depth"
            got[a] = v
        if w._get_cases() != {a["case_id"]: a["case_name"] for a in rows(
                R, "CD_CASE", wellbore_id=k["wellbore_id"])}:
            got["cases"] = w._get_cases()
        return got, want
    raise AssertionError(name)


def compare(rec, edm, R, q, key):
    with rec.case(key):
        got, want = ask(edm, R, q)
        got, want = norm(got), norm(want)
        rec.check(got == want, key, lambda: diff(got, want))
        rec.outcome(q[0])


def diff(g, w, where="answer"):
    if isinstance(g, dict) and isinstance(w, dict):
        for k in sorted(set(g) | set(w), key=str):
            if g.get(k) != w.get(k):
                return diff(g.get(k), w.get(k), f"{where}[{k}]")
    if isinstance(g, list) and isinstance(w, list):
        if len(g) != len(w):
            return f"{where}: {len(g)} entries {g}, expected {len(w)}: {w}"
        for k, (a, b) in enumerate(zip(g, w)):
            if a != b:
                return diff(a, b, f"{where}[{k}]")
    return f"{where}: {g}, expected {w}"


def edm_module():
    repo.load()
    return importlib.import_module("welleng.exchange.edm")


def run(unit, rec):
    d = tempfile.mkdtemp(prefix="c18-")
    try:
        {"forest": forest, "seq": seq, "select": select,
         "multi": multi}[unit[0]](unit, rec, d)
    finally:
        shutil.rmtree(d)


def tree(edm):
    return ET.tostring(edm.root)


def forest(unit, rec, d):
    E = edm_module()
    _, n, layout = unit
    path = os.path.join(d, "a.xml")
    for p in forests(n):
        R = spec(p, layout)
        key = {"parents": p, "layout": layout}
        write(R, path)
        with rec.case(key):
            edm = E.EDM(path)
            before = tree(edm)
            for q in queries(R):
                rec.state(repr((p, layout, q)))
                rec.trans()
                compare(rec, edm, R, q, dict(key, query=q))
            rec.check(tree(edm) == before, key, "the queries changed the "
                                                "records")
            rec.trace()
    rec.sample({"wellbores": n, "layout": layout})


def select(unit, rec, d):
    """get_attributes over all combinations of tags, attributes and logic."""
    E = edm_module()
    path = os.path.join(d, "a.xml")
    R = spec((2, 0), "full")
    write(R, path)
    edm = E.EDM(path)
    tags = (None, "CD_WELLBORE", ["CD_WELLBORE"],
            ["CD_CASE", "CD_SURVEY_STATION", "CD_WELL"], "CD_NONE")
    vals = {"wellbore_id": ("Awb0", ["Awb0", "Awb1"], "x", []),
            "well_id": ("Aw0", ["Aw1", "Aw0"], "Aw9"),
            "case_id": ("Ac0.0", ["Ac1.0", "Ac1.1"]),
            "md": ("400", ["0", "100"])}
    combos = [{}]
    for k in range(1, 4):
        for ks in product(vals, repeat=k):
            if len(set(ks)) == k:
                combos += [dict(zip(ks, v)) for v in product(
                    *(vals[x] for x in ks))]
    for t, a, lg in product(tags, combos, ("AND", "OR")):
        key = {"tags": t, "attributes": a, "logic": lg}
        rec.state(repr(key))
        rec.trans()
        with rec.case(key):
            got = edm.get_attributes(t, a, lg) if a else \
                edm.get_attributes(t, logic=lg)
            want = {}
            for g, x in R:
                if t is not None and g not in (t if isinstance(t, list)
                                               else [t]):
                    continue
                b = [k in x and x[k] in (v if isinstance(v, list) else [v])
                     for k, v in a.items()]
                if not b or (all(b) if lg == "AND" else any(b)):
                    want.setdefault(g, []).append(x)
            got = norm(got)
            rec.check(got == want, key, lambda: diff(got, want))
            rec.outcome(f"select {lg}")
            rec.trace()


def multi(unit, rec, d):
    """A hole section group of several sections."""
    E = edm_module()
    path = os.path.join(d, "a.xml")
    for k in (2, 3):
        R = [x for x in spec((1,), "full") if x[0] != "CD_HOLE_SECT"]
        own = [dict(wellbore_id="Awb0", well_id="Aw0",
                    hole_sect_group_id="Ag0.0", hole_sect_id=f"h{j}")
               for j in range(k)]
        R += [("CD_HOLE_SECT", a) for a in own]
        write(R, path)
        key = {"hole sections in a group": k}
        rec.state(repr(key))
        rec.trans()
        with rec.case(key):
            w = E.EDM(path).get_wellbore("Awb0")
            got = w.get_hole_section_data()["Ag0.0"]["CD_HOLE_SECT"]
            rec.check(norm(got) == own, key,
                      f"{got}, expected {k} sections")
            c = w.make_case("Ac0.0")
            rec.check(norm(c.hole_sect) == own, dict(key, query="case"),
                      f"{c.hole_sect}")
            rec.outcome("sections in a group")
            rec.trace()


def seq(unit, rec, d):
    """All query sequences starting with one query."""
    E = edm_module()
    _, k, first, pr = unit
    paths, specs = [], []
    for p, lay in zip(pr, ("full", "two headers")):
        R = spec(tuple(p), lay)
        paths.append(os.path.join(d, f"{len(paths)}.xml"))
        write(R, paths[-1])
        specs.append(R)
    menu = [(f, q) for f in (0, 1) for q in queries(specs[f])]
    start = [(0, q) for q in queries(spec(tuple(pr[0]), "full"))][first]
    depth = 3 if k == 0 else 2
    tail = product(menu, repeat=depth - 1)
    for rest in tail:
        hist = (start, *rest)
        key = {"files": pr, "history": hist}
        with rec.case(key):
            e = [E.EDM(p) for p in paths]
            before = [tree(x) for x in e]
            for n, (f, q) in enumerate(hist):
                rec.state(repr((k, hist[:n + 1])))
                rec.trans()
                compare(rec, e[f], specs[f], q, dict(key, at=n))
            rec.check([tree(x) for x in e] == before, key,
                      "the queries changed the records")
            rec.trace()
