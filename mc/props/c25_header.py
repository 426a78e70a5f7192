"""C25: header values given by the user survive whatever the field service
answers."""
import math
from datetime import datetime

import numpy as np

from .. import repo
from ..common import product, D

ID = "C25"
EXPLANATION = (
    "The magnetic-field web service is replaced by a stand-in whose answers "
    "the explorer chooses.  For every subset of supplied header values, "
    "angle unit and azimuth reference, every sequence of service answers "
    "(an answer or one of several errors, at the first, second and later "
    "attempts) is played; every field of the resulting header, and of the "
    "headers built before and after it, is compared with the value the "
    "user, the service or the documented defaults dictate.")
ASSUMPTIONS = [
    "the service's inclination is positive downwards and headers store the "
    "dip with the opposite sign (library convention); user dips are kept as "
    "given",
    "defaults are 50000 nT, 70 degrees (service convention) and 0 degrees"]

A = {"field-value": {"total-intensity": {"value": 48123.0, "units": "nT"},
                     "inclination": {"value": 66.25, "units": "deg (down)"},
                     "declination": {"value": -3.5, "units": "deg (east)"}}}
B = {"field-value": {"total-intensity": {"value": 61000.0, "units": "nT"},
                     "inclination": {"value": -41.0, "units": "deg (down)"},
                     "declination": {"value": 12.75, "units": "deg (east)"}}}
DEF = (50000.0, 70.0, 0.0)
ERR = [ConnectionError("down"), ValueError("no model"), KeyError("reply"),
       TimeoutError("slow"), AssertionError("range"), RuntimeError("http")]
PLANS = [("A",), ("B",), ("A", "B"), ("e", "A"), ("e", "B"), ("e", "e"),
         ("e", "e", "A")]
GIVEN = {"b_total": [None, 51234.5, 0.0],
         "dip": [None, -67.0, 0.0, 72.5],
         "declination": [None, 4.25, 0.0, -11.0],
         "survey_date": [None, "1999-12-31", "2020-02-29"]}


def BOUNDS(tier):
    return {"supplied values": GIVEN, "service answers":
            f"{len(PLANS)} answer sequences; errors from {len(ERR)} kinds",
            "units": "degrees and radians", "references": 3,
            "location": "5 locations incl. equator, poles and defaults",
            "histories": "pairs of headers with different plans"
            + (" and triples" if tier != "quick" else "")}


def units(tier):
    out = [["one", i, j, tier] for i in range(len(GIVEN["dip"]))
           for j in range(len(GIVEN["declination"]))]
    out += [["history", k, tier] for k in range(len(PLANS))]
    out += [["location", 0, tier], ["bad", 0, tier], ["map", 0, tier],
            ["offline", 0, tier]]
    return out


def answers(plan, k):
    return [{"A": A, "B": B, "e": ERR[(k + q) % len(ERR)]}[p]
            for q, p in enumerate(plan)]


def effective(plan):
    """What the service tells within the two attempts."""
    for p in plan[:2]:
        if p != "e":
            v = {"A": A, "B": B}[p]["field-value"]
            return (v["total-intensity"]["value"], v["inclination"]["value"],
                    v["declination"]["value"])
    return DEF


def today(t0):
    return {t0, datetime.today().strftime("%Y-%m-%d")}


def verify(rec, key, h, given, deg, serv, t0, conv=1.5, vsa=33.0):
    b, dip, dec, date = given
    to = D if deg else (lambda x: x)
    want_b = serv[0] if b is None else b
    want_dip = D(-serv[1]) if dip is None else to(dip)
    want_dec = D(serv[2]) if dec is None else to(dec)
    rec.check(type(h.b_total) is not bool and h.b_total == want_b, key,
              lambda: f"b_total {h.b_total}, expected {want_b}")
    rec.close(h.dip, want_dip, key, "dip (radians)", 1e-12, 1e-14)
    rec.close(h.declination, want_dec, key, "declination (radians)", 1e-12,
              1e-14)
    rec.close(h.convergence, D(conv), key, "convergence (radians)", 1e-12,
              1e-14)
    rec.close(h.vertical_section_azimuth, D(vsa), key,
              "vertical_section_azimuth (radians)", 1e-12, 1e-14)
    if date is None:
        ok = h.survey_date in today(t0)
    else:
        ok = h.survey_date == date
    rec.check(ok, key, lambda: f"survey_date {h.survey_date!r}, "
              f"given {date!r}")


def build(S, given, deg, az, plan, k, **kw):
    b, dip, dec, date = given
    F = repo.FieldLookup
    F.plan = answers(plan, k)
    F.calls = []
    args = dict(name="w", b_total=b, dip=dip, declination=dec,
                survey_date=date, deg=deg, azi_reference=az,
                convergence=1.5 if deg else D(1.5),
                vertical_section_azimuth=33.0 if deg else D(33.0))
    args.update(kw)
    if not deg:
        args["vertical_inc_limit"] = D(1e-4)
    h = S.SurveyHeader(**args)
    F.plan = []
    return h


def run(unit, rec):
    S = repo.load().survey
    F = repo.FieldLookup
    old_m = S.MAG_CALC
    try:
        {"one": one, "history": history, "location": location, "bad": bad,
         "map": maps, "offline": offline}[unit[0]](S, F, rec, unit)
    finally:
        S.MAG_CALC = old_m
        F.plan, F.calls = [], []


def scaled(given, deg):
    b, dip, dec, date = given
    if not deg:
        dip = None if dip is None else D(dip)
        dec = None if dec is None else D(dec)
    return (b, dip, dec, date)


def one(S, F, rec, unit):
    _, i, j, tier = unit
    t0 = datetime.today().strftime("%Y-%m-%d")
    dip, dec = GIVEN["dip"][i], GIVEN["declination"][j]
    for b, date in product(GIVEN["b_total"], GIVEN["survey_date"]):
        for deg, az in product((True, False), ("grid", "true", "magnetic")):
            given = scaled((b, dip, dec, date), deg)
            for plan in PLANS:
                kinds = (range(len(ERR)) if "e" in plan and tier != "quick"
                         else (0, 1, 2) if "e" in plan else (0,))
                for k in kinds:
                    key = {"given": given, "deg": deg, "azi": az,
                           "answers": plan, "error": k}
                    rec.state(repr(key))
                    rec.trans(min(2, len(plan)))
                    with rec.case(key):
                        h = build(S, given, deg, az, plan, k)
                        verify(rec, key, h, given, deg, effective(plan), t0)
                        rec.check(h.azi_reference == az, key,
                                  "azi_reference changed")
                        asked(rec, key, F, h, given, t0)
                        if az == "magnetic" and k == 0:
                            inuse(S, rec, key, h)
                        rec.trace()
                        rec.outcome("answered" if effective(plan) != DEF
                                    else "defaults")
    rec.sample({"dip": dip, "declination": dec})


def asked(rec, key, F, h, given, t0):
    """The first request is for the header's own place and date."""
    if not F.calls:
        rec.check(None not in given[:3], key, "no lookup although a value "
                  "was missing")
        return
    c = F.calls[0]
    rec.close([c["latitude"], c["longitude"], c["altitude"]],
              [h.latitude, h.longitude, h.altitude], key,
              "place asked for", 0, 0)
    d = c.get("date")
    rec.check(d == given[3] if given[3] else d is None or d in today(t0),
              key, lambda: f"asked for date {d!r}, given {given[3]!r}")


def inuse(S, rec, key, h):
    """A survey uses these values and leaves them alone."""
    before = dict(vars(h))
    s = S.Survey(md=[0., 30., 90.], inc=[0., 10., 40.],
                 azi=[10., 20., 350.], header=h)
    rec.check(dict(vars(h)) == before, key, "survey changed its header")
    az = np.radians([10., 20., 350.])
    for got, want in ((s.azi_true_rad, az + h.declination),
                      (s.azi_grid_rad, az + h.declination - h.convergence)):
        d = np.asarray(got) - want
        rec.check(bool(np.all(np.abs(np.arctan2(np.sin(d), np.cos(d)))
                              < 1e-9)), key,
                  lambda: f"azimuths {got}, expected {want}")


def history(S, F, rec, unit):
    """Headers do not influence each other."""
    _, k, tier = unit
    t0 = datetime.today().strftime("%Y-%m-%d")
    givens = [(None, None, None, None), (51234.5, None, None, "1999-12-31"),
              (None, -67.0, None, None), (None, None, 4.25, "2020-02-29"),
              (51234.5, -67.0, 4.25, "1999-12-31")]
    depth = 2 if tier == "quick" else 3
    for gs in product(range(len(givens)), repeat=depth):
        for ps in product(range(len(PLANS)), repeat=depth - 1):
            plans = [PLANS[k], *[PLANS[p] for p in ps]]
            deg = [bool((a + b) % 2) for a, b in enumerate(gs)]
            key = {"headers": gs, "answers": plans, "deg": deg}
            rec.state(repr(key))
            rec.trans(depth)
            with rec.case(key):
                hs = [build(S, scaled(givens[g], d), d, "true", p, 1)
                      for g, d, p in zip(gs, deg, plans)]
                for h, g, d, p in zip(hs, gs, deg, plans):
                    verify(rec, key, h, scaled(givens[g], d), d,
                           effective(p), t0)
                rec.trace()
                rec.outcome("history")


PLACES = [(None, None, None), (0.0, 0.0, 0.0), (90.0, 180.0, -25.0),
          (-90.0, -180.0, 1200.0), (52.5, 0.0, None), (0.0, -3.25, 10.0)]


def location(S, F, rec, unit):
    t0 = datetime.today().strftime("%Y-%m-%d")
    for (lat, lon, alt), plan, deg in product(PLACES, PLANS, (True, False)):
        key = {"place": [lat, lon, alt], "answers": plan, "deg": deg}
        rec.state(repr(key))
        rec.trans(min(2, len(plan)))
        with rec.case(key):
            g = (None, None, None, "2020-02-29")
            h = build(S, g, deg, "grid", plan, 0, latitude=lat,
                      longitude=lon, altitude=alt)
            verify(rec, key, h, g, deg, effective(plan), t0)
            rec.close([h.latitude, h.longitude, h.altitude],
                      [51.4934 if lat is None else lat,
                       0.0098 if lon is None else lon,
                       0.0 if alt is None else alt], key, "location", 0, 0)
            asked(rec, key, F, h, g, t0)
            # every attempt is for the same place
            for c in F.calls:
                rec.close([c["latitude"], c["longitude"], c["altitude"]],
                          [h.latitude, h.longitude, h.altitude], key,
                          "place asked for", 0, 0)
            rec.trace()
            rec.outcome("place")
    # own defaults
    own = {"b_total": 43210.0, "dip": 55.0, "declination": 7.5}
    for plan, deg in product(PLANS, (True, False)):
        key = {"own defaults": own, "answers": plan, "deg": deg}
        with rec.case(key):
            d = dict(own)
            g = (None, None, None, None)
            h = build(S, g, deg, "grid", plan, 0, mag_defaults=d)
            e = effective(plan)
            verify(rec, key, h, g, deg,
                   (43210.0, 55.0, 7.5) if e is DEF else e, t0)
            rec.check(d == own, key, "the caller's defaults were changed")
            rec.trace()


def bad(S, F, rec, unit):
    """Values that cannot be right are refused."""
    for kw, exc in [
            (dict(survey_date="31-12-1999"), ValueError),
            (dict(survey_date="1999-13-01"), ValueError),
            (dict(survey_date="2021-02-29"), ValueError),
            (dict(latitude=90.01), AssertionError),
            (dict(latitude=-90.01), AssertionError),
            (dict(longitude=180.01), AssertionError),
            (dict(longitude=-180.01), AssertionError),
            (dict(azi_reference="compass"), AssertionError)]:
        for plan in PLANS:
            key = {"bad": kw, "answers": plan}
            rec.state(repr(key))
            rec.trans()
            F.plan = answers(plan, 0)
            try:
                S.SurveyHeader(**kw)
                rec.fail(key, "accepted")
            except (ValueError, AssertionError):
                rec.outcome("refused")
            except Exception as e:                   # noqa: BLE001
                rec.fail(key, f"raised {type(e).__name__}: {e}")
            F.plan = []
            rec.ev()
            rec.trace()


def offline(S, F, rec, unit):
    """Without the calculator installed."""
    t0 = datetime.today().strftime("%Y-%m-%d")
    S.MAG_CALC = False
    for b, dip, dec, date, deg in product(
            GIVEN["b_total"], GIVEN["dip"], GIVEN["declination"],
            GIVEN["survey_date"], (True, False)):
        g = scaled((b, dip, dec, date), deg)
        key = {"given": g, "deg": deg, "calculator": False}
        rec.state(repr(key))
        rec.trans()
        with rec.case(key):
            h = build(S, g, deg, "true", ("A",), 0)
            verify(rec, key, h, g, deg, DEF, t0)
            rec.check(not F.calls, key, "looked up without a calculator")
            rec.trace()
            rec.outcome("no calculator")


def maps(S, F, rec, unit):
    """Map coordinates: geometry never depends on the service."""
    P = S.SurveyParameters("EPSG:23031")
    t0 = datetime.today().strftime("%Y-%m-%d")
    for x, y in [(588319.02, 5770571.03), (500000.0, 6000000.0),
                 (420000.0, 5500000.0), (500000.0, 10.0)]:
        base = None
        for plan, date, alt in product(PLANS, (None, "2021-05-06"),
                                       (None, 0.0, 30.0)):
            key = {"map": [x, y], "answers": plan, "date": date, "alt": alt}
            rec.state(repr(key))
            rec.trans()
            F.plan, F.calls = answers(plan, 0), []
            with rec.case(key):
                r = P.get_factors_from_x_y(x=x, y=y, altitude=alt, date=date)
                F.plan = []
                geo = {q: r[q] for q in ("x", "y", "northing", "easting",
                                         "latitude", "longitude",
                                         "convergence", "scale_factor")}
                if base is None:
                    base = geo
                    # x, y -> latitude/longitude -> x, y
                    bx, by = P(r["longitude"], r["latitude"])
                    rec.close([bx, by], [x, y], key, "map round trip", 0,
                              1e-4)
                    rec.close([r["easting"], r["northing"]], [x, y], key,
                              "easting/northing", 0, 0)
                rec.check(geo == base, key, lambda: f"{geo} vs {base}")
                rec.check(r["date"] == date if date else
                          r["date"] in today(t0), key,
                          lambda: f"date {r['date']!r}")
                e = effective(plan[:1]) if plan[0] != "e" else (None,) * 3
                rec.check(r["magnetic_field_intensity"] == e[0]
                          and r["declination"] == e[2]
                          and r["dip"] == (None if e[1] is None else -e[1]),
                          key, lambda: f"{r}")
                rec.check(len(F.calls) <= 1 or plan[0] == "e", key,
                          "asked again after an answer")
                c = F.calls[0]
                rec.close([c["latitude"], c["longitude"], c["altitude"]],
                          [r["latitude"], r["longitude"], alt or 0.0], key,
                          "place asked for", 0, 0)
                rec.trace()
                rec.outcome("map")
