"""C29: map coordinates and grid factors are those of the projection."""
import math

import numpy as np

from .. import ref, repo
from ..common import header, survey

ID = "C29"
EXPLANATION = (
    "Product exploration: every projection x every place of a grid over its "
    "area (both sides of the central meridian, both hemispheres).  The "
    "latitude and longitude come back, the convergence and scale factor are "
    "compared with those measured on the map itself (the image of short "
    "steps to true north and true east on the ellipsoid) and, for the "
    "transverse Mercator maps, with Krueger's series written out here; every "
    "ordered pair of projections is walked there and back in every form of "
    "input; and a survey drilled along a true azimuth, with the factors in "
    "its header, ends where the map says.")
ASSUMPTIONS = [
    "projections are conformal and their datum grids are installed with "
    "pyproj (offline)",
    "latitude and longitude are on the projection's own datum",
    "coordinates are (x, y[, z]), x to the East and y to the North"]

D = math.radians
# code, semi-major axis, inverse flattening, transverse Mercator parameters
# (central meridian, scale, false easting, northing, latitude of origin) or
# None, longitudes and latitudes of the places
A84, F84 = 6378137.0, 298.257223563
GRS = 298.257222101
INT = (6378388.0, 297.0)
NEAR31 = ([0.4, 2.2, 3.0, 4.3, 5.6], [35.0, 52.1, 58.3])
MAPS = {
    "EPSG:32631": (A84, F84, (3., .9996, 5e5, 0., 0.), NEAR31),
    "EPSG:25831": (A84, GRS, (3., .9996, 5e5, 0., 0.), NEAR31),
    "EPSG:23031": (*INT, (3., .9996, 5e5, 0., 0.), NEAR31),
    "EPSG:23032": (*INT, (9., .9996, 5e5, 0., 0.),
                   ([6.4, 8.9, 11.5], [52.1, 58.3])),
    "EPSG:32755": (A84, F84, (147., .9996, 5e5, 1e7, 0.),
                   ([144.5, 147.0, 149.1], [-41.0, -12.5])),
    "EPSG:2193": (A84, GRS, (173., .9996, 1.6e6, 1e7, 0.),
                  ([170.2, 173.0, 176.4], [-45.0, -37.2])),
    "EPSG:31467": (6377397.155, 299.1528128, (9., 1.0, 3.5e6, 0., 0.),
                   ([7.9, 9.0, 10.2], [48.5, 53.7])),
    "EPSG:28992": (6377397.155, 299.1528128, None,
                   ([3.6, 5.38763888888889, 6.9], [51.0, 52.3, 53.4])),
}
SAME = [("EPSG:23031", "EPSG:23032")]
FORMS = ("list", "tuple", "array", "single list", "single tuple",
         "single array")


def BOUNDS(tier):
    return {"projections": list(MAPS), "places": "3 to 5 longitudes x 2 or 3 "
            "latitudes per projection", "pairs": "all ordered pairs of the "
            "projections used in western Europe",
            "surveys": "8 true azimuths, 2 inclinations"}


def units(tier):
    return [[c, k] for c in MAPS for k in range(len(MAPS[c][3][1]))]


def kruger(lat, lon, a, invf, par):
    """Easting, northing, convergence and scale (degrees in and out)."""
    lon0, k0, fe, fn, lat0 = par
    f = 1 / invf
    n = f / (2 - f)
    e = math.sqrt(f * (2 - f))
    A = a / (1 + n) * (1 + n ** 2 / 4 + n ** 4 / 64)
    al = (n / 2 - 2 * n ** 2 / 3 + 5 * n ** 3 / 16 + 41 * n ** 4 / 180,
          13 * n ** 2 / 48 - 3 * n ** 3 / 5 + 557 * n ** 4 / 1440,
          61 * n ** 3 / 240 - 103 * n ** 4 / 140,
          49561 * n ** 4 / 161280)

    def conformal(lat):
        s = math.sin(D(lat))
        return math.sinh(math.atanh(s) - e * math.atanh(e * s))

    t, dl = conformal(lat), D(lon - lon0)
    xi, eta = math.atan2(t, math.cos(dl)), math.asinh(
        math.sin(dl) / math.hypot(t, math.cos(dl)))
    x, y = eta, xi
    p, q = 1.0, 0.0
    for j, c in enumerate(al, 1):
        x += c * math.cos(2 * j * xi) * math.sinh(2 * j * eta)
        y += c * math.sin(2 * j * xi) * math.cosh(2 * j * eta)
        p += 2 * j * c * math.cos(2 * j * xi) * math.cosh(2 * j * eta)
        q += 2 * j * c * math.sin(2 * j * xi) * math.sinh(2 * j * eta)
    conv = (math.atan(t / math.hypot(1, t) * math.tan(dl))
            + math.atan2(q, p))
    k = k0 * A / a * math.hypot(p, q) * math.sqrt(
        (1 + ((1 - n) / (1 + n) * math.tan(D(lat))) ** 2)
        / (t * t + math.cos(dl) ** 2))
    return fe + k0 * A * x, fn + k0 * A * y, math.degrees(conv), k


def step(lat, lon, a, invf, north, east):
    """A short step on the ellipsoid."""
    f = 1 / invf
    e2 = f * (2 - f)
    w = 1 - e2 * math.sin(D(lat)) ** 2
    return (lat + math.degrees(north * w ** 1.5 / (a * (1 - e2))),
            lon + math.degrees(east * math.sqrt(w)
                               / (a * math.cos(D(lat)))))


def run(unit, rec):
    code, row = unit
    S = repo.load().survey
    a, invf, par, (lons, lats) = MAPS[code]
    P = S.SurveyParameters(code)
    for lat in lats[row:row + 1]:
        for lon in lons:
            place(rec, S, P, code, a, invf, par, lat, lon,
                  (lat, lon) == (lats[0], lons[1]))
    rec.sample({"projection": code, "places": len(lons)})


def place(rec, S, P, code, a, invf, par, lat, lon, full):
    key = {"map": code, "place": [lat, lon]}
    rec.state(repr(key))
    rec.trans()
    with rec.case(key):
        if par:
            x, y, conv, k = kruger(lat, lon, a, invf, par)
            rec.close(P(lon, lat), [x, y], key, "map coordinates", 0, 2e-3)
        else:
            x, y = P(lon, lat)
        # what the map does to steps to the North and to the East
        h = 50.0
        dn = np.subtract(P(*step(lat, lon, a, invf, h, 0)[::-1]),
                         P(*step(lat, lon, a, invf, -h, 0)[::-1])) / (2 * h)
        de = np.subtract(P(*step(lat, lon, a, invf, 0, h)[::-1]),
                         P(*step(lat, lon, a, invf, 0, -h)[::-1])) / (2 * h)
        if not par:
            conv, k = (-math.degrees(math.atan2(dn[0], dn[1])),
                       math.hypot(*dn))
        r = P.get_factors_from_x_y(x=x, y=y, altitude=10.0,
                                   date="2020-01-01")
        rec.close([r["latitude"], r["longitude"]], [lat, lon], key,
                  "latitude and longitude", 0, 1e-7)
        rec.close([r["x"], r["y"], r["easting"], r["northing"]],
                  [x, y, x, y], key, "coordinates", 0, 1e-9)
        rec.close(r["convergence"], conv, key, "convergence", 0, 1e-5)
        rec.close(r["scale_factor"], k, key, "scale factor", 0, 1e-7)
        rec.close(-math.degrees(math.atan2(dn[0], dn[1])), conv, key,
                  "convergence on the map", 0, 1e-4)
        rec.close([math.hypot(*dn), math.hypot(*de)], [k, k], key,
                  "scale on the map", 0, 1e-6)
        rec.check(r["srs"] == code and r["date"] == "2020-01-01", key,
                  lambda: f"{r['srs']}, {r['date']}")
        rec.trace()
        rec.outcome("place")
        drill(rec, key, r, dn, de)
    for to in MAPS:
        if -20 < lon < 20 and MAPS[to][3][0][0] < 20:
            rec.trans()
            q = dict(key, to=to)
            with rec.case(q):
                travel(rec, S, q, P, code, to, x, y, lat, lon, full)
                rec.trace()
                rec.outcome("pair")


def drill(rec, key, r, dn, de):
    """Along a true azimuth, with the factors of the place in the header."""
    for inc in (90.0, 35.0):
        for az in range(0, 360, 45):
            q = dict(key, azimuth=az, inc=inc)
            h = header(convergence=r["convergence"], azi_reference="true",
                       latitude=r["latitude"], longitude=r["longitude"],
                       grid_scale_factor=r["scale_factor"])
            s = survey([(0., inc, az), (100., inc, az)], h,
                       start_nev=[r["northing"], r["easting"], 0.])
            L = 100 * math.sin(D(inc))
            e = L * (math.cos(D(az)) * dn + math.sin(D(az)) * de)
            rec.close(np.asarray(s.pos_nev)[1],
                      [r["northing"] + e[1], r["easting"] + e[0],
                       100 * math.cos(D(inc))], q, "end of the survey", 0,
                      2e-3)


def travel(rec, S, key, P, code, to, x, y, lat, lon, full):
    Q = S.SurveyParameters(to)
    there = P.transform_coordinates([(x, y)], to)
    rec.check(np.shape(there) == (1, 2), key,
              lambda: f"shape {np.shape(there)}")
    back = Q.transform_coordinates(there, code)
    # which shift between datums applies depends on the direction
    same = code == to or any(code in z and to in z for z in SAME)
    rec.close(back, [(x, y)], key, "there and back", 0,
              0.02 if same else 5.0)
    lon2, lat2 = Q(*there[0], inverse=True)
    if same:
        rec.close([lat2, lon2], [lat, lon], key, "same datum", 0, 1e-6)
    rec.close([lat2, lon2], [lat, lon], key, "nearby on the other datum", 0,
              0.004)
    if not full:
        return
    more = [(x, y), (x + 100.0, y), (x, y - 200.0)]
    each = np.vstack([P.transform_coordinates([c], to) for c in more])
    for f in FORMS:
        if f.startswith("single"):
            for c, w in zip(more, each):
                v = {"list": list(c), "tuple": c,
                     "array": np.array(c)}[f.split()[1]]
                rec.close(P.transform_coordinates(v, to), [w], key, f, 0,
                          1e-9)
            continue
        v = {"list": [list(c) for c in more], "tuple": tuple(more),
             "array": np.array(more)}[f]
        rec.close(P.transform_coordinates(v, to), each, key, f, 0, 1e-9)
    deep = P.transform_coordinates([(*c, 0.0) for c in more], to)
    rec.check(np.shape(deep) == (3, 3), key, lambda: f"{np.shape(deep)}")
    rec.close(deep[:, :2], each, key, "with heights", 0, 1e-3)
