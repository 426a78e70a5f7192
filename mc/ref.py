"""Independent reference models, written in plain Python (no numpy, nothing
imported from the code under test).

Geometry is stated as circles: a well path leg between two stations is the
circular arc of the given length that is tangent to both station directions.
NEV axes: North, East, Vertical (down).
"""
import math

TAU = 2 * math.pi


def vec(inc, azi):
    s = math.sin(inc)
    return (s * math.cos(azi), s * math.sin(azi), math.cos(inc))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1],
            a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def mul(a, k):
    return (a[0] * k, a[1] * k, a[2] * k)


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    n = norm(a)
    return (a[0] / n, a[1] / n, a[2] / n)


def angle(a, b):
    """Angle between two vectors, accurate for all angles."""
    return math.atan2(norm(cross(a, b)), dot(a, b))


def inc_azi(v):
    n = norm(v)
    inc = math.atan2(math.hypot(v[0], v[1]), v[2])
    azi = math.atan2(v[1], v[0]) % TAU
    return inc, azi


def wrap(a):
    """Difference of angles folded to (-pi, pi]."""
    a = math.fmod(a, TAU)
    if a > math.pi:
        a -= TAU
    elif a <= -math.pi:
        a += TAU
    return a


def arc_point(p, t1, t2, length, x):
    """Point and tangent at distance x along the arc of `length` that starts
    at p with tangent t1 and ends with tangent t2."""
    dl = angle(t1, t2)
    if dl < 1e-9:
        return add(p, mul(t1, x)), t1
    u = unit(sub(t2, mul(t1, math.cos(dl))))       # in-plane normal
    th = dl * x / length
    r = length / dl
    pos = add(p, add(mul(t1, r * math.sin(th)),
                     mul(u, 2 * r * math.sin(th / 2) ** 2)))
    tan = add(mul(t1, math.cos(th)), mul(u, math.sin(th)))
    return pos, tan


def leg(p, t1, t2, length):
    return arc_point(p, t1, t2, length, length)[0]


def walk(md, inc, azi, start=(0.0, 0.0, 0.0)):
    """Positions of all stations (angles in radians)."""
    p = tuple(float(s) for s in start)
    out = [p]
    t1 = vec(inc[0], azi[0])
    for k in range(1, len(md)):
        t2 = vec(inc[k], azi[k])
        p = leg(p, t1, t2, md[k] - md[k - 1])
        out.append(p)
        t1 = t2
    return out


def at_md(md, inc, azi, pos, x):
    """Point and tangent of the reference path at measured depth x."""
    k = 0
    while k < len(md) - 2 and x > md[k + 1]:
        k += 1
    return arc_point(pos[k], vec(inc[k], azi[k]), vec(inc[k + 1], azi[k + 1]),
                     md[k + 1] - md[k], x - md[k])


def toolface(t1, t2):
    """High-side toolface at t1 of the arc towards t2, in (-pi, pi]."""
    inc, azi = inc_azi(t1)
    hs = (math.cos(inc) * math.cos(azi), math.cos(inc) * math.sin(azi),
          -math.sin(inc))
    rs = (-math.sin(azi), math.cos(azi), 0.0)
    return math.atan2(dot(t2, rs), dot(t2, hs))


def rot_hla(inc, azi):
    """Rows: high side, lateral, along hole, expressed in NEV."""
    ci, si, ca, sa = math.cos(inc), math.sin(inc), math.cos(azi), math.sin(azi)
    return ((ci * ca, ci * sa, -si), (-sa, ca, 0.0), (si * ca, si * sa, ci))


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def transpose(a):
    return [list(r) for r in zip(*a)]
