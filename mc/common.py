"""Small helpers shared by the checks."""
import itertools
import math

import numpy as np

from . import repo

D = math.radians


def header(**kw):
    S = repo.load().survey
    kw.setdefault("name", "w")
    kw.setdefault("survey_date", "2020-06-01")
    kw.setdefault("b_total", 50000.0)
    kw.setdefault("dip", 70.0)
    kw.setdefault("declination", 0.0)
    kw.setdefault("azi_reference", "grid")
    return S.SurveyHeader(**kw)


def survey(st, hdr=None, **kw):
    """A survey from [(md, inc_deg, azi_deg), ...] through the public
    constructor."""
    S = repo.load().survey
    md, inc, azi = zip(*st)
    return S.Survey(md=list(md), inc=list(inc), azi=list(azi),
                    header=hdr if hdr is not None else header(), **kw)


def nev(s):
    return np.column_stack([s.n, s.e, s.tvd])


def rad(st):
    md, inc, azi = zip(*st)
    return list(md), [D(i) for i in inc], [D(a) for a in azi]


def chain(legs, md0=0.0, first=None):
    """Stations from legs [(dmd, inc, azi), ...]; `first` is (inc, azi)."""
    out = []
    md = md0
    if first is not None:
        out.append((md, first[0], first[1]))
    for k, (d, i, a) in enumerate(legs):
        if k or first is not None:
            md += d
        out.append((md, i, a))
    return out


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


product = itertools.product


def tour(dirs, ok=lambda a, b: True):
    """A sequence in which every permitted ordered pair of neighbours of the
    alphabet (a pair of equals included) occurs: a long well that contains
    every short one of two stations."""
    todo = {(a, b) for a in range(len(dirs)) for b in range(len(dirs))
            if ok(dirs[a], dirs[b])}
    edges = set(todo)
    out = [0]
    while todo:
        here = out[-1]
        # the shortest permitted way to a pair that is still missing
        seen, front, best = {here}, [[here]], None
        while front and best is None:
            step = []
            for p in front:
                for b in range(len(dirs)):
                    if (p[-1], b) in todo:
                        best = p + [b]
                        break
                    if (p[-1], b) in edges and b not in seen:
                        seen.add(b)
                        step.append(p + [b])
                if best:
                    break
            front = step
        if best is None:
            break
        for a, b in zip(best, best[1:]):
            todo.discard((a, b))
        out += best[1:]
    return [dirs[k] for k in out]
