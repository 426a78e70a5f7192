"""C15: strings and wellbores as stacks of sections."""
import copy

from .. import repo
from ..common import product

ID = "C15"
EXPLANATION = (
    "Explicit-state search over all sequences of section additions (valid, "
    "clipped, overlapping, empty, reversed, outside the string, incomplete "
    "arguments) on one string, and interleaved on two strings; every history "
    "is replayed on fresh objects and every state is compared with a list "
    "model.  In every complete state the string is moved to every depth of "
    "the grid and compared with the clipped model.")
ASSUMPTIONS = ["top-down sections are given by their bottom, bottom-up "
               "sections by length or top or nothing (to the top)",
               "a rejected addition raises an exception"]

TOP, BOTTOM = 100.0, 104.0
CLASSES = ("String", "WellBore", "BHA")


def BOUNDS(tier):
    d = 4 if tier == "quick" else 5
    return {"depth": f"all addition sequences up to {d} additions on one "
                     f"string, {3 if tier == 'quick' else 4} on two",
            "menu": {m: [op_name(o) for o in menu(m)]
                     for m in ("top_down", "bottom_up")},
            "classes": CLASSES, "string limits": [[TOP, BOTTOM], [0.0, 4.0]],
            "moves": "every multiple of 0.5 from the string's top to its "
                     "bottom and beyond"}


NAN = float("nan")


def menu(method):
    if method == "top_down":
        out = [("bottom", b) for b in (1.0, 2.0, 2.5, 4.0, 0.0, -1.0, 5.0)]
        out += [("bottom", NAN), ("nothing",), ("bottom-missing-parameter",
                                                2.0)]
        out += [("bottom-and-top", 3.0, 1.0), ("bottom-and-top", 3.0, 0.0)]
    else:
        out = [("length", x) for x in (1.0, 1.5, 3.0, 4.0, 10.0, 0.0, -1.0)]
        out += [("top", t) for t in (0.0, 1.0, 2.5, 4.0, 5.0, -1.0)]
        out += [("nothing",), ("none",), ("length", NAN),
                ("length-missing-parameter", 1.0)]
    return out


def op_name(o):
    return " ".join(map(str, o))


def units(tier):
    d = 4 if tier == "quick" else 5
    out = []
    for m in ("top_down", "bottom_up"):
        n = len(menu(m))
        for c in CLASSES:
            for lim in (0, 1):
                for i in range(n):
                    out.append(["one", m, c, lim, i, d])
        for m2 in ("top_down", "bottom_up"):
            for i in range(n):
                out.append(["two", m, m2, i, d - 1])
    return out


class Model:
    def __init__(self, method, cls, top, bottom):
        self.method, self.cls, self.top, self.bottom = (method, cls, top,
                                                        bottom)
        self.sections = []

    def key(self):
        return tuple((s["top"], s["bottom"], s["n"]) for s in self.sections)

    @property
    def complete(self):
        return bool(self.sections) and (
            self.sections[0]["top"] == self.top
            and self.sections[-1]["bottom"] == self.bottom)

    def add(self, op, n):
        """True if the addition is accepted."""
        if "missing" in op[0]:
            if self.cls == "WellBore":
                return False
        if self.method == "top_down":
            top = self.sections[-1]["bottom"] if self.sections else self.top
            if op[0] == "nothing":
                return False
            bot = op[1] + self.top
            if op[0] == "bottom-and-top" and op[2] + self.top != top:
                return False
            if not top < bot <= self.bottom:
                return False
            self.sections.append(dict(top=top, bottom=bot, n=n))
            return True
        bot = self.sections[0]["top"] if self.sections else self.bottom
        if op[0].startswith("length"):
            top = max(bot - op[1], self.top)
        elif op[0] == "top":
            top = op[1] + self.top
        else:
            top = self.top
        if not self.top <= top < bot:
            return False
        if op[0].startswith("length") and op[1] != op[1]:
            return False
        self.sections.insert(0, dict(top=top, bottom=bot, n=n))
        return True

    def moved(self, md):
        out = []
        bot = md
        for s in reversed(self.sections):
            top = max(self.top, bot - (s["bottom"] - s["top"]))
            out.insert(0, (top, bot, s["n"]))
            bot = top
            if top == self.top:
                break
        return out


def props(op, n, cls):
    """Properties of the n-th addition."""
    p = {"od": 0.1 + n, "name": f"s{n}", "unit_weight": 10.0 * n}
    if cls == "WellBore" and "missing" not in op[0]:
        p["id"] = 0.3 + n
        p["coeff_friction_sliding"] = 0.1 * n
    if cls == "BHA" and n % 2:
        p["density"] = 2.7
    return p


def kwargs(op, n, cls, top):
    p = props(op, n, cls)
    k = op[0].split("-")[0]
    if k == "none":
        p.update(length=None, top=None)
    elif k == "length":
        p["length"] = op[1]
    elif k != "nothing":
        p[k] = op[1] + top
    if op[0] == "bottom-and-top":
        p["top"] = op[2] + top
    return p


def compare(rec, key, s, m, ops):
    secs = s.sections
    rec.check(list(secs) == list(range(len(m.sections))), key,
              lambda: f"section numbers {list(secs)}")
    rec.check(bool(s.complete) == m.complete, key,
              lambda: f"complete is {s.complete}, expected {m.complete}")
    rec.check((s.top, s.bottom, s.method) == (m.top, m.bottom, m.method),
              key, "limits of the string changed")
    for got, w in zip(secs.values(), m.sections):
        rec.close([got["top"], got["bottom"]], [w["top"], w["bottom"]], key,
                  f"section {w['n']}", 0, 1e-12)
        for k, v in props(ops[w["n"]], w["n"], m.cls).items():
            rec.check(k in got and got[k] == v, key,
                      lambda: f"section {w['n']}: {k} is {got.get(k)!r}")
        if m.cls == "BHA":
            rec.check(got.get("density") == (2.7 if w["n"] % 2 else 7.85),
                      key, lambda: f"density {got.get('density')}")
        if got.get("length") is not None:
            rec.close(got["length"], w["bottom"] - w["top"], key,
                      f"length of section {w['n']}", 0, 1e-12)
        elif m.method == "bottom_up":
            rec.fail(key, f"no length in section {w['n']}: {got}")


def snapshot(s):
    return repr((s.top, s.bottom, s.complete, s.method,
                 {k: dict(v) for k, v in s.sections.items()}))


def step(rec, key, s, m, op, n, ops):
    """One addition on the real object and on the model."""
    kw = kwargs(op, n, m.cls, m.top)
    keep = copy.deepcopy(kw)
    before = snapshot(s)
    accepted = m.add(op, n)
    try:
        s.add_section(**kw)
        done = True
    except (AssertionError, KeyError, ValueError, TypeError):
        done = False
    rec.check(repr(kw) == repr(keep), key, "the caller's data changed")
    rec.check(done == accepted, key,
              "accepted but must be rejected" if done else
              "rejected but must be accepted")
    if not done and not accepted:
        rec.check(snapshot(s) == before, key,
                  lambda: f"rejected, but changed: {snapshot(s)[:300]}")
    rec.outcome("accepted" if accepted else "rejected")
    return done == accepted


def move(rec, key, s, m, ops):
    A = repo.load().architecture
    before = snapshot(s)
    x = m.top - 1.0
    while x <= m.bottom + 1.0:
        k2 = dict(key, move=x)
        rec.trans()
        try:
            t = s.depth(x)
        except AssertionError:
            rec.check(not m.top < x <= m.bottom, k2, "move refused")
            x += 0.5
            continue
        if rec.check(m.top < x <= m.bottom, k2, "moved out of range"):
            want = m.moved(x)
            secs = list(t.sections.values())
            rec.check(list(t.sections) == list(range(len(want))), k2,
                      lambda: f"sections {t.sections}")
            rec.check((t.top, t.bottom, t.complete) == (m.top, x, True), k2,
                      lambda: f"{t.top} {t.bottom} {t.complete}")
            for got, w in zip(secs, want):
                rec.close([got["top"], got["bottom"]], w[:2], k2,
                          "moved section", 0, 1e-12)
                rec.check(all(got.get(k) == v for k, v in
                              props(ops[w[2]], w[2], m.cls).items()), k2,
                          lambda: f"properties {got}")
                if "length" in got:
                    rec.close(got["length"], w[1] - w[0], k2,
                              "length of moved section", 0, 1e-12)
            for got in secs:
                got["od"] = -1.0
            rec.outcome("moved")
        x += 0.5
    rec.check(snapshot(s) == before, key, "moving changed the string")


def run(unit, rec):
    if unit[0] == "one":
        one(rec, *unit[1:])
    else:
        two(rec, *unit[1:])


def make(method, cls, lim):
    A = repo.load().architecture
    top, bottom = ((TOP, BOTTOM), (0.0, BOTTOM - TOP))[lim]
    return (getattr(A, cls)("s", top, bottom, method=method),
            Model(method, cls, top, bottom))


def one(rec, method, cls, lim, first, depth):
    import welleng.architecture                       # noqa: F401
    ops = menu(method)
    key0 = {"class": cls, "method": method, "limits": lim}
    seen = set()
    frontier = [(ops[first],)]
    while frontier:
        nxt = []
        for hist in frontier:
            key = dict(key0, ops=[op_name(o) for o in hist])
            rec.trans()
            rec.trace()
            with rec.case(key):
                s, m = make(method, cls, lim)
                ok = True
                for n, op in enumerate(hist[:-1]):
                    try:
                        s.add_section(**kwargs(op, n, cls, m.top))
                    except Exception:                # noqa: BLE001
                        pass
                    m.add(op, n)
                ok = step(rec, key, s, m, hist[-1], len(hist) - 1, hist)
                compare(rec, key, s, m, hist)
                if m.complete:
                    move(rec, key, s, m, hist)
                # what is to come depends on the sections only
                k = (len(hist), m.key())
                rec.state(repr((key0, m.key())))
                if ok and k not in seen and len(hist) < depth:
                    seen.add(k)
                    nxt += [hist + (o,) for o in ops]
        frontier = nxt
    rec.sample(dict(key0, first=op_name(ops[first])))


def two(rec, m1, m2, first, depth):
    """Additions to two strings, interleaved in every order."""
    import welleng.architecture                       # noqa: F401
    menus = {0: [o for o in menu(m1)], 1: [o for o in menu(m2)][:9:2]}
    start = (0, menus[0][first])
    menus[0] = menus[0][::3]
    for rest in product([(w, o) for w in (0, 1) for o in menus[w]],
                        repeat=depth - 1):
        hist = (start,) + rest
        key = {"methods": [m1, m2],
               "ops": [f"{w}: {op_name(o)}" for w, o in hist]}
        rec.trace()
        with rec.case(key):
            ss = [make(m1, "WellBore", 0), make(m2, "BHA", 1)]
            log = [{}, {}]
            for n, (w, o) in enumerate(hist):
                rec.trans()
                log[w][n] = o
                step(rec, key, *ss[w], o, n, log[w])
            for w in (0, 1):
                compare(rec, key, *ss[w], log[w])
            rec.state(repr([m.key() for _, m in ss]))
