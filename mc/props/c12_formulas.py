"""C12: error-model formulas."""
import math

import numpy as np

from .. import repo
from ..common import product

ID = "C12"
EXPLANATION = (
    "Every expression tree up to the stated number of operators is printed "
    "as formula text (with only the brackets ordinary precedence needs, with "
    "redundant brackets and with different spacing and spelling), evaluated "
    "by the real interpreter and compared, station by station, with direct "
    "evaluation of the tree.  Every single replacement of a leaf or operator "
    "by something outside the documented set must be refused, without "
    "calling, reading or changing anything.")
ASSUMPTIONS = [
    "powers bind tighter than a leading minus and group to the right",
    "per-station values are floating point; expressions whose value or any "
    "intermediate is undefined, above 1e6 or within 1e-9 of the edge of a "
    "function's domain are not compared"]

LEAF = ["2", "0.5", "pi", "Inc", "AzT", "Gfield"]
UN = ["Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Abs", "Sqr", "Exp",
      "Log", "neg", "pos"]
BI = ["+", "-", "*", "/", "^", "Max", "Min"]
INC = [0.1, 0.7, 1.5]
AZT = [0.3, 2.0, 5.5]
CONST = {"2": 2.0, "0.5": 0.5, "pi": math.pi, "Gfield": 9.81, "3": 3.0,
         "1e-3": 1e-3}
BIG = 1e6
EPS = 1e-9


def BOUNDS(tier):
    q = tier == "quick"
    return {"full alphabet": f"{len(LEAF)} leaves, {len(UN)} unary and "
                             f"{len(BI)} binary operators, all trees up to "
                             f"{2 if q else 3} operators",
            "two leaves": "all trees up to 3 operators" if q else
                          "included above",
            "arithmetic only": "+ - * / ^ neg over three leaves, up to "
                               f"{3 if q else 4} operators",
            "departures": f"{len(BAD)} replacements of each leaf, "
                          f"{len(BADOP)} of each operator, in every tree of "
                          f"up to {1 if q else 2} operators"}


def trees(n, leaves, un, bi):
    """All trees with exactly n operators."""
    if n == 0:
        for x in leaves:
            yield x
        return
    for u in un:
        for t in trees(n - 1, leaves, un, bi):
            yield (u, t)
    for b in bi:
        for k in range(n):
            for a in trees(k, leaves, un, bi):
                for c in trees(n - 1 - k, leaves, un, bi):
                    yield (b, a, c)


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "neg": 3, "pos": 3, "^": 4}


def show(t, style):
    """style: 0 tight and minimal, 1 spaced and minimal, 2 redundant
    brackets, 3 alternative spellings."""
    sp = " " if style in (1, 3) else ""

    def go(t):
        if isinstance(t, str):
            s = t
            if style == 2:
                s = f"({s})"
            return s, 9
        op = t[0]
        if len(t) == 2 and op not in ("neg", "pos"):
            f = "Sqrt" if op == "Sqr" and style == 3 else op
            return f"{f}{sp if style == 3 else ''}({go(t[1])[0]})", 9
        if op in ("Max", "Min"):
            return f"{op}({go(t[1])[0]},{sp}{go(t[2])[0]})", 9
        if op in ("neg", "pos"):
            s, p = go(t[1])
            if p < 3:
                s = f"({s})"
            s = ("-" if op == "neg" else "+") + s
            return (f"({s})", 9) if style == 2 else (s, 3)
        a, pa = go(t[1])
        b, pb = go(t[2])
        p = PREC[op]
        if op == "^":
            if pa <= 4:
                a = f"({a})"
            if pb < 3:
                b = f"({b})"
        else:
            if pa < p:
                a = f"({a})"
            if pb <= p:
                b = f"({b})"
        o = "**" if op == "^" and style == 3 else op
        s = f"{a}{sp}{o}{sp}{b}"
        return (f"({s})", 9) if style == 2 else (s, p)

    s = go(t)[0]
    return f" {s} " if style == 3 else s


class Undefined(Exception):
    pass


def value(t, k):
    """Value at station k."""
    if isinstance(t, str):
        if t == "Inc":
            return INC[k]
        if t == "AzT":
            return AZT[k]
        return CONST[t]
    op = t[0]
    a = value(t[1], k)
    if len(t) == 2:
        if op == "neg":
            r = -a
        elif op == "pos":
            r = a
        elif op == "Abs":
            r = abs(a)
        elif op in ("Asin", "Acos"):
            if abs(a) > 1 - EPS:
                raise Undefined
            r = math.asin(a) if op == "Asin" else math.acos(a)
        elif op in ("Sqr", "Log"):
            if a < EPS:
                raise Undefined
            r = math.sqrt(a) if op == "Sqr" else math.log(a)
        elif op == "Exp":
            if a > 14:
                raise Undefined
            r = math.exp(a)
        else:
            r = getattr(math, op.lower())(a)
    else:
        b = value(t[2], k)
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if abs(b) < EPS:
                raise Undefined
            r = a / b
        elif op == "Max":
            r = max(a, b)
        elif op == "Min":
            r = min(a, b)
        else:
            if abs(a) < EPS or abs(b) > 50:
                raise Undefined
            if a < 0 and (b != round(b) or not exact_int(t[2])):
                raise Undefined
            if b and abs(b * math.log(abs(a))) > 14:
                raise Undefined
            r = a ** b
    if not abs(r) < BIG:
        raise Undefined
    return r


def exact_int(t):
    """The exponent is an integer without rounding (built from 2s)."""
    if isinstance(t, str):
        return t in ("2", "3")
    if t[0] in ("neg", "pos", "Abs"):
        return exact_int(t[1])
    if t[0] in ("+", "-", "*", "Max", "Min"):
        return exact_int(t[1]) and exact_int(t[2])
    return False


def vector(t):
    if isinstance(t, str):
        return t in ("Inc", "AzT")
    return any(vector(x) for x in t[1:])


class Trap:
    """Records any use of it."""
    log = []

    def __getattribute__(self, name):
        Trap.log.append(name)
        raise AttributeError(name)

    def __call__(self, *a, **k):
        Trap.log.append("call")
        return 1.0

    def __getitem__(self, i):
        Trap.log.append("item")
        return 1.0

    def __iter__(self):
        Trap.log.append("iter")
        return iter([1.0])


BAD = ["'a'", "\"2\"", "b'a'", "1j", "True", "None", "...", "[2]", "(2, 3)",
       "{2}", "{}", "foo", "inc", "INC", "Inc.T", "Inc[0]", "Inc[0:1]",
       "Inc.sum()", "Inc(2)", "pi(2)", "Trap()", "Trap.x", "Trap[0]",
       "*Trap", "Foo(Inc)", "SIN(Inc)", "Sinh(Inc)", "Round(Inc)", "Sin",
       "sqrt", "Max", "Sin()", "Sin(Inc, MD)", "Exp(Inc, MD)", "Abs(2, MD)",
       "Sin(x=Inc)", "Sin(Inc, out=MD)", "Max(Inc, 2, out=MD)", "Sin(*Inc)",
       "Max(*Trap)", "Sin(**Trap)", "Max()", "lambda: 2", "(lambda: 2)()",
       "(q := 2)", "[x for x in Inc]", "(x for x in Trap)",
       "2 if Inc else 3", "f'{Trap}'", "f'{2}'", "__builtins__",
       "__import__('os')", "print(2)", "eval('2')", "open('x')",
       "().__class__", "(2).real", "2 < 3", "2 == 2", "2 != 3", "2 is 2",
       "2 in Inc", "not 2", "~2", "2 and 3", "2 or 3", "2 % 3", "2 // 3",
       "2 << 3", "2 >> 1", "2 | 3", "2 & 3", "Inc @ AzT", "await Inc",
       "yield", "2 3", "Inc AzT", "Sin Inc", "Sin(", ")", "2;3",
       "import os", "x = 2", "$A1", "A1:B2", "Sin{Inc}", "2%",
       "#REF!", "Max(Inc; 2)", "getattr(Trap, 'x')", "type(Trap)",
       "globals()", "np.sin(Inc)", "math.pi", "maximum.reduce(Inc)",
       "Sin.at(MD, 0)"]
BAD += [a + f + b + ("(2, 3)" if f in ("Max", "Min") else "(2)")
        for f in ("Sin", "Cos", "Tan", "Sqr", "Sqrt", "Abs", "Exp", "Log",
                  "Max", "Min", "Asin", "sqrt", "maximum")
        for a, b in (("a", ""), ("A", ""), ("My", ""), ("x_", ""),
                     ("", "h"), ("", "2"), ("", "_"))] + ["a Sin(2)"]
BADOP = ["%", "//", "<<", ">>", "|", "&", "@", "<", ">", "==", "!=", "and",
         "or", "in", "is", "if", "=", ":=", ",", ";", ".", "!", "~", "and "
         "not", "<>", "&&", "||"]


def units(tier):
    q = tier == "quick"
    out = []
    n = 2 if q else 3
    # top-level branches: the root operator (and, when deep, its left child
    # size) of the full alphabet
    out += [["leaf"]]
    for m in range(1, n + 1):
        for op in UN + BI:
            for k in range(1 if op in UN else m):
                out.append(["full", m, op, k])
    if q:
        for op in UN + BI:
            for k in range(1 if op in UN else 3):
                out.append(["two", 3, op, k])
    for m in range(1, (3 if q else 4) + 1):
        for op in ARITH_U + ARITH_B:
            for k in range(1 if op in ARITH_U else m):
                out.append(["arith", m, op, k])
    for i in range(len(BAD)):
        out.append(["bad", i, 1 if q else 2])
    out.append(["badop", 1 if q else 2])
    return out


ARITH_U = ["neg"]
ARITH_B = ["+", "-", "*", "/", "^"]
ALPHA = {"full": (LEAF, UN, BI), "two": (["2", "Inc"], UN, BI),
         "arith": (["3", "1e-3", "AzT"], ARITH_U, ARITH_B)}


def subtrees(kind, m, op, k):
    leaves, un, bi = ALPHA[kind]
    if op in un:
        for t in trees(m - 1, leaves, un, bi):
            yield (op, t)
    else:
        for a in trees(k, leaves, un, bi):
            for c in trees(m - 1 - k, leaves, un, bi):
                yield (op, a, c)


def bindings():
    return {"Inc": np.array(INC), "AzT": np.array(AZT), "Gfield": 9.81,
            "MD": np.array([10.0, 20.0, 30.0])}


def run(unit, rec):
    repo.load()
    import warnings
    warnings.simplefilter("ignore")
    import welleng.errors.interpreter as I
    b = bindings()
    kind = unit[0]
    if kind == "leaf":
        for x in LEAF:
            good(I, rec, b, x)
        for v in (0, 2, -3, 1.5, float("inf"), 1e-300):
            key = {"number": repr(v)}
            with rec.case(key):
                got = I.evaluate_formula(v, b)
                rec.check(got == v and isinstance(got, float), key,
                          f"{got!r}")
        three(I, rec, b)
    elif kind in ALPHA:
        for t in subtrees(*unit):
            good(I, rec, b, t)
    elif kind == "bad":
        bad = BAD[unit[1]]
        for n in range(unit[2] + 1):
            for t in trees(n, ["2", "Inc"], ["Sin", "neg"],
                           ["+", "^", "Max"]):
                for text in replaced(t, bad):
                    refused(I, rec, text)
    else:
        for op in BADOP:
            for n in range(1, unit[1] + 1):
                for t in trees(n, ["2", "Inc"], ["Sin", "neg"],
                               ["+", "/", "^"]):
                    for text in op_replaced(t, op):
                        refused(I, rec, text)
    rec.trace()


def three(I, rec, b):
    """Largest and smallest of one and three values."""
    for op, f in (("Max", max), ("Min", min)):
        for args in product(["2", "Inc", "AzT", "Gfield"], repeat=3):
            text = f"{op}({','.join(args)})"
            rec.trans()
            with rec.case({"text": text}):
                want = [f(value(a, k) for a in args) for k in range(3)]
                if not any(vector(a) for a in args):
                    want = want[0]
                rec.close(I.evaluate_formula(text, b), want, {"text": text},
                          "value", 1e-12, 1e-12)
        with rec.case({"text": op + "(Inc)"}):
            rec.close(I.evaluate_formula(op + "(Inc)", b), INC,
                      {"text": op + "(Inc)"}, "value", 0, 0)
    rec.check(all(np.array_equal(b[k], v) for k, v in bindings().items()),
              "three arguments", "an argument was overwritten")


def good(I, rec, b, t):
    rec.state(repr(t))
    try:
        want = [value(t, k) for k in range(3)]
    except (Undefined, OverflowError, ValueError):
        rec.outcome("undefined somewhere: not compared")
        return
    if not vector(t):
        want = want[0]
    seen = set()
    for style in range(4):
        text = show(t, style)
        if text in seen:
            continue
        seen.add(text)
        rec.trans()
        try:
            got = I.evaluate_formula(text, b)
        except Exception as e:                       # noqa: BLE001
            rec.fail({"text": text}, f"refused: {type(e).__name__}: {e}")
            continue
        rec.close(got, want, {"text": text}, "value", 1e-6, 1e-6)
    rec.outcome("per-station value" if vector(t) else "single value")
    if rec.traces % 997 == 0:
        rec.check(all(np.array_equal(b[k], v)
                      for k, v in bindings().items()), {"text": text},
                  "a variable was overwritten")
    rec.trace()


def paths(t, p=()):
    if isinstance(t, str):
        yield p
        return
    for i, x in enumerate(t[1:], 1):
        yield from paths(x, p + (i,))


def put(t, p, x):
    if not p:
        return x
    t = list(t)
    t[p[0]] = put(t[p[0]], p[1:], x)
    return tuple(t)


def replaced(t, bad):
    for p in paths(t):
        yield show(put(t, p, "@@"), 0).replace("@@", bad)


def op_replaced(t, op):
    """Each binary operator in turn."""
    def places(t, p=()):
        if isinstance(t, str):
            return
        if t[0] in ("+", "/", "^"):
            yield p
        for i, x in enumerate(t[1:], 1):
            yield from places(x, p + (i,))
    for p in places(t):
        node = t
        for i in p:
            node = node[i]
        yield show(put(t, p, ("^", "@1@", "@2@")), 0).replace(
            "@1@^@2@", f"{show(node[1], 2)} {op} {show(node[2], 2)}")


def refused(I, rec, text):
    b = bindings()
    b["Trap"] = Trap()
    Trap.log.clear()
    rec.state(text)
    rec.trans()
    rec.trace()
    key = {"text": text}
    try:
        got = I.evaluate_formula(text, b)
    except Exception as e:                           # noqa: BLE001
        rec.outcome(f"refused: {type(e).__name__}")
        rec.check(not Trap.log, key, lambda: f"executed {Trap.log}")
    else:
        rec.fail(key, f"accepted, gave {got!r}; used {Trap.log}")
    rec.check(all(np.array_equal(b[k], v) for k, v in bindings().items()),
              key, "a variable was overwritten")
