"""Transcendental functions, powers, roots and quotients."""
import math
from decimal import Decimal, getcontext
from fractions import Fraction

from ..lib import *
from .. import drv

LEVEL = "model_checking"
getcontext().prec = 60
getcontext().Emax = 10 ** 6
getcontext().Emin = -10 ** 6
PI = Decimal("3.14159265358979323846264338327950288419716939937510582097494")


def number(src):
    return float(src) if "." in src or "e" in src else int(src)


def dec(x):
    return Decimal(x)


def sin(x):
    """Sine by its series, to 40 digits (|x| up to 1e6)."""
    x = dec(x)
    x -= (x / (2 * PI)).to_integral_value() * 2 * PI
    t, s, n = x, Decimal(0), 1
    while abs(t) > Decimal("1e-50"):
        s += t
        t = -t * x * x / ((n + 1) * (n + 2))
        n += 2
    return s


def cos(x):
    return sin(PI / 2 - dec(x))


def atan(x):
    x = dec(x)
    if abs(x) > 1:
        return (PI / 2).copy_sign(x) - atan(1 / x)
    k = 0
    while abs(x) > Decimal("0.01"):
        x = x / (1 + (1 + x * x).sqrt())
        k += 1
    t, s, n = x, Decimal(0), 1
    while abs(t) > Decimal("1e-50"):
        s += t / n
        t = -t * x * x
        n += 2
    return s * 2 ** k


def atan2(y, x):
    y, x = dec(y), dec(x)
    if x > 0:
        return atan(y / x)
    if x < 0:
        return atan(y / x) + (PI if y >= 0 else -PI)
    return Decimal(0) if y == 0 else (PI / 2).copy_sign(y)


def power(x, y):
    if x < 0 and int(y) != y or x == 0 and y < 0:
        return None
    if y == 0:
        return Decimal(1)
    if x == 0:
        return Decimal(0)
    if int(y) == y:
        return dec(x) ** int(y)
    return (dec(y) * dec(x).ln()).exp()


def root(n, x):
    if n == 0 or x == 0 and n < 0:
        return None
    if x < 0 and int(1 / n) != 1 / n:
        return None
    if x == 0:
        return Decimal(0)
    if x < 0:
        return dec(x) ** int(1 / n)
    return (dec(x).ln() / dec(n)).exp()


ONE = {
    "SI": sin, "CO": cos, "AT": atan,
    "TA": lambda x: sin(x) / cos(x),
    "SE": lambda x: 1 / cos(x),
    "CS": lambda x: 1 / sin(x) if x else None,
    "CT": lambda x: cos(x) / sin(x) if x else None,
    "EX": lambda x: dec(x).exp(),
    "LN": lambda x: dec(x).ln() if x > 0 else None,
    "LD": lambda x: dec(x).log10() if x > 0 else None,
    "LB": lambda x: dec(x).ln() / Decimal(2).ln() if x > 0 else None,
    "RT": lambda x: dec(x).sqrt() if x >= 0 else None,
    "DG": lambda x: dec(x) * 180 / PI, "RD": lambda x: dec(x) * PI / 180,
    "SQ": lambda x: dec(x) * dec(x), "DB": lambda x: dec(x) * 2,
    "HV": None, "/": lambda x: 1 / dec(x) if x else None,
    "AB": lambda x: abs(dec(x)), "SG": lambda x: dec((x > 0) - (x < 0)),
    "E": lambda x: power(2, x), "**": lambda x: power(2, x),
    "EE": lambda x: power(10, x), "-": lambda x: -dec(x), "+": dec,
    "U": lambda x: dec(x) + 1, "D": lambda x: dec(x) - 1,
}
TWO = {
    "AT": atan2, "/": lambda x, y: dec(x) / dec(y) if y else None,
    "*": lambda x, y: dec(x) * dec(y), "+": lambda x, y: dec(x) + dec(y),
    "-": lambda x, y: dec(x) - dec(y), "E": power, "**": power,
    "EE": lambda x, y: dec(x) * power(10, y), "RT": root,
    "AD": lambda x, y: abs(dec(x) - dec(y)),
}


def close(out, want, scale=0):
    """The printed number is the value up to rounding errors."""
    if want is None:
        return out == "()\n"
    try:
        got = Decimal(out.strip().strip('"'))
    except ArithmeticError:
        return False
    return (abs(got - want) <= max(abs(want), scale) * Decimal("1e-11")
            + Decimal("1e-300"))


def judge(case):
    op, *xs = case
    n = [number(x) for x in xs]
    f = (ONE if len(n) == 1 else TWO)[op]
    try:
        want = f(*n)
    except ArithmeticError:
        return None          # beyond floating point in any case
    if want is not None and abs(want) > Decimal("1e300") and op != "AB" \
            or op == "EE" and n[-1] > 300:
        return None          # beyond floating point
    # sums lose relative precision when they cancel
    scale = max(map(abs, map(dec, n))) if op in ("+", "-", "AD") else 0
    if op in ("SI", "CO", "TA", "SE", "CS", "CT"):
        # rounding of the operand itself
        scale = Decimal("0.01") * (1 + abs(dec(n[0])))
        if op in ("SE", "CS", "CT", "TA") and want is not None \
                and abs(want) > 1000:
            return None
    for src in (f"RP({op} a)",) if len(n) == 1 else (f"RP(a {op} b)",):
        o = drv.run_real(src, [drv.ptypes.Scalar(x) for x in xs], "p",
                         cache=True)
        drv.STEPS[0] += 1
        if o.kind != "ok" or not close(o.out, want, scale):
            return f"{src!r} of {xs} should be about {want}: {o!r}"


def judge_identity(case):
    """Relations between the functions."""
    src, x = case
    o = drv.run_real(src, [drv.ptypes.Scalar(x)], "p", cache=True)
    drv.STEPS[0] += 1
    scale = max(Decimal(1), abs(dec(number(x))))
    if o.kind != "ok" or not close(o.out, Decimal(0), scale):
        return f"{src!r} of {x} should be 0: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    base = [str(i) for i in range(-12, 13)]
    base += [f"{s}{i}.{f}" for s in ("", "-") for i in (0, 1, 2, 3, 7, 45, 90)
             for f in ("1", "25", "5", "75", "999")]
    base += ["30", "45", "60", "90", "180", "360", "100", "-100", "1000",
             "1024", "65536", "0.001", "0.0001", "3.141592653589793",
             "1.5707963267948966", "6.283185307179586",
             "2.718281828459045", "1000000", "0.0", "-0.0", "1.0", "1e-05"]
    big = ["123456789", "1000000000000", "99999999999999999999", "1e+20",
           "1.5e-10", "-1e+16", "1e+100", "9007199254740993"]

    def ones():
        for op in ONE:
            if ONE[op]:
                yield from ((op, x) for x in base)
                if op not in ("SI", "CO", "TA", "SE", "CS", "CT", "EX", "E",
                              "**", "EE", "U", "D"):
                    yield from ((op, x) for x in big)

        for e in (300, 308, 309, 400, 1000, 4000):
            for x in (10 ** e, 10 ** e + 7, 2 * 10 ** e, 9 ** e, 1 << e):
                for op in ("LN", "LD", "LB", "AB", "SG"):
                    yield (op, str(x))
        # magnitudes from 2**-20 to 2**52, with fractions
        for k in range(-20, 53):
            for f in (0, 0.5, 0.999, 0.0001):
                x = repr(2.0 ** k * 1.37 // 1 + f if k > 0
                         else 2.0 ** k * (1 + f))
                for op in ("LN", "LD", "LB", "RT", "AT", "DG", "RD", "SQ",
                           "DB", "/", "AB", "SG", "-", "+", "SI", "CO"):
                    if op not in ("SI", "CO") or k < 18:
                        yield (op, x)
                        if op not in ("LN", "LD", "LB", "RT"):
                            yield (op, "-" + x)

    def twos():
        b = base[::1 if deep else 2]
        for op in TWO:
            for x, y in product(b, repeat=2):
                if op != "AT" or "-0.0" not in (x, y):
                    yield (op, x, y)
            for k in range(-20, 53, 4):
                for f in (0.0, 0.5, 0.999):
                    x = repr(2.0 ** k * 1.37 // 1 + f if k > 0
                             else 2.0 ** k * (1 + f))
                    for y in ("2", "-3", "0.5", "7.25", "1000"):
                        if op in ("*", "/", "+", "-", "AD", "AT", "RT"):
                            yield (op, x, y)
                            yield (op, y, x)
                        elif k < 10 and y != "1000":
                            yield (op, x, y)
                            if k < 6:
                                yield (op, y, x)
            if op in ("*", "/", "+", "-", "AD"):
                for x, y in product(base[::4] + big, big):
                    yield (op, x, y)
                    yield (op, y, x)

    def identities():
        for x in base:
            for s in ("(SQ SI a)+(SQ CO a)-1", "(SI-a)+SI a", "(CO-a)-CO a",
                      "(AT-a)+AT a", "a-(RD DG a)", "a-(DG RD a)",
                      "(SI a)-CO(a-PI/2)", "(AB a)-(RT SQ a)",
                      "a-(SG a)*(AB a)", "(SI 2*a)-2*(SI a)*(CO a)",
                      "(1 AT a)-(AT(1/a))" if not x.startswith("-")
                      and float(x) else "0", "a-(2*a/2)",
                      "(AB a)-(AB-a)", "(a AD 3)-(3 AD a)",
                      "(LN EX a)-a" if abs(float(x)) < 20 else "0",
                      "(LB E a)-a" if abs(float(x)) < 20 else "0",
                      "(LD EE a)-a" if abs(float(x)) < 20 else "0"):
                yield ("RP(" + s + ")", x)

    def lists():
        ts = [t for t in ONE if t in OPS[1]]
        for t in ts:
            for v in ("[0;1;[2;-1]]", "0,4", '["x";()]', "`a`", "()", "{a}",
                      '"3x"', '""', "[]", "1.50", '" 2"', "[[[]];4.0]",
                      "(2,())"):
                yield (f"RP({t} a)", (v,))
                yield (f"RP({t}*a)", (v,))
        for t in TWO:
            for v, w in product(["[0;1;[2;-1]]", "1,4", '"2x"', "`a`", "()",
                                 "{a}", '""', "3", "-0.5", "[]"], repeat=2):
                yield (f"RP(a {t} b)", (v, w))
                yield (f"RP($ {t} [a b])", (v, w))

    return [Sweep("unary", ones, judge, "27 functions on all base operands, "
                  "against 40-digit arithmetic"),
            Sweep("binary", twos, judge, "10 functions on pairs of operands"),
            Sweep("identities", identities, judge_identity, "17 identities"),
            differential("operands", lists, "operands of all types")]
