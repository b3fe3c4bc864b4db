"""Rounding operators round to the multiple that they promise."""
from fractions import Fraction
import math

from ..lib import *
from .. import drv

LEVEL = "model_checking"
ROUND = texts(1, "CEIL", "FLOOR", "ROUNDNEAREST", "ROUNDZERO")
NUMS = ["0", "1", "-1", "2", "3", "-3", "4", "5", "-5", "6", "7", "-7", "10",
        "12", "-13", "99", "0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "3.5",
        "0.25", "0.75", "-0.75", "2.4", "2.6", "-2.4", "1e400", "0.1",
        "123456.789", "9007199254740993", "-9007199254740993",
        "100000000000000000001", "-100000000000000000003", "0.49999999999999994",
        "4503599627370497.5", "", "abc", "12x", " 7"]
STEPS = ["1", "2", "3", "-3", "5", "10", "-10", "0", "0.5", "0.25", "0.1",
         "-0.5", "1.5", "7", "100", "9007199254740993", "1000000000000", "",
         "x", "1.0", "4"]


def exact(s):
    return Fraction(int(s))


def judge(case):
    return diffv(case[0], case[1:])


def judge_law(case):
    """On integers the exact result is known without the reference."""
    t, x, m = case
    q = Fraction(x, abs(m))
    want = {"|<": math.floor, ">|": math.ceil, "RZ": math.trunc,
            "RN": round}[t](q) * abs(m)
    o = drv.run_real(f"a {t} b", [drv.build_real(str(x)),
                                  drv.build_real(str(m))], cache=True)
    drv.STEPS[0] += 1
    if o.key != ("ok", f"{want}\n"):
        return f"{x} {t} {m} should be {want}, observed {o!r}"


def sweeps(tier):
    lim = 120 if tier == "thorough" else 40
    big = [2**53 - 1, 2**53 + 1, 10**20, 10**20 + 1, 10**20 + 5, 10**25 + 7,
           2**64, 3 * 10**18 + 1]

    def law():
        for t in ROUND:
            for m in list(range(1, 14)) + [100, 2**53 + 1, 10**15]:
                for s in (1, -1):
                    for x in list(range(-lim, lim + 1)) + big + [
                            -b for b in big]:
                        yield (t, x, s * m)

    def pairs():
        for t in ROUND:
            for x in NUMS:
                yield (f"RP({t} a)", x)
                for m in STEPS:
                    yield (f"RP(a {t} b)", x, m)

    def quarters():
        for t in ROUND:
            for k in range(-lim, lim + 1):
                x = str(k / 4)
                yield (f"RP({t} a)", x)
                for m in ("1", "2", "0.5", "1.5", "3", "0.3"):
                    yield (f"RP(a {t} b)", x, m)

    def types():
        yield from unary(ROUND, VALUES)
        yield from binary(ROUND, VALUES)

    return [Sweep("integer-law", law, judge_law,
                  f"all |x| <= {lim} and large x 32 multiples"),
            Sweep("pairs", pairs, judge, f"{len(NUMS)} numbers x {len(STEPS)}"),
            Sweep("quarters", quarters, judge, f"all quarters up to {lim/4}"),
            differential("types", types, "every value pair")]
