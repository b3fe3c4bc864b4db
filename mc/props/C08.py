"""Arithmetic and bitwise operators are exact on integers."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
INTS = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, -10, 12, 100, 255, -256,
        2**31, 2**53 - 1, 2**53 + 1, -(2**53 + 1), 2**64, 10**18 + 7,
        10**20, -10**25 - 3, 10**30 + 1]
REALS = ["0.5", "-0.5", "1.5", "2.5", "-2.5", "0.1", "3.0", "-0.0", "0.25",
         "1e400", "1.0e10", "1.e-7", "123456789.5", "1.e20"]
TEXTS = ["", "abc", "3abc", "-", "007", " 12 ", "1.5x"]
UN = texts(1, "ABS", "BITLENGTH", "BITWISENOT", "DEC", "INC", "DOUBLE",
           "HALVE", "HALVEUP", "INVERT", "NEG", "POS", "POW", "POWEROFTEN",
           "SIGN", "SQUARE", "MOD")
BIN = texts(2, "ABSOLUTEDIFF", "ADD", "BITWISEAND", "BITWISEOR",
            "BITWISEXOR", "DIV", "INTDIV", "MOD", "MUL", "POW", "POWEROFTEN",
            "SUB", "ROOT", "CAT", "STRMUL")


def judge(case):
    return diffv(case[0], case[1:])


LAWS = [
    ("x:(a//b)*b+a%b b?x=a&x==+a 1", "quotient and remainder recompose"),
    ("a+b-b==+a", "(a+b)-b is a"),
    ("(BN a)==-a-1", "bitwise complement of a is -a-1"),
    ("(a BA b)+(a BO b)==a+b", "and plus or is the sum"),
    ("(a BX b)==(a BO b)-(a BA b)", "xor is or minus and"),
    ("a*(b+1)==a*b+a", "multiplication distributes"),
    ("(a AD b)==AB(a-b)", "absolute difference"),
    ("b?(SG b)*(AB b)==+b 1", "sign times absolute value"),
    ("(a-b)==-(b-a)", "subtraction is antisymmetric"),
    ("(a*b)**2==(SQ a)*SQ b", "square of a product"),
    ("(a<b)=(b-a>0)", "order agrees with subtraction"),
    ("$+[a b a]==a+b+a", "fold of a sum"),
    ("b?(a*b)//b==+a 1", "a*b//b is a"),
    ("b?(0<=a%b*SG b)&AB(a%b)<AB b 1", "remainder has the divisor's sign"),
]


def judge_law(case):
    k, a, b = case
    prog, name = LAWS[k]
    o = drv.run_real(prog, [drv.build_real(a), drv.build_real(b)], "p",
                     cache=True)
    drv.STEPS[0] += 1
    if o.key != ("ok", "1\n"):
        return f"{name} fails for a={a} b={b}: {prog!r} gives {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    ints = [str(i) for i in INTS]
    small = [str(i) for i in range(-12, 13)]
    if deep:
        small = [str(i) for i in range(-60, 61)]
        ints += [str(s * 10**k + d) for k in (3, 9, 15, 40) for s in (1, -1)
                 for d in (-1, 0, 1)]
    pool = ints + REALS + TEXTS

    def un():
        for t in UN:
            for v in pool + small:
                yield (f"RP({t} a)", v)

    def bi():
        for t in BIN:
            for v in pool:
                for w in pool:
                    yield (f"RP(a {t} b)", v, w)
            for v in small:
                for w in small:
                    yield (f"RP(a {t} b)", v, w)

    def other():
        yield from unary(UN, VALUES)
        yield from binary(BIN, VALUES)

    def nested():
        p = ["0", "2", "-3", "7", "0.5", str(2**53 + 1)]
        ts = [t for t in BIN if t not in (".", "X")]
        for s in ts:
            for t in ts:
                if s in ("**", "E", "EE", "RT") and t in ("**", "E", "EE"):
                    continue
                for v in product(p, repeat=3):
                    yield (f"RP((a {s} b) {t} c)",) + v

    def huge():
        # integers of thousands of digits (Python limits them to 4300)
        ns = [f"{s}{m}E{k}{d}" for s in ("", "0-") for m in (3, 10)
              for k in (4298, 4299, 4300, 4301, 9000) for d in ("", "-1", "+7")]
        for n in ns:
            for e in ("#x", "x%97", "x//3%1000", "x*x%1009", "(-x)%10", "x@<9",
                      "x=x+1", "x>1", "(x BA 255)", "(x BX 1)%100", "#(x.x)",
                      "(x*7-x)%101", "U x%13", "BL x", "#(x TB 2)",
                      "#TB x", "(x TB 36)FB 36=x", "x//(x-1)", "x Q x.\"\"",
                      "AB x=x", "SG x", "x-x", "RP[x;x]@<5", "+x@>-3"):
                yield (f"x:{n} RP({e})",)

    def laws():
        for k in range(len(LAWS)):
            for a in ints + small:
                for b in ints + small:
                    yield (k, a, b)

    return [Sweep("unary", un, judge, f"{len(UN)} operators x number pool"),
            Sweep("binary", bi, judge,
                  f"{len(BIN)} operators x all pairs of {len(pool)} numbers"),
            differential("types", other, "the operators on every value pair"),
            Sweep("nested", nested, judge, "all operator pairs x 6^3 numbers"),
            Sweep("huge", huge, judge, "24 uses of 60 integers of about 2000 "
                  "to 9000 digits"),
            Sweep("laws", laws, judge_law,
                  f"{len(LAWS)} integer laws x all pairs of "
                  f"{len(ints + small)} integers")]
