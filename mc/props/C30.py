"""Conversions between numbers, numerals and digit lists are inverse."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
ALPHA = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def numeral(n, b):
    s = ""
    m = abs(n)
    while m:
        s = ALPHA[m % b] + s
        m //= b
    return ("-" if n < 0 else "") + (s or "0")


def digits(n, b):
    d = []
    m = abs(n)
    while m:
        d.insert(0, (m % b) * (-1 if n < 0 else 1))
        m //= b
    return d


def judge_law(case):
    n, b = case
    a, bb = drv.build_real(str(n)), drv.build_real(str(b))
    num = numeral(n, b) if b <= 36 else None
    dig = "[" + ";".join(map(str, digits(n, b))) + "]"
    want = {"a TD b": dig, "(a TD b)FD b": str(n), "#(a TD b)":
            str(len(digits(n, b)))}
    if num is not None:
        want.update({"a TB b": num, "(a TB b)FB b": str(n),
                     "(LC(a TB b))FB b": str(n),
                     "(\"00\".(a TB b))FB b": str(n) if n >= 0 else None})
    if b == 2:
        want.update({"TB a": num, "TD a": dig, "FB TB a": str(n),
                     "FD TD a": str(n), "BL a": str(len(digits(n, 2)))})
    for src, w in want.items():
        if w is None:
            continue
        drv.STEPS[0] += 1
        o = drv.run_real(src, [a, bb], "p", cache=True)
        if o.key[0] != "ok" or o.out.strip().strip('"') != w:
            return f"{src!r} for a={n}, b={b} should be {w}: {o!r}"


def judge_digits(case):
    """FD weighs digits, including ones out of range; FB reads numerals."""
    ds, b = case
    n = 0
    for d in ds:
        n = n * b + d
    drv.STEPS[0] += 1
    o = drv.run_real("a FD b", [drv.build_real(tuple(map(str, ds))),
                                drv.build_real(str(b))], "p", cache=True)
    if o.key != ("ok", f"{n}\n"):
        return f"{list(ds)} FD {b} should be {n}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    two = texts(2, "TOBASE", "FROMBASE", "TODIGITS", "FROMDIGITS")
    one = texts(1, "TOBASE", "FROMBASE", "TODIGITS", "FROMDIGITS",
                "BITLENGTH")

    def laws():
        big = [10**9, 2**31 - 1, 2**32, 2**64, 10**20 + 7, 35**5, 36**6]
        ns = list(range(-70, 300 if not deep else 1500)) + big + \
            [-x for x in big]
        for n in ns:
            for b in range(2, 37):
                yield (n, b)
            for b in (37, 60, 100, 256, 1000):
                yield (n, b)
        for k in range(1, 80):
            for d in (-1, 0, 1):
                for b in (2, 8, 10, 16, 36, 64):
                    yield (2**k + d, b)

    def weights():
        for ds in seqs(range(-2, 4), 0, 4):
            for b in (2, 3, 10):
                yield (ds, b)

    def values():
        nums = VALUES + ['"-12"', '"ff"', '"FF"', '"1_0"', '" 7"', '"7 "',
                         '"0x1f"', '"0b11"', '"+5"', '"1.5"', '"zz"', '"Z"',
                         '"--1"', '"- 1"', '"٣"', '["10";["11";2]]', '"1e3"',
                         '[1;0;1]', '[-1;0;-1]', '["a";1]', '[[1;0];[1;1]]',
                         '[1;[0;1]]', '[1;()]', '255', '-255', '10.9', '-0.5',
                         '"9"', '"8"', '"102"', '"-"', '"\n1"']
        bases = ['2', '10', '16', '36', '37', '1', '0', '-1', '-10', '2.9',
                 '"x"', '""', '"16"', '()', '[2;16]', '[10;[2;8]]', '2,5',
                 '`a`', '{a}', '[]', '100', '[1;2]']
        for n in nums:
            for t in one:
                yield (f"RP({t} a)", (n,))
            for b in bases:
                for t in two:
                    yield (f"RP(a {t} b)", (n, b))

    def numerals():
        ds = "01289AFagz-. _"
        for t in seqs(ds, 0, 3):
            s = lit("".join(t))
            for b in ("2", "8", "10", "16", "36"):
                yield ("RP[a FB b]", (s, b))
            yield ("RP[FB a]", (s,))

    return [tree_sweep("TOBASE", "FROMBASE", "TODIGITS", "FROMDIGITS",
                       "BITLENGTH", deep=deep),
            large_sweep("TOBASE", "FROMBASE", "TODIGITS", "FROMDIGITS",
                        "BITLENGTH"),
            Sweep("inverse", laws, judge_law, "integers x all bases"),
            Sweep("weights", weights, judge_digits,
                  "all digit lists of <= 4 digits"),
            differential("values", values, "all kinds of operands"),
            differential("numerals", numerals, "all numerals of <= 3 of 14 "
                         "characters in 5 bases")]
