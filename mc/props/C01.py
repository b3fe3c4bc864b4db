"""Scanning: every source text is split as the language defines."""
from ..lib import *
from .. import long
from ..env import scanning, errors
from ..ref.scan import scan as ref_scan, Incomplete
from .. import drv

LEVEL = "model_checking"


def real_scan(s):
    drv.IMPL[0] += 1
    with drv.Console():
        try:
            toks = scanning.scan(s)
        except errors.IncompleteSyntax:
            return "incomplete"
    return [None if t is None else (type(t).__name__, str(t)) for t in toks]


def judge(s):
    try:
        want = ref_scan(s)
    except Incomplete:
        want = "incomplete"
    drv.STEPS[0] += len(s)
    got = real_scan(s)
    drv.LAST[0] = hash(str(got))
    if got != want:
        return f"source {s!r}\nexpected {want}\nobserved {got}"
    return None


CLASSES = ["A", "E", "I", "a", "j", "1", ".", '"', "'", "`", "\\", "{", "}",
           ";", " ", "\n", "$", "+", "_", ":", "\u00e9", "\u0663"]
CORE = ["A", "a", "1", ".", '"', "`", "\\", "{", ";", " ", "\n", "}"]
SYMBOLIC = sorted({c for t in ALLOPS for c in t if not c.isalpha()}
                  | set("[](){};$\\'`_a1"))


def sweeps(tier):
    deep = tier == "thorough"

    def chars():
        for t in seqs(CLASSES, 0, 5 if deep else 4):
            yield "".join(t)

    def core():
        for t in seqs(CORE, 5, 6 if deep else 5):
            yield "".join(t)

    def symbols():
        for t in seqs(SYMBOLIC, 1, 4 if deep else 3):
            yield "".join(t)

    def letters():
        for t in seqs("EIPLAXZ", 1, 6 if deep else 5):
            yield "".join(t)
        ab = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        for x in ab:
            for y in ab:
                yield x + y
                yield "A" + x + y
                yield x + y + "C"
                yield x + " " + y
                yield f"$a{x}{y}"

    def names():
        for t in seqs("$a_B1z(`", 1, 5 if deep else 4):
            yield "".join(t)
        for t in seqs("12.a-e", 1, 6 if deep else 5):
            yield "".join(t)
        for t in seqs("\\abfgjz$\"", 1, 4):
            yield "".join(t)

    def every_char():
        for i in list(range(0x500)) + [0x2028, 0x3000, 0xfeff, 0x1f600,
                                       0x660, 0xff11, 0x2460]:
            for pre in ("", "a", "\n", "\\", "$", "'", "1"):
                yield pre + chr(i) + "b"

    def literals():
        body = ["a", '"', "`", "\\", "\n", ";", "{;", ";}", "  "]
        for t in seqs(body, 0, 4 if deep else 3):
            s = "".join(t)
            for q in ('"', "`", '\\"', "{;", ";", "a  ", "'"):
                yield q + s + "z"
                yield q + s + q[-1] + "z"
                yield q + s + (";}" if q == "{;" else '\\"') + "z"

    return [Sweep("long", long.c01, judge, "long sources"),
            Sweep("characters", chars, judge,
              f"all texts of <= {5 if deep else 4} chars over 22 classes"),
        Sweep("core", core, judge,
              f"all texts of 5..{6 if deep else 5} chars over 12 chars"),
        Sweep("symbols", symbols, judge,
              f"all texts of <= {4 if deep else 3} non-letter chars"),
        Sweep("letters", letters, judge, "all short uppercase runs"),
        Sweep("names", names, judge, "all short name/number/$/\\ texts"),
        Sweep("unicode", every_char, judge, "every char < U+0500 in context"),
        Sweep("literals", literals, judge, "all short literal bodies"),
    ]
