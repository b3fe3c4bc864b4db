"""Data survives repr and eval unchanged."""
from ..lib import *
from .. import drv
from ..drv import V, val, run_real
from ..env import ptypes

LEVEL = "model_checking"


def roundtrip(ref, text):
    """ref: the value; text: how the case is shown."""
    real = drv.build_real(ref)
    bad = diffv("RP a", [ref])
    if bad:
        return bad
    o = run_real("x:V RP a [x==a; (RP x)Q(RP a); !(x==[a])]", [real], "p",
                 cache=True)
    if o.key != ("ok", "[1;1;1]\n"):
        return f"value {V.rep(ref)}: evaluating its repr gives {o!r}"
    for fmt in (None, "n", "s", "P"):
        p = run_real("x:V RP a x==a", [real], fmt, cache=True)
        if p.key != ("ok", "1\n"):
            return (f"value {V.rep(ref)} does not survive repr/eval under "
                    f"list format {fmt}: {p!r}")
    return None


def judge_text(s):
    return roundtrip(s, s)


def judge_src(src):
    return roundtrip(val(src).ref, src)


def judge_pattern(case):
    body, flags = case
    src = flags + "`" + body + "`"
    if drv.run_ref(src).kind == drv.SYNTAX or drv.run_ref(
            "RP " + src).kind != drv.OK:
        raise Skip
    return roundtrip(val(src).ref, src)


ATOMS = ['1', '-1', '"-01"', '3.5', '""', '"a"', '\\"x\\"', '()', '0,3',
         '(1,())', '(),2', '`a`', '-`"`', '{a}', '{-_+1}', '"\n"', '" "']


def sweeps(tier):
    deep = tier == "thorough"
    chars = '"\\`\'\n-01.ea; }$,_'

    def strings():
        for t in seqs(chars, 0, 5 if deep else 4):
            yield "".join(t)

    def numeric():
        for t in seqs("01-.e+9", 5, 6 if deep else 5):
            yield "".join(t)

    def characters():
        for c in list(range(0x250)) + [0x2028, 0x1f600, 0x660, 0xd800]:
            yield chr(c)
            yield "1" + chr(c)
            yield chr(c) + "\""

    def nested():
        one = ["[" + ";".join(t) + "]" for t in seqs(ATOMS, 0, 2)]
        yield from ATOMS
        yield from one
        for a in one:
            for b in ATOMS:
                yield f"[{a};{b}]"
                yield f"[{b};{a}]"
            yield f"[{a}]"
            yield f"[[{a}]]"
            yield f"[{a};{a}]"

    def ranges():
        for lo in ["()"] + [str(i) for i in range(-4, 5)] + [str(10**20)]:
            for hi in ["()"] + [str(i) for i in range(-4, 5)]:
                yield f"({lo},{hi})"
                yield f"[({lo},{hi})]"

    def patterns():
        for t in seqs('a\\"\n(;[.)', 0, 4 if deep else 3):
            for f in ("", "-", ",", ".", "A", "-,", ".A", "-,.A"):
                yield ("".join(t), f)
        for t in seqs('a\\`', 0, 5):
            yield ("".join(t), "")

    return [Sweep("large", lambda: iter(LARGE + [f"[{v};{v}]" for v in LARGE]),
                  judge_src, "large values"),
            Sweep("strings", strings, judge_text,
                  f"all strings of <= {5 if deep else 4} of {len(chars)} chars"),
            Sweep("numeric", numeric, judge_text,
                  "all number-like strings of 5(-6) chars"),
            Sweep("characters", characters, judge_text,
                  "every character below U+0250"),
            Sweep("nested", nested, judge_src,
                  "all lists up to depth 3 over 17 atoms"),
            Sweep("ranges", ranges, judge_src, "all ranges with |bound| <= 4"),
            Sweep("patterns", patterns, judge_pattern,
                  "all pattern literals of <= 3-4 chars x flags")]
