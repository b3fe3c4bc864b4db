"""Code as data: the repr of a function is source for an equal function."""
from ..lib import *
from . import C03
from .. import drv
from ..drv import run_real

LEVEL = "model_checking"

ARGS = ("3", "2", "[4;5]")


def judge(code):
    """{code}, V RP {code} and V RP V RP {code} look and act the same."""
    bad = diff("RP{" + code + "}")
    if bad or ref_parse_fails(code):
        return bad
    direct = run_ref(code)
    args = [val(a).ref for a in ARGS]
    one = run_real("f:{" + code + "} P(f a b c) [x y i]",
                   [val(a).real for a in ARGS], "p")
    two = run_real("f:V RP{" + code + "} P(f a b c) [x y i]",
                   [val(a).real for a in ARGS], "p")
    if one.key != two.key:
        return (f"function {{{code}}} called with {ARGS}\n"
                f"directly: {one!r}\nthrough its repr: {two!r}")
    if direct.key != one.key:
        return f"function {{{code}}}: expected {direct!r}, observed {one!r}"
    fix = run_real("f:{" + code + "} g:V RP f ((RP f) Q (RP g)) & (g==V RP g) & (!f)=(!g)", [], "p")
    if fix.key != ("ok", "1\n"):
        return f"V RP {{{code}}} is not the same function: {fix!r}"
    return None


def ref_parse_fails(code):
    return drv.run_ref("{" + code + "}").kind == drv.SYNTAX


def run_ref(code):
    return drv.run_ref("f:{" + code + "} P(f a b c) [x y i]",
                       [val(a).ref for a in ARGS], "p", "", 4000)


def judge_built(case):
    """Blocks built by operators from blocks and values."""
    src, args = case
    bad = diff("RP(" + src + ")", args)
    if bad:
        return bad
    drv.run_ref(f"f:({src}) (f c b)", [val(a).ref for a in args], "p", "",
                4000)     # skips the case if it does not terminate
    one = run_real(f"f:({src}) (f c b)", [val(a).real for a in args], "p")
    two = run_real(f"f:V RP({src}) (f c b)", [val(a).real for a in args], "p")
    if one.key != two.key:
        return (f"function {src} with {args}\n"
                f"directly: {one!r}\nthrough its repr: {two!r}")


LITS = ["1", "3.5", '""', '"a;b"', "'x", "';", "' ", "'}", "'\"", "`a`",
        "`\\``", '\\"a"b\\"', '\\"x\\x\\"', '\\"\\\\x\\"', "()", "[]", "[1 2]",
        "{}", "{a}", "(a)", "(a b)", "$a", "x", "AZ", "\\a", "$_", "$1"]


def sweeps(tier):
    deep = tier == "thorough"
    safe_bin = [t for t in sorted(OPS[2]) if OPS[2][t].fn not in RANDOM_FNS]
    safe_un = [t for t in sorted(OPS[1])
               if OPS[1][t].fn not in RANDOM_FNS | {"RECURSE"}]
    lb = C03.levels({t: OPS[2][t] for t in safe_bin})

    def literals():
        for a in LITS:
            yield a
            yield "x:" + a
            yield a + ";"
            for b in LITS:
                yield f"{a};{b}"
                yield f"{a} . {b}"
                yield f"[{a} {b}]"
                yield f"({a};{b})"
                yield f"{{{a}}};{b}"
                yield f"a?{a};{b}"
                yield f"I a {a} EL {b}"

    def operators():
        for t in safe_bin:
            yield f"a {t} b"
            yield f"x:c x {t}: b x"
            yield f"$ {t} c"
            yield f"\\$ {t} c"
            for y in lb:
                yield f"a {t} b {y} 1"
                yield f"a {t} (b {y} 1)"
        for t in safe_un:
            yield f"{t} a"
            if t + "*" not in ALLOPS:
                yield f"{t}* c"
            yield f"x:c {t}: x x"
            for y in lb:
                yield f"{t} a {y} b"
                yield f"{t} (a {y} b)"
        for t in OPS[3]:
            if OPS[3][t].fn not in RANDOM_FNS:
                yield f"a {t} b c"
                yield f"a {t} (b {t} 1 2) c"

    def commands():
        bodies = ["", "x:1", "P a", "x:1 y:2", "U x;P x", "{a}", "'}", "I b P 1"]
        for b in bodies:
            for h in ("I a", "F i c", "L 2", "F[x y][[1 2]]", "LR `.`\"ab\"",
                      "W i<2"):
                inc = "U i;" if h[0] == "W" else ""
                yield f"{h}{{{inc}{b}}}"
                yield f"{h}{{{inc}{b}}}x"
                yield f"{h}{{{inc}{b}}};P a;b"
                if h[0] == "I":
                    for e in bodies:
                        yield f"I a{{{b}}}EL{{{e}}}x"
                        yield f"I !a{{{b}}}EI b{{{e}}}EL{{y:3}}x.y"
            yield f"T i>2{{U i;{b}}}x"
            yield f"WG;{b}"

    def built():
        vs = ["-1", "-2.5", "1", '"a"', "`a`", "[1;2]", "1,4", "()",
              '["-1";-3]', '";"', '"\'"', '{_}']
        for t in safe_bin:
            if OPS[2][t].flags & 16:
                for v in vs:
                    yield (f"_ {t} a", (v, "3", "4"))
                    yield (f"a {t} _", (v, "3", "4"))
                    yield (f"a {t} _ {t} b", (v, "3", "4"))
                yield (f"{{a}} {t} B", ("1", "2", "3"))
                yield (f"{{x:1 a}} {t} {{P 5 b}}", ("1", "2", "3"))
                yield (f"$ {t} _", ("1", "2", "[3;4;5]"))
                yield (f"- _ {t} - B", ("1", "2", "3"))
        for t in safe_un:
            if OPS[1][t].flags & 16:
                yield (f"{t} _", ("1", "2", "3"))
                yield (f"{t} {t} _", ("1", "2", "3"))
                yield (f"{t} {{x:1 a.x}}", ("1", "2", "3"))
                if t + "*" not in ALLOPS:
                    yield (f"{t}* _", ("1", "2", "[3;4]"))
                for v in vs:
                    yield (f"{t} (_ + a)", (v, "3", "4"))
        for v in ["-`a`", "A`a`", ",`a`", ".`a`", "-,.`a`", "A-`.`", "``",
                  "`\\\\`"]:
            for t in ("+", ",", ".", "~", "N", "@", "^"):
                yield (f"_ {t} {v}", ("1", "2", '"ab"'))
                yield (f"{v} {t} _", ("1", "2", '"ab"'))

    def sequences():
        menu = ["x:a", "P x", "{a}", "I b{x:2}", "';", "a-b", "[a b]", "y"]
        for t in seqs(menu, 1, 5 if deep else 4):
            yield ";".join(t)

    return [Sweep("literals", literals, judge, "all pairs of 27 operands"),
            Sweep("operators", operators, judge,
                  "every operator, with one of every precedence level"),
            Sweep("commands", commands, judge, "all command shapes"),
            Sweep("built", built, judge_built,
                  "every function-building operator x values"),
            Sweep("sequences", sequences, judge,
                  "all statement sequences over 8 statements")]
