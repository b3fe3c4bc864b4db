"""Runs are independent: earlier runs never influence later ones."""
from ..lib import *
from .. import drv
from .C36 import judge as judge_repl
from .C37 import run_pip

LEVEL = "model_checking"
ARGS = ("[1;[2;3]]", '"ab"', "5")
PROGRAMS = [
    "a", "a@0:9 a", "l PU 1;l", "x PB 1;x", "x:a x@1@0:7 [x a]", "w:`q` w",
    "_:{b} {_}M[1 2]", "\"ab\"~`(.)(.)` $1", "$1", "$0.$2", "i:5 U i i",
    "i", "P 1 2", "$_", "1 2 3 $__", "f:{x:9 (f)} x", "ZZ:4 ZZ", "ZZ",
    "\\a:3 \\a", "\\a", "g@0:8 g", "g", "h+:1 h", "WG h", "z@3:0 z", "r:3",
    "k:l k", "s:\"-\" s", "V\"c:2\" c", "c", "{c:a}M,3 c", "y:g y@0@1:0 [y g]",
    "Y a@1 y", "PI:3 PI", "XA:1 XA", "XA", "AZ@0:1 AZ", "AZ", "5/0", "(",
    "#(1,())", "({f}1)", "F i a{P i} i", "W i<3{U i} i", "q", "x:q x",
    "SN a b", "UQ a", "\"a.b\"^`\\.`", "-`B`~b", "A`\\w`", "`(a)`R b`\\1`",
    "m:{a} (m 3)", "m", "[x y]:[1 2] y", "y", "t:0 L t{P 1} t", "t", "PO a",
    "DQ a;a", "l:[1;2] l@-1:l l", "({g PU 1 g}a b)", "G", "B", "(B 1 2)",
    "n:1 n", "P a n", "RP f", "RP \\f", "p", "u:1 u", "u", "v", "o+:o o",
]
FMTS = [None, "p", "n", "P", "S"]


def snapshot(vs):
    return [(type(v), repr(v)) for v in vs]


def judge_pair(case):
    """The second program is not influenced by the first."""
    first, second = case
    for f, g in ((None, "p"), ("p", None)):
        want = [run_ref(s, [val(a).ref for a in ARGS], fmt, "in1\nin2")
                for s, fmt in ((first, f), (second, g), (first, f))]
        got = [drv.run_real(s, [val(a).real for a in ARGS], fmt, "in1\nin2",
                            cache=True)
               for s, fmt in ((first, f), (second, g), (first, f))]
        for s, w, o in zip((first, second, first), want, got):
            if w.key != o.key:
                return (f"{s!r} in the runs {first!r}, {second!r}, {first!r}:"
                        f" {o!r}, expected {w!r}")


def judge_patterns(case):
    """The second program is not influenced by the first."""
    first, second, text = case
    for src in (first, second, first + ";" + second, first):
        w = run_ref(src, [val(text).ref], "p")
        o = drv.run_real(src, [val(text).real], "p", cache=True)
        if w.key != o.key:
            return (f"{src!r} of {text} after {first!r}, {second!r}: {o!r}, "
                    f"expected {w!r}")


def judge_args(case):
    """The caller's arguments are the same afterwards."""
    src, args = case
    real = [val(a).real for a in args]
    before = snapshot(real)
    o = drv.run_real(src, real, "p", cache=True)
    if snapshot(real) != before:
        return f"{src!r} changed its arguments {before} to {snapshot(real)}"
    p = drv.run_real(src, real, "p", cache=True)
    r = run_ref(src, [val(a).ref for a in args], "p")
    if not o.key == p.key == r.key:
        return f"{src!r}: {o!r}, then {p!r}, expected {r!r}"


def judge_tree(src):
    """A parse tree can be run many times."""
    a = [drv.run_real(src, [val(x).real for x in ARGS], "p", "1\n2",
                      cache=True) for _ in range(3)]
    r = run_ref(src, [val(x).ref for x in ARGS], "p", "1\n2")
    if any(x.key != r.key for x in a):
        return f"{src!r} run 3 times gives {a}, expected {r!r}"


def judge_shared(case):
    """Two states alive at the same time are separate (but for the list
    format, which belongs to the last one)."""
    first, second = case
    E, P, S = drv.execution, drv.parsing, drv.scanning
    out = []
    with drv.Console("") as c:
        one, two = E.ProgramState("p"), E.ProgramState("p")
        for st, src in ((one, first), (two, second), (one, first),
                        (two, second)):
            try:
                st.executeProgram(P.parse(S.scan(src)),
                                  [val(a).real for a in ARGS])
            except drv.Timeout:
                raise
            except Exception:
                pass
            out.append(c.out.getvalue())
            c.out.seek(0)
            c.out.truncate()
    drv.IMPL[0] += 4
    want = [run_ref(s, [val(a).ref for a in ARGS], "p").out
            for s in (first, second)] * 2
    if out != want:
        return f"states running {first!r} and {second!r}: {out}, not {want}"


def judge_pip(case):
    """pip() runs with different options in one process."""
    runs = case
    for argv, fmt in runs:
        o = run_pip(argv[0], list(argv[1:]), "")
        r = run_ref(argv[0], ["[1;[2;3]]", "s"], fmt)
        if "-x" in argv:
            r = run_ref(argv[0], [val("[1;[2;3]]").ref], fmt)
        if o.out != r.out:
            return f"runs {runs}: {argv} prints {o.out!r}, expected {r.out!r}"
        warns = "-w" in argv or "-wp" in argv
        if not warns and r.kind == "ok" and o.err:
            return f"runs {runs}: {argv} warns {o.err!r}"
        if warns and "ZQ" in argv[0] and not o.err:
            return f"runs {runs}: {argv} does not warn"


def sweeps(tier):
    deep = tier == "thorough"

    def pairs():
        yield from product(PROGRAMS, repeat=2)

    def args():
        muts = ["{}@0:9", "{} PU 7", "PO {}", "DQ {}", "{} PK 0", "U {}",
                "{}+:1", "{}@1@0:4", "x:{} x@0:5", "Y{} y@1@0:3", "{} PB {}",
                "F i {}{{i:5}}", "{{a@0:1}}M {}", "g@0@0:6", "\\a@0:2",
                "x:[{}] x@0@0:8", "[{} x]:[{}@1 3]", "({{a@0:9 a}}{})",
                "{} SW y", "V\"{}@0:1\"", "SN {}",
                "{}RA 0\"z\"", "{}:RV {}", "{}@(0,1):\"k\"", "RV*{}",
                "\\g PU 1", "{}@-1:{}", "LR`.`{}{{{}.:1}}", "WV[{}{}]",
                "{}.:{}", "PO{}@1" ]
        for m in muts:
            for n in muts if deep else muts[::3]:
                for v in ("[1;[2;3];4]", '"abc"', "0,4", "`a`", "()", "{a}",
                          "[[1;2];[[3]];\"x\"]"):
                    t = m.format(*"aaaa") + ";" + n.format(*"aaaa") + ";[a g]"
                    yield (t, (v, "[v]"))

    def patterns():
        # one pattern text with different flags, in every use of a pattern
        pats = ["`{}`", "-`{}`", "A`{}`", ".`{}`", "K`{}`", "-A`{}`",
                "-.`{}`", "(\"{}\"R\"#\"`x`)", "`{}`+``", "X\"{}\"",
                "\"{}\""]
        uses = ["RP({} ~ t)", "RP(t @ {})", "RP(t ^ {})", "RP(t R {} \"<\")",
                "RP({} N t)", "RP(t @? {})", "RP(t @* {})", "L{} t{{P$0}}",
                "RP(t R {} {{a.a}})", "RP(t RM {})", "RP({} ~ t $0 $1)"]
        for body, t in (("(b).", "aBb1b\n2"), ("^b|\\w$", "aA\nbB\nB"),
                        ("[a-b]", "AabB")):
            for u in uses:
                for p, q in product(pats if deep else pats[:9], repeat=2):
                    one = ("t:a " + u.format(p.format(body)),
                           "t:a " + u.format(q.format(body)))
                    if p != q:
                        yield one + (lit(t),)

    def failures():
        # programs one after the other in one state, as on the REPL: a fatal
        # error at any depth must leave nothing open
        die = '"a"~`(`'
        bad = ["({x:5 %s}2)", "({a:9 ({b %s}3 4)}2)", "(f 6)", "{%s}M,3",
               "Fi,3{x:i %s}", "({Fa,3{({%s}a)}}1)", "W 1{({%s}1)}", "V\"%s\"",
               "[({a %s}1) 2]", "x:[({%s}1)]", "{x:a %s}FI,2", "$+[({%s}7)]",
               "\"ab\"R`.`{a %s}", "L`a`\"ab\"{({%s}4)}", "P({%s}1)",
               "({V\"%s\"}5)", "{%s}MM[[1]]", "(g 1)", "a:3 ({a:2 (g 1)}8)",
               "({g PU 1 %s}2)", "{%s}SK[2 1]", "F i[1 2]{({i %s}i)}"]
        bad = [b.replace("%s", die) for b in bad]
        ok = ["a", "[a b g]", "x", "({a}3)", "i", "a:7 a", "[x y]:[1 2] y",
              "$_", "({[a g]}3 4)", "\\a", "\\g", "{a}M,2", "$0", "WG a",
              "h:{a} (h 2)", "({\\a}6)", "({({\\a}1)}6)"]
        for b in bad:
            for s in seqs(ok, 1, 2):
                yield ("a:4", "f:{x:a %s}" % die, "g:{b:a (f a)}", b) + s
            for c in bad:
                for s in ok:
                    yield ("a:4", "f:{x:a %s}" % die, "g:{b:a (f a)}", b, c,
                           s, "[a g]")

    def trees():
        bodies = ["x PU 1", "x:[1 2] x@0:5 x", "\"abc\"@1:\"z\"", "[1 2]@0:9",
                  "x:\"abc\" x@1:\"z\" x", "f:{l:[0] l PB a l} (f 1)",
                  "{[1 2]}", "x:{[1;2]} y:(x) y@0:9 (x)", "`a`+`b`",
                  "x:`a` x.:`b` x", "F i [1 2 3]{l PB i} l", "\"\\a\"",
                  "\\\"<\\i>\\\"", "i+:1 i", "$+:x", "{a+1}+{a*2}",
                  "x:{a}+1 x+:2 (x 3)", "V\"x:[1];x@0:2\" x", "1,5@1:9",
                  "x:1,5 x@1:9 x", "x:'a x@0:\"bc\" x", "10@0:2"]
        for a in bodies:
            yield a
            for b in bodies:
                yield a + ";" + b
                yield "{" + a + "}M[1 2]" + ";" + b

    def shared():
        yield from product(PROGRAMS[::1 if deep else 2], repeat=2)

    def options():
        base = [(("a", "[1;[2;3]]", "s"), None)]
        runs = [(("[1 [2 3]]", "[1;[2;3]]", "s"), None),
                (("[1 [2 3]]", "-p", "[1;[2;3]]", "s"), "p"),
                (("[1 [2 3]]", "-S", "[1;[2;3]]", "s"), "S"),
                (("[ZQ [2 3]]", "-w", "[1;[2;3]]", "s"), None),
                (("[ZQ [2 3]]", "-wp", "[1;[2;3]]", "s"), "p"),
                (("[a [2 ZQ]]", "[1;[2;3]]", "s"), None),
                (("a", "-x", "[1;[2;3]]"), None),
                (("a", "-x", "-p", "[1;[2;3]]"), "p"),
                (("(", "-p", "[1;[2;3]]", "s"), "p"),
                (("(", "-w", "[1;[2;3]]", "s"), None),
                (("#(1,())", "-n", "[1;[2;3]]", "s"),
                 "n"),
                (("l PU 1;l", "-l", "[1;[2;3]]", "s"), "l")]
        for t in seqs(base + runs, 1, 3):
            yield t

    return [Sweep("pairs", pairs, judge_pair, f"all pairs of {len(PROGRAMS)} "
                  "programs, each pair in 2 formats"),
            Sweep("arguments", args, judge_args, "all pairs of changes"),
            Sweep("patterns", patterns, judge_patterns, "all pairs of flags "
                  "of 3 patterns in 11 uses"),
            Sweep("failures", failures, judge_repl, "22 kinds of failing "
                  "lines, then others"),
            Sweep("trees", trees, judge_tree, "each tree run three times"),
            Sweep("states", shared, judge_shared, "two states at a time"),
            Sweep("options", options, judge_pip, "all sequences of <= 3 runs "
                  "of 13 command lines")]
