"""Warnings: showing them changes nothing but standard error."""
import re
import sys
import warnings

from ..lib import *
from .. import drv

LEVEL = "model_checking"
INF = "Iterating over an infinite Range"


AT_OPS = ("@", "@<", "@>", "H", "S", "TM")     # (1,())@-1 is just nil


def judge(case):
    src, args = (case, ()) if isinstance(case, str) else case
    r = run_ref(src, [val(a).ref for a in args], "p")      # may Skip
    quiet = drv.run_real(src, [val(a).real for a in args], "p")
    loud = drv.run_real(src, [val(a).real for a in args], "p", warn=True)
    what = f"{src!r} args {list(args)}"
    if loud.key != quiet.key:
        return f"{what}: {quiet!r} without warnings, {loud!r} with warnings"
    if quiet.key != r.key:
        return f"{what}: expected {r!r}, observed {quiet!r}"
    rest = [l for l in quiet.err.split("\n") if l and l != INF]
    if rest and quiet.kind == "ok":
        return f"{what}: standard error without -w: {quiet.err!r}"
    return None


def judge_state(body):
    """Warnings don't disturb the state of the program."""
    pre = "x:[1;2;3];y:\"ab\";z:5;i:0;"
    post = ";RP[x y z i l $0 $1 w]"
    return judge((pre + body + post, ()))


def judge_some(case):
    """Misuse is reported on standard error, and only with -w."""
    src, args = case
    loud = drv.run_real(src, [val(a).real for a in args], "p", warn=True)
    drv.STEPS[0] += 1
    if loud.kind != "ok" or not loud.err.strip():
        return f"{src!r} args {list(args)} should warn: {loud!r} {loud.err!r}"
    return judge(case)


def judge_none(case):
    """Correct programs don't warn."""
    src, args = case
    loud = drv.run_real(src, [val(a).real for a in args], "p", warn=True)
    drv.STEPS[0] += 1
    if loud.kind != "ok" or loud.err:
        return f"{src!r} args {list(args)} should not warn: {loud.err!r}"


def judge_python(case):
    """What Python has to say about the interpreter's doings is not shown."""
    src, args = case
    re.purge()
    for m in list(sys.modules.values()):
        getattr(m, "__dict__", {}).pop("__warningregistry__", None)
    (getattr(warnings, "_filters_mutated", None) or
     (lambda: 0))()
    # the code under test may itself replace the output of warnings; here it
    # goes wherever sys.stderr of the execution goes
    o = drv.run_real(src, [val(a).real for a in args], "p")
    drv.STEPS[0] += 1
    if o.kind == "ok" and o.err.strip() not in ("", INF):
        return f"{src!r} args {list(args)}: standard error {o.err!r}"


# nil is a proper result of these (no match; an empty program)
NIL_RESULT = {"@?", "~", "V", "PO", "DQ", "PK", "M", "MX", "MN", "N"}


# take an lvalue
ASSIGNING = {"ASSIGN", "SWAP", "POP", "PUSH", "PUSHBACK", "DEQUEUE", "PICK",
             "INC", "DEC", "YANK", "YANKPRINT", "YANKOUTPUT"}


# warn about an operand that they ignore or replace
PARTIAL = {"DC", "MS", "~=", "TR", "RA"}


def judge_nil(case):
    """An operator without a result for its operands says so: it warns
    exactly if nil is (part of) its result."""
    t, src, args = case
    run_ref(src, [val(a).ref for a in args], "p")          # may Skip
    o = drv.run_real(src, [val(a).real for a in args], "p", warn=True,
                     cache=True)
    drv.STEPS[0] += 1
    if o.kind != "ok":
        return None
    warned = [l for l in o.err.split("\n") if l and l != INF]
    if o.out == "()\n" and not warned and t not in NIL_RESULT:
        return f"{src!r} args {list(args)} gives nil without a warning"
    if (warned and "()" not in o.out and t not in PARTIAL
            and "[`a`]" not in args):
        return (f"{src!r} args {list(args)} warns but gives {o.out!r}:\n"
                + o.err)


def judge_same(case):
    """The same misuse of variables and of values warns the same number of
    times."""
    src, plain, args = case
    run_ref(src, [val(a).ref for a in args], "p")          # may Skip
    n = []
    for s in (src, plain):
        o = drv.run_real(s, [val(a).real for a in args], "p", warn=True,
                         cache=True)
        drv.STEPS[0] += 1
        if o.kind != "ok":
            return None
        n.append(len([l for l in o.err.split("\n") if l and l != INF]))
    if n[0] != n[1]:
        return f"{src!r} warns {n[0]} times, {plain!r} {n[1]}: args {args}"


def judge_count(case):
    """Destructuring warns exactly of missing and superfluous values."""
    src, args, want = case
    o = drv.run_real(src, [val(a).real for a in args], "p", warn=True)
    drv.STEPS[0] += 1
    n = len([l for l in o.err.split("\n") if l and l != INF])
    if o.kind != "ok" or n != want:
        return f"{src!r} args {args} should warn {want} times: {o.err!r}"


def sweeps(tier):
    deep = tier == "thorough"
    kinds = ['2', '-1.5', '"a"', '""', '0', '[]', '[1;2]', '0,3', '`a`',
             '{a}', '"ab"', '[`a`]', '["b";[1]]']

    def undefined():
        for t in deterministic(1):
            if t not in ("RE", "P", "O", "Y", "YP", "YO"):
                for v in kinds:
                    yield (t, f"RP({t} a)", (v,))
        for t in deterministic(2):
            for v, w in product(kinds + ['(1,())'] * (t not in AT_OPS),
                                repeat=2):
                yield (t, f"RP(a {t} b)", (v, w))
        for t in deterministic(3):
            if t not in ("?", "\\?"):
                for v, w, x in product(kinds if deep else kinds[::2],
                                       repeat=3):
                    yield (t, f"RP(a {t} b c)", (v, w, x))

    def operators():
        for t in deterministic(1):
            for v in VALUES:
                yield (f"RP({t} a)", (v,))
        for t in deterministic(2):
            for v, w in product(VALUES if deep else SMALL, repeat=2):
                yield (f"RP(a {t} b)", (v, w))
        for t in deterministic(3):
            for v, w, x in product(SMALL[::2], repeat=3):
                yield (f"RP(a {t} b;c)", (v, w, x))

    def constants():
        # operands that are no variables
        for t in deterministic(1):
            for v in VALUES:
                yield (f"RP({t} ({v}))", ())
                yield (f"RP({t}:({v}))", ())
        for t in deterministic(2):
            for v, w in product(SMALL if deep else SMALL[::2], repeat=2):
                yield (f"RP(({v}) {t} ({w}))", ())
                if v == w or deep:
                    yield (f"RP(({v}) {t}: ({w}))", ())
        for t in (":", "::", "PU", "PB", "PK", "+:", "AE:", "PE:"):
            for v, w in product(VALUES, repeat=2):
                yield (f"RP[(({v}) {t} ({w})) 7]", ())
                yield (f"x:({v}) {t} ({w}) RP x", ())

    def targets():
        ts = ["x", "x@1", "x@9", "x@\"a\"", "x@()", "y@0", "z@0", "u", "ZZ",
              "ZZ@1", "5", "\"s\"", "[x y]", "[x]@0", "x@[0;1]", "x@(0,2)",
              "(x)", "r", "q", "l@0", "`p`", "{a}", "x@1@0", "x@`a`", "$0",
              "i", "(x y)", "$_", "x+1"]
        fs = ["{}:9", "{}:[1;2]", "{}:()", "{}+:1", "U {}", "D {}", "PO {}",
              "DQ {}", "{} PU 1", "{} PB 1", "{} PK 0", "{} SW x", "Y {}", "-:{}",
              "{}.:\"a\"", "x:{}", "x@({})", "[{}]:[7]", "[{} z]:7"]
        for t in ts:
            for f in fs:
                yield f.format(t)

    def misuse():
        for s, *args in (
                ("1/0",), ("1%0",), ("5//0",), ("ZZ",), ("()@0",),
                ("a+1", "()"), ("a+1", "`a`"), ("#a", "()"), ("RV a", "()"),
                ("SQ a", "`a`"),
                ("x:[] x@0",), ("PO l",), ("DQ l",), ("l PK 0",),
                ("\"\"@0",), ("A\"\"",), ("C a", "-1"), ("LN 0",),
                ("RT-1",), ("RC[]",), ("RR 0",), ("1TB 1",), ("5FB 99",),
                ("4:5",), ("PO 5",), ("U 5",), ("5PU 6",), ("F i{a}{P i}",), ("L`a`{P 1}",), ("{a}M`a`",), ("[x y]:[1;2;3]",),
                ("[x y]:[1]",), ("ZZ@0:5",), ("z@():5",), ("x:[1] x@`a`:2",),
                ("RP(CH a)", "`a`"), ("[1;2]CB(-1)",)):
            yield (s, tuple(args))

    def fine():
        for s, *args in (
                ("a+1", "5"), ("x:[1;2];x@1:5;x", ), ("F i,3{P i}",),
                ("{a*2}M[1;2;3]",), ("$+,5",), ("l:[1] PO l",),
                ("[x y]:[1;2]",), ("RV a", '"abc"'), ("{a+b}FU[[1;2]]",),
                ("a@?b", '"abc"', '"z"'), ("W i<3{U i}",), ("UQ a", "()"),
                ("a&b", "()", "1"), ("u",), ("x.:5",), ("a R`b``c`", '"abc"'),
                ("5=a", "5"), ("\"\"^\",\"",),
                ("L()" "{P 1}",), ("a~`b`", '"abc"'), ("!a", "()"),
                ("[a b]", "()", "()"), ("RP a", "()"), ("P a", "[()]")):
            yield (s, tuple(args))

    uses = ["{}:9", "{}+:1", "U {}", "D {}", "PO {}", "DQ {}", "{} PU 1",
            "{} PB 1", "{} PK 0", "{} :: x", "y :: {}", "{}@0:1",
            "{}@(0,1):1", "{}@1+:2", "U({})@0", "PO {}@0", "DQ {}@0"]
    pre = "x:[1;2;3];y:\"ab\";z:5;"

    def impossible():
        for t in ("5", '"s"', "(5)", "`p`", "()", "x@()", "u@0", "[1;2]",
                  "x@`a`", "(2+3)", "#x", "q", "e@1", "w@0", "x@[();1]",
                  "k@()", "[5 x]", "[]", "`p`@0", '("a".z)', "(x=y)", "-z",
                  "x@4@0@()"):
            for f in uses + ["[{} y]:[1;2]"]:
                yield (pre + f.format(t), ())

    def possible():
        for t in ("(x)", "z@5", "v@0", "o@0", "k", "k@0", "x@1", "x", "y@0",
                  "y", "x@-1"):
            for f in uses + ["[{} y]:[1;2]", "F {} 0,1{{}}"]:
                if t in ("x", "(x)", "y", "y@0", "x@1", "x@-1") or "(0,1)" in f:
                    continue
                yield (pre + f.format(t), ())
        for t in ("(x)", "x", "y", "y@0", "x@1", "x@-1"):
            for f in ("{}:9", "{}+:1", "{}@0:1", "U {}", "D {}", "Y {}"):
                yield (pre + f.format(t), ())

    def same():
        ks = kinds + ["()", "(1,())"]
        for t in deterministic(2):
            op = OPS[2][t]
            if t in ("=:", ":") or op.fn in ASSIGNING:
                continue
            for v, w in product(ks, repeat=2):
                yield (f"RP(a {t} b)", f"RP(({{c}}1 2 a) {t} ({{c}}1 2 b))",
                       (v, w))
        for t in deterministic(1):
            if OPS[1][t].fn in ASSIGNING or t in ("RE",):
                continue
            for v in ks:
                yield (f"RP({t} a)", f"RP({t} ({{c}}1 2 a))", (v,))
        for t in deterministic(3):
            for v, w, x in product(ks[::2] + ["()"], repeat=3):
                yield (f"RP(a {t} b c)", f"RP(({{c}}1 2 a) {t} ({{c}}1 2 b)"
                       " ({c}1 2 c))", (v, w, x))

    def destructured():
        names = ["x", "y", "z@0", "w", "ZZ"]
        for n in range(1, 5):
            for v in seqs(["1", "()", "[]", '""'], 0, 4):
                want = (max(n - len(v), 0) if n >= len(v) else 1)
                lv = "[" + " ".join(names[:n]) + "]"
                yield (f"z:[9] {lv}:a", ("[" + ";".join(v) + "]",), want)
                if v:
                    yield (f"z:[9] {lv}:[" + " ".join(v) + "]", (), want)
                if v and n < 3:
                    yield (f"z:[9] F {lv} a {{}}",
                           ("[[" + ";".join(v) + "]]",), want)
        for n in range(1, 4):
            for k in range(4):
                yield (f"[{' '.join(names[:n])}]:a", (lit("abcd"[:k]),),
                       n - k if n >= k else 1)
                yield (f"[{' '.join(names[:n])}]:,{k}", (),
                       n - k if n >= k else 1)

    def python():
        cls = ["[[a]", "[a&&b]", "[a||b]", "[a~~b]", "[^[b]", "[&&]", "[]--]",
               "[\\d--b]", "[a[:b:]]", "[a--]", "a", "a**", "\\Q", "(?i)a",
               "a(?i)", "\\777", "[\\d-z]", "{", "a{,2}", "a{2}{3}", "\\8",
               "(?:a)", "(?#a)", "a++", "(?>a)", "\\-", "\\é", "\\ "]
        for t in deterministic(2):
            for c in cls:
                for s in ('"ab[-&|~"', '[["a"];"b"]', '`a`', '{a}', '2'):
                    yield (f"RP(a {t} b)", (s, f"`{c}`"))
                    yield (f"RP(b {t} a)", (s, f"`{c}`"))
        for t in deterministic(1):
            for c in cls:
                yield (f"x:({t} a) RP[x \"ab\"~x]", (f"`{c}`",))
        for t in deterministic(3):
            for c in cls:
                for s in ('"ab"', '{a}', '`b`', "1"):
                    yield (f"RP(a {t} b c)", ('"ab[-"', f"`{c}`", s))
                    yield (f"RP(a {t} b c)", ('"ab[-"', s, f"`{c}`"))
                    yield (f"RP(a {t} b c)", (f"`{c}`", '"ab[-"', s))
        for c in cls:
            yield (f"L\"ab[-\"`{c}`{{RP$0}}", ())
            yield (f"RV`{c}`", ())

    return [Sweep("python", python, judge_python,
                  "no warnings of Python's with odd patterns"),
            Sweep("impossible", impossible, judge_some,
                  "every assigning use of every impossible target warns"),
            Sweep("possible", possible, judge_none,
                  "assigning uses of possible targets don't warn"),
            Sweep("operators", operators, judge, "all operators on values of "
                  "all types"),
            Sweep("constants", constants, judge, "operands that are no "
                  "variables"),
            Sweep("targets", targets, judge_state, "29 targets x 19 uses"),
            Sweep("undefined", undefined, judge_nil,
                  "nil results warn, others don't, on all kinds of operands"),
            Sweep("same", same, judge_same,
                  "variables and values warn alike"),
            Sweep("destructured", destructured, judge_count,
                  "all destructuring assignments of <= 4 values"),
            Sweep("misuse", misuse, judge_some, "misuse warns"),
            Sweep("fine", fine, judge_none, "correct use does not warn")]
