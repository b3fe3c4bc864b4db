"""Predefined variables have their documented values until assigned."""
from ..lib import *
from .. import long

LEVEL = "model_checking"
UNSET = []
VARS = ["h", "i", "k", "l", "m", "n", "o", "p", "s", "t", "u", "v", "w", "x",
        "y", "z", "_", "B", "G", "AZ", "CZ", "PA", "PI", "VW", "VY", "XA",
        "XC", "XD", "XI", "XL", "XN", "XU", "XV", "XW", "XX", "XY"]
LOCAL = ["a", "b", "c", "d", "e", "f", "g", "$_", "$__", "$___"]
META = ["\\a", "\\b", "\\c", "\\d", "\\e", "\\f", "\\g"]
MATCH = ["$0", "$1", "$9", "$`", "$'", "$(", "$)", "$$", "$[", "$]"]
NAMES = VARS + LOCAL + META + MATCH + ["ZQ", "QQ"]
DOC = {   # straight from the documentation
    "h": "100", "i": "0", "k": '", "', "l": "[]", "m": "1000", "n": '"\n"',
    "o": "1", "p": '"()"', "s": '" "', "t": "10", "u": "()", "v": "-1",
    "w": "`\\s+`", "x": '""', "y": '""', "z": '"abcdefghijklmnopqrstuvwxyz"',
    "_": "{a}", "B": "{b}", "G": "{g}", "AZ": '"ABCDEFGHIJKLMNOPQRSTUVWXYZ"',
    "CZ": '"bcdfghjklmnpqrstvwxyz"', "PI": "3.141592653589793",
    "VW": '"aeiou"', "VY": '"aeiouy"', "XC": "`[bcdfghjklmnpqrstvwxyz]`",
    "XD": "`\\d`", "XI": "`-?\\d+`", "XL": "`[a-z]`", "XU": "`[A-Z]`",
    "XN": "`-?\\d+(?:\\.\\d+)?`", "XV": "`[aeiou]`", "XW": "`\\w`",
    "XX": "`.`", "XY": "`[aeiouy]`",
}


def judge_doc(case):
    v, wrap, args = case
    from .. import drv
    o = drv.run_real(wrap.replace("@@", v), [val(a).real for a in args])
    if o.key != ("ok", DOC[v] + "\n"):
        return (f"{v} should be {DOC[v]} at first / after WG in "
                f"{wrap.replace('@@', v)!r}: {o!r}")


def sweeps(tier):
    deep = tier == "thorough"

    def doc():
        for v in DOC:
            for w in ("RP @@", "({RP @@} 7 8)",
                      "@@:5 WG RP @@", "@@:5;(@@) ({WG} 3) RP @@",
                      "@@:[1;2] @@@1:3 WG RP @@",
                      "y:@@ @@:9 z:@@ WG RP @@", "WG WG RP @@",
                      "z:@@ WG RP @@", "V\"RP @@\"", "({@@:4 WG} 5) RP @@"):
                for args in ((), ("1", '"q"')):
                    yield (v, w, args)

    def reads():
        # what each variable is in each kind of place
        for v in NAMES + ["VN", "VD"]:
            for p in (f"RP {v}", f"P {v}", v, f"[{v}]", f"#{v}", f"{v}+1",
                      f"1.{v}", f"({{RP {v}}} 6)", f"RP[{v} ({{{v}}} 6)]",
                      f"V\"RP {v}\"", f"RP({v}@0)", f"I {v}{{P 1}}EL{{P 2}}",
                      f"F x {v}{{P RP x}}", f"{v}=1", f"({v} 1 2)",
                      f"RP({v} M [3;4])" if v in "_BG" else f"RP[{v};{v}]"):
                for args in ((), ("4",), ('"s"', "[5;6]", "7", "8", "9", "0")):
                    yield (p, args)
                    yield (p, args, "l")

    def stores():
        # assigning one variable changes that one, everywhere
        for v in NAMES:
            for e in ("7", "[1;2]", "()"):
                yield (f"{v}:{e} RP[{v} ({{{v}}} 6) V\"{v}\"]", ("4", "5"))
                yield (f"({{{v}:{e} P RP {v}}} 6) RP {v}", ("4", "5"))
                yield (f"{v}+:{e} P RP {v} U {v} RP {v}", ("4", "5"))
            for w in NAMES:
                yield (f"{v}:\"new\" RP {w}", ("4", "5"))
                if deep:
                    yield (f"{v}:\"new\" WG RP {w}", ("4", "5"))
                    yield (f"z:{w} {v}:[\"new\"] RP[z {w}]", ("4", "5"))
                    yield (f"[{v} {w}]:[1;2] RP[{v} {w}]", ("4", "5"))

    def wipes():
        menu = ["x:7", "WG", "a:8", "\\a:9", "y:x", "g@0:6", "\\g@0:5", "l PU 4",
                "(n 3)", "QQ:2", "\"ab\"~`b`", "n:{x:a WG x:b}", "i+:1", "_:{b}"]
        for t in seqs(menu, 1, 4 if deep else 3):
            yield (";".join(t) + ";RP[x y a \\a g \\g l i QQ _ $0 $`]",
                   ("1", "[2]"))
        for t in seqs(menu, 1, 2):
            yield ("z:{" + ";".join(t) + ";RP[x a g]};(z 1 2);"
                   "RP[x y a \\a g \\g l i QQ _ $0]", ("1", "[2]"))

    def scopes():
        # WG in a function leaves arguments, list of arguments and function
        names = ["a", "b", "c", "d", "e", "f", "g", "\\a", "\\g", "x", "i",
                 "l", "_", "$_", "q", "h"]
        for args in ("1", "1 2", "1 2 3", "1 2 3 4 5 6", "[1;2] [3]", ""):
            call = f"(m {args})" if args else "({m} 0)"
            for v in names:
                for body in (f"WG P RP {v}", f"WG WG P RP[{v} a b]",
                             f"P RP {v} WG P RP {v}", f"{v}:9 WG P RP {v}",
                             f"k:{{WG}} (k 7 8) P RP {v}",
                             f"V\"WG\" P RP {v}", f"L 2{{WG P RP {v}}}",
                             f"F n [5;6]{{WG P RP[n {v}]}}",
                             f"I a{{WG b:a}}P RP[{v} b]",
                             f"x:{{WG {v}}} P RP(x 5 6) P RP {v}",
                             f"WG {v}:7 P RP[a b {v}]",
                             f"WG [a b]:[b a] P RP[a b g {v}]"):
                    yield (f"x:4 m:{{{body}}} {call} RP[{v} x m]",
                           ("11", "12"))

    def classes():
        for k in range(32, 127):
            c = lit(chr(k))
            yield f"x:{c} RP[x~XA x~XC x~XD x~XL x~XU x~XV x~XW " \
                "x~XX x~XY x~XI x~XN x~w xNAZ xNCZ xNPA xNVW xNVY xNz]"
        for s in ("-12", "3.14", "--5", "a-1b", "1.2.3", ".5", "5.", "- 1",
                  "  ", "a b", "\t", "\n", "x\ny", "É", "٣"):
            yield f"x:{lit(s)} RP[x@XI x@XN x@w x@XD x@XW x@XX x@XA x~=XI " \
                  "x~=XN x^w x#=XW]"

    def blanks():
        # every line of up to three characters is read as it is
        for l in seqs([" ", "a", "\t", "\r", "\x0b", '"', "\u2028", "\x00"],
                      0, 3):
            l = "".join(l)
            yield ("RP q", (), "p", l)
            yield ("x:q RP[x #x q]", (), "p", l + "\n")
            yield ("RP[q q q]", (), "p", l + "\n" + l + "\nz")

    def lines():
        menu = ["P q", "P RP q", "x:q", "q:5", "#q", "P RP[q q]", "I q{P 1}",
                "F x q{P x}", "W y:q{P y}", "({q})", "L 2{P q}", "q+q"]
        for t in seqs(menu, 1, 3 if deep else 2):
            for inp in ("", "one", "one\ntwo\n", "1\n\n3\n4\n", "\n", "a b\n7"):
                yield (";".join(t) + ";RP[x y]", (), "p", inp)

    def judge_lines(c):
        return diff(c[0], c[1], c[2], c[3])

    return [Sweep("many", long.c25, judge_lines, "200 lines of input"),
            Sweep("documented", doc, judge_doc,
                  f"{len(DOC)} variables in 10 contexts"),
            differential("reads", reads, f"{len(NAMES)} variables, 16 uses"),
            differential("stores", stores, "all pairs of variables"),
            differential("wipes", wipes, f"all sequences of <= "
                         f"{4 if deep else 3} of 14 actions"),
            differential("scopes", scopes, "WG in functions"),
            differential("classes", classes, "all printable characters"),
            Sweep("blanks", blanks, judge_lines, "input lines of <= 3 odd"
                  " characters"),
            Sweep("input", lines, judge_lines, "all reads of standard input")]
