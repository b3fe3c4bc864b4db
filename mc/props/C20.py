"""Assignment stores exactly in its target."""
from ..lib import *
from .. import long

LEVEL = "model_checking"
CUR = ['"abc"', '[1;2;3]', '[[1;2];"cd";4]', '0,4', '5', '""', '[]', '()',
       '`ab`', '{a}', '(2,())', '[1,4;[5,7]]']
NEW = ['9', '"XY"', '[7;8]', '()', '1,3', '[]', '""', '`p`', '{b}']
IX = ["0", "1", "-1", "5", "(0,2)", "(1,())", "((),1)", "(2,2)", "(-2,9)",
      '"x"', "[0;1]", "()", "`a`", "1.5", "(3,1)", "(0,0)", "(-1,-3)"]


def sweeps(tier):
    deep = tier == "thorough"

    def indexed():
        for c in CUR:
            for ix in IX:
                for v in NEW:
                    yield (f"x:a y:x x@{ix}:b RP[x y a]", (c, v))
                    yield (f"x:a (x {ix}):b RP[x a]", (c, v))

    def nested():
        for c in ['[[1;2];"cd";4]', '[[[1]];[[2;3];"ef"]]', '["abc"]',
                  '[0,4;[2,5]]', '"xyz"', '[1]']:
            for i in ("0", "1", "-1", "(0,2)"):
                for j in ("0", "1", "-1", "(0,2)", "(1,9)"):
                    for v in NEW:
                        yield (f"x:a y:x (x {i} {j}):b RP[x y]", (c, v))
                        yield (f"x:a x@{i}@{j}:b RP[x]", (c, v))
                    yield (f"x:a (x {i} {j} 0):5 RP[x]", (c,))
        for c in ['[[1;2];[3;4]]', '["ab";"cd"]', '[[[1;2]];[[3];4]]',
                  '[0,3;1,4]', '[[1;2];"cd"]']:
            for i in range(-5, 5):
                for j in range(-5, 5):
                    yield (f"x:a y:x (x {i} {j}):9 RP[x y]", (c,))
                    yield (f"x:a y:x x@({i})@({j})+:9 RP[x y]", (c,))
                    if -3 <= j <= 3:
                        for k in (-4, -1, 0, 3):
                            yield (f"x:a y:x (x {i} {j} {k}):9 RP[x y]", (c,))
                            yield (f"x:a y:x (x {i} {j} {k})::y RP[x y]", (c,))

    def forms():
        tg = ["@x", "x@<2", "x@>1", "x@<0", "H x", "S x", "x H 2", "x S 2",
              "@>x", "@<x", "(x@<2)@0", "@(x@>1)", "(H x)@-1", "x@>1@<1",
              "x@<-1", "x S 0", "x H 9", "(x 0)@0", "(x)", "((x))", "Yx",
              "x:5", "U x", "(x PU 4)", "(x PB 4)", "V\"x\"", "(1?x z)",
              "(0?x z)", "{x}", "({x})", "(V{x})", "5", "x+1", "[x]", "x@y",
              "(x y)", "x@y@0", "x::y", "(x::y)", "(y:x)", "(U y)", "x@U y",
              "D x", "(x+:y)", "(x|z)", "(x\\|z)", "(0\\?x z)"]
        for t in tg:
            for c in CUR:
                for v in NEW[:6]:
                    yield (f"x:a y:1 {t}:b RP[x y z]", (c, v))
            for c in CUR[:6]:
                yield (f"x:a y:1 {t}+:2 RP[x y z]", (c,))
                yield (f"x:a y:1 U {t} RP[x y z]", (c,))
                yield (f"x:a y:1 ({t})::(y) RP[x y z]", (c,))
                yield (f"x:a y:1 RP[({t}):7 x y]", (c,))

    def lists():
        tl = ["[x y]", "[x]", "[x y z]", "[x x]", "[x [y z]]", "[[x y] z]",
              "[(x 0) y]", "[x@0 x@1]", "[x (x 0)]", "[y x@y]", "[]",
              "[x 1]", "[a b]", "[i o]", "[x y]@0", "[x y]@(0,1)",
              "[x y z]@>1", "[x y z]@<2", "@[x y]", "H[x y z]", "[(y x)]",
              "[l x]", "[$1 $_]", "[\\a x]", "[x;[y;[z]]]"]
        vals = ["[1;2]", "[1]", "[1;2;3;4]", "[[1;2];3]", "[1;[2;3]]", '"pq"',
                "5", "()", "0,3", "(1,())", "`ab`", "{a}", "[]",
                "[[];[[7;8]]]"]
        for t in tl:
            for v in vals:
                yield (f"x:\"abc\" y:1 {t}:a RP[x y z i o l $1 $_]", (v,))
                yield (f"x:[4;5] y:1 RP[{t}:a x y]", (v,))
                yield (f"x:[4;5] y:0 {t}+:a RP[x y z]", (v,))
        for t in tl[:12]:
            for u in tl[:12]:
                yield f"x:[3;4] y:1 z:[5;6] {t}:{u} RP[x y z]"
                yield f"x:[3;4] y:1 z:[5;6] {t}::{u} RP[x y z]"

    def swaps():
        tg = ["x", "y", "x@0", "x@1", "(x 1 0)", "y@0", "x@(0,2)", "z", "5",
              "[x y]", "@y", "x@<1", "(l 0)"]
        for a in tg:
            for b in tg:
                for v in ("[1;[2;3];4]", '"abc"'):
                    for w in ('"uv"', "[7;8]", "0,3"):
                        yield (f"x:a y:b {a}::{b} RP[x y z l]", (v, w))

    def special():
        for t in ["q", "r@0", "q@0", "$0", "$(", "$`", "$$", "\\g", "\\f",
                  "\\a", "AZ", "PI", "XA", "_", "B", "h", "ZZ", "$___", "PA@0",
                  "\\g@0", "(\\g 1)", "XX", "VN"]:
            for v in ("7", "[1;2]", '"ab"', "()"):
                yield (f"{t}:a RP[{t}]", (v, "5"), "p", "one\ntwo\nthree\n")
                yield (f"RP[{t}:a q q]", (v, "5"), "p", "one\ntwo\nthree\n")
                yield (f"{t}+:a RP[{t} q]", (v, "5"), "p", "one\ntwo\n3\n")

    def shapes():
        # every shape of target x every shape of value
        tg = ["[x y]", "[x [y z]]", "[[x y] z]", "[[x] y]", "[[x y z] i]",
              "[[[x] y] z]", "[x [y [z]]]", "[[x y] [z i]]", "[[]]",
              "[[] x]", "[x [] y]", "[[x (y 0)] z]", "[x y z i m n]",
              "[[x y z i] m]", "[x@0 [x@1 y]]", "[[x x] x]", "[[[x y] z] i]"]
        leaf = ['"abc"', '"ab"', '"a"', '""', "5", "678", "[1;2]", "[]",
                "[1;2;3;4]", "(1,4)", "(1,())", "()", "`abc`", "{a}", "[[3]]",
                '["pq";"rst"]']
        for t in tg:
            vs = leaf + ["[" + ";".join(p) + "]" for p in
                         seqs(leaf, 1, 2)]
            if deep:
                vs += ["[" + ";".join(p) + "]" for p in seqs(leaf[:9], 3, 3)]
            for v in vs:
                yield (f"x:\"st\" y:[4;5] {t}:a RP[x y z i m n]", (v,))
                if deep:
                    yield (f"x:\"st\" y:[4;5] {t}:{v} RP[x y z i m n]", ())
                    yield (f"x:\"st\" y:[4;5] {t}+:a RP[x y z i m n]", (v,))

    def items():
        # items of every kind and length, at every depth
        its = []
        for n in range(7):
            its += [lit("abcdef"[:n]), "[" + ";".join("123456"[:n]) + "]",
                    f"0,{n}", '["' + '";"'.join("pqrstu"[:n]) + '"]'
                    if n else "[[]]"]
            if n:
                its += ["1" + "234567"[:n], "1." + "234567"[:n],
                        "`" + "abcdef"[:n] + "`"]
        paths = [("0",), ("1",), ("-1",), ("2",), ("5",), ("-4",), ("(0,2)",),
                 ("(1,())",), ("(-2,())",), ("(0,())",), ("(2,2)",)]
        for it in its:
            for w, pre in (("{}", ()), ("[{};2]", ("0",)),
                           ("[1;{}]", ("-1",)), ("[0;[{};9]]", ("1", "0")),
                           ("[[[[{}]]]]", ("0", "0", "0", "0")),
                           ("[8;{};[7]]", ("(1,2)", "0"))):
                c = w.format(it)
                for p in paths:
                    q = pre + p
                    for v in ('"Z"', "[7;8;9]", '""', "55"):
                        yield ("x:a y:x x" + "".join("@" + (
                            i if i[0] == "(" else f"({i})") for i in q)
                            + f":{v} RP[x y]", (c,))
                        yield (f"x:a y:x (x {' '.join(q)}):{v} RP[x y]", (c,))
                    at = "x" + "".join("@" + (i if i[0] == "(" else f"({i})")
                                       for i in q)
                    for s in (at + "+:1", at + ".:\"Z\"", "U " + at,
                              at + "::y", at + " PU 4", at + "@0:3",
                              at + "X:2", at + "::" + at + "@0"):
                        yield (f"x:a y:6;{s};RP[x y]", (c,))

    def undefined():
        # targets of variables that have no value yet, or a strange one
        vs = ["ZZ", "$qq", "$a_1", "QQ", "$zz9", "_", "B", "i", "q", "$0",
              "$1", "$_", "l", "x", "f", "\\a"]
        ixs = ["@0", "@-1", "@5", "@(0,2)", "@(1,())", "@\"x\"", "@[0;1]",
               "@()", "@<1", "@>1", "@0@1", "@(0,1)@0"]
        for v in vs:
            for t in [v, f"@{v}", f"[{v}]", f"[{v} y]", f"({v} 0)",
                      f"({v} 0 1)"] + [v + ix for ix in ixs]:
                for s in (f"{t}:b", f"{t}+:b", f"{t}.:b", f"{t}::y",
                          f"y::{t}", f"U {t}", f"-:{t}", f"{t} PU b",
                          f"{t} PB b", f"PO {t}", f"DQ {t}", f"{t}:[b;{t}]"):
                    for w in ("9", "[7;8]", '"uv"'):
                        yield (f"y:4;{s};RP[{v} y];{s};RP[{v} y]", ("5", w),
                               "p", "one\ntwo\nthree\n")

    def histories():
        menu = ["x:[]", "x@0:5", "x:\"ab\"", "x@1:\"Z\"", "x@(0,1):[7;8]",
                "x:0,3", "x@0:x", "(x 0 0):6", "x:()", "x:5", "[x y]:x",
                "y::x", "x@y:2", "x PU 1"]
        for t in seqs(menu, 1, 5 if deep else 4):
            yield ";".join(t) + ";RP[x y]"

    def judge_special(case):
        return diff(case[0], case[1], case[2], case[3])

    return [differential("long", long.c20, "long lists, deep targets", budget=100000),
            differential("indexed", indexed, "current x index x new values"),
            differential("nested", nested, "two-step targets"),
            differential("forms", forms, "every form of target"),
            differential("lists", lists, "destructuring"),
            differential("shapes", shapes, "17 target shapes x all small "
                         "value shapes"),
            differential("items", items, "items of all kinds, lengths <= 6, "
                         "depths <= 4"),
            differential("swaps", swaps, "all pairs of targets"),
            Sweep("special", special, judge_special, "special variables"),
            Sweep("undefined", undefined, judge_special,
                  "targets in 16 variables without values"),
            differential("histories", histories,
                         f"all sequences of <= {5 if deep else 4} of 14"
                         " assignments")]
