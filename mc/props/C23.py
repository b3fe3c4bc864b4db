"""Control flow commands execute the right bodies the right number of times."""
from ..lib import *
from .. import long

LEVEL = "model_checking"


def sweeps(tier):
    deep = tier == "thorough"
    over = VALUES + ["0,0", "[[1;2];[3;4];5]", '"xyz"', "-3", '"3x"', "2.9"]

    def values():
        for v in over:
            for p in ("F i a{x AE:i y+:1}RP[x y i]", "F i a x AE:i RP[x i]",
                      "L a{y+:1}y", "L a y+:1 y", "I a{P 1}EL{P 2}P 3",
                      "I a P 1 EL P 2 P 3", "I a{P 1}P 3", "I a P 1 P 3",
                      "W a{U y I y>3{a:0}}y", "T a{U y I y>3{a:1}}y",
                      "F[i n]a{x AE:[n i]}RP[x i n]", "F i a{}RP i",
                      "F i a{a:7 x AE:i}RP[x a]", "L a{a:9 y+:1}y",
                      "F x a{y.:x}RP[x y]", "F x@1 a{y.:x}RP[x y]",
                      "x:[0 0] F x@1 a{z AE:x}RP[x z]",
                      "F y a{}RP y", "F[i]a{x AE:i}RP x", "F i EN a{x AE:i}RP x",
                      "F i R a{x AE:i}RP x", "LR a \"abc\"{x AE:$0}RP x",
                      "LR \"a\" a{x AE:$0}RP x", "LR `.` a{x AE:$0}RP x",
                      "LR a a{x AE:$0 U y}RP[x y]", "I !a{P 1}EI a{P 2}EL{P 3}",
                      "I 0{P 0}EI a{P 1}EL{P 2}", "I a{}EL{P 2}", "F i a F n i x AE:n RP x"):
                yield ("x:l y:0 z:l " + p, (v,))

    def single():
        # every list of at most two (three) items as the subject
        items = ["1", "[]", "[1;2]", '"ab"', "()", "[[3;4]]"]
        for t in seqs(items, 1, 3 if deep else 2):
            for p in ("F i a{x AE:i y+:1}RP[x y i]", "L a{y+:1}y",
                      "I a{P 1}EL{P 2}", "F[i n]a{x AE:[n i]}RP[x i n]",
                      "W a{U y I y>3{a:0}}y", "T a{U y I y>3{a:1}}y",
                      "LR a \"abc\"{x AE:$0}RP x",
                      "LR `.` a{x AE:$0}RP x", "L(a 0){y+:1}y",
                      "L[a]{y+:1}y", "F i[a]{x AE:i}RP x", "L #a{y+:1}y"):
                yield ("x:l y:0 " + p, ("[" + ";".join(t) + "]",))

    def spellings():
        # every spelling of a condition, as a literal and as a value
        words = ["1.0", "0.0", "00", "-0", ".0", "0.", "1e0", "+0", "01",
                 "-1", "2", "3", "10", ".5", "-.0", "0.1", " 0", "0 ", " ",
                 "x", "00.00", "--0", "0x0", "False", "()", "[]", "0;0"]
        vals = [lit(w) for w in words] + [
            "2", "3", "10", "0", "00", "0.0", "1.0", ".5", "PI", "PZ", "AZ",
            "[0;0]", "[0;[]]", "[[0]]", "[0 1]", "[();()]", "['0]", "0,1",
            "1,1", "(0,())", "`0`", "``", "{}", "{0}", "_", "-1", "o", "i",
            "l", "k", "t", "e"]
        for v in vals:
            for p in ("T @@{P 1 k+:1 I k>3{P 9 V\"(\"}}P 5",
                      "T @@ P 1 P 5", "T @@{}P 5",
                      "I @@{P 1}EL{P 2}P 5", "I @@{P 1}P 5", "L @@{P i}P 5",
                      "F i @@{P RP i}P i", "I 0{P 0}EI @@{P 1}EL{P 2}P 5",
                      "x:@@ W x{P 1 x:0}P 5", "x:0 T x{P 1 x:@@ U i I i>2{x:1}}",
                      "x:@@ T x{P 1 x:1}P 5", "x:@@ I x{P 1}EL{P 2}P 5",
                      "x:1 W x{P 1 x:@@ U i I i>2{x:0}}P 5",
                      "x:[@@] W x@0{P 1 x@0:0}P 5", "x:@@ P(x?1 2)",
                      "P(@@?1 2)", "P!@@", "P(@@&7)", "P(@@|7)",
                      "W @@&i<2{P 1 U i}", "T @@|i>1{P 1 U i}",
                      "x:@@ L x{P i}P 5", "x:@@ L 2 I x P 1 EL P 2",
                      "f:{@@} I(f 0){P 1}EL{P 2}", "LR @@ \"a0\"{P 1}P 5",
                      "LR \"0\" @@{P $0}P 5", "F[i n]@@{P RP[i n]}P 5"):
                if "T @@" in p and "k+" in p and v in ("k", "i"):
                    continue
                yield ("k:" + ("0;" if v != "k" else "[];")
                       + p.replace("@@", v), ())

    def headers():
        rx = ['`a`', '`[a-b]`', '`.`', '``', '`(a)(b)?`', '"a"', '"a."',
              '"."', '""', '`^`', '`x`', '-`A`', '5', '[`a`]', '()', '"[ab]"']
        ss = ['"abc"', '"aab"', '""', '"a.b"', '5', '55', '["ab"]', '`ab`',
              '()', '`a`']
        for r in rx:
            for s in ss:
                yield ("LR a b{x AE:[$0 $1 $( $)]}RP[x $0 a b]", (r, s))
                yield ("LR b a{x AE:[$0 $1 $( $)]}RP[x $0 a b]", (r, s))
                yield (f"LR {r} {s}{{x AE:$0}}RP x", ())
                yield (f"LR {s} {r}{{x AE:$0}}RP x", ())

    def structure():
        # all nestings of commands to depth 2 (3)
        heads = ["I i<2{{{0}}}", "I i%2{{{0}}}EL{{{1}}}",
                 "W i<4{{U i {0}}}", "T i>3{{{0} U i}}", "L 2{{{0}}}",
                 "F n 1,3{{{0}}}", "F[n k][[1;2];[3;4]]{{{0}}}",
                 "LR`.`\"pq\"{{{0}}}",
                 "I n{{{0}}}EI i{{{1}}}EL{{x.:\"e\"}}"]
        leaf = ["x.:i", "x.:n", "U i", "x.:$0", "n:0", "P i"]
        one = []
        for h in heads:
            for a in leaf:
                one.append(h.format(a, "x.:\"-\""))
        for s in one:
            yield "x:\"\" " + s + " RP[x i n k]"
        for h in heads:
            for a in one:
                for b in leaf[:3] if deep else leaf[:1]:
                    yield "x:\"\" " + h.format(a + b, b) + " RP[x i n k]"
                    yield "x:\"\" " + h.format(b + " " + a, b) + " RP[x i n k]"
        for a in one:
            for b in one[::1 if deep else 5]:
                yield "x:\"\" " + a + b + " RP[x i n k]"
        if deep:
            for h in heads:
                for h2 in heads:
                    for a in one[::3]:
                        yield ("x:\"\" " + h.format(h2.format(a, leaf[0]), a)
                               + " RP[x i n k]")

    def dangling():
        parts = ["I a", "I b", "EL", "EI c", "P 1", "{P 2}", "P 3", "{}",
                 "L 2", "F i 2"]
        for t in seqs(parts, 2, 6 if deep else 5):
            src = " ".join(t)
            if t[0][0] in "EP{" or "I" not in src:
                continue
            yield (src, ("1", "0", "1"))

    def live():
        # what happens to the loop's subject during the loop
        subj = ["[1;2;3]", '"abc"', "0,3", "[[1];[2]]"]
        acts = ["x:5", "x@0:9", "PO x", "i:7", "x:i",
                "x PB 9", "y:x", "x@-1:i", "U i", "WG", "x::z"]
        for s in subj:
            for a in acts:
                for b in acts:
                    for h in ("F i x", "L x", "F i EN x", "W #y<5 & x",
                              "F[i z]x", "F x x", "F i #x"):
                        yield (f"x:a z:8 y:l {h}{{y AE:i U k {a} {b} "
                               "I k>8{x:()}}}RP[x y z i]".replace("}}}", "}}"),
                               (s,))

    def counts():
        for n in list(range(-3, 6)) + ["2.9", '"4x"', '""', '"x"', "[5]", "()"]:
            for m in range(0, 4):
                yield (f"L {n} L {m} U i i", ())
                yield (f"F i ,{n} F n ,{m} x AE:[i n] RP x", ())
                yield (f"i:{n} W i>{m} D i i", ()) if isinstance(n, int) else ""
                yield (f"i:{n} T i>{m} U i i", ()) if isinstance(n, int) else ""

    return [differential("long", long.c23, "up to 1000 iterations", budget=100000),
            differential("values", values, f"29 commands on {len(over)} values"),
            differential("single", single, "12 commands on all small lists"),
            differential("spellings", spellings, "59 conditions as literals "
                         "and values in 27 commands"),
            differential("headers", headers, "all kinds of LR operands"),
            differential("structure", structure, "all nestings to depth "
                         f"{3 if deep else 2}"),
            differential("dangling", dangling, "all if/else-if/else sequences"
                         f" of <= {6 if deep else 5} parts"),
            differential("live", live, "loops that change their subject"),
            differential("counts", counts, "all small nested counts")]
