"""Values are never shared between variables, arguments and items."""
from ..lib import *
from .. import long

LEVEL = "model_checking"
INIT = "x:[1;[2;3]] y:[4;5] "
MENU = ["x:y", "y:x", "x@0:y", "(x 1 0):8", "y@1:x", "x PU 6", "y PB x",
        "z:PO x", "U(x 0)", "x:[y;y]", "x::y", "z:{x}", "y:(z)", "(f x)",
        "(g y)", "F i x{i@0:7}", "z:x@1", "z@0:9", "[x z]:[z y]", "y+:1",
        "y:x@1", "z:[x]M{a@0:5 a}"]
FUN = "f:{a@0:\"m\" (a 1 0):\"n\" a PU 3 a} g:{x PB a a PB 1 l:a} "
SHOW = ";RP[x y z l]"
MENU2 = ["x:\\g", "(x 0 0):7", "(\\g 0 0):8", "\\a@0:9", "a@0:6", "(g 0 0):5",
         "a:y", "x:\\a", "y:x", "g@1:a", "y:g", "\\g@1:\\a", "WG", "x:b",
         "f:{c@0:1 c}"]
MENU3 = ["x:l", "l PU 1", "l@0:2", "z:$+[x l]", "y:{l}", "x:(y)", "x@0:3",
         "(y):4", "l:x AL l", "x:V\"l\"", "WG", "l:[l]"]


def sweeps(tier):
    deep = tier == "thorough"

    def globals_():
        for n in range(1, 5 if deep else 4):
            for t in product(MENU, repeat=n):
                yield INIT + FUN.replace("f:", "m:").replace(
                    "g:", "n:") + ";".join(t).replace("(f ", "(m ").replace(
                    "(g ", "(n ") + SHOW

    def arguments():
        args = ("[[1;2];3]", "[4;[5]]", "[6]")
        for t in seqs(MENU2, 1, 4 if deep else 3):
            yield (";".join(t) + ";RP[x y a b g \\a \\b \\g]", args)

    def emptied():
        for t in seqs(MENU3, 1, 5 if deep else 4):
            yield ";".join(t) + ";RP[x y z l]"

    def operators():
        # no operator modifies its operands or shares them with its result
        vs = ["[1;[2;3]]", "[[1;2];[3;4]]", '["ab";"cd"]', "[[1];\"a\"]",
              "1,4", '"abc"']
        mutating = {"PUSH", "PUSHBACK", "POP", "DEQUEUE", "PICK", "INC",
                    "DEC", "ASSIGN", "SWAP"}
        for t in deterministic(1):
            if OPS[1][t].fn in mutating or OPS[1][t].fn == "RECURSE":
                continue
            for v in vs:
                yield (f"x:a y:{t} x y@0:9 (y 0 0):8 RP[x a y]", (v,))
                yield (f"x:a y:{t} x x@0:9 (x 1 0):8 RP[x a y]", (v,))
        for t in deterministic(2):
            if OPS[2][t].fn in mutating:
                continue
            for v in vs:
                for w in vs[:4] + ["1", "0", '"b"', "{a}"]:
                    yield (f"x:a z:b y:(x {t} z) y@0:9 (y 0 0):8 (y 1 0):7"
                           " RP[x z a b y]", (v, w))
                    yield (f"x:a z:b y:(x {t} z) x@0:9 (x 1 0):8 z@0:7 "
                           f"RP[x z a b y]", (v, w))
            for v in vs:
                yield (f"x:a y:($ {t} x) y@0:9 (y 0 0):8 RP[x a y]", (v,))
                yield (f"x:a y:(\\$ {t} x) (y 0 0):8 (y 1 1):8 RP[x a y]",
                       (v,))
        for t in OPS[3]:
            for v in vs:
                for w in (["0", "1", "[0;1]"] if t == "RA" else ['"b"', "[0;1]",
                                                                "[[1;2]]"]):
                    for u in ("[5;[6]]", "9", '["q"]'):
                        yield (f"x:a z:c y:(x {t} b z) y@0:9 (y 0 0):8 "
                               "(y 1 0):7 RP[x z a b c y]", (v, w, u))

    def loops():
        bodies = ["i@0:9", "x@0:9", "x PU i", "y PB i", "y PU x", "(i 0):y",
                  "x:i", "y:x", "PO x", "DQ x", "i:7", "z:i", "z@0:8"]
        for h in ("F i x", "F i [x y]", "F[i z]x", "L x", "F i EN x",
                  "F i x Z y", "F i FL x"):
            for t in seqs(bodies, 1, 3 if deep else 2):
                # pushing to the list that is looped over may not end
                yield (f"x:[[1;2];[3]] y:[4;5] {h} {{I #x<9 & #y<9{{"
                       + ";".join(t) + "}}RP[x y z i]")

    def mixed():
        # lists of items of all kinds, copied in all ways, changed in place
        items = ["[1;2]", "0,2", "5", '"ab"', "`p`", "{a}", "[[3];4]", "()",
                 "[]"]
        ways = ["y:x", "y:[x]", "y:(x)", "f:{a} y:(f x)", "y:x@(0,9)", "y:x@>0",
                "y:x@<9", "y:x@[0;1;2;3]", "y:RV x", "y:RV RV x", "y:x M _",
                "y:_ M x", "y:_ FI x", "y:{1}FI x", "y:x AL []", "y:x.[]",
                "y:[x x]", "y:x RL 2", "[y z]:[x x]", "y:l PU x", "y:@x",
                "y:x@-1", "F i x{y:i}", "F i [x]{y:i}", "z:x y:z",
                "m:{y:a} (m x)", "m:{a@0:7 (a 1 0):8 y:a} (m x)", "y:(1?x 0)",
                "y:x|0", "y:1&x", "U x y:x", "x y:$_", "y:[x;[x]]", "y:(x 0)",
                "y:x H 9", "y:x S 9", "y:x Z x", "y:EN x", "y:ST x", "y:UQ x",
                "y:x@0 y:[y x@-1]", "y:FL x", "y:PO x x:[x y]", "y:DQ x",
                "y:x x::y", "y:\\a", "y:l l AL:x", "y:SG x", "y:x PK 0"]
        ends = ["(y 0 0):9", "(y 0):9", "(y 1 0):9", "(y -1 0):9",
                "(y -1 -1 0):9", "(x 0 0):9", "(x -1 0):9", "(x 1 0):9",
                "y@0 PU 9", "y@1 PB 9", "PO y@-1", "x@0 PU 9", "y@0+:1",
                "(y 0 0 0):9", "(x -1 0 0):9"]
        for t in seqs(items, 1, 4 if deep else 3):
            if not deep and len(t) == 3 and not (
                    "[1;2]" in t or "[[3];4]" in t):
                continue
            v = "[" + ";".join(t) + "]"
            for w in ways:
                if deep:
                    for e in ends:
                        yield (f"x:a {w};{e};RP[x y z a]", (v,))
                else:
                    yield (f"x:a {w};" + ";".join(
                        f"{e};P RP[x y z a]" for e in ends), (v,))

    def constants():
        for body in ("x:[1;2] x@0:U i x", "l PU 1 l", 'x:"ab" x@0:U i x',
                     "x:[[1];2] (x 0 0)+:5 x", "y:[x] y PU 3 y",
                     "x:$+[] x PU 1 x", "x:\\$+[] x PU 1 x", "z@0:i z",
                     "x:(\\$.\"\") x PB i x", "x:0,3 x@1:9 x",
                     "x:(0,3) PO x x", "x:$AL[] x PB 1 x",
                     "x:@[] x PU 1 x", "x:[] x PU 1 x", "x:() x PU 1 x"):
            yield f"f:{{{body}}} RP[(f)(f)(f) x]"
            yield f"L 3{{{body}}} RP[x y l z]"
            yield f"F n,3{{{body};P x}} RP[x y l z]"
            yield f"f:{{{body}}} g:f x:(f) RP[(g)(f) x g==f]"

    return [differential("long", long.c19, "long histories", budget=100000),
            differential("globals", globals_, f"all sequences of <= "
                         f"{4 if deep else 3} of {len(MENU)} statements"),
            differential("arguments", arguments, f"all sequences of <= "
                         f"{4 if deep else 3} of {len(MENU2)} statements"),
            differential("emptied", emptied, "all sequences over the empty"
                         " list constant"),
            differential("operators", operators,
                         "every operator's operands and result"),
            differential("loops", loops, "loop variables"),
            differential("mixed", mixed, "lists of <= 3 items of all kinds, "
                         "49 ways to copy, 15 changes"),
            differential("constants", constants, "literals run repeatedly")]
