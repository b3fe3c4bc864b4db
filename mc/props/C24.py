"""History and match variables."""
from ..lib import *
from .. import long

LEVEL = "model_checking"
SHOW = ";P RP[$0 $1 $2 $` $' $( $) $$ $[ $]]"
RX = ['`b`', '`(a)(b)?`', '`(.)(.)`', '`x`', '``', '`^a`', '`(b)|(c)`', '`b+`',
      '-`B`', '`(a(b)(c)?)`', '`((((((((((.))))))))))`', '"b"', '"."',
      '["a";"b"]']
STR = ['"abc"', '"ab ab"', '""', '"b"', '"xabbx"', '"a.b"']


def sweeps(tier):
    deep = tier == "thorough"

    def history():
        menu = ["5", "x:7", "[1;$_]", "$_", "$__", "$_+1", "P 3", "U i", "I 1{8}",
                "(z 9)", "V\"4 $_\"", "l", "()", "$_:2", "{a}", "L 2{6}"]
        for t in seqs(menu, 1, 4 if deep else 3):
            s = ";".join(t)
            yield f"z:{{a;a*2;$_}};{s};RP[$_ $__ $___]"
            if len(t) < 3:
                yield f"z:{{a;a*2;[$_ $__]}} y:{{{s};RP[$_ $__ $___]}};3;(y 1)"
                yield f"z:{{a;$_}};L 2{{{s}}};RP[$_ $__ $___]"
                yield f"z:{{a;$_}};{s};F i 2{{{s};P $_}};RP[$_ $__ $___ $____]"
                # functions with a longer history of their own
                for n in range(2, 6):
                    body = ";".join(str(k) for k in range(n))
                    yield (f"w:{{{body};[$_;$__;$___]}};z:_;{s};"
                           "RP[(w 0) $_ $__ $___]")
                    yield (f"w:{{{body};a}};z:_;5;6;{s};w 1;(w 2);"
                           "RP[(w 0) $_ $__ $___]")

    def matches():
        acts = ["a@b", "b N a", "a~b", "a@?b", "a@*b", "a R b \"-\"", "a^b",
                "a R b {a.b}", "a~=b", "b NI a", "a RM b",
                "b MR a {[a b]}" if "MR" in OPS[3] else "1", "a|>b",
                "#b", "b=b", "a MR b {[a b]}",
                "b MR a {$1.$'}", "a R b {$`.a}", "a R b 'z"]
        for s in STR:
            for r in RX:
                for e in acts:
                    yield (f"x:({e}) {SHOW} RP x", (s, r))
                    if s in STR[:2]:
                        yield (f"\"q1z\"~`\\d(.)` x:({e}) {SHOW}", (s, r))

    def sequences():
        ms = ["\"abc\"~`b(c)?`", "\"xyz\"~`q`", "\"12\"@`(\\d)`", "\"k\"N\"ok\"",
              "`o(.)`N\"ok\"", "(z \"pq\")", "LR`(.)(.)`\"uvwx\"{y.:$2}",
              "$1:5", "$0", "\"mn\"R`n`{$`}", "[\"s\";\"t\"]@`[st]`", "WG",
              "\"gg\"~=`(g)+`"]
        for t in seqs(ms, 1, 4 if deep else 3):
            s = f"{SHOW};".join(t)
            yield f"z:{{a~`(.)(.)` $2}};{s}{SHOW}"

    def nested():
        for r in RX:
            for s in STR:
                yield (f"LR a b{{P[$0 $1] \"zz\"~`z` P $0}}{SHOW}", (r, s))
                yield (f"F i b@a{{P[i $0]}}{SHOW}", (r, s))
                yield (f"x:b R a{{\"k\"~`.` $0.a}} P RP x {SHOW}", (r, s))
                yield (f"W b~a{{P$0 b:$'I #$0=0{{b:\"\" a:`Q`}}}}{SHOW}", (r, s))
                yield (f"I b~a{{P $0}}EL{{P 9}}{SHOW}", (r, s))
                yield (f"z:{{b~a}} x:(z a b) {SHOW}", (r, s))

    def depths():
        # matches and statements at both ends of chains of calls
        acts = ["", "\"kl\"~`.(.)`;", "5;", "c:$0;", "\"k\"~`x`;"]
        for d in list(range(0, 21)) + [33, 65]:
            for x in acts:
                for y in acts:
                    yield (f"\"q1\"~`(.)(.)`;3;4;f:{{{x}a?(f a-1)7}}(f {d})"
                           f"{SHOW} P RP[$_ $__ $___]")
                    yield (f"\"q1\"~`(.)(.)`;3;4;f:{{{x}b:a?(f a-1)0;{y}"
                           f"[$0 $_;#RP b]}}P RP(f {d}){SHOW}")
                yield (f"\"q1\"~`(.)(.)`;f:{{a?(f a-1){x or 'P $0'}}}"
                       f"(f {d}){SHOW}")
                yield (f"\"q1\"~`(.)(.)`;3;" + "I 1{" * d + x + "}" * d + SHOW
                       + "P RP[$_ $__]")
                yield ("\"q1\"~`(.)(.)`;3;" + "L 1{" * d + x + "}" * d + SHOW
                       + "P RP[$_ $__]")

    def levels():
        # the history inside of functions, at every depth of calls
        for d in list(range(0, 14)) + [20, 40]:
            for n in range(0, 5):
                s = "".join(f"{9 - k}.a;" for k in range(n))
                for show in ("P RP[$_ $__ $___];", "P $_;", "P $__;", "$__;",
                             "P $___;"):
                    for call in ("a?(f a-1)0", "I a{(f a-1)}", "L a>0{(f a-1)}",
                                 "{a?(f b-1)0}V[a;a]", "{a?(f a-1)0}M[a]"):
                        yield (f"f:{{{s}{show}{call}}} 1;2;3;(f {d}) "
                               "RP[$_ $__ $___]", ())
                        if n < 3:
                            yield (f"f:{{{s}{call};{show}}} 1;2;3;(f {d}) "
                                   "RP[$_ $__ $___]", ())

    def groups():
        for n in range(0, 13):
            rx = "(.)" * n
            for s in ("abcdefghijklm", "abc", ""):
                yield f"x:{lit(s)}~`{rx}` RP[$0 $1 $2 $3 $4 $5 $6 $7 $8 $9]"
                yield f"x:{lit(s)}~`{rx}` {SHOW}"
                yield f"x:{lit(s)}~`^(?:{rx})?(z)?` {SHOW}"

    return [differential("long", long.c24, "up to 300 statements", budget=100000),
            differential("history", history, "all sequences of <= "
                         f"{4 if deep else 3} of 16 statements"),
            differential("matches", matches, "every matching operator x "
                         f"{len(STR)} strings x {len(RX)} patterns"),
            differential("sequences", sequences, "all sequences of <= "
                         f"{4 if deep else 3} of 13 matches"),
            differential("nested", nested, "matching in loops and callbacks"),
            differential("depths", depths, "chains of up to 65 calls"),
            differential("levels", levels, "history in functions, 40 calls "
                         "deep"),
            differential("groups", groups, "all group counts <= 12")]
