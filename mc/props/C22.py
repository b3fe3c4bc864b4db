"""Functions: arguments, scope, recursion, results, evaluation of code."""
from ..lib import *
from .. import long

LEVEL = "model_checking"
ARGS = ("5", '"ab"', "[1;2]")


def sweeps(tier):
    deep = tier == "thorough"

    def calls():
        fs = ["{a}", "{e}", "{g}", "{f}", "{#g}", "{[a b c d e]}", "{}", "{()}",
              "{x:a}", "{a:9 g}", "{g:9 a}", "{I a{b}}", "{a b}", "{x:a;x+1}",
              "{b:a;[a b]}", "{f:7 f}", "{c}", "_", "B",
              "{h}", "{P a}", "{g@1}", "{a.b.c}", "{[a;g]}", "G", "{$+g}",
              "{\\a}", "{\\g}", "{$_}", "{i:a i}", "{U i}", "{{a}}", "{{b} a b}"]
        argl = ["", "1", "1 2", "1 2 3 4 5 6 7", "x", "x y", "()", "[1;2]",
                "{a}", "0,3 4", "x;y", "l l", "(x);(y)", "[x y]", "a b", "g"]
        for f in fs:
            for al in argl:
                yield (f"x:3 y:[4] k:{f} z:(k {al}) RP[z x y i a g]", ARGS)
                yield (f"RP({f} {al})", ARGS)
                yield (f"k:{f} {{RP(k {al}) a:b}} RP({{(k {al}) a:1 a}} 6 7)",
                       ARGS)
            for v in ["[1;2]", "1,4", '"xy"', "[]", "5", "()", "[[1];2]",
                      "`ab`", "{a}"]:
                yield (f"RP({f} V {v})", ARGS)
                yield (f"RP({v} V {f})", ARGS)

    def sends():
        # (v i j ...) is indexing step by step, or a call
        ix = ["0", "1", "-1", "5", "(0,2)", "[0;1]", "()", "`a`", '"x"',
              "(1,())", "[]", "{a}"]
        vs = ['"abc"', '"a"', '""', '[1;2;3]', '[[1;2];"cd";4]', '[]', '0,4',
              '(2,())', '5', '()', '`ab`', '[["ab";"cd"];["ef"]]', '[,4;"x"]']
        for v in vs:
            for t in seqs(ix, 1, 3):
                if len(t) == 3 and not deep and ix.index(t[1]) > 4:
                    continue
                s = ";".join(t)
                yield (f"RP(a {s})", (v,))
                yield (f"x:a RP(x;{s})", (v,))
        # functions found inside of lists
        for d in range(1, 5):
            v = "[" * d + "{a.b};{[b;a]}" + "]" * d
            z = ["0"] * (d - 1)
            for k in ("0", "1", "-1", "2", "-3"):
                path = z + [k]
                at = "".join(f"@({p})" for p in path)
                snd = " ".join(path)
                for head in (f"x{at}", f"(x {snd})", f"({v} {snd})",
                             f"({v}{at})", f"(x{at})", f"(x {path[0]})"):
                    for args in ("", "5", "5 6", "[5] 6", "()"):
                        yield (f"x:{v} RP({head};{args})" if args else
                               f"x:{v} RP({head})", ARGS)
                        yield (f"x:{v} RP({head} V[{args}])", ARGS)
                yield (f"x:{v} RP(x {snd};5 6)", ARGS)
                yield (f"x:{v} RP(({{x{at}}} 0)5 6)", ARGS)
                yield (f"x:{v} RP({{(x {snd})}}0 5 6)", ARGS)
                yield (f"x:{v} f:x{at} RP(f 5 6)", ARGS)

    def scope():
        menu = ["a:7", "b:8", "x:a", "(m a)", "(n)", "y:(m 1 2)", "c:(n x)",
                "{a:3 x:4}", "5;V{a:5}", "5;V\"b:6\"", "({a:2 x:b} 9)", "F a 2{x.:a}",
                "e:x", "f:{x:99}", "g:[0]", "P a"]
        for t in seqs(menu, 1, 4 if deep else 3):
            s = ";".join(t)
            yield (f"m:{{a:b x.:\"m\" b}} n:{{y:a c:5 (m c a)}} {s}"
                   ";RP[a b c d e x y]", ARGS)
        for t in seqs(menu, 1, 2):
            s = ";".join(t)
            yield (f"m:{{a:b x.:\"m\" b}} n:{{y:a c:5 (m c a)}} z:{{{s};RP[a b c"
                   " d e x y g]} [(z 1 2) a b c x y]", ARGS)
            yield (f"m:{{a:b x.:\"m\" b}} n:{{y:a c:5 (m c a)}} L 2{{{s}}}"
                   "RP[a b c d e x y]", ARGS)

    def locals_():
        # everything that a function keeps to itself
        own = ["a:7", "b:8", "c:9", "e:6", "5;4;3;2", "f:0", "g:1", "\"k\"~`k`",
               "d:a", "1", "(n 2)"]
        show = "a b c d e g $_ $__ $___ x"
        for t in seqs(own, 1, 3):
            s = ";".join(t)
            yield (f"n:{{1;2;3;4;5;a}} m:{{{s};x:g;0}} 50;51;52;53;"
                   f"RP[(m 1 2) {show}]", ARGS)
            if len(t) < 3:
                yield (f"n:{{1;2;3;4;5;a}} m:{{{s};RP[{show}];0}} 50;51;52;"
                       f"({{a:5;60;61;62;63;(m 3 4);RP[(m 1 2) {show}]}}8 9);"
                       f"RP[{show}]", ARGS)
                yield (f"n:{{1;2;3;4;5;a}} 50;51;52;{{{s};0}}M,2;RP[{show}]",
                       ARGS)
                yield (f"n:{{1;2;3;4;5;a}} 50;51;52;V{{{s};0}};RP[{show}]",
                       ARGS)

    def recursion():
        for n in range(0, 8):
            for p in ("f:{a<2?a (f a-1)+(f a-2)} (f N)",
                      "({a<2?1 a*(f a-1)} N)",
                      "({a<2?a (RE a-1)+(RE a-2)} N)",
                      "z:{a?(y a-1).\"b\" \"\"} y:{a?(z a-1).\"c\" \"\"} (z N)",
                      "({a?[a;(f a-1)]0} N)", "({a>0?RE(a-1) a} N)",
                      "f:{I a{P a (f a-1) P a}} (f N)",
                      "({a?{(f a)}0} N)", "({b:a*2 I a{(f a-1)}b} N)",
                      "({a?(f a-1)AE a l} N)", "({x AE:a a?(f a-1) x} N)",
                      "RP({{a?RE(a-1).\"i\" \"\"}V[a]} N)",
                      "\\a?(V\"7\") 8", "I a{a-:1 P a (\\f a)}",
                      "i<N?{U i (\\f)}() i"):
                yield (p.replace("N", str(n)), (str(min(n, 4)),))
        # a local variable survives the inner call
        for p in ("({b:a I a{(f a-1)}P b.a} 3)", "({c:[a] I a{(f a-1)}c} 3)",
                  "({a?{(f a-1)}V[a-1].a a} 2)",
                  "({F b a{P b I a>1{(f a-1)}}} 3)",
                  "({L a{c+:1}c?c.(f a-1) 0} 3)",
                  "({g@0:g@0-1 g@0?(f g@0).g g} 3)"):
            yield (p, ARGS)

    def again():
        # RE with arguments of all kinds, in all places, other functions near
        vs = VALUES + ["[[1];[2;3]]", "{b}", "[{a};5]",
                       "['a;()]"]
        for v in vs:
            for p in ("i:0 ({U i i<3?(RE a) [a g i]} a)",
                      "i:0 ({U i i<2?RE a;9 [a g i]} a)",
                      "i:0 ({U i i<2?(RE[a]) [a g i]} a)",
                      "i:0 m:{U i i<2?[(RE a) 8] [a g i]} (m a) ",
                      "i:0 x:a ({U i i<2?(RE x) [a g i]} 4)",
                      "i:0 ({U i I i<2{y:RE a}[a y i]} a)",
                      "i:0 ({b:7 U i z:(i<3?RE a;0) [a b z g]} a 6)",
                      "U i i<3?RE a;[a b g i]",
                      "U i I i<3{P RE a}RP[a b g i]",
                      "i:0 ({U i i<2?RE(a AE 1) [a g i]} a)",
                      "i:0 k:{a.b} ({U i (k i 5) i<2?RE a [a g i]} a)",
                      "i:0 {U i i<5?(RE a) [a g i]}M[a 3]",
                      "i:0 ({U i i<3?[RE a;RE 6] [a g i]} a)"):
                yield (p.strip() + ";RP[x y z i]", (v, "2"))
                yield (p.strip(), (v,))

    def evaluated():
        code = ["a", "a b", "x:7", "a:7 a", "b:a b:9", "P a", "", "1 2", "g",
                "I a{x:3}", "{a}", "{a}V[4]", "f", "x:7;x+1", "V\"a\"", "(f)@9",
                "y", "a+", ")", "\\\"a\\\"", "q", "$_"]
        for c in code:
            yield (f"x:1 z:V {lit(c)} RP[x z a b y]", ARGS)
            yield (f"x:1 z:V{{{c}}} RP[x z a b y]" if c not in (
                "a+", ")", '\\"a\\"') else "", ARGS)
            for v in ("[3;4]", '"pq"', "5", "()", "0,2", "{a}", '"a.1"'):
                yield (f"x:1 z:{lit(c)}V b RP[x z a]", ("1", v))
                yield (f"x:1 z:b V{lit(c)} RP[x z a]", ("1", v))
            yield (f"x:1 m:{{c:5 V {lit(c)}}} RP[(m 6 7) x a c]", ARGS)
            yield (f"5 6 RP V {lit(c)}", ARGS)
        for v in VALUES:
            yield ("x:V a RP x", (v,))
            for w in VALUES:
                yield ("x:a V b RP x", (v, w))

    def errors():
        # a failing call leaves no trace in what runs before it
        for bad in ("V\"(\"", "(f", "V\")\"",
                    "C(-1)", "V\"a+\"", "1/0"):
            yield (f"P 1 x:{bad} P 2", ARGS)
            yield (f"z:{{P a {bad} P b}} P 0 (z 3 4) P 5", ARGS)

    return [differential("long", long.c22, "deep recursion, many arguments", budget=100000),
            differential("calls", calls, "function bodies x argument lists"),
            differential("sends", sends, "values of all kinds x all lists of"
                         " <= 3 indices; functions in nested lists"),
            differential("scope", scope,
                         f"all sequences of <= {4 if deep else 3} of 16"),
            differential("locals", locals_, "all sequences of <= 3 of 11"
                         " statements in functions"),
            differential("recursion", recursion, "all depths <= 7"),
            differential("again", again, "RE with arguments of all kinds"),
            differential("evaluated", evaluated, "code strings and functions"),
            differential("errors", errors, "fatal errors in calls")]
