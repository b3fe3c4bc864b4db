"""Operands in every form, expressions in every context."""
from ..lib import *

LEVEL = "model_checking"
# {v}: the source of the value, {n}: a variable (x, y, z)
FORMS = [("", "{v}"), ("{n}:{v};", "{n}"), ("{n}:[9;{v}];", "{n}@1"),
         ("{n}:[9;{v}];", "({n} 1)"), ("{n}:[[{v}];9];", "({n} 0 0)"),
         ("", "H[{v}]"), ("", "({{a}}V[{v}])"), ("", "({{{v}}} 8)"),
         ("", "(1?{v} 9)"), ("", "({n}:{v})"), ("{v};", "$_"),
         ("{n}:{v};", "[{n}]@0"), ("{n}:{v};", "(1?{n} 9)"),
         ("", "(8 PK 0|{v})"), ("{n}:[{v}];", "(PO {n})"),
         ("{n}:[[{v};9];9];", "{n}@0@0"), ("", "((({v})))"),
         ("", "[{v};9]@(0,1)@-1"), ("{n}:[9;{v}];", "DQ {n}"),
         ("{n}:[[[[{v};9];8]]];", "{n}@0@0@0@0"),
         ("{n}:[[[[{v};9];8]]];", "{n}@(0,9)@0@0@0@0"),
         ("{n}:[[[[8;{v};7]]]];", "({n} 0 0 0 -2)")]
VALS = ['7', '-2', '"ab"', '""', '[3;"b"]', '[]', '(1,4)', '()', '`b`',
        '{a}', '2.5', '[1;[2;3];"c";0;4]', '"abcdefg"']
FEW = ['3', '"ab"', '[2;"b"]', '(1,3)', '()', '{a}']
# {e}: the expression
CONTEXTS = ["RP({e})", "z:{e} RP z", "RP([{e}]@0)", "RP([9;{e};8]@1)",
            "RP({{{e}}} 9)", "RP({{a}}V[{e}])", "f:{{RP a}} (f ({e}))",
            "I 1{{{e}}}RP $_", "L 1{{z:{e}}}RP z", "{e};RP $_",
            "RP(1?{e} 9)", "RP(0?9 {e})", "RP(0|1&[{e}])@0@0",
            "z:[0] z@0:{e} RP z@0", "z:[[0]] (z 0 0):{e} RP z@0@0",
            "F i[{e}]{{RP i}}RP i", "z:l z PB {e} RP z", "z:l z PU({e}) RP z",
            "[z i]:[{e};9] RP z", "I 0{{P 4}}EL{{z:{e}}}RP z",
            "RP({{9;{e}}} 9)", "{e}"]


def forms(k, names="xyz"):
    """Setup and text of an operand with value v in form k."""
    pre, body = FORMS[k]
    return lambda v, i: (pre.format(v=v, n=names[i]),
                         body.format(v=v, n=names[i]))


def sweeps(tier):
    deep = tier == "thorough"
    nf = range(len(FORMS))
    vals = VALS if deep else FEW

    def ones():
        for o in [t for t in deterministic(1) if t != "RE"]:
            for k in nf:
                for v in VALS:
                    pre, x = forms(k)(v, 0)
                    yield (f"{pre}RP[({o} {x});x]", ())

    def twos():
        for o in deterministic(2):
            for k in nf:
                for v, w in product(vals, repeat=2):
                    pre, x = forms(k)(v, 0)
                    yield (f"{pre}RP[({x} {o} {w});x]", ())
                    pre, y = forms(k)(w, 1)
                    yield (f"{pre}RP[({v} {o} {y});y]", ())

    def pairs():
        # both operands in any form
        for o in deterministic(2):
            for j, k in product(nf, repeat=2):
                if (j + k) % 3 and not deep:
                    continue
                for v, w in (("7", '"ab"'), ("[3;4]", "1"),
                             ('"aba"', '"a"'), ("[1;[2]]", "(1,3)")):
                    p, x = forms(j)(v, 0)
                    q, y = forms(k)(w, 1)
                    if "$_" in (x, y) and (p + q).count(";") > 1:
                        continue
                    yield (f"{p}{q}RP[({x} {o} {y});x;y]", ())

    def threes():
        for o in deterministic(3):
            for k in nf:
                for v, w, u in product(FEW if deep else FEW[:4], repeat=3):
                    for i in range(3):
                        s = [v, w, u]
                        pre, s[i] = forms(k)(s[i], i)
                        yield (f"{pre}RP[({s[0]} {o} {s[1]} {s[2]});x;y;z]",
                               ())

    def folds():
        for o in deterministic(2):
            for k in nf:
                for v in ("[3;1;2]", '"ba"', "(1,4)", "[[1;2];[3]]"):
                    pre, x = forms(k)(v, 0)
                    yield (f"{pre}RP[($ {o} {x});(\\$ {o} {x})]", ())

    def functions():
        # functions in any form; what is built does not see later changes
        for o in deterministic(1):
            if o == "RE":
                continue
            for k in nf:
                for f in ("_", "{a.b}", "B"):
                    pre, x = forms(k)(f, 0)
                    yield (f"{pre}z:({o} {x});x:0 RP(z[3;1] 2)", ())
        for o in deterministic(2):
            for k in nf:
                for f in ("_", "{a.b}"):
                    pre, x = forms(k)(f, 0)
                    yield (f"{pre}i:1 z:({x} {o} i);x:0 i:5 RP(z[3;1] 2)", ())
                    yield (f"{pre}i:1 z:(i {o} {x});x:0 i:5 RP(z[3;1] 2)", ())
                    pre, y = forms(k)("[2;1]", 1)
                    yield (f"{pre}z:({f} {o} {y});y:0 RP(z 1 4)", ())
                    yield (f"{pre}z:({y} {o} {f});y:0 RP(z 1 4)", ())

    def variables():
        # lists of variables, in lists of variables
        atoms = ["x", "y", "5", "x@0", "l"]
        inner = ["[" + " ".join(t) + "]" for t in seqs(atoms[:3], 1, 3)]
        for t in seqs(inner[::1 if deep else 3] + atoms, 1, 3 if deep else 2):
            e = "[" + ";".join(t) + "]"
            yield (f"x:[7;8] y:2 z:{e} x@0:4 y:9 RP[z {e} x y]", ())
            yield (f"x:[7;8] y:2 RP({e}@0) RP({e}@-1) RP({e}@(0,1)@0)", ())
            yield (f"x:[7;8] y:2 f:{{x:1 y:2 g}} RP(f {e})", ())
        for n in range(1, 13):
            e = "[" + " ".join("xy"[i % 2] for i in range(n)) + "]"
            for f in (e, f"[{e} y]", f"[y {e}]", f"[{e} {e}]", f"[{e};3]"):
                yield (f"x:[7;8] y:2 z:{f} x@0:4 y:9 RP[z {f}]", ())

    def indices():
        # an index, count or length in any form, of a variable or a value
        ix = ["1", "-3", "0", "[1]", "[1;0]", "[]", "(0,2)", "(-2,())", '"1"',
              "1.9", "()", '"z"', "`.`", "[[1]]", "[(0,2)]", "_"]
        for o in ("@", "@<", "@>", "H", "S", "PK", "PU", "PB", "|<", "<>",
                  "UW", "CH", "RL", "^@", "<|"):
            if o not in OPS[2]:
                continue
            for c in ('"abcde"', "[5;6;[7;8];9]", "2,7", '["ab";"cde"]', "()"):
                for i in ix:
                    for k in (0, 1, 2, 7, 8):
                        pre, y = forms(k)(i, 1)
                        yield (f"{pre}x:{c} RP[(x {o} {y});x;y]", ())
                        yield (f"{pre}RP[({c} {o} {y});y]", ())
                        yield (f"{pre}x:[9;{c}] RP[(x@1 {o} {y});x;y]", ())

    def sends():
        # heads of every form, arguments of every number
        heads = ["{v}", "[{v}]", "[[{v}]]", "[[[{v}]]]", "[9;{v}]",
                 "[[9;{v}];8]", "{{{v}}}", "{{{{{v}}}}}", "{{[9;{v}]}}"]
        vs = ["{a+1}", "{g}", "_", "_+b", "[7;6;[5;4]]", '"abcd"', "(2,8)",
              "{a.b.c}", "`ab`", "B", "12", "{[a]}", "{{g}}", "()"]
        tails = ["0", "0 0", "0 0 0", "0 0 5", "1 0 5", "0 5 6 7", "1 0 2 1",
                 "0 0 0 0 0", "-1 -1", "(0,2)", "1 (0,2) 1", "[0] 0", "_ 1",
                 "{a} 4 2"]
        for h, v in product(heads, vs):
            e = h.format(v=v)
            for t in tails:
                yield (f"RP({e} {t})", ("3",))
                yield (f"x:{e} RP[(x {t})]", ("3",))
                yield (f"x:{e} f:{{RP(x a b)}}(f {t})", ("3",))
                if "_" not in t and "{" not in t:
                    yield (f"x:{e} RP[x@{'@'.join('(' + i + ')' if i[0] not in '([' else i for i in t.split())}]",
                           ("3",))

    def conditions():
        vs = VALS + ["[0]", '"0"', '"0.0"', "[[]]", "[();0]", "0", "1",
                     "(0,0)", '["";0]', "`0`", "{0}", '"1.0"', "00"]
        for v in vs:
            for k in nf:
                pre, x = forms(k)(v, 0)
                yield (f"{pre}RP[({x}?1 2);(!{x});({x}|3);({x}&3);(0|{x});"
                       f"(1&{x})]", ())
                yield (f"{pre}I {x}{{P 1}}EL{{P 2}}", ())
                yield (f"{pre}W {x}&i<2{{U i}}RP i", ())
                yield (f"{pre}T {x}|i>1{{U i}}RP i", ())
                yield (f"{pre}I i{{P 0}}EI {x}{{P 1}}EL{{P 2}}", ())
                if k < 6:
                    yield (f"x:{v} W x{{P 1 x:0}}", ())
                    yield (f"x:0 T x{{P 1 x:{v} U i I i>2{{x:1}}}}", ())
                    yield (f"T {v}{{P 1 PO 0 U i I i>2{{V\"(\"}}}}", ())

    def contexts():
        es = [f"{o} {v}" for o in deterministic(1) if o != "RE"
              for v in (VALS if deep else FEW)]
        es += [f"{v} {o} {w}" for o in deterministic(2)
               for v, w in product(FEW, FEW if deep else ["2", '"ab"', "[4;1]"])]
        es += [f"{v} {o} {w} {u}" for o in deterministic(3)
               for v, w, u in (('"aba"', '"a"', "7"), ("[3;4]", "1", "2"),
                               ("5", "1", "3"), ("{a}", "[1;2]", "[3;4]"))]
        es += VALS + ["x", "x@0", "(y 9)", "a", "{9;a}", "[x;[y]]", "x:5",
                      "x+:1", "U x", "PI", "$_", "$0", "l@0", "`a`.`b`"]
        for e in es:
            for c in CONTEXTS:
                yield ("x:6 y:_+1;" + c.format(e=e), ("4",))

    return [differential("unary", ones, f"{len(FORMS)} forms of operands of "
                         "all unary operators"),
            differential("binary", twos, f"{len(FORMS)} forms of either "
                         "operand of all binary operators"),
            differential("pairs", pairs, "pairs of forms"),
            differential("ternary", threes, "all ternary operators"),
            differential("folds", folds, "folds, scans, maps"),
            differential("functions", functions, "functions in any form"),
            differential("variables", variables, "lists of variables"),
            differential("indices", indices, "indices in any form"),
            differential("sends", sends, "sends of all heads and arguments"),
            differential("conditions", conditions, "conditions in any form"),
            differential("contexts", contexts, f"{len(CONTEXTS)} contexts of "
                         "all operators")]
