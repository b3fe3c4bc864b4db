"""Operators on functions build functions that operate on results."""
from ..lib import *
from .. import drv
from ..ref.table import IN_LAMBDA

LEVEL = "model_checking"
ARGS = [("1", "2"), ("[3;4]", "2"), ('"ab"', '"b"'), ("0,3", "1"),
        ("-2.5", "()"), ("`a`", '"a"'), ("[]", "{a}")]


def blocks(arity):
    return [t for t in deterministic(arity)
            if OPS[arity][t].flags & IN_LAMBDA]


def judge_law(case):
    """(f op g)(args) is (f(args)) op (g(args)); values are constant."""
    built, spelled, args = case
    vals = [val(a).real for a in args]
    refs = [val(a).ref for a in args]
    r = drv.run_ref(spelled, refs, "p", "", 4000)
    one = drv.run_real(built, vals, "p")
    two = drv.run_real(spelled, vals, "p")
    if one.key != two.key:
        return (f"{built!r} and {spelled!r} differ for args {args}\n"
                f"built:   {one!r}\nspelled: {two!r}")
    if one.key != r.key:
        return f"{built!r} args {args}: expected {r!r}, observed {one!r}"


def sweeps(tier):
    deep = tier == "thorough"
    un, bi, te = blocks(1), blocks(2), blocks(3)

    def laws():
        for args in ARGS:
            for t in un:
                yield (f"RP(({t} _) a b)", f"RP(@[{t} a])", args)
                yield (f"RP(({t} {{a}}) a b)", f"RP(@[{t} a])", args)
                yield (f"f:B RP(({t} f) a b)", f"RP(@[{t} b])", args)
            for t in bi:
                yield (f"RP((_ {t} B) a b)", f"RP(@[a {t} b])", args)
                yield (f"RP((B {t} _) a b)", f"RP(@[b {t} a])", args)
                yield (f"RP((_ {t} 2) a b)", f"RP(@[a {t} 2])", args)
                yield (f"RP((2 {t} _) a b)", f"RP(@[2 {t} a])", args)
                yield (f"RP((_ {t} [a;2]) a b)", f"RP(@[a {t} [a;2]])", args)
                yield (f'RP((_ {t} "b") b a)', f'RP(@[b {t} "b"])', args)
                if args[1] == "{a}":
                    continue
                yield (f"x:b y:(_ {t} x) x:5 RP(y a b)",
                       f"RP(@[a {t} b])", args)
                yield (f"x:[9;b] y:(_ {t} x@1) x@1:5 RP(y a b)",
                       f"RP(@[a {t} b])", args)
                yield (f"x:[9;b] y:((x 1) {t} _) x@1:5 x:7 RP(y a b)",
                       f"RP(@[b {t} a])", args)
                yield (f"x:[[b;3];9] y:(_ {t} x@0@0) x@0@0:5 RP(y a b)",
                       f"RP(@[a {t} b])", args)
            for t in te:
                yield (f"RP((_ {t} B 2) a b)", f"RP(@[a {t} b 2])", args)
                yield (f"RP((2 {t} _ B) a b)", f"RP(@[2 {t} a b])", args)
                yield (f"RP(([1;2] {t} 1 _) a b)",
                       f"RP(@[[1;2] {t} 1 a])", args)

    def deeper():
        some = ["+", "-", "*", ".", "=", "<", "==", "AE", "@?", "//", "\\&",
                "#<", "Q", "J", "CM"]
        some = [t for t in some if t in bi]
        us = [t for t in ("-", "\\!", "R", "#", "+", "|/", "J") if t in un]
        for args in ARGS[:4]:
            for s in some:
                for t in some:
                    yield (f"RP((((_ {s} B)) {t} 3) a b)",
                           f"RP(@[(a {s} b) {t} 3])", args)
                    yield (f"RP((_ {s} (2 {t} B)) a b)",
                           f"RP(@[a {s} (2 {t} b)])", args)
                for u in us:
                    yield (f"RP((({u} _) {s} {u} B) a b)",
                           f"RP(@[({u} a) {s} ({u} b)])", args)
                    yield (f"RP(({u} (_ {s} B)) a b)",
                           f"RP(@[{u} (a {s} b)])", args)

    def order():
        # statements of the operands run in operand order, once per call
        for t in bi:
            yield (f"x:[] f:{{x PB 1 a}} {t} {{x PB 2 b}} (f 5 6) RP x",
                   "x:[] x PB 1 x PB 2 RP x", ("1", "2"))
            yield (f"x:[] f:{{x PB 1 a}} {t} 3 (f 5 6) (f 5 6) RP x",
                   "x:[] x PB 1 x PB 1 RP x", ("1", "2"))
        for t in un:
            yield (f"x:[] f:{t} {{x PB 1 a}} (f 5) RP x",
                   "x:[] x PB 1 RP x", ("1", "2"))

    def statements():
        # functions with up to three statements in every operand place
        st = ["", "x PB 1;", "x PB 1;y:a;", "I a{x PB 2}x PB 3;",
              "x PB 1;5;x PB y;"]
        bodies = ["{" + s + e + "}" for s in st for e in ("a", "y.a")]
        bodies += ["{I a{x PB 4}}", "{}", "{x PB 5;F i 2{y:i}}"]
        for t in un:
            for f in bodies:
                yield (f"x:[] y:0 f:({t} {f}) RP f RP(f 4 5) RP(f 6) RP[x y]",
                       ())
        for n, t in enumerate(bi):
            for f in bodies:
                yield (f"x:[] y:0 f:({f} {t} 2) RP f RP(f 4 5) RP[x y]", ())
                yield (f"x:[] y:0 f:(2 {t} {f}) RP f RP(f 4 5) RP[x y]", ())
            for f, g in product(bodies[1:7:2] if not deep else bodies,
                                bodies[n % 3::3] if not deep else bodies):
                yield (f"x:[] y:0 f:({f} {t} {g}) RP f RP(f 4 5) RP[x y]", ())
        for t in te:
            for f in bodies:
                for e in (f"{f} {t} 2 3", f"2 {t} {f} 3", f"2 {t} 3 {f}",
                          f"0 {t} 3 {f}", f'"ab" {t} "a" {f}',
                          f"{f} {t} {f} {f}", f"_ {t} {f} 3",
                          f"_ {t} 3 {f}", f"{f} {t} B {f}", f"0 {t} {f} {f}"):
                    yield (f"x:[] y:0 f:({e}) RP f RP(f 4 5) RP[x y]", ())
                    yield (f"x:[] y:0 f:({e}) RP(f 0 5) RP[x y]", ())

    def chains():
        cmps = ["=", "<", ">", "<=", ">=", "!=", "==", "Q", "LT", "N"]
        cmps = [t for t in cmps if t in bi]
        for s in cmps:
            for t in cmps:
                for args in ARGS[:5]:
                    yield (f"RP((_ {s} 2 {t} B) a b)",
                           f"RP(@[a {s} 2 {t} b])", args)
                    yield (f"RP((1 {s} _ {t} B) a b)",
                           f"RP(@[1 {s} a {t} b])", args)

    def not_built():
        # operators that take functions as operands do not build
        for ar, form in ((1, "RP({} f)"), (2, "RP(f {} a)"),
                         (2, "RP(a {} f)"), (2, "RP(f {} f)")):
            for t in deterministic(ar):
                if t not in blocks(ar) and OPS[ar][t].fn != "RECURSE":
                    for f in ("_", "{a.1}", "{U i;i}"):
                        for v in ("[1;2]", '"ab"', "3"):
                            yield ("f:" + f + " " + form.format(t), (v,))
        for t in un + bi:
            for v in ("[_;2]", "{}", "{x:1}", "[{a};{b}]"):
                if t in un:
                    yield (f"RP({t} a)", (v,))
                if t in bi:
                    yield (f"RP(a {t} 2)", (v,))
                    yield (f"RP(a {t} a)", (v,))

    return [Sweep("laws", laws, judge_law,
                  f"{len(un)}+{len(bi)}+{len(te)} operators x operand forms"),
            Sweep("deeper", deeper, judge_law, "two levels of building"),
            Sweep("order", order, judge_law, "side effects of the operands"),
            differential("statements", statements, "functions of <= 3 "
                         "statements in every operand"),
            Sweep("chains", chains, judge_law, "comparison chains"),
            differential("not-built", not_built,
                         "operators that take functions")]
