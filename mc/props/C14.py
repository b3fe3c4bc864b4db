"""Evaluation order and short circuits, seen through side effects."""
from ..lib import *

LEVEL = "model_checking"
# T n v: an expression with value v that records n when evaluated
TR = "(l PB {0} {1})"


def tr(n, v):
    return f"(f {n} {v})"


PRE = "l:[] f:{l PB a b} "
TRUTH = ["0", "1", '""', '"a"', "()", "[]", "[0]"]


def sweeps(tier):
    deep = tier == "thorough"
    two = TRUTH if deep else TRUTH[:5]

    def logic():
        for ops in seqs(["&", "|"], 1, 3):
            for v in product(two if len(ops) < 3 else two[:3],
                             repeat=len(ops) + 1):
                e = tr(1, v[0])
                for k, t in enumerate(ops):
                    e += f" {t} " + tr(k + 2, v[k + 1])
                yield PRE + f"x:{e} RP[x l]"
                if len(ops) == 2:
                    a, b, c = (tr(k + 1, v[k]) for k in range(3))
                    yield PRE + f"x:({a} {ops[0]} ({b} {ops[1]} {c})) RP[x l]"
        for v in product(TRUTH, repeat=2):
            for t in ("&", "|", "\\&", "\\|"):
                yield PRE + f"x:!({tr(1, v[0])} {t} {tr(2, v[1])}) RP[x l]"
                yield PRE + f"x:{tr(1, v[0])} {t} !{tr(2, v[1])} RP[x l]"
                yield PRE + f"x:5 x {t}: {tr(1, v[0])} RP[x l]"
                yield PRE + (f"x:{v[0]} x {t}: {tr(2, v[1])} RP[x l]")
                yield PRE + f"I {tr(1, v[0])} {t} {tr(2, v[1])} {{x:7}} RP[x l]"

    def ternary_():
        for v in product(TRUTH, repeat=3):
            a, b, c = (tr(k + 1, v[k]) for k in range(3))
            for t in ("?", "\\?"):
                yield PRE + f"x:{a} {t} {b} {c} RP[x l]"
        for v in product(TRUTH[:3], repeat=3):
            a, b, c = (tr(k + 1, v[k]) for k in range(3))
            yield PRE + f"x:{a} ? {b} ({c} ? {tr(4, 5)} {tr(5, 6)}) RP[x l]"
            yield PRE + f"x:{a} ? {b} {c} ? {tr(4, 5)} {tr(5, 6)} RP[x l]"
            yield PRE + f"x:({a} ? {b} {c}) ? {tr(4, 5)} {tr(5, 6)} RP[x l]"
            yield PRE + f"x:{a} & {b} ? {c} {tr(4, 5)} RP[x l]"
            yield PRE + f"x:1 y:2 ({a} ? x y):9 RP[x y l]"
            yield PRE + f"x:1 y:2 ({a} ? x y)+:{b} RP[x y l]"

    def chains():
        cmps = ["<", "=", ">", "<=", "!=", ">=", "LT", "Q", "==", "N", "#<"]
        for ops in chain(seqs(cmps, 1, 2), seqs(cmps[:4], 3, 3))():
            n = len(ops) + 1
            vals = ["1", "2", '"3"'] if n < 4 else ["1", "2"]
            for v in product(vals, repeat=n):
                e = tr(1, v[0])
                for k, t in enumerate(ops):
                    e += f" {t} {tr(k + 2, v[k + 1])}"
                yield PRE + f"x:{e} RP[x l]"

    def operands():
        for t in deterministic(2):
            if OPS[2][t].flags & 1:
                continue
            yield PRE + f"x:{tr(1, 3)} {t} {tr(2, '[4;5]')} RP[x l]"
            yield PRE + f"x:({tr(1, 3)} {t} {tr(2, 4)}) {t} {tr(3, 2)} RP l"
            yield PRE + f"x:{tr(1, 3)} {t} {tr(2, 4)} {t} {tr(3, 2)} RP l"
        for t in OPS[3]:
            yield PRE + (f'x:{tr(1, chr(34) + "abc" + chr(34))} {t} '
                         f'{tr(2, 1)} {tr(3, 2)} RP[x l]')
        for t in deterministic(1):
            if OPS[1][t].fn != "RECURSE":
                yield PRE + f"x:{t} {tr(1, 3)} RP[x l]"

    def changed():
        # operands that change the variables of other operands
        for t in deterministic(2):
            for x0, x1 in (("1", "5"), ('"ab"', '"b"'), ("[3;4]", "2"),
                           ("2", "[0;1]")):
                for e in (f"x {t}: (x:{x1})", f"z:x {t} (x:{x1})",
                          f"z:(x:{x1}) {t} x", f"z:x {t} (x:{x1}) {t} x",
                          f"y {t}: (y:x) {t} (x:{x1})",
                          f"(x@0) {t}: (x:{x1})", f"z:[x (x:{x1}) x]"):
                    yield f"x:{x0} y:3 {e} RP[x y z]"
                yield f"x:{x0} f:{{x:{x1} 2}} x {t}: (f 0) RP x"
                yield f"x:{x0} f:{{x:{x1} 2}} z:x {t} (f 0) RP[x z]"
        for t in OPS[3]:
            for x0 in ("0", "1", '"ab"'):
                for e in (f"x {t} (x:1) (x:2)", f"x {t} x (x:2)",
                          f"(x:1) {t} x x", f"x {t}: (x:1) x"):
                    yield f"x:{x0} z:9 z:({e}) RP[x z]"

    def truth():
        # the truth of every kind of value, in every conditional form
        vs = [lit("".join(t)) for t in
              seqs(["0", ".", "-", "\n", " ", "1", "e", "+"], 0,
                   4 if deep else 3)]
        vs += [f"({lo},{hi})" for lo in ("()", "-2", "0", "2", "5")
               for hi in ("()", "-2", "0", "2", "5")]
        vs += ["-0", "0.0", "-0.5", "00", "0.", ".0", "``", "`0`", "-`a`",
               "{}", "{0}", "{()}", "_", "_+0", "[()]", "[[]]", "[\"\"]",
               "[0;0]", "()X0", "\"\"X3", "0X0", "[]X2", "1=1", "0Q1",
               "\"0\"=0", "\" 0\"", "\"\t0\"", "\"0x\"", "\"x0\"",
               "\"٠\"", "\"0_0\"", "\"inf\"", "\"nan\"", "\"+0\"",
               "\"0e5\"", "\"-.0\"", "\"1_0\"", "0E0", "1E-400", "r<0", "a",
               "\"000\"", "\"0.00\"", "\"\r0\""]
        for v in vs:
            yield (f"v:{v} RP[(v?1 2) !v !!v (v&7) (v|7) ({{a}}FI[v 1 v])]")
            yield (f"v:{v} I v{{P 1}}EL{{P 2}} W v{{P 3 v:0}} T v{{P 4 v:1}} "
                   f"I 0{{}}EI v{{P 5}}EL{{P 6}}")
            yield (f"v:[{v}] n:0 W n<3&v@0{{n+:1}} T n>5|v@0{{n+:2}} RP[n "
                   "({a}FI v) (_FI v) ({v@0}FI 0,2) v@0?1+1 2*3]")
            yield f"x:5 v:[{v}] x&:v@0 y:0 y|:v@0 RP[x y]"

    def structure():
        a, b, c, d = (tr(k, k + 4) for k in (1, 2, 3, 4))
        forms = ["[{a} {b} {c}]", "({a};{b};{c})", "({{a+b}} {a} {b})",
                 "([5 6 7] {a} {b})", "[{a} [{b} {c}] {d}]",
                 "({a}+{b})*({c}-{d})", "{a}+{b}*{c}", "({{a}} ({{b}} {a} {b}))",
                 "{a}.{b},{c}", "[{a}+{b} {c}?{d} {a}]", "x:{a}+y:{b}",
                 "x@{a}:{b}", "(x@{a}):{b}", "[x y]:[{a} {b}]",
                 "(x {a})::(y {b})", "x::{a}", "{a}::x", "V\"{a}\"",
                 "{a} R {b} {c}", "(_+{a})", "{{b}} M [{a} {b}]",
                 "({{a+b}} M [{a} {b}])", "$+[{a} {b} {c}]", "-*[{a} {b}]",
                 "({a} ; {b}) + {c}", "{a} , {b} , {c}", "[{a}]@{b}",
                 "x:[{a} {b}] y:x@{c}", "P {a}", "O {a}", "Y {a}"]
        for f in forms:
            e = f.format(a=a, b=b, c=c, d=d)
            yield PRE + f"x:[1 2] y:[3 4] z:({e}) RP[x y l]"
            yield PRE + f"x:[1 2] y:[3 4] {e} RP[x y l]"

    return [differential("logic", logic, "all and/or/not shapes of <= 4"
                         " operands x truth values"),
            differential("ternary", ternary_, "all conditionals x 7^3 values"),
            differential("chains", chains, "comparison chains of <= 4"),
            differential("operands", operands, "every operator's operands"),
            differential("changed", changed, "operands that change others'"
                         " variables, every operator"),
            differential("truth", truth, "values of every kind as conditions "
                         "in every form"),
            differential("structure", structure, "every kind of expression")]
