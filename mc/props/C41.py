"""Every operator on operands of every type, and all their compositions."""
from ..lib import *

LEVEL = "model_checking"
# Values at the edges of the types
EDGE = ['"0.0"', '"-0"', '".5"', '"5."', '"1e3"', '"007"', '"-"', '" 7"',
        '"7x"', '"-3.50"', '1000000000000000000000', '"1/2"', '"()"', '"é"',
        '"\n"', '[()]', '[[]]', '[1;()]', '["";""]', '[{a}]', '[`a`]',
        '[1,3;2]', '((),3)', '(-2,2)', '(5,5)', '{a;b}', '{}', '`(a)|b`',
        '``', '["a";"a"]', '[1.5;-2]', '"aAbB"', '[[1;[2]];3]']
ONE = VALUES + EDGE
FEW = ['0', '3', '-2.5', '""', '"ab"', '[]', '["b";[2;0]]', '1,4', '()',
       '`[ab]`', '{a.1}']


def sweeps(tier):
    deep = tier == "thorough"
    u, b, t = [o for o in deterministic(1) if o != "RE"], deterministic(2), deterministic(3)

    def unary_all():
        yield from unary(u, ONE)
        for o in u:
            for v in ONE:
                yield (f"RP({o}*a)", (v,))

    def binary_all():
        yield from binary(b, ONE if deep else VALUES + EDGE[::3])

    def ternary_all():
        for o in t:
            p = SMALL if deep else FEW
            for v, w, x in product(p, p, p):
                yield (f"RP(a {o} b c)", (v, w, x))

    def lengths():
        """Lists and strings of different lengths together."""
        L = ["[1;2;3;4]", '"abca"', "(1,6)", "[0;2;3]", '["a";"b";"c"]',
             "[0;-1]", '["x"]', '"bc"', "[[5;6;7];[8;9]]", "[1;2;3;4;5;6;7]"]
        for o in t:
            for v, w, x in product(L, repeat=3):
                yield (f"RP(a {o} b c)", (v, w, x))
        for o in b:
            for v, w in product(L, repeat=2):
                yield (f"RP(a {o} b)", (v, w))
                yield (f"RP($*([a;b;a] {o} b))", (v, w))

    def assigned():
        """op: computes the same and assigns it."""
        for o in u:
            for v in ONE if deep else VALUES:
                yield (f"{o}:a;RP a", (v,))
        for o in b:
            for v, w in product(VALUES if deep else FEW, FEW):
                yield (f"a {o}: b;RP[a b]", (v, w))

    def folded():
        for o in b:
            for v in ('[]', '[7]', '[3;1]', '["ab";2;()]', '1,5', '"abc"',
                      '[[1;2];3]', '[`a`;"b"]', '{a}', '()', '[{a};2]', '9',
                      '(-1,2)', '[[];[]]', '["";0;1]'):
                for m in ("$", "\\$", "\\$*", "*$"):
                    if m == "*$":
                        yield (f"RP(${o}*a)", (v,))
                    elif m == "\\$*":
                        yield (f"RP(\\${o}*a)", (v,))
                    else:
                        yield (f"RP({m}{o} a)", (v,))

    def composed():
        """All compositions of two unary operators."""
        for o, q in product(u, repeat=2):
            for v in FEW if deep else FEW[1::2]:
                yield (f"RP({o} {q} a)", (v,))

    def nested():
        """Binary operators under unary ones and beside each other."""
        for o, q in product(b, repeat=2):
            for v, w, x in (("3", "2", "5"), ('[4;"b"]', "1", "[0;2]"),
                            ('"aba"', '"a"', "2"), ("1,4", "2", "()"),
                            ("{a}", "[1;2]", "3"), ("`a`", '"ab"', "1")):
                yield (f"RP((a {o} b) {q} c)", (v, w, x))
                if deep:
                    yield (f"RP(a {o} (b {q} c))", (v, w, x))

    def lifted():
        """Operators on functions give functions."""
        for o in u:
            for f in ("{a}", "{a+1}", "_", "B"):
                for v in ("3", '"ab"', "[1;[2]]", "()", "0,2"):
                    yield (f"({o} {f})", (v,))
                    yield (f"RP(({o} {f})a)", (v,))
        for o in b:
            for f, g in (("_", "2"), ("3", "_"), ("_", "B"), ("_", '"a"'),
                         ("{a}", "{b+1}")):
                for v, w in (("3", "4"), ('"ab"', "1"), ("[1;2]", "[0;1]")):
                    yield (f"({f} {o} {g})", (v, w))
                    yield (f"RP(({f} {o} {g})a b)", (v, w))

    S = differential
    return [
        tree_sweep(deep=deep, every=1 if deep else 7),
        large_sweep(),
        S("unary", unary_all, f"{len(u)} operators x {len(ONE)} values"),
        S("binary", binary_all, f"{len(b)} operators x pairs of values"),
        S("ternary", ternary_all, f"{len(t)} operators x triples of values"),
        S("lengths", lengths, "operators on lists of all lengths"),
        S("assigned", assigned, "all assignment operators"),
        S("folded", folded, "all folds, scans and maps"),
        S("composed", composed, "all pairs of unary operators"),
        S("nested", nested, "all pairs of binary operators"),
        S("lifted", lifted, "all operators on functions")]
