"""Item-wise operators apply to Lists and Ranges item by item."""
from ..lib import *
from .. import drv
from ..ref.table import LIST_EACH, RANGE_EACH

LEVEL = "model_checking"
SHAPES = ['2', '3', '"5"', '[]', '[2]', '[2;3]', '[2;3;5]', '[[2];3]',
          '[[2;3];5]', '[[2;3];[5;7]]', '[[2];[3;5;7]]', '[[]]', '[[];2]',
          '[[[2]]]', '[2;[3;[5]]]', '0,3', '2,4', '3,3', '[1,3;2]', '[1,4]',
          '()', '[();2]', '["a";2]', '"ab"', '`a`', '[`a`;2]', '{a}',
          '(1,())', '(),2']
ARITH = ['2', '[2;3]', '[2;[3;5]]', '1,4', '[1,3]', '"x"']


def each(arity):
    return [t for t in deterministic(arity)
            if OPS[arity][t].flags & LIST_EACH]


def judge_law(case):
    """[p;q] op r = [p op r; q op r], without the reference."""
    t, p, q, r = case
    vals = [drv.val(v).real for v in (p, q, r)]
    ranged = OPS[2][t].flags & RANGE_EACH
    progs = ["([a b]{t}c) == [a{t}c b{t}c]", "(c{t}[a b]) == [c{t}a c{t}b]",
             "([a b]{t}[c a]) == [a{t}c b{t}a]",
             "([a b c]{t}[c]) == [a{t}c b c]", "([c]{t}[a b c]) == [c{t}a b c]"]
    if ranged:
        progs += ["((2,4){t}c) == ([2 3]{t}c)", "(c{t}(2,4)) == (c{t}[2 3])",
                  "((2,4){t}[c]) == ([2 3]{t}[c])"]
    for prog in progs:
        src = prog.replace("{t}", f" {t} ")
        drv.STEPS[0] += 1
        o = drv.run_real(src, vals, "p", cache=True)
        if o.key not in (("ok", "1\n"), ("fatal", "")):
            return f"{src} with a={p} b={q} c={r}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    un, bi = each(1), each(2)

    def unary_():
        yield from unary(un, SHAPES + VALUES)
        yield from unary(un, SHAPES, "x:a RP[{} x x]")

    def binary_():
        yield from binary(bi, SHAPES)

    def grown():
        # every list of <= 3 items over scalars, lists and ranges
        items = ['2', '[3]', '0,2', '[]']
        ls = ["[" + ";".join(i) + "]" for i in seqs(items, 0, 3)]
        for t in bi if deep else ["*", "-", "/", "BA", "X", "TB", "^"]:
            if t not in bi:
                continue
            for x in ls:
                for y in ls if deep else ls[:21]:
                    yield (f"RP(a {t} b)", (x, y))

    def laws():
        pool = ['2', '"a"', '[3;5]', '7', '0.5']
        for t in bi:
            for p in product(pool, pool, ['2', '"a"', '7', '0.5']):
                yield (t,) + p

    def nested():
        fns = texts(1, "NEG", "ABS", "SIGN", "INVERT", "SQUARE")
        for t in fns:
            for u in fns:
                for v in SHAPES:
                    yield (f"RP({t} {u} a)", (v,))
        bs = ["*", "-", "+", "BA", ",", "."]
        for t in bs:
            for u in bs:
                for v in product(ARITH, repeat=3):
                    yield (f"RP((a {t} b) {u} c)", v)

    return [tree_sweep(*{OPS[n][t].fn for n in (1, 2) for t in each(n)},
                       deep=deep, every=1 if deep else 6),
            large_sweep(*{OPS[n][t].fn for n in (1, 2) for t in each(n)}),
            differential("unary", unary_, f"{len(un)} operators x all shapes"),
            differential("binary", binary_,
                         f"{len(bi)} operators x all pairs of {len(SHAPES)}"
                         " shapes"),
            differential("grown", grown, "all lists of <= 3 items, in pairs"),
            Sweep("laws", laws, judge_law, "distribution over list items"),
            differential("nested", nested, "compositions of two operators")]
