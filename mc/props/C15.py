"""Comparisons: order laws, complements, chains."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
NUMC = ["=", "!=", "<", ">", "<=", ">="]
STRC = ["Q", "NE", "LT", "GT", "LE", "GE"]
POOL = VALUES + ['"-"', '"1.0"', '"01"', '"B"', '"ba"', '[1;2]', '[1;2;4]',
                 '[1;3]', '["1.0";2;3]', '[[1;2];[3;5]]', '[0;1;2]',
                 '[2;3;4]', '0,4', '1,3', '(),3', '-`a`', '{b}', '[()]',
                 '[0,3;1]', '[[0;1;2];1]', '"9"', '"10a"', '3.50']


def one(src, vals):
    drv.STEPS[0] += 1
    return drv.run_real(src, vals, "p", cache=True).key


def judge_laws(case):
    a, b = case
    vals = [val(a).real, val(b).real]
    for prog, what in [
            ("[a!=b]==[!a=b]", "!= is not ="),
            ("[a NE b]==[!a Q b]", "NE is not Q"),
            ("[a<b]==[b>a]", "< mirrors >"),
            ("[a<=b]==[b>=a]", "<= mirrors >="),
            ("[a LT b]==[b GT a]", "LT mirrors GT"),
            ("[a LE b]==[b GE a]", "LE mirrors GE"),
            ("[a=b]==[b=a]", "= is symmetric"),
            ("[a Q b]==[b Q a]", "Q is symmetric"),
            ("[a==b]==[b==a]", "== is symmetric"),
            ("!(a<b & a>b)", "< excludes >"),
            ("!(a LT b & a GT b)", "LT excludes GT"),
            ("(a CM b)=(a>b)-(a<b)", "CM is the sign of the comparison"),
            ("!a==b | a Q b", "equal values are string-equal"),
            ("[a#<b a#=b a#>b]==[b#>a b#=a b#<a]", "length mirrors"),
            ("a==a & a Q a & a=a & !a!=a & !a NE a & a<=a & a>=a & a LE a"
             " & a GE a", "reflexive")]:
        k = one(prog, vals)
        if what == "CM is the sign of the comparison" and "{" in a + b:
            continue
        if what in ("length mirrors",) and k[0] != "ok":
            continue
        if "{" in a + b and k != ("ok", "1\n"):
            continue      # comparisons of functions build functions
        if k != ("ok", "1\n"):
            return f"{what} fails for a={a} b={b}: {prog!r} gives {k!r}"


def judge_total(case):
    """On Scalars: exactly one of <, =, > (numbers) and LT, Q, GT."""
    a, b = case
    vals = [drv.build_real(a), drv.build_real(b)]
    for prog in ("(a<b)+(a=b)+a>b=1", "(a LT b)+(a Q b)+(a GT b)",
                 "(a<=b)=(a<b|a=b)", "(a LE b)=(a LT b|a Q b)",
                 "(a>=b)=!a<b", "(a GE b)=!(a LT b)"):
        p = "(a<b)+(a=b)+(a>b)" if prog.startswith("(a<b)+") else prog
        k = one(p, vals)
        if k != ("ok", "1\n"):
            return f"trichotomy {p!r} fails for a={a!r} b={b!r}: {k!r}"
    return diffv("RP[a<b a=b a>b a LT b a Q b a GT b a==b a CM b]", case)


def judge_trans(case):
    vals = [val(v).real for v in case]
    for t in ("<", "<=", "LT", "LE", "=", "Q", "=="):
        k = one(f"!(a {t} b & b {t} c) | a {t} c", vals)
        if k != ("ok", "1\n"):
            return f"{t} is not transitive on {case}: {k!r}"


def judge_chain(case):
    """A chain is the conjunction of its links."""
    ops, vals = case
    names = "abcde"
    c = "a" + "".join(f" {t} {names[k + 1]}" for k, t in enumerate(ops))
    conj = " & ".join(f"({names[k]} {t} {names[k + 1]})"
                      for k, t in enumerate(ops))
    real = [val(v).real for v in vals]
    k1, k2 = one(f"!!({c})", real), one(f"!!({conj})", real)
    if k1 != k2:
        return f"chain {c!r} {vals}: {k1!r}, but {conj!r}: {k2!r}"
    return diff(f"RP({c})", vals)


def sweeps(tier):
    deep = tier == "thorough"
    cmps = texts(2, "NUMEQUAL", "NUMNOTEQUAL", "NUMLESS", "NUMGREATER",
                 "NUMLESSEQ", "NUMGREATEREQ", "STREQUAL", "STRNOTEQUAL",
                 "STRLESS", "STRGREATER", "STRLESSEQ", "STRGREATEREQ",
                 "OBJEQUAL", "NUMCMP", "LENEQUAL", "LENLESS", "LENGREATER")

    def table():
        yield from binary(cmps, POOL)

    def laws():
        yield from product(POOL, repeat=2)

    def scalars():
        p = ["".join(t) for t in seqs("01a-.", 0, 3)]
        small = p if deep else [s for s in p if len(s) < 3] + ["1.0", "01a",
                                                               "-1a", "110"]
        yield from product(small, repeat=2)

    def lists():
        ls = ["[" + ";".join(t) + "]"
              for t in seqs(["1", "2", '"1.0"', "[1]", "()"], 0, 3 if deep
                            else 2)] + ["1,3", "1,2"]
        for t in cmps:
            for x in ls:
                for y in ls:
                    yield (f"RP(a {t} b)", (x, y))

    def trans():
        nums = ["0", "1", "2", "-1", '"1.0"', '"a"', '""', '"10"', '"9"',
                "0.5"]
        yield from product(nums, repeat=3)
        ls = ["[]", "[1]", "[2]", "[1;1]", "[1;2]", "[[1]]", "[[1];2]",
              '["1.0"]']
        for t in product(ls, repeat=3):
            if not any("[[" in i for i in t):
                yield t
        rs = ["0,3", "1,3", "0,4", "1,1", "(1,())", "(),2"]
        yield from product(rs, repeat=3)

    def chains():
        v = ["1", "2", '"a"', "[1]", "()"]
        for ops in product(NUMC + STRC, repeat=2):
            for vals in product(v, v, v):
                yield (ops, vals)
        for ops in product(NUMC, repeat=3):
            for vals in product(["1", "2"], repeat=4):
                yield (ops, vals)

    return [tree_sweep(*{OPS[2][t].fn for t in cmps}, deep=deep),
            large_sweep(*{OPS[2][t].fn for t in cmps}),
            differential("table", table,
                         f"{len(cmps)} comparisons x {len(POOL)}^2 values"),
            Sweep("laws", laws, judge_laws, f"all pairs of {len(POOL)} values"),
            Sweep("scalars", scalars, judge_total, "all pairs of numerals"),
            differential("lists", lists, "all pairs of short lists"),
            Sweep("transitivity", trans, judge_trans, "all triples"),
            Sweep("chains", chains, judge_chain, "all 2-3 link chains")]
