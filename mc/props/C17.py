"""Indexing wraps around and slices repeat cyclically, in every form."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
SEQ = ['""', '"a"', '"ab"', '"abc"', '"abcd"', '[]', '[1]', '[1;2]',
       '[1;2;3]', '["a";[1;2];();"d"]', '0,1', '0,3', '2,6', '3,3', '-2,2',
       '(),3']
LAZY = ['(0,())', '(2,())', '(-3,())', '(),()']
NON = ['()', '`abc`', '{a}']


def judge_law(case):
    """Item k of a value of length n is item k mod n, for each form."""
    seq, k = case
    items = {"s": list("abcd"), "l": ["p", "q", "r", "t"]}[seq[0]][:seq[1]]
    real = drv.build_real("".join(items) if seq[0] == "s" else tuple(items))
    want = items[k % len(items)]
    ks = drv.build_real(str(k))
    for form in ("a@b", "(a b)", "@[a@b]", "(a@b)", "x:a;x@b", "a@[b]@0",
                 "x:a;(x b)", "b=0?@a (a b)"):
        drv.STEPS[0] += 1
        o = drv.run_real(form, [real, ks], cache=True)
        if o.key != ("ok", want + "\n"):
            return (f"{form!r} with a={items} b={k} should be {want!r}: "
                    f"{o!r}")
    for n in range(0, 2 * len(items) + 1):
        if k < 0:
            break
        want = "".join(items[j % len(items)] for j in range(k, k + n))
        for form in ("J(a@(b,b+c))", "J(a(b,b+c))", "x:a;J(x@(b,b+c))"):
            drv.STEPS[0] += 1
            o = drv.run_real(form, [real, ks, drv.build_real(str(n))],
                             cache=True)
            if o.key != ("ok", want + "\n"):
                return (f"{form!r} with a={items} b={k} c={n} should be "
                        f"{want!r}: {o!r}")


def sweeps(tier):
    deep = tier == "thorough"
    m = 9 if deep else 6
    ks = [str(i) for i in range(-m, m + 1)]
    bounds = ["()"] + ks
    at = texts(2, "AT", "LEFTOF", "RIGHTOF", "PREFIX", "SUFFIX", "TRIM")
    at1 = texts(1, "AT", "LEFTOF", "RIGHTOF", "PREFIX", "SUFFIX", "TRIM")

    def law():
        for kind in "sl":
            for n in (1, 2, 3, 4):
                for k in range(-2 * m, 2 * m + 1):
                    yield ((kind, n), k)

    def ints():
        for s in SEQ + LAZY + NON:
            for t in at1:
                yield (f"RP({t} a)", (s,))
                yield (f"RP({t} [a]@0)", (s,))
                yield (f"x:a y:{t} x RP[x y]", (s,))
            for k in ks + ['""', '"x"', "1.5", '"2z"', "100", "-100"]:
                for t in at:
                    yield (f"RP(a {t} b)", (s, k))
                    yield (f"RP([a]@0 {t} b)", (s, k))
                yield ("RP(a b)", (s, k))
                yield ("RP([a]@0 b)", (s, k))
                yield ("x:a y:x@b x:5 RP[x y]", (s, k))

    def slices():
        for s in SEQ + LAZY:
            for lo in bounds:
                for hi in bounds:
                    r = f"({lo},{hi})"
                    yield ("RP[a@b]", (s, r))
                    if s in LAZY:
                        continue
                    for t in at[1:]:
                        yield (f"RP[a {t} b]", (s, r))
                    yield ("RP[([a]@0@b)(a b)]", (s, r))

    def fancy():
        ix = ['[]', '[0]', '[1;-1]', '[0;[1;2]]', '[(0,2);1]', '["";"x"]',
              '[()]', '[`a`]', '`a`', '`[b-c]+`', '`(.)(.)`', '``', '()',
              '{a}', '[[]]', '"ab"', '[5;-7]', '[(),2]']
        for s in SEQ + LAZY + NON + ['["abc";"cab"]', '[["x";"y"];"zw"]']:
            for i in ix:
                for t in at:
                    yield (f"RP(a {t} b)", (s, i))
                    yield (f"RP([a]@0 {t} b)", (s, i))
                yield ("RP(a b)", (s, i))

    def paths():
        base = ['[[1;2;3];["ab";[4;5]]]', '["abc";"de"]', '[1,5;"xyz"]']
        for b in base:
            for i in product(["0", "1", "-1", "2"], repeat=2):
                for e in ("(a b c)", "a@b@c", "((a b) c)", "(a@b)@c",
                          "a@b@<c", "a@<b@c", "@a@b", "(a b c 1)", "a@b@c@1",
                          "a@b@(c,2)", "a@(0,2)@b@c", "H a@b S a@c",
                          "(a@b)@>c", "a@>b@<c", "S(a@b)", "#a@b"):
                    yield (f"RP[{e}]", (b,) + i)
                    yield (f"x:a RP[{e.replace('a', 'x')}]", (b,) + i)

    return [tree_sweep("AT", "LEFTOF", "RIGHTOF", "PREFIX", "SUFFIX",
                       "TRIM", deep=deep),
            large_sweep("AT", "LEFTOF", "RIGHTOF", "PREFIX", "SUFFIX",
                        "TRIM"),
            Sweep("law", law, judge_law, "items and slices, 11 forms"),
            differential("indices", ints, f"all |index| <= {m}, all forms"),
            differential("slices", slices, f"all slices, |bound| <= {m}"),
            differential("fancy", fancy, "list, range and pattern indices"),
            differential("paths", paths, "all 2-3 step index paths")]
