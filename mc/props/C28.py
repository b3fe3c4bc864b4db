"""Operators that rearrange lists keep their items and order."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
S = ['""', '"a"', '"ab"', '"abcde"', '[]', '[1]', '[1;2]', '[1;2;3;4;5]',
     '["ab";"c"]', '[[1;2];[3]]', '[[1;2];[3;4];[5;6]]', '[[];[1]]', '0,0',
     '0,4', '2,4', '["abc";[1;2];7]', '[[[1;2];[3]];[4;[5]]]', '[(0,2);"xy"]',
     '[();5]', '["aabb";"ba"]', '[[[[1]]]]', '[1;1;2;2;1]', '"aabba"', '12345']
NUMS = ['-2', '-1', '0', '1', '2', '3', '4', '5', '7', '2.9', '"x"', '()',
        '[1;2]', '[2;1]', '[2;3]', '0,2', '`a`', '{a}', '[]', '[3;0]',
        '[-1;2]', '""', '(2,())']


def judge_law(case):
    """Laws of the structural operators on the real code alone."""
    items, n = case
    v = drv.build_real(tuple(items))
    k = drv.build_real(str(n))
    m = len(items)
    L = lambda xs: "[" + ";".join(
        L(x) if isinstance(x, (list, tuple)) else x for x in xs) + "]"
    it = list(items)
    cut = [it[j:j + n] for j in range(0, m, n)] if n > 0 else None
    want = {"RV a": it[::-1], "PZ a": it + it[-2::-1] if m else it,
            "QP a": None, "RF a": it + it[::-1],
            "EN a": [[str(j), x] for j, x in enumerate(it)],
            "a RL b": it * max(n, 0),
            "a AL a": it + it, "a AE b": it + [str(n)],
            "a PE b": [str(n)] + it, "#a": None,
            "a<>b": cut, "FL[a a]": it + it,
            "FA[a [a]]": it + it,
            "UQ a": list(dict.fromkeys(it)),
            "a CP a": [[x, y] for x in it for y in it],
            "a Z a": [[x, x] for x in it],
            "UW a": [it[0::2], it[1::2]],
            "a UW b": [it[j::n] for j in range(n)] if n > 0 else None,
            "WV[a a]": [x for x in it for _ in (0, 1)],
            "a WV a": [x for x in it for _ in (0, 1)],
            "Z[a a a]": [[x] * 3 for x in it],
            "RV RV a": it, "WV UW a": it, "FL(a<>b)": it if n > 0 else None,
            "WV(a UW b)": it if n > 0 else None,
            "Z Z[a a]": [it, it] if m else [],
            "FL(a CH b)": it if n > 0 else None,
            "#*(a CH b)": [str((j + 1) * m // n - j * m // n)
                           for j in range(n)] if n > 0 and m >= n else None,
            "#CP[a a a]": None}
    import itertools as I
    want["PM a"] = [list(p) for p in I.permutations(it)] if m <= 4 else None
    want["a CB b"] = ([list(p) for p in I.combinations(it, n)] if n >= 0
                      else None)
    for src, w in want.items():
        if w is None:
            continue
        drv.STEPS[0] += 1
        o = drv.run_real(src, [v, k], "p", cache=True)
        if o.key != ("ok", L(w) + "\n"):
            return f"{src!r} of {L(it)}, {n} should be {L(w)}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    one = texts(1, "FLATTEN", "FLATTENALL", "ZIP", "ZIPDEFAULT", "ZIPJOIN",
                "UNWEAVE", "WEAVE", "CARTESIANPRODUCT", "PERMUTATIONS",
                "ENUMERATE", "GROUP", "CHOP", "REFLECT", "QUADREFLECT",
                "PALINDROMIZE", "QUADPALINDROMIZE", "REVERSE", "UNIQUE",
                "SPLIT", "LEN", "JOIN")
    grid = texts(1, "IDENTITYMATRIX", "COORDINATEGRID", "ONEGRID", "ZEROGRID")
    two = texts(2, "ZIP", "ZIPDEFAULT", "ZIPJOIN", "UNWEAVE", "WEAVE",
                "CARTESIANPRODUCT", "COMBINATIONS", "GROUP", "CHOP",
                "SPLITAT", "REPEATLIST", "APPENDELEM", "APPENDLIST",
                "PREPENDELEM", "JOIN", "JOINWRAP", "STRMUL", "WRAP")
    grid2 = texts(2, "COORDINATEGRID", "ONEGRID", "ZEROGRID")

    def laws():
        for t in seqs("12", 0, 4):
            for n in range(-1, 7):
                yield (t, n)
        for m in range(5, 9):
            for n in range(1, m + 2):
                yield (tuple(str(j) for j in range(m)), n)

    def unaries():
        yield from unary(one, S + VALUES)
        yield from unary(grid, NUMS + VALUES + ['"3"', '6', '[1;1]', '[0;0]',
                                                '[2;2;2]', '["2";[1]]'])
        yield from unary(one, S, form="RP({} [a]@0)")
        for t in one:
            for s in S:
                yield (f"x:a y:{t} x RP[x y]", (s,))

    def binaries():
        for t in two:
            for a in S:
                for b in NUMS + S[::2]:
                    yield (f"RP(a {t} b)", (a, b))
                    yield (f"RP(b {t} a)", (a, b))
        for t in grid2:
            for a in NUMS:
                for b in NUMS + ['"ab"', '[1;[2]]']:
                    yield (f"RP(a {t} b)", (a, b))

    def shapes():
        # all ragged lists of lists
        subs = ["[]", "[1]", "[2;3]", '"pq"', "0,2"] + (["5", '""'] if deep
                                                        else ["5"])
        for t in seqs(subs, 1, 3):
            v = "[" + ";".join(t) + "]"
            yield ("RP[(Z a)(ZD a)(ZJ a)(WV a)(FL a)(FA a)(CP a)(RV a)(UQ a)(R a)]", (v,))
            yield ("RP[(a ZD 9)(ZD a)(a Z a@0)(a WV a@0)(UW a)(a<>2)(a CH 2)(EN a)]",
                   (v,))
            yield ("RP[(PZ a)(QP a)(RF a)(QR a)(PM a)]" if len(t) < 3 else
                   "RP[(PZ a)(QP a)(RF a)(QR a)]", (v,))

    def grids():
        # character/number grids of all small sizes
        for r in range(0, 4):
            for c in range(0, 4):
                v = "[" + ";".join(
                    "[" + ";".join(str(i * c + j) for j in range(c)) + "]"
                    for i in range(r)) + "]"
                s = "[" + ";".join('"' + "abcdefghijkl"[i * c:i * c + c] + '"'
                                   for i in range(r)) + "]"
                for x in (v, s):
                    yield ("RP[(QR a)(QP a)(RF a)(PZ a)(Z a)(RV a)(RV*a)(Z Z a)(RV Z a)]",
                           (x,))
                    yield ("RP[(Z RV a)(ZJ a)(J*a)(ZJ RV a)(a<>2)(a WV a)(UW a)]",
                           (x,))
                yield (f"RP[({r} CG {c})({r} ZG {c})({r} OG {c})(CG[{r} {c}])"
                       f"(ZG[{r};{c}])(OG[{r};{c}])]", ())
            yield (f"RP[(EY {r})(CG {r})(ZG {r})(OG {r})]", ())

    def split():
        xs = ["-1", "0", "1", "2", "3", "5", "9", "[]", "[1]", "[1;3]",
              "[3;1]", "[0;2]", "[2;2]", "[9]", "[-1]", "[-1;2]", "0,3",
              '"x"', '["x";1]', "()", "[[1]]", "1.7", "(1,())"]
        for t in texts(2, "SPLITAT", "CHOP", "GROUP", "UNWEAVE",
                       "COMBINATIONS", "REPEATLIST"):
            for s in S:
                for x in xs:
                    yield (f"RP(a {t} b)", (s, x))
                    yield (f"RP(b {t} a)", (s, x))
                    yield (f"RP([a]@0 {t} [b]@0)", (s, x))

    def replace():
        subj = ['""', '"abcd"', '[]', '[1;2;3;4]', '0,4', '[[1;2];"ab";5]',
                '(0,())', '5678', '()', '`ab`', '{a}']
        idx = ['0', '2', '-1', '9', '"1x"', '[]', '[0]', '[0;2]', '[2;0;2]',
               '[0;1;2;3]', '[[0;1];3]', '0,2', '1,1', '1,9', '(0,())', '()',
               '[(0,2)]', '[();1]', '-9', '`a`', '[`a`]', '{a}', '""', '1.9',
               '[-1;-2]']
        new = ['9', '"XY"', '""', '[]', '["X"]', '["X";"Y"]',
               '["X";"Y";"Z"]', '[7;[8;9]]', '0,2', '()', '`p`', '{a}',
               '["p";"q";"r";"s";"t"]', '[()]']
        for s in subj:
            for i in idx:
                for n in new:
                    yield ("RP(a RA b;c)", (s, i, n))
                    yield ("x:a y:(x RA b;c) RP[x y b c]", (s, i, n))

    def fractions():
        ns = [f"{s}{w}.{f}" for s in ("", "-") for w in (0, 1, 2, 3, 5)
              for f in ("1", "25", "5", "75", "9", "0")]
        for t in texts(2, "CHOP", "GROUP"):
            for s in ['""', '"a"', '"abc"', '"abcdefg"', '[1;2;3;4;5]', '0,6',
                      '[[1;2];3]', '12345678']:
                for n in ns:
                    yield (f"RP(a {t} b)", (s, n))

    def pairs():
        # compositions of two rearrangements
        for t in one:
            for u in one:
                for s in S[:12:2] if not deep else S:
                    if "PM" in (t, u) and len(s) > 8 or t == u == "PM":
                        continue
                    yield (f"RP {t} {u} a", (s,))

    def lengths():
        # nested lists and strings of every length
        for m in (*range(4, 34), 64, 65, 100) if deep else (
                *range(5, 18), 20, 31, 32, 33, 64, 65):
            nest = "[" + ";".join(
                ("[1;[2;3]]", '"ab"', "[[[5]]]", str(j), "0,2", "[]")[j % 6]
                for j in range(m)) + "]"
            same = "[" + ";".join(["[1;[2]]"] * m) + "]"
            text = lit("".join("abcdefg"[j % 7] for j in range(m)))
            for v in (nest, same, text, f"3,{m + 3}"):
                for t in one:
                    if OPS[1][t].fn not in ("PERMUTATIONS",
                                            "CARTESIANPRODUCT"):
                        yield (f"RP {t} a", (v,))
                for t in two:
                    big = OPS[2][t].fn in ("CARTESIANPRODUCT", "COMBINATIONS")
                    for w in (("2",) if big else
                              ("2", "3", str(m), str(m - 1), "[5;[6]]", '"xy"')):
                        yield (f"RP(a {t} b)", (v, w))
                        if not big:
                            yield (f"RP(b {t} a)", (v, w))

    def alike():
        # items that look alike but differ: spellings, types, nesting
        items = ['1', '"1.0"', '"01"', '[1]', '"[1]"', '`1`', '0,1', '[0]',
                 '{1}', '""', '[]', '()', '[""]']
        for l in seqs(items, 2, 3 if deep else 2):
            h = "[" + ";".join(l) + "]"
            for t in one:
                yield (f"RP {t} a", (h,))
                if len(l) == 2 and t != "PM":
                    yield (f"RP {t}[a@1 a a@0 a@1]", (h,))
        for x, y in product(items, repeat=2):
            for t in two:
                yield (f"RP(a {t} b)", (f"[{x};{y}]", f"[{y};{x};{x}]"))

    return [tree_sweep(*{OPS[1][t].fn for t in one},
                       *{OPS[2][t].fn for t in two}, "REPLACEAT", deep=deep,
                       every=1 if deep else 3),
            large_sweep(*{OPS[1][t].fn for t in one},
                        *{OPS[2][t].fn for t in two}, "REPLACEAT"),
            Sweep("laws", laws, judge_law, "30 laws x all lists"),
            differential("unary", unaries, f"{len(one + grid)} operators"),
            differential("binary", binaries, f"{len(two + grid2)} operators"),
            differential("shapes", shapes, "all ragged lists of <= 3 lists"),
            differential("grids", grids, "all grids up to 3 x 3"),
            differential("split", split, "splitting by numbers and lists"),
            differential("alike", alike, "lists of items that look alike"),
            differential("lengths", lengths, "nested lists of every length "
                         "up to 65"),
            differential("replace", replace, "RA: 11 x 25 x 14 operands"),
            differential("fractions", fractions, "fractional sizes"),
            differential("pairs", pairs, "all pairs of rearrangements")]
