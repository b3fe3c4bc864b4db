"""Exact equality, and the operators that search, count and deduplicate."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
ATOMS = ['1', '"1.0"', '"a"', '""', '()', '[1]', '[]', '0,2', '[0;1]', '`a`',
         '{a}', '-`a`', '[[1]]', '(1,())', '"01"', '{b}', '{$+a}', '{$-a}',
         '{\\$+a}', '{+*a}', '{+a}', '(),2', '2,2', '5,3', '"1"', '``', '{}',
         '{()}', '{x:1}', '{x+:1}', '0,3', '(0,())',
         '{P 1 a}', '{P 2 a}', '{x:1 a}', '{P 1;P 2 a}', '{P 2;P 1 a}',
         '{I a{P 1} a}', '{I a{P 1}EL{P 2} a}', '{a a}', '{P 1}',
         '{F i a{P i} a}', '{F x a{P i} a}']


def judge_eq(case):
    """== is exactly sameness of type and contents."""
    a, b = case
    x, y = val(a), val(b)
    want = same(x.ref, y.ref)
    out = drv.run_real("[a==b b==a [a]==[b] [a;1]==[b;1] [[a]]==[[b]]]",
                       [x.real, y.real], "p").key
    w = str(int(want))
    drv.STEPS[0] += 1
    if out != ("ok", "[" + ";".join([w] * 5) + "]\n"):
        return f"{a} == {b} should be {w}: {out!r}"
    ra, rb = x.real, y.real
    if (ra == rb) != want or (ra != rb) == want:
        return f"{a} and {b} compare as {ra == rb}, should be {want}"
    if want and hash(ra) != hash(rb) and not isinstance(ra, drv.ptypes.List):
        return f"equal values {a} and {b} have different hashes"
    return None


def same(x, y):
    from ..ref.ops import same as s
    return bool(s(x, y))


def sweeps(tier):
    deep = tier == "thorough"
    find = texts(2, "FIND", "FINDALL", "IN", "NOTIN", "REMOVE")
    # the operand order differs: item N list, list @? item
    needle_first = texts(2, "IN", "NOTIN")

    def eq():
        yield from product(ATOMS, repeat=2)
        ls = ["[" + ";".join(t) + "]" for t in seqs(ATOMS[:9], 1, 2)]
        yield from product(ls, repeat=2)

    def search(hay, needles):
        for t in find:
            for h in hay:
                for n in needles:
                    yield (f"RP(b {t} a)" if t in needle_first
                           else f"RP(a {t} b)", (h, n))

    def lists():
        items = ['1', '"1.0"', '"a"', '()', '[1]', '`a`']
        hay = ["[" + ";".join(t) + "]" for t in seqs(items, 0, 3)]
        yield from search(hay, items + ['[]', '""', '0,1', '{a}', '[1;"a"]'])
        yield from unary(["UQ"], hay)
        yield from unary(["UQ"], ATOMS + ["[" + ";".join(t) + "]" for t in
                                          seqs(['1', '"a"', '[1]'], 4, 5)])

    def mixed():
        hay = ["[" + ";".join(t) + "]" for t in seqs(ATOMS, 1, 2)]
        for h in hay:
            yield ("RP UQ a", (h,))
            for n in ATOMS[::2] if not deep else ATOMS:
                yield ("RP[(b N a)(a@?b)(a@*b)]", (h, n))
        yield from search(VALUES + ATOMS, VALUES + ATOMS)

    def strings():
        hay = ["".join(t) for t in seqs("ab", 0, 6 if deep else 5)]
        ns = ["".join(t) for t in seqs("ab", 0, 3)]
        for h in hay:
            yield ("RP UQ a", (lit(h),))
            for n in ns:
                yield ("RP[(b N a)(b NI a)(a@?b)(a@*b)(a RM b)#(a^b)]",
                       (lit(h), lit(n)))
        for h in ("", "a", "aab", "1213", "a.b"):
            for n in ("[]", '["a"]', '["a";"b"]', '["a";["b"]]', "1,3",
                      '["1";()]', '[`a`;"b"]', "[1;2]"):
                yield ("RP[(b N a)(b NI a)(a@?b)(a@*b)(a RM b)]",
                       (lit(h), n))

    def ranges():
        rs = [f"({lo},{hi})" for lo in ("()", "-1", "0", "2", "4")
              for hi in ("()", "0", "1", "3")]
        for r in rs:
            for n in ["-2", "-1", "0", "1", "2", "3", "4", '"1.0"', "1.5",
                      "-0.5", "0.5", "-1.5", "-1.25", "3.5", "0.25",
                      '"-0.5x"', '"2.75"', "-0.0000001", '"3.0"', '"1e0"',
                      '""', '"a"', "()", "[1;2]", "0,2", "`1`", "{a}", '"02"',
                      "2.5"]:
                for t in find:
                    if "()" in r.split(",")[1] and t == "RM":
                        continue
                    yield (f"RP(b {t} a)" if t in needle_first
                           else f"RP(a {t} b)", (r, n))

    def inside():
        # items that are part of other items, of many lengths
        words = ["abcdefgh"[i:j] for i in range(8) for j in range(i, 9)
                 if j - i > 2] if deep else [
            "abcdefgh"[i:j] for i, j in ((0, 1), (0, 3), (0, 4), (1, 4), (0, 5),
                                         (1, 5), (2, 5), (0, 6), (1, 6), (2, 8),
                                         (0, 8), (4, 8))]
        items = ['"' + w + '"' for w in words] + ['1234', '123', '234', '12345',
                                                  '["abcd"]', '`abcd`', '`abc`']
        for x, y in product(items, repeat=2):
            for h in (f"[{x};1;{y}]", f"[[{x}];{y};[{x}]]"):
                for n in {x, y, items[(len(x) * 7 + len(y)) % len(items)]}:
                    yield ("RP[(b N a)(b NI a)(a@?b)(a@*b)(a RM b)(UQ a)]",
                           (h, n))
            yield ("RP[(b N a)(b NI a)(a@?b)(a@*b)(a==b)]", (x, y))

    def tuples():
        # short lists in lists, which share items at all places
        ls = ["[" + ";".join(t) + "]" for t in
              seqs("12", 0, 4 if deep else 3)]
        ss = [lit("".join(t)) for t in seqs("ab", 1, 3)]
        for items in (ls, ss):
            for x, y in product(items, repeat=2):
                h = f"[{x};{y};{x}]"
                yield ("RP UQ a", (h,))
                for n in {x, y, items[(len(x) * 5 + len(y)) % len(items)]}:
                    yield ("RP[(b N a)(b NI a)(a@?b)(a@*b)(a RM b)]", (h, n))

    def alike():
        # items that look alike but differ: spellings, types, nesting
        items = ['1', '"1.0"', '"01"', '[1]', '"[1]"', '"1 "', '`1`', '0,1',
                 '[0]', '"(0,1)"', '-1', '"-1.0"', '{1}', '"{1}"', '""', '[]',
                 '()', '[[]]', '[""]', '"A"', '"a"', '-`1`']
        for l in seqs(items, 2, 3 if deep else 2):
            h = "[" + ";".join(l) + "]"
            yield ("RP UQ a", (h,))
            yield ("RP UQ[a a@1 a]", (h,))
        for x, y in product(items, repeat=2):
            h = f"[{x};{y};{x}]"
            for n in items:
                yield ("RP[(b N a)(b NI a)(a@?b)(a@*b)(a RM b)]", (h, n))

    return [tree_sweep("FIND", "FINDALL", "IN", "NOTIN", "REMOVE", "UNIQUE",
                       "OBJEQUAL", deep=deep),
            large_sweep("FIND", "FINDALL", "IN", "NOTIN", "REMOVE",
                        "UNIQUE", "OBJEQUAL"),
            Sweep("equality", eq, judge_eq,
                  f"all pairs of {len(ATOMS)} values, in lists too"),
            differential("lists", lists, "all lists of <= 3 of 6 items"),
            differential("mixed", mixed, "all pairs of values of all types"),
            differential("strings", strings, "all ab strings of <= 5"),
            differential("alike", alike, "lists of items that look alike"),
            differential("tuples", tuples, "lists of pairs of short lists"),
            differential("inside", inside, "items that are parts of others"),
            differential("ranges", ranges, "ranges x 28 needles")]
