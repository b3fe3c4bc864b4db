"""Sorting permutes its argument into a stable order."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
KEYS = ["{a}", "{-a}", "{#a}", "{a%2}", "{a@0}", "{a.\"\"}", "{0}", "{b}",
        "{()}", "{[a%2;a]}", "_", "{$+a}", "{a@-1}", "{a~`a`}", "{[a]}",
        "{i+:1 0-i}", "{x.:a #a}", "{a<2?\"b\" a}", "{g}", "{P a}"]


def judge_law(items):
    """SN/SS/SK/DN... on the real code against sorted()."""
    n = [int(i) for i in items]
    v = drv.build_real(tuple(items))
    want = {
        "SN a": sorted(items, key=float),
        "DN a": sorted(items, key=float, reverse=True),
        "SS a": sorted(items),
        "DS a": sorted(items, reverse=True),
        "{a%3}SK a": sorted(items, key=lambda x: int(x) % 3),
        "{-a}SK a": sorted(items, key=lambda x: -int(x)),
        "{a%3}DK a": sorted(items, key=lambda x: int(x) % 3, reverse=True),
        "RV SN a": sorted(items, key=float)[::-1],
        "SN SN a": sorted(items, key=float),
        "[MX a MN a]": [str(max(n)), str(min(n))] if n else None,
    }
    for src, w in want.items():
        if w is None:
            continue
        drv.STEPS[0] += 1
        o = drv.run_real(src, [v], "s", cache=True)
        if o.kind != "ok" or o.out.rstrip("\n").split(" ") != (w or [""]):
            return f"{src!r} of {items} should be {w}: {o!r}"


def judge_stable(pairs):
    """Items with equal keys keep their order (pairs of key and tag)."""
    v = drv.build_real(tuple((k, t) for k, t in pairs))
    for src, rev in (("{a@0}SK a", False), ("{a@0}DK a", True),
                     ("SN a", False)):
        if src == "SN a":
            continue
        w = sorted(pairs, key=lambda p: float(p[0]), reverse=rev)
        o = drv.run_real(src, [v], "p", cache=True)
        drv.STEPS[0] += 1
        exp = "[" + ";".join(f'[{k};"{t}"]' for k, t in w) + "]\n"
        if o.key != ("ok", exp):
            return f"{src!r} of {pairs} should be {exp}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    srt = texts(1, "SORTNUM", "SORTSTRING", "DESCENDINGNUM",
                "DESCENDINGSTRING", "MAX", "MIN")
    keyed = texts(2, "SORTKEYED", "DESCENDINGKEYED")
    atoms = ['1', '-2', '10', '"a"', '"B"', '""', '3.5', '[1]', '[0;5]', '()',
             '0,2', '"9z"', '`a`']
    lists = ["[" + ";".join(t) + "]" for t in seqs(atoms[:9], 0, 3)] + \
        ["[" + ";".join(t) + "]" for t in product(atoms, repeat=2)]

    def laws():
        yield from seqs(["3", "-1", "10", "9", "0"], 0, 6 if deep else 5)
        yield from seqs(["3", "-1"], 6, 11)

    def stable():
        for n in range(0, 6 if deep else 5):
            for ks in product(["1", "2", "1.5" if deep else "-1"], repeat=n):
                yield tuple(zip(ks, "pqrst"))

    def plain():
        yield from unary(srt, lists)
        yield from unary(srt, VALUES + ['"3b1a2"', '"cab"', '"a1"', '-3,4',
                                        '[[2;1];[1;9];[1]]', '["b";["a"]]',
                                        '[1,3;[0]]', '["10";"9";"1e1"]'])
        strs = ["".join(t) for t in seqs("ab1", 0, 4)]
        yield from unary(srt, [lit(s) for s in strs])

    def keys():
        pool = ["[" + ";".join(t) + "]" for t in seqs(
            ['1', '"a"', '[2;1]', '-3', '()'], 0, 3)] + \
            ['"bca"', '""', '"3142"', '0,5', '3,1', '["bb";"a";"ccc";"dd"]']
        for t in keyed:
            for k in KEYS:
                for v in pool:
                    yield (f"i:0 P RP(b {t} a) RP[x i]", (v, k))
            for k in KEYS[:6]:
                for v in pool[::3]:
                    yield (f"i:0 P RP(a {t} b) RP[x i]", (v, k))
            for v in VALUES:
                for w in VALUES:
                    yield (f"RP(a {t} b)", (v, w))

    def nested():
        subs = ["[" + ";".join(t) + "]" for t in seqs(["1", "2", '"b"'], 0, 2)]
        for a in subs + ['"12"', '1,3']:
            for b in subs + ['"1"']:
                for c in subs[:6]:
                    yield ("RP[SN a SS a DN a DS a _SK a MX a MN a]",
                           (f"[{a};{b};{c}]",))

    def copies():
        for t in srt:
            for v in ("[3;1;2]", "[[2];[1]]", '"ba"', "0,3"):
                yield (f"x:a y:{t} x y@0:9 (y 1 0):8 RP[x y a]", (v,))
                yield (f"RP {t} [a]@0", (v,))
        for t in keyed:
            for v in ("[3;1;2]", "[[2];[1]]", '"ba"', "0,3"):
                yield (f"x:a y:({{-a}} {t} x) y@0:9 (y 1 0):8 RP[x y a]", (v,))
                yield (f"x:a y:({{x@0:7 a}} {t} x) RP[x y a]", (v,))
                yield (f"x:a y:({{a@0:7 a}} {t} x) RP[x y a]", (v,))

    return [tree_sweep(*{OPS[1][t].fn for t in srt},
                       *{OPS[2][t].fn for t in keyed}, deep=deep),
            large_sweep(*{OPS[1][t].fn for t in srt},
                        *{OPS[2][t].fn for t in keyed}),
            Sweep("order", laws, judge_law, "all lists of 5 numbers <= 5"),
            Sweep("stable", stable, judge_stable, "all key patterns <= 4"),
            differential("plain", plain, "all lists of <= 3 of 9 items"),
            differential("keyed", keys, f"{len(KEYS)} key functions"),
            differential("nested", nested, "lists of lists"),
            differential("copies", copies, "operand and result apart")]
