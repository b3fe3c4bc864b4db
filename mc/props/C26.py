"""Mapping and filtering call the function once per item, in order."""
from ..lib import *

LEVEL = "model_checking"
FNS = ["{a}", "{a+1}", "{b}", "{[a;b]}", "{g}", "{x.:a x}", "{a%2}", "_", "B",
       "{}", "{P a}", "{()}", "{a@0}", "{x:b a}", "{[a;a]}", "{$+g}", "{#a}",
       "{a:9 x+:1 x}", "{i}", "{U i i>2}", "{a~`a`}", "{f}", "{\"\"}",
       "{[a]}", "{\"ab\"}"]
ITS = ['""', '"ab"', '"12"', '[]', '[1]', '[1;2;3]', '[0;1;0]', '["a";[1;2]]',
       '[[1;2];[3;4]]', '[[1];[];[2;3;4]]', '0,3', '2,2', '1,4', '5', '"a1b2"',
       '[(0,2);"xy"]', '[();0;"";[]]', '["ab";"c"]', '[[[1];2];3]', '"1001"']
NOFN = ['()', '5', '"q"', '[1;2]', '`a`', '0,2', '[{a};{a*2}]', '[]']
MAPS = ["MAP", "MAPENUMERATE", "MAPFLATTEN", "MAPJOIN", "MAPMAP", "MAPPAIRS",
        "MAPSUM", "MAPUNPACK"]
FILTERS = ["FILTER", "FILTERNOT", "FILTERENUMERATE", "FILTERINDEXES",
           "FILTERJOIN", "FILTERUNPACK"]


def judge_calls(case):
    """The function is called on exactly the items, in order; the results
    relate as documented (checked on the real code alone)."""
    from .. import drv
    it, f = case
    v = val(it)
    items = [val_item for val_item in drv.V.elems(v.ref)]
    n = len(items)
    reps = [drv.V.rep(x) for x in items]
    log = "".join(f"{x}\n" for x in reps)
    pairs = "".join(f"[{k};{x}]\n" for k, x in enumerate(reps))
    truth = [k % 3 == 1 for k in range(n)]
    kept = [x for x, t in zip(items, truth) if t]
    drop = [x for x, t in zip(items, truth) if not t]
    L = drv.V.rep
    run = drv.run_real
    for src, calls, res in (
            # a log of calls, then the result
            ("RP({P RP a a} M a)", log, L(tuple(items))),
            ("RP(a M {P RP a i+:1 i})", log, L(tuple(map(str, range(1, n + 1))))),
            ("RP({P RP[a;b] a} ME a)", pairs,
             L(tuple(map(str, range(n))))),
            ("RP({P RP[a;b] b} MP a)", "".join(
                f"[{x};{y}]\n" for x, y in zip(reps, reps[1:])),
             L(tuple(items[1:]))),
            ("RP({P RP a i+:1 i%3=2} FI a)", log, L(tuple(kept))),
            ("RP({P RP a i+:1 i%3=2} FN a)", log, L(tuple(drop))),
            ("RP({P RP[a;b] a%3=1} FX a)", pairs,
             L(tuple(str(k) for k in range(n) if truth[k]))),
            ("RP({P RP[a;b] a%3=1} FE a)", pairs, L(tuple(kept)))):
        drv.STEPS[0] += 1
        o = run(src, [v.real], cache=True)
        want = calls + res + "\n"
        if o.key != ("ok", want):
            return f"{src!r} on {it} should print {want!r}: {o!r}"
    # derived operators are what their documentation says
    for law in ("(b MF a)==FL(b M a)", "(b MJ a)==J(b M a)",
                "(b MS a)==$+(b M a)", "(b FJ a)==J(b FI a)",
                "(b ME a)==(b MZ(0,#a)a)", "#(b M a)=#a",
                "(b M a)==(a M b)", "(b MM[a;a])==[b M a;b M a]",
                "(#(b FI a))+#(b FN a)=#a", "(FX(b M a))==((!*(b M a))@*0)"):
        drv.STEPS[0] += 1
        o = run(law, [v.real, val(f).real], cache=True)
        if o.key != ("ok", "1\n"):
            return f"{law} fails for a={it}, b={f}: {o!r}"


def sweeps(tier):
    deep = tier == "thorough"
    maps, filters = texts(2, *MAPS), texts(2, *FILTERS)
    un = texts(1, "FILTER", "FILTERNOT", "FILTERINDEXES", "FILTERJOIN",
               "FILTERUNPACK")

    def laws():
        for it in ['""', '"ab"', '"a1b2c"', '[]', '[1]', '[1;2;3]',
                   '[[1;2];[3];4]', '0,5', '["a";"b";"c";"d";"e";"f"]',
                   '[0;"";()]', '-2,3']:
            for f in ("{a}", "{a@0}", "{a=1}", "{[a;a]}", "{a+1}", "{a.a}",
                      "_", "{a~`a`}"):
                yield (it, f)

    def functions():
        for t in maps + filters:
            for f in FNS:
                for it in ITS:
                    yield (f"i:0 P RP(b {t} a) RP[x i]", (it, f))
                    yield (f"i:0 P RP(a {t} b) RP[x i]", (it, f))

    def arguments():
        for t in maps + filters:
            for v in VALUES:
                for w in NOFN + ["{a}", "{a=b}"]:
                    yield (f"RP(a {t} b)", (v, w))
                    yield (f"RP(b {t} a)", (v, w))
                for f in ("{a}", "{a@1}", "{b}"):
                    yield (f"y:a f:5 RP({f} {t} [y]@0)", (v,))
                    yield (f"y:a P RP({f} {t} y) RP y", (v,))
        for t in un:
            yield from unary([t], VALUES + ITS)

    def grids():
        shapes = ["0", "1", "2", "3", '"x"', "2.9", "-1", "[]", "[2]", "[2;3]",
                  "[0;2]", "[2;0]", "[1;2;3]", "1,3", "2,5", "(2,())",
                  '["a";2]', "[[1];2]", "[-1;2]", "()", "`a`", "{a}", '""',
                  '"12"', "3,3"]
        for t in texts(2, "MAPCOORDS"):
            for f in FNS + NOFN:
                for s in shapes:
                    yield (f"i:0 P RP(b {t} a) RP[x i]", (s, f))
            for s in shapes:
                for v in shapes[:10]:
                    yield (f"RP(a {t} b)", (s, v))

    def zips():
        for f in FNS + NOFN:
            for p in ITS[::2] + ['()', '`a`']:
                for q in ITS[1::3] + ['()', '{a}', '(1,())']:
                    yield ("i:0 P RP(a MZ b c) RP[x i]", (f, p, q))
                    yield ("i:0 P RP(b MZ a c) RP[x i]", (f, p, q))

    def regexes():
        rx = ['`b`', '`(.)(.)`', '``', '`(a)|(b)`', '-`B`', '"b"', '`x`',
              '`[ab]+`', '`^`', '`a*`']
        fs = ["{a}", "{b}", "{g}", "{$0.$1}", "{$`}", "{P a}", "{x.:a}", "{a~`a`}",
              "{[a;b;c]}", "_", "{$(.$)}", "{}"]
        for s in ['"abc"', '"ab ab"', '""', '"b"', '"1"', '["ab";"b"]', '()']:
            for r in rx:
                for f in fs + ["()", '"q"', "5"]:
                    yield ("P RP(a MR b c) RP[x $0 $1]", (f, r, s))
                    yield ("P RP(c MR b a) RP[x $0 $1]", (f, r, s))
                    yield ("P RP(b MR a c) RP[x $0 $1]", (f, r, s))
                    yield ("P RP(a MR c b) RP[x $0 $1]", (f, r, s))

    def effects():
        # functions that change what is being mapped over
        acts = ["y@0:9", "PO y", "y:5", "y PB 1", "a@0:7", "y:a", "y:[]",
                "i:a y@i:0", "(y 0):a", "y PU a"]
        for t in maps + filters:
            for v in ("[1;2;3]", '"abc"', "0,3", "[[1;2];[3;4]]"):
                for e in acts:
                    yield (f"y:a z:({{x.:a {e} a}} {t} y) "
                           "RP[y z i a x]", (v,))
                    yield (f"y:a z:({{x.:a {e} b}} {t} y) y@0:8 "
                           "RP[y z i a x]", (v,))

    return [tree_sweep(*MAPS, *FILTERS, "MAPZIP", deep=deep,
                       every=1 if deep else 3),
            large_sweep(*MAPS, *FILTERS, "MAPREGEX", "MAPZIP"),
            Sweep("calls", laws, judge_calls, "calls and results, by law"),
            differential("functions", functions, f"{len(maps + filters)} "
                         f"operators x {len(FNS)} functions x {len(ITS)}"),
            differential("arguments", arguments, "all kinds of operands"),
            differential("grids", grids, "coordinate grids"),
            differential("zips", zips, "parallel mapping"),
            differential("regexes", regexes, "mapping over matches"),
            differential("effects", effects, "callbacks with side effects")]
