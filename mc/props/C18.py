"""A Range behaves like the List of its numbers, lazily."""
from ..lib import *
from .. import drv

LEVEL = "model_checking"
RS = ['0,0', '0,1', '0,2', '0,4', '1,4', '2,3', '-2,1', '5,2', '(),3', '3,3']
INF = ['(0,())', '(2,())', '(-1,())', '(),()']
# operators for which a Range is more than the List of its items
OWN = {"ADD", "SUB", "AT", "LEFTOF", "RIGHTOF", "PREFIX", "SUFFIX", "REPR",
       "STR", "EVAL", "JOIN"}


def judge_same(case):
    """op gives the same on a range and on the list of its numbers."""
    t, form, r, other = case
    src = form.replace("{t}", t)
    rng = val(r)
    if rng.ref.hi is None:
        raise Skip
    lst = tuple(rng.ref.items())
    o = [val(other).real] if other else []
    # (skips numbers that grow too big)
    drv.run_ref(src, [lst] + ([val(other).ref] if other else []), "n")
    one = drv.run_real(src, [rng.real] + o, "n")
    two = drv.run_real(src, [drv.build_real(lst)] + o, "n")
    if one.key != two.key:
        return (f"{src!r} (b={other}) on the range {r}: {one!r}\n"
                f"on the list of its numbers: {two!r}")


def sweeps(tier):
    deep = tier == "thorough"
    from ..ref.table import RANGE_EACH, LIST_EACH
    flat = ["FL", "R", "J", "UQ", "SN", "SS", "DN", "DS", "EN", "Z", "ZJ",
            "CP", "PM", "CH", "FI", "FX", "FN", "MX", "MN", "WV", "PZ", "RF",
            "QP", "QR", "FA", "FJ", "<>", "UW", "FD"]
    flat = [t for t in flat if t in OPS[1]]
    each1 = [t for t, o in OPS[1].items()
             if o.flags & RANGE_EACH and o.fn not in RANDOM_FNS]
    each2 = [t for t, o in OPS[2].items()
             if o.flags & RANGE_EACH and o.fn not in RANDOM_FNS]
    flat2 = ["AE", "PE", "AL", "J", "CB", "CP", "Z", "WV", "^@",
             "CH", "<>", "UW", "JW", "RL"]
    flat2 = [t for t in flat2 if t in OPS[2]]
    maps = ["M", "MF", "MJ", "MS", "ME", "MP", "FI", "FN", "FE", "FX", "FJ",
            "SK", "DK"]
    maps = [t for t in maps if t in OPS[2]]

    def same():
        for r in RS:
            for t in flat + each1:
                yield (t, "P({t} a)", r, None)
            for t in each2:
                for v in ('2', '"a"', '[2;3]', '[]', '1,3'):
                    yield (t, "P(a {t} b)", r, v)
                    yield (t, "P(b {t} a)", r, v)
            for t in flat2:
                for v in ('2', '[2;3]', '"ab"'):
                    yield (t, "P(a {t} b)", r, v)
                    if t in ("AE", "PE"):
                        continue    # the range itself becomes an item
                    yield (t, "P(b {t} a)", r, v)
            for t in maps:
                for f in ("{a*2}", "{a%2}", "{b}", "{a.\"x\"}", "_"):
                    yield (t, "P(b {t} a)", r, f)
                    yield (t, "P(a {t} b)", r, f)
            for t in sorted(OPS[2]):
                if OPS[2][t].fn in RANDOM_FNS or OPS[2][t].flags & 1:
                    continue
                yield (t, "RP $ {t} a", r, None)
                yield (t, "RP \\$ {t} a", r, None)
            for p in ("F i a{P i}", "I a{P 1}EL{P 2}", "P #a", "L a{U i}i",
                      "W a&i<3{U i}i", "[x y]:a RP[x y]", "RP(a 1)",
                      "RP[a@0 a@-1 a@7]", "x:a;PU x 9 RP x", "x:a;PB x 9 RP x",
                      "x:a y:PO x RP[y #x]", "x:a y:DQ x RP[y #x]",
                      "x:a (x 0):9 RP x", "x:a @x:9 RP x", "RP(a RA 0 9)",
                      "x:a y:x PK 1 RP[y #x]", "P a", "O a", "[a]", "a.\"\"",
                      "a=a", "RP(a=[0 1])", "RP([0 1]=a)", "RP(a R 1 9)",
                      "RP(a TR 1 9)", "RP(1 N a)", "RP(a N \"0123\")",
                      "RP({[a b c]} M a)", "RP({[a b c]}V a)",
                      "!a", "a?1 2",
                      "RP(\"abcdefg\"^@a)", "RP(\"abc\"R a 9)"):
                yield ("", p, r, None)

    def lazy():
        for r in INF:
            for k in ("0", "1", "5", "-1", "100000", '"x"'):
                yield ("RP[a@b (a b) a+b b+a a-b b N a b NI a a@?b a@*b]",
                       (r, k))
            # far away, around powers of two and ten
            for e in [2 ** j for j in range(7, 70, 3 if not deep else 1)] + [
                    2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64] + [
                    10 ** j for j in range(3, 21)]:
                for k in (e - 1, e, e + 1, -e):
                    yield ("RP[a@b (a b) b N a b NI a a+b a-b a@[b;1]]",
                           (r, str(k)))
                    yield ("RP[a@(b,b+2) a@(b-1,b+1) a@(b,()) a@((),b)]",
                           (r, str(k)))
            for p in ("RP(a Z \"xyz\")", "RP(\"xyz\"Z a)", "RP a@(1,4)",
                      "RP[a@<3 a@>3]", "RP(a Z[4 5])", "RP a", "a", "RP[a]",
                      "[a;1]", "RP!a", "RP[a=a a==a a<a]", "RP(5*1,3)",
                      "[x y z]:a RP[x y z]", "x:a RP[PO x PO x x]",
                      "x:a y:x@>2 RP[x y]", "RP(a*[3 4])", "RP([3 4]*a)",
                      "RP([3 4],a)", "RP a@[0 2 4]", "RP(a PK 0)", "x:a PK x 0 RP x",
                      "RP #a", "RP R a", "RP SN a", "RP $+a", "RP(a@(2,()))",
                      "RP(a@((),2))", "RP H a", "RP S a", "RP a@<1",
                      "RP(\"abc\"TR a \"xyz\")", "RP EN a", "DQ a", "x:a;DQ x",
                      "RP(a=(0,()))", "RP((2,())=a)", "RP[a#<3 a#=3]",
                      "RP(a CM a)", "RP[a LT a a Q a]", "RP(3 N a)",
                      "RP(\"abc\" @ a)", "RP(a == (0,()))", "RP ST a", "P[a]"):
                yield (p, (r,))

    def walk():
        # short ranges everywhere, each as the list of its numbers
        starts = list(range(-150, 320)) + [
            s * b + d for b in (512, 999, 1000, 1024, 4096, 10000, 32768, 65536,
                                10 ** 6, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63,
                                10 ** 20) for d in (-2, -1, 0, 1)
            for s in (1, -1)]
        for n in starts:
            lst = "[" + ";".join(str(n + k) for k in range(3)) + "]"
            yield (f"x:(({n}),{n + 3}) y:{lst} RP[_ M x;x=y;#x;R x;x@-1;x+0;"
                   f"FL[x];$+x;y@0 N x;y@2 @?x;x@?y@2;{n + 3}N x;{n - 1}N x]"
                   "F i x{O i.s}P x LR`\\d`x{O$0}", ())
        for n in list(range(0, 70)) + [99, 100, 101, 127, 128, 129, 255, 256,
                                       257, 400]:
            yield (f"x:,{n} RP[#x;_ M x;R x;$+x] F i x{{O i.s}} L x{{U y}}y", ())
            yield (f"x:((-{n // 2}),{n - n // 2}) RP[#x;_+1 M x;$MX x;EN x]", ())

    def cuts():
        # every small slice of every small infinite or finite range
        for lo in list(range(-5, 13)) + [41, 100]:
            for a in range(0, 8):
                for b in [None] + list(range(0, 10)):
                    e = "()" if b is None else b
                    yield (f"x:(({lo}),()) y:x@({a},{e}) RP[y;y@0;y@2;y@(1,3);"
                           f"y@(1,());y@((),2);(x {a})]", ())
                    if b is not None and a == 0:
                        yield (f"x:({lo},()) RP[x@<{b};x@>{b};x H {b};x@((),{b})"
                               f";(x@<{b})@-1;(x@>{b})@(1,2);x@[{b};0;{b}]]", ())
            for n in range(0, 6):
                for a in range(-8, 9):
                    for b in [None] + list(range(-8, 9, 1 if deep else 2)):
                        e = "()" if b is None else b
                        if deep or lo in (-3, 0, 4, 41):
                            yield (f"x:({lo},{lo + n}) RP[x@({a},{e});"
                                   f"(_ M x)@({a},{e})]", ())

    def bounds():
        vs = ["()", "0", "3", "-2", "2.7", "-2.7", '""', '"a"', '"4b"',
              "[1;2]", "[2;[3]]", "0,2", "`a`", "{a}"]
        for a in vs:
            yield ("RP[,a \\,a]" if "\\," in OPS[1] else "RP[,a]", (a,))
            for b in vs:
                yield ("RP(a,b)", (a, b))
                yield ("RP(a\\,b)", (a, b))
                yield ("x:(a,b) RP x=x", (a, b))

    def members():
        # numbers and other texts in ranges, at and around the bounds
        items = [repr(k / 4) for k in range(-14, 24)] + \
            [str(k) for k in range(-4, 7)] + \
            ['"1.0"', '"01"', '" 1"', '"1 "', '"-0"', '"-0.5"', '"1e0"', '""',
             '"a"', '"1a"', "()", "[1]", "[]", "1,2", "`1`", "0.9999",
             "-0.0001", "-0.9999", "1.0001", "100000000000000000000",
             "-100000000000000000000", "3.00"]
        for r in RS + INF + ["((),0)", "((),-1)", "(-3,-1)", "(-1,1)"]:
            for v in items:
                yield ("RP[b N a b NI a]", (r, v))
                if r not in INF:
                    yield ("RP[a @? b a @* b [a] N b]", (r, v))
                elif v[0] not in '"-[(`{' and "." not in v and len(v) < 9 \
                        and "," not in v:
                    yield ("RP[a @? b]", (r, v))

    def shifts():
        for r in RS + INF:
            for k in ("2", "-1", "0", "0.5", "1.0", '"a"', "[1;2]", "()", "1,3"):
                for e in ("a+b", "b+a", "a-b", "b-a", "a*b", "+a", "-a"):
                    yield (f"RP({e})", (r, k))
                yield ("x:a x+:b RP x", (r, k))
                yield ("x:a U x D x U x RP x", (r,))

    return [Sweep("same", same, judge_same,
                  f"{len(RS)} ranges, {len(flat + each1)}+"
                  f"{len(flat2 + each2)} operators, folds, commands"),
            differential("lazy", lazy, "infinite ranges"),
            differential("walk", walk, "ranges of 3 at 580 places, of all "
                         "lengths < 70"),
            differential("cuts", cuts, "all small slices of small ranges"),
            differential("bounds", bounds, "all pairs of 14 bounds"),
            differential("members", members, "18 ranges x 70 items"),
            differential("shifts", shifts, "adding to ranges")]
